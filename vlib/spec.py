"""What the documentation says about every indicator: columns it needs and
produces, parameters and defaults, minimum rows, where output begins."""
from hypothesis import strategies as st

CL = ("close",)
HL = ("high", "low")
HLC = ("high", "low", "close")
HLCV = ("high", "low", "close", "volume")


class Ind:
    def __init__(self, name, cols, outs, need=0, first=None, params=None, defaults=None,
                 rounding=4, drop=None, causal=True):
        self.name = name
        self.cols = cols
        self._outs = outs
        self._need = need
        self._first = first
        self.params = params or (lambda hi: st.just({}))
        self.defaults = defaults or {}
        self.rounding = rounding
        self._drop = drop
        self.causal = causal

    def full(self, p):
        d = dict(self.defaults)
        d.update(p)
        return d

    def outs(self, p):
        return self._outs(self.full(p)) if callable(self._outs) else list(self._outs)

    def need(self, p):
        """Fewest input rows the constructor accepts (at least 1)."""
        v = self._need(self.full(p)) if callable(self._need) else self._need
        return max(1, v)

    def drop(self, p):
        return self._drop(self.full(p)) if self._drop else 0

    def first(self, p):
        """column -> first row with a value, for data without gaps."""
        f = self._first(self.full(p)) if callable(self._first) else self._first
        if not isinstance(f, dict):
            f = {c: (f or 0) for c in self.outs(p)}
        return f

    def warm(self, p):
        """rows needed until every output column has a value"""
        return max(self.need(p), max(self.first(p).values()) + 1 + self.drop(p))


def lim(top, cap):
    """small parameters, unless the caller asks for wide ones"""
    return cap if cap > 30 else min(top, cap)


def ints(lo, hi):
    """wide ranges: every other one from the upper half"""
    if hi <= 30:
        return st.integers(lo, hi)
    return st.one_of(st.integers(max(lo, hi // 2), hi), st.integers(lo, hi))


def _p(lo=1, hi=20, name="period", extra=()):
    def make(cap):
        top = max(lo, lim(hi, cap))
        return st.fixed_dictionaries({name: ints(lo, top)})
    return make


def real(samples, lo, hi):
    """typical values, any value of the open interval and values next to its ends"""
    return st.one_of(st.sampled_from(samples), st.sampled_from(samples),
                     st.floats(lo, hi, exclude_min=True, exclude_max=True, allow_subnormal=False
                               ).map(lambda x: min(max(round(x, 9), lo + 1e-9), hi - 1e-9)),
                     st.sampled_from([lo + 1e-9, hi - 1e-9]))


REG = {}


def add(*a, **k):
    i = Ind(*a, **k)
    REG[i.name] = i


P = lambda d: d["period"]
add("AccumulationDistributionLine", HLCV, ["adl"], rounding=None)
add("AverageTrueRange", HLC, ["atr"], need=14, first=13)
add("BollingerBands", CL, ["middle_band", "upper_band", "lower_band"], need=P,
    first=lambda d: d["period"] - 1, defaults={"period": 20, "std_number": 2},
    params=lambda hi: st.fixed_dictionaries({"period": ints(1, lim(20, hi)),
                                             "std_number": real([1, 2, 3, 0.5, 1.5, 2.5], 0.0, 8.0)}))
add("ChaikinMoneyFlow", HLCV, ["cmf"], need=P, first=lambda d: d["period"] - 1,
    params=_p(), defaults={"period": 5})
add("ChaikinOscillator", HLCV, ["co"], need=10, first=9)
add("ChandeMomentumOscillator", CL, ["cmo"], need=P, first=P, params=_p(), defaults={"period": 5})
add("CommodityChannelIndex", HLC, ["cci"], need=P, first=lambda d: d["period"] - 1,
    params=_p(), defaults={"period": 5})
add("DetrendedPriceOscillator", CL, ["dpo"], need=P,
    first=lambda d: max(0, d["period"] - 2 - d["period"] // 2), params=_p(),
    defaults={"period": 6}, drop=lambda d: 1 + d["period"] // 2, causal=False)
add("DirectionalMovementIndex", HLC, ["+di", "-di", "dx", "adx", "adxr"], need=28,
    first={"+di": 14, "-di": 14, "dx": 14, "adx": 27, "adxr": 40})
add("DoubleExponentialMovingAverage", CL, ["dema"], need=P,
    first=lambda d: 2 * (d["period"] - 1), params=_p(), defaults={"period": 5})
add("EaseOfMovement", ("high", "low", "volume"), ["emv", "emv_ma"],
    need=lambda d: max(2, d["period"]), first=lambda d: {"emv": 1, "emv_ma": d["period"]},
    params=_p(), defaults={"period": 40})
add("Envelopes", CL, ["upper_band", "lower_band"], need=P, first=lambda d: d["period"] - 1,
    defaults={"period": 20, "shift": 0.1},
    params=lambda hi: st.fixed_dictionaries({"period": ints(1, lim(20, hi)),
                                             "shift": real([0.01, 0.05, 0.1, 0.25, 0.5, 0.9], 0.0, 1.0)}))
add("FibonacciRetracement", CL, ["rl_0.0", "rl_23.6", "rl_38.2", "rl_50.0", "rl_61.8", "rl_100.0"],
    causal=False)
add("ForecastOscillator", CL, ["fosc"], need=P, first=P, params=_p(2), defaults={"period": 14})
add("IchimokuCloud", HL + ("close",), ["tenkan_sen", "kijun_sen", "senkou_a", "senkou_b"],
    first={"tenkan_sen": 0, "kijun_sen": 0, "senkou_a": 26, "senkou_b": 26})
add("IntradayMomentumIndex", ("open", "close"), ["imi"], need=P, first=lambda d: d["period"] - 1,
    params=_p(), defaults={"period": 14})
add("KlingerOscillator", HLCV, ["ko"], need=55, first=55)
add("LinearRegressionIndicator", CL, ["lri"], need=P, first=lambda d: d["period"] - 1,
    params=_p(2), defaults={"period": 14})
add("LinearRegressionSlope", CL, ["lrs"], need=P, first=lambda d: d["period"] - 1,
    params=_p(2), defaults={"period": 14})
add("MarketFacilitationIndex", ("high", "low", "volume"), ["mfi"], rounding=10)
add("MassIndex", HLC, ["mi"], need=25, first=40)
add("MedianPrice", HLC, ["mp"], params=_p(), defaults={"period": 20})
add("Momentum", CL, ["mom"], need=P, first=P, params=_p(), defaults={"period": 12})
_MAT = ["simple", "exponential", "time_series", "triangular", "variable"]
add("MovingAverage", CL, lambda d: ["ma-" + d["ma_type"]],
    need=lambda d: max(22, d["period"]) if d["ma_type"] == "variable" else d["period"],
    first=lambda d: {"ma-" + d["ma_type"]: 21 if d["ma_type"] == "variable" else
                     (2 if d["ma_type"] == "triangular" else 1) * (d["period"] - 1)},
    params=lambda hi: st.sampled_from(_MAT).flatmap(lambda t: st.fixed_dictionaries(
        {"period": ints(2 if t == "time_series" else 1, max(2, lim(20, hi))),
         "ma_type": st.just(t)})),
    defaults={"period": 20, "ma_type": "simple"})
add("MovingAverageConvergenceDivergence", CL, ["macd", "signal_line"], need=26,
    first={"macd": 25, "signal_line": 33})
add("NegativeVolumeIndex", ("close", "volume"), ["nvi"], need=2)
add("OnBalanceVolume", ("close", "volume"), ["obv"], rounding=None)
add("ParabolicSAR", HLC, ["sar"], need=2)
add("Performance", CL, lambda d: ["prf", "target_" + d["mode"]],
    defaults={"mode": "LONG", "target": 0.05},
    params=lambda hi: st.one_of(
        st.fixed_dictionaries({"mode": st.just("LONG"),
                               "target": real([0.01, 0.05, 0.25, 1.0, 2.5, 1], 0.0, 4.0)}),
        st.fixed_dictionaries({"mode": st.just("SHORT"),
                               "target": real([-0.01, -0.05, -0.25, -0.5, -1], -1.0, 0.0)})))
add("PositiveVolumeIndex", ("close", "volume"), ["pvi"], need=2)
add("PriceAndVolumeTrend", ("close", "volume"), ["pvt"], need=2)
add("PriceChannel", HLC, ["highest_high", "lowest_low"], need=P, first=P,
    params=_p(), defaults={"period": 5})
add("PriceOscillator", CL, ["posc"], need=lambda d: d["long_ma"], first=lambda d: d["long_ma"] - 1,
    defaults={"long_ma": 30, "short_ma": 10},
    params=lambda hi: ints(2, max(2, lim(30, hi))).flatmap(
        lambda L: st.fixed_dictionaries({"long_ma": st.just(L), "short_ma": ints(1, L - 1)})))
add("PriceRateOfChange", CL, ["prc"], need=P, first=P, params=_p(), defaults={"period": 25})
add("ProjectionBands", HLC, ["upper_band", "lower_band"], need=P, first=lambda d: d["period"] - 1,
    params=_p(2), defaults={"period": 14})
add("ProjectionOscillator", HLC, ["posc", "trigger_line"], need=P,
    first=lambda d: {"posc": d["period"] - 1, "trigger_line": d["period"] + 1},
    params=_p(2), defaults={"period": 14})
add("Qstick", ("open", "close"), ["qstick"], need=P, first=lambda d: d["period"] - 1,
    params=_p(), defaults={"period": 8})
add("RangeIndicator", HLCV, ["ri"], need=lambda d: max(d["range_period"], d["smoothing_period"]),
    first=lambda d: d["range_period"] + d["smoothing_period"] - 1,
    defaults={"range_period": 5, "smoothing_period": 3},
    params=lambda hi: st.fixed_dictionaries({"range_period": ints(1, lim(12, hi)),
                                             "smoothing_period": ints(1, lim(8, hi))}))
add("RelativeMomentumIndex", CL, ["rmi"], need=lambda d: d["period"] + d["momentum_period"],
    first=lambda d: d["period"] + d["momentum_period"] - 1,
    defaults={"period": 8, "momentum_period": 4},
    params=lambda hi: st.fixed_dictionaries({"period": ints(1, max(1, lim(12, hi // 2))),
                                             "momentum_period": ints(1, max(1, lim(8, hi // 2)))}))
add("RelativeStrengthIndex", CL, ["rsi"], need=lambda d: d["period"] + 1, first=P,
    params=lambda hi: st.fixed_dictionaries({"period": ints(1, max(1, lim(20, hi - 1)))}),
    defaults={"period": 14})
add("RelativeVolatilityIndex", HL, ["rvi"], need=lambda d: d["period"] + 10,
    first=lambda d: d["period"] + 8, defaults={"period": 5},
    params=lambda hi: st.fixed_dictionaries({"period": ints(1, max(1, lim(14, hi - 10)))}))
add("StandardDeviation", CL, ["sd"], need=P, first=lambda d: d["period"] - 1,
    params=_p(), defaults={"period": 20})
add("StochasticMomentumIndex", HLC, ["smi"], need=P,
    first=lambda d: d["period"] + d["smoothing_period"] + d["double_smoothing_period"] - 3,
    defaults={"period": 5, "smoothing_period": 3, "double_smoothing_period": 3},
    params=lambda hi: st.fixed_dictionaries({"period": ints(1, lim(14, hi)),
                                             "smoothing_period": ints(1, 8),
                                             "double_smoothing_period": ints(1, 8)}))
add("StochasticOscillator", HLC, ["%K", "%D"], need=lambda d: d["k_periods"],
    first=lambda d: {"%K": d["k_periods"] + d["k_slowing_periods"] - 2,
                     "%D": d["k_periods"] + d["k_slowing_periods"] + d["d_periods"] - 3},
    defaults={"k_periods": 14, "k_slowing_periods": 1, "d_periods": 3, "d_method": "simple"},
    params=lambda hi: st.fixed_dictionaries({"k_periods": ints(1, lim(14, hi)),
                                             "k_slowing_periods": st.sampled_from([1, 3]),
                                             "d_periods": ints(1, 6),
                                             "d_method": st.sampled_from(["simple", "exponential"])}))
add("SwingIndex", ("open", "high", "low", "close"), ["swi"], first=1)
add("TimeSeriesForecast", CL, ["tsf"], need=P, first=lambda d: d["period"] - 1,
    params=_p(2), defaults={"period": 14})
add("TripleExponentialMovingAverage", CL, ["tema"], need=P,
    first=lambda d: 3 * (d["period"] - 1), params=_p(), defaults={"period": 5})
add("TypicalPrice", HLC, ["tp"], params=_p(), defaults={"period": 200})
add("UltimateOscillator", HLC, ["uosc"], need=28, first=28)
add("VerticalHorizontalFilter", CL, ["vhf"], need=P, first=P, params=_p(), defaults={"period": 5})
add("VolatilityChaikins", HL, ["vch"], need=lambda d: max(d["ema_period"], d["change_period"]),
    first=lambda d: d["ema_period"] + d["change_period"] - 1,
    defaults={"ema_period": 10, "change_period": 10},
    params=lambda hi: st.fixed_dictionaries({"ema_period": ints(1, lim(14, hi)),
                                             "change_period": ints(1, lim(14, hi))}))
add("VolumeOscillator", ("volume",), ["vosc"], need=lambda d: d["long_period"],
    first=lambda d: d["long_period"] - 1, defaults={"long_period": 5, "short_period": 2},
    params=lambda hi: ints(2, max(2, lim(20, hi))).flatmap(
        lambda L: st.fixed_dictionaries({"long_period": st.just(L),
                                         "short_period": ints(1, L - 1)})))
add("VolumeRateOfChange", ("volume",), ["vrc"], need=P, first=P, params=_p(), defaults={"period": 5})
add("WeightedClose", HLC, ["wc"])
add("WildersSmoothing", CL, ["ws"], need=P, first=lambda d: d["period"] - 1, params=_p(),
    defaults={"period": 5})
add("WilliamsAccumulationDistribution", HLC, ["wad"], first=1)
add("WilliamsR", HLC, ["wr"], need=P, first=lambda d: d["period"] - 1, params=_p(),
    defaults={"period": 5})

NAMES = sorted(REG)
assert len(NAMES) == 57, len(NAMES)

"""Indicator values against the reference models (ref.py)."""
import math

from hypothesis import strategies as st

from vlib import gen, ref, spec
from vlib.core import Check, Target, Violation
from vlib.lab import case_for, columns, inputs, make, moving, ti_data

# indicators whose definition branches on comparing sums/differences of prices:
# generated on a binary grid so that the comparison itself is exact
EXACT = {"DirectionalMovementIndex", "KlingerOscillator", "ParabolicSAR", "RangeIndicator",
         "RelativeVolatilityIndex"}

FAMILIES = {
    "V01": ["MovingAverage", "DoubleExponentialMovingAverage", "TripleExponentialMovingAverage",
            "WildersSmoothing", "MovingAverageConvergenceDivergence", "PriceOscillator",
            "DetrendedPriceOscillator", "Qstick"],
    "V02": ["BollingerBands", "Envelopes", "PriceChannel", "ProjectionBands",
            "ProjectionOscillator", "LinearRegressionIndicator", "LinearRegressionSlope",
            "TimeSeriesForecast", "ForecastOscillator", "StandardDeviation",
            "FibonacciRetracement"],
    "V03": ["ChandeMomentumOscillator", "RelativeStrengthIndex", "RelativeMomentumIndex",
            "IntradayMomentumIndex", "RelativeVolatilityIndex", "Momentum", "PriceRateOfChange",
            "CommodityChannelIndex", "Performance", "SwingIndex"],
    "V04": ["StochasticOscillator", "StochasticMomentumIndex", "WilliamsR", "UltimateOscillator",
            "RangeIndicator", "VerticalHorizontalFilter", "AverageTrueRange",
            "DirectionalMovementIndex", "ParabolicSAR", "IchimokuCloud", "MassIndex",
            "VolatilityChaikins"],
    "V05": ["AccumulationDistributionLine", "ChaikinMoneyFlow", "ChaikinOscillator",
            "KlingerOscillator", "EaseOfMovement", "MarketFacilitationIndex",
            "NegativeVolumeIndex", "PositiveVolumeIndex", "PriceAndVolumeTrend",
            "OnBalanceVolume", "VolumeOscillator", "VolumeRateOfChange",
            "WilliamsAccumulationDistribution", "MedianPrice", "TypicalPrice", "WeightedClose"],
}
assert sorted(sum(FAMILIES.values(), [])) == spec.NAMES

U = 0.5e-4 * (1 + 1e-6)          # half a unit of the 4th decimal


def scale(xs):
    return max([1.0] + [abs(x) for x in xs if x == x and not math.isinf(x)])


def expected(name, d, p):
    """{column: (reference values, absolute tolerances)}: half a unit of the
    published precision, plus what published intermediate roundings imply."""
    raw = ref.reference(name, d, p)
    n = len(d["close"])
    price = scale(d["high"])
    noise = 1e-12 * max(scale(v) for v in raw.values()) + 1e-11
    tol = {c: [U + noise] * len(v) for c, v in raw.items()}
    # regression on row numbers: sums of row number times price, and the
    # difference of their products
    per = p.get("period") or 1
    line = [64 * 2.3e-16 * price * (i + 1) ** 2 / per for i in range(n)]
    if name == "MarketFacilitationIndex":
        tol["mfi"] = [0.5e-10 * (1 + 1e-4) + 1e-15] * n
    elif name == "AccumulationDistributionLine":
        tol["adl"] = [1.0 + 1e-9 + 1e-12 * scale(raw["adl"])] * n
    elif name == "ChaikinOscillator":
        # built on whole-unit accumulation values
        a = scale(ref.AccumulationDistributionLine(d, p)["adl"])
        tol["co"] = [U + 1e-12 * a + 1e-9] * n
        # a truncation that may fall either way is worth one unit
        tr = ref.AccumulationDistributionLine(d, p)["adl"]
        if any(x == x and not math.isinf(x) and abs(x - round(x)) < 1e-6 and x != round(x)
               for x in tr):
            tol["co"] = [1.1] * n
    elif name == "BollingerBands":
        m = ref.sma(d["close"], p["period"])
        s = ref.roll(d["close"], p["period"], ref.pstd)
        k = p["std_number"]
        raw = {"middle_band": m, "upper_band": [a + k * b for a, b in zip(m, s)],
               "lower_band": [a - k * b for a, b in zip(m, s)]}
        t = U + 1e-12 * price
        # a variance which is zero up to noise has a standard deviation of
        # about sqrt(noise)
        w = t + U + k * 1e-8 * price * 0.1
        tol = {"middle_band": [t] * n, "upper_band": [w] * n, "lower_band": [w] * n}
    elif name == "StandardDeviation":
        tol["sd"] = [U + 1e-9 * price] * n
    elif name == "MovingAverageConvergenceDivergence":
        a, b = ref.ema(d["close"], 12), ref.ema(d["close"], 26)
        m = ref.zipf(lambda x, y: x - y, a, b)
        raw = {"macd": m, "signal_line": ref.ema(m, 9)}
        tol = {"macd": [2 * U + noise] * n, "signal_line": [3 * U + noise] * n}
    elif name == "StochasticOscillator":
        tol["%D"] = [2 * U + noise] * n
    elif name == "TimeSeriesForecast":
        tol["tsf"] = [2 * U + noise + 1e-11 * price + e for e in line]
    elif name == "LinearRegressionIndicator":
        tol["lri"] = [U + 1e-11 * price + e for e in line]
    elif name == "LinearRegressionSlope":
        tol["lrs"] = [U + noise + e / per for e in line]
    elif name == "MovingAverage":
        c = "ma-" + p["ma_type"]
        if p["ma_type"] == "time_series":
            tol[c] = [2 * U + noise + 1e-11 * price + e for e in line]
        elif p["ma_type"] == "variable":
            rng = max(d["close"]) - min(d["close"])
            tol[c] = [U + 2e-6 * rng + noise] * n
    elif name == "ForecastOscillator":
        tol["fosc"] = [U + 100 * (2.1 * U + e) / c for c, e in zip(d["close"], line)]
    elif name == "ProjectionOscillator":
        b = ref.ProjectionBands(d, p)
        t = []
        for u, w in zip(b["upper_band"], b["lower_band"]):
            width = u - w
            t.append(U + 100 * 4.2 * U / width if width == width and width > 0.02 else math.inf)
        worst = []
        m = 0.0
        for x, v in zip(t, raw["posc"]):
            if v == v:
                m = max(m, x)
            worst.append(m + U)
        tol = {"posc": t, "trigger_line": worst}
    elif name == "RelativeStrengthIndex":
        m = p["period"]
        up, dn = ref.ud(d["close"])
        a, b = ref.wilder(up, 1, m), ref.wilder(dn, 1, m)
        raw = {"rsi": ref.zipf(lambda x, y: ref.div(100 * x, x + y, 1e-9), a, b)}
        # both averages are carried with 4 decimals
        t = []
        for x, y in zip(a, b):
            e = (m + 1) * U
            s = x + y
            t.append(U + 100 * e / (s - 2 * e) if s == s and s > 40 * e else
                     math.inf if s == s else U)
        tol = {"rsi": t}
    elif name == "RelativeVolatilityIndex":
        tol["rvi"] = [U + noise + 2e-11 * price] * n
    elif name == "CommodityChannelIndex":
        tol["cci"] = [U + 1e-7 * abs(x) if x == x else U for x in raw["cci"]]
    return raw, tol


def oracle(case):
    name, fr = case["ind"], case["frame"]
    s = spec.REG[name]
    p = s.full(case["params"])
    out = columns(ti_data(make(name, gen.build(fr, s.cols), case["params"]), name), name,
                  case["params"])
    raw, tol = expected(name, inputs(fr), p)
    first = s.first(case["params"])
    compared = degenerate = 0
    for c, got in out.items():
        want, lim = raw[c], tol[c]
        if len(got) != len(want):
            raise Violation("%s %s: %d rows instead of %d" % (name, p, len(got), len(want)))
        for i in range(len(got)):
            if i < first[c]:
                continue
            if ref.bad(want[i]) or math.isinf(lim[i]):
                degenerate += 1
                continue
            compared += 1
            if not abs(got[i] - want[i]) <= lim[i]:
                raise Violation("%s %s: %s at row %d of %d is %r, its definition gives %.6f" % (
                    name, p, c, i, fr["n"], got[i], want[i]))
    labels = [name, "default params" if not case["params"] else "chosen params"]
    labels += ["compared cells"] if compared else []
    if degenerate:
        labels.append("has undefined cells")
    return compared > 0 and moving(fr), labels


def strategy(name):
    kw = {"grids": (0.125, 0.125, 1)} if name in EXACT else {}
    lo = 0
    s = spec.REG[name]
    full = s.warm({})
    if name in ("KlingerOscillator", "MassIndex", "DirectionalMovementIndex", "IchimokuCloud",
                "UltimateOscillator", "MovingAverageConvergenceDivergence"):
        lo = full - s.need({})
    kw["min_n"] = 4
    return lambda: case_for(name, lo_extra=lo, hi_extra=70, wide=5,
                            bases=gen.ANY_BASE, **kw)


def years(name):
    """a decade of daily prices, and parameters to match"""
    s = spec.REG[name]

    @st.composite
    def build(draw):
        p = draw(s.params(draw(st.sampled_from((20, 250, 1000)))))
        if draw(st.integers(0, 2)) == 0:
            p = {}
        lo = max(s.need(p), 1000)
        kw = {"grids": (0.125, 0.125, 1)} if name in EXACT else {}
        return {"ind": name, "params": p,
                "frame": draw(gen.long_frames(lo, lo + 1600, bases=gen.ANY_BASE, **kw))}
    return build()


def family(pid):
    def make_check():
        return Check(
            pid,
            "OHLCV series of 2..150 rows from mixed regimes (trend, oscillation, flat, gaps), "
            "binary-grid / cent / integer prices, random parameters (a quarter with the "
            "documented defaults); every published cell is compared with a loop-level reference "
            "model within half a unit of the 4th decimal. Non-trivial: closes are not constant "
            "and at least one defined cell was compared.",
            [Target(n, strategy(n), oracle, quick=800, thorough=12000, chunk=200,
                    cost=3.0 if n in ("RelativeVolatilityIndex", "RelativeMomentumIndex",
                                      "RangeIndicator") else 1.0)
             for n in FAMILIES[pid]] +
            [Target("years/" + n, (lambda n=n: years(n)), oracle, quick=12, thorough=160, chunk=4,
                    cost=40.0) for n in FAMILIES[pid]],
            ["0/0 quotients are unspecified and not compared",
             "reference formulas are the ones the project documents/implements, re-coded as loops"])
    return make_check


CHECKS = {pid: family(pid) for pid in FAMILIES}

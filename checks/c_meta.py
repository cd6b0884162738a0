"""Relations between indicator values that need no reference formula: bounds,
identities between indicators, change of units, translation and reflection,
closed-form markets, bounded memory."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks.c_values import U, expected
from vlib import gen, ref, spec
from vlib.core import Check, Skip, Target, Violation
from vlib.lab import (case_for, columns, compare_twins, inputs, make, moving, stub_graphs,
                      ti_data)

BIN = (0.125, 0.125, 1)
SLOW = {"RelativeVolatilityIndex", "RelativeMomentumIndex", "RangeIndicator", "ParabolicSAR"}
NAN = float("nan")


def values(name, fr, params, n=None):
    s = spec.REG[name]
    return columns(ti_data(make(name, gen.build(fr, s.cols), params), name), name, params, n)


def with_cols(fr, **cols):
    out = dict(fr)
    out.update(cols)
    out["n"] = len(out["close"])
    for c in gen.COLS:
        out[c] = out[c][-out["n"]:]
    return out


# ------------------------------------------------------------------- M01 bounds
def run_min(x):
    return list(np.minimum.accumulate(x))


def run_max(x):
    return list(np.maximum.accumulate(x))


def const(n, v):
    return [v] * n


def between(col, lo, hi):
    return lambda d, t, p: [(col, t[col], lo, hi)]


def in_unit(*cols):
    return lambda d, t, p: [(c, t[c], 0.0, 100.0) for c in cols]


def positive(*cols):
    return lambda d, t, p: [(c, t[c], 0.0, math.inf) for c in cols]


def price_so_far(*cols):
    return lambda d, t, p: [(c, t[c], run_min(d["low"]), run_max(d["high"])) for c in cols]


def win(x, n, f):
    return [f(x[max(0, i - n + 1):i + 1]) for i in range(len(x))]


def close_window(col, n=lambda p: p["period"]):
    return lambda d, t, p: [(col, t[col], win(d["close"], n(p), min), win(d["close"], n(p), max))]


def close_so_far(col):
    return lambda d, t, p: [(col, t[col], run_min(d["close"]), run_max(d["close"]))]


def in_bar(col):
    return lambda d, t, p: [(col, t[col], d["low"], d["high"])]


def bollinger(d, t, p):
    half = [p["std_number"] * (a - b) / 2 for a, b in zip(win(d["close"], p["period"], max),
                                                          win(d["close"], p["period"], min))]
    yield from close_window("middle_band")(d, t, p)
    for c, s in (("upper_band", 1), ("lower_band", -1)):
        gap = [s * (a - b) for a, b in zip(t[c], t["middle_band"])]
        yield c + " distance", gap, -1.2e-4, [x + 1.2e-4 for x in half]


def enclose(d, t, p):
    """bands which contain the prices they project"""
    up, lo = t["upper_band"], t["lower_band"]
    yield "upper_band", up, d["high"], math.inf
    yield "lower_band", lo, -math.inf, d["low"]


def envelopes(d, t, p):
    lo, hi = win(d["close"], p["period"], min), win(d["close"], p["period"], max)
    yield "upper_band", t["upper_band"], [(1 + p["shift"]) * x for x in lo], [
        (1 + p["shift"]) * x for x in hi]
    yield "lower_band", t["lower_band"], [(1 - p["shift"]) * x for x in lo], [
        (1 - p["shift"]) * x for x in hi]


def channel(d, t, p):
    yield "highest_high", t["highest_high"], ref.lag(d["high"], 1), math.inf
    yield "lowest_low", t["lowest_low"], -math.inf, ref.lag(d["low"], 1)
    yield "highest_high", t["highest_high"], t["lowest_low"], run_max(d["high"])
    yield "lowest_low", t["lowest_low"], run_min(d["low"]), math.inf


def fibonacci(d, t, p):
    names = ["rl_0.0", "rl_23.6", "rl_38.2", "rl_50.0", "rl_61.8", "rl_100.0"]
    n = len(d["close"])
    yield names[0], t[names[0]], const(n, max(d["close"])), const(n, max(d["close"]))
    yield names[5], t[names[5]], const(n, min(d["close"])), const(n, min(d["close"]))
    for a, b in zip(names, names[1:]):
        yield b, t[b], -math.inf, t[a]


def dmi(d, t, p):
    yield from in_unit("+di", "-di", "dx", "adx", "adxr")(d, t, p)
    yield "+di and -di together", [a + b for a, b in zip(t["+di"], t["-di"])], 0, 100.0001


def atr(d, t, p):
    tr = ref.true_range(d["high"], d["low"], d["close"], True)
    yield "atr", t["atr"], run_min(tr), run_max(tr)


def obv(d, t, p):
    s = list(np.cumsum(d["volume"]))
    yield "obv", t["obv"], [-x for x in s], s


def adl(d, t, p):
    s = [x * (1 + 1e-9) + 1 for x in np.cumsum(d["volume"])]
    yield "adl", t["adl"], [-x for x in s], s


def moving_average(d, t, p):
    c = "ma-" + p["ma_type"]
    if p["ma_type"] in ("simple", "triangular"):
        yield from close_window(c, lambda q: q["period"] * (2 if q["ma_type"] == "triangular"
                                                            else 1))(d, t, p)
    elif p["ma_type"] in ("exponential", "variable"):
        yield from close_so_far(c)(d, t, p)


def sd(d, t, p):
    half = [(a - b) / 2 for a, b in zip(win(d["close"], p["period"], max),
                                        win(d["close"], p["period"], min))]
    yield "sd", t["sd"], 0.0, half


def vosc(d, t, p):
    n = p["long_period"]
    r = [a - b for a, b in zip(win(d["volume"], n, max), win(d["volume"], n, min))]
    yield "vosc", t["vosc"], [-x for x in r], r


def ichimoku(d, t, p):
    for c in ("tenkan_sen", "kijun_sen", "senkou_a", "senkou_b"):
        yield c, t[c], run_min(d["low"]), run_max(d["high"])


def wad(d, t, p):
    r = [0.0] + [max(d["high"][i], d["close"][i - 1]) - min(d["low"][i], d["close"][i - 1])
                 for i in range(1, len(d["close"]))]
    yield "wad", t["wad"], [-x for x in r], r


def direction_index(name, up):
    """NVI moves only when volume falls, PVI only when it rises; both stay
    positive and move in the direction of the close"""
    def f(d, t, p):
        x, c, v = t[name], d["close"], d["volume"]
        yield name, x, 0.0, math.inf
        lo, hi = [NAN], [NAN]
        for i in range(1, len(x)):
            act = v[i] > v[i - 1] if up else v[i] < v[i - 1]
            lo.append(-math.inf if act and c[i] < c[i - 1] else x[i - 1])
            hi.append(math.inf if act and c[i] > c[i - 1] else x[i - 1])
        yield name, x, lo, hi
    return f


BOUNDS = {
    "RelativeStrengthIndex": in_unit("rsi"), "RelativeMomentumIndex": in_unit("rmi"),
    "IntradayMomentumIndex": in_unit("imi"), "RelativeVolatilityIndex": in_unit("rvi"),
    "StochasticOscillator": in_unit("%K", "%D"), "UltimateOscillator": in_unit("uosc"),
    "RangeIndicator": in_unit("ri"), "ProjectionOscillator": in_unit("posc", "trigger_line"),
    "DirectionalMovementIndex": dmi,
    "ChandeMomentumOscillator": between("cmo", -100.0, 100.0),
    "StochasticMomentumIndex": between("smi", -100.0, 100.0),
    "SwingIndex": between("swi", -100.0, 100.0),
    "WilliamsR": between("wr", -100.0, 0.0), "ChaikinMoneyFlow": between("cmf", -1.0, 1.0),
    "VerticalHorizontalFilter": between("vhf", 0.0, 1.0),
    "CommodityChannelIndex": lambda d, t, p: [("cci", t["cci"], -p["period"] / 0.03 - 0.01,
                                               p["period"] / 0.03 + 0.01)],
    "StandardDeviation": sd, "AverageTrueRange": atr,
    "MarketFacilitationIndex": positive("mfi"), "MassIndex": positive("mi"),
    "Momentum": positive("mom"), "PriceRateOfChange": between("prc", -100.0, math.inf),
    "VolumeRateOfChange": between("vrc", -100.0, math.inf),
    "VolatilityChaikins": between("vch", -100.0, math.inf),
    "Performance": between("prf", -1.0, math.inf),
    "BollingerBands": bollinger, "Envelopes": envelopes, "ProjectionBands": enclose,
    "PriceChannel": channel, "FibonacciRetracement": fibonacci, "MovingAverage": moving_average,
    "WildersSmoothing": close_so_far("ws"), "IchimokuCloud": ichimoku,
    "ParabolicSAR": price_so_far("sar"), "MedianPrice": in_bar("mp"), "TypicalPrice": in_bar("tp"),
    "WeightedClose": in_bar("wc"), "OnBalanceVolume": obv, "AccumulationDistributionLine": adl,
    "VolumeOscillator": vosc, "WilliamsAccumulationDistribution": wad,
    "NegativeVolumeIndex": direction_index("nvi", False),
    "PositiveVolumeIndex": direction_index("pvi", True),
}


def bounds_case(name):
    s = spec.REG[name]
    room = max(0, s.warm({}) - s.need({}))

    @st.composite
    def build(draw):
        if draw(st.integers(0, 9)) == 9 and name not in SLOW:
            fr = draw(gen.long_frames(200, 500, grids=BIN))
            return {"ind": name, "params": draw(s.params(20)), "frame": fr}
        return draw(case_for(name, lo_extra=room // 2, hi_extra=room + 50, min_n=3, grids=BIN,
                             vmodes=("steps", "wide", "huge", "trend", "zero")))
    return build()


def bounds(case):
    name, fr = case["ind"], case["frame"]
    p = spec.REG[name].full(case["params"])
    d = inputs(fr)
    t = values(name, fr, case["params"])
    n = 0
    for what, x, lo, hi in BOUNDS[name](d, t, p):
        for i, v in enumerate(x):
            a = lo[i] if isinstance(lo, list) else lo
            b = hi[i] if isinstance(hi, list) else hi
            if v != v:
                continue
            n += a == a
            tol = 0.6e-4 if isinstance(lo, list) or isinstance(hi, list) else 1e-9
            if a > b:
                raise Violation("%s %s: %s at row %d: bounds %r..%r" % (name, p, what, i, a, b))
            if v < a - tol - 1e-12 * abs(a) or v > b + tol + 1e-12 * abs(b) or (
                    math.isinf(v) and name not in ("MarketFacilitationIndex", "VolumeRateOfChange",
                                                   "VolatilityChaikins")):
                raise Violation("%s %s: %s at row %d is %r, outside %r..%r" % (
                    name, p, what, i, v, a, b))
    return n > 0 and moving(fr), [name] + (["long history"] if fr["n"] >= 200 else [])


# --------------------------------------------------------------- M02 identities
def MA(x, n, kind="simple"):
    """a moving average of any series, by the library itself; NaN prefix kept"""
    k = next((i for i, v in enumerate(x) if v == v), len(x))
    tail = x[k:]
    if len(tail) < n:
        return [NAN] * len(x)
    df = pd.DataFrame({"close": tail}, index=pd.date_range("2015-01-01", periods=len(tail)))
    p = {"period": n, "ma_type": kind}
    out = columns(ti_data(make("MovingAverage", df, p), "MovingAverage"), "MovingAverage", p)
    return [NAN] * k + out["ma-" + kind]


def ok_close(what, got, want, tol):
    if len(got) != len(want):
        raise Violation("%s: %d against %d rows" % (what, len(got), len(want)))
    k = 0
    for i, (a, b) in enumerate(zip(got, want)):
        w = tol[i] if isinstance(tol, list) else tol
        if b != b or math.isinf(b) or a != a and math.isinf(w) or math.isinf(w):
            continue
        k += 1
        if not abs(a - b) <= w + 1e-10 * abs(b):
            raise Violation("%s at row %d: %r against %r" % (what, i, a, b))
    return k


def op(f, *xs):
    out = []
    for t in zip(*xs):
        try:
            out.append(NAN if any(v != v for v in t) else f(*t))
        except ZeroDivisionError:
            out.append(NAN)
    return out


def id_dema(fr, n, m, d):
    e = MA(d["close"], n, "exponential")
    e2 = MA(e, n, "exponential")
    yield "DEMA = 2 EMA - EMA(EMA)", values("DoubleExponentialMovingAverage", fr, {"period": n})[
        "dema"], op(lambda a, b: 2 * a - b, e, e2), 6 * U
    e3 = MA(e2, n, "exponential")
    yield "TEMA = 3 EMA - 3 EMA(EMA) + EMA(EMA(EMA))", values(
        "TripleExponentialMovingAverage", fr, {"period": n})["tema"], op(
        lambda a, b, c: 3 * a - 3 * b + c, e, e2, e3), 15 * U


def id_regression(fr, n, m, d):
    n = max(2, n)
    tsf = values("TimeSeriesForecast", fr, {"period": n})["tsf"]
    lri = values("LinearRegressionIndicator", fr, {"period": n})["lri"]
    lrs = values("LinearRegressionSlope", fr, {"period": n})["lrs"]
    yield "TSF = regression value + slope", tsf, op(lambda a, b: a + b, lri, lrs), 3.1 * U
    yield "MovingAverage(time_series) = TSF", MA(d["close"], n, "time_series"), tsf, 2.1 * U
    yield "regression line passes through the mean", op(
        lambda a, b: a - b * (n - 1) / 2, lri, lrs), MA(d["close"], n), (3 + n / 2) * U
    fosc = values("ForecastOscillator", fr, {"period": n})["fosc"]
    yield "FOSC from TSF", fosc, op(lambda c, f: 100 * (c - f) / c, d["close"], ref.lag(tsf, 1)), [
        U + 110 * U / c for c in d["close"]]


def id_bands(fr, n, m, d):
    mid = MA(d["close"], n)
    sdv = values("StandardDeviation", fr, {"period": n})["sd"]
    for k in (1, 2.5):
        bb = values("BollingerBands", fr, {"period": n, "std_number": k})
        yield "Bollinger middle band = simple average", bb["middle_band"], mid, 1.1e-4
        yield "Bollinger upper band", bb["upper_band"], op(lambda a, s: a + k * s, mid, sdv), (
            3 + k) * U + 1e-4
        yield "Bollinger lower band", bb["lower_band"], op(lambda a, s: a - k * s, mid, sdv), (
            3 + k) * U + 1e-4
    env = values("Envelopes", fr, {"period": n, "shift": 0.25})
    yield "Envelopes upper band", env["upper_band"], [1.25 * x for x in mid], 2.3 * U
    yield "Envelopes lower band", env["lower_band"], [0.75 * x for x in mid], 1.8 * U


def id_macd(fr, n, m, d):
    t = values("MovingAverageConvergenceDivergence", fr, {})
    yield "MACD = EMA(12) - EMA(26)", t["macd"], op(lambda a, b: a - b, MA(
        d["close"], 12, "exponential"), MA(d["close"], 26, "exponential")), 2.1 * U
    yield "MACD signal line = EMA(9) of MACD", t["signal_line"], MA(t["macd"], 9, "exponential"), \
        2.1 * U


def id_oscillators(fr, n, m, d):
    a, b = min(n, m), max(n, m)
    b += a == b
    sa, sb = MA(d["close"], a), MA(d["close"], b)
    yield "price oscillator", values("PriceOscillator", fr, {"long_ma": b, "short_ma": a})[
        "posc"], op(lambda x, y: 100 * (x - y) / y, sa, sb), [
        U + 205 * U / c * (1 + abs(x / c)) if c == c and x == x else U for x, c in zip(sa, sb)]
    va, vb = MA(d["volume"], a), MA(d["volume"], b)
    yield "volume oscillator", values("VolumeOscillator", fr, {
        "long_period": b, "short_period": a})["vosc"], op(lambda x, y: x - y, va, vb), 3.1 * U
    k = 1 + n // 2
    dpo = values("DetrendedPriceOscillator", fr, {"period": n})["dpo"]
    s = MA(d["close"], n)
    yield "detrended price oscillator", dpo, [d["close"][i] - s[i + k] for i in range(len(dpo))], \
        2.1 * U
    yield "Qstick", values("Qstick", fr, {"period": n})["qstick"], op(
        lambda x, y: x - y, MA(d["close"], n), MA(d["open"], n)), 3.1 * U
    yield "triangular average", MA(d["close"], n, "triangular"), MA(MA(d["close"], n), n), 2.1 * U


def id_change(fr, n, m, d):
    mom = values("Momentum", fr, {"period": n})["mom"]
    prc = values("PriceRateOfChange", fr, {"period": n})["prc"]
    yield "rate of change = momentum - 100", prc, [x - 100 for x in mom], 2.1 * U
    vrc = values("VolumeRateOfChange", fr, {"period": n})["vrc"]
    as_price = values("PriceRateOfChange", with_cols(fr, close=fr["volume"]), {"period": n})["prc"]
    yield "volume rate of change = rate of change of volume", vrc, as_price, 2.1 * U
    prf = values("Performance", fr, {})["prf"]
    i = len(prf) - 1
    if i >= 1:
        last = values("PriceRateOfChange", fr, {"period": i})["prc"]
        yield "performance = total rate of change", prf[i:], [last[i] / 100], 1.1 * U
    one = values("PriceRateOfChange", fr, {"period": 1})["prc"]
    pvt = values("PriceAndVolumeTrend", fr, {})["pvt"]
    yield "PVT grows by volume times return", op(lambda a, b: b - a, [NAN] + pvt[:-1], pvt), op(
        lambda r, v: r * v / 100, one, d["volume"]), [2.1 * U + v * U / 90 + 1e-9 * abs(x)
                                                     for v, x in zip(d["volume"], pvt)]
    nvi, pvi = values("NegativeVolumeIndex", fr, {})["nvi"], values(
        "PositiveVolumeIndex", fr, {})["pvi"]
    both = op(lambda a, b, c, e: (a / b) * (c / e), nvi, [NAN] + nvi[:-1], pvi, [NAN] + pvi[:-1])
    v = d["volume"]
    want = [NAN] + [1 + one[i] / 100 if v[i] != v[i - 1] else 1.0 for i in range(1, len(v))]
    yield "NVI and PVI together carry the price", both, want, [
        U / 50 + 4 * U / min(a, b, 1000) * max(1, w if w == w else 1) if min(a, b) > 1 else math.inf
        for a, b, w in zip(nvi, pvi, want)]
    emv = values("EaseOfMovement", fr, {"period": n})
    yield "EMV average", emv["emv_ma"], MA(emv["emv"], n), 3.1 * U


def id_ranges(fr, n, m, d):
    k = values("StochasticOscillator", fr, {"k_periods": n, "k_slowing_periods": 1, "d_periods": m,
                                            "d_method": "simple"})
    wr = values("WilliamsR", fr, {"period": n})["wr"]
    yield "%K = Williams %R + 100", k["%K"], [x + 100 for x in wr], 2.1 * U
    yield "%D = simple average of %K", k["%D"], MA([x if x == x else NAN for x in k["%K"]], m) \
        if all(x == x for x in k["%K"][n - 1:]) else [NAN] * len(wr), 3.1 * U
    pc = values("PriceChannel", fr, {"period": n})
    hh, ll = pc["highest_high"][1:], pc["lowest_low"][1:]
    yield "%R from the price channel", wr[:-1], op(
        lambda h, l, c: -100 * (h - c) / (h - l), hh, ll, d["close"][:-1]), [
        U + 220 * U / (h - l) if h == h and h - l > 0.01 else math.inf for h, l in zip(hh, ll)]
    ic = values("IchimokuCloud", fr, {})
    for c, w in (("tenkan_sen", 9), ("kijun_sen", 26)):
        if fr["n"] > w:
            q = values("PriceChannel", fr, {"period": w})
            yield "Ichimoku " + c, ic[c][w - 1:-1], op(
                lambda a, b: (a + b) / 2, q["highest_high"][w:], q["lowest_low"][w:]), 2.1 * U
    yield "Ichimoku senkou_a", ic["senkou_a"], ref.lag(op(
        lambda a, b: (a + b) / 2, ic["tenkan_sen"], ic["kijun_sen"]), 26), 2.1 * U
    if fr["n"] >= 14:
        tr = ref.true_range(d["high"], d["low"], d["close"], True)
        ws = values("WildersSmoothing", with_cols(fr, close=tr), {"period": 14})["ws"]
        yield "ATR = Wilder smoothing of the true range", values("AverageTrueRange", fr, {})[
            "atr"], ws, 2.1 * U
    rng = [a - b for a, b in zip(d["high"], d["low"])]
    e = MA(rng, n, "exponential")
    yield "Chaikin volatility", values("VolatilityChaikins", fr, {
        "ema_period": n, "change_period": m})["vch"], op(
        lambda a, b: 100 * (a - b) / b, e, ref.lag(e, m)), [
        U + 110 * U * (1 + abs(x) / y) / y if x == x and y == y and y > 0.01 else math.inf
        for x, y in zip(e, ref.lag(e, m))]


def id_flow(fr, n, m, d):
    a = values("AccumulationDistributionLine", fr, {})["adl"]
    cmf = values("ChaikinMoneyFlow", fr, {"period": 1})["cmf"]
    yield "ADL grows by money flow", op(lambda x, y: y - x, [NAN] + a[:-1], a), op(
        lambda x, v, y, z: x * v, cmf, d["volume"], a, [NAN] + a[:-1]), [2.0 + v * U + 1e-9 * abs(x)
                                               for v, x in zip(d["volume"], a)]
    if fr["n"] >= 10 and all(x == x for x in a):
        yield "Chaikin oscillator = EMA(3) - EMA(10) of ADL", values("ChaikinOscillator", fr, {})[
            "co"], op(lambda x, y: x - y, MA(a, 3, "exponential"), MA(a, 10, "exponential")), \
            3.1 * U + 1e-9 * max(abs(x) for x in a)
    v = d["volume"]
    o = values("OnBalanceVolume", fr, {})["obv"]
    # a move may be too small for the published precision of the rate
    c = d["close"]
    one = [r if r or x == y else NAN for r, x, y in zip(values(
        "PriceRateOfChange", fr, {"period": 1})["prc"], c, [c[0]] + c[:-1])]
    yield "OBV moves by the volume in the direction of the close", op(
        lambda x, y: y - x, [NAN] + o[:-1], o), op(
        lambda r, q: q * ((r > 0) - (r < 0)), one, v), 1e-6
    mfi = values("MarketFacilitationIndex", fr, {})["mfi"]
    yield "MFI times volume is the range", op(lambda x, q: x * q, mfi, v), [
        x - y if q else NAN for x, y, q in zip(d["high"], d["low"], v)], [
        q * 0.6e-10 + 1e-9 for q in v]


def id_typical(fr, n, m, d):
    mp, tp, wc = (values(x, fr, {})[c] for x, c in (
        ("MedianPrice", "mp"), ("TypicalPrice", "tp"), ("WeightedClose", "wc")))
    yield "typical price", tp, op(lambda a, c: (2 * a + c) / 3, mp, d["close"]), 2.1 * U
    yield "weighted close", wc, op(lambda a, c: (a + c) / 2, mp, d["close"]), 2.1 * U
    f = values("FibonacciRetracement", fr, {})
    yield "half retracement", f["rl_50.0"], op(lambda a, b: (a + b) / 2, f["rl_0.0"],
                                               f["rl_100.0"]), 2.1 * U
    yield "38.2 and 61.8 are symmetric", op(lambda a, b: a + b, f["rl_38.2"], f["rl_61.8"]), op(
        lambda a, b: a + b, f["rl_0.0"], f["rl_100.0"]), 4.1 * U


def id_momentum(fr, n, m, d):
    cmo = values("ChandeMomentumOscillator", fr, {"period": n})["cmo"]
    prev = [fr["close"][0]] + list(fr["close"][:-1])
    imi = values("IntradayMomentumIndex", with_cols(fr, open=prev), {"period": n})["imi"]
    yield "CMO = 2 IMI - 100 when every open is the previous close", cmo[n:], [
        2 * x - 100 for x in imi[n:]], 3.1 * U
    n2 = max(2, n)
    pb = values("ProjectionBands", fr, {"period": n2})
    po = values("ProjectionOscillator", fr, {"period": n2})
    yield "projection oscillator from the bands", po["posc"], op(
        lambda c, u, l: 100 * (c - l) / (u - l), d["close"], pb["upper_band"],
        pb["lower_band"]), [U + 1e-9 if u == u and u - l > 0.01 else math.inf
                            for u, l in zip(pb["upper_band"], pb["lower_band"])]
    if all(x == x for x in po["posc"][n2 - 1:]):
        yield "projection oscillator trigger line", po["trigger_line"], MA(
            po["posc"], 3, "exponential"), 3.1 * U
    if fr["n"] >= 28:
        t = values("DirectionalMovementIndex", fr, {})
        yield "DX from +DI and -DI", t["dx"], op(
            lambda a, b: 100 * abs(a - b) / (a + b), t["+di"], t["-di"]), [
            U + 420 * U / (a + b) if a == a and a + b > 0.5 else math.inf
            for a, b in zip(t["+di"], t["-di"])]
        yield "ADXR = mean of ADX now and 13 days ago", t["adxr"][40:], op(
            lambda a, b: (a + b) / 2, t["adx"], ref.lag(t["adx"], 13))[40:], 2.1 * U
        dx = t["dx"]
        if all(x == x for x in dx[14:]):
            ws = values("WildersSmoothing", with_cols(fr, close=dx[14:]), {"period": 14})["ws"]
            yield "ADX = Wilder smoothing of DX", t["adx"][14:], ws, 3.1 * U


IDENTITIES = {"double and triple EMA": id_dema, "regression": id_regression, "bands": id_bands,
              "MACD": id_macd, "oscillators": id_oscillators, "changes": id_change,
              "ranges": id_ranges, "money flow": id_flow, "bar prices": id_typical,
              "momentum and direction": id_momentum}


@st.composite
def identity_case(draw, key):
    n, m = draw(st.integers(1, 14)), draw(st.integers(1, 14))
    if draw(st.integers(0, 9)) == 9:
        fr = draw(gen.long_frames(150, 400))
    else:
        fr = draw(gen.frames(28 if key == "MACD" else max(n, m, 14) + 6, 80,
                             vmodes=("steps", "wide", "trend")))
    return {"key": key, "n": n, "m": m, "frame": fr}


def identity(case):
    k = 0
    seen = []
    fr = case["frame"]
    for what, got, want, tol in IDENTITIES[case["key"]](fr, case["n"], case["m"], inputs(fr)):
        c = ok_close("%s (n=%d, m=%d)" % (what, case["n"], case["m"]), got, want, tol)
        k += c
        if c:
            seen.append(what)
    return k > 0 and moving(fr), seen


# -------------------------------------------------------------------- M03 units
# column -> (power of the price unit, power of the volume unit)
DIM = {
    "AccumulationDistributionLine": {"adl": (0, 1)}, "AverageTrueRange": {"atr": (1, 0)},
    "BollingerBands": {"middle_band": (1, 0), "upper_band": (1, 0), "lower_band": (1, 0)},
    "ChaikinMoneyFlow": {"cmf": (0, 0)}, "ChaikinOscillator": {"co": (0, 1)},
    "ChandeMomentumOscillator": {"cmo": (0, 0)}, "CommodityChannelIndex": {"cci": (0, 0)},
    "DetrendedPriceOscillator": {"dpo": (1, 0)},
    "DirectionalMovementIndex": {c: (0, 0) for c in ("+di", "-di", "dx", "adx", "adxr")},
    "DoubleExponentialMovingAverage": {"dema": (1, 0)},
    "EaseOfMovement": {"emv": (2, -1), "emv_ma": (2, -1)},
    "Envelopes": {"upper_band": (1, 0), "lower_band": (1, 0)},
    "FibonacciRetracement": {"rl_%s" % c: (1, 0) for c in ("0.0", "23.6", "38.2", "50.0", "61.8",
                                                          "100.0")},
    "ForecastOscillator": {"fosc": (0, 0)},
    "IchimokuCloud": {c: (1, 0) for c in ("tenkan_sen", "kijun_sen", "senkou_a", "senkou_b")},
    "IntradayMomentumIndex": {"imi": (0, 0)}, "KlingerOscillator": {"ko": (0, 1)},
    "LinearRegressionIndicator": {"lri": (1, 0)}, "LinearRegressionSlope": {"lrs": (1, 0)},
    "MarketFacilitationIndex": {"mfi": (1, -1)}, "MassIndex": {"mi": (0, 0)},
    "MedianPrice": {"mp": (1, 0)}, "Momentum": {"mom": (0, 0)},
    "MovingAverage": {"*": (1, 0)},
    "MovingAverageConvergenceDivergence": {"macd": (1, 0), "signal_line": (1, 0)},
    "NegativeVolumeIndex": {"nvi": (0, 0)}, "PositiveVolumeIndex": {"pvi": (0, 0)},
    "OnBalanceVolume": {"obv": (0, 1)}, "ParabolicSAR": {"sar": (1, 0)},
    "Performance": {"prf": (0, 0), "*": (0, 0)}, "PriceAndVolumeTrend": {"pvt": (0, 1)},
    "PriceChannel": {"highest_high": (1, 0), "lowest_low": (1, 0)},
    "PriceOscillator": {"posc": (0, 0)}, "PriceRateOfChange": {"prc": (0, 0)},
    "ProjectionBands": {"upper_band": (1, 0), "lower_band": (1, 0)},
    "ProjectionOscillator": {"posc": (0, 0), "trigger_line": (0, 0)},
    "Qstick": {"qstick": (1, 0)}, "RelativeMomentumIndex": {"rmi": (0, 0)},
    "RelativeStrengthIndex": {"rsi": (0, 0)}, "RelativeVolatilityIndex": {"rvi": (0, 0)},
    "StandardDeviation": {"sd": (1, 0)}, "StochasticMomentumIndex": {"smi": (0, 0)},
    "StochasticOscillator": {"%K": (0, 0), "%D": (0, 0)},
    "TimeSeriesForecast": {"tsf": (1, 0)}, "TripleExponentialMovingAverage": {"tema": (1, 0)},
    "TypicalPrice": {"tp": (1, 0)}, "UltimateOscillator": {"uosc": (0, 0)},
    "VerticalHorizontalFilter": {"vhf": (0, 0)}, "VolatilityChaikins": {"vch": (0, 0)},
    "VolumeOscillator": {"vosc": (0, 1)}, "VolumeRateOfChange": {"vrc": (0, 0)},
    "WeightedClose": {"wc": (1, 0)}, "WildersSmoothing": {"ws": (1, 0)},
    "WilliamsAccumulationDistribution": {"wad": (1, 0)}, "WilliamsR": {"wr": (0, 0)},
}
# mixes a price range with a ratio / is capped in price units: no unit law
assert set(spec.NAMES) - set(DIM) == {"RangeIndicator", "SwingIndex"}


def units_case(name):
    s = spec.REG[name]
    room = max(0, s.warm({}) - s.need({}))

    @st.composite
    def build(draw):
        base = draw(case_for(name, lo_extra=room, hi_extra=room + 30, min_n=3, grids=BIN,
                             vmodes=("steps", "wide", "trend"), index=("D",)))
        base["price"] = draw(st.sampled_from((-8, -6, -4, -2, -1, 0, 1, 2, 4, 8)))
        base["vol"] = draw(st.sampled_from((-4, -2, 0, 1, 3, 10)))
        return base
    return build()


def units(case):
    name, fr = case["ind"], case["frame"]
    s = spec.REG[name]
    p = s.full(case["params"])
    a, b = 2.0 ** case["price"], 2.0 ** case["vol"]
    other = dict(fr)
    for c in gen.COLS:
        other[c] = [x * (b if c == "volume" else a) for x in fr[c]]
    t1, t2 = values(name, fr, case["params"]), values(name, other, case["params"])
    _, tol1 = expected(name, inputs(fr), p)
    raw2, tol2 = expected(name, inputs(other), p)
    k = 0
    first = s.first(case["params"])
    for c in t1:
        pw = DIM[name].get(c) or DIM[name]["*"]
        f = a ** pw[0] * b ** pw[1]
        lim = [f * x + y for x, y in zip(tol1[c], tol2[c])]
        want = [x * f if i >= first[c] and not ref.bad(raw2[c][i]) else NAN
                for i, x in enumerate(t1[c])]
        if name == "ChaikinOscillator":                    # whole units of either volume
            lim = [1.1 * (1 + f)] * len(want)
        k += ok_close("%s %s: %s with prices times %g and volumes times %g" % (
            name, p, c, a, b), t2[c], want, lim)
    return k > 0 and moving(fr) and case["price"] != 0, [name, "price*2^%d" % case["price"]]


# ------------------------------------------- M04 translation and reflection
# what a column becomes when every price x becomes  C + x  /  C - x
LEVEL, DIFF, EVEN, PCT, NEG100, SAME = "level", "diff", "even", "pct", "neg100", "same"
AFFINE = {
    "AccumulationDistributionLine": {"adl": DIFF}, "AverageTrueRange": {"atr": EVEN},
    "BollingerBands": {"middle_band": LEVEL, "upper_band": (LEVEL, "lower_band"),
                       "lower_band": (LEVEL, "upper_band")},
    "ChaikinMoneyFlow": {"cmf": DIFF}, "ChaikinOscillator": {"co": DIFF},
    "ChandeMomentumOscillator": {"cmo": DIFF}, "CommodityChannelIndex": {"cci": DIFF},
    "DetrendedPriceOscillator": {"dpo": DIFF},
    "DirectionalMovementIndex": {"+di": (EVEN, "-di"), "-di": (EVEN, "+di"), "dx": EVEN,
                                 "adx": EVEN, "adxr": EVEN},
    "DoubleExponentialMovingAverage": {"dema": LEVEL},
    "EaseOfMovement": {"emv": DIFF, "emv_ma": DIFF},
    "IchimokuCloud": {c: LEVEL for c in ("tenkan_sen", "kijun_sen", "senkou_a", "senkou_b")},
    "IntradayMomentumIndex": {"imi": PCT},
    "LinearRegressionIndicator": {"lri": LEVEL}, "LinearRegressionSlope": {"lrs": DIFF},
    "MarketFacilitationIndex": {"mfi": EVEN}, "MassIndex": {"mi": EVEN},
    "MedianPrice": {"mp": LEVEL}, "MovingAverage": {"*": LEVEL},
    "MovingAverageConvergenceDivergence": {"macd": DIFF, "signal_line": DIFF},
    "OnBalanceVolume": {"obv": DIFF},
    "PriceChannel": {"highest_high": (LEVEL, "lowest_low"), "lowest_low": (LEVEL, "highest_high")},
    "ProjectionBands": {"upper_band": (LEVEL, "lower_band"), "lower_band": (LEVEL, "upper_band")},
    "ProjectionOscillator": {"posc": PCT, "trigger_line": PCT},
    "Qstick": {"qstick": DIFF}, "RelativeMomentumIndex": {"rmi": PCT},
    "RelativeStrengthIndex": {"rsi": PCT}, "RelativeVolatilityIndex": {"rvi": PCT},
    "StandardDeviation": {"sd": EVEN}, "StochasticMomentumIndex": {"smi": DIFF},
    "StochasticOscillator": {"%K": PCT, "%D": PCT}, "SwingIndex": {"swi": DIFF},
    "TimeSeriesForecast": {"tsf": LEVEL}, "TripleExponentialMovingAverage": {"tema": LEVEL},
    "TypicalPrice": {"tp": LEVEL}, "UltimateOscillator": {"uosc": PCT},
    "VerticalHorizontalFilter": {"vhf": EVEN}, "VolatilityChaikins": {"vch": EVEN},
    "WeightedClose": {"wc": LEVEL}, "WildersSmoothing": {"ws": LEVEL},
    "WilliamsAccumulationDistribution": {"wad": DIFF}, "WilliamsR": {"wr": NEG100},
    # ties / first day are settled asymmetrically by definition: shift only
    "KlingerOscillator": {"ko": SAME}, "ParabolicSAR": {"sar": LEVEL},
    "RangeIndicator": {"ri": SAME},
    "FibonacciRetracement": {"rl_0.0": LEVEL, "rl_23.6": LEVEL, "rl_38.2": LEVEL,
                             "rl_50.0": LEVEL, "rl_61.8": LEVEL, "rl_100.0": LEVEL},
}
SHIFT_ONLY = {"KlingerOscillator", "ParabolicSAR", "RangeIndicator", "FibonacciRetracement"}


def affine_case(name):
    s = spec.REG[name]
    room = max(0, s.warm({}) - s.need({}))

    @st.composite
    def build(draw):
        base = draw(case_for(name, lo_extra=room, hi_extra=room + 30, min_n=3, grids=BIN,
                             vmodes=("steps", "wide", "trend"), index=("D",)))
        base["flip"] = draw(st.booleans()) and name not in SHIFT_ONLY
        base["by"] = draw(st.sampled_from((0, 1, 16, 100, 1000, 400_000)))
        return base
    return build()


def affine(case):
    name, fr, flip = case["ind"], case["frame"], case["flip"]
    s = spec.REG[name]
    p = s.full(case["params"])
    other = dict(fr)
    if flip:
        C = float(max(fr["high"]) + 1 + case["by"])
        for c in ("open", "close"):
            other[c] = [C - x for x in fr[c]]
        other["high"] = [C - x for x in fr["low"]]
        other["low"] = [C - x for x in fr["high"]]
    else:
        C = float(case["by"]) + 0.125
        for c in ("open", "high", "low", "close"):
            other[c] = [C + x for x in fr[c]]
    sign = -1 if flip else 1
    t1, t2 = values(name, fr, case["params"]), values(name, other, case["params"])
    _, tol1 = expected(name, inputs(fr), p)
    raw2, tol2 = expected(name, inputs(other), p)
    first = s.first(case["params"])
    k = 0
    for c in t1:
        law = AFFINE[name].get(c) or AFFINE[name]["*"]
        src = c
        if isinstance(law, tuple):
            law, src = law[0], (law[1] if flip else c)
        g = {LEVEL: lambda x: C + sign * x, DIFF: lambda x: sign * x, EVEN: lambda x: x,
             SAME: lambda x: x, PCT: lambda x: 100 - x if flip else x,
             NEG100: lambda x: -100 - x if flip else x}[law]
        want = [g(x) if i >= first[c] and not ref.bad(raw2[c][i]) else NAN
                for i, x in enumerate(t1[src])]
        lim = [x + y for x, y in zip(tol1[src], tol2[c])]
        k += ok_close("%s %s: %s when every price x becomes %g %s x" % (
            name, p, c, C, "-" if flip else "+"), t2[c], want, lim)
    return k > 0 and moving(fr), [name, "reflected" if flip else "shifted"]


# ------------------------------------------------------ M05 closed-form markets
@st.composite
def line_case(draw, name):
    s = spec.REG[name]
    p = draw(st.one_of(s.params(14), st.just({})))
    n = draw(st.integers(max(s.warm(p), 3) + 1, max(s.warm(p), 3) + 40))
    slope = draw(st.integers(-16, 16))
    # usually eighths; sometimes moves of a twentieth of a cent, sometimes whole eights
    unit = draw(st.sampled_from((0.125,) * 5 + (2.0 ** -11,) * 3 + (8.0,)))
    base = draw(st.integers(40, 400)) * (64 if unit < 0.1 else 1) + max(0, -slope) * n
    return {"ind": name, "params": p, "n": n, "base": base, "slope": slope, "unit": unit,
            "up": draw(st.integers(0, 24)), "down": draw(st.integers(0, 24)),
            "body": draw(st.integers(-24, 24)),
            "vol": draw(st.integers(1, 5000)), "vslope": draw(st.sampled_from((0, 0, 1, 7)))}


def line_frame(case):
    q, n = case.get("unit", 0.125), case["n"]
    c = [q * (case["base"] + case["slope"] * i) for i in range(n)]
    up, dn = q * case["up"], min(q * case["down"], 0.5 * min(c))
    body = max(-up, min(dn, q * case["body"]))
    return {"n": n, "close": c, "open": [x - body for x in c], "high": [x + up for x in c],
            "low": [x - dn for x in c], "unit": "D",
            "volume": [case["vol"] + case["vslope"] * i for i in range(n)]}, up, dn, body


def ema_lag(n, b, i):
    """how far an exponential average is behind a price which moves by b"""
    a = 2.0 / (n + 1)
    return b * (1 - a) / a * (1 - (1 - a) ** i)


def closed_form(name, i, p, d, b, up, dn, body, n_all):
    """value(s) of the indicator at row i of a market which moves by exactly b
    every day, as school algebra; None: no closed form is stated"""
    c, v = d["close"], d["volume"]
    x, n, rng = c[i], p.get("period"), up + dn
    tr = max(rng, up + b, dn - b)
    z = lambda a, q: None if q == 0 else a / q                 # noqa: E731
    pct = None if b == 0 else (100.0 if b > 0 else 0.0)
    if name == "MovingAverage":
        t = p["ma_type"]
        return {"simple": x - b * (n - 1) / 2, "triangular": x - b * (n - 1),
                "time_series": x + b, "exponential": x - ema_lag(n, b, i)}.get(t)
    if name in ("LinearRegressionIndicator", "WeightedClose", "MedianPrice", "TypicalPrice"):
        k = {"WeightedClose": 4, "MedianPrice": 2, "TypicalPrice": 3}.get(name)
        return x if k is None else x + (up - dn) / k
    if name == "DoubleExponentialMovingAverage":
        # the second average starts on the first day of the first one
        a = 2.0 / (n + 1)
        r, lag, j = 1 - a, b * (1 - a) / a, i - n + 1
        return x + lag * r ** j * (r ** (n - 1) - 1 - a * j * r ** (n - 1))
    if name == "TripleExponentialMovingAverage":
        return x if b == 0 else None
    if name == "WildersSmoothing":
        return x - b * (n - 1) * (1 - 0.5 * (1 - 1.0 / n) ** (i - n + 1))
    if name == "LinearRegressionSlope":
        return b
    if name == "TimeSeriesForecast":
        return x + b
    if name == "ForecastOscillator":
        return 0.0
    if name == "BollingerBands":
        m, s = x - b * (n - 1) / 2, abs(b) * math.sqrt((n * n - 1) / 12.0)
        return m, m + p["std_number"] * s, m - p["std_number"] * s
    if name == "StandardDeviation":
        return abs(b) * math.sqrt((n * n - 1) / 12.0)
    if name == "Envelopes":
        m = x - b * (n - 1) / 2
        return m * (1 + p["shift"]), m * (1 - p["shift"])
    if name == "PriceChannel":
        return (x - b if b >= 0 else x - b * n) + up, (x - b * n if b >= 0 else x - b) - dn
    if name == "ProjectionBands":
        return x + up, x - dn
    if name == "ProjectionOscillator":
        q = None if rng < 0.05 else 100 * dn / rng
        return q, q
    if name == "Momentum":
        return 100 * x / (x - n * b)
    if name == "PriceRateOfChange":
        return 100 * n * b / (x - n * b)
    if name in ("RelativeStrengthIndex", "RelativeMomentumIndex", "RelativeVolatilityIndex"):
        return pct
    if name == "ChandeMomentumOscillator":
        return None if b == 0 else math.copysign(100.0, b)
    if name == "VerticalHorizontalFilter":
        return z((n - 1) * abs(b), n * abs(b))
    if name == "IntradayMomentumIndex":
        return None if body == 0 else 100.0 if body > 0 else 0.0
    if name == "Qstick":
        return body
    if name == "Performance":
        return x / c[0] - 1, float(p["target"])
    if name == "CommodityChannelIndex":
        dev = sum(abs((n - 1) / 2.0 - j) for j in range(n)) / n
        return None if b == 0 or n == 1 else math.copysign((n - 1) / 2.0 / (0.015 * dev), b)
    if name == "StochasticOscillator":
        k = p["k_periods"]
        w = rng + abs(b) * (k - 1)
        q = None if w == 0 else 100 * (dn + (b * (k - 1) if b > 0 else 0)) / w
        return q, q
    if name == "WilliamsR":
        w = rng + abs(b) * (n - 1)
        return None if w == 0 else -100 * (up + (abs(b) * (n - 1) if b < 0 else 0)) / w
    if name == "StochasticMomentumIndex":
        w = rng + abs(b) * (n - 1)
        return None if w == 0 else 200 * (b * (n - 1) / 2 - (up - dn) / 2) / w
    if name == "AverageTrueRange":
        return rng if tr == rng else None
    if name == "DirectionalMovementIndex":
        if tr == 0 or b == 0:
            return (0.0, 0.0, None, None, None) if tr else None
        k = i - 13
        # Wilder sums over 13 first days, then s <- s*13/14 + x
        f = [abs(b) / tr * 100, 0.0]
        if b < 0:
            f.reverse()
        return f[0], f[1], 100.0, 100.0, 100.0
    if name == "UltimateOscillator":
        lo, hi = min(x - dn, x - b), max(x + up, x - b)
        return None if hi == lo else 100 * (x - lo) / (hi - lo)
    if name == "IchimokuCloud":
        def mid(j, k):
            m = min(j + 1, k)
            return c[j] + (up - dn) / 2 - b * (m - 1) / 2
        a = (mid(i - 26, 9) + mid(i - 26, 26)) / 2 if i >= 26 else None
        e = mid(i - 26, 52) if i >= 26 else None
        return mid(i, 9), mid(i, 26), a, e
    if name == "MassIndex":
        return None if rng == 0 else 25.0
    if name == "VolatilityChaikins":
        return None if rng == 0 else 0.0
    if name == "ChaikinMoneyFlow":
        return None if rng == 0 else (dn - up) / rng
    if name == "AccumulationDistributionLine":
        return None if rng == 0 else sum(v[:i + 1]) * (dn - up) / rng
    if name == "OnBalanceVolume":
        return 0.0 if b == 0 else math.copysign(1, b) * sum(v[1:i + 1])
    if name == "NegativeVolumeIndex":
        return 1000.0
    if name == "PositiveVolumeIndex":
        return 1000.0 if v[-1] == v[0] else 1000.0 * x / c[0]
    if name == "PriceAndVolumeTrend":
        return 0.0 if b == 0 else None
    if name == "VolumeOscillator":
        return (v[1] - v[0]) * (p["long_period"] - p["short_period"]) / 2
    if name == "VolumeRateOfChange":
        return 100 * n * (v[1] - v[0]) / v[i - n]
    if name == "MarketFacilitationIndex":
        return rng / v[i]
    if name == "EaseOfMovement":
        e = lambda j: b * rng * 10000 / v[j]                   # noqa: E731
        return e(i), sum(e(j) for j in range(i - n + 1, i + 1)) / n if i >= n else None
    if name == "WilliamsAccumulationDistribution":
        return 0.0 if b == 0 else max(b, dn) if b > 0 else min(b, -up)
    if name == "SwingIndex":
        k = max(abs(up + b), abs(b - dn))
        r = max(k, rng) + 0.25 * abs(body)
        return None if r == 0 else max(-100.0, min(100.0, 50 * (b + 0.75 * body) / r * k / 3))
    if name == "DetrendedPriceOscillator":
        return -b * (1 + n // 2) + b * (n - 1) / 2
    if name == "PriceOscillator":
        s = x - b * (p["short_ma"] - 1) / 2
        g = x - b * (p["long_ma"] - 1) / 2
        return 100 * (s - g) / g
    if name == "MovingAverageConvergenceDivergence":
        return ema_lag(26, b, i) - ema_lag(12, b, i), 0.0 if b == 0 else None
    if name == "FibonacciRetracement":
        hi, lo = max(c), min(c)
        return tuple(hi - f * (hi - lo) for f in (0, .236, .382, .5, .618, 1))
    if name == "ParabolicSAR":
        return x - dn if b == 0 and up == dn == 0 else None
    if name == "ChaikinOscillator":
        return 0.0 if rng and up == dn else None
    return None


LINES = [n for n in spec.NAMES if n not in ("KlingerOscillator", "RangeIndicator")]


def line(case):
    name = case["ind"]
    s = spec.REG[name]
    p = s.full(case["params"])
    fr, up, dn, body = line_frame(case)
    d = inputs(fr)
    b = case.get("unit", 0.125) * case["slope"]
    t = values(name, fr, case["params"], fr["n"] - s.drop(p))
    first = s.first(case["params"])
    _, tol = expected(name, d, p)
    k = 0
    for i in range(fr["n"] - s.drop(p)):
        # the definitions that average from the first true range on only settle
        # after the first day
        w = closed_form(name, i, p, d, b, up, dn, body, fr["n"]) if i >= min(first.values()) \
            else None
        if w is None:
            continue
        w = w if isinstance(w, tuple) else (w,)
        for c, want in zip(t, w):
            if want is None or i < first[c]:
                continue
            lim = {"AccumulationDistributionLine": 1.0 + 1e-9 * abs(want),
                   "ChaikinOscillator": 1.1, "MarketFacilitationIndex": 0.6e-10,
                   "MovingAverageConvergenceDivergence": 3.1 * U,
                   "ProjectionOscillator": U + 420 * U / max(up + dn, 1e-3),
                   "ForecastOscillator": U + 210 * U / d["close"][i],
                   "BollingerBands": 2.2 * U + 1e-8 * d["close"][i],
                   "RelativeVolatilityIndex": 1e-3,
                   "CommodityChannelIndex": U + 1e-7 * abs(want)}.get(name, 1.05 * U) + \
                1e-9 * abs(want) + (1.2 * U if name in ("TimeSeriesForecast", "MovingAverage",
                                                        "StochasticOscillator") else 0)
            if name == "StandardDeviation":
                lim += 1e-8 * d["close"][i]
            k += 1
            if not abs(t[c][i] - want) <= lim:
                raise Violation("%s %s: in a market moving by %g every day (close %g, high %g and "
                                "low %g away) %s at row %d is %r, by algebra %.6f" % (
                                    name, p, b, d["close"][i], up, dn, c, i, t[c][i], want))
    return k > 0, [name, "flat" if b == 0 else "rising" if b > 0 else "falling"] + (
        ["no daily range"] if up + dn == 0 else [])


# ----------------------------------------------------------- M06 bounded memory
def memory(name, p):
    """rows (including the current one) a value may depend on"""
    n = p.get("period")
    return {
        "BollingerBands": n, "ChaikinMoneyFlow": n, "ChandeMomentumOscillator": (n or 0) + 1,
        "CommodityChannelIndex": n, "DetrendedPriceOscillator": n, "EaseOfMovement": (n or 0) + 1,
        "Envelopes": n, "ForecastOscillator": (n or 0) + 1, "IchimokuCloud": 78,
        "IntradayMomentumIndex": n, "LinearRegressionIndicator": n, "LinearRegressionSlope": n,
        "MarketFacilitationIndex": 1, "MedianPrice": 1, "Momentum": (n or 0) + 1,
        "MovingAverage": {"simple": n, "time_series": n, "triangular": 2 * (n or 0) - 1}.get(
            p.get("ma_type")),
        "PriceChannel": (n or 0) + 1, "PriceOscillator": p.get("long_ma"),
        "PriceRateOfChange": (n or 0) + 1, "ProjectionBands": n, "Qstick": n,
        "StandardDeviation": n,
        "StochasticOscillator": p.get("k_periods", 0) + p.get("k_slowing_periods", 0)
        + p.get("d_periods", 0) - 2,
        "SwingIndex": 2, "TimeSeriesForecast": n, "TypicalPrice": 1, "UltimateOscillator": 29,
        "VerticalHorizontalFilter": (n or 0) + 1, "VolumeOscillator": p.get("long_period"),
        "VolumeRateOfChange": (n or 0) + 1, "WeightedClose": 1,
        "WilliamsAccumulationDistribution": 2, "WilliamsR": n,
    }.get(name)


FINITE = [n for n in spec.NAMES if memory(n, spec.REG[n].full({}))]


def memory_case(name):
    s = spec.REG[name]

    @st.composite
    def build(draw):
        p = draw(s.params(12)) if draw(st.integers(0, 3)) else {}
        if name == "MovingAverage":
            p = {"period": draw(st.integers(2, 12)),
                 "ma_type": draw(st.sampled_from(("simple", "time_series", "triangular")))}
        w = max(memory(name, s.full(p)), s.need(p), 2) + s.drop(p)
        n = w + draw(st.integers(2, 40))
        fr = draw(gen.frames(n, n, grids=BIN, index=("D", "gaps"),
                             vmodes=("steps", "wide", "trend")))
        return {"ind": name, "params": p, "frame": fr, "keep": draw(st.integers(w, n - 1)),
                "past": draw(gen.frames(n, n, grids=BIN, index=("D",), vmodes=("steps", "wide"),
                                        amps=(8, 80)))}
    return build()


def finite(case):
    """cutting off or replacing history older than the window changes nothing"""
    name, fr = case["ind"], case["frame"]
    s = spec.REG[name]
    p = s.full(case["params"])
    w, n, m = memory(name, p), fr["n"], case["keep"]
    cut, other = dict(fr), dict(fr)
    for c in gen.COLS:
        cut[c] = fr[c][n - m:]
        other[c] = case["past"][c][:n - m] + fr[c][n - m:]
    if "gaps" in fr:
        cut["gaps"] = fr["gaps"][n - m:]
    cut["n"] = m
    a, b, d = (values(name, x, case["params"]) for x in (fr, cut, other))
    raw, lim = expected(name, inputs(other), p)
    _, lim1 = expected(name, inputs(fr), p)
    k = 0
    for c in a:
        rows = len(b[c])
        drop = n - m
        want = [x if i >= w - 1 and not ref.bad(raw[c][i + drop]) else NAN
                for i, x in enumerate(a[c][drop:drop + rows])]
        tol = [x + y for x, y in zip(lim[c][drop:], lim1[c][drop:])]
        k += ok_close("%s %s: %s without the days before the last %d" % (name, p, c, m), b[c],
                      want, tol)
        k += ok_close("%s %s: %s with other days before the last %d" % (name, p, c, m),
                      d[c][drop:drop + rows], want, tol)
    return k > 0 and moving(fr), [name]


def per(prefix, strat, oracle, q, t, names, chunk=150):
    return [Target("%s/%s" % (prefix, n), (lambda n=n: strat(n)), oracle, quick=q, thorough=t,
                   chunk=chunk, cost=3 if n in SLOW else 1) for n in names]


def M01():
    return Check("M01", "per indicator with a stated range (%d of 57): every published value lies "
                 "inside it; one case in ten is a history of 200..500 days. Non-trivial: prices "
                 "move and at least one value was checked." % len(BOUNDS),
                 per("bounds", bounds_case, bounds, 250, 6000, sorted(BOUNDS)))


# ----------------------------------------------------------------- M07 calendar
CALENDARS = ("D", "B", "W", "MS", "QE", "YE", "h", "min", "s", "ms", "us", "ns", "tz", "dst", "old", "far",
             "gaps", "leap", "random")


def calendar(kind, n, seed):
    x = seed
    if kind in ("B", "W", "MS", "QE", "h", "min", "s", "ms", "us", "ns"):
        return pd.date_range("1999-11-%02d" % (1 + x % 28), periods=n, freq=kind)
    if kind == "YE":
        return pd.date_range("1700-01-01", periods=n, freq="YE")
    if kind == "tz":
        return pd.date_range("2019-03-01", periods=n, freq="D", tz=(
            "UTC", "America/New_York", "Asia/Kathmandu", "Pacific/Apia")[x % 4])
    if kind == "dst":                   # the repeated hour at the end of summer time
        return pd.date_range("2020-10-24 20:00", periods=n, freq="30min", tz="Europe/Athens")
    if kind == "old":
        return pd.date_range("1850-01-01", periods=n, freq="D").as_unit("s")
    if kind == "far":
        return pd.date_range("2150-01-01", periods=n, freq="D")
    if kind == "leap":
        return pd.date_range("2000-02-%02d" % (20 + x % 9), periods=n, freq="D")
    if kind in ("gaps", "random"):
        t, out = pd.Timestamp("2001-12-20"), []
        for _ in range(n):
            x = (x * 6364136223846793005 + 1442695040888963407) % 2 ** 64
            out.append(t)
            t += (pd.Timedelta(days=1 + (x >> 40) % 9) if kind == "gaps" else
                  pd.Timedelta(seconds=1 + (x >> 30) % 4000000))
        return pd.DatetimeIndex(out)
    return pd.date_range("2012-03-05", periods=n, freq="D")


def calendar_case(name):
    @st.composite
    def build(draw):
        base = draw(case_for(name, lo_extra=2, hi_extra=40, min_n=3, cap=20, wide=15,
                             grids=(0.125, 1, 0.01), index=("D",)))
        base["kind"] = draw(st.sampled_from(CALENDARS[1:]))
        base["seed"] = draw(st.integers(0, 10 ** 6))
        base["label"] = draw(st.sampled_from((None, "date", "close")))
        return base
    return build()


def dates(case):
    name, fr, p = case["ind"], case["frame"], case["params"]
    stub_graphs()
    cols = spec.REG[name].cols
    sides = []
    for ix in (calendar(case["kind"], fr["n"], case["seed"]).rename(case["label"]),
               calendar("D", fr["n"], 0)):
        sides.append((make(name, gen.build(fr, cols).set_axis(ix), p),
                      gen.build(fr, ("close",)).set_axis(ix)))
    compare_twins(*sides, "%s %s on other dates (%s)" % (name, p, case["kind"]), name,
                  sim=fr["n"] <= 60)
    return moving(fr), [case["kind"]]


def M07():
    return Check("M07", "per indicator, the same rows on successive days and on another calendar "
                 "(business days, weeks, months, quarters, years from 1700, intraday, time zones, "
                 "repeated hours, leap days, irregular gaps): values, latest value, signal and, up "
                 "to 60 rows, the simulation are the same row by row. Non-trivial: prices move.",
                 per("dates", calendar_case, dates, 60, 1500, spec.NAMES))


def M02():
    return Check("M02", "two routes to the same number through the public API on generated "
                 "markets, compared within the published precision; one case in ten is a history "
                 "of 150..400 days. Non-trivial: prices move and at least one row was compared.",
                 per("identity", identity_case, identity, 900, 9000, sorted(IDENTITIES)))


def M03():
    return Check("M03", "per indicator with a unit law, the same market with prices times 2^a "
                 "(a=-8..8) and volumes times 2^b (b=-4..10). Non-trivial: prices move, a is not "
                 "0 and at least one row was compared.",
                 per("units", units_case, units, 300, 6000, sorted(DIM)),
                 ["RangeIndicator (adds a ratio to a range) and SwingIndex (capped) have no unit "
                  "law"])


def M04():
    return Check("M04", "per indicator built on price differences, the same market shifted by a "
                 "constant or turned upside down (x -> C - x, high and low exchanged). "
                 "Non-trivial: prices move and at least one row was compared.",
                 per("affine", affine_case, affine, 300, 6000, sorted(AFFINE)),
                 ["SAR, Klinger, RangeIndicator and Fibonacci treat up and down differently by "
                  "definition: shifted only"])


def M05():
    return Check("M05", "per indicator, markets which move by exactly the same amount every day "
                 "(rising, falling, flat; any daily range, body and volume): values against school "
                 "algebra. Non-trivial: at least one value has a closed form.",
                 per("line", line_case, line, 400, 6000, LINES))


def M06():
    return Check("M06", "per indicator with a finite window (%d), days older than the window cut "
                 "off or replaced by another market. Non-trivial: prices move and at least one "
                 "row was compared." % len(FINITE),
                 per("memory", memory_case, finite, 400, 6000, FINITE))


CHECKS = {"M01": M01, "M02": M02, "M03": M03, "M04": M04, "M05": M05, "M06": M06, "M07": M07}

"""The documented trading-signal rule of every indicator, as a function of the
input prices and of the indicator values the library itself returned, both cut
at the day of interest. Rules that need a helper average compute it here; `e`
perturbs such helper values by the rounding noise a legitimate implementation
may have, so that a signal decided by a tie in the last bits is not judged."""
import itertools
import math

from . import ref

B, H, S = ("buy", -1), ("hold", 0), ("sell", 1)


def cross(x, lo=None, hi=None, up=S, down=B):
    """up when x rises through `hi`, down when it falls through `lo`."""
    if len(x) < 2:
        return H
    if hi is not None and x[-2] < hi < x[-1]:
        return up
    if lo is not None and x[-2] > lo > x[-1]:
        return down
    return H


def mono(x, rising, falling):
    if len(x) < 3:
        return H
    if x[-3] > x[-2] > x[-1]:
        return falling
    if x[-3] < x[-2] < x[-1]:
        return rising
    return H


def line_cross(c, y, below=B, above=S):
    """close crosses the line: below / above."""
    if len(y) < 2:
        return H
    if c[-2] > y[-2] and c[-1] < y[-1]:
        return below
    if c[-2] < y[-2] and c[-1] > y[-1]:
        return above
    return H


def band(c, up, lo):
    if not up:
        return H
    if c[-1] > up[-1]:
        return S
    if c[-1] < lo[-1]:
        return B
    return H


def AccumulationDistributionLine(d, t, p, e):
    if len(t["adl"]) < 2:
        return H
    s = d["close"][-1] - d["close"][-2]
    a = t["adl"][-1]
    if s != 0 and a > 0:
        return B
    if s != 0 and a < 0:
        return S
    return H


def AverageTrueRange(d, t, p, e):
    c = d["close"]
    if len(t["atr"]) < 10:
        return H
    m5 = ref.mean(c[-5:]) + e[0]
    m10 = ref.mean(c[-10:]) + e[1]
    if t["atr"][-1] > 0.01 * c[-1] + e[2]:
        if c[-1] > m5:
            return B if c[-1] > m10 else S
        if c[-1] < m5:
            return B
    return H


def BollingerBands(d, t, p, e):
    return band(d["close"], t["upper_band"], t["lower_band"])


Envelopes = BollingerBands


def PriceChannel(d, t, p, e):
    return band(d["close"], t["highest_high"], t["lowest_low"])


def ChaikinMoneyFlow(d, t, p, e):
    x, c = t["cmf"], d["close"]
    if len(x) < 3:
        return H
    if x[-2] > x[-1] and max(c[-3:-1]) < c[-1]:
        return S
    if x[-2] < x[-1] and min(c[-3:-1]) > c[-1]:
        return B
    return H


def ChaikinOscillator(d, t, p, e):
    x, c = t["co"], d["close"]
    if len(x) < 90:
        return H
    m = ref.mean(c[-90:]) + e[0]
    if c[-1] > m and x[-2] < x[-1] < 0:
        return B
    if c[-1] < m and x[-2] > x[-1] > 0:
        return S
    return H


def ChandeMomentumOscillator(d, t, p, e):
    return cross(t["cmo"], -50.0, 50.0)


def CommodityChannelIndex(d, t, p, e):
    x = t["cci"]
    return H if not x else B if x[-1] < -100 else S if x[-1] > 100 else H


def DetrendedPriceOscillator(d, t, p, e):
    return cross(t["dpo"], 0.0, 0.0, up=B, down=S)


def DirectionalMovementIndex(d, t, p, e):
    a, b, r = t["+di"], t["-di"], t["adxr"]
    if len(a) < 2 or not r[-1] >= 20:
        return H
    if a[-2] > b[-2] and a[-1] < b[-1]:
        return S
    if a[-2] < b[-2] and a[-1] > b[-1]:
        return B
    return H


def DoubleExponentialMovingAverage(d, t, p, e):
    return B if t["dema"] and d["close"][-1] < t["dema"][-1] else H


def EaseOfMovement(d, t, p, e):
    return cross(t["emv_ma"], 0.0, 0.0, up=B, down=S)


def FibonacciRetracement(d, t, p, e):
    c = d["close"]
    if len(c) < 2:
        return H
    lv = [t["rl_" + k] for k in ("61.8", "50.0", "38.2", "23.6")]
    if any(c[-2] > y[-2] and c[-1] < y[-1] for y in lv):
        return B
    if any(c[-2] < y[-2] and c[-1] > y[-1] for y in lv):
        return S
    return H


def ForecastOscillator(d, t, p, e):
    return cross(t["fosc"], 0.0, 0.0)


def IchimokuCloud(d, t, p, e):
    c, k, j = d["close"], t["tenkan_sen"], t["kijun_sen"]
    if len(c) < 2:
        return H
    a, b = t["senkou_a"][-1], t["senkou_b"][-1]
    if a != a or b != b:
        return H
    lo, hi = min(a, b), max(a, b)
    v = (c[-1], k[-1], j[-1])
    # a value lying exactly on an edge of the cloud: neither documented as
    # inside nor outside
    out = {H}
    if k[-2] < j[-2] and k[-1] > j[-1]:
        if all(x > hi for x in v):
            return B
        if all(x >= hi for x in v):
            out.add(B)
    if k[-2] > j[-2] and k[-1] < j[-1]:
        if all(x < lo for x in v):
            return S
        if all(x <= lo for x in v):
            out.add(S)
    return out


def IntradayMomentumIndex(d, t, p, e):
    return cross(t["imi"], 30.0, 70.0)


def KlingerOscillator(d, t, p, e):
    return cross(t["ko"], 0.0, 0.0)


def LinearRegressionIndicator(d, t, p, e):
    return line_cross(d["close"], t["lri"])


def LinearRegressionSlope(d, t, p, e):
    return cross(t["lrs"], 0.0, 0.0)


def MarketFacilitationIndex(d, t, p, e):
    x = t["mfi"]
    return H if len(x) < 2 else B if x[-2] > x[-1] else S if x[-2] < x[-1] else H


def MassIndex(d, t, p, e):
    x = t["mi"]
    if len(x) < 2 or not x[-1] < 26.5:
        return H
    bulge = False
    for y in reversed(x[:-1]):
        if y < 26.5:
            break
        if y > 27.0:
            bulge = True
            break
    if not bulge:
        return H
    m = ref.ema(d["close"], 9)
    g = m[-1] - m[-2] + e[0]
    return S if g > 0 else B if g < 0 else H


def MedianPrice(d, t, p, e):
    x = t["mp"]
    if len(x) < max(2, p["period"]):
        return H
    m = ref.ema(d["close"], p["period"])
    a, b = m[-2] + e[0], m[-1] + e[1]
    if a < x[-2] and b > x[-1]:
        return B
    if a > x[-2] and b < x[-1]:
        return S
    return H


def Momentum(d, t, p, e):
    x = t["mom"]
    if len(x) < 9:
        return H
    m = ref.ema(x, 9)
    a, b = m[-2] + e[0], m[-1] + e[1]
    if x[-2] < a and x[-1] > b:
        return S
    if x[-2] > a and x[-1] < b:
        return B
    return H


def MovingAverage(d, t, p, e):
    x = t["ma-" + p["ma_type"]]
    return B if x and d["close"][-1] > x[-1] else H


def MovingAverageConvergenceDivergence(d, t, p, e):
    m, s = t["macd"], t["signal_line"]
    if len(m) < 2:
        return H
    if m[-2] < 0 < m[-1]:
        return B
    if m[-2] > 0 > m[-1]:
        return S
    if m[-2] > s[-2] and m[-1] < s[-1]:
        return S
    if m[-2] < s[-2] and m[-1] > s[-1]:
        return B
    return H


def NegativeVolumeIndex(d, t, p, e):
    x = t["nvi"]
    if len(x) < 255:
        return H
    return B if x[-1] > ref.ema(x, 255)[-1] + e[0] else H


def PositiveVolumeIndex(d, t, p, e):
    x = t["pvi"]
    if len(x) < 255:
        return H
    m = ref.ema(x, 255)
    a, b = m[-2] + e[0], m[-1] + e[1]
    if x[-2] < a and x[-1] > b:
        return B
    if x[-2] > a and x[-1] < b:
        return S
    return H


def OnBalanceVolume(d, t, p, e):
    return mono(t["obv"], S, B)


def ParabolicSAR(d, t, p, e):
    return line_cross(d["close"], t["sar"], below=S, above=B)


def Performance(d, t, p, e):
    x = t["prf"]
    if p["mode"] == "LONG" and x[-1] >= p["target"]:
        return S
    if p["mode"] == "SHORT" and x[-1] <= p["target"]:
        return B
    return H


def PriceAndVolumeTrend(d, t, p, e):
    return mono(t["pvt"], S, B)


def PriceOscillator(d, t, p, e):
    return cross(t["posc"], 0.0, 0.0, up=B, down=S)


def PriceRateOfChange(d, t, p, e):
    return mono(t["prc"], S, B)


def ProjectionBands(d, t, p, e):
    c, u, l = d["close"][-1], t["upper_band"][-1], t["lower_band"][-1]
    q = 0.15 * (u - l) + e[0]
    if u - c < q:
        return S
    if c - l < q:
        return B
    return H


def ProjectionOscillator(d, t, p, e):
    x, g = t["posc"], t["trigger_line"]
    if len(x) < 4:
        return H
    if x[-2] < 15 < x[-1]:
        return B
    if x[-2] > 85 > x[-1]:
        return S
    s = ["<" if a < b else ">" if a > b else "?" for a, b in zip(x[-4:], g[-4:])]
    if s == ["<", "<", ">", ">"]:
        return B
    if s == [">", ">", "<", "<"]:
        return S
    return H


def Qstick(d, t, p, e):
    x = t["qstick"]
    if len(x) < 4:
        return H
    if x[-4] < x[-3] < 0 < x[-2] < x[-1]:
        return B
    if x[-4] > x[-3] > 0 > x[-2] > x[-1]:
        return S
    return H


def RangeIndicator(d, t, p, e):
    x, c = t["ri"], d["close"]
    if len(x) < 2:
        return H
    if x[-2] < 20 < x[-1]:
        return B if c[-2] < c[-1] else S
    if x[-2] < 70 < x[-1]:
        low = [c[i] for i in range(len(x)) if x[i] < 20]
        if not low:
            return H
        return S if low[-1] < c[-1] else B
    return H


def RelativeMomentumIndex(d, t, p, e):
    return cross(t["rmi"], 30.0, 70.0)


def RelativeStrengthIndex(d, t, p, e):
    return cross(t["rsi"], 30.0, 70.0)


def RelativeVolatilityIndex(d, t, p, e):
    return cross(t["rvi"], 40, 60)


def StandardDeviation(d, t, p, e):
    x, c = t["sd"], d["close"]
    n = p["period"]
    if len(x) < n or not x[-1] > 2:
        return H
    m = ref.r4(ref.mean(c[-n:])) + (1.001e-4 if e[0] > 0 else -1.001e-4 if e[0] < 0 else e[0])
    return S if c[-1] > m else B if c[-1] < m else H


def StochasticMomentumIndex(d, t, p, e):
    return cross(t["smi"], -40.0, 40.0)


def StochasticOscillator(d, t, p, e):
    k, m = t["%K"], t["%D"]
    if len(k) < 2:
        return H
    if k[-2] > 80 > k[-1] or m[-2] > 80 > m[-1]:
        return S
    if k[-2] < 20 < k[-1] or m[-2] < 20 < m[-1]:
        return B
    if k[-2] > k[-1] and k[-1] < m[-1] and k[-1] > 80:
        return S
    if k[-2] < k[-1] and k[-1] > m[-1] and k[-1] < 20:
        return B
    return H


def SwingIndex(d, t, p, e):
    return cross(t["swi"], 0.0, 0.0)


def TimeSeriesForecast(d, t, p, e):
    return line_cross(d["close"], t["tsf"])


def TripleExponentialMovingAverage(d, t, p, e):
    c, x = d["close"][-1], t["tema"][-1]
    return B if c < x else S if c > x else H


def TypicalPrice(d, t, p, e):
    n, c = p["period"], d["close"]
    if len(c) < n:
        return H
    return B if t["tp"][-1] > ref.mean(c[-n:]) + e[0] else H


def UltimateOscillator(d, t, p, e):
    x, c = t["uosc"][-30:], d["close"][-30:]
    if len(x) < 30:
        return H
    v = [y for y in x if y == y]
    if not v or x[-1] != x[-1]:
        return H
    if c.index(min(c)) != x.index(min(v)) and min(v) < 30:
        w = [y for y in x[:-1] if y == y]
        if w and max(w) < x[-1]:
            return B
    return H


def VerticalHorizontalFilter(d, t, p, e):
    x, c = t["vhf"], d["close"]
    if len(x) < 3:
        return H
    if x[-3] < x[-2] < x[-1]:
        if len(c) < 5:
            return H
        v = ref.DoubleExponentialMovingAverage({"close": c}, {"period": 5})["dema"][-1]
        v = ref.r4(v) + (1.001e-4 if e[0] > 0 else -1.001e-4 if e[0] < 0 else 0)
        return B if c[-1] < v else H
    if x[-3] > x[-2] > x[-1]:
        if len(c) < 12:
            return H
        m = [ref.r4(y) for y in ref.Momentum({"close": c}, {"period": 12})["mom"]]
        a, b = ref.ema(m, 9)[-2:]
        q = 1.001e-4
        a += 0 if not e[0] else math.copysign(q, e[0])
        b += 0 if not e[1] else math.copysign(q, e[1])
        if m[-2] < a and m[-1] > b:
            return S
        if m[-2] > a and m[-1] < b:
            return B
    return H


def VolatilityChaikins(d, t, p, e):
    return mono(t["vch"], B, S)


def VolumeOscillator(d, t, p, e):
    x = t["vosc"]
    if len(x) < 3:
        return H
    if 0 < x[-3] < x[-2] < x[-1]:
        return B
    if x[-3] > x[-2] > x[-1] > 0:
        return S
    return H


def VolumeRateOfChange(d, t, p, e):
    return mono(t["vrc"], S, B)


def WeightedClose(d, t, p, e):
    return line_cross(d["close"], t["wc"])


def WildersSmoothing(d, t, p, e):
    return line_cross(d["close"], t["ws"])


def WilliamsAccumulationDistribution(d, t, p, e):
    c, x = d["close"][-30:], t["wad"][-30:]
    if len(c) < 30:
        return H
    v = [y for y in x if y == y]
    if c[-1] == min(c) and x[-1] != min(v):
        return B
    if c[-1] == max(c) and x[-1] != max(v):
        return S
    return H


def WilliamsR(d, t, p, e):
    x = t["wr"]
    if len(x) < 2:
        return H
    sold = max([i for i in range(len(x) - 1) if x[i] <= -80], default=-1)
    bought = max([i for i in range(len(x) - 1) if x[i] >= -20], default=-1)
    if sold > bought and x[-2] < -50 < x[-1]:
        return B
    if sold < bought and x[-2] > -50 > x[-1]:
        return S
    return H


SLOTS = {"AverageTrueRange": 3, "ChaikinOscillator": 1, "MassIndex": 1, "MedianPrice": 2,
         "Momentum": 2, "NegativeVolumeIndex": 1, "PositiveVolumeIndex": 2, "ProjectionBands": 1,
         "StandardDeviation": 1, "TypicalPrice": 1, "VerticalHorizontalFilter": 2}


def dyadic(xs):
    """sums of these are exact, so that an average of them is the nearest
    number to the true average, whatever the way it is computed"""
    return all(abs(x) < 2 ** 30 and float(x * 1024).is_integer() for x in xs)


def steady(xs):
    """an exponential average of a constant is that constant"""
    v = [x for x in xs if x == x]
    return bool(v) and min(v) == max(v)


def certain(name, d, t, p):
    """which helper values are known to the last bit"""
    c = d["close"]
    if name == "AverageTrueRange":
        a = t["atr"][-1] if t["atr"] else float("nan")
        k = dyadic(c[-10:])
        return [k, k, k and a == a and dyadic([a]) and 0.01 * c[-1] == a and 100 * a == c[-1]]
    if name == "ChaikinOscillator":
        return [dyadic(c[-90:])]
    if name == "TypicalPrice":
        return [dyadic(c[-p["period"]:])]
    if name == "StandardDeviation":
        w = c[-p["period"]:]
        return [dyadic(w) and abs((1e4 * ref.mean(w)) % 1 - 0.5) > 1e-6]
    if name == "MassIndex":
        return [steady(c)]
    x = {"MedianPrice": c, "Momentum": t.get("mom"), "NegativeVolumeIndex": t.get("nvi"),
         "PositiveVolumeIndex": t.get("pvi")}.get(name)
    if x is None:
        return [False] * SLOTS[name]
    return [steady(x)] if SLOTS[name] == 1 else [steady(x[:-1]), steady(x)]


def margins(name, d, t, p):
    """where a tie gives a signal which neither side of it gives: how near it is"""
    c = d["close"]
    if name == "AverageTrueRange" and len(c) >= 10:
        return [c[-1] - ref.mean(c[-5:]), c[-1] - ref.mean(c[-10:]), t["atr"][-1] - 0.01 * c[-1]]
    if name == "StandardDeviation":
        return [c[-1] - ref.r4(ref.mean(c[-p["period"]:]))]
    if name == "MassIndex" and len(c) > 1:
        m = ref.ema(c, 9)
        return [m[-1] - m[-2]]
    return []


def allowed(name, d, t, p):
    """the set of signals the rule admits for the last day of d / t"""
    f = globals()[name]
    k = SLOTS.get(name, 0)
    if not k:
        r = f(d, t, p, ())
        return r if isinstance(r, set) else {r}
    scale = max([1.0] + [abs(v) for c in d if c != "volume" for v in d[c][-300:]]
                + [abs(v) for c in t for v in t[c][-300:] if v == v])
    eps = 1e-11 * scale
    slots = [(0.0,) if sure else (0.0, -eps, eps) for sure in certain(name, d, t, p)]
    for i, gap in enumerate(margins(name, d, t, p)):
        if len(slots[i]) > 1 and abs(gap) <= (1.001e-4 if name == "StandardDeviation" else eps):
            slots[i] += (math.nan,)             # neither above nor below
    return {f(d, t, p, e) for e in itertools.product(*slots)}

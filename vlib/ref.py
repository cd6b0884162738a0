"""Reference models of the 57 indicators: plain loops over lists of numbers.

`reference(name, data, params)` returns {column: list}. Entries that are NaN or
infinite at a row where the indicator should already produce output mean "the
definition divides zero by zero here" and are not compared.
Intermediate rounding that is part of the documented output precision (RSI,
bands around a rounded average, MACD) is reproduced."""
import math

NAN = float("nan")
INF = float("inf")
EPS = 1e-9


def div(a, b, eps=EPS):
    if a != a or b != b:
        return NAN
    if math.isinf(a) or math.isinf(b) or abs(b) <= eps:
        return INF
    return a / b


def bad(x):
    return x != x or x in (INF, -INF)


def r4(x):
    return x if bad(x) else round(x, 4)


def window(x, i, n):
    return x[i - n + 1:i + 1]


def roll(x, n, f):
    """f over full windows of n valid values; NaN during warm-up."""
    out = []
    for i in range(len(x)):
        w = window(x, i, n) if i >= n - 1 else None
        if w is None or any(v != v for v in w):
            out.append(NAN)
        elif any(math.isinf(v) for v in w):
            out.append(INF)
        else:
            out.append(f(w))
    return out


def mean(w):
    return math.fsum(w) / len(w)


def sma(x, n):
    return roll(x, n, mean)


def rsum(x, n):
    return roll(x, n, math.fsum)


def pstd(w):
    m = mean(w)
    return math.sqrt(math.fsum((v - m) ** 2 for v in w) / len(w))


def ema(x, n, minp=None):
    """exponential average, alpha = 2/(n+1), seeded with the first value;
    reported once n values have been seen."""
    minp = n if minp is None else minp
    a = 2.0 / (n + 1)
    out, y, seen = [], None, 0
    for v in x:
        if v != v and y is None:
            out.append(NAN)
            continue
        if bad(v):
            y = INF
        elif y is None:
            y = v
        elif y != INF:
            y = y + a * (v - y)
        seen += 1
        out.append(y if seen >= minp else NAN)
    return out


def lag(x, k):
    return ([NAN] * k + list(x))[:len(x)]


def zipf(f, *xs):
    out = []
    for t in zip(*xs):
        if any(v != v for v in t):
            out.append(NAN)
        elif any(math.isinf(v) for v in t):
            out.append(INF)
        else:
            out.append(f(*t))
    return out


def linreg(w):
    """(value at the last point, slope) of the least-squares line."""
    n = len(w)
    xm = (n - 1) / 2.0
    ym = mean(w)
    sxx = math.fsum((i - xm) ** 2 for i in range(n))
    sxy = math.fsum((i - xm) * (v - ym) for i, v in enumerate(w))
    s = sxy / sxx
    return ym + s * (n - 1 - xm), s


def true_range(h, l, c, first):
    out = []
    for i in range(len(h)):
        if i == 0:
            out.append(h[0] - l[0] if first else NAN)
        else:
            out.append(max(h[i] - l[i], h[i] - c[i - 1], c[i - 1] - l[i]))
    return out


def wilder(x, start, n):
    """first value = average of n entries from `start`, then += (x-avg)/n."""
    out = [NAN] * len(x)
    if start + n > len(x):
        return out
    y = mean(x[start:start + n])
    out[start + n - 1] = y
    for i in range(start + n, len(x)):
        y = y + (x[i] - y) / n
        out[i] = y
    return out


def ud(c, k=1):
    up, dn = [NAN] * k, [NAN] * k
    for i in range(k, len(c)):
        d = c[i] - c[i - k]
        up.append(max(d, 0.0))
        dn.append(max(-d, 0.0))
    return up[:len(c)], dn[:len(c)]


# ---------------------------------------------------------------- the models

def AccumulationDistributionLine(d, p):
    h, l, c, v = d["high"], d["low"], d["close"], d["volume"]
    out, s = [], 0.0
    for i in range(len(c)):
        if h[i] > l[i]:
            s += v[i] * ((c[i] - l[i]) - (h[i] - c[i])) / (h[i] - l[i])
            out.append(s)
        else:
            out.append(INF)
    return {"adl": out}


def AverageTrueRange(d, p):
    tr = true_range(d["high"], d["low"], d["close"], True)
    return {"atr": wilder(tr, 0, 14)}


def BollingerBands(d, p):
    n, k = p["period"], p["std_number"]
    m = [r4(x) for x in sma(d["close"], n)]
    s = roll(d["close"], n, pstd)
    return {"middle_band": m, "upper_band": zipf(lambda a, b: a + k * b, m, s),
            "lower_band": zipf(lambda a, b: a - k * b, m, s)}


def ChaikinMoneyFlow(d, p):
    h, l, c, v = d["high"], d["low"], d["close"], d["volume"]
    mf = [v[i] * (2 * c[i] - l[i] - h[i]) / (h[i] - l[i]) if h[i] > l[i] else INF
          for i in range(len(c))]
    return {"cmf": zipf(div, rsum(mf, p["period"]), rsum(v, p["period"]))}


def ChaikinOscillator(d, p):
    a = AccumulationDistributionLine(d, p)["adl"]
    a = [x if bad(x) else float(math.trunc(round(x, 6))) for x in a]
    return {"co": zipf(lambda x, y: x - y, ema(a, 3), ema(a, 10))}


def ChandeMomentumOscillator(d, p):
    up, dn = ud(d["close"])
    return {"cmo": zipf(lambda a, b: div(100 * (a - b), a + b),
                        rsum(up, p["period"]), rsum(dn, p["period"]))}


def CommodityChannelIndex(d, p):
    n = p["period"]
    tp = [(a + b + c) / 3.0 for a, b, c in zip(d["high"], d["low"], d["close"])]

    def f(w):
        m = mean(w)
        md = math.fsum(abs(m - x) for x in w) / n
        return div(w[-1] - m, 0.015 * md)
    return {"cci": roll(tp, n, f)}


def DetrendedPriceOscillator(d, p):
    n = p["period"]
    k = 1 + n // 2
    s = sma(d["close"], n)
    m = len(s) - k
    return {"dpo": [d["close"][i] - s[i + k] for i in range(max(0, m))]}


def DirectionalMovementIndex(d, p):
    h, l, c = d["high"], d["low"], d["close"]
    n = len(c)
    tr = true_range(h, l, c, False)
    pdm, ndm = [NAN], [NAN]
    for i in range(1, n):
        u, w = h[i] - h[i - 1], l[i - 1] - l[i]
        pdm.append(u if u > w and u > 0 else 0.0)
        ndm.append(w if w > u and w > 0 else 0.0)

    def acc(x):
        out = [NAN] * n
        y = math.fsum(x[1:14])
        out[13] = y
        for i in range(14, n):
            y = y - y / 14.0 + x[i]
            out[i] = y
        return out
    t, a, b = acc(tr), acc(pdm), acc(ndm)
    pdi, ndi, dx = [NAN] * n, [NAN] * n, [NAN] * n
    for i in range(14, n):
        pdi[i] = div(100 * a[i], t[i])
        ndi[i] = div(100 * b[i], t[i])
        dx[i] = INF if bad(pdi[i]) else div(100 * abs(pdi[i] - ndi[i]), pdi[i] + ndi[i])
    adx, adxr = [NAN] * n, [NAN] * n
    if any(bad(x) for x in dx[14:28]):
        y = INF
    else:
        y = math.fsum(dx[14:28]) / 14
    adx[27] = y
    for i in range(28, n):
        y = INF if bad(y) or bad(dx[i]) else (13 * y + dx[i]) / 14
        adx[i] = y
    for i in range(40, n):
        adxr[i] = INF if bad(adx[i]) or bad(adx[i - 13]) else (adx[i] + adx[i - 13]) / 2
    return {"+di": pdi, "-di": ndi, "dx": dx, "adx": adx, "adxr": adxr}


def DoubleExponentialMovingAverage(d, p):
    n = p["period"]
    e = ema(d["close"], n)
    return {"dema": zipf(lambda a, b: 2 * a - b, e, ema(e, n))}


def EaseOfMovement(d, p):
    h, l, v = d["high"], d["low"], d["volume"]
    out = [NAN]
    for i in range(1, len(h)):
        mid = (h[i] + l[i]) / 2 - (h[i - 1] + l[i - 1]) / 2
        if v[i] == 0:
            out.append(INF)
        else:
            out.append(mid * (h[i] - l[i]) * 10000 / v[i])
    return {"emv": out, "emv_ma": sma(out, p["period"])}


def Envelopes(d, p):
    m = sma(d["close"], p["period"])
    return {"upper_band": [x * (1 + p["shift"]) for x in m],
            "lower_band": [x * (1 - p["shift"]) for x in m]}


def FibonacciRetracement(d, p):
    hi, lo = max(d["close"]), min(d["close"])
    return {"rl_%s" % n: [hi - f * (hi - lo)] * len(d["close"])
            for n, f in (("0.0", 0), ("23.6", 0.236), ("38.2", 0.382), ("50.0", 0.5),
                         ("61.8", 0.618), ("100.0", 1))}


def ForecastOscillator(d, p):
    f = lag(TimeSeriesForecast(d, p)["tsf"], 1)
    return {"fosc": zipf(lambda c, t: div(100 * (c - t), c), d["close"], f)}


def _mid(h, l, i, n):
    a = max(0, i - n + 1)
    return (max(h[a:i + 1]) + min(l[a:i + 1])) / 2


def IchimokuCloud(d, p):
    h, l = d["high"], d["low"]
    r = range(len(h))
    t = [_mid(h, l, i, 9) for i in r]
    k = [_mid(h, l, i, 26) for i in r]
    b = [_mid(h, l, i, 52) for i in r]
    return {"tenkan_sen": t, "kijun_sen": k,
            "senkou_a": lag([(x + y) / 2 for x, y in zip(t, k)], 26), "senkou_b": lag(b, 26)}


def IntradayMomentumIndex(d, p):
    up = [max(c - o, 0.0) for o, c in zip(d["open"], d["close"])]
    dn = [max(o - c, 0.0) for o, c in zip(d["open"], d["close"])]
    return {"imi": zipf(lambda a, b: div(100 * a, a + b), rsum(up, p["period"]),
                        rsum(dn, p["period"]))}


def KlingerOscillator(d, p):
    h, l, c, v = d["high"], d["low"], d["close"], d["volume"]
    n = len(c)
    s = [h[i] + l[i] + c[i] for i in range(n)]
    t = [None] + [1.0 if s[i] - s[i - 1] > 0 else -1.0 for i in range(1, n)]
    dm = [h[i] - l[i] for i in range(n)]
    cm = 0.0
    vf = [NAN]
    for i in range(1, n):
        cm = cm + dm[i] if t[i] == t[i - 1] else dm[i - 1] + dm[i]
        q = div(dm[i], cm)
        vf.append(INF if bad(q) else v[i] * abs(2 * q - 1) * t[i] * 100)
    return {"ko": zipf(lambda a, b: a - b, ema(vf, 34), ema(vf, 55))}


def LinearRegressionIndicator(d, p):
    return {"lri": roll(d["close"], p["period"], lambda w: linreg(w)[0])}


def LinearRegressionSlope(d, p):
    return {"lrs": roll(d["close"], p["period"], lambda w: linreg(w)[1])}


def MarketFacilitationIndex(d, p):
    return {"mfi": [div(h - l, v, 0) for h, l, v in zip(d["high"], d["low"], d["volume"])]}


def MassIndex(d, p):
    e = ema([h - l for h, l in zip(d["high"], d["low"])], 9)
    return {"mi": rsum(zipf(div, e, ema(e, 9)), 25)}


def MedianPrice(d, p):
    return {"mp": [(h + l) / 2 for h, l in zip(d["high"], d["low"])]}


def Momentum(d, p):
    return {"mom": zipf(lambda a, b: div(100 * a, b), d["close"], lag(d["close"], p["period"]))}


def MovingAverage(d, p):
    c, n, t = d["close"], p["period"], p["ma_type"]
    if t == "simple":
        m = sma(c, n)
    elif t == "exponential":
        m = ema(c, n)
    elif t == "triangular":
        m = sma(sma(c, n), n)
    elif t == "time_series":
        m = TimeSeriesForecast(d, p)["tsf"]
    else:
        cmo = [r4(x) for x in ChandeMomentumOscillator(d, {"period": 9})["cmo"]]
        k = 2.0 / (n + 1)
        m = [NAN] * len(c)
        y = c[21]
        m[21] = y
        for i in range(22, len(c)):
            if bad(cmo[i]) or bad(y):
                y = INF
            else:
                w = k * abs(cmo[i]) / 100
                y = w * c[i] + (1 - w) * y
            m[i] = y
    return {"ma-" + t: m}


def MovingAverageConvergenceDivergence(d, p):
    a = [r4(x) for x in ema(d["close"], 12)]
    b = [r4(x) for x in ema(d["close"], 26)]
    m = zipf(lambda x, y: x - y, a, b)
    return {"macd": m, "signal_line": ema(m, 9)}


def _vol_index(d, cmp):
    c, v = d["close"], d["volume"]
    y = 1000.0
    out = [y]
    for i in range(1, len(c)):
        if cmp(v[i], v[i - 1]):
            y = y * c[i] / c[i - 1]
        out.append(y)
    return out


def NegativeVolumeIndex(d, p):
    return {"nvi": _vol_index(d, lambda a, b: a < b)}


def PositiveVolumeIndex(d, p):
    return {"pvi": _vol_index(d, lambda a, b: a > b)}


def OnBalanceVolume(d, p):
    c, v = d["close"], d["volume"]
    y = 0.0
    out = [0.0]
    for i in range(1, len(c)):
        y += v[i] if c[i] > c[i - 1] else -v[i] if c[i] < c[i - 1] else 0.0
        out.append(y)
    return {"obv": out}


def ParabolicSAR(d, p):
    h, l = d["high"], d["low"]
    n = len(h)
    step, top = 0.02, 0.2
    long = h[1] > h[0]
    af, start = step, 0
    ep = h[0] if long else l[0]
    sar = l[0] if long else h[0]
    out = [sar]
    for i in range(1, n):
        prev_ep, prev_af = ep, af
        ep = max(h[start:i + 1]) if long else min(l[start:i + 1])
        if (long and ep > prev_ep) or (not long and ep < prev_ep):
            af = min(top, prev_af + step)
        nxt = sar + prev_af * (prev_ep - sar)
        a = max(0, i - 2)
        nxt = min(nxt, min(l[a:i])) if long else max(nxt, max(h[a:i]))
        gap = (l[i] - nxt) if long else (nxt - h[i])
        if gap != 0 and abs(gap) < 1e-9 * abs(nxt):     # a tie up to rounding noise
            return {"sar": out + [INF] * (n - i)}
        if gap < 0:
            nxt = max(h[start:i]) if long else min(l[start:i])
            long = not long
            af, start = step, i
            ep = h[i] if long else l[i]
        sar = nxt
        out.append(sar)
    return {"sar": out}


def Performance(d, p):
    c = d["close"]
    return {"prf": [(x - c[0]) / c[0] for x in c], "target_" + p["mode"]: [float(p["target"])] * len(c)}


def PriceAndVolumeTrend(d, p):
    c, v = d["close"], d["volume"]
    y, out = 0.0, [0.0]
    for i in range(1, len(c)):
        y += v[i] * (c[i] - c[i - 1]) / c[i - 1]
        out.append(y)
    return {"pvt": out}


def PriceChannel(d, p):
    n = p["period"]
    return {"highest_high": lag(roll(d["high"], n, max), 1),
            "lowest_low": lag(roll(d["low"], n, min), 1)}


def PriceOscillator(d, p):
    return {"posc": zipf(lambda s, g: div(100 * (s - g), g), sma(d["close"], p["short_ma"]),
                         sma(d["close"], p["long_ma"]))}


def PriceRateOfChange(d, p):
    return {"prc": zipf(lambda a, b: div(100 * (a - b), b), d["close"],
                        lag(d["close"], p["period"]))}


def ProjectionBands(d, p):
    n = p["period"]

    def f(pick):
        def g(w):
            s = linreg(w)[1]
            return pick(w[n - 1 - j] + j * s for j in range(n))
        return g
    return {"upper_band": roll(d["high"], n, f(max)), "lower_band": roll(d["low"], n, f(min))}


def ProjectionOscillator(d, p):
    b = ProjectionBands(d, p)
    up = [r4(x) for x in b["upper_band"]]
    lo = [r4(x) for x in b["lower_band"]]
    # bands are published with 4 decimals: a band narrower than a few units of
    # that precision does not determine the oscillator
    o = zipf(lambda c, u, w: div(100 * (c - w), u - w, 0.02), d["close"], up, lo)
    return {"posc": o, "trigger_line": ema(o, 3)}


def Qstick(d, p):
    return {"qstick": sma([c - o for o, c in zip(d["open"], d["close"])], p["period"])}


def RangeIndicator(d, p):
    h, l, c = d["high"], d["low"], d["close"]
    n = p["range_period"]
    tr = true_range(h, l, c, False)
    v = [NAN] + [tr[i] / (c[i] - c[i - 1]) if c[i] > c[i - 1] else tr[i]
                 for i in range(1, len(c))]

    def f(w):
        lo, hi = min(w), max(w)
        if hi > lo and hi - lo <= 1e-9 * max(1.0, hi):
            return INF
        return 100 * (w[-1] - lo) / (hi - lo) if hi > lo else 0.0
    return {"ri": ema(roll(v, n, f), p["smoothing_period"])}


def RelativeMomentumIndex(d, p):
    m, n = p["momentum_period"], p["period"]
    up, dn = ud(d["close"], m)
    return {"rmi": zipf(lambda a, b: div(100 * a, a + b), wilder(up, m, n), wilder(dn, m, n))}


def RelativeStrengthIndex(d, p):
    n = p["period"]
    up, dn = ud(d["close"])

    def sm(x):
        x = [r4(v) for v in x]
        out = [NAN] * len(x)
        y = mean(x[1:n + 1])
        out[n] = y
        for i in range(n + 1, len(x)):
            y = round(y + (x[i] - y) / n, 4)
            out[i] = y
        return out
    return {"rsi": zipf(lambda a, b: div(100 * a, a + b), sm(up), sm(dn))}


def RelativeVolatilityIndex(d, p):
    n = p["period"]

    def one(x):
        s = roll(x, 10, pstd)
        up = [0.0] + [s[i] if x[i] > x[i - 1] else 0.0 for i in range(1, len(x))]
        dn = [0.0] + [s[i] if x[i] < x[i - 1] else 0.0 for i in range(1, len(x))]
        return zipf(lambda a, b: div(100 * a, a + b, 1e-6), wilder(up, 9, n), wilder(dn, 9, n))
    return {"rvi": zipf(lambda a, b: (a + b) / 2, one(d["high"]), one(d["low"]))}


def StandardDeviation(d, p):
    return {"sd": roll(d["close"], p["period"], pstd)}


def StochasticMomentumIndex(d, p):
    n = p["period"]
    hh, ll = roll(d["high"], n, max), roll(d["low"], n, min)
    s, t = p["smoothing_period"], p["double_smoothing_period"]
    dist = zipf(lambda c, a, b: c - (a + b) / 2, d["close"], hh, ll)
    rng = zipf(lambda a, b: a - b, hh, ll)
    return {"smi": zipf(lambda a, b: div(200 * a, b), ema(ema(dist, s), t), ema(ema(rng, s), t))}


def StochasticOscillator(d, p):
    n = p["k_periods"]
    hh, ll = roll(d["high"], n, max), roll(d["low"], n, min)
    k = zipf(lambda a, b: div(100 * a, b),
             rsum(zipf(lambda c, x: c - x, d["close"], ll), p["k_slowing_periods"]),
             rsum(zipf(lambda a, b: a - b, hh, ll), p["k_slowing_periods"]))
    k = [r4(x) for x in k]
    m = p["d_periods"]
    if p["d_method"] == "simple":
        dd = sma(k, m)
    else:
        wt = [math.exp(-abs(j - (m - 1) / 2.0)) for j in range(m)]
        dd = roll(k, m, lambda w: math.fsum(a * b for a, b in zip(w, wt)) / math.fsum(wt))
    return {"%K": k, "%D": dd}


def SwingIndex(d, p):
    o, h, l, c = d["open"], d["high"], d["low"], d["close"]
    out = [NAN]
    for i in range(1, len(c)):
        k = max(abs(h[i] - c[i - 1]), abs(l[i] - c[i - 1]))
        r = max(k, h[i] - l[i]) + 0.25 * abs(c[i - 1] - o[i - 1])
        num = (c[i] - c[i - 1]) + 0.5 * (c[i] - o[i]) + 0.25 * (c[i - 1] - o[i - 1])
        q = div(num, r)
        out.append(INF if bad(q) else max(-100.0, min(100.0, 50 * q * k / 3)))
    return {"swi": out}


def TimeSeriesForecast(d, p):
    # published as (4-decimal regression value) + (4-decimal slope)
    return {"tsf": roll(d["close"], p["period"], lambda w: sum(linreg(w)))}


def TripleExponentialMovingAverage(d, p):
    n = p["period"]
    a = ema(d["close"], n)
    b = ema(a, n)
    return {"tema": zipf(lambda x, y, z: 3 * x - 3 * y + z, a, b, ema(b, n))}


def TypicalPrice(d, p):
    return {"tp": [(h + l + c) / 3 for h, l, c in zip(d["high"], d["low"], d["close"])]}


def UltimateOscillator(d, p):
    h, l, c = d["high"], d["low"], d["close"]
    n = len(c)
    tl = [NAN] + [min(l[i], c[i - 1]) for i in range(1, n)]
    th = [NAN] + [max(h[i], c[i - 1]) for i in range(1, n)]
    rg = zipf(lambda a, b: a - b, th, tl)
    bu = zipf(lambda a, b: a - b, c, tl)
    q = [zipf(div, rsum(bu, k), rsum(rg, k)) for k in (7, 14, 28)]
    return {"uosc": zipf(lambda a, b, e: 100 * (4 * a + 2 * b + e) / 7, *q)}


def VerticalHorizontalFilter(d, p):
    n = p["period"]
    c = d["close"]
    ch = [NAN] + [abs(c[i] - c[i - 1]) for i in range(1, len(c))]
    return {"vhf": zipf(lambda a, b, s: div(a - b, s), roll(c, n, max), roll(c, n, min),
                        rsum(ch, n))}


def VolatilityChaikins(d, p):
    e = ema([h - l for h, l in zip(d["high"], d["low"])], p["ema_period"])
    return {"vch": zipf(lambda a, b: div(100 * (a - b), b), e, lag(e, p["change_period"]))}


def VolumeOscillator(d, p):
    return {"vosc": zipf(lambda a, b: a - b, sma(d["volume"], p["short_period"]),
                         sma(d["volume"], p["long_period"]))}


def VolumeRateOfChange(d, p):
    return {"vrc": zipf(lambda a, b: div(100 * (a - b), b, 0), d["volume"],
                        lag(d["volume"], p["period"]))}


def WeightedClose(d, p):
    return {"wc": [(2 * c + h + l) / 4 for h, l, c in zip(d["high"], d["low"], d["close"])]}


def WildersSmoothing(d, p):
    return {"ws": wilder(d["close"], 0, p["period"])}


def WilliamsAccumulationDistribution(d, p):
    h, l, c = d["high"], d["low"], d["close"]
    out = [NAN]
    for i in range(1, len(c)):
        if c[i] > c[i - 1]:
            out.append(c[i] - min(c[i - 1], l[i]))
        elif c[i] < c[i - 1]:
            out.append(c[i] - max(c[i - 1], h[i]))
        else:
            out.append(0.0)
    return {"wad": out}


def WilliamsR(d, p):
    n = p["period"]
    return {"wr": zipf(lambda a, b, c: div(-100 * (a - c), a - b), roll(d["high"], n, max),
                       roll(d["low"], n, min), d["close"])}


def reference(name, data, params):
    return globals()[name]({k: [float(x) for x in v] for k, v in data.items()}, params)

"""getTiSignal against the documented rule of every indicator (sig.py)."""
import zlib

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import gen, sig, spec
from vlib.core import Check, Skip, Target, Violation, lib
from vlib.lab import (SIGNALS, case_for, columns, inputs, make, moving, stub_graphs, ti_data)
from checks.c_values import FAMILIES

NAN = None                       # JSON has no NaN
HELPER_COLUMNS = ("MassIndex", "MedianPrice")     # they keep an average of the closes

# ---------------------------------------------------------------- natural
ROWS = {"NegativeVolumeIndex": 256, "PositiveVolumeIndex": 256, "ChaikinOscillator": 90,
        "MassIndex": 45, "UltimateOscillator": 50, "DirectionalMovementIndex": 44,
        "IchimokuCloud": 40, "KlingerOscillator": 62, "WilliamsAccumulationDistribution": 34,
        "MovingAverageConvergenceDivergence": 40}


def view(ti, name, case):
    """(signal name per day) from a simulation over the whole period"""
    df = gen.build(case["frame"], ("close",))
    sim = lib("%s.getTiSimulation" % name, ti.getTiSimulation, df)
    return sim[0]


def head(d, k):
    return {c: v[:k] for c, v in d.items()}


def natural(case):
    name, fr = case["ind"], case["frame"]
    s = spec.REG[name]
    p = s.full(case["params"])
    stub_graphs()
    ti = make(name, gen.build(fr, s.cols), case["params"])
    data = ti_data(ti, name)
    t = columns(data, name, case["params"])
    n = len(data)
    d = inputs(fr)
    got = list(view(ti, name, case)["signal"])
    seen = set()
    for k in range(1, n + 1):
        # a simulation day sees the input rows up to the same date
        want = sig.allowed(name, head(d, k), head(t, k), p)
        g = got[k - 1]
        seen.add(g)
        if g not in {w[0] for w in want}:
            raise Violation("%s %s: signal of day %d of %d is %r, the rule gives %s" % (
                name, p, k, n, g, sorted(want)))
    last = lib("getTiSignal", ti.getTiSignal)
    want = sig.allowed(name, d, t, p)
    if last not in want or last not in SIGNALS:
        raise Violation("%s %s: getTiSignal() is %r, the rule gives %s" % (
            name, p, last, sorted(want)))
    return len(seen) > 1, [name] + ["%s rule:%s" % (name, x) for x in sorted(seen)]


# ---------------------------------------------------------------- injected
E4 = 0.0001


def near(*anchors):
    out = []
    for a in anchors:
        out += [a, a, a - E4, a + E4, a - 3.0, a + 3.0]
    return [round(x, 4) for x in out]


UNIT = [-2.0, -1.0, -E4, 0.0, 0.0, E4, 1.0, 2.0]
RAMP = [1.0, 1.0001, 2.0, 2.0, 3.0, 4.0]
DELTA = [0.0, 0.0, E4, -E4, 0.125, -0.125, 1.0, -1.0, 5.0, -5.0]

ABS = {
    "AccumulationDistributionLine": {"adl": [-500.0, -1.0, 0.0, 0.0, 1.0, 500.0]},
    "ChaikinMoneyFlow": {"cmf": [-0.1, 0.0, 0.0, 0.1, 0.1, 0.1001]},
    "ChaikinOscillator": {"co": UNIT},
    "ChandeMomentumOscillator": {"cmo": near(-50.0, 50.0, 0.0)},
    "CommodityChannelIndex": {"cci": near(-100.0, 100.0)},
    "DetrendedPriceOscillator": {"dpo": UNIT},
    "DirectionalMovementIndex": {"+di": [10.0, 10.0001, 20.0, 20.0, 30.0],
                                 "-di": [10.0, 10.0001, 20.0, 20.0, 30.0],
                                 "adxr": [15.0, 19.9999, 20.0, 20.0001, 25.0, 40.0]},
    "EaseOfMovement": {"emv_ma": UNIT, "emv": UNIT},
    "ForecastOscillator": {"fosc": UNIT},
    "IntradayMomentumIndex": {"imi": near(30.0, 70.0, 50.0)},
    "KlingerOscillator": {"ko": UNIT},
    "LinearRegressionSlope": {"lrs": UNIT},
    "MarketFacilitationIndex": {"mfi": RAMP},
    "MassIndex": {"mi": [25.0, 26.4999, 26.5, 26.5001, 26.8, 27.0, 27.0, 27.0001, 28.0]},
    "Momentum": {"mom": UNIT},
    "MovingAverageConvergenceDivergence": {
        "macd": UNIT, "signal_line": UNIT + [3.0, -3.0, 5.0, -5.0]},
    "NegativeVolumeIndex": {"nvi": [1000.0, 1000.0, 1000.0001, 999.9999, 1003.0, 997.0]},
    "PositiveVolumeIndex": {"pvi": [1000.0, 1000.0, 1000.0001, 999.9999, 1003.0, 997.0]},
    "OnBalanceVolume": {"obv": [1.0, 2.0, 2.0, 3.0, 4.0]},
    "PriceAndVolumeTrend": {"pvt": RAMP},
    "PriceOscillator": {"posc": UNIT},
    "PriceRateOfChange": {"prc": RAMP},
    "ProjectionOscillator": {"posc": near(15.0, 85.0, 50.0), "trigger_line": near(15.0, 85.0, 50.0)},
    "Qstick": {"qstick": UNIT},
    "RangeIndicator": {"ri": near(20.0, 70.0) + [45.0, 5.0]},
    "RelativeMomentumIndex": {"rmi": near(30.0, 70.0, 50.0)},
    "RelativeStrengthIndex": {"rsi": near(30.0, 70.0, 50.0)},
    "RelativeVolatilityIndex": {"rvi": near(40.0, 60.0, 50.0)},
    "StandardDeviation": {"sd": near(2.0) + [0.0]},
    "StochasticMomentumIndex": {"smi": near(-40.0, 40.0, 0.0)},
    "StochasticOscillator": {"%K": near(20.0, 80.0) + [50.0, 95.0, 5.0],
                             "%D": near(20.0, 80.0) + [50.0, 95.0, 5.0]},
    "SwingIndex": {"swi": UNIT},
    "UltimateOscillator": {"uosc": near(30.0) + [20.0, 40.0, 40.0, 50.0, 70.0]},
    "VerticalHorizontalFilter": {"vhf": [0.1, 0.2, 0.2, 0.3, 0.4, 0.4001]},
    "VolatilityChaikins": {"vch": RAMP},
    "VolumeOscillator": {"vosc": [-1.0, 0.0, 0.0, E4, 1.0, 2.0, 2.0, 3.0]},
    "VolumeRateOfChange": {"vrc": RAMP},
    "WilliamsR": {"wr": [-100.0, -90.0, -80.0001, -80.0, -79.9999, -60.0, -50.0001, -50.0,
                         -49.9999, -40.0, -20.0001, -20.0, -19.9999, -5.0, 0.0]},
    "WilliamsAccumulationDistribution": {"wad": UNIT + [3.0, -3.0]},
}
# columns placed around the close price of the same row; True: upper >= lower
REL = {
    "BollingerBands": (["upper_band", "lower_band"], True),
    "Envelopes": (["upper_band", "lower_band"], True),
    "PriceChannel": (["highest_high", "lowest_low"], True),
    "ProjectionBands": (["upper_band", "lower_band"], True),
    "DoubleExponentialMovingAverage": (["dema"], False),
    "TripleExponentialMovingAverage": (["tema"], False),
    "IchimokuCloud": (["tenkan_sen", "kijun_sen", "senkou_a", "senkou_b"], False),
    "LinearRegressionIndicator": (["lri"], False),
    "MedianPrice": (["mp"], False),
    "MovingAverage": (None, False),
    "ParabolicSAR": (["sar"], False),
    "TimeSeriesForecast": (["tsf"], False),
    "TypicalPrice": (["tp"], False),
    "WeightedClose": (["wc"], False),
    "WildersSmoothing": (["ws"], False),
}
# of several columns, those which start later than the others
LATE = {"DirectionalMovementIndex": ["adxr"], "ProjectionOscillator": ["trigger_line"],
        "MovingAverageConvergenceDivergence": ["signal_line"], "StochasticOscillator": ["%D"],
        "IchimokuCloud": ["senkou_a", "senkou_b"], "EaseOfMovement": ["emv_ma"]}
# warm-up rows without a value are part of these rules' input
TAIL = {"UltimateOscillator": 30, "WilliamsAccumulationDistribution": 30, "MassIndex": 12,
        "WilliamsR": 12, "RangeIndicator": 12,
        "Momentum": 10}
assert set(ABS) | set(REL) | {"Performance", "FibonacciRetracement", "AverageTrueRange"} \
    == set(spec.NAMES)


def injected_case(name):
    s = spec.REG[name]

    @st.composite
    def build(draw):
        base = draw(case_for(name, lo_extra=max(2, ROWS.get(name, 0) - s.need({})), hi_extra=12,
                             cap=8, default_share=6, min_n=5, grids=(0.125, 1),
                             amps=(2, 8, 24), bases=(200, 800),
                             index=("D",), vmodes=("steps", "wide")))
        p, fr = base["params"], base["frame"]
        rows = fr["n"] - s.drop(p)
        k = min(rows, TAIL.get(name, 5))
        k = draw(st.integers(min(2, k), k)) if name != "Momentum" else k
        shape = draw(st.sampled_from(("free", "free", "asc", "desc")))
        inj = {}
        if name in ABS:
            each = len(ABS[name]) > 1 and draw(st.booleans())
            for c, pool in ABS[name].items():
                if each:
                    shape = draw(st.sampled_from(("free", "asc", "desc")))
                if shape != "free" and draw(st.booleans()) and k >= 4:
                    v = draw(st.lists(st.sampled_from(pool), min_size=k - 4, max_size=k - 4)) \
                        + draw(st.permutations(sorted(set(pool))))[:4]
                    v = (v * 4)[:k]
                else:
                    v = draw(st.lists(st.sampled_from(pool), min_size=k, max_size=k))
                if shape != "free":
                    v = v[:-4] + sorted(v[-4:], reverse=shape == "desc")
                inj[c] = v
        elif name == "IchimokuCloud":
            up = 1 if shape in ("free", "asc") else -1
            gaps = st.sampled_from((0.0, E4, 0.125, 1.0, 5.0))
            c0, c1 = fr["close"][rows - 2:rows]
            k = 2
            base_ = [c0 + draw(st.sampled_from(DELTA)), c1 + draw(st.sampled_from(DELTA))]
            edge = min(c1, base_[1]) if up > 0 else max(c1, base_[1])
            inj["kijun_sen"] = [round(x, 4) for x in base_]
            inj["tenkan_sen"] = [round(base_[0] - up * draw(gaps), 4),
                                 round(base_[1] + up * draw(gaps), 4)]
            lo = edge - up * draw(st.sampled_from((0.0, E4, E4, 0.125, 1.0, 1.0, -E4, -1.0)))
            inj["senkou_a"] = [round(lo - up * draw(gaps), 4) for _ in range(2)]
            inj["senkou_b"] = [round(lo, 4)] * 2
            if draw(st.booleans()):
                inj["senkou_a"], inj["senkou_b"] = inj["senkou_b"], inj["senkou_a"]
        elif name in REL:
            cols, order = REL[name]
            cols = cols or s.outs(p)
            for c in cols:
                ds = draw(st.lists(st.sampled_from(DELTA), min_size=k, max_size=k))
                inj[c] = [round(fr["close"][rows - k + i] + x, 4) for i, x in enumerate(ds)]
            if order:
                a, b = cols
                both = list(zip(inj[a], inj[b]))
                inj[a] = [max(x) for x in both]
                inj[b] = [min(x) for x in both]
        elif name == "Performance":
            t = s.full(p)["target"]
            pool = [t, t, round(t + E4, 4), round(t - E4, 4), 0.0, -t]
            inj["prf"] = draw(st.lists(st.sampled_from(pool), min_size=k, max_size=k))
        elif name == "AverageTrueRange":
            ds = draw(st.lists(st.sampled_from([0.0, 0.5, -0.5, 3.0, -0.01, 0.01]), min_size=k,
                               max_size=k))
            inj["atr"] = [max(0.0, round(0.01 * fr["close"][rows - k + i] + x, 4))
                          for i, x in enumerate(ds)]
        else:                                              # Fibonacci: constant, ordered levels
            k = rows
            lv = sorted(round(draw(st.sampled_from(fr["close"][-3:])) + draw(
                st.sampled_from(DELTA)), 4) for _ in range(6))
            lv.reverse()
            inj = {c: [v] * rows for c, v in zip(s.outs(p), lv)}
        if draw(st.integers(0, 9)) == 9 and name not in (
                "FibonacciRetracement", "Performance", "WilliamsAccumulationDistribution"):
            # values start after a warm-up: a missing prefix, never a hole
            for i in range(draw(st.integers(1, k))):
                for c in LATE.get(name, sorted(inj)):
                    inj[c][i] = NAN
        base["inject"] = inj
        return base
    return build


def plain(x, depth=0):
    """a parameter, a property or a small table of them; no series of days"""
    if x is None or isinstance(x, (bool, int, float, str, np.generic, type)):
        return True
    if isinstance(x, dict):
        x = list(x) + list(x.values())
    return isinstance(x, (list, tuple, set, frozenset)) and len(x) <= 20 and depth < 4 and all(
        plain(y, depth + 1) for y in x)


def put_data(ti, name, data):
    """make `data` the instance's published values; not applicable when the
    instance keeps more series than its input and its values, because those
    would contradict the new ones"""
    now = ti.getTiData()
    slots = []
    for key, x in vars(ti).items():
        if x is now:
            slots.append(key)
        elif isinstance(x, pd.DataFrame) and set(x.columns) >= set(spec.REG[name].cols) and (
                len(x.columns) == len(spec.REG[name].cols) or name in HELPER_COLUMNS):
            continue                                        # the input
        elif not plain(x):
            raise Skip()
    if len(slots) != 1:
        raise Skip()
    setattr(ti, slots[0], data)
    if ti.getTiData() is not data:
        raise Skip()


def injected(case):
    name, fr, inj = case["ind"], case["frame"], case["inject"]
    s = spec.REG[name]
    p = s.full(case["params"])
    ti = make(name, gen.build(fr, s.cols), case["params"])
    data = ti_data(ti, name).copy()
    columns(data, name, case["params"])
    k = len(next(iter(inj.values())))
    if k > len(data):
        raise Violation("%s %s: only %d rows of output for %d of input" % (
            name, p, len(data), fr["n"]))
    for c, v in inj.items():
        full = [float(x) for x in data[c].tolist()]
        v = [float("nan") if x is None else x for x in v]
        # an injected missing prefix means nothing was published earlier either
        pre = [float("nan")] * (len(full) - k) if v[0] != v[0] else full[:len(full) - k]
        data[c] = pre + v
    put_data(ti, name, data)
    t = columns(data, name, case["params"])
    d = inputs(fr)
    got = lib("getTiSignal", ti.getTiSignal)
    want = sig.allowed(name, d, t, p)
    if got not in want:
        raise Violation("%s %s: getTiSignal() is %r for indicator values %s and closes %s; "
                        "the rule gives %s" % (name, p, got, {c: v[-4:] for c, v in t.items()},
                                               d["close"][-4:], sorted(want)))
    return True, [name, "%s edge:%s" % (name, got[0])]


def days_case(name):
    """values on, next to and across thresholds on every day of a short history"""
    s = spec.REG[name]
    lo = max(2, ROWS.get(name, 0) - s.need({}))

    @st.composite
    def build(draw):
        base = draw(case_for(name, lo_extra=lo, hi_extra=10, cap=draw(st.sampled_from((1, 2, 4))),
                             default_share=12, min_n=3, grids=(0.125, 1), amps=(2, 8, 24),
                             bases=(200, 800), index=("D",), vmodes=("steps", "wide")))
        p, fr = base["params"], base["frame"]
        rows, first = fr["n"] - s.drop(p), s.first(p)
        inj = {}
        for c in s.outs(p):
            if name in ABS:
                if c not in ABS[name]:
                    continue
                pool = ABS[name][c]
            elif name in REL:
                pool = [0.0, 0.0, E4, -E4, 0.125, -0.125, 1.0, -1.0]
            elif c == "prf":
                t = s.full(p)["target"]
                pool = [t, t, round(t + E4, 4), round(t - E4, 4), 0.0, -t]
            else:
                continue
            # a small palette makes crossings and ties frequent
            some = draw(st.permutations(sorted(set(pool))))[:draw(st.integers(2, 5))]
            m = max(0, rows - first[c])
            far = max(0, m - 60)
            mix = draw(st.binary(min_size=m - far, max_size=m - far))
            if draw(st.integers(0, 9)):
                mix = gen.stir(mix, zlib.crc32(repr((c, mix, some, fr["close"])).encode()), 255)
            v = [some[0]] * far + [some[x % len(some)] for x in mix]
            if name in REL:
                v = [round(fr["close"][first[c] + i] + x, 4) for i, x in enumerate(v)]
            inj[c] = [NAN] * (rows - m) + v
        if name in REL and REL[name][1]:
            a, b = REL[name][0]
            both = list(zip(inj[a], inj[b]))
            inj[a] = [x if x is None or y is None else max(x, y) for x, y in both]
            inj[b] = [y if x is None or y is None else min(x, y) for x, y in both]
        base["inject"] = inj
        return base
    return build()


def days(case):
    name, fr, inj = case["ind"], case["frame"], case["inject"]
    s = spec.REG[name]
    p = s.full(case["params"])
    stub_graphs()
    ti = make(name, gen.build(fr, s.cols), case["params"])
    data = ti_data(ti, name).copy()
    columns(data, name, case["params"])
    for c, v in inj.items():
        if len(v) != len(data):
            raise Violation("%s %s: %d rows of output for %d of input" % (
                name, p, len(data), fr["n"]))
        data[c] = [float("nan") if x is None else x for x in v]
    put_data(ti, name, data)
    t = columns(data, name, case["params"])
    d = inputs(fr)
    got = list(view(ti, name, case)["signal"])[:len(data)]
    for k in range(1, len(data) + 1):
        want = sig.allowed(name, head(d, k), head(t, k), p)
        if got[k - 1] not in {w[0] for w in want}:
            raise Violation("%s %s: the signal of day %d is %r for indicator values %s and closes "
                            "%s; the rule gives %s" % (
                                name, p, k, got[k - 1], {c: v[max(0, k - 4):k] for c, v in t.items()},
                                d["close"][max(0, k - 4):k], sorted(want)))
    return len(set(got)) > 1, ["%s day:%s" % (name, x) for x in sorted(set(got))]


def family(pid):
    def make_check():
        targets = []
        for n in FAMILIES["V" + pid[1:]]:
            lo = max(0, ROWS.get(n, 0) - spec.REG[n].need({}))
            big = n in ("NegativeVolumeIndex", "PositiveVolumeIndex")
            targets.append(Target(
                "rule/" + n, (lambda n=n, lo=lo: case_for(n, lo_extra=lo, hi_extra=40, cap=12,
                                                          default_share=5, min_n=4,
                                                          bases=gen.ANY_BASE)),
                natural, quick=80 if big else 240, thorough=1500 if big else 4000, chunk=40,
                cost=10 if big else 3))
            targets.append(Target("edge/" + n, injected_case(n), injected,
                                  quick=300 if big else 1600, thorough=30000, chunk=300, cost=1))
            if n not in ("FibonacciRetracement", "AverageTrueRange"):
                targets.append(Target("days/" + n, (lambda n=n: days_case(n)), days,
                                      quick=24 if big else 160, thorough=600 if big else 3000,
                                      chunk=40, cost=12 if big else 4))
        return Check(
            pid,
            "rule/*: OHLCV histories; the signal of every day of the history (through a "
            "simulation) and the final getTiSignal are compared with the documented rule applied "
            "to the published indicator values; non-trivial when at least two different signals "
            "occur in the history. edge/*: a real instance whose last published values are "
            "replaced by values on, next to and across the rule's thresholds; every such case is "
            "non-trivial. days/*: the same on every day of a short history from the first complete "
            "window on, seen through a simulation; non-trivial when two signals occur.", targets,
            ["a signal decided by a tie in the last bits of an unpublished helper average is "
             "accepted either way",
             "indicator values are the library's own (their correctness is V01-V05)"])
    return make_check


CHECKS = {"S0%d" % i: family("S0%d" % i) for i in range(1, 6)}

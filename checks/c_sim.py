"""Trading simulation: ledger, caps, statistics, faithfulness, validation."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import gen, ledger, spec
from vlib.core import Check, Skip, Target, Violation, lib
from vlib.lab import (NotEnoughInputData, NotValidInputDataForSimulation,
                      WrongTypeForInputParameter, WrongValueForInputParameter, case_for, cls,
                      close_figures, frames_equal, make, moving, stub_graphs, ti_data)
from tti.utils.trading_simulation import TradingSimulation
import tti.indicators as TI

SIG = {"b": ("buy", -1), "h": ("hold", 0), "s": ("sell", 1)}
MONEY = ledger.COLUMNS[2:]


def near(a, b, scale):
    return a == a and abs(a - b) <= 1e-9 * max(1.0, scale)


def check_frame(df, rows, index, what):
    """the returned simulation frame against the model's rows; days which were
    not simulated stay empty"""
    if not isinstance(df, pd.DataFrame) or list(df.columns) != ledger.COLUMNS:
        raise Violation("%s: columns %s" % (what, list(getattr(df, "columns", []))))
    if not df.index.equals(index):
        raise Violation("%s: the simulation index is not the input index" % what)
    got = {c: df[c].tolist() for c in ledger.COLUMNS}
    scale = 1.0
    for i, r in enumerate(rows):
        for c in ledger.COLUMNS[:2]:
            if got[c][i] != r[c]:
                raise Violation("%s: day %d %s is %r instead of %r" % (what, i, c, got[c][i], r[c]))
        for c in MONEY:
            scale = max(scale, abs(r[c]))
            v = got[c][i]
            if not isinstance(v, (int, float, np.number)) or not near(float(v), r[c], scale):
                raise Violation("%s: day %d %s is %r instead of %r" % (what, i, c, v, r[c]))
    for i in range(len(rows), len(df)):
        if any(got[c][i] is not None and got[c][i] == got[c][i] for c in ledger.COLUMNS):
            raise Violation("%s: day %d was not simulated but has %s" % (
                what, i, [got[c][i] for c in ledger.COLUMNS]))


def check_stats(got, want, what):
    if not isinstance(got, dict) or set(got) != set(ledger.STATS):
        raise Violation("%s: statistics keys %s" % (what, sorted(got)))
    for k in ledger.STATS:
        g, w = float(got[k]), float(want[k])
        if k.startswith("number") or k.startswith("last_open"):
            ok = g == w
        else:
            # money with two decimals
            ok = abs(g - w) <= 0.005 * (1 + 1e-6) + 1e-9 * abs(w) and \
                abs(g - round(g, 2)) <= 1e-9 * max(1.0, abs(g))
        if not ok:
            raise Violation("%s: %s is %r, the ledger says %r" % (what, k, got[k], want[k]))


# ------------------------------------------------------------------ T01 ledger
@st.composite
def prices(draw, lo=1, hi=40):
    n = draw(st.integers(lo, hi))
    kind = draw(st.sampled_from(("few", "walk", "ints", "cents", "flat")))
    if kind == "few":
        pool = draw(st.lists(st.integers(8, 80), min_size=1, max_size=4))
        p = [x * 0.125 for x in draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n))]
    elif kind == "walk":
        d = draw(st.lists(st.integers(-12, 12), min_size=n, max_size=n))
        c, p = 200, []
        for x in d:
            c = max(8, c + x)
            p.append(c * 0.125)
    elif kind == "ints":
        p = draw(st.lists(st.integers(1, 30), min_size=n, max_size=n))
    elif kind == "cents":
        p = [x / 100 for x in draw(st.lists(st.integers(1, 5000), min_size=n, max_size=n))]
    else:
        p = [draw(st.integers(1, 50)) * 0.5] * n
    return p


@st.composite
def limits(draw, p):
    factor = draw(st.sampled_from((1, 1.0, 1.5, 1.5, 2, 1.25, 1.1, 3.0)))
    kind = draw(st.sampled_from(("none", "none", "multiple", "multiple", "sum", "any", "tiny")))
    if kind == "none":
        cap = None
    elif kind == "multiple":
        a, b = draw(st.integers(0, 4)), draw(st.integers(0, 3))
        x = draw(st.sampled_from(p))
        cap = (a + factor * b) * x or x
    elif kind == "sum":
        cap = sum(draw(st.lists(st.sampled_from(p), min_size=1, max_size=4)))
    elif kind == "any":
        cap = draw(st.integers(1, 4000)) * 0.25
    else:
        cap = draw(st.sampled_from((1, 0.5, 1e-6)))
    return cap, factor


@st.composite
def engine_case(draw):
    p = draw(prices())
    n = len(p)
    sig = draw(st.one_of(st.text("bs", min_size=n, max_size=n),
                         st.text("bhs", min_size=n, max_size=n),
                         st.text("bbbs", min_size=n, max_size=n),
                         st.text("sssb", min_size=n, max_size=n)))
    cap, factor = draw(limits(p))
    rounds = n if draw(st.integers(0, 3)) else draw(st.integers(0, n))
    return {"prices": p, "signals": sig, "cap": cap, "factor": factor, "rounds": rounds,
            "rows": draw(st.one_of(st.just(list(range(n))), st.permutations(range(n)))),
            "via": draw(st.sampled_from(("engine", "indicator"))),
            "title": draw(st.booleans())}


class Scripted(TI.WeightedClose):
    """a user's own indicator: signals come from a script, by date"""
    script = {}

    def getTiSignal(self):
        return self.script[self.getTiData().index[-1]]


# the library looks an indicator's properties up by class name
Scripted.__name__ = "WeightedClose"


def engine(case):
    p, sig = case["prices"], case["signals"]
    n = len(p)
    index = pd.date_range("2019-01-01", periods=n, name="date")
    closes = pd.DataFrame({"Close" if case["title"] else "close": p}, index=index).iloc[case["rows"]]
    cap, factor = case["cap"], case["factor"]
    k = case["rounds"]
    what = "simulation (cap %s, factor %s)" % (cap, factor)
    rows, book, events = ledger.run([float(x) for x in p[:k]], [SIG[s][0] for s in sig[:k]],
                                    cap, factor)
    if case["via"] == "engine" or k < n:
        sim = lib("TradingSimulation()", TradingSimulation, index, closes, cap, factor)
        for i in range(k):
            lib("runSimulationRound", sim.runSimulationRound, i, SIG[sig[i]])
        df, stats = lib("closeSimulation", sim.closeSimulation)
    else:
        stub_graphs()
        hlc = pd.DataFrame({c: 1.0 + np.arange(n) for c in ("high", "low", "close")}, index=index)
        ti = lib("indicator", Scripted, hlc)
        ti.script = {d: SIG[s] for d, s in zip(index, sig)}
        df, stats, _ = lib("getTiSimulation", ti.getTiSimulation, closes, cap, factor)
    check_frame(df, rows, index, what)
    check_stats(stats, ledger.stats(rows, book), what)
    labels = sorted(events) + (["stopped early"] if k < n else [])
    return bool(events & {"long closed", "short closed"}) and (
        cap is None or bool(events & {"refused long", "refused short"})), labels


# -------------------------------------------------- T02 faithful daily signals
CAUSAL = [n for n in spec.NAMES if spec.REG[n].causal]
LONG = {"NegativeVolumeIndex": 257, "PositiveVolumeIndex": 257, "ChaikinOscillator": 92,
        "MassIndex": 46, "UltimateOscillator": 52, "DirectionalMovementIndex": 46,
        "IchimokuCloud": 42, "KlingerOscillator": 64, "WilliamsAccumulationDistribution": 34,
        "MovingAverageConvergenceDivergence": 40}


def lived_case(name):
    @st.composite
    def build(draw):
        need = spec.REG[name].need({})
        base = draw(case_for(name, lo_extra=max(1, LONG.get(name, 0) - need), hi_extra=26,
                             min_n=4, cap=10, default_share=5, grids=(0.125, 0.01, 1)))
        n = base["frame"]["n"]
        base["days"] = sorted(draw(st.sets(st.integers(0, n - 1), min_size=min(n, 4),
                                           max_size=8)))
        return base
    return build()


def lived(case):
    """every simulated day reports the signal an instance fed with the history
    up to that day gives, and the day's close"""
    name, fr, p = case["ind"], case["frame"], case["params"]
    s = spec.REG[name]
    stub_graphs()
    ti = make(name, gen.build(fr, s.cols), p)
    closes = gen.build(fr, ("close",))
    df = lib("%s.getTiSimulation" % name, ti.getTiSimulation, closes)[0]
    if len(df) != fr["n"]:
        raise Violation("%s: %d days simulated out of %d" % (name, len(df), fr["n"]))
    sig = df["signal"].tolist()
    seen, compared = set(sig), 0
    for k in case["days"]:
        if k + 1 < s.need(p):
            continue
        try:
            then = cls(name)(gen.build(gen.truncated(fr, k + 1), s.cols), **p)
        except NotEnoughInputData:
            continue
        compared += 1
        want = lib("getTiSignal", then.getTiSignal)[0]
        if sig[k] != want:
            raise Violation("%s %s: simulated day %d of %d reports %r, but with the data up to "
                            "that day the signal is %r" % (name, p, k, fr["n"], sig[k], want))
    if s.causal and sig and sig[-1] != lib("getTiSignal", ti.getTiSignal)[0]:
        raise Violation("%s %s: the last simulated signal is not getTiSignal()" % (name, p))
    return compared > 0 and len(seen) > 1, [name] + sorted("%s" % x for x in seen)


# -------------------------------------- T03 end-to-end accounting per indicator
def money_case(name):
    @st.composite
    def build(draw):
        need = spec.REG[name].need({})
        lo = max(2, min(LONG.get(name, 0), 100) - need)
        base = draw(case_for(name, lo_extra=lo, hi_extra=40, min_n=6, cap=10, default_share=6,
                             grids=(0.125, 0.125, 1)))
        fr = base["frame"]
        base["cap"], base["factor"] = draw(limits([float(x) for x in fr["close"]]))
        # the stock that is traded need not be the series the indicator watches
        if draw(st.integers(0, 2)) == 2:
            base["closes"] = [float(x) for x in draw(gen.frames(
                fr["n"], fr["n"], grids=(0.125, 1), index=("D",)))["close"]]
        return base
    return build()


def money(case):
    name, fr, p = case["ind"], case["frame"], case["params"]
    s = spec.REG[name]
    stub_graphs()
    ti = make(name, gen.build(fr, s.cols), p)
    index = gen.index_of(fr)
    prices_ = case.get("closes") or [float(x) for x in fr["close"]]
    closes = pd.DataFrame({"close": prices_}, index=index)
    cap, factor = case["cap"], case["factor"]
    out = lib("%s.getTiSimulation" % name, ti.getTiSimulation, closes, cap, factor)
    if not isinstance(out, tuple) or len(out) != 3:
        raise Violation("%s.getTiSimulation returned %r" % (name, type(out)))
    df, stats = out[0], out[1]
    k = fr["n"] - s.drop(p)
    sig = df["signal"].tolist()[:k]
    if any(x not in ("buy", "sell", "hold") for x in sig):
        raise Violation("%s: signals %s" % (name, sig))
    what = "%s %s simulation (cap %s, factor %s)" % (name, p, cap, factor)
    # invariants, independent of the ledger model
    prev = 0.0
    for i in range(k):
        r = {c: df[c].iat[i] for c in ledger.COLUMNS}
        if not r["stock_value"] == prices_[i]:
            raise Violation("%s: day %d stock_value %r, close %r" % (
                what, i, r["stock_value"], prices_[i]))
        scale = max(1.0, abs(r["earnings"]), abs(r["portfolio_value"]), abs(r["exposure"]))
        if cap is not None and r["exposure"] > cap + 1e-9 * scale:
            raise Violation("%s: day %d exposure %r above the maximum" % (what, i, r["exposure"]))
        if r["exposure"] < -1e-9 * scale:
            raise Violation("%s: day %d exposure %r" % (what, i, r["exposure"]))
        if r["earnings"] < prev - 1e-9 * scale:
            raise Violation("%s: day %d a position was closed at a loss (earnings %r after %r)" % (
                what, i, r["earnings"], prev))
        if not near(float(r["balance"]), r["earnings"] + r["portfolio_value"], scale):
            raise Violation("%s: day %d balance %r is not earnings %r + portfolio value %r" % (
                what, i, r["balance"], r["earnings"], r["portfolio_value"]))
        ok = {"buy": ("long", "none"), "sell": ("short", "none"), "hold": ("none",)}[r["signal"]]
        if r["open_trading_action"] not in ok:
            raise Violation("%s: day %d opened %r on a %r signal" % (
                what, i, r["open_trading_action"], r["signal"]))
        prev = r["earnings"]
    rows, book, events = ledger.run(prices_[:k], sig, cap, factor)
    check_frame(df, rows, index, what)
    check_stats(stats, ledger.stats(rows, book), what)
    labels = sorted(events) + (["other stock"] if "closes" in case else [])
    return bool(events & {"opened long", "opened short"}), labels


# -------------------------------------------------------- T04 causal simulation
def prefix_case(name):
    @st.composite
    def build(draw):
        base = draw(money_case(name))
        n, need = base["frame"]["n"], spec.REG[name].need(base["params"])
        base["cut"] = draw(st.integers(max(need, n - 12), n))
        return base
    return build()


def prefix(case):
    """simulating only the first days gives the first rows of the long one"""
    name, fr, p = case["ind"], case["frame"], case["params"]
    s = spec.REG[name]
    m = max(case["cut"], s.need(p))
    if m > fr["n"]:
        raise Skip()
    stub_graphs()
    prices_ = case.get("closes") or [float(x) for x in fr["close"]]
    full = pd.DataFrame({"close": prices_}, index=gen.index_of(fr))
    a = make(name, gen.build(fr, s.cols), p)
    b = make(name, gen.build(gen.truncated(fr, m), s.cols), p)
    da = lib("getTiSimulation", a.getTiSimulation, full, case["cap"], case["factor"])[0]
    db, sb, _ = lib("getTiSimulation", b.getTiSimulation, full.iloc[:m], case["cap"],
                    case["factor"])
    frames_equal(da.iloc[:m], db, "%s %s: simulation of the first %d of %d days" % (
        name, p, m, fr["n"]))
    if sb["number_of_trading_days"] != m:
        raise Violation("%s: %r trading days out of %d" % (name, sb["number_of_trading_days"], m))
    return m < fr["n"] and len(set(db["open_trading_action"])) > 1, [name]


# --------------------------------------------------------- T05 bad simulations
@st.composite
def bad_sim_case(draw, name):
    s = spec.REG[name]
    n = s.need({}) + draw(st.integers(2, 12))
    fr = draw(gen.frames(n, n, grids=(0.125,), index=("D", "min")))
    kind = draw(st.sampled_from(("shorter", "longer", "shifted", "missing", "text", "type",
                                 "index", "empty", "cap", "cap", "captype", "factor", "factor",
                                 "factortype", "dates")))
    val = {"cap": [0, 0.0, -1, -0.5, -1000, float("nan")], "captype": ["100", [100], {"a": 1}, "", "None"],
           "factor": [0, 0.5, 0.99, -1, -2.5, 0.0, 0.999999, float("nan")],
           "factortype": ["1.5", None, [1.5], {"a": 1}]}.get(kind, [0, 1, 2, 3])
    return {"ind": name, "frame": fr, "kind": kind, "val": draw(st.sampled_from(val)),
            "good_first": draw(st.booleans())}


def bad_sim(case):
    name, fr, kind, val = case["ind"], case["frame"], case["kind"], case["val"]
    s = spec.REG[name]
    stub_graphs()
    ti = make(name, gen.build(fr, s.cols), {})
    good = gen.build(fr, ("close",))
    before = ti_data(ti, name).copy(deep=True)
    sig = lib("getTiSignal", ti.getTiSignal)
    first = None
    if case["good_first"]:
        first = lib("getTiSimulation", ti.getTiSimulation, good, 500, 1.5)
    closes, kw, want, must = good, {}, NotValidInputDataForSimulation, "close_values"
    if kind == "shorter":
        closes = [good.iloc[:-1], good.iloc[1:], good.iloc[::2], good.drop(good.index[1])][val]
    elif kind == "longer":
        more = good.copy()
        more.index = more.index + (good.index[-1] - good.index[0]) + pd.Timedelta("1D")
        closes = pd.concat([good, more.iloc[:val + 1]])
    elif kind == "shifted":
        closes = good.copy()
        closes.index = closes.index + pd.Timedelta(days=val + 1)
    elif kind == "dates":
        closes = good.copy()
        ix = list(closes.index)
        ix[val % len(ix)] = ix[val % len(ix)] + pd.Timedelta("1s")
        closes.index = pd.DatetimeIndex(ix)
    elif kind == "missing":
        closes = good.rename(columns={"close": ["open", "price", "adj close", "closed"][val]})
    elif kind == "text":
        closes = good.astype(str) if val % 2 else good.assign(close="x")
    elif kind == "type":
        closes = [None, list(good["close"]), good["close"], good["close"].to_numpy()][val]
    elif kind == "index":
        closes = good.reset_index(drop=True)
    elif kind == "empty":
        closes = good.iloc[:0]
    elif kind in ("cap", "captype"):
        kw = {"max_exposure": val}
        must = "max_exposure"
        want = WrongValueForInputParameter if kind == "cap" else WrongTypeForInputParameter
    else:
        kw = {"short_exposure_factor": val}
        must = "short_exposure_factor"
        want = WrongValueForInputParameter if kind == "factor" else WrongTypeForInputParameter
    what = "%s.getTiSimulation with a bad %s (%s %r)" % (name, must, kind, val)
    try:
        ti.getTiSimulation(closes, **kw)
    except want as e:
        if must not in str(e):
            raise Violation("%s: the error does not name it: %s" % (what, e))
    except Exception as e:                                   # noqa: BLE001
        raise Violation("%s raised %s: %s instead of %s" % (
            what, type(e).__name__, str(e)[:200], want.__name__))
    else:
        raise Violation("%s was accepted" % what)
    # a rejected simulation leaves the indicator as it was
    frames_equal(before, ti_data(ti, name), what + " changed the indicator")
    if lib("getTiSignal", ti.getTiSignal) != sig:
        raise Violation("%s changed the signal" % what)
    again = lib("getTiSimulation", ti.getTiSimulation, good, 500, 1.5)
    if first is not None:
        frames_equal(first[0], again[0], what + " changed the next simulation")
    return True, [kind]


# ------------------------------------------------------------ T06 price scaling
@st.composite
def scale_case(draw):
    base = draw(engine_case())
    base["mul"] = draw(st.sampled_from((2, 4, 0.5, 16, 0.25)))
    base["rounds"] = len(base["prices"])
    return base


def simulate(p, sig, cap, factor):
    index = pd.date_range("2019-01-01", periods=len(p), name="date")
    sim = lib("TradingSimulation()", TradingSimulation, index,
              pd.DataFrame({"close": [float(x) for x in p]}, index=index), cap, factor)
    for i, s in enumerate(sig):
        lib("runSimulationRound", sim.runSimulationRound, i, SIG[s])
    return lib("closeSimulation", sim.closeSimulation)


def scaling(case):
    """all prices and the limit in another currency unit: same decisions, money
    scaled; without a limit a day's decision never depends on other positions"""
    p, sig, cap, factor, m = (case[k] for k in ("prices", "signals", "cap", "factor", "mul"))
    a, sa = simulate(p, sig, cap, factor)
    b, sb = simulate([x * m for x in p], sig, None if cap is None else cap * m, factor)
    for c in ledger.COLUMNS[:2]:
        if a[c].tolist() != b[c].tolist():
            raise Violation("simulation: %s changes when prices are multiplied by %s" % (c, m))
    for c in MONEY:
        for i, (x, y) in enumerate(zip(a[c], b[c])):
            if not near(float(y), float(x) * m, abs(x * m)):
                raise Violation("simulation: day %d %s is %r, and %r with prices times %s" % (
                    i, c, x, y, m))
    for k in ledger.STATS:
        if (k.startswith("number") or k.startswith("last_open")) and sa[k] != sb[k]:
            raise Violation("simulation: %s is %r, and %r with prices times %s" % (
                k, sa[k], sb[k], m))
    # removing the limit: every signal after the first day is acted upon
    free, sf = simulate(p, sig, None, factor)
    want = {"b": "long", "s": "short", "h": "none"}
    for i, (x, s) in enumerate(zip(free["open_trading_action"], sig)):
        if x != (want[s] if i else "none"):
            raise Violation("simulation without a limit: day %d with a %r signal did %r" % (
                i, SIG[s][0], x))
    huge, sh = simulate(p, sig, 1e12, factor)
    frames_equal(free, huge, "simulation without a limit and with an enormous one")
    return float(sa["last_earnings"]) != 0, ["cap" if cap else "no cap"]


def per(prefix_, strat, oracle, q, t, cost, chunk, names):
    return [Target("%s/%s" % (prefix_, n), (lambda n=n: strat(n)), oracle, quick=q, thorough=t,
                   chunk=chunk, cost=cost * (8 if n in ("NegativeVolumeIndex",
                                                        "PositiveVolumeIndex") else 1))
            for n in names]


def T01():
    return Check("T01", "price paths (few levels, walks, integers, cents, flat) x buy/hold/sell "
                 "sequences x exposure limits (including sums hitting the limit exactly) x short "
                 "factors, through the simulation engine (also stopped early) and through an "
                 "indicator with scripted signals; each day and the statistics are compared with "
                 "a position-list model. Non-trivial: a position was closed and, with a limit, a "
                 "signal was refused.",
                 [Target("ledger", engine_case, engine, 6000, 150000, 300, 1)],
                 ["a limit decided by the last bits of a float sum is not judged"])


def T02():
    return Check("T02", "per indicator without look-ahead, each sampled simulated day against a "
                 "fresh instance on the history up to that day. Non-trivial: at least one day "
                 "compared and two different signals in the run.",
                 per("lived", lived_case, lived, 45, 1500, 4, 15, CAUSAL),
                 ["DetrendedPriceOscillator and FibonacciRetracement use the whole period by "
                  "design and are not in this check"])


def T03():
    return Check("T03", "per indicator, full simulations (own or another stock's closes, limits, "
                 "factors): accounting invariants and the position-list model driven by the "
                 "reported signals. Non-trivial: at least one position opened.",
                 per("money", money_case, money, 60, 2000, 4, 20, spec.NAMES))


def T04():
    return Check("T04", "per indicator without look-ahead, a simulation of the first m days "
                 "against the first m rows of the whole simulation. Non-trivial: m smaller than "
                 "the whole and a position opened.",
                 per("prefix", prefix_case, prefix, 40, 1500, 4, 20, CAUSAL))


def T05():
    return Check("T05", "per indicator, one bad simulation argument (shorter / longer / shifted "
                 "/ unlabelled / non-numeric close values, wrong types, limits <= 0, factors < 1): "
                 "documented exception naming the argument, indicator unchanged. All cases "
                 "non-trivial.", per("bad-sim", bad_sim_case, bad_sim, 60, 1500, 2, 30, spec.NAMES))


def T06():
    return Check("T06", "simulations with prices and limit multiplied by a power of two, without "
                 "a limit, and with an enormous one. Non-trivial: the run has earnings.",
                 [Target("scaling", scale_case, scaling, 2500, 60000, 200, 1)])


CHECKS = {"T01": T01, "T02": T02, "T03": T03, "T04": T04, "T05": T05, "T06": T06}

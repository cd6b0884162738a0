"""The public API of every indicator: output structure, lookups, histories of
calls, no look-ahead, documented defaults, graphs."""
import datetime as dt
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import gen, ledger, ref, spec
from vlib.alone import alone, ready
from vlib.core import Check, Skip, Target, Violation, lib
from vlib.lab import (SIGNALS, case_for, close_figures, cls, columns, compare_twins, frames_equal,
                      make, moving, same, stub_graphs, ti_data)

SLOW = {"RelativeVolatilityIndex", "RelativeMomentumIndex", "RangeIndicator", "ParabolicSAR"}


def per(prefix, strat, oracle, q, t, cost, chunk, names=None):
    return [Target("%s/%s" % (prefix, n), (lambda n=n: strat(n)), oracle, quick=q, thorough=t,
                   chunk=chunk, cost=cost * (2 if n in SLOW else 1)) for n in names or spec.NAMES]


# ------------------------------------------------------------------ A01 structure
def shape_case(name):
    s = spec.REG[name]
    extra = max(0, s.warm({}) - s.need({}) - 1)

    @st.composite
    def build(draw):
        base = draw(case_for(name, hi_extra=extra + 40, min_n=2, cap=20, default_share=3,
                             wide=12 if name not in SLOW else 0,
                             index=("D", "gaps", "min", "tz", "us", "ns")))
        n = base["frame"]["n"]
        base["rows"] = draw(st.one_of(st.just(list(range(n))), st.just(list(range(n))[::-1]),
                                      st.permutations(range(n))))
        return base
    return build()


def decimals_ok(x, k):
    """is x a float nearest to a number of k decimals?"""
    if x != x or math.isinf(x):
        return True
    y = x * 10 ** k
    return abs(y - round(y)) <= 1e-9 * max(1.0, abs(y)) + 1e-6


def shape(case):
    name, fr, p = case["ind"], case["frame"], case["params"]
    s = spec.REG[name]
    df = gen.build(fr, s.cols).iloc[case["rows"]]
    ti = make(name, df, p)
    out = ti_data(ti, name)
    n = fr["n"] - s.drop(p)
    vals = columns(out, name, p, n)
    index = gen.index_of(fr)
    if not isinstance(out.index, pd.DatetimeIndex) or not out.index.equals(index[:n]):
        raise Violation("%s %s: the output index is not the ordered input dates" % (name, p))
    first = s.first(p)
    # volumes with fractions add up to more decimals than none
    whole = all(float(x).is_integer() for x in fr["volume"])
    for c, v in vals.items():
        for i, x in enumerate(v):
            if i < first[c] and x == x:
                raise Violation("%s %s: %s has the value %r at row %d, before its first complete "
                                "window (row %d)" % (name, p, c, x, i, first[c]))
            k = 0 if s.rounding is None else s.rounding
            if (whole or k) and abs(x) < 1e9 and not decimals_ok(x, k):
                raise Violation("%s %s: %s at row %d is %r, not rounded to %d decimals" % (
                    name, p, c, i, x, k))
    full = all(len(v) > first[c] for c, v in vals.items())
    return full and moving(fr), [name] + (["all columns started"] if full else ["warming up"]) + (
        ["unordered rows"] if case["rows"] != sorted(case["rows"]) else [])


# -------------------------------------------------------------------- A02 lookups
@st.composite
def lookup_case(draw, name):
    base = draw(case_for(name, hi_extra=25, min_n=3, cap=10,
                         index=("D", "gaps", "min", "MS", "h", "tz")))
    n = base["frame"]["n"]
    base["rows"] = draw(st.one_of(st.just(list(range(n))), st.permutations(range(n))))
    base["asks"] = draw(st.lists(st.tuples(
        st.sampled_from(("str", "iso", "timestamp", "datetime", "none", "date", "partial", "absent", "between",
                         "before", "after", "junk")),
        st.integers(0, n - 1)), min_size=2, max_size=10))
    return base


def lookup(case):
    name, fr, p = case["ind"], case["frame"], case["params"]
    s = spec.REG[name]
    ti = make(name, gen.build(fr, s.cols).iloc[case["rows"]], p)
    out = ti_data(ti, name)
    vals = columns(out, name, p)
    m = len(out)
    index = gen.index_of(fr)
    labels = set()
    for kind, i in case["asks"]:
        day = index[i]
        want = [v[i] for v in vals.values()] if i < m else None
        if kind == "none":
            arg, want = None, ([v[-1] for v in vals.values()] if m else None)
        elif kind == "str":
            arg = str(day)
        elif kind == "iso":
            arg = day.isoformat()
        elif kind == "timestamp":
            arg = day
        elif kind == "datetime":
            arg = day.to_pydatetime()
        elif kind == "date":
            if fr["unit"] not in ("D", "MS") or fr.get("tz"):
                continue
            arg = day.strftime("%Y-%m-%d")
        elif kind == "partial":
            # the shortest text of this index's own resolution
            if fr["unit"] == "D":
                continue
            arg = day.strftime({"MS": "%Y-%m", "h": "%Y-%m-%d %H:00",
                                "min": "%Y-%m-%d %H:%M"}[fr["unit"]])
        elif kind == "absent":
            arg, want = str(day + pd.Timedelta(seconds=17)), None
        elif kind == "between":
            arg, want = str(day + pd.Timedelta(microseconds=1)), None
        elif kind == "before":
            arg, want = str(index[0] - pd.Timedelta(days=1 + i)), None
        elif kind == "after":
            arg, want = str(index[-1] + pd.Timedelta(days=1 + i)), None
        else:
            arg, want = ("not a date", "", "2012-13-45", "yesterday!")[i % 4], None
        got = lib("getTiValue(%r)" % (arg,), ti.getTiValue, arg) if kind != "none" else lib(
            "getTiValue()", ti.getTiValue)
        labels.add(kind)
        if want is None:
            if got is not None:
                raise Violation("%s %s: getTiValue(%r) is %r for a date without a value" % (
                    name, p, arg, got))
            continue
        if not isinstance(got, list) or len(got) != len(want) or not all(
                same(float(x), y) for x, y in zip(got, want)):
            raise Violation("%s %s: getTiValue(%r) is %r, the data hold %r" % (
                name, p, arg, got, want))
    return len(labels) > 1 and moving(fr), sorted(labels)


# -------------------------------------------------------------------- A03 history
class Stop(BaseException):
    """like KeyboardInterrupt: not an Exception"""


def everything(ti, name, closes):
    d = ti_data(ti, name)
    sim = lib("getTiSimulation", ti.getTiSimulation, closes, 2000, 1.5)
    return [list(d.columns), repr(d.values.tolist()), repr(lib("getTiValue", ti.getTiValue)),
            lib("getTiSignal", ti.getTiSignal), repr(sim[0].values.tolist()),
            repr(sorted(sim[1].items()))]


def solo(c):
    """what an indicator gives in a process of its own"""
    stub_graphs()
    fr = c["frame"]
    return everything(make(c["ind"], gen.build(fr, spec.REG[c["ind"]].cols), c["params"]),
                      c["ind"], gen.build(fr, ("close",)))


@st.composite
def history_case(draw, name):
    base = draw(case_for(name, lo_extra=3, hi_extra=16, min_n=5, cap=10, default_share=6,
                         grids=(0.125, 1), index=("D", "gaps"), zero_range=(0, 0, 7, 2)))
    n = base["frame"]["n"]
    ops = st.one_of(
        st.sampled_from((["value"], ["signal"], ["data"], ["sim"], ["sim"], ["missing"],
                         ["badsim", "closes"], ["badsim", "cap"], ["badsim", "factor"],
                         ["other"], ["copy"], ["twin"], ["graph"])),
        st.tuples(st.just("stop"), st.integers(0, n - 1), st.booleans()).map(list),
        st.tuples(st.just("date"), st.integers(0, n - 1)).map(list))
    base["ops"] = draw(st.lists(ops, min_size=2, max_size=7))
    base["other"] = draw(st.one_of(spec.REG[name].params(10), st.just({})))
    base["frame2"] = draw(gen.frames(60, 64, grids=(0.125,), index=("D",)))
    return base


def history(case):
    name, fr, p = case["ind"], case["frame"], case["params"]
    s = spec.REG[name]
    ready()
    stub_graphs()
    closes = gen.build(fr, ("close",))
    # what an instance which was asked nothing else answers
    fresh = make(name, gen.build(fr, s.cols), p)
    data0 = ti_data(fresh, name).copy(deep=True)
    value0 = lib("getTiValue", make(name, gen.build(fr, s.cols), p).getTiValue)
    signal0 = lib("getTiSignal", make(name, gen.build(fr, s.cols), p).getTiSignal)
    sim0 = lib("getTiSimulation", make(name, gen.build(fr, s.cols), p).getTiSimulation,
               closes, 2000, 1.5)
    ti = make(name, gen.build(fr, s.cols), p)
    done = []

    def settled():
        what = "%s %s after %s" % (name, p, done)
        frames_equal(data0, ti_data(ti, name), what + ": getTiData", 0)
        if lib("getTiSignal", ti.getTiSignal) != signal0:
            raise Violation("%s: getTiSignal changed from %r" % (what, signal0))
        v = lib("getTiValue", ti.getTiValue)
        if v is None or not all(same(float(a), float(b)) for a, b in zip(v, value0)):
            raise Violation("%s: getTiValue %r became %r" % (what, value0, v))

    for op in case["ops"]:
        done.append(op[0])
        if op[0] == "value":
            lib(op[0], ti.getTiValue)
        elif op[0] == "date":
            d = str(gen.index_of(fr)[op[1]])
            a = lib(op[0], ti.getTiValue, d)
            b = lib(op[0], fresh.getTiValue, d)
            if (a is None) != (b is None) or a is not None and not all(
                    same(float(x), float(y)) for x, y in zip(a, b)):
                raise Violation("%s after %s: getTiValue(%s) is %r instead of %r" % (
                    name, done, d, a, b))
        elif op[0] == "signal":
            lib(op[0], ti.getTiSignal)
        elif op[0] == "data":
            lib(op[0], ti.getTiData)
        elif op[0] == "copy":
            lib(op[0], lambda: ti.getTiData().copy().fillna(0))
        elif op[0] == "graph":
            lib("getTiGraph", ti.getTiGraph)
            close_figures()
        elif op[0] == "missing":
            lib(op[0], ti.getTiValue, "1999-01-01")
        elif op[0] == "sim":
            sim = lib("getTiSimulation", ti.getTiSimulation, closes, 2000, 1.5)
            frames_equal(sim0[0], sim[0], "%s after %s: simulation" % (name, done), 0)
            if {k: float(v) for k, v in sim[1].items()} != {
                    k: float(v) for k, v in sim0[1].items()}:
                raise Violation("%s after %s: simulation statistics %r instead of %r" % (
                    name, done, sim[1], sim0[1]))
        elif op[0] == "badsim":
            a = {"closes": (closes.iloc[:-1], None, 1.5), "cap": (closes, -1, 1.5),
                 "factor": (closes, None, 0.5)}[op[1]]
            try:
                ti.getTiSimulation(*a)
            except Exception:                                # noqa: BLE001
                pass
        elif op[0] == "stop":
            # the user's own code / Ctrl-C ends the simulation on some day
            left = [op[1]]
            real = ti.getTiSignal
            err = Stop if op[2] else ArithmeticError

            def failing():
                if left[0] == 0:
                    raise err()
                left[0] -= 1
                return real()
            ti.getTiSignal = failing
            try:
                ti.getTiSimulation(closes)
            except err:
                pass
            finally:
                del ti.getTiSignal
        elif op[0] == "other":
            o = make(name, gen.build(case["frame2"], s.cols),
                     case["other"] if s.need(case["other"]) <= 60 else {})
            lib("getTiSignal", o.getTiSignal)
        elif op[0] == "twin":
            # another market on the same dates with the same parameters must
            # give what that market gives on any other dates
            back = dict(fr, **{c: list(fr[c])[::-1] for c in gen.COLS})
            a, b = ((make(name, gen.build(x, s.cols).set_axis(ix), p),
                     gen.build(x, ("close",)).set_axis(ix))
                    for x, ix in ((back, gen.index_of(fr)),
                                  (back, gen.index_of(fr) + pd.Timedelta(days=5000))))
            what = "%s %s after %s: same dates, other prices" % (name, p, done)
            compare_twins(a, b, what, name)
            mine = everything(a[0], name, a[1])
            pure = alone(solo, {"ind": name, "params": p, "frame": back})
            if mine != pure:
                raise Violation("%s: gives\n%r\ninstead of\n%r" % (what, mine, pure))
        settled()
    kinds = {o[0] for o in case["ops"]}
    return bool(kinds & {"sim", "stop", "graph", "badsim", "other", "twin"}), sorted(kinds)


# ---------------------------------------------------------------- A04 look-ahead
def future_case(name):
    s = spec.REG[name]
    extra = max(0, min(60, s.warm({}) - s.need({})))

    @st.composite
    def build(draw):
        base = draw(case_for(name, lo_extra=3, hi_extra=extra + 30, min_n=5, cap=12,
                             default_share=4, zero_range=(0, 0, 5),
                             vmodes=("steps", "wide", "huge", "zero", "frac")))
        n, need = base["frame"]["n"], s.need(base["params"])
        base["cut"] = draw(st.integers(need, n - 1)) if need < n else n
        base["tail"] = draw(gen.frames(n, n, grids=(0.125, 1), zero_range=(0, 2),
                                       vmodes=("steps", "zero", "huge"), index=("D",)))
        base["factor"] = draw(st.sampled_from((1, 1, 16, 0.125)))
        return base
    return build()


def future(case):
    name, fr, p = case["ind"], case["frame"], case["params"]
    s = spec.REG[name]
    m = case["cut"]
    k = case["factor"]
    if m >= fr["n"]:
        raise Skip()
    other = dict(fr)
    for c in gen.COLS:
        t = case["tail"][c][m:]
        other[c] = list(fr[c][:m]) + [x * k if c != "volume" else x for x in t]
    a = ti_data(make(name, gen.build(fr, s.cols), p), name)
    b = ti_data(make(name, gen.build(other, s.cols), p), name)
    for cut in sorted({min(s.need(p), m), m}):
        c = ti_data(make(name, gen.build(gen.truncated(fr, cut), s.cols), p), name)
        keep = max(0, cut - s.drop(p))
        what = "%s %s: row values up to day %d" % (name, p, keep)
        frames_equal(a.iloc[:keep], c.iloc[:keep], what + " change when later days arrive")
        frames_equal(a.iloc[:keep], b.iloc[:keep], what + " change when later days are different")
        if len(c) != keep:
            raise Violation("%s: %d rows for %d days" % (name, len(c), cut))
    first = max(s.first(p).values())
    return keep > first and moving(fr), [name] + (["values compared"] if keep > first else [])


# ------------------------------------------------------------------ A05 defaults
@st.composite
def default_case(draw, name):
    s = spec.REG[name]
    w = s.warm({})
    sim = bool(s.defaults) and draw(st.integers(0, 3)) == 3
    if sim:                       # long enough for every default to matter to some day's signal
        big = max([v for v in s.defaults.values() if isinstance(v, int)] + [10])
        fr = draw(gen.long_frames(big + 20, max(w, big) + big // 2 + 40))
    else:
        fr = draw(gen.frames(w + 1, w + 30, nan=True))
    given_ = draw(st.lists(st.sampled_from(sorted(s.defaults)), unique=True, min_size=0,
                           max_size=len(s.defaults))) if s.defaults else []
    return {"ind": name, "frame": fr, "given": given_, "flag": draw(st.booleans()), "sim": sim}


def default(case):
    name, fr = case["ind"], case["frame"]
    s = spec.REG[name]
    a = make(name, gen.build(fr, s.cols), {})
    kw = {k: s.defaults[k] for k in case["given"]}
    if case["flag"]:
        kw["fill_missing_values"] = True
    b = make(name, gen.build(fr, s.cols), kw)
    c = lib("%s with keyword input_data" % name, cls(name), input_data=gen.build(fr, s.cols),
            fill_missing_values=True, **s.defaults)
    columns(ti_data(a, name), name, {})
    what = "%s without parameters and with its documented defaults" % name
    frames_equal(ti_data(a, name), ti_data(b, name), what)
    frames_equal(ti_data(a, name), ti_data(c, name), what)
    sigs = {lib("getTiSignal", x.getTiSignal) for x in (a, b, c)}
    if len(sigs) != 1:
        raise Violation("%s: signals %s" % (what, sigs))
    if case.get("sim"):
        close = gen.build(fr, ("close",))
        x, y = (lib("getTiSimulation", z.getTiSimulation, close)[0] for z in (a, c))
        frames_equal(x, y, what + ": simulation")
    return moving(fr), [name] + (["simulated"] if case.get("sim") else []) + (
        ["holes"] if fr.get("nan") else [])


# -------------------------------------------------------------------- A06 graphs
@st.composite
def graph_case(draw, name):
    base = draw(case_for(name, lo_extra=30 if name == "IchimokuCloud" else 2, hi_extra=15,
                         min_n=4, cap=8, default_share=4, index=("D", "gaps")))
    if draw(st.integers(0, 7)) == 7:
        base["frame"] = draw(gen.long_frames(300, 1500))
    base["sim"] = draw(st.booleans()) if base["frame"]["n"] < 200 else False
    return base


def lines_of(ax):
    return [(str(l.get_label()), np.asarray(l.get_xdata(orig=True)),
             np.asarray(l.get_ydata(orig=True), dtype="float64")) for l in ax.get_lines()]


def has_line(lines, label, x, y):
    for lab, lx, ly in lines:
        if lab == label and len(ly) == len(y) and all(
                same(float(a), float(b), 1e-9 * max(1, abs(b) if b == b else 1))
                for a, b in zip(ly, y)):
            if list(pd.DatetimeIndex(lx)) == list(x):
                return True
    return False


def shaded(axes, index, a, b):
    """the shaded cloud lies exactly between the two leading spans"""
    import matplotlib.dates as md
    got = {(round(float(x), 6), round(float(y), 6)) for ax in axes for c in ax.collections
           for path in c.get_paths() for x, y in path.vertices}
    want = {(round(md.date2num(t), 6), round(v, 6)) for t, p, q in zip(index, a, b)
            if p == p and q == q for v in (p, q)}
    if not want <= got:
        raise Violation("IchimokuCloud: the shaded area misses %s of its spans" % sorted(
            want - got)[:3])
    if not got <= want:
        raise Violation("IchimokuCloud: the shaded area reaches %s, which is on neither span" %
                        sorted(got - want)[:3])


def graph(case):
    import matplotlib.pyplot as plt
    name, fr, p = case["ind"], case["frame"], case["params"]
    s = spec.REG[name]
    plt.close("all")
    try:
        ti = make(name, gen.build(fr, s.cols), p)
        out = ti_data(ti, name)
        vals = columns(out, name, p)
        before = out.copy(deep=True)
        g = lib("%s.getTiGraph" % name, ti.getTiGraph)
        if not callable(getattr(g, "show", None)) or not callable(getattr(g, "savefig", None)):
            raise Violation("%s.getTiGraph returned %r" % (name, g))
        fig = plt.gcf()
        axes = fig.axes
        index = gen.index_of(fr)
        lines = [l for ax in axes for l in lines_of(ax)]
        for c, v in vals.items():
            if not (has_line(lines, c, index[:len(v)], v) or
                    has_line(lines, c, index, v + [float("nan")] * (len(index) - len(v)))):
                raise Violation("%s %s: the graph has no line with the values of %s" % (name, p, c))
        shown = [l for l in lines if l[0] in s.cols]
        if "close" in s.cols and name != "MedianPrice" and "close" not in [l[0] for l in shown]:
            raise Violation("%s: the graph does not show the close prices" % name)
        for lab, x, y in shown:
            if not has_line([(lab, x, y)], lab, index, [float(z) for z in fr[lab]]):
                raise Violation("%s: the graph's %s line is not the input" % (name, lab))
        if sorted(l[0] for l in lines if l[0] in vals) != sorted(vals):
            raise Violation("%s: the graph shows the lines %s" % (name, [l[0] for l in lines]))
        if name == "IchimokuCloud":
            shaded(axes, index, vals["senkou_a"], vals["senkou_b"])
        frames_equal(before, ti_data(ti, name), "%s.getTiGraph changed the data" % name, 0)
        labels = ["subplots" if len(axes) > 1 else "one plot"]
        if case["sim"]:
            plt.close("all")
            df, stats, g = lib("%s.getTiSimulation" % name, ti.getTiSimulation,
                               gen.build(fr, ("close",)), 3000)
            if not callable(getattr(g, "show", None)):
                raise Violation("%s.getTiSimulation returned the graph %r" % (name, g))
            lines = [l for ax in plt.gcf().axes for l in lines_of(ax)]
            for c in ("stock_value", "exposure", "balance"):
                y = [float(v) if v is not None else float("nan") for v in df[c]]
                if not any(len(l[2]) == len(y) and all(same(float(a), b, 1e-9 * max(1, abs(b) if
                           b == b else 1)) for a, b in zip(l[2], y)) for l in lines):
                    raise Violation("%s: the simulation graph has no line with the %s" % (name, c))
            if len(lines) != 3:
                raise Violation("%s: the simulation graph has %d lines" % (name, len(lines)))
            labels.append("simulation graph")
    finally:
        plt.close("all")
    return moving(fr), labels


# ------------------------------------------------------------ A07 non-interference
CALLS = ("data", "value", "signal", "sim", "date")


@st.composite
def crowd_case(draw, mode):
    k = draw(st.integers(2, 4))
    first = draw(st.sampled_from(spec.NAMES))
    crew = []
    fr = None
    for i in range(k):
        # often the same class; often the same dates or even the same data
        name = first if draw(st.integers(0, 2)) == 0 else draw(st.sampled_from(spec.NAMES))
        p = draw(spec.REG[name].params(8))
        need = spec.REG[name].need(p)
        if fr is None or fr["n"] < need or draw(st.integers(0, 2)) == 0:
            fr = draw(gen.frames(max(need, 5), need + 14, grids=(0.125, 1), index=("D", "gaps")))
        elif draw(st.booleans()):
            fr = dict(fr, **{c: list(fr[c])[::-1] for c in gen.COLS})
        crew.append({"ind": name, "params": p, "frame": fr,
                     "calls": draw(st.lists(st.sampled_from(CALLS), min_size=1, max_size=4))})
    case = {"crew": crew, "mode": mode}
    if mode == "turns":
        case["order"] = draw(st.permutations([i for i, c in enumerate(crew)
                                              for _ in range(1 + len(c["calls"]))]))
    elif mode == "inside":
        case["day"] = draw(st.integers(0, 8))
        case["every"] = draw(st.integers(1, 3))
    return case


def member(c, df=None):
    """-> (construct, [calls]) each returning something comparable"""
    name, fr = c["ind"], c["frame"]
    s = spec.REG[name]
    box = {}

    def new():
        box["ti"] = make(name, gen.build(fr, s.cols) if df is None else df, c["params"])
        return "made"

    def call(kind, i):
        ti = box["ti"]
        if kind == "data":
            d = ti_data(ti, name)
            return ("data", list(d.columns), list(d.index), repr(d.values.tolist()))
        if kind == "value":
            return ("value", repr([float(x) for x in lib("getTiValue", ti.getTiValue)]))
        if kind == "signal":
            return ("signal", lib("getTiSignal", ti.getTiSignal))
        if kind == "date":
            return ("date", repr(lib("getTiValue", ti.getTiValue,
                                     str(gen.index_of(fr)[i % fr["n"]]))))
        df, st_, _ = lib("getTiSimulation", ti.getTiSimulation, gen.build(fr, ("close",)), 2000, 2)
        return ("sim", repr(df.values.tolist()), list(df.index), repr(sorted(st_.items())))
    return box, [new] + [(lambda k=k, i=i: call(k, i)) for i, k in enumerate(c["calls"])]


def solo_steps(c):
    stub_graphs()
    return [f() for f in member(c)[1]]


def crowd(case):
    ready()
    stub_graphs()
    crew, mode = case["crew"], case["mode"]
    apart = [alone(solo_steps, c) for c in crew]
    names = [c["ind"] for c in crew]

    def check(i, j, got, how):
        if got != apart[i][j]:
            raise Violation("%s (%s) among %s, %s: %s gives\n%r\ninstead of\n%r" % (
                names[i], crew[i]["params"], names, how,
                (["constructor"] + crew[i]["calls"])[j], got, apart[i][j]))
    labels = [mode, "same class" if len(set(names)) < len(names) else "different classes"]
    if mode == "turns":
        work = [member(c)[1] for c in crew]
        at = [0] * len(crew)
        for i in case["order"]:
            check(i, at[i], work[i][at[i]](), "taking turns")
            at[i] += 1
        return len(crew) > 1, labels
    if mode == "inside":
        # the first one's simulation is interrupted on some days by the others' work
        box, steps = member(dict(crew[0], calls=["sim"]))
        want = alone(solo_steps, dict(crew[0], calls=["sim"]))[1]
        steps[0]()
        ti, count = box["ti"], [0]
        real = ti.getTiSignal

        def busy():
            k = count[0]
            count[0] += 1
            if k >= case["day"] and (k - case["day"]) % case["every"] == 0 and k < 40:
                for i in range(1, len(crew)):
                    for j, f in enumerate(member(crew[i])[1]):
                        check(i, j, f(), "during the simulation of %s" % names[0])
            return real()
        ti.getTiSignal = busy
        got = steps[1]()
        del ti.getTiSignal
        if got != want:
            raise Violation("%s: its simulation during which %s worked gives\n%r\ninstead of\n%r"
                            % (names[0], names[1:], got, want))
        return count[0] > case["day"], labels
    # threads
    import sys
    import threading
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for _ in range(3):
            out = [[] for _ in crew]
            go = threading.Barrier(len(crew))

            def body(i):
                steps = member(crew[i])[1]
                go.wait(30)
                for f in steps:
                    try:
                        out[i].append(f())
                    except Violation as v:
                        out[i].append(("failed", str(v)))
                        return
            ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(crew))]
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
            for i in range(len(crew)):
                for j, got in enumerate(out[i]):
                    check(i, j, got, "in threads of their own")
    finally:
        sys.setswitchinterval(old)
    return True, labels


VARIANTS = ("middle", "last", "first", "order", "close", "open", "range", "volume", "params",
            "longer", "in place")


def kin_case(name):
    s = spec.REG[name]

    @st.composite
    def build(draw):
        base = draw(case_for(name, lo_extra=1, hi_extra=12, min_n=4, cap=10, default_share=6,
                             grids=(0.125, 1), index=("D", "gaps")))
        n = base["frame"]["n"]
        base["how"] = draw(st.sampled_from(VARIANTS))
        base["new"] = draw(gen.frames(n, n, grids=(0.125, 1), index=("D",)))
        base["rows"] = draw(st.lists(st.integers(1, n - 2), min_size=1, max_size=n - 2,
                                     unique=True))
        base["other"] = draw(s.params(10)) if s.defaults else {}
        base["calls"] = draw(st.lists(st.sampled_from(CALLS), min_size=1, max_size=3)) + ["data"]
        return base
    return build()


def sibling(case):
    """data which agree with the first one's in almost everything a careless
    comparison would look at"""
    fr, new, how = case["frame"], case["new"], case["how"]
    n = fr["n"]
    out = {k: list(v) if k in gen.COLS else v for k, v in fr.items()}
    p = case["params"]
    rows = {"middle": case["rows"], "last": [n - 1], "first": [0],
            "in place": case["rows"]}.get(how, [])
    for i in rows:
        for c in gen.COLS:
            out[c][i] = new[c][i]
    if how == "order":
        for c in gen.COLS:
            inner = [fr[c][i] for i in sorted(case["rows"])][::-1]
            for i, x in zip(sorted(case["rows"]), inner):
                out[c][i] = x
    for i in case["rows"]:
        if how == "close":
            out["close"][i] = fr["low"][i] if fr["close"][i] != fr["low"][i] else fr["high"][i]
        elif how == "open":
            out["open"][i] = fr["low"][i] if fr["open"][i] != fr["low"][i] else fr["high"][i]
        elif how == "range":
            out["high"][i] = fr["high"][i] + 1
            out["low"][i] = fr["low"][i] / 2
        elif how == "volume":
            out["volume"][i] = new["volume"][i] + 1
    if how == "params":
        need = spec.REG[case["ind"]].need
        if need(case["other"]) <= n:
            p = case["other"]
    if how == "longer":
        if n - 1 < spec.REG[case["ind"]].need(p):
            raise Skip()
        out = gen.truncated(out, n - 1)
    return {"ind": case["ind"], "params": p, "frame": out, "calls": case["calls"]}


def kin(case):
    ready()
    stub_graphs()
    name = case["ind"]
    s = spec.REG[name]
    one = {"ind": name, "params": case["params"], "frame": case["frame"], "calls": case["calls"]}
    two = sibling(case)
    apart = [alone(solo_steps, c) for c in (one, two)]

    def check(i, j, got, how):
        if got != apart[i][j]:
            raise Violation("%s: %s instance %s (%s): %s gives\n%r\ninstead of\n%r" % (
                name, ("first", "second")[i], how, case["how"],
                (["constructor"] + one["calls"])[j], got, apart[i][j]))
    if case["how"] == "in place":
        # the same frame object, edited by its owner between the two
        df = gen.build(one["frame"], s.cols)
        work = [member(one, df)[1]]
        check(0, 0, work[0][0](), "created")
        fresh = gen.build(two["frame"], s.cols)
        for c in s.cols:
            df[c] = fresh[c].to_numpy()
        work.append(member(two, df)[1])
        check(1, 0, work[1][0](), "created from the edited frame")
    else:
        work = [member(c)[1] for c in (one, two)]
        for i in (0, 1):
            check(i, 0, work[i][0](), "created")
    for i in (1, 0):
        for j in range(1, len(work[i])):
            check(i, j, work[i][j](), "after both were created")
    return two["frame"] != one["frame"] or two["params"] != one["params"], [case["how"]]


def A07():
    return Check("A07", "two to four indicators of random classes (often the same class, the same "
                 "dates or the same prices) whose calls take turns in a random order, run inside "
                 "the simulation of another one, or run in threads; per indicator, two instances "
                 "whose data agree in almost everything (dates and latest day, all but one column, "
                 "the same rows in another order, the same frame object edited in between) or in "
                 "everything but the parameters; every result equals the one obtained in a process "
                 "of its own. Non-trivial: at least two different ones worked.", [
                     Target("crowd/turns", lambda: crowd_case("turns"), crowd, 900, 20000, 75, 3),
                     Target("crowd/inside", lambda: crowd_case("inside"), crowd, 400, 9000, 40, 6),
                     Target("crowd/threads", lambda: crowd_case("threads"), crowd, 240, 5000, 30, 9,
                            scheduled=True)]
                 + per("kin", kin_case, kin, 16, 300, 4, 16),
                 ["threads: the schedules the interpreter happens to take"])


def A01():
    return Check("A01", "per indicator, random data (also unordered rows, row counts around the "
                 "warm-up): documented columns, index = ordered input dates, no value before the "
                 "first complete window, published precision. Non-trivial: every column has "
                 "started and prices move.",
                 per("shape", shape_case, shape, 360, 5000, 1, 180))


def A02():
    return Check("A02", "per indicator, getTiValue for present dates in several forms, absent "
                 "dates, unparsable text and no date against the rows of getTiData. Non-trivial: "
                 "at least two forms asked.",
                 per("lookup", lookup_case, lookup, 240, 4000, 1, 120))


def A03():
    return Check("A03", "per indicator, random histories of lookups, simulations, rejected "
                 "simulations, simulations ended by an exception or interrupt on a random day and "
                 "work of other instances; after every operation values and signal equal those of "
                 "an untouched instance. Non-trivial: the history has a simulation or another "
                 "instance.", per("history", history_case, history, 40, 1200, 4, 20))


def A04():
    return Check("A04", "per indicator, the same first m days followed by nothing, by the "
                 "original days and by different days: the rows up to m must be identical "
                 "(DetrendedPriceOscillator: up to its documented offset). Non-trivial: at least "
                 "one value beyond the warm-up compared.",
                 per("future", future_case, future, 180, 4000, 2, 90,
                     [n for n in spec.NAMES if n != "FibonacciRetracement"]),
                 ["FibonacciRetracement spans the whole period by definition"])


def A05():
    return Check("A05", "per indicator, no arguments against any subset of the documented "
                 "defaults given explicitly (parameters and fill_missing_values, on data with "
                 "holes). Non-trivial: prices move.",
                 per("default", default_case, default, 120, 2000, 1, 80))


def A06():
    return Check("A06", "per indicator, the lines of the produced figures against the input and "
                 "indicator data and, for simulations, price, exposure and balance. Non-trivial: "
                 "prices move.", per("graph", graph_case, graph, 20, 300, 20, 5))


CHECKS = {"A01": A01, "A02": A02, "A03": A03, "A04": A04, "A05": A05, "A06": A06, "A07": A07}

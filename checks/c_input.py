"""What the library makes of its input: presentation, isolation, filling,
rejection of bad data / parameters, minimum rows, totality."""
import re

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import gen, spec
from vlib.core import Check, Skip, Target, Violation, lib
from vlib.lab import (SIGNALS, NotEnoughInputData, WrongTypeForInputParameter,
                      WrongValueForInputParameter, case_for, close_figures, cls, columns,
                      frames_equal, make, moving, same, stub_graphs, ti_data)
from tti.utils import fillMissingValues

NAN = float("nan")

ALL = ("open", "high", "low", "close", "volume")
SLOW = {"RelativeVolatilityIndex", "RelativeMomentumIndex", "RangeIndicator", "ParabolicSAR"}


def targets(prefix, strat, oracle, quick, thorough, cost=1.0, chunk=200, names=None):
    return [Target("%s/%s" % (prefix, n), (lambda n=n: strat(n)), oracle, quick=quick,
                   thorough=thorough, chunk=chunk, cost=cost * (3 if n in SLOW else 1))
            for n in names or spec.NAMES]


# ------------------------------------------------------------ I01 presentation
CASES = ("lower", "upper", "title", "mixed")
# some of these cannot be lower-cased, some are equal once lower-cased
EXTRA = ("adj close", "Symbol", "split", "note", "Note", "Dividends", 0, ("close", "x"), None)
TYPES = ("asis", "float64", "Float64", "float32", "int64", "int32", "int16", "uint8", "uint16",
         "uint32", "uint64", "Int64", "UInt32")


def retype(a, want):
    """the column in another numeric type, where that type holds the same values"""
    if want == "asis":
        return a
    try:
        with np.errstate(all="ignore"):
            b = a.astype(want)
            ok = (b.astype("float64") == a.astype("float64")).all()
    except (TypeError, ValueError, OverflowError):
        return a
    return b if ok else a


def recase(c, how):
    return {"lower": c, "upper": c.upper(), "title": c.title(),
            "mixed": "".join(x.upper() if i % 2 else x for i, x in enumerate(c))}[how]


def presentation_case(name):
    @st.composite
    def build(draw):
        base = draw(case_for(name, hi_extra=40, min_n=3, grids=(0.125, 1, 0.01),
                             index=("D", "gaps", "min", "tz")))
        n = base["frame"]["n"]
        base["rows"] = draw(st.one_of(
            st.just(list(range(n))), st.just(list(range(n))[::-1]),
            st.permutations(range(n))))
        base["cols"] = draw(st.permutations(list(ALL)))
        base["drop_unused"] = draw(st.booleans())
        base["case"] = draw(st.lists(st.sampled_from(CASES), min_size=5, max_size=5))
        base["extra"] = draw(st.lists(st.sampled_from(EXTRA), unique=True, max_size=3))
        base["types"] = draw(st.lists(st.sampled_from(TYPES), min_size=6, max_size=6))
        base["unit"] = draw(st.sampled_from(("ns", "ns", "s", "ms", "us")))
        base["axis"] = draw(st.sampled_from((None, None, "Price")))
        base["whole"] = draw(st.booleans())
        return base
    return build()


def present(case, spec_cols):
    """the same market data as another user would lay them out"""
    fr = case["frame"]
    df = gen.build(fr, ALL)
    if case["drop_unused"]:
        df = df[list(spec_cols)]
    for c, t in zip(ALL, case["types"]):
        if c in df.columns:
            df[c] = retype(df[c], t)
    order = [c for c in case["cols"] if c in df.columns]
    for k, e in enumerate(case["extra"]):
        e = tuple(e) if isinstance(e, list) else e
        if e in ("Symbol", "note"):
            df[e] = ["x%d" % (i % 3) for i in range(len(df))]
        elif e == "Note":
            df[e] = pd.Categorical(["y"] * len(df))
        elif e == "split":
            df[e] = np.nan
        else:
            df[e] = np.arange(len(df)) * 1.5
        order.insert((k * 2) % (len(order) + 1), e)
    df = df[order]
    df.columns = pd.Index([recase(c, case["case"][ALL.index(c)]) if c in ALL else c
                           for c in df.columns], tupleize_cols=False, name=case["axis"],
                          dtype=object)
    df.index = df.index.as_unit(case["unit"])
    return df.iloc[case["rows"]]


def presentation(case):
    name, fr = case["ind"], case["frame"]
    s = spec.REG[name]
    stub_graphs()
    a = make(name, gen.build(fr, s.cols), case["params"])
    df = present(case, s.cols)
    b = make(name, df, case["params"])
    ta, tb = ti_data(a, name), ti_data(b, name)
    what = "%s %s on a re-ordered / re-labelled copy of the same data" % (name, case["params"])
    frames_equal(ta, tb, what)
    sa, sb = lib("getTiSignal", a.getTiSignal), lib("getTiSignal", b.getTiSignal)
    if sa != sb:
        raise Violation("%s: signal %r vs %r" % (what, sa, sb))
    va, vb = lib("getTiValue", a.getTiValue), lib("getTiValue", b.getTiValue)
    if len(va) != len(vb) or not all(same(float(x), float(y), 1e-9 * max(1, abs(x)))
                                     for x, y in zip(va, vb)):
        raise Violation("%s: latest value %r vs %r" % (what, va, vb))
    if fr["n"] <= 30:
        c = gen.build(fr, ("close",))
        sim_a = lib("getTiSimulation", a.getTiSimulation, c)
        if case["whole"]:
            # the whole market data, laid out that way, as close_values
            c2 = present(dict(case, drop_unused=False), ALL)
        else:
            c2 = c.iloc[case["rows"]]
            c2.columns = ["Close"]
            c2.index = c2.index.as_unit(case["unit"])
            c2["Close"] = retype(c2["Close"], case["types"][5])
        sim_b = lib("getTiSimulation", b.getTiSimulation, c2)
        frames_equal(sim_a[0], sim_b[0], what + ": simulation")
        if {k: float(v) for k, v in sim_a[1].items()} != {k: float(v) for k, v in sim_b[1].items()}:
            raise Violation("%s: simulation statistics %r vs %r" % (what, sim_a[1], sim_b[1]))
    labels = []
    if case["rows"] != sorted(case["rows"]):
        labels.append("rows permuted")
    if case["extra"]:
        labels.append("extra columns")
    if any(str(t) not in ("int64", "float64") for t in df[[c for c in df.columns if str(
            c).lower() in s.cols]].dtypes):
        labels.append("other numeric types")
    if set(case["case"]) != {"lower"}:
        labels.append("other letter case")
    if [c for c in case["cols"] if c in s.cols] != list(s.cols):
        labels.append("columns permuted")
    return bool(labels) and moving(fr), labels


# ---------------------------------------------------------------- I02 isolation
def isolation_case(name):
    @st.composite
    def build(draw):
        base = draw(case_for(name, hi_extra=14, min_n=4, grids=(0.125, 1), nan=True, cap=10,
                             default_share=8))
        n = base["frame"]["n"]
        # a hole in every column would leave nothing to compute from: fine, but dull
        base["rows"] = draw(st.one_of(st.just(list(range(n))), st.permutations(range(n))))
        base["upper"] = draw(st.booleans())
        base["extra"] = draw(st.booleans())
        base["view"] = draw(st.booleans())
        base["sim_as"] = draw(st.sampled_from(("plain", "plain", "order", "holes", "both")))
        base["ops"] = draw(st.lists(st.sampled_from(
            ("value", "date", "signal", "data", "sim", "sim", "graph", "other", "fill")),
            min_size=1, max_size=5))
        if "graph" in base["ops"] and draw(st.integers(0, 4)):
            base["ops"] = [o for o in base["ops"] if o != "graph"] or ["signal"]
        base["other"] = draw(gen.frames(60, 70, grids=(0.125,), index=("D",)))
        return base
    return build()


def snapshot(df):
    return (df.copy(deep=True), list(df.columns), [str(t) for t in df.dtypes], df.index.copy(),
            df.index.name, df.index.freq, dict(df.attrs))


def unchanged(df, snap, what):
    old, cols, types, idx, nm, freq, attrs = snap
    if list(df.columns) != cols:
        raise Violation("%s: the caller's columns became %s" % (what, list(df.columns)))
    if [str(t) for t in df.dtypes] != types:
        raise Violation("%s: the caller's column types changed" % what)
    if not df.index.equals(idx) or df.index.name != nm or df.index.freq != freq:
        raise Violation("%s: the caller's index changed" % what)
    if len(df) != len(old) or not df.equals(old):
        raise Violation("%s: the caller's data changed" % what)
    if df.attrs != attrs:
        raise Violation("%s: the caller's frame attributes changed" % what)


def isolation(case):
    name, fr = case["ind"], case["frame"]
    s = spec.REG[name]
    if "graph" not in case["ops"]:
        stub_graphs()
    df = gen.build(fr, ALL).iloc[case["rows"]].copy()
    if case["upper"]:
        df.columns = [c.upper() for c in df.columns]
    if case["extra"]:
        df["Note"] = "x"
    df.attrs["source"] = "user"
    # the simulation has prices of its own, which may be out of order or have holes as well
    closes = gen.build(fr, ("close",)).ffill().bfill()
    sim_as = case.get("sim_as", "plain")
    if sim_as in ("holes", "both"):
        closes.iloc[case["rows"][:1 + fr["n"] // 3], 0] = np.nan
    if sim_as in ("order", "both"):
        closes = closes.iloc[case["rows"]].copy()
    if case["upper"]:
        closes.columns = ["CLOSE"]
    if case["extra"]:
        closes["Note"] = "y"
    closes.attrs["source"] = "user"
    if case["view"]:
        big = pd.concat([df, df])
        df = big.iloc[:len(df)]
    ksnap = snapshot(df)
    csnap = snapshot(closes)
    try:
        ti = cls(name)(df, **case["params"])
    except Exception:
        # a column can be wholly missing; only the caller's data matter then
        unchanged(df, ksnap, "%s rejected construction" % name)
        raise Skip()
    unchanged(df, ksnap, "%s construction" % name)
    before = ti_data(ti, name).copy(deep=True)
    sig0 = lib("getTiSignal", ti.getTiSignal)
    for op in case["ops"]:
        if op == "value":
            lib(op, ti.getTiValue)
        elif op == "date":
            lib(op, ti.getTiValue, str(df.index[0]))
        elif op == "signal":
            lib(op, ti.getTiSignal)
        elif op == "data":
            lib(op, ti.getTiData)
        elif op == "sim":
            lib("getTiSimulation", ti.getTiSimulation, closes, 5000, 1.5)
            unchanged(closes, csnap, "%s.getTiSimulation (close_values)" % name)
        elif op == "graph":
            lib("getTiGraph", ti.getTiGraph)
            close_figures()
        elif op == "fill":
            lib("fillMissingValues", fillMissingValues, df)
        elif op == "other":
            other = make(name, gen.build(case["other"], s.cols), {})
            lib("getTiSignal", other.getTiSignal)
        unchanged(df, ksnap, "%s after %s" % (name, op))
    # the instance keeps working on its own copy when the caller edits the frame
    df = df.copy() if case["view"] else df
    df.iloc[:, :5] = 1
    df.columns = ["c%d" % i for i in range(len(df.columns))]
    frames_equal(before, ti_data(ti, name), "%s after the caller edited the frame" % name)
    sig1 = lib("getTiSignal", ti.getTiSignal)
    if sig0 != sig1:
        raise Violation("%s: signal %r became %r after the caller edited the frame" % (
            name, sig0, sig1))
    return bool(fr.get("nan")) or len(case["ops"]) > 1, sorted(set(case["ops"])) + (
        ["missing values"] if fr.get("nan") else []) + (
        ["sim prices: " + sim_as] if "sim" in case["ops"] else [])


# ------------------------------------------------------------------ I03 filling
def fill_ref(values):
    """last known value, or the first known one before that"""
    out, last = [], None
    for v in values:
        if v is not None and v == v:
            last = v
        out.append(last)
    first = next((v for v in out if v is not None), None)
    return [first if v is None else v for v in out]


@st.composite
def holes(draw, fr):
    n = fr["n"]
    out = []
    for c in ALL:
        kind = draw(st.sampled_from(("none", "one", "head", "tail", "mid", "many", "all-but-one")))
        if kind == "one":
            out.append([draw(st.integers(0, n - 1)), c])
        elif kind == "head":
            out += [[i, c] for i in range(draw(st.integers(1, max(1, n - 1))))]
        elif kind == "tail":
            out += [[i, c] for i in range(draw(st.integers(1, max(1, n - 1))), n)]
        elif kind == "mid":
            a = draw(st.integers(0, n - 1))
            out += [[i, c] for i in range(a, min(n - 1, a + draw(st.integers(1, 5))))]
        elif kind == "many":
            m = draw(st.binary(min_size=n, max_size=n))
            out += [[i, c] for i in range(n) if m[i] % 3 == 2]
        elif kind == "all-but-one":
            keep = draw(st.integers(0, n - 1))
            out += [[i, c] for i in range(n) if i != keep]
    return out


@st.composite
def fill_case(draw):
    fr = draw(gen.frames(1, 30, grids=(0.125, 1), index=("D", "gaps", "min", "us", "ns")))
    fr["nan"] = draw(holes(fr))
    return {"frame": fr, "rows": draw(st.permutations(range(fr["n"]))),
            "cols": draw(st.lists(st.sampled_from(ALL), unique=True, min_size=1, max_size=5)),
            "text": draw(st.booleans()), "empty": draw(st.booleans())}


def fill_oracle(case):
    fr = case["frame"]
    df = gen.build(fr, case["cols"])
    if case["text"]:
        df["name"] = [None if i % 3 == 1 else "n%d" % i for i in range(len(df))]
    if case["empty"]:
        df["gone"] = np.nan
    want = {c: fill_ref(list(df[c])) for c in df.columns}
    shuffled = df.iloc[case["rows"]]
    snap = snapshot(shuffled)
    out = lib("fillMissingValues", fillMissingValues, shuffled)
    unchanged(shuffled, snap, "fillMissingValues")
    if not isinstance(out, pd.DataFrame) or list(out.columns) != list(df.columns):
        raise Violation("fillMissingValues returned columns %s" % (list(getattr(out, "columns", []))))
    if not out.index.equals(df.index):
        raise Violation("fillMissingValues: rows are not the input rows in date order")
    for c in df.columns:
        for i, (a, b) in enumerate(zip(list(out[c]), want[c])):
            if not (a == b or (b is None and (a is None or a != a))):
                raise Violation("fillMissingValues: %s row %d is %r instead of %r" % (c, i, a, b))
    again = lib("fillMissingValues", fillMissingValues, out)
    if not again.equals(out):
        raise Violation("fillMissingValues is not idempotent")
    return bool(fr["nan"]), ["holes"] if fr["nan"] else ["no holes"]


def not_a_frame():
    return st.one_of(st.none(), st.integers(), st.text(max_size=5), st.lists(st.floats(
        allow_nan=False), max_size=3), st.just({"__series__": 1}), st.just({"__dict__": 1}),
        st.just({"__array__": 1}))


def decode_bad(x):
    if isinstance(x, dict):
        if "__series__" in x:
            return pd.Series([1.0, 2.0], index=pd.DatetimeIndex(["2020-01-01", "2020-01-02"]))
        if "__array__" in x:
            return np.ones((3, 5))
        return {"close": [1.0, 2.0]}
    return x


def fill_type(case):
    try:
        fillMissingValues(decode_bad(case["bad"]))
    except TypeError:
        return True, ["rejected"]
    except Exception as e:                                   # noqa: BLE001
        raise Violation("fillMissingValues raised %s, not TypeError" % type(e).__name__)
    raise Violation("fillMissingValues accepted a %s" % type(decode_bad(case["bad"])).__name__)


def filled_case(name):
    @st.composite
    def build(draw):
        base = draw(case_for(name, hi_extra=30, min_n=4, grids=(0.125, 1)))
        fr = base["frame"]
        if draw(st.integers(0, 3)):
            fr["nan"] = draw(holes(fr))
            if name in PER_ROW:
                fr["nan"] += [[i, c] for i in draw(st.lists(
                    st.integers(0, fr["n"] - 2), max_size=2)) for c in ALL]
                # at least one value left in every column
                hit = {c: {i for i, k in fr["nan"] if k == c} for c in ALL}
                fr["nan"] = [x for x in fr["nan"] if len(hit[x[1]]) < fr["n"] or x[0]]
        base["rows"] = draw(st.one_of(st.just(list(range(fr["n"]))),
                                      st.permutations(range(fr["n"]))))
        return base
    return build()


PER_ROW = {"WeightedClose", "MedianPrice", "TypicalPrice", "MarketFacilitationIndex"}


def filled(case):
    """fill on == filled beforehand; fill off on complete data == fill on;
    fill off leaves the rows before the first hole alone"""
    name, fr = case["ind"], case["frame"]
    s = spec.REG[name]
    raw = gen.build(fr, s.cols)
    ready = pd.DataFrame({c: fill_ref([float(x) for x in raw[c]]) for c in s.cols},
                         index=raw.index)
    p = case["params"]
    try:
        a = cls(name)(ready, **p)
    except Exception as e:                                   # noqa: BLE001
        raise Violation("%s %s raised %s: %s on complete data" % (name, p, type(e).__name__, e))
    b = make(name, raw.iloc[case["rows"]], p)
    c = make(name, raw.iloc[case["rows"]], p, fill_missing_values=True)
    d = make(name, ready.iloc[case["rows"]], p, fill_missing_values=False)
    ta = ti_data(a, name)
    frames_equal(ta, ti_data(b, name), "%s %s: missing values filled by default" % (name, p))
    frames_equal(ta, ti_data(c, name), "%s %s: fill_missing_values=True" % (name, p))
    frames_equal(ta, ti_data(d, name), "%s %s: complete data, fill_missing_values=False" % (name, p))
    sa = lib("getTiSignal", a.getTiSignal)
    for x in (b, c, d):
        if lib("getTiSignal", x.getTiSignal) != sa:
            raise Violation("%s %s: the signal depends on who filled the data" % (name, p))
    labels = []
    bad = [i for i in range(fr["n"]) if raw.iloc[i].isna().any()]
    if bad:
        labels.append("holes")
        try:
            e = cls(name)(raw, **dict(p, fill_missing_values=False))
        except Exception:
            # what an indicator makes of incomplete data is its own business
            return moving(fr), labels + ["rejected with holes"]
        kept = getattr(e, "_input_data", None)
        if isinstance(kept, pd.DataFrame) and list(kept.columns) == list(raw.columns):
            if not (kept.isna().to_numpy() == raw.isna().to_numpy()).all():
                raise Violation("%s: missing input values were filled although filling is off"
                                % name)
        if name in PER_ROW:
            te = ti_data(e, name)
            for i in range(fr["n"]):
                used = [c for c in s.cols if not (name == "MedianPrice" and c == "close")]
                hole = raw[used].iloc[i].isna()
                for x, y in zip(te.iloc[i], ta.iloc[i]):
                    if hole.all() and x == x:
                        raise Violation("%s: row %d has a value although its input is missing and "
                                        "filling is off" % (name, i))
                    if not hole.any() and not same(float(x), float(y), 1e-9 * max(1, abs(y))):
                        raise Violation("%s: row %d is %r instead of %r with filling off" % (
                            name, i, x, y))
    return bool(bad) and moving(fr), labels


# -------------------------------------------------------- I04 bad data rejected
def bad_data_case(name):
    @st.composite
    def build(draw):
        s = spec.REG[name]
        fr = draw(gen.frames(s.need({}), s.need({}) + 3, grids=(0.125, 1), index=("D", "min")))
        kind = draw(st.sampled_from(("type", "index", "empty", "missing", "missing", "text",
                                     "text", "flag")))
        case = {"ind": name, "frame": fr, "kind": kind,
                "col": draw(st.sampled_from(s.cols)), "upper": draw(st.booleans()),
                "extra": draw(st.booleans()), "sub": draw(st.integers(0, 8))}
        if kind == "type":
            case["bad"] = draw(not_a_frame())
        if kind == "flag":
            case["bad"] = draw(st.sampled_from([None, "True", 1, 0, 1.0, "", "no", []]))
        return case
    return build()


def bad_data(case):
    name, kind, fr = case["ind"], case["kind"], case["frame"]
    s = spec.REG[name]
    df = gen.build(fr, s.cols)
    if case["extra"]:
        df["Note"] = "text is fine in a column nobody needs"
    col, kw = case["col"], {}
    must = []
    if kind == "type":
        df, want = decode_bad(case["bad"]), WrongTypeForInputParameter
    elif kind == "index":
        want = TypeError
        n = len(df)
        df.index = [pd.RangeIndex(n), pd.Index(["2020-01-%02d" % (i % 28 + 1) for i in range(n)]),
                    pd.period_range("2020-01-01", periods=n), pd.Index([float(i) for i in range(n)]),
                    pd.timedelta_range("1D", periods=n),
                    pd.Index(list(df.index.date), dtype=object)][case["sub"] % 6]
    elif kind == "empty":
        want = ValueError
        df = df.iloc[:0] if case["sub"] % 2 else df[[]]
    elif kind == "missing":
        want = ValueError
        df["Note"] = "x"
        df = df.drop(columns=[col])
        must = [col]
    elif kind == "text":
        want = ValueError
        df[col] = [["x"] * len(df), df[col].astype(str), df[col].astype(object).where(
            df.index != df.index[-1], "?"), pd.Series(df.index, index=df.index),
            df[col].map(lambda x: None).astype(object), df[col].astype("category"),
            df[col].astype(object), pd.Series(pd.timedelta_range("1D", periods=len(df)),
                                              index=None).set_axis(df.index),
            df[col].astype("string")][case["sub"]]
        must = [col]
    else:
        want = WrongTypeForInputParameter
        kw["fill_missing_values"] = case["bad"]
        must = ["fill_missing_values"]
    if case["upper"] and kind in ("missing", "text"):
        df.columns = [c.upper() for c in df.columns]
    try:
        cls(name)(df, **kw)
    except want as e:
        for m in must:
            if m not in str(e):
                raise Violation("%s: the error for a %s problem with `%s` does not name it: %s" % (
                    name, kind, m, e))
        return True, [kind]
    except Exception as e:                                   # noqa: BLE001
        raise Violation("%s: bad input (%s) raised %s: %s instead of %s" % (
            name, kind, type(e).__name__, str(e)[:200], want.__name__))
    raise Violation("%s accepted bad input (%s %s)" % (name, kind, case.get("bad", col)))


# ----------------------------------------------------- I05 parameters validated
INT_BAD = [0, -1, -2, -7, -100]
TYPE_BAD = ["5", "", 5.0, 2.5, None, [5], {"__tuple__": 1}]
ENUMS = {("MovingAverage", "ma_type"): ["Simple", "ema", "", "SIMPLE", "weighted", "variable "],
         ("StochasticOscillator", "d_method"): ["Simple", "ema", "", "variable"],
         ("Performance", "mode"): ["long", "short", "", "BOTH", "Long"]}
TWO = {"ForecastOscillator", "LinearRegressionIndicator", "ProjectionBands",
       "ProjectionOscillator", "TimeSeriesForecast"}          # documented lower bound 2
NUMS = [n for n in spec.NAMES if spec.REG[n].defaults]


def bad_params(name, key):
    """[(value, expected exception)]"""
    V, T = "value", "type"
    if (name, key) in ENUMS:
        return [(v, V) for v in ENUMS[(name, key)]] + [(v, T) for v in (1, None, 1.5, ["simple"])]
    if key == "std_number":
        return [(v, V) for v in (0, -1, 0.0, -0.5, NAN)] + [(v, T) for v in ("2", None, [2])]
    if key == "shift":
        return [(v, V) for v in (0.0, 1.0, -0.1, 1.5, NAN)] + [(v, T) for v in ("0.1", None, [0.1], 1, 0)]
    if key == "target":
        return [(v, T) for v in ("0.05", None, [0.05])]
    if key == "k_slowing_periods":
        return [(v, V) for v in INT_BAD + [2, 4, 5, 13]] + [(v, T) for v in TYPE_BAD]
    out = [(v, V) for v in INT_BAD] + [(v, T) for v in TYPE_BAD]
    if name in TWO:
        out.append((1, V))
    return out


@st.composite
def bad_param_case(draw, name):
    s = spec.REG[name]
    key = draw(st.sampled_from(sorted(s.defaults)))
    val, kind = draw(st.sampled_from(bad_params(name, key)))
    p = dict(draw(st.one_of(s.params(12), st.just({}))))
    if name == "MovingAverage" and key == "ma_type":
        p.pop("ma_type", None)
    if name == "Performance" and key == "mode":
        p.pop("target", None)
    p[key] = val
    special = None
    if name == "Performance" and key == "target" and draw(st.booleans()):
        mode = draw(st.sampled_from(("LONG", "SHORT")))
        p = {"mode": mode, "target": draw(st.sampled_from([0.01, 0.5, 1, 3.0])) *
             (-1 if mode == "LONG" else 1)}
        val, kind = p["target"], "value"
    if name == "PriceOscillator" and draw(st.integers(0, 2)) == 2:
        L = draw(st.integers(1, 20))
        p = {"long_ma": L, "short_ma": L + draw(st.integers(0, 5))}
        key, kind, val, special = "short_ma", "value", p["short_ma"], "order"
    if name == "VolumeOscillator" and draw(st.integers(0, 2)) == 2:
        L = draw(st.integers(1, 20))
        p = {"long_period": L, "short_period": L + draw(st.integers(0, 5))}
        key, kind, val, special = "long_period", "value", p["long_period"], "order"
    if name == "MovingAverage" and draw(st.integers(0, 7)) == 7:
        p, key, val, kind = {"period": 1, "ma_type": "time_series"}, "period", 1, "value"
    n = 60 if name != "TypicalPrice" else 20
    fr = draw(gen.frames(n, n, grids=(0.125,), index=("D",)))
    return {"ind": name, "params": p, "key": key, "kind": kind, "special": special, "frame": fr}


def bad_param(case):
    name, key = case["ind"], case["key"]
    s = spec.REG[name]
    p = {k: tuple([5]) if isinstance(v, dict) else v for k, v in case["params"].items()}
    want = WrongValueForInputParameter if case["kind"] == "value" else WrongTypeForInputParameter
    df = gen.build(case["frame"], s.cols)
    try:
        cls(name)(df, **p)
    except want as e:
        m = str(e)
        # the message names a parameter of the call: the faulty one (either of
        # the two when they contradict each other)
        names = [key] if case["special"] != "order" else [k for k in p]
        if not any(re.search(r"\(%s *\)" % re.escape(k), m) for k in names):
            raise Violation("%s(%s): the error does not name %s: %s" % (name, p, key, m))
        shown = [str(p[k]) if case["kind"] == "value" else type(p[k]).__name__ for k in names]
        if not any(x in m for x in shown):
            raise Violation("%s(%s): the error does not show the offending %s: %s" % (
                name, p, case["kind"], m))
        return True, [case["kind"], name]
    except Exception as e:                                   # noqa: BLE001
        raise Violation("%s(%s) raised %s: %s instead of %s" % (
            name, p, type(e).__name__, str(e)[:200], want.__name__))
    raise Violation("%s(%s) was accepted" % (name, p))


@st.composite
def good_param_case(draw, name):
    """valid parameters, boundaries included, are accepted"""
    s = spec.REG[name]
    p = draw(s.params(25))
    k = s.need(p)
    fr = draw(gen.frames(max(2, k), max(2, k) + 5, grids=(0.125,), index=("D",)))
    return {"ind": name, "params": p, "frame": fr}


def good_param(case):
    name = case["ind"]
    s = spec.REG[name]
    a = make(name, gen.build(case["frame"], s.cols), case["params"])
    columns(ti_data(a, name), name, case["params"])
    # positional order of the parameters is the documented one
    full = s.full(case["params"])
    b = lib("%s with positional parameters" % name, cls(name), gen.build(case["frame"], s.cols),
            *[full[k] for k in s.defaults])
    frames_equal(ti_data(a, name), ti_data(b, name), "%s: positional parameters" % name)
    return True, [name]


# ------------------------------------------------------------- I06 minimum rows
WITH_MIN = [n for n in spec.NAMES if spec.REG[n].need({}) > 1]


@st.composite
def rows_case(draw, name):
    s = spec.REG[name]
    p = draw(st.one_of(s.params(20), s.params(20), st.just({})))
    need = s.need(p)
    d = draw(st.sampled_from((-1, -1, 0, 0, 0, 1, -2, -5, -1000)))
    n = max(1, need + d)
    fr = draw(gen.frames(n, n, grids=(0.125, 1), index=("D", "gaps")))
    return {"ind": name, "params": p, "frame": fr}


def rows_oracle(case):
    name, fr, p = case["ind"], case["frame"], case["params"]
    s = spec.REG[name]
    need = s.need(p)
    df = gen.build(fr, s.cols)
    try:
        ti = cls(name)(df, **p)
    except NotEnoughInputData as e:
        if fr["n"] >= need:
            raise Violation("%s %s needs %d rows but rejected %d: %s" % (name, p, need, fr["n"], e))
        nums = re.findall(r"\((\d+)\)", str(e))
        if nums != [str(need), str(fr["n"])]:
            raise Violation("%s %s: with %d rows of %d required the error says %s" % (
                name, p, fr["n"], need, e))
        return True, ["rejected", name]
    except Exception as e:                                   # noqa: BLE001
        raise Violation("%s %s: %s: %s with %d rows (%d required)" % (
            name, p, type(e).__name__, str(e)[:200], fr["n"], need))
    if fr["n"] < need:
        raise Violation("%s %s: accepted %d rows although %d are required" % (
            name, p, fr["n"], need))
    out = ti_data(ti, name)
    if len(out) != fr["n"] - s.drop(p):
        raise Violation("%s %s: %d rows of output for %d of input" % (name, p, len(out), fr["n"]))
    return fr["n"] == need, ["accepted", name] + (["exactly enough"] if fr["n"] == need else [])


# ----------------------------------------------------------------- I07 totality
@st.composite
def total_case(draw, name):
    s = spec.REG[name]
    p = draw(st.one_of(s.params(20), s.params(20), s.params(6), st.just({})))
    lo = s.need(p)
    fr = draw(gen.frames(lo, lo + draw(st.sampled_from((0, 1, 2, 6, 25))),
                         grids=(0.125, 0.01, 1, 0.0001), index=("D", "gaps", "min", "tz"),
                         vmodes=("steps", "wide", "huge", "zero", "frac"), zero_range=(0, 3, 2),
                         amps=(0, 0, 2, 8, 80, 400), bases=(1, 40, 800, 60000)))
    if draw(st.integers(0, 5)) == 5:
        fr["volume"] = [0] * fr["n"]
    if draw(st.integers(0, 3)) == 3:
        fr["nan"] = draw(holes(fr))
    return {"ind": name, "params": p, "frame": fr,
            "max_exposure": draw(st.sampled_from([None, 0.5, 100, 1000.0, 10 ** 7])),
            "factor": draw(st.sampled_from([1, 1.0, 1.5, 3]))}


def total(case):
    name, fr, p = case["ind"], case["frame"], case["params"]
    s = spec.REG[name]
    stub_graphs()
    df = gen.build(fr, s.cols)
    ti = make(name, df, p)
    out = ti_data(ti, name)
    vals = columns(out, name, p)
    n = fr["n"]
    if len(out) != n - s.drop(p):
        raise Violation("%s: %d rows of output for %d of input" % (name, len(out), n))
    sg = lib("%s.getTiSignal" % name, ti.getTiSignal)
    if sg not in SIGNALS:
        raise Violation("%s: getTiSignal() returned %r" % (name, sg))
    v = lib("%s.getTiValue" % name, ti.getTiValue)
    if len(out) and not (isinstance(v, list) and len(v) == len(vals)):
        raise Violation("%s: getTiValue() returned %r" % (name, v))
    sim = lib("%s.getTiSimulation" % name, ti.getTiSimulation, gen.build(fr, ("close",)),
              case["max_exposure"], case["factor"])
    if len(sim) != 3 or len(sim[0]) != n:
        raise Violation("%s: simulation over %d days has %d rows" % (name, n, len(sim[0])))
    flat = len(set(fr["close"])) == 1
    zero = 0 in fr["volume"]
    labels = [x for x, y in (("flat prices", flat), ("zero volume", zero),
                             ("exactly enough rows", n == s.need(p)), ("holes", "nan" in fr)) if y]
    return bool(labels), labels


def I01():
    return Check("I01", "per indicator, a generated frame against a copy of it with permuted rows, "
                 "permuted columns, other letter case, int/float columns and extra (text / NaN / "
                 "numeric) columns: identical values, signal, latest value and simulation. "
                 "Non-trivial: the copy differs in rows, columns or case and prices move.",
                 targets("present", presentation_case, presentation, 60, 1500, 2, 60),
                 ["labels that differ only by letter case are not given twice"])


def I02():
    return Check("I02", "per indicator, a caller's frame (with holes, views, upper-case and extra "
                 "columns) goes through construction and a random sequence of API calls and other "
                 "instances' work; it must stay bit-identical, and editing it afterwards must not "
                 "reach the instance. Non-trivial: frame has holes or at least two operations ran.",
                 targets("isolate", isolation_case, isolation, 50, 1200, 3, 50))


def I03():
    return Check("I03", "frames with generated hole patterns: fillMissingValues against a "
                 "forward-then-backward reference, and per indicator fill-on = filled beforehand "
                 "= fill-off on complete data. Non-trivial: at least one hole in a used column.",
                 [Target("fill", fill_case, fill_oracle, 3000, 60000, 400),
                  Target("fill-type", lambda: st.fixed_dictionaries({"bad": not_a_frame()}),
                         fill_type, 60, 300, 400)]
                 + targets("filled", filled_case, filled, 60, 1500, 1, 60))


def I04():
    return Check("I04", "per indicator, otherwise valid data with exactly one fault (not a frame, "
                 "wrong index, empty, missing column, non-numeric column, non-bool flag): the "
                 "documented exception, naming the column. Every case is non-trivial.",
                 targets("bad-data", bad_data_case, bad_data, 100, 2000, 0.5, 100))


def I05():
    return Check("I05", "per parameter of every indicator, values outside the documented domain "
                 "are rejected with the documented exception naming parameter and value, and "
                 "values inside it (boundaries included) are accepted. All cases non-trivial.",
                 targets("bad-param", bad_param_case, bad_param, 220, 1500, 0.5, 110, NUMS)
                 + targets("good-param", good_param_case, good_param, 60, 1000, 1, 100, NUMS),
                 ["booleans given for integers and NaN parameters are unspecified",
                  "LinearRegressionSlope(period=1) is unspecified"])


def I06():
    return Check("I06", "row counts around the documented minimum (-5..+1 and 1): rejected with "
                 "both numbers in the message below it, accepted from exactly the minimum on. "
                 "Non-trivial: rejected, or accepted with exactly the minimum.",
                 targets("rows", rows_case, rows_oracle, 80, 2000, 1, 100))


def I07():
    return Check("I07", "hostile but valid data (flat prices, zero ranges, zero volume, tiny "
                 "prices, holes, exactly the minimum rows) through every public call: no "
                 "exception, well-formed results. Non-trivial: at least one of those features.",
                 targets("total", total_case, total, 70, 2000, 3, 70))


CHECKS = {"I01": I01, "I02": I02, "I03": I03, "I04": I04, "I05": I05, "I06": I06, "I07": I07}

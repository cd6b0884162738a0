"""Thin helpers around the library's public API."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from . import gen, spec
from .core import Violation, lib

import tti
import tti.indicators as TI
from tti.utils.exceptions import (NotEnoughInputData, NotValidInputDataForSimulation,   # noqa: F401
                                  WrongTypeForInputParameter, WrongValueForInputParameter)

SIGNALS = {("buy", -1), ("hold", 0), ("sell", 1)}


def stub_graphs():
    """Simulations draw a figure at the end; only C_GRAPH looks at it."""
    from tti.indicators import _technical_indicator as m
    if hasattr(m.TechnicalIndicator, "_getSimulationGraph"):
        m.TechnicalIndicator._getSimulationGraph = staticmethod(lambda *a, **k: None)


def close_figures():
    import matplotlib.pyplot as plt
    plt.close("all")


def cls(name):
    return getattr(TI, name)


def make(name, df, params=None, **kw):
    return lib("%s(%s)" % (name, params or {}), cls(name), df, **dict(params or {}, **kw))


def ti_data(obj, name):
    out = lib("getTiData", obj.getTiData)
    if not isinstance(out, pd.DataFrame):
        raise Violation("%s.getTiData() returned %s" % (name, type(out).__name__))
    return out


def col(df, c):
    """a column as a list of floats"""
    if not isinstance(df[c], pd.Series) or df[c].map(
            lambda x: x is not None and not isinstance(x, (int, float, np.number))).any():
        raise Violation("column %s is not a column of numbers" % c)
    return [float(x) if x is not None else float("nan") for x in df[c].tolist()]


def columns(df, name, params, n=None):
    want = spec.REG[name].outs(params)
    if list(df.columns) != want:
        raise Violation("%s: columns %s instead of %s" % (name, list(df.columns), want))
    if n is not None and len(df) != n:
        raise Violation("%s: %d rows of output for %d rows of input" % (name, len(df), n))
    return {c: col(df, c) for c in want}


def inputs(fr, m=None):
    return {c: [float(x) for x in fr[c][:m]] for c in gen.COLS}


def same(a, b, tol=0.0):
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol


def frames_equal(a, b, what, tol=1e-9):
    """same index, columns, values (up to float noise)"""
    if list(a.columns) != list(b.columns):
        raise Violation("%s: columns %s vs %s" % (what, list(a.columns), list(b.columns)))
    if len(a) != len(b) or list(a.index) != list(b.index):
        raise Violation("%s: different index (%d vs %d rows)" % (what, len(a), len(b)))
    for c in a.columns:
        x, y = a[c].tolist(), b[c].tolist()
        for i, (p, q) in enumerate(zip(x, y)):
            if isinstance(p, str) or isinstance(q, str) or p is None or q is None:
                if p != q and not (p is None and q is None):
                    if not (p != p and q != q):
                        raise Violation("%s: column %s row %d: %r vs %r" % (what, c, i, p, q))
                continue
            p, q = float(p), float(q)
            if not same(p, q, tol * max(1.0, abs(p), abs(q))):
                raise Violation("%s: column %s row %d: %r vs %r" % (what, c, i, p, q))


def case_for(name, lo_extra=0, hi_extra=60, cap=20, default_share=4, min_n=None, wide=0,
             **kw):
    """strategy: {ind, params, frame} with enough rows for the indicator"""
    s = spec.REG[name]

    @st.composite
    def build(draw):
        # one case in `wide`: long histories and large parameters
        if wide and draw(st.integers(1, wide)) == wide:
            p = draw(s.params(draw(st.sampled_from((31, 60, 150, 400)))))
            if draw(st.integers(0, 3)) == 0:
                p = {}
            lo = max(s.need(p) + lo_extra, min_n or 1)
            fr = draw(gen.long_frames(lo, max(lo, 100) + 300,
                                      **{k: v for k, v in kw.items() if k in ("grids", "vmodes", "bases")}))
            return {"ind": name, "params": p, "frame": fr}
        p = draw(s.params(cap))
        if default_share and draw(st.integers(1, default_share)) == default_share:
            p = {}
        lo = max(s.need(p) + lo_extra, min_n or 1)
        fr = draw(gen.frames(lo, lo + hi_extra, **kw))
        return {"ind": name, "params": p, "frame": fr}
    return build()


def compare_twins(a, b, what, name, sim=True):
    """two instances with the same rows on different dates"""
    (x, cx), (y, cy) = a, b
    dx, dy = ti_data(x, name), ti_data(y, name)
    frames_equal(dx.reset_index(drop=True), dy.reset_index(drop=True), what, 0)
    for f in ("getTiSignal", "getTiValue"):
        r, q = lib(f, getattr(x, f)), lib(f, getattr(y, f))
        if repr(r) != repr(q):
            raise Violation("%s: %s is %r instead of %r" % (what, f, r, q))
    if not sim:
        return
    sx, sy = (lib("getTiSimulation", z.getTiSimulation, c, 2000, 1.5) for z, c in (a, b))
    frames_equal(sx[0].reset_index(drop=True), sy[0].reset_index(drop=True),
                 what + ": simulation", 0)
    if repr(sx[1]) != repr(sy[1]):
        raise Violation("%s: simulation statistics %r instead of %r" % (what, sx[1], sy[1]))


def moving(fr):
    return len(set(fr["close"])) > 1


def clean(x):
    """numpy scalars -> python, for comparing dictionaries"""
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items()}
    if isinstance(x, (np.floating, np.integer)):
        return x.item()
    return x

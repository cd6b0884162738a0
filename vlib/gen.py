"""Market-data generators.

A *frame spec* is a small JSON value holding explicit columns (so that a replay
file needs no generator), built from a list of market regimes plus a byte blob
which Hypothesis draws and shrinks (zero bytes = no movement)."""
import datetime as dt
import zlib

import numpy as np
import pandas as pd
from hypothesis import strategies as st

COLS = ("open", "high", "low", "close", "volume")
KINDS = ("walk", "up", "down", "osc", "flat", "walk", "vol", "gap")


def _signed(b):
    """byte -> small signed integer with 0 -> 0 (so that it shrinks to 0)."""
    return (b + 1) // 2 if b % 2 else -(b // 2)


def decode(n, segs, blob, amp, wick, grid, base, vmode, zero_range):
    """Deterministic expansion of drawn values into OHLCV columns (ticks)."""
    kinds = []
    total = sum(w for _, w in segs)
    for k, w in segs:
        kinds += [k] * max(1, (n * w) // total)
    kinds = (kinds + [segs[-1][0]] * n)[:n]
    tick = grid
    lo_bound = 2 * (amp + wick) + 2
    c = max(base, lo_bound)
    o_, h_, l_, c_, v_ = [], [], [], [], []
    vol = 64
    for i in range(n):
        b = blob[6 * i:6 * i + 6]
        k = kinds[i]
        prev = c
        if i:
            d = _signed(b[0]) * amp // 128
            if k == "up":
                d = abs(d) + (1 if b[0] % 8 else 0)
            elif k == "down":
                d = -abs(d) - (1 if b[0] % 8 else 0)
            elif k == "osc":
                d = (abs(d) + 1) * (1 if i % 2 else -1)
            elif k == "flat":
                d = 0 if b[0] < 224 else d
            elif k == "vol":
                d *= 3
            elif k == "gap":
                d = d * 12 if b[0] % 16 == 15 else d
            c = c + d
            if c < lo_bound:
                c = lo_bound + (lo_bound - c) % (8 * amp + 8)
        zr = zero_range and (b[5] % zero_range == zero_range - 1)
        if zr:
            o = h = l = c
        else:
            om = b[1] % 4
            if om == 0:
                o = prev
            elif om == 1:
                o = c
            else:
                o = c + _signed(b[1]) * max(1, amp // 2) // 128
            o = max(1, o)
            h = max(o, c) + (b[2] * (wick + 1)) // 256
            l = max(1, min(o, c) - (b[3] * (wick + 1)) // 256)
        if vmode == "steps":
            vol = 64 + b[4] % 8
        elif vmode == "wide":
            vol = (b[4] + 1) * (b[5] + 1)
        elif vmode == "huge":
            vol = 1_000_000 * (b[4] + 1) + b[5]
        elif vmode == "giant":
            # around 2^31, neighbours a unit apart or billions apart
            vol = 2 ** 31 - 8 + b[4] % 16 + (b[5] % 4 == 3) * 3_000_000_000
        elif vmode == "trend":
            vol = max(1, vol + _signed(b[4]) % 17 - 8)
        elif vmode == "zero":
            vol = 0 if b[4] % 7 == 6 else 10 + b[4]
        elif vmode == "frac":
            vol = (b[4] + 1) * 0.25
        o_.append(o * tick)
        h_.append(h * tick)
        l_.append(l * tick)
        c_.append(c * tick)
        v_.append(vol)
    if grid == 0.01:
        o_, h_, l_, c_ = ([round(x, 2) for x in col] for col in (o_, h_, l_, c_))
    elif grid not in (0.125, 1, 1.0):
        o_, h_, l_, c_ = ([round(x, 6) for x in col] for col in (o_, h_, l_, c_))
    return o_, h_, l_, c_, v_


def stir(blob, x, mask):
    out = bytearray(blob)
    for i in range(len(out)):
        x = (x * 6364136223846793005 + 1442695040888963407) % 2 ** 64
        out[i] ^= (x >> 56) & mask
    return bytes(out)


VMODES = ("steps", "wide", "huge", "trend", "giant", "frac")
BASES = (40, 200, 800, 6000)
# for oracles that follow the definition's own arithmetic: a tick is a
# negligible part of the price
ANY_BASE = BASES + (4_000_000,)


@st.composite
def frames(draw, min_n=2, max_n=90, grids=(0.125, 0.125, 0.01, 1), vmodes=None,
           zero_range=(0, 0, 0, 7), amps=(2, 8, 24, 80), nan=False, index=None,
           bases=BASES, kinds=KINDS):
    n = draw(st.integers(min_n, max_n))
    segs = draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(1, 4)),
                         min_size=1, max_size=5))
    amp = draw(st.sampled_from(amps))
    wick = draw(st.sampled_from((0, 2, 8, 30)))
    grid = draw(st.sampled_from(grids))
    base = draw(st.sampled_from(bases))
    vmode = draw(st.sampled_from(vmodes or VMODES))
    zr = draw(st.sampled_from(zero_range))
    blob = draw(st.binary(min_size=6 * n, max_size=6 * n))
    # Hypothesis likes blocks of zeros: stir most of them
    mask = draw(st.sampled_from((0, 15) + (255,) * 10))
    if mask:
        x = draw(st.integers(0, 2 ** 32))
        blob = stir(blob, zlib.crc32(repr((x, n, segs, amp, wick, base)).encode() + blob), mask)
    o, h, l, c, v = decode(n, segs, blob, amp, wick, grid, base, vmode, zr)
    # nothing happens until the last few days
    if n > 4 and draw(st.integers(0, 9)) == 9:
        k = n - draw(st.integers(0, min(n - 2, 6)))
        w = draw(st.sampled_from((0, 0, 1, 2))) * grid
        a, u = c[0], v[0]
        o[:k], h[:k], l[:k], c[:k] = [a] * k, [a + w] * k, [a - w] * k, [a] * k
        if draw(st.booleans()):
            v[:k] = [u] * k
    spec = {"n": n, "open": o, "high": h, "low": l, "close": c, "volume": v,
            "regimes": [k for k, _ in segs]}
    idx = draw(st.sampled_from(index or ("D", "D", "gaps", "min")))
    if idx == "gaps":
        g = draw(st.binary(min_size=n, max_size=n))
        spec["gaps"] = [1 + x % 5 for x in g]
        spec["unit"] = "D"
    elif idx in ("min", "h", "MS", "us", "ns"):
        spec["unit"] = idx
    elif idx == "tz":
        spec["unit"] = "D"
        spec["tz"] = "Europe/Athens"
    else:
        spec["unit"] = "D"
    if nan:
        k = draw(st.integers(0, min(n - 1, 6)))
        if k:
            spec["nan"] = [[draw(st.integers(0, n - 1)), draw(st.sampled_from(COLS))]
                           for _ in range(k)]
    return spec


@st.composite
def long_frames(draw, min_n=300, max_n=1200, grids=(0.125, 0.01, 1), vmodes=None,
                bases=BASES):
    """long histories: a drawn block of bytes, stretched"""
    n = draw(st.integers(min_n, max_n))
    segs = draw(st.lists(st.tuples(st.sampled_from(KINDS), st.integers(1, 4)),
                         min_size=2, max_size=6))
    seed = draw(st.binary(min_size=64, max_size=64))
    blob, x = bytearray(), int.from_bytes(seed[:8], "big")
    for i in range(6 * n):
        x = (x * 6364136223846793005 + 1442695040888963407) % 2 ** 64
        blob.append(seed[i % 64] ^ (x >> 56) if seed[(i // 64) % 64] else 0)
    amp = draw(st.sampled_from((2, 8, 24, 80)))
    o, h, l, c, v = decode(n, segs, bytes(blob), amp, draw(st.sampled_from((0, 8, 30))),
                           draw(st.sampled_from(grids)), draw(st.sampled_from(bases[1:])),
                           draw(st.sampled_from(vmodes or VMODES)), 0)
    return {"n": n, "open": o, "high": h, "low": l, "close": c, "volume": v, "unit": "D",
            "regimes": [k for k, _ in segs]}


def index_of(spec):
    n = spec["n"]
    start = dt.datetime(2012, 3, 5)
    if spec.get("unit") == "MS":
        return pd.date_range("2012-03-01", periods=n, freq="MS", name="date").rename("date")
    gaps = spec.get("gaps") or [1] * n
    t, out = start, []
    for i in range(n):
        out.append(t)
        t = t + (dt.timedelta(days=gaps[i]) if spec.get("unit", "D") == "D"
                 else dt.timedelta(hours=gaps[i]) if spec["unit"] == "h"
                 else dt.timedelta(minutes=gaps[i]))
    ix = pd.DatetimeIndex(out, name="date")
    if spec.get("unit") in ("us", "ns"):
        ix = pd.DatetimeIndex([pd.Timestamp(start) + pd.Timedelta(37 * i, spec["unit"])
                               for i in range(n)], name="date")
    if spec.get("tz"):
        ix = ix.tz_localize("UTC").tz_convert(spec["tz"])
    return ix


def arrays(spec):
    return {c: np.array(spec[c], dtype="float64") for c in COLS}


def build(spec, columns=COLS):
    """The frame as a user would hand it in (ascending, plain names)."""
    data = {}
    for c in columns:
        a = np.array(spec[c])
        data[c] = a
    df = pd.DataFrame(data, index=index_of(spec), columns=list(columns))
    for row, col in spec.get("nan", ()):
        if col in df.columns:
            df[col] = df[col].astype("float64")
            df.iat[row, df.columns.get_loc(col)] = np.nan
    return df


def truncated(spec, m):
    out = dict(spec)
    out["n"] = m
    for c in COLS:
        out[c] = spec[c][:m]
    if "gaps" in spec:
        out["gaps"] = spec["gaps"][:m]
    if "nan" in spec:
        out["nan"] = [x for x in spec["nan"] if x[0] < m]
    return out

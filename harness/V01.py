from harness.lib import *
from harness import nummodel as nm
from harness.nummodel import fakes
from sx.proxies import *
import numpy as np
import z3
BOUNDS = "arrays of 1 to 3 (thorough: 4) arbitrary elements of every integer type of 8 to 64 bits, to numpy and pandas; the bounds test for every pair of integers up to 2**80 in size, and every pair of half, single, double and extended precision numbers and of python floats, against every integer type and (numpy numbers) half, single and double precision"
OUTSIDE = "empty arrays; python floats against floating types, which numpy compares after rounding them"
ASSUMPTIONS = ["numpy's integer conversions and reductions as documented"]
INTS = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]


def preload():
    import numpy, pandas


def rng(t): return int(np.iinfo(t).min), int(np.iinfo(t).max)


def ints(ctx, typ, n, library):
    vals = [ctx.int(f"v{i}", *rng(typ)) for i in range(n)]
    a = nm.array(ctx, typ, vals)
    if ctx.symbolic: a.v = list(vals)
    src = nm.series(ctx, a, "col") if library == "series" else a
    kw = {} if library is None else {"library": "pandas" if library == "series" else library}
    rec, ex = ctx.attempt(ctx.mod("pivot").downcast, src, **kw)
    ctx.check(ex is None, f"downcasting failed: {type(ex).__name__}: {str(ex)[:100] if not ctx.symbolic else ''}")
    r = rec["recast"]
    if library in ("series", "pandas"):
        import pandas as pd
        ctx.check(isinstance(r, nm.Ser if ctx.symbolic else pd.Series), "not a series")
        ctx.check(r.name == ("col" if library == "series" else None), "name")
    else: ctx.check(isinstance(r, nm.Arr if ctx.symbolic else np.ndarray), "not an array")
    ctx.check(np.dtype(r.dtype).kind in "iu", f"type {r.dtype}")
    got = (r.v.v if isinstance(r, nm.Ser) else r.v) if ctx.symbolic else [int(x) for x in r]
    ctx.check(len(got) == n, "length")
    for x, y in zip(got, vals): ctx.check(deep_eq(x, y), "a value changed")
    lo, hi = rng(r.dtype)
    ctx.check(And_(*[And_(v >= lo, v <= hi) for v in vals]), "a value does not fit its type")
    # minimal: every narrower type of the right kind misses a value
    nonneg = And_(*[v >= 0 for v in vals])
    ctx.check(Iff_(nonneg, np.dtype(r.dtype).kind == "u"), "signedness")
    size = np.dtype(r.dtype).itemsize
    if size > 1:
        lo, hi = rng(f"{np.dtype(r.dtype).kind}{size // 2}")
        ctx.check(Or_(*[Or_(v < lo, v > hi) for v in vals]), "a narrower type would do")
        ctx.cover("wide")
    ctx.check(rec["aerr"] == 0 and rec["rerr"] == 0, "errors")
    # the input stays as it was
    now = (src.v.v if isinstance(src, nm.Ser) else src.v) if ctx.symbolic else [int(x) for x in src]
    ctx.check(np.dtype(src.dtype) == np.dtype(typ) and len(now) == n, "the input changed")
    for x, y in zip(now, vals): ctx.check(deep_eq(x, y), "the input changed")


def bounds_int(ctx, typ):
    lo, hi = ctx.int("lo", -2 ** 80, 2 ** 80), ctx.int("hi", -2 ** 80, 2 ** 80)
    r = ctx.ok("bounds test", ctx.mod("pivot").check_in_dtype_bounds, lo, hi, np.dtype(typ))
    a, b = rng(typ)
    ctx.check(Iff_(r, And_(lo >= a, hi <= b)), "bounds test of integers")


def bounds_float(ctx, src, typ):
    dt = np.dtype(np.float64 if src == "python" else src)
    lo, hi = nm.num(ctx, "lo", dt), nm.num(ctx, "hi", dt)
    if ctx.symbolic:
        ctx.assume(And_(nm.isfin(lo), nm.isfin(hi)))
        L, H = (nm.Num(x, None if src == "python" else dt) for x in (lo, hi))
    else:
        ctx.assume(bool(np.isfinite(lo) and np.isfinite(hi)))
        L, H = (float(lo), float(hi)) if src == "python" else (lo, hi)
    r = ctx.ok("bounds test", ctx.mod("pivot").check_in_dtype_bounds, L, H, np.dtype(typ))
    ctx.check(isinstance(r, bool), "not a truth value")
    # exactly: as numbers
    k = np.dtype(typ).kind
    info = np.iinfo(typ) if k in "iu" else np.finfo(typ)
    if ctx.symbolic:
        X = nm.SORTS["longdouble"]     # holds every value and limit exactly
        a, b = nm.constv(np.longdouble(info.min), X), nm.constv(np.longdouble(info.max), X)
        want = And_(nm.le(a, nm.conv(lo, X)), nm.le(nm.conv(hi, X), b))
    else:
        x, y, a, b = np.longdouble(lo), np.longdouble(hi), np.longdouble(info.min), np.longdouble(info.max)
        want = bool(x >= a and y <= b)
    ctx.check(Iff_(r, want), "bounds test of floats")


def cases(tier):
    t = tier == "thorough"
    out = []
    for ty in INTS:
        for n in range(1, 5 if t else 4):
            for lib in (None, "pandas", "series") if n == 1 else (None,):
                out.append((f"{ty}-{n}-{lib}", ints, dict(typ=ty, n=n, library=lib)))
        out.append((f"bounds-int-{ty}", bounds_int, dict(typ=ty)))
        for src in ("float16", "float32", "float64", "longdouble", "python"):
            out.append((f"bounds-{src}-{ty}", bounds_float, dict(src=src, typ=ty)))
    for ty in ("float16", "float32", "float64"):
        for src in ("float16", "float32", "float64", "longdouble"):
            out.append((f"bounds-{src}-{ty}", bounds_float, dict(src=src, typ=ty)))
    return out

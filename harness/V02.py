from harness.lib import *
from harness import nummodel as nm
from harness.nummodel import fakes
from sx.proxies import *
import numpy as np, warnings
import z3
BOUNDS = "arrays of 1 or 2 (half precision: 1 to 3) arbitrary elements, not-a-numbers, infinities and zeros of both signs included, of half, single and double precision; arbitrary tolerances between 0 and 1; every library and nullable-integer option"
OUTSIDE = "empty arrays; tolerances above 1; extended precision (thorough: single elements); errors are measured as numpy measures them, in the wider of the two types, where a tolerance is rounded to that type"
ASSUMPTIONS = ["numpy's and pandas' conversions, reductions and comparisons as documented", "quotients are arbitrary on paths and defined before a counterexample counts"]


def preload():
    import numpy, pandas


def elements(ctx, r):
    """-> numpy type of the integers or floats, elements (None: missing)"""
    if ctx.symbolic:
        if isinstance(r, nm.Ser): r = r.v
        if isinstance(r, nm.ExtArr): return r.dtype.numpy_dtype, [None if x is nm.NA else x for x in r.v]
        return r.dtype, r.v
    import pandas as pd
    dt = r.dtype
    if isinstance(dt, pd.api.extensions.ExtensionDtype): return dt.numpy_dtype, [None if x is pd.NA else dt.numpy_dtype.type(x) for x in r]
    return dt, list(np.asarray(r))


def cls(ctx, x):
    """nan | inf | zero | finite"""
    if ctx.symbolic:
        if bool(nm.isnan(x)): return "nan"
        if bool(nm.isinf(x)): return "inf"
        return "zero" if bool(nm.iszero(x)) else "finite"
    return "nan" if np.isnan(x) else "inf" if np.isinf(x) else "zero" if x == 0 else "finite"


def floats(ctx, typ, n, library, nill, narrow=None):
    dt = np.dtype(typ)
    xs = [nm.num(ctx, f"x{i}", dt) for i in range(n)]
    atol, rtol = nm.pyfloat(ctx, "atol", 0.0, 1.0), nm.pyfloat(ctx, "rtol", 0.0, 1.0)
    kinds = [cls(ctx, x) for x in xs]
    if narrow == "finite": ctx.assume(all(k in ("finite", "zero") for k in kinds))
    if narrow == "special": ctx.assume(any(k in ("nan", "inf") for k in kinds))
    a = nm.array(ctx, dt, xs)
    src = nm.series(ctx, a, "col") if library == "series" else a
    lib = "pandas" if library == "series" else library
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rec, ex = ctx.attempt(ctx.mod("pivot").downcast, src, atol, rtol, lib, nill)
    if nill and lib == "numpy":
        ctx.check(type(ex) is TypeError, "nullable numpy integers")
        return
    ctx.check(ex is None, f"downcasting failed: {type(ex).__name__}: {str(ex)[:100] if not ctx.symbolic else ''}")
    ctx.check(isinstance(rec, dict) and {"recast", "aerr", "rerr"} <= set(rec), "not a record")
    r = rec["recast"]
    if lib == "pandas":
        import pandas as pd
        ctx.check(isinstance(r, nm.Ser if ctx.symbolic else pd.Series), "not a series")
        ctx.check(r.name == ("col" if library == "series" else None), "name")
    else: ctx.check(isinstance(r, nm.Arr if ctx.symbolic else np.ndarray), "not an array")
    rt, ys = elements(ctx, r)
    ctx.check(len(ys) == n, "length")
    ctx.cover(rt.name)
    ctx.cover(kinds[0])
    offs, rels = [], []
    for x, y, k in zip(xs, ys, kinds):
        if k == "nan":
            ctx.check(y is None or (nm.isnan(y) if ctx.symbolic else bool(np.isnan(y))), "not-a-number has become a number")
            continue
        ctx.check(y is not None, "a number has become a missing value")
        if ctx.symbolic:
            A, B = nm.Arr(dt, [x]), nm.Arr(rt, [y])
            if k in ("zero", "inf"): ctx.check((A == B).v[0], "an infinity or zero changed"); continue
            d = A - B
            off, rel = abs(d)[0], abs(d / A)[0]
        else:
            A, B = np.array([x], dt), np.array([y], rt)
            with np.errstate(all="ignore"):
                if k in ("zero", "inf"): ctx.check(bool((A == B)[0]), "an infinity or zero changed"); continue
                d = A - B
                off, rel = np.abs(d)[0], np.abs(d / A)[0]
        ctx.check(off <= atol, "absolute error above the tolerance")
        ctx.check(rel <= rtol, "relative error above the tolerance")
        offs.append(off); rels.append(rel)
    # the errors are reported
    for what, es in (("aerr", offs), ("rerr", rels)):
        e = rec[what]
        for x in es: ctx.check(x <= e, f"{what} is less than an error")
        ctx.check(Or_(*[x == e for x in es], e == 0), f"{what} is not the largest error")
    ctx.check(np.dtype(src.dtype) == dt and len(src) == n, "the input changed")


def refused(ctx, kind):
    a = {"c": np.array([1j]), "M": np.array(["2020-01-01"], "M8[D]"), "m": np.array([3], "m8[s]"), "O": np.array([1, "a"], dtype=object)}[kind]
    _, ex = ctx.attempt(ctx.mod("pivot").downcast, a)
    if kind != "m": ctx.check(type(ex) is TypeError, f"{kind} arrays are not refused")


def cases(tier):
    t = tier == "thorough"
    out = []
    opts = [("numpy", False), ("pandas", False), ("pandas", True), ("series", True), ("numpy", True)]
    for typ, top in (("float16", 3), ("float32", 2), ("float64", 2 if t else 1)):
        for n in range(1, top + 1):
            for lib, nill in opts:
                if n == 1 or (lib, nill) in opts[:1] + opts[2:3]:
                    for nar in ("finite", "special") if n > 1 or typ == "float64" else (None,):
                        out.append((f"{typ}-{n}-{lib}-{nill}-{nar}", floats, dict(typ=typ, n=n, library=lib, nill=nill, narrow=nar)))
    if t: out.append(("longdouble-1", floats, dict(typ=np.longdouble, n=1, library="numpy", nill=False)))
    return out + [(f"refused-{k}", refused, dict(kind=k)) for k in "cMO"]

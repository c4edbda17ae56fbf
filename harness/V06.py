from harness.lib import *
from harness import nummodel as nm, dfmodel as df
from harness.nummodel import fakes
from harness.V02 import preload, cls
from sx.proxies import *
import numpy as np, itertools, warnings
BOUNDS = "tables of 1 to 3 columns out of object, integer and floating ones and of 1 or 2 rows, arbitrary elements (floats: finite ones and not-a-numbers), arbitrary row labels, equal ones included, distinct and equal column names; tolerances 0 to 1 and defaults; every option"
OUTSIDE = "tables without rows or columns; boolean, complex and extension columns"
ASSUMPTIONS = ["pandas' items, copy and concat as documented (a model of them, replayed with the real ones)", *["numpy's conversions, reductions and comparisons as documented"]]

KINDS = {"o": None, "i": "int64", "u": "uint8", "f": "float32", "g": "float64", "h": "float16"}


def table(ctx, kinds, rows, names):
    """-> (frame, columns as lists of elements, labels)"""
    labels = [ctx.int(f"row{i}", 0, 1000) for i in range(rows)]
    cols, vals = [], []
    for i, k in enumerate(kinds):
        if KINDS[k] is None:
            v = [ctx.value(f"c{i}.{j}") for j in range(rows)]
            cols.append(df.Obj(v) if ctx.symbolic else np.array([*v, None], dtype=object)[:-1])
        elif k in "iu":
            info = np.iinfo(KINDS[k])
            v = [ctx.int(f"c{i}.{j}", int(info.min), int(info.max)) for j in range(rows)]
            cols.append(nm.Arr(KINDS[k], v) if ctx.symbolic else np.array(v, dtype=KINDS[k]))
        else:
            dt = np.dtype(KINDS[k])
            v = [nm.num(ctx, f"c{i}.{j}", dt) for j in range(rows)]
            for x in v: ctx.assume(cls(ctx, x) != "inf")
            cols.append(nm.array(ctx, dt, v))
        vals.append(v)
    if ctx.symbolic: return df.Frame([nm.Ser(c, n, labels) for c, n in zip(cols, names)], labels), vals, labels
    import pandas as pd
    f = pd.concat([pd.Series(c, index=labels, name=n) for c, n in zip(cols, names)], axis=1)
    f.columns = names
    return f, vals, labels


def raw(ctx, s):
    if ctx.symbolic: return s.v.v
    return list(s.array)


def elem(ctx, a, b):
    """is a recast element that of the other recast?"""
    if ctx.symbolic:
        if a is nm.NA or b is nm.NA: return a is b
        if isinstance(a, nm.V) and isinstance(b, nm.V):
            return Or_(And_(nm.isnan(a), nm.isnan(b)), nm.eq(a, b))
        return deep_eq(a, b)
    import pandas as pd
    if a is pd.NA or b is pd.NA: return a is b
    return bool(a == b) or (a != a and b != b)


def table_case(ctx, kinds, rows, names, tol, nill, reassemble, copy_all):
    f, vals, labels = table(ctx, kinds, rows, names)
    pv = ctx.mod("pivot")
    args = {}
    if tol: args = dict(atol=nm.pyfloat(ctx, "atol", 0.0, 1.0), rtol=nm.pyfloat(ctx, "rtol", 0.0, 1.0))
    if nill is not None: args["use_nillable_int"] = nill
    if reassemble is not None: args["reassemble"] = reassemble
    if copy_all is not None: args["copy_all"] = copy_all
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = ctx.ok("downcasting a table", pv.downcast_df, f, **args)
    ser = [c for _, c in f.items()]
    S = nm.Ser if ctx.symbolic else __import__("pandas").Series
    if reassemble is False:
        ctx.check(type(r) is list and all(isinstance(c, S) for c in r), "not a list of columns")
        got, idx = r, None
    else:
        F = df.Frame if ctx.symbolic else __import__("pandas").DataFrame
        ctx.check(isinstance(r, F), "not a table")
        got, idx = [c for _, c in r.items()], list(r.index)
    ctx.check(len(got) == len(kinds), "number of columns")
    ctx.check([c.name for c in got] == list(names), "names of columns")
    if idx is not None:
        ctx.check(len(idx) == rows, "number of rows")
        ctx.eq([int_(x) for x in idx], labels, "row labels")
    want = dict(atol=1e-5, rtol=1e-7) if not tol else {k: args[k] for k in ("atol", "rtol")}
    for c, k, v, s in zip(got, kinds, vals, ser):
        ctx.eq([int_(x) for x in c.index], labels, "a column's row labels")
        ctx.check(len(c) == rows, "length of a column")
        if KINDS[k] is None:
            ctx.check(c.dtype == object, "an object column changed its type")
            for x, y in zip(raw(ctx, c), v): ctx.check(strict_eq(x, y), "an object changed")
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            one = ctx.ok("downcasting a column", pv.downcast, s, want["atol"], want["rtol"], "pandas", bool(nill))["recast"]
        ctx.check(c.dtype == one.dtype, "the type of a column is not that of its own downcast")
        ctx.cover(str(c.dtype))
        for x, y in zip(raw(ctx, c), raw(ctx, one)): ctx.check(elem(ctx, x, y), "an element is not that of its column's downcast")
    # the original stays as it was
    now = [c for _, c in f.items()]
    ctx.check([c.name for c in now] == list(names) and len(now) == len(kinds), "the input's columns")
    ctx.eq([int_(x) for x in f.index], labels, "the input's row labels")
    for c, k, v in zip(now, kinds, vals):
        ctx.check(c.dtype == (object if KINDS[k] is None else np.dtype(KINDS[k])), "the input's types")
        for x, y in zip(raw(ctx, c), v): ctx.check(strict_eq(x, y) if KINDS[k] is None else elem(ctx, x, y), "the input's elements")
    if not ctx.symbolic and reassemble is False and copy_all is not False:
        # columns are copies
        for c, s in zip(got, ser):
            if KINDS[kinds[0]] is None and c.dtype == object and len(c): ctx.check(c is not s, "not a copy")


def int_(x): return x if is_sym(x) else int(x)


def cases(tier):
    t = tier == "thorough"
    out = []

    def add(kinds, rows, names=None, tol=False, nill=None, reassemble=None, copy_all=None):
        names = names or ["abc"[i] for i in range(len(kinds))]
        out.append((f"{kinds}-{rows}-{''.join(map(str, names))}-{tol}-{nill}-{reassemble}-{copy_all}", table_case,
                    dict(kinds=kinds, rows=rows, names=names, tol=tol, nill=nill, reassemble=reassemble, copy_all=copy_all)))
    for k in ("o", "i", "u", "f", "oi", "io", "fo", "ou", "iu", "oo", "uf", "oio", "iou", "ouo"):
        for rows in (1, 2) + ((3,) if t else ()):
            if "f" in k and rows * k.count("f") > (3 if t else 1): continue
            if k in ("iou",) and rows > 1 and not t: continue
            for re_, ca in ((None, None), (False, True), (False, False), (True, False)):
                add(k, rows, reassemble=re_, copy_all=ca)
    for k in ("f", "h", "oh", "hu", "ho"): add(k, 1, tol=True); add(k, 1, tol=True, nill=True); add(k, 1, nill=True, reassemble=False)
    add("h", 2, nill=True); add("h", 2, tol=True)
    for k, n in (("oi", "aa"), ("ii", "aa"), ("oio", "aba"), ("ui", [1, 0]), ("hu", [0, "0"])):
        for re_ in (None, False): add(k, 1, list(n), reassemble=re_)
    if t:
        for k in ("ff", "gg", "fgh", "hh", "if", "hi"): add(k, 1); add(k, 1, nill=True)
    return out

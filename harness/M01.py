from harness.lib import *
from harness import pqmodel as pm
from harness.pqmodel import fakes, builtins_, SymReal
from harness.M02 import real, preload
from sx.proxies import *
BOUNDS = "files of at most 4 (thorough: 5) rows in every partition into at most 4 row groups of either 64 bit integers (all values) or floats on the grid of multiples of 1/8 up to 2**40; all bounds, open ones included; statistics of every row group exact"
OUTSIDE = "null and NaN field values, row groups without statistics, the columns argument"
ASSUMPTIONS = ["pyarrow reads, filters and concatenates tables as documented"]


def read(ctx, n, kind, maxg, quiet, some=False):
    w = pm.world(ctx)
    typ = "int64" if kind == "int64" else "double"
    one = lambda nm: ctx.int(nm, *pm.I64) if kind == "int64" else real(ctx, nm, kind)
    vals = [one(f"v{i}") for i in range(n)]
    groups, cur = [], [0]
    for i in range(1, n):
        if len(groups) < maxg - 1 and ctx.bool(f"cut{i}"):
            groups.append(cur); cur = [i]
        else: cur.append(i)
    groups.append(cur)
    fn = w.path("in.pq")
    w.put(fn, [{"id": g, "f": [vals[i] for i in g], "g": [7 for i in g]} for g in groups], {"id": "int64", "f": typ, "g": "int64"})
    m = ctx.mod("mosaic")
    lo = None if ctx.bool("open below") else one("lo")
    hi = None if ctx.bool("open above") else one("hi")
    recs = [r for r in m.parquet_metadata_records(fn) if r["path_in_schema"] == "f"]
    if some:
        # of some row groups, in another order
        recs = [r for i, r in enumerate(recs) if ctx.bool(f"group{i}")][::-1]
        groups = [groups[r["row_group"]] for r in recs]
        order = [i for g in groups for i in g]
    else: order = list(range(n))
    kw = {} if quiet is None else {"verbose": False}
    t, ex = ctx.attempt(m.read_between, w.pfile(fn), "f", (lo, hi), recs, **kw)
    ctx.check(ex is None, f"reading failed: {type(ex).__name__}: {str(ex)[:150]}")
    inr = [i in order and And_(True if lo is None else v >= lo, True if hi is None else v < hi) for i, v in enumerate(vals)]
    if t is None:
        for g in groups:
            ctx.check(Not_(And_(True if hi is None else Or_(*[vals[i] < hi for i in g]),
                                True if lo is None else Or_(*[vals[i] >= lo for i in g]))), "nothing read although a row group's range overlaps")
        ctx.cover("none")
        return
    rows = w.rows(t)
    ids = list(rows["id"])
    ctx.check(set(rows) == {"id", "f", "g"}, "columns")
    ctx.check([i for i in order if i in ids] == ids, f"rows out of order or repeated: {ids}")
    for i in range(n): ctx.check(inr[i] if i in ids else Not_(inr[i]), f"row {i} " + ("read although not in range" if i in ids else "missing"))
    for i, x, y in zip(ids, rows["f"], rows["g"]):
        ctx.eq(x, vals[i], "a row's value changed"); ctx.eq(y, 7, "another column changed")
    if ids: ctx.cover("rows")


def cases(tier):
    t = tier == "thorough"
    return [(f"{k}-{n}", read, dict(n=n, kind=k, maxg=4 if t else 3, quiet=None if n == 1 else True)) for k in ("int64", "double") for n in range(1, 6 if t else 5)] + \
        [(f"some-{n}", read, dict(n=n, kind="int64", maxg=3, quiet=True, some=True)) for n in (2, 3)]

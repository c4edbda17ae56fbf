from harness.lib import *
from harness import pqmodel as pm
from harness.pqmodel import fakes, builtins_, SymReal
from sx.proxies import *
import z3
BOUNDS = "files of at most 4 (thorough: 5) rows in every partition into at most 3 row groups; arbitrary 64 bit integers, arbitrary floats on the grid of multiples of 1/8 up to 2**40 and of 2**990 up to the largest double; 2 to 5 chunks, or arbitrary monotone window edges; both directions; with and without row group size, dictionary option, a supplied schema and a processor that may fail"
OUTSIDE = "null and NaN sort values, non-numeric sort columns, files without statistics or rows, unsigned integers above 2**63; rounding of window edges is represented by the arbitrary monotone edges"
ASSUMPTIONS = ["pyarrow reads, filters, concatenates, sorts and writes tables as documented"]


def preload():
    import pyarrow.parquet, pyarrow.compute, numpy, pandas


def real(ctx, nm, kind):
    """a float: k * 2**s"""
    k = ctx.int(nm, -2 ** 43, 2 ** 43) if kind == "double" else ctx.int(nm, -(2 ** 33), 2 ** 33)
    if not ctx.symbolic:
        if kind == "double": return k / 8
        return max(min(float(k) * 2.0 ** 990, 1.7976931348623157e308), -1.7976931348623157e308) if abs(k) >= 2 ** 33 else float(k) * 2.0 ** 990
    if kind == "huge": ctx.assume(And_(k < 2 ** 33, k > -2 ** 33))
    return SymReal(k.e, 8, 0) if kind == "double" else SymReal(k.e, 1, 990)


class Failing(Exception):
    pass


def sort(ctx, n, kind, direction, chunks, edges=False, opts=""):
    ar = None
    if edges and ctx.symbolic:
        def ar(i):
            return SymReal(z3.Int(f"edge{i}"), 64)
    w = pm.world(ctx, ar)
    typ = "int64" if kind == "int64" else "double"
    vals = [ctx.int(f"v{i}", *pm.I64) if kind == "int64" else real(ctx, f"v{i}", kind) for i in range(n)]
    # partition into row groups
    groups, cur = [], [0]
    for i in range(1, n):
        if len(groups) < 2 and ctx.bool(f"cut{i}"):
            groups.append(cur); cur = [i]
        else: cur.append(i)
    groups.append(cur)
    src, out = w.path("in.pq"), w.path("out.pq")
    w.put(src, [{"id": g, "s": [vals[i] for i in g]} for g in groups], {"id": "int64", "s": typ})
    m = ctx.mod("mosaic")
    kw = {}
    if "size" in opts: kw["row_group_size"] = 1 + ctx.choice("rgs", 2)
    if "dict" in opts: kw["use_dictionary"] = ctx.bool("dict")
    if "schema" in opts: kw["schema"] = w.pfile(src).read_row_group(0).schema
    if "quiet" not in opts: kw["verbose"] = False
    shift, calls, fail = 0, [], None
    if "proc" in opts:
        shift = 100
        fail = ctx.choice("fail", 3) if "fail" in opts else None

        def proc(table):
            calls.append(len(table))
            if fail is not None and len(calls) > fail: raise Failing
            return w.bump(table, "id", 100)
        kw["inline_processor"] = proc
    if direction is not None: kw["direction"] = direction
    if chunks is not None: kw["n_chunks"] = chunks
    r, ex = ctx.attempt(m.sort_chunked, src, out, "s", **kw)
    ctx.check(w.all_closed(), "the output is left open")
    if fail is not None and len(calls) > fail:
        ctx.cover("failed")
        ctx.check(type(ex) is Failing, "the processor's failure does not surface")
        return
    ctx.check(ex is None, f"sorting failed: {type(ex).__name__}: {str(ex)[:150]}")
    got = w.result(out)
    ctx.check(got is not None, "no output")
    ids = [i - shift for g in got for i in g["id"]]
    ks = [x for g in got for x in g["s"]]
    ctx.check(len(ids) == len(ks) == n and sorted(ids) == list(range(n)), f"rows in the output: {ids}")
    for i, k in zip(ids, ks):
        ctx.eq(k, vals[i], "a row's value changed")
    for a, b in zip(ks, ks[1:]):
        ctx.check(b <= a if direction == "descending" else a <= b, "the output is not sorted")
    if "size" in opts:
        ctx.check(all(len(g["id"]) <= kw["row_group_size"] for g in got), "row group size")
    if "dict" in opts: ctx.check(bool(w.dictionary(out)) == kw["use_dictionary"], "dictionary option")
    if len(got) > 1: ctx.cover("several windows")
    if calls:
        ctx.check(sum(calls) == n and all(calls), "the processor saw other rows")


def cases(tier):
    t = tier == "thorough"
    out = []
    for d in ("ascending", "descending"):
        for n in range(1, (5 if t else 4) + 1):
            for c in ((2, 3, 4, 5, 7) if t else (2, 3, 4) if n < 4 else (3,)):
                if n == 5 and (c != 3 or d == "descending"): continue
                out.append((f"int-{n}-{c}-{d}", sort, dict(n=n, kind="int64", direction=d, chunks=c)))
            for c in ((2, 3, 5, 9) if t else (2, 3, 5) if n < 4 else (3,)):
                if n == 5 and (c != 3 or d == "descending"): continue
                out.append((f"float-{n}-{c}-{d}", sort, dict(n=n, kind="double", direction=d, chunks=c)))
        for n in (2, 3, 4) if t else (2, 3):
            for c in (3, 4, 5) if t else (4,):
                out.append((f"edges-{n}-{c}-{d}", sort, dict(n=n, kind="double", direction=d, chunks=c, edges=True)))
            for c in (2, 3, 5):
                out.append((f"huge-{n}-{c}-{d}", sort, dict(n=n, kind="huge", direction=d, chunks=c)))
        for o in ("size", "dict", "schema", "proc", "proc fail", "quiet"):
            out.append((f"options-{o}-{d}", sort, dict(n=2 if not t else 3, kind="int64", direction=d, chunks=3, opts=o)))
    out.append(("defaults", sort, dict(n=2, kind="int64", direction=None, chunks=None)))
    out.append(("defaults-float", sort, dict(n=2, kind="double", direction=None, chunks=None, edges=True)))
    return out

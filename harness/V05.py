from harness.lib import *
from harness.V03 import preload, isna, missing
from sx.proxies import *
BOUNDS = "tables of at most 3 rows (thorough: 4) and 3 columns with arbitrary integer cells (missing ones where the operation is defined for them), lists of at most 3 elements, every pattern of duplicated row labels and arbitrary symbolic index labels for squeezing; every set operation; repeats 0 to 3"
OUTSIDE = "missing key values of joined tables; aggregation functions other than first, any, all, sum, max and min"
LIM = (-2 ** 40, 2 ** 40)


def obj(ctx, v, native=True, name=None):
    """a column; of a native type in replays if asked for"""
    import pandas as pd
    if ctx.symbolic or not native: return pd.Series(v, dtype=object, name=name)
    if any(isna(x) for x in v): return pd.Series([float("nan") if isna(x) else x for x in v], dtype=float, name=name)
    return pd.Series(v, dtype=int, name=name)


def member(row, rows): return Or_(*[deep_eq(list(row), list(r)) for r in rows])


def join(ctx, n1, n2, ncols, method):
    import pandas as pd
    native = ctx.bool("native")
    t1 = [[ctx.int(f"a{r}.{c}", *LIM) for c in range(3)] for r in range(n1)]
    t2 = [[ctx.int(f"b{r}.{c}", *LIM) for c in range(2 if ncols < 2 else 3)] for r in range(n2)]
    # the key columns are in different places
    order = ["k", "l", "x"]
    df1 = pd.DataFrame({n: obj(ctx, [r[i] for r in t1], native) for i, n in enumerate(order)}, columns=["x", "l", "k"])
    df2 = pd.DataFrame({n: obj(ctx, [r[i] for r in t2], native) for i, n in enumerate(order[:len(t2[0]) if t2 else 3])}, columns=(["k", "l", "x"] if ncols > 1 else ["l", "k"]))
    cols = ["k", "l"][:ncols]
    if ctx.bool("tuple"): cols = tuple(cols)
    kw = {} if method is None else {"set_method": method}
    r, ex = ctx.attempt(ctx.mod("pivot").junction, df1, df2, cols, **kw)
    ctx.check(ex is None, f"joining failed: {type(ex).__name__}")
    ctx.check(isinstance(r, (set, frozenset)), "not a set")
    k1, k2 = [x[:ncols] for x in t1], [x[:ncols] for x in t2]
    got = [list(x) if isinstance(x, tuple) else [x] for x in r]
    ctx.check(all(len(x) == ncols for x in got), "key tuples of another length")
    op = {None: lambda a, b: And_(a, Not_(b)), "difference": lambda a, b: And_(a, Not_(b)), "intersection": And_, "union": Or_,
          "symmetric_difference": lambda a, b: Not_(Iff_(a, b))}[method]
    for x in got: ctx.check(op(member(x, k1), member(x, k2)), "a key that should not be there")
    for x in k1 + k2: ctx.check(Iff_(op(member(x, k1), member(x, k2)), member(x, got)), "a key is missing")
    for i, x in enumerate(got):
        for y in got[:i]: ctx.check(Not_(deep_eq(x, y)), "a key is repeated")
    if got: ctx.cover("keys")


def lists(ctx, n, lens, whole):
    import pandas as pd
    col, ln = [], []
    for i in range(n):
        if ctx.bool(f"miss{i}"): col.append(None); ln.append(None); continue
        k = lens[i]
        v = [ctx.int(f"v{i}.{j}", *LIM) for j in range(k)]
        col.append(tuple(v) if ctx.bool(f"tuple{i}") and n < 3 else v)
        ln.append(v)
    m = missing("nan") if ctx.bool("nan") else None
    ser = pd.Series([m if x is None else x for x in col], dtype=object, name="c")
    labels = {0: list(range(n)), 1: [5] * n, 2: [f"r{i}" for i in range(n)]}[ctx.choice("labels", 3)]
    ser.index = labels
    P = ctx.mod("pivot")
    width = max([len(x) for x in ln if x is not None], default=0)
    want = [f"c_{j}" for j in range(width)]
    if not whole:
        r, ex = ctx.attempt(P.unpack, ser)
        ctx.check(ex is None, f"unpacking failed: {type(ex).__name__}")
        rows = [i for i in range(n) if ln[i] is not None]
        ctx.check(list(r.index) == [labels[i] for i in rows], "row labels")
        ctx.check(list(r.columns) == want, f"columns {list(r.columns)}")
        for p, i in enumerate(rows): line(ctx, r, p, 0, ln[i], width)
        return
    a = [ctx.int(f"a{i}", *LIM) for i in range(n)]
    b = [ctx.int(f"b{i}", *LIM) for i in range(n)]
    df = pd.DataFrame({"a": obj(ctx, a).values, "c": ser.values, "b": obj(ctx, b).values}, index=labels)
    r, ex = ctx.attempt(P.unpack_column, df, "c")
    ctx.check(ex is None, f"unpacking failed: {type(ex).__name__}")
    ctx.check(list(r.index) == labels, "row labels")
    ctx.check(sorted(r.columns) == sorted(["a", "b"] + want) and [x for x in r.columns if x in "ab"] == ["a", "b"], f"columns {list(r.columns)}")
    cols = list(r.columns)
    for i in range(n):
        ctx.eq(r.iloc[i, cols.index("a")], a[i], "another column changed")
        ctx.eq(r.iloc[i, cols.index("b")], b[i], "another column changed")
        for j in range(width):
            x = r.iloc[i, cols.index(f"c_{j}")]
            if ln[i] is None or j >= len(ln[i]): ctx.check(isna(x), "an element where there was none")
            else: ctx.check(not isna(x) and deep_eq(x, ln[i][j]), "an element on another row or column")
    ctx.check(list(df.columns) == ["a", "c", "b"] and list(df.index) == labels, "the caller's table changed")
    if width: ctx.cover("unpacked")


def line(ctx, r, p, off, v, width):
    for j in range(width):
        x = r.iloc[p, off + j]
        if j >= len(v): ctx.check(isna(x), "an element where there was none")
        else: ctx.check(not isna(x) and deep_eq(x, v[j]), "an element on another row or column")
    if width: ctx.cover("unpacked")


def squash(ctx, n, kind, agg):
    import pandas as pd
    if kind == "sym": labels = [ctx.int(f"l{i}", *LIM) for i in range(n)]
    else: labels = ["bac"[ctx.choice(f"l{i}", 3 if n < 4 else 2)] for i in range(n)]
    bools = agg in ("any", "all") or agg == "bool"
    if bools: v = [ctx.bool(f"v{i}") for i in range(n)]
    else: v = [None if agg is None and kind != "sym" and ctx.bool(f"m{i}") else ctx.int(f"v{i}", *LIM) for i in range(n)]
    name = [None, "s"][ctx.choice("name", 2)]
    nat = not ctx.symbolic and None not in v
    ser = pd.Series([float("nan") if x is None else x for x in v], dtype=bool if bools else int if nat else object, name=name)
    ser.index = pd.Index(labels, dtype=object) if ctx.symbolic or kind != "sym" else pd.Index(labels)
    if kind != "sym" and ctx.bool("named index"): ser.index.name = "ix"
    iname = ser.index.name
    if agg not in (None, "bool") and name is None and False: return
    r, ex = ctx.attempt(ctx.mod("pivot").squeeze, ser, *([] if agg in (None, "bool") else [agg]))
    ctx.check(ex is None, f"squeezing failed: {type(ex).__name__}")
    got, gl = r.tolist(), list(r.index)
    ctx.check(r.name == name and r.index.name == iname, "names changed")
    for i, x in enumerate(gl):
        for y in gl[:i]: ctx.check(Not_(deep_eq(x, y)), "a label is repeated")
    for l in labels: ctx.check(Or_(*[deep_eq(l, x) for x in gl]), "a label is lost")
    if agg is None:
        # in the order in which the labels first occur
        firsts = [l for i, l in enumerate(labels) if not any(bool(deep_eq(l, x)) for x in labels[:i])]
        ctx.check(deep_eq(gl, firsts), "order of the labels")
    for x, y in zip(gl, got):
        grp = [v[i] for i in range(n) if bool(deep_eq(labels[i], x))]
        ctx.check(len(grp) > 0, "a label nobody has")
        if agg in (None, "first"): want = grp[0]
        elif agg in ("bool", "any"): want = any(grp)
        elif agg == "all": want = all(grp)
        elif agg == "sum": want = sum(grp[1:], grp[0])
        elif agg in ("max", "min"):
            want = grp[0]
            for g in grp[1:]:
                if bool(g > want) == (agg == "max"): want = g
        if want is None: ctx.check(isna(y), "a missing value of a label has become something"); continue
        ctx.check(not isna(y) and deep_eq(y if not bools else bool(y), want), "value of a label")
        if len(grp) > 1: ctx.cover("duplicates")


def unique(ctx, n, ncols, miss):
    import pandas as pd
    native = ctx.bool("native")
    cells = [[None if miss and c < 2 and ctx.bool(f"m{r}.{c}") else ctx.int(f"v{r}.{c}", *LIM) for c in range(3)] for r in range(n)]
    df = pd.DataFrame({nm: obj(ctx, [float("nan") if r[i] is None else r[i] for r in cells], native) for i, nm in enumerate("xyz")})
    cols = ["y", "x", "z"][:ncols]
    pos = [1, 0, 2][:ncols]
    r, ex = ctx.attempt(ctx.mod("pivot").unique_to_records, df, cols)
    ctx.check(ex is None, f"unexpected {type(ex).__name__}")
    if n: ctx.check(list(r.columns) == cols, f"columns {list(r.columns)}")
    norm = lambda x: None if isna(x) else x
    got = [[norm(r.iloc[i, j]) for j in range(ncols)] for i in range(len(r))] if n else []
    want = [[row[p] for p in pos] for row in cells]
    for x in got: ctx.check(member(x, want), "a record nobody has")
    for x in want: ctx.check(member(x, got), "a record is missing")
    for i, x in enumerate(got):
        for y in got[:i]: ctx.check(Not_(deep_eq(x, y)), "a record is repeated")
    if 0 < len(got) < n: ctx.cover("duplicates")


def dupe(ctx, n, reps):
    import pandas as pd
    cells = [[ctx.int(f"v{r}.{c}", *LIM) for c in range(2)] for r in range(n)]
    df = pd.DataFrame({"a": obj(ctx, [r[0] for r in cells]), "b": pd.Series([float("nan") if ctx.bool(f"m{i}") else 0.5 for i in range(n)], dtype=float), "c": obj(ctx, [r[1] for r in cells])})
    types = list(df.dtypes)
    old = df["b"].tolist()
    df.index = [3] * n if ctx.bool("duplicate labels") else list(range(n))
    r, ex = ctx.attempt(ctx.mod("pivot").dupe_df_block, df, reps)
    ctx.check(ex is None, f"unexpected {type(ex).__name__}")
    ctx.check(list(r.columns) == ["a", "b", "c"] and len(r) == n * reps, f"shape {r.shape}")
    for i in range(n * reps):
        s = i // reps
        ctx.eq(r.iloc[i, 0], cells[s][0], "a value on another row"); ctx.eq(r.iloc[i, 2], cells[s][1], "a value on another row")
        x = r.iloc[i, 1]
        ctx.check(isna(x) == isna(old[s]) and (isna(x) or x == 0.5), "a value on another row")
    if n and reps: ctx.check(list(r.dtypes) == types, "column types changed")


def melt(ctx, n, nby, nval, values):
    import pandas as pd
    by = ["p", "q"][:nby]
    keys = [[f"{b}{ctx.choice(f'{b}{i}', 2)}" for b in by] for i in range(n)]
    v = [[ctx.int(f"v{i}.{c}", *LIM) for c in range(nval)] for i in range(n)]
    df = pd.DataFrame({**{b: [k[j] for k in keys] for j, b in enumerate(by)}, **{f"x{c}": obj(ctx, [r[c] for r in v]) for c in range(nval)}})
    if n == 0: df = df.astype({b: object for b in by})
    kw = {} if values is None else {"values": values}
    arg = by[0] if nby == 1 and ctx.bool("scalar by") else by
    r, ex = ctx.attempt(ctx.mod("pivot").smash, df, arg, **kw)
    ctx.check(ex is None, f"smashing failed: {type(ex).__name__}")
    want = [("_".join(keys[i] + [f"x{c}"]), v[i][c]) for c in range(nval) for i in range(n) if values is None or all(k in values for k in keys[i])]
    ctx.check(list(r.index) == [w[0] for w in want], f"labels {list(r.index)}")
    for x, w in zip(r.tolist(), want): ctx.eq(x, w[1], "value under another label")
    if want: ctx.cover("smashed")


def cases(tier):
    t = tier == "thorough"
    out = []
    for m in (None, "difference", "intersection", "union", "symmetric_difference"):
        for a in range(0, 4):
            for b in range(0, 4):
                for k in (1, 2):
                    if a + b < 1 or a + b > (5 if t else 4) or k == 2 and a + b > (4 if t else 3): continue
                    if m is None and (a, b) != (1, 1): continue
                    out.append((f"junction-{m}-{a}-{b}-{k}", join, dict(n1=a, n2=b, ncols=k, method=m)))
    for whole in (False, True):
        for lens in [(0,), (1,), (2,), (1, 1), (2, 2), (2, 1), (1, 3), (1, 2, 2), (3, 1, 2)] + ([(2, 2, 2, 2), (3, 0, 1, 2)] if t else []):
            out.append((f"unpack-{whole}-{'.'.join(map(str, lens))}", lists, dict(n=len(lens), lens=lens, whole=whole)))
    for n in range(1, 5 if t else 4):
        for agg in (None, "bool", "any", "all", "first", "sum", "max", "min"):
            for kind in ("sym", "names"):
                if kind == "sym" and agg is not None: continue
                out.append((f"squeeze-{kind}-{agg}-{n}", squash, dict(n=n, kind=kind, agg=agg)))
    for n in range(0, 5 if t else 4):
        for k in (1, 2, 3):
            for miss in (False, True):
                if n and (k < 3 or not miss) and n * k <= (8 if t else 6): out.append((f"unique-{n}-{k}-{miss}", unique, dict(n=n, ncols=k, miss=miss)))
        for reps in range(0, 4): out.append((f"dupe-{n}-{reps}", dupe, dict(n=n, reps=reps)))
        for nby in (1, 2):
            for nval in (1, 2):
                for values in (None, ["p0", "q0", "q1"], []):
                    if n < 4: out.append((f"smash-{n}-{nby}-{nval}-{values}", melt, dict(n=n, nby=nby, nval=nval, values=values)))
    return out

from harness.lib import *
from sx.proxies import *
BOUNDS = "tables of at most 3x3 (thorough: 4x3, 3x4) cells, each an arbitrary integer, an arbitrary list of them, or one of three missing values; every combination of options; row labels that may be duplicated"
OUTSIDE = "duplicate labels where they would be dictionary keys; pandas' own handling of homogeneous native columns is covered by replaying sampled paths on them"


def preload():
    import numpy, pandas


MISSING = ("nan", "none", "na")


def missing(kind):
    import numpy as np, pandas as pd
    return {"nan": np.nan, "none": None, "na": pd.NA}[kind]


def isna(x):
    import pandas as pd
    return not is_sym(x) and not isinstance(x, list) and pd.isna(x)


def table(ctx, nr, nc, kinds, lists=False, native=None):
    """-> frame, cells[r][c] (None for missing)"""
    import pandas as pd
    cells = [[None] * nc for _ in range(nr)]
    for r in range(nr):
        for c in range(nc):
            if kinds and ctx.bool(f"miss{r}.{c}"): continue
            cells[r][c] = [ctx.int(f"v{r}.{c}", -2 ** 40, 2 ** 40), 5] if lists and c == 0 else ctx.int(f"v{r}.{c}", -2 ** 40, 2 ** 40)
    cols = {}
    for c in range(nc):
        m = missing(kinds[c % len(kinds)]) if kinds else None
        v = [m if cells[r][c] is None else cells[r][c] for r in range(nr)]
        s = pd.Series(v, dtype=object)
        # in replays also as columns of native types
        if not ctx.symbolic and native and not lists and kinds != ("none",):
            s = pd.Series([float("nan") if isna(x) else x for x in v], dtype=float if kinds else int)
        cols[f"c{c}"] = s
    df = pd.DataFrame(cols) if nc else pd.DataFrame(index=range(nr))
    return df, cells


def same(ctx, frame, cells, names, labels, rows, msg, cols=None):
    if cols is None: cols = [int(n[1:]) for n in names]
    ctx.check(list(frame.columns) == names, f"{msg}: columns {list(frame.columns)} instead of {names}")
    ctx.check(list(frame.index) == labels, f"{msg}: rows {list(frame.index)} instead of {labels}")
    for r, i in zip(rows, range(len(labels))):
        for j, c in enumerate(cols):
            x, want = frame.iloc[i, j], cells[r][c]
            if want is None: ctx.check(isna(x), f"{msg}: a missing value has become something")
            else:
                ctx.check(not isna(x), f"{msg}: a value is missing")
                ctx.check(deep_eq(x, want), f"{msg}: a value changed")


def constants(ctx, nr, nc, kinds, lists, native=False):
    df, cells = table(ctx, nr, nc, kinds, lists, native)
    labels = [f"r{i}" for i in range(nr)]
    df.index = labels
    how = "columns" if ctx.bool("columnwise") else "rows"
    if lists and how == "columns": return
    kw = {}
    if ctx.bool("how given") or how == "columns": kw["how"] = how
    to_dict = not ctx.bool("as frame")
    if not to_dict: kw["to_dict"] = False
    drop = ctx.bool("drop")
    if drop: kw["drop_constants"] = True
    dropna = not ctx.bool("keep missing")
    if not dropna: kw["dropna"] = False
    if how == "rows" and not to_dict or (how == "rows" or not to_dict) and nr > 1 and ctx.bool("duplicate labels"):
        labels = ["x"] * nr
        df.index = labels
    names = [f"c{j}" for j in range(nc)]
    if not (how == "rows" and to_dict) and nc > 1 and ctx.bool("duplicate names"):
        names = ["c"] * nc
        df.columns = names
    r, ex = ctx.attempt(ctx.mod("pivot").extract_constants, df, **kw)
    ctx.check(ex is None, f"extraction failed: {type(ex).__name__}: {str(ex)[:100] if ex is not None and not ctx.symbolic else ''}")
    got, rest = r
    lines = [[cells[i][j] for i in range(nr)] for j in range(nc)] if how == "rows" else cells
    ln = names if how == "rows" else labels
    const = []
    for l in lines:
        present = [x for x in l if x is not None]
        c = And_(*[deep_eq(x, present[0]) for x in present[1:]]) if present else True
        if not dropna and len(present) < len(l): c = False
        const.append(bool(c))
    if any(const): ctx.cover("constants")
    want = [n for n, c in zip(ln, const) if c]
    if to_dict:
        ctx.check(type(got) is dict and list(got) == want, f"constants {list(got)} instead of {want}")
        for l, n, c in zip(lines, ln, const):
            if not c: continue
            present = [x for x in l if x is not None]
            if present:
                ctx.check(not isna(got[n]) and deep_eq(got[n], present[0]), f"value of constant {n}")
            else: ctx.check(isna(got[n]), f"value of constant {n}: nothing was there")
    elif how == "rows": same(ctx, got, cells, want, labels, range(nr), "constants", [j for j in range(nc) if const[j]])
    else: same(ctx, got, cells, names, want, [i for i in range(nr) if const[i]], "constants", range(nc))
    keep = [n for n, c in zip(ln, const) if not c] if drop else ln
    if how == "rows": same(ctx, rest, cells, keep, labels, range(nr), "variables", [j for j in range(nc) if not (drop and const[j])])
    else: same(ctx, rest, cells, names, keep, [i for i in range(nr) if not (drop and const[i])], "variables", range(nc))
    same(ctx, df, cells, names, labels, range(nr), "the caller's table", range(nc))


def split(ctx, nr, kinds):
    import pandas as pd
    df, cells = table(ctx, nr, 2, kinds)
    labels = [0] * nr if ctx.bool("duplicate labels") else list(range(nr, 0, -1))
    df.index = labels
    if ctx.bool("computed") and not kinds:
        t = ctx.int("t", -2 ** 40, 2 ** 40)
        pred = df["c0"] < t
        want = [bool(cells[i][0] < t) for i in range(nr)]
    else:
        want = [ctx.bool(f"p{i}") for i in range(nr)]
        pred = pd.Series(want, index=df.index, dtype=bool)
    r = ctx.ok("splitting", ctx.mod("pivot").split_on, df, pred)
    ctx.check(len(r) == 2, "two parts")
    for part, side in zip(r, (True, False)):
        rows = [i for i in range(nr) if want[i] is side]
        same(ctx, part, cells, ["c0", "c1"], [labels[i] for i in rows], rows, f"part {side}")
    if any(want) and not all(want): ctx.cover("both parts")


def badhow(ctx):
    df, _ = table(ctx, 1, 1, None)
    ctx.raises(ValueError, ctx.mod("pivot").extract_constants, "an unknown direction is accepted", df, how=ctx.str("how", 0, 5) if not ctx.symbolic else "cols")


def cases(tier):
    t = tier == "thorough"
    out = []
    for nr in range(0, 4 + t):
        for nc in range(1, 4 + t):
            if nr * nc > (12 if t else 9): continue
            out.append((f"constants-{nr}x{nc}", constants, dict(nr=nr, nc=nc, kinds=None, lists=False, native=nr % 2 == 0)))
            if nr and nr * nc <= (6 if not t else 8):
                for k in (("nan",), ("none",), ("na",), ("nan", "none")):
                    if len(k) > nc: continue
                    out.append((f"missing-{nr}x{nc}-{'-'.join(k)}", constants, dict(nr=nr, nc=nc, kinds=k, lists=False, native=k == ("nan",))))
            if nr and nr * nc <= 6: out.append((f"lists-{nr}x{nc}", constants, dict(nr=nr, nc=nc, kinds=("nan",) if nr * nc <= 4 else None, lists=True)))
    for nr in range(0, 4 + t):
        for k in (None, ("nan",)):
            out.append((f"split-{nr}-{k}", split, dict(nr=nr, kinds=k)))
    out.append(("bad", badhow, {}))
    return out

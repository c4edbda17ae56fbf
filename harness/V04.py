from harness.lib import *
from harness.V03 import preload
from sx.proxies import *
BOUNDS = "tables of at most 3 rows and 4 columns (thorough: 4 and 5) with every pattern of at most 3 names, arbitrary integers in every cell, arbitrary row labels"
OUTSIDE = "missing values; cells holding collections (documented as not supported)"


def drop(ctx, nr, nc):
    import pandas as pd
    names, k = [], 0
    for c in range(nc):
        # names in order of first appearance
        i = ctx.choice(f"n{c}", min(k, 2) + 1)
        k = max(k, i + 1)
        names.append("bac"[i])
    cells = [[ctx.int(f"v{r}.{c}", -2 ** 40, 2 ** 40) for c in range(nc)] for r in range(nr)]
    native = ctx.bool("native")
    obj = object if ctx.symbolic or not native else int
    df = pd.concat([pd.Series([cells[r][c] for r in range(nr)], dtype=obj, name=names[c]) for c in range(nc)], axis=1)
    labels = [0] * nr if ctx.bool("duplicate labels") else list(range(nr))
    df.index = labels
    r, ex = ctx.attempt(ctx.mod("pivot").check_and_drop_duplicate_columns, df)
    first = {n: names.index(n) for n in names}
    equal = And_(*[deep_eq(cells[i][c], cells[i][first[n]]) for i in range(nr) for c, n in enumerate(names)])
    if ex is not None:
        ctx.check(type(ex) is ValueError, f"unexpected {type(ex).__name__}")
        ctx.check(Not_(equal), "refused although all equally named columns are equal")
        ctx.cover("refused")
        return
    ctx.check(equal, "a column that differs from its namesake was dropped")
    want = list(dict.fromkeys(names))
    ctx.check(list(r.columns) == want, f"columns {list(r.columns)} instead of {want}")
    ctx.check(list(r.index) == labels, "row labels")
    for i in range(nr):
        for j, n in enumerate(want): ctx.eq(r.iloc[i, j], cells[i][first[n]], "a value changed")
    ctx.check(list(df.columns) == names, "the caller's table changed")
    if len(want) < nc: ctx.cover("dropped")


def cases(tier):
    t = tier == "thorough"
    return [(f"{r}x{c}", drop, dict(nr=r, nc=c)) for r in range(1, 4 + t) for c in range(1, 5 + t) if r * c <= (12 if not t else 16)]

from harness.lib import *
BOUNDS = "all histories of at most 4 (thorough: 5) assignments over symbolic keys and items under an arbitrary equivalence; reads of every key ever used and of an arbitrary key"
OUTSIDE = "longer histories; equivalence functions that change over time"


def run(ctx, n, default):
    st = ctx.mod("structures")
    # equivalence: arbitrary function of the item to an arbitrary class label
    cls = (lambda x: ctx.uf("eqclass", x)) if not default else hash
    if default:
        h = st.HashDict()
    else:
        h = st.HashDict(cls)
    first, cur = [], []       # (class, first item) ; [key, class]
    for i in range(n):
        k = ctx.key(f"k{i}")
        v = ctx.int(f"v{i}", 0, 3, conc=True) if default else ctx.value(f"v{i}")
        h[k] = v
        c = cls(v)
        if not any(bool(x[0] == c) for x in first): first.append((c, v))
        else: ctx.cover("shared")
        for row in cur:
            if bool(row[0] == k):
                row[1] = c
                ctx.cover("overwritten")
                break
        else: cur.append([k, c])
    for k, c in cur:
        want = [x[1] for x in first if bool(x[0] == c)][0]
        ctx.eq(ctx.ok("read", h.__getitem__, k), want, "not the first equivalent item")
    q = ctx.key("q")
    if not any(bool(row[0] == q) for row in cur):
        ctx.raises(KeyError, h.__getitem__, "unassigned key", q)
        ctx.cover("missing")


def cases(tier):
    n = 4 if tier == "quick" else 5
    return [(f"history-{i}", run, dict(n=i, default=False)) for i in range(0, n + 1)] + [(f"hash-{i}", run, dict(n=i, default=True)) for i in range(1, 4)]

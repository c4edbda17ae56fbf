from harness.lib import *
from harness.S01 import same_val
BOUNDS = "all pairs of nested mappings with at most 5 (thorough: 6) entries together over at most 3 levels; keys may coincide or differ in any way; values unbounded; default and custom mergeable types"
OUTSIDE = "larger mappings"


def oracle(a, b, mt):
    keys = [k for k in a]
    for k in b:
        if not any(bool(k == x) for x in keys): keys.append(k)
    out = []
    for k in keys:
        ina = [v for x, v in a.items() if bool(x == k)]
        inb = [v for x, v in b.items() if bool(x == k)]
        if ina and inb:
            if isinstance(ina[0], mt) and isinstance(inb[0], mt):
                out.append((k, "map", oracle(ina[0], inb[0], mt)))
            else:
                out.append((k, "leaf", inb[0]))
        else:
            out.append((k, "leaf", (ina or inb)[0]))
    return out


def compare(ctx, want, got):
    ctx.check(hasattr(got, "items"), "not a mapping")
    items = list(got.items())
    ctx.check(len(items) == len(want), "keys lost or invented")
    for (k, kind, v), (gk, gv) in zip(want, items):
        ctx.eq(k, gk, "wrong key or order")
        if kind == "map":
            ctx.cover("merged"); compare(ctx, v, gv)
        elif isinstance(v, (dict, UserDict)):
            ctx.check(same_val(v, gv) if True else 0, "unmerged mapping must be kept") if v is gv else ctx.eq(plain(v), plain(gv), "unmerged mapping changed")
        else:
            ctx.check(same_val(v, gv), "wrong value")


def merge(ctx, pairs, types, mtypes):
    st = ctx.mod("structures")
    s1, s2 = pairs[ctx.choice("shape", len(pairs))]
    a, b = build(ctx, s1, "a", types=types), build(ctx, s2, "b", types=types)
    ba, bb = snap(a), snap(b)
    mt = mtypes or (dict, OrderedDict)
    want = oracle(a, b, mt)
    got = st.rmerge(a, b, mtypes) if mtypes else st.rmerge(a, b)
    compare(ctx, want, got)
    ctx.eq(snap(a), ba, "first input modified")
    ctx.eq(snap(b), bb, "second input modified")


def cases(tier):
    n = 5 if tier == "quick" else 6
    pairs = [(x, y) for x in shapes(0, n, maxdepth=3) for y in shapes(0, n, maxdepth=3)
             if size(x) + size(y) <= n and not (n > 4 and size(x) + size(y) == n and min(size(x), size(y)) < 2)]
    out = [(f"pairs-{j}", merge, dict(pairs=g, types=None, mtypes=None)) for j, g in enumerate(chunks(pairs, 24))]
    deep = [((("L",),), (("L",),)), ((("L",), "L"), (("L",),)), (((("L",),),), ((("L",),),)), (("L", "L"), ("L", ("L",))), (((("L",), "L"),), ((("L", "L"),),))]
    out.append(("deep", merge, dict(pairs=deep, types=None, mtypes=None)))
    for nm, types, mt in (("custom-deep", {"a0.": MyMap, "b0.": MyMap, "a0.0.": MyMap, "b0.0.": MyMap}, (MyMap,)),
                          ("custom-all", {"a0.0.": MyMap, "b0.0.": MyMap}, (dict, MyMap)),
                          ("mixed", {"a0.": MyMap}, (dict, MyMap)),
                          ("not-mergeable", {"a0.": MyMap, "b0.": MyMap}, None),
                          ("one-not-mergeable", {"b0.": MyMap}, None),
                          ("ordered", {"a0.": OrderedDict, "b0.": OrderedDict, "b0.0.": OrderedDict}, None),
                          ("only-ordered", {"a0.": OrderedDict, "b0.": OrderedDict}, (OrderedDict,))):
        out.append((nm, merge, dict(pairs=deep, types=types, mtypes=mt)))
    return out

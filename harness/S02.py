from harness.lib import *
from harness.S01 import prepare, same_item, same_val
BOUNDS = ("all nested mappings with at most 4 (thorough: 5) entries over all levels, empty ones included; keys, values unbounded; "
          "match by key, value, item or arbitrary predicate; custom mapping types")
OUTSIDE = "larger mappings"


def oracle(m, pred, mtypes):
    queue = [m]
    while queue:
        cur = queue.pop(0)
        for k, v in cur.items():
            if pred(k, v): return (k, v)
        queue += [v for v in cur.values() if isinstance(v, mtypes)]
    return None


def search(ctx, mode, group, types, mtypes):
    st = ctx.mod("structures")
    shape = group[ctx.choice("shape", len(group))]
    m = build(ctx, shape, "", types=types)
    before = snap(m)
    ref, match, kw, pred = prepare(ctx, mode)
    if mtypes: kw["mtypes"] = mtypes
    want = oracle(m, pred, mtypes or (dict,))
    item = st.dig_for_item(m, ref, match, **kw)
    val = st.dig_for_value(m, ref, match, **kw)
    key = st.dig_for_key(m, ref, match, **kw)
    if want is None:
        ctx.cover("none")
        ctx.check(item is None and val is None and key is None, "no match must give None")
    else:
        ctx.cover("some")
        ctx.check(type(item) is tuple and len(item) == 2, "a match exists but none was returned")
        ctx.check(same_item(want, item), "not the first match in breadth-first order")
        ctx.check(same_val(want[1], val), "value form disagrees")
        ctx.eq(want[0], key, "key form disagrees")
    ctx.eq(snap(m), before, "input modified")


def cases(tier):
    n = 4 if tier == "quick" else 5
    out = []
    for mode in ("key", "value", "basekey", "baseval", "item", "pred"):
        hi = n if mode in ("key", "pred", "value") else n - 1
        for j, g in enumerate(chunks(shapes(0, hi), 8 if hi >= 4 else 2)):
            out.append((f"{mode}-{j}", search, dict(mode=mode, group=g, types=None, mtypes=None)))
    # deeper than the general bound: a chain beside shallow entries
    deep = [((("L",),), ("L",)), (((("L",),),), ("L", "L")), (((("L",),), "L"), (("L",),), "L"), ((), ((("L", "L"),),), (("L",),)), (((((("L",),),),),),)]
    odd = [("S", "L"), (("L",), "S"), (("S",), ("L",)), (("L", "L"), ("L",)), ((("L",),), "L")]
    for mode in ("key", "pred"):
        out.append((f"deep-{mode}", search, dict(mode=mode, group=deep, types=None, mtypes=None)))
        out.append((f"list-{mode}", search, dict(mode=mode, group=odd, types=None, mtypes=None)))
        for nm, types, mt in (("custom-in", {"0.": MyMap}, (dict, MyMap)), ("custom-out", {"0.": MyMap}, None),
                              ("only-custom", {"": MyMap, "0.": MyMap}, (MyMap,)), ("ordered", {"0.": OrderedDict}, None)):
            out.append((f"{nm}-{mode}", search, dict(mode=mode, group=odd[1:], types=types, mtypes=mt)))
    return out

from harness.lib import *
BOUNDS = "to_records: all nested mappings of at most 6 (thorough: 7) entries whose innermost mappings are non-empty, depth at most 4, symbolic labels/fields/values, default or arbitrary level names; unnest: all nested mappings of at most 4 (5) entries, keys any strings of 1..2 characters or small integers, any escape of 0..1 characters"
OUTSIDE = "innermost mappings that are empty; field names that equal a level name; level-name iterators that cannot be copied; distinct paths that spell the same dotted key"


def okshape(s, top=True):
    if top or all(c != "L" for c in s):
        return len(s) > 0 and all(c != "L" and okshape(c, False) for c in s)
    return True


def walk(m, cats):
    for k, v in m.items():
        if all(isinstance(x, (dict, UserDict)) for x in v.values()):
            yield from walk(v, cats + [k])
        else:
            yield cats + [k], v


def records(ctx, group, names, nested_type=None):
    st = ctx.mod("structures")
    shape = group[ctx.choice("shape", len(group))]
    types = {"": nested_type, "0.": nested_type} if nested_type else None
    if names == "default":
        # integer level names: field keys are strings of any content
        n = [0]

        def kf(name):
            n[0] += 1
            return f"f{n[0]}"
        m = build(ctx, shape, "", keyf=kf, types=types)
        lv = [1, 2, 3, 4, 5, 6, 7]
        arg = {}
    else:
        lv = [ctx.key(f"L{i}") for i in range(depth(shape))]
        ctx.distinct(*lv)
        m = build(ctx, shape, "", types=types)
        for _, leaf in walk(m, []):
            for k in leaf:
                for l in lv: ctx.assume(ctx_ne(k, l))
        arg = {"level_names": list(lv) if names == "list" else tuple(lv) if names == "tuple" else iter(lv)}
    before = snap(m)
    got = st.to_records(m, **arg)
    want = list(walk(m, []))
    ctx.check(type(got) is list and len(got) == len(want), "number of records")
    for (cats, leaf), rec in zip(want, got):
        ctx.check(len(rec) == len(cats) + len(leaf), "record has wrong number of fields")
        for l, c in zip(lv, cats):
            ctx.check(l in rec, "level missing from record")
            ctx.eq(rec[l], c, "wrong category")
        for k, v in leaf.items():
            ctx.check(k in rec, "field missing from record")
            r = rec[k]
            if isinstance(v, (dict, UserDict)): ctx.check(r is v or plain(r) == plain(v), "field value")
            else: ctx.eq(r, v, "wrong field value")
    ctx.cover(f"records{len(want)}")
    ctx.eq(snap(m), before, "input modified")
    if want and len(m) > 1: ctx.cover("siblings")


def ctx_ne(a, b):
    from sx.proxies import Not_, deep_eq
    return Not_(deep_eq(a, b))


def leaves(m, mt, path=()):
    for k, v in m.items():
        if isinstance(v, mt): yield from leaves(v, mt, path + (k,))
        else: yield path + (k,), v


def spell(path, esc):
    out = ""
    for i, k in enumerate(path):
        s = k if not isinstance(k, int) else str(k)
        if i < len(path) - 1: out = out + esc + s + esc + "_"
        else: out = out + s
    return out


def unnest(ctx, group, kind, mtypes=None, types=None):
    st = ctx.mod("structures")
    shape = group[ctx.choice("shape", len(group))]
    esc = ctx.str("esc", 0, 1) if kind != "noesc" else ""
    ints = iter(range(1000))

    def kf(name):
        if kind == "int" and ctx.bool(name + ".int"): return next(ints)
        return ctx.str(name, 1, 2 if kind == "long" else 1)
    m = build(ctx, shape, "", keyf=kf, types=types)
    before = snap(m)
    mt = mtypes or (dict,)
    want = [(spell(p, esc), v) for p, v in leaves(m, mt)]
    ctx.distinct(*[w[0] for w in want])
    kw = {} if kind == "noesc" else {"escape": esc}
    if mtypes: kw["mtypes"] = mtypes
    got = st.unnest(m, **kw)
    ctx.check(len(got) == len(want), "number of leaves")
    for (wk, wv), (gk, gv) in zip(want, got.items()):
        ctx.eq(wk, gk, "key does not spell the path")
        if isinstance(wv, UserDict): ctx.check(gv is wv, "value")
        else: ctx.eq(wv, gv, "wrong leaf value")
    ctx.cover("unnested" if want else "empty")
    ctx.eq(snap(m), before, "input modified")


def cases(tier):
    q = tier == "quick"
    sh = [s for s in shapes(1, 6 if q else 7, maxdepth=4) if okshape(s)]
    out = []
    for names in ("default", "list"):
        for j, g in enumerate(chunks(sh, 10)): out.append((f"records-{names}-{j}", records, dict(group=g, names=names)))
    few = [s for s in sh if size(s) <= 4]
    for names in ("tuple", "iter"): out.append((f"records-{names}", records, dict(group=few, names=names)))
    out.append(("records-custom", records, dict(group=few, names="list", nested_type=MyMapOr)))
    out.append(("records-custom-default", records, dict(group=few, names="default", nested_type=MyMapOr)))
    us = shapes(0, 4 if q else 5)
    for j, g in enumerate(chunks(us, 6)): out.append((f"unnest-{j}", unnest, dict(group=g, kind="esc")))
    small = shapes(0, 3)
    out.append(("unnest-int", unnest, dict(group=small, kind="int")))
    out.append(("unnest-long", unnest, dict(group=small, kind="long")))
    out.append(("unnest-noesc", unnest, dict(group=small, kind="noesc")))
    out.append(("unnest-custom", unnest, dict(group=small, kind="esc", mtypes=(dict, MyMap), types={"0.": MyMap})))
    out.append(("unnest-custom-leaf", unnest, dict(group=small, kind="esc", types={"0.": MyMap})))
    return out


class MyMapOr(UserDict):
    pass

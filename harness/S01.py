from harness.lib import *
BOUNDS = ("all nested mappings with at most 4 (thorough: 5) entries over all levels, empty ones included; keys and leaf values unbounded; "
          "match by key, value, item or arbitrary predicate; dict and custom mapping types in and out of the searched types; lists as values; one mapping at several places")
OUTSIDE = "larger mappings; keys or values with side-effecting equality"


def oracle(m, pred, mtypes):
    hits = [(k, v) for k, v in m.items() if pred(k, v)]
    for v in m.values():
        if isinstance(v, mtypes): hits += oracle(v, pred, mtypes)
    return hits


def prepare(ctx, mode):
    """-> (ref, match, kwargs, python predicate)"""
    if mode == "key":
        r = ctx.value("ref"); return r, "key", {}, lambda k, v: k == r
    if mode == "value":
        r = ctx.value("ref"); return r, "value", {}, lambda k, v: r == v
    if mode == "basekey":
        r = ctx.value("ref")
        bp = lambda a, b: ctx.ufbool("P", a, tag(b)); return r, "key", {"base_pred": bp}, lambda k, v: bp(r, k)
    if mode == "baseval":
        r = ctx.value("ref")
        bp = lambda a, b: ctx.ufbool("P", a, tag(b)); return r, "value", {"base_pred": bp}, lambda k, v: bp(r, v)
    if mode == "item":
        r = ctx.value("ref")
        bp = lambda a, k, v: ctx.ufbool("P", a, k, tag(v)); return r, "item", {"base_pred": bp}, lambda k, v: bp(r, k, v)
    if mode == "pred":
        f = lambda k, v: ctx.ufbool("P", k, tag(v)); return f, ctx_match(ctx), {}, f


def ctx_match(ctx):
    return ("key", "value", "item")[ctx.choice("match", 3)]


def tag(v):
    """predicates may look at anything in a value; containers are told apart by size"""
    if isinstance(v, (dict, UserDict)): return ["map", len(v)]
    if type(v) is list: return ["list", len(v)]
    return v


def same_item(a, b):
    from sx.proxies import And_, deep_eq
    return And_(deep_eq(a[0], b[0]), same_val(a[1], b[1]))


def same_val(a, b):
    from sx.proxies import deep_eq, is_sym
    if a is b: return True
    if isinstance(type(a), type) and issubclass(type(a), (dict, UserDict, list)): return False
    if isinstance(type(b), type) and issubclass(type(b), (dict, UserDict, list)): return False
    return deep_eq(a, b)


def search(ctx, mode, group, types, mtypes):
    st = ctx.mod("structures")
    shape = group[ctx.choice("shape", len(group))]
    m = build(ctx, shape, "", types=types)
    before = snap(m)
    ref, match, kw, pred = prepare(ctx, mode)
    if mtypes: kw["mtypes"] = mtypes
    want = oracle(m, pred, mtypes or (dict,))
    items = st.dig_for_items(m, ref, match, **kw)
    vals = st.dig_for_values(m, ref, match, **kw)
    keys = st.dig_for_keys(m, ref, match, **kw)
    if not want:
        ctx.cover("none")
        ctx.check(items is None and vals is None and keys is None, "no match must give None")
    else:
        ctx.cover("some")
        ctx.check(items is not None and len(items) == len(want), "number of items")
        ctx.check(vals is not None and len(vals) == len(want), "number of values")
        ctx.check(keys is not None and len(keys) == len(want), "number of keys")
        for w, i, v, k in zip(want, items, vals, keys):
            ctx.check(same_item(w, i), "items: wrong item or order")
            ctx.check(same_val(w[1], v), "values view disagrees")
            ctx.eq(w[0], k, "keys view disagrees")
    ctx.eq(snap(m), before, "input modified")


def shared(ctx, mode, how):
    """the same mapping object at several places"""
    st = ctx.mod("structures")
    sub = build(ctx, ("L", ()) if how == "deep" else ("L",), "s.")
    k = [ctx.key(f"k{i}") for i in range(3)]
    ctx.distinct(*k)
    if how == "twins": m = {k[0]: sub, k[1]: sub, k[2]: ctx.value("v")}
    elif how == "levels": m = {k[0]: {k[2]: sub}, k[1]: sub}
    elif how == "deep": m = {k[0]: {ctx.key("x"): sub}, k[1]: {ctx.key("y"): sub}}
    else: m = {k[0]: dict(sub), k[1]: dict(sub), k[2]: sub}     # equal but distinct
    before = snap(m)
    ref, match, kw, pred = prepare(ctx, mode)
    want = oracle(m, pred, (dict,))
    items = st.dig_for_items(m, ref, match, **kw)
    vals = st.dig_for_values(m, ref, match, **kw)
    ctx.check((items is None) == (not want), "None exactly when nothing matches")
    if want:
        ctx.check(len(items) == len(want) and len(vals) == len(want), "each occurrence must be reported")
        for w, i, v in zip(want, items, vals):
            ctx.check(same_item(w, i), "items: wrong item or order"); ctx.check(same_val(w[1], v), "values view disagrees")
        ctx.cover("some")
    ctx.eq(snap(m), before, "input modified")


def cases(tier):
    n = 4 if tier == "quick" else 5
    out = []
    for mode in ("key", "value", "basekey", "baseval", "item", "pred"):
        hi = n if mode in ("key", "pred", "value") else n - 1
        sh = shapes(0, hi)
        for j, g in enumerate(chunks(sh, 8 if hi >= 4 else 2)):
            out.append((f"{mode}-{j}", search, dict(mode=mode, group=g, types=None, mtypes=None)))
    for mode in ("key", "value", "pred"):
        for how in ("twins", "levels", "deep", "equal"): out.append((f"shared-{how}-{mode}", shared, dict(mode=mode, how=how)))
    odd = [("S", "L"), (("L",), "S"), (("S",), ("L",)), (("L", "L"), ("L",)), ((("L",),), "L")]
    for mode in ("key", "pred"):
        out.append((f"list-{mode}", search, dict(mode=mode, group=odd, types=None, mtypes=None)))
        for nm, types, mt in (("custom-in", {"0.": MyMap}, (dict, MyMap)), ("custom-out", {"0.": MyMap}, None),
                              ("only-custom", {"": MyMap, "0.": MyMap}, (MyMap,)), ("ordered", {"0.": OrderedDict}, None)):
            out.append((f"{nm}-{mode}", search, dict(mode=mode, group=odd[1:], types=types, mtypes=mt)))
    return out

from harness.lib import *
from collections import namedtuple
BOUNDS = "all chains of at most 3 (thorough: 4) keys through mappings, dict subclasses, lists, tuples, named tuples and attribute objects; keys any of None, integers (-1, 0, 1), strings, tuples, floats, bytes and arbitrary further strings, present or missing; any item values and default"
OUTSIDE = "containers whose lookups have side effects; slices; attribute names of built-in methods except the listed precedence cases"

NT2 = namedtuple("NT2", ["a", "v11"])


class Obj:
    pass


class AttrDict(dict):
    """mapping with attributes of its own"""


KINDS = ("dict", "attrdict", "mymap", "list", "tuple", "nt", "obj", "leaf")


def make(ctx, kind, pre, inner):
    """container of the given kind; `inner` is stored first -> (object, lookup model)"""
    v2 = ctx.value(pre + "v")
    if kind in ("dict", "attrdict", "mymap"):
        d = {"dict": dict, "attrdict": AttrDict, "mymap": MyMap}[kind]()
        k1, k2 = ctx.key(pre + "k1"), ctx.key(pre + "k2")
        ctx.distinct(k1, k2)
        d[k1], d[k2] = inner, v2
        attrs = []
        if kind == "attrdict":
            d.a, d.v11 = ctx.value(pre + "attr"), inner
            attrs = [("a", d.a), ("v11", d.v11)]
        return d, ("map", [(k1, inner), (k2, v2)], attrs)
    if kind == "list": return [inner, v2], ("seq", [inner, v2], [])
    if kind == "tuple": return (v2, inner), ("seq", [v2, inner], [])
    if kind == "nt":
        t = NT2(inner, v2)
        return t, ("seq", [inner, v2], [("a", inner), ("v11", v2)])
    if kind == "obj":
        o = Obj()
        o.a, o.v11 = inner, v2
        return o, ("obj", [], [("a", inner), ("v11", v2)])


def lookup(model, k):
    kind, items, attrs = model
    if kind == "map":
        for x, v in items:
            if bool(x == k): return True, v
    elif kind == "seq":
        for i in range(-len(items), len(items)):
            if bool(k == i): return True, items[i]
    for n, v in attrs:
        if bool(k == n): return True, v
    return False, None


class Box:
    """opaque leaf: nothing can be looked up in it"""


def chain(ctx, kinds, nkeys):
    st = ctx.mod("structures")
    models = {}
    inner = Box() if nkeys > len(kinds) else ctx.value("leaf")
    obj = inner
    for i, kind in enumerate(reversed(kinds)):
        obj, model = make(ctx, kind, f"c{len(kinds) - 1 - i}.", obj)
        models[id(obj)] = (obj, model)
    keys = [ctx.key(f"key{i}") for i in range(nkeys)]
    default = ctx.value("default")
    level, found = obj, True
    for k in keys:
        m = models.get(id(level))
        if m is None:
            if not isinstance(level, Box):
                ctx.assume(False)       # lookups inside scalar items: see OUTSIDE
            found = False
            break
        found, level = lookup(m[1], k)
        if not found: break
    kargs = keys if ctx.choice("aslist", 2) else tuple(keys)
    nodefault = ctx.choice("nodefault", 2)
    got = ctx.ok("lookup must not raise", st.get_from, obj, kargs, *(() if nodefault else (default,)))
    want = level if found else (None if nodefault else default)
    ctx.cover("found" if found else "missing")
    if id(want) in models or isinstance(want, Box): ctx.check(got is want, "wrong object returned")
    else: ctx.eq(got, want, "wrong item returned")
    # one step through getitemattr
    if nkeys == 1 and found:
        ctx.check((lambda r: r is want or bool_eq(r, want))(st.getitemattr(obj, keys[0])), "getitemattr disagrees")


def bool_eq(a, b):
    from sx.proxies import deep_eq
    return deep_eq(a, b)


def precedence(ctx):
    """items win over attributes of the same name; real attribute names of containers"""
    st = ctx.mod("structures")
    names = ["items", "keys", "count", "index", "real", "a", "_fields"]
    nm = names[ctx.choice("name", len(names))]
    v, d = ctx.value("v"), ctx.value("d")
    present = ctx.bool("present")
    m = {nm: v} if present else {"zz": v}
    o = Obj()
    setattr(o, nm, v)
    if present:
        ctx.eq(st.get_from(m, [nm], d), v, "item must take precedence over attribute")
    got = st.get_from({"q": o}, ["q", nm], d)
    ctx.eq(got, v, "attribute access where indexing does not apply")
    got = ctx.ok("missing", st.get_from, {"q": o}, ["q", "nothere", nm], d)
    ctx.eq(got, d, "default for a missing attribute")
    t = NT2(v, d)
    got = ctx.ok("missing", st.get_from, t, [("items", 5, None, (1, 2), 2.5)[ctx.choice("odd", 5)]], d)
    ctx.eq(got, d, "default for a missing key of a named tuple")


def nokeys(ctx):
    """no keys: the collection itself, whatever it is; items that are empty containers"""
    st = ctx.mod("structures")
    d, k = ctx.value("default"), ctx.key("k")
    for c in ({}, [], (), "", 0, None, MyMap(), Obj(), {"a": 1}, ctx.value("v")):
        got = ctx.ok("no keys", st.get_from, c, [], d)
        ctx.check(got is c, "without keys the collection itself must be returned")
        for holder, key in (({"q": c}, "q"), ([c], 0), ([d, c], -1), (NT2(c, d), "a")):
            ctx.check(ctx.ok("one key", st.get_from, holder, (key,), d) is c, "an empty item must be returned")
    for c in ({}, [], (), MyMap(), Obj(), None, 0):
        ctx.eq(ctx.ok("missing", st.get_from, c, [k], d), d, "nothing to find in an empty container")
        ctx.eq(ctx.ok("missing", st.get_from, {"q": c}, ["q", k, k], d), d, "nothing to find below an empty container")
    ctx.cover("empty")


def cases(tier):
    import itertools
    out = [("nokeys", nokeys, {}), ("precedence", precedence, {}), ("empty", chain, dict(kinds=("dict",), nkeys=0))]
    K = KINDS[:-1]
    for k in K:
        for n in (1, 2): out.append((f"{k}-{n}", chain, dict(kinds=(k,), nkeys=n)))
    for ks in itertools.product(K, repeat=2): out.append((f"{'-'.join(ks)}-2", chain, dict(kinds=ks, nkeys=2)))
    for ks in itertools.product(("dict", "list", "nt", "obj") if tier == "quick" else K, repeat=3):
        out.append((f"{'-'.join(ks)}-3", chain, dict(kinds=ks, nkeys=3)))
    if tier != "quick":
        for ks in itertools.product(("dict", "list", "nt", "obj"), repeat=4): out.append((f"{'-'.join(ks)}-4", chain, dict(kinds=ks, nkeys=4)))
    return out

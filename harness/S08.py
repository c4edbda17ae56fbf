from harness.lib import *
from collections import deque
BOUNDS = "all mappings/sequences of at most 4 (thorough: 5) entries with symbolic keys, values and predicate; 12 entries with symbolic values"
OUTSIDE = "insert_after with a new key that is already present"


def mapping(ctx, n, pre="", typ=dict):
    return build(ctx, ("L",) * n, pre, typ=typ)


TYPES = (dict, OrderedDict, MyMap)


def insert(ctx, n, typ):
    st = ctx.mod("structures")
    m = mapping(ctx, n, typ=typ)
    before = snap(m)
    ks = list(m.keys())
    nk, nv, pk = ctx.key("nk"), ctx.value("nv"), ctx.key("pk")
    ctx.distinct(nk, *ks)
    want = []
    for k, v in m.items():
        want.append((k, v))
        if bool(k == pk):
            want.append((nk, nv))
    got = st.insert_after(nk, nv, pk, m)
    ctx.eq(list(got.items()), want, "entries or order wrong")
    ctx.cover("inserted" if len(want) > n else "no anchor")
    ctx.eq(snap(m), before, "input modified")
    ctx.check(got is not m, "must be a new mapping")


def reindex(ctx, n, typ):
    st = ctx.mod("structures")
    m = mapping(ctx, n, typ=typ)
    before = snap(m)
    ctx.eq(list(st.reindex_mapping(m).items()), list(enumerate(m.values())), "reindexed entries")
    got = st.enumerate_as_mapping(m)
    ctx.eq(list(got.items()), list(m.items()), "a mapping must be left as it is")
    seq = list(m.values())
    for s in (seq, tuple(seq), deque(seq), iter(seq)):
        ctx.eq(list(st.enumerate_as_mapping(s).items()), list(enumerate(seq)), "enumerated entries")
    ctx.check(st.enumerate_as_mapping(None) == {}, "None must enumerate to nothing")
    ctx.eq(snap(m), before, "input modified")
    ctx.raises(AssertionError, st.reindex_mapping, "only mappings", seq)


def separate(ctx, n):
    st = ctx.mod("structures")
    xs = [ctx.value(f"x{i}") for i in range(n)]
    calls = []

    def P(x):
        calls.append(x)
        return bool(ctx.ufbool("P", x))
    want = ([x for x in xs if bool(ctx.ufbool("P", x))], [x for x in xs if not bool(ctx.ufbool("P", x))])
    src = list(xs)
    hits, misses = st.separate_by(src, P)
    ctx.eq(list(hits), want[0], "hits")
    ctx.eq(list(misses), want[1], "misses")
    ctx.eq(src, xs, "input modified")
    h2, m2 = st.separate_by(iter(xs), P)
    ctx.eq([list(h2), list(m2)], [list(want[0]), list(want[1])], "one-shot input")
    ctx.cover("separated")


def many(ctx):
    """more entries than have one digit"""
    st = ctx.mod("structures")
    xs = [ctx.value(f"x{i}") for i in range(12)]
    m = {f"k{i}": x for i, x in enumerate(xs)}
    ctx.eq(list(st.reindex_mapping(m).items()), list(enumerate(xs)), "reindexed entries")
    ctx.eq(list(st.enumerate_as_mapping(xs).items()), list(enumerate(xs)), "enumerated entries")
    at = ctx.choice("at", 12)
    nv = ctx.value("nv")
    want = list(m.items())
    want.insert(at + 1, ("new", nv))
    ctx.eq(list(st.insert_after("new", nv, f"k{at}", m).items()), want, "inserted")
    ctx.eq(list(st.get_from_all("k", [{"k": x} for x in xs])), xs, "gathered")
    ctx.cover("many")


def gather(ctx, ns, how):
    st = ctx.mod("structures")
    ms = [mapping(ctx, n, f"m{i}.") for i, n in enumerate(ns)]
    before = snap(ms)
    k, d = ctx.key("k"), ctx.value("d")
    want = []
    for m in ms:
        for x, v in m.items():
            if bool(x == k):
                want.append(v); break
        else: want.append(d)
    src = {"list": lambda: list(ms), "dict": lambda: {i: m for i, m in enumerate(ms)}, "iter": lambda: iter(ms), "tuple": lambda: tuple(ms)}[how]()
    ctx.eq(list(st.get_from_all(k, src, d)), want, "gathered values")
    ctx.eq(snap(ms), before, "inputs modified")
    nd = [None if w is d and not any(bool(x == k) for x in m) else w for m, w in zip(ms, want)]
    src = list(ms)
    ctx.eq(list(st.get_from_all(k, src)), nd, "default is None")


def listify(ctx, n):
    st = ctx.mod("structures")
    xs = [ctx.value(f"x{i}") for i in range(n)]
    src = list(xs)
    got = st.listify(src)
    ctx.eq(got, xs, "list"); ctx.check(type(got) is list, "always a list")
    for c in (tuple(xs), deque(xs)):
        got = st.listify(c)
        ctx.eq(got, xs, "collection"); ctx.check(type(got) is list, "always a list")
    for c in (b"ab", bytearray(b"ab"), range(97, 99), {97: 1, 98: 2}.keys()):
        got = st.listify(c)
        ctx.check(type(got) is list and got == [97, 98], "any collection but a string gives its elements")
    for c in ((), [], {}, set(), b"", deque()): ctx.check(st.listify(c) == [], "empty collection")
    m = mapping(ctx, n)
    ctx.eq(st.listify(m), list(m), "mapping")
    ctx.eq(st.listify(m.values()), list(m.values()), "view")
    ctx.eq(src, xs, "input modified")
    s = ctx.str("s", 0, 3)
    got = st.listify(s)
    ctx.check(type(got) is list and len(got) == 1, "a string is one thing"); ctx.eq(got[0], s, "string")
    for scalar in (ctx.int("i"), None, 2.5, object):
        got = st.listify(scalar)
        ctx.check(type(got) is list and len(got) == 1, "a scalar is wrapped"); ctx.eq(got[0], scalar, "scalar")
    ctx.cover("listified")


def cases(tier):
    import itertools
    n = 4 if tier == "quick" else 5
    out = [("many", many, {})]
    for i in range(n + 1):
        for t in TYPES:
            out.append((f"insert-{i}-{t.__name__}", insert, dict(n=i, typ=t)))
            out.append((f"reindex-{i}-{t.__name__}", reindex, dict(n=i, typ=t)))
        out.append((f"separate-{i}", separate, dict(n=i)))
        out.append((f"listify-{i}", listify, dict(n=i)))
    for k in range(0, 4):
        for ns in itertools.product((0, 1, 2), repeat=k):
            for how in ("list", "dict") if k > 1 else ("list", "dict", "iter", "tuple"):
                out.append((f"gather-{ns}-{how}", gather, dict(ns=ns, how=how)))
    return out

from harness.lib import *
from harness.shm import *
from harness import shm, npmodel
BOUNDS = "all histories of at most 3 (thorough: 4) operations (store, delete, clear) on a Notepad, GridPaper, TagIndex or MetaTagIndex (with and without locks) through two handles with arbitrary one-character keys, then closing through either handle; reserved keys: 'index' followed by 0-3 (thorough: 0-7) arbitrary characters, also as the text of an object that is not a string; two objects given no name; and arbitrary keys of 5, 9, 11 and 17 characters"
OUTSIDE = "dumping on close; FakeIndex (documented as unable to clean up); locks still held by another process; the chance that the random names of two objects are the same"
ASSUMPTIONS = shm.ASSUMPTIONS


def fakes(symbolic):
    f = shm.fakes(symbolic)
    if symbolic: f["numpy"] = npmodel.module()
    return f


class Named:
    """not a string, but prints as one"""
    def __init__(self, s): self.s = s
    def __str__(self): return self.s
    def __format__(self, spec): return self.s
    def __sx_str__(self): return self.s


def opener(ctx, cls, name, **kw):
    C = getattr(ctx.mod("codex.implements"), cls)
    return C(name, create=True, **kw), C(name, create=False, **kw)


def store(ctx, o, cls, k, i):
    if cls == "Notepad": o[k] = aval(ctx, f"v{i}")
    elif cls == "GridPaper": o[k] = npmodel.make(ctx, f"v{i}", (2,) if i == 1 else (1, 3), "|u1")
    elif cls == "MetaTagIndex" and ctx.bool(f"has{i}"): o.add(k, aval(ctx, f"v{i}"))
    else: o.add(k)


def listed(o):
    return list(o.update() if hasattr(o, "update") else o.keys())


def history(ctx, cls, ops, last, kw={}):
    w = world(ctx)
    h = opener(ctx, cls, w.name("pad"), **kw)
    # the blocks of a used but empty object (its lock's counter, say)
    store(ctx, h[0], cls, "warm", "w")
    del h[1]["warm"]
    live, counts, hasval = [], {}, cls == "MetaTagIndex"
    def tally():
        if hasval and live: return
        n = len(w.names())
        ctx.check(n == counts.setdefault(len(live), n), "deleting a key left one of its blocks behind")
    tally()
    for i, op in enumerate(ops):
        o = h[i % 2]
        if op == "clear":
            if hasattr(o, "clear"): o.clear()
            else:
                for k in list(o.update()): o.remove(k)
            live = []
        else:
            k = akey(ctx, f"k{i}", 1)
            at = find(live, k)
            if op == "set":
                store(ctx, o, cls, k, i)
                if at is None: live.append((k, 0))
            elif at is None: ctx.assume(False)
            else:
                del o[k]
                live.pop(at)
        tally()
    ctx.check(len(listed(h[0])) == len(live), "keys listed")
    h[last].close()
    left = w.names()
    ctx.check(len(left) == 0, f"closing left {len(left)} blocks behind")
    # a new one of the same name starts empty
    o = opener(ctx, cls, w.name("pad"), **kw)[1]
    ctx.check(listed(o) == [], "a new object of the same name is not empty")


def unnamed(ctx, cls):
    """objects given no name get one of their own"""
    w = world(ctx)
    m = ctx.mod("codex.implements")
    C = getattr(m, cls)
    with draws(ctx, m):
        o = []
        try:
            for i in range(2):
                o.append(C(create=True))
                store(ctx, o[i], cls, akey(ctx, f"k{i}", 1), i)
            for i in range(2):
                name = o[i].prefix if hasattr(o[i], "prefix") else o[i].name
                ctx.check(len(listed(o[i])) == 1, "objects made without names share their keys")
                ctx.check(len(listed(C(name, create=False))) == 1, "an object made without a name cannot be opened by the one it got")
            o[0].close()
            ctx.check(len(listed(o[1])) == 1, "closing an object emptied another")
            o.pop(0)
            o[0].close()
            o.pop(0)
            ctx.check(len(w.names()) == 0, "closing left blocks behind")
        finally:
            for x in o:
                if not ctx.symbolic: x.close()


def reserved(ctx, cls, kind, lo, hi):
    w = world(ctx)
    h = opener(ctx, cls, w.name("pad"))
    k0 = akey(ctx, "k0", 1)
    store(ctx, h[0], cls, k0, 0)
    suf = ctx.str("suffix", lo, hi, lo=0x20, hi=0x7e)
    k = "index" + suf
    if kind == "object": k = Named(k)
    before = w.snapshot()
    v = npmodel.make(ctx, "v", (2,), "|u1") if cls == "GridPaper" else aval(ctx, "v")
    def put(): h[1][k] = v
    def rm(): del h[1][k]
    for f in (put, rm, lambda: h[0].set(k, v), lambda: h[0].set(k, v, exists_ok=False)):
        ctx.raises(KeyError, f, "a key in the reserved namespace")
        ctx.check(w.same(before), "a refused reserved key changed a block")
    ks = listed(h[0])
    ctx.check(len(ks) == 1 and bool(ks[0] == k0), "keys listed")


def anykey(ctx, cls, n, op):
    """whatever key is used, the object's own index stays intact"""
    w = world(ctx)
    h = opener(ctx, cls, w.name("pad"))
    k0 = akey(ctx, "k0", 1)
    store(ctx, h[0], cls, k0, 0)
    k = ctx.str("k", n, n, lo=0x21, hi=0x7e)
    for c in SymStr.cells(k): ctx.assume(Not_(cell_eq(c, 47)))
    before = w.snapshot()
    v = npmodel.make(ctx, "v", (2,), "|u1") if cls == "GridPaper" else aval(ctx, "v")
    def put(): h[1][k] = v
    def rm(): del h[1][k]
    live = [k0]
    if op == "set":
        _, ex = ctx.attempt(put)
        if ex is None: live.append(k)
        else:
            ctx.check(isinstance(ex, KeyError), f"a key that cannot be used: {type(ex).__name__}")
            ctx.check(w.same(before), "a refused key changed a block")
    else:
        ctx.raises(KeyError, rm, "deleting a key never stored")
        ctx.check(w.same(before), "a refused key changed a block")
    for o in h:
        ks = listed(o)
        ctx.check(len(ks) == len(live) and all(bool(a == b) for a, b in zip(ks, live)), "keys listed")
        for q in live: o[q]


def cases(tier):
    import itertools
    out = []
    for cls in ("Notepad", "GridPaper", "TagIndex", "MetaTagIndex"):
        for n in range(0, 4 if tier == "quick" else 5):
            for ops in itertools.product(("set", "del", "clear"), repeat=n):
                if n and ops[0] != "set": continue
                if ops.count("clear") > 1: continue
                for kw in ({}, {"no_lockout": True}):
                    if kw and n > 2: continue
                    out.append((f"{cls}-{'-'.join(ops) or 'unused'}{'-nolock' if kw else ''}", history, dict(cls=cls, ops=ops, last=n % 2, kw=kw)))
    for cls in ("Notepad", "GridPaper", "TagIndex", "MetaTagIndex"): out.append((f"{cls}-unnamed", unnamed, dict(cls=cls)))
    for cls in ("Notepad", "GridPaper"):
        for kind in ("text", "object"):
            for lo, hi in ((0, 1), (2, 3)) + (((4, 5), (6, 7)) if tier != "quick" else ()):
                out.append((f"{cls}-reserved-{kind}-{lo}", reserved, dict(cls=cls, kind=kind, lo=lo, hi=hi)))
        for n in (5, 9, 11, 17):
            for op in ("set", "del"):
                out.append((f"{cls}-any-{n}-{op}", anykey, dict(cls=cls, n=n, op=op)))
    return out

from harness.lib import *
from harness.shm import *
from harness.C09 import listed, npmodel
from harness.C05 import Boom
from harness import shm
BOUNDS = ("all histories of at most 3 (thorough: 4) operations (store new or over an existing key, store refusing to replace, store of something that cannot be stored, delete, read, clear) with arbitrary one-character keys "
          "through two handles on a Notepad, GridPaper, TagIndex or MetaTagIndex (with and without locks), then closing, and of at most 4 (thorough: 5) entries, exits, waits, timeouts and interrupts of two locks; done by an object in debug mode and by one that is not")
OUTSIDE = "the wording of log lines; a log that cannot be written; interleavings (C11, C12)"
ASSUMPTIONS = shm.ASSUMPTIONS + ["the log file can be opened and written (a stand-in records it)"]


class Logs:
    """stands in for open()"""
    def __init__(self, ctx): self.ctx, self.lines, self.allowed = ctx, 0, True

    def open(self, name, mode="r", *a, **k):
        self.ctx.check(self.allowed, "a log was opened by an object that is not in debug mode")
        self.ctx.check("a" in mode, "the log must be added to")
        log = self

        class F:
            def __enter__(self): return self
            def __exit__(self, *_): pass
            def close(self): pass
            def flush(self): pass
            def write(self, text):
                log.lines += 1
                log.ctx.check(SymStr.cells(text)[-1:] == [10], "a log line must end")
                return 1
            def writelines(self, ls):
                for l in ls: self.write(l)
        return F()


def fakes(symbolic):
    f = shm.fakes(symbolic)
    if symbolic: f["numpy"] = npmodel.module()
    return f


def same(ctx, w, pair):
    """the same blocks, of the same sizes"""
    a, b = [{} for _ in "ab"], None
    seen = []
    for n in w.names():
        for j, p in enumerate(pair):
            c = SymStr.cells(n)
            if c[:len(p)] == SymStr.cells(p): seen.append((j, SymStr.mk(c[len(p):]), len(w.read(n))))
    ctx.check(sum(j for j, *_ in seen) * 2 == len(seen), "debug mode changed the number of blocks")
    for j, rest, size in seen:
        if j: continue
        other = w.read(pair[1] + rest)
        ctx.check(other is not None, "debug mode changed the blocks")
        ctx.check(len(other) == size, "debug mode changed the size of a block")


def both(ctx, m, logs, f, hs, msg):
    res = []
    for j, h in enumerate(hs):
        logs.allowed = j == 1
        SLEEPS[0] = 0
        try: res.append((f(h), None))
        except BaseException as ex:
            if not isinstance(ex, (Exception, KeyboardInterrupt)) or type(ex).__module__.startswith("sx"): raise
            res.append((None, ex))
        res[-1] += (SLEEPS[0],)
    (r0, e0, s0), (r1, e1, s1) = res
    ctx.check(type(e0) is type(e1), f"{msg}: {type(e1).__name__} in debug mode, {type(e0).__name__} otherwise")
    ctx.check(s0 == s1, f"{msg}: debug mode changed how often is waited")
    return r0, r1


def equal(ctx, a, b, msg):
    if hasattr(a, "dtype") and hasattr(b, "dtype"):
        ctx.check(npmodel.equal(a, b), msg)
    else: ctx.eq(b, a, msg)


def listing(ctx, m, logs, hs, msg):
    a, b = both(ctx, m, logs, listed, hs, msg)
    ctx.check(len(a) == len(b), msg)
    for x, y in zip(a, b): ctx.eq(y, x, msg)
    return a


def history(ctx, cls, ops, kw):
    w = world(ctx)
    m = ctx.mod("codex.implements")
    logs = Logs(ctx)
    m.open = logs.open
    try:
        C = getattr(m, cls)
        pair = (w.name("pad"), w.name("dbg"))
        h = [[C(p, create=True, debug=d, **kw), C(p, create=False, debug=d, **kw)] for p, d in zip(pair, (False, True))]
        for i, op in enumerate(ops):
            hs = [x[i % 2] for x in h]
            k = akey(ctx, f"k{i}", 1)
            v = Bad() if op == "bad" else value(ctx, cls, i) if op in ("set", "once") else None
            def do(o):
                if op == "clear":
                    if hasattr(o, "clear"): return o.clear()
                    for q in list(o.update()): o.remove(q)
                elif op in ("set", "bad", "once"):
                    ok = op != "once"
                    if cls == "TagIndex": return o.add(k, None if v is None or op != "bad" else 3, exists_ok=ok)
                    if cls == "MetaTagIndex": return o.add(k, v, exists_ok=ok)
                    return o.__setitem__(k, v, exists_ok=ok)
                elif op == "del": o.__delitem__(k)
                elif op == "get":
                    if cls in ("TagIndex", "MetaTagIndex"): return o.check(k)
                    return o.get(k)
            a, b = both(ctx, m, logs, do, hs, f"{op} ({i})")
            if op in ("get", "set", "del"): equal(ctx, a, b, f"{op} ({i}): debug mode changed the result")
        for x in listing(ctx, m, logs, [h[0][0], h[1][0]], "listing"):
            if cls in ("TagIndex", "MetaTagIndex"): continue
            a, b = both(ctx, m, logs, lambda o: o[x], [h[0][1], h[1][1]], "reading")
            equal(ctx, a, b, "debug mode changed a value")
        if cls == "MetaTagIndex":
            a, b = both(ctx, m, logs, lambda o: o.items(), [h[0][1], h[1][1]], "reading")
            ctx.check(len(a) == len(b), "items")
            for x, y in zip(a, b): equal(ctx, list(x), list(y), "debug mode changed metadata")
        same(ctx, w, pair)
        if "set" in ops: ctx.check(logs.lines > 0 or bool(kw.get("no_lockout")), "debug mode logs nothing"); ctx.cover("logged")
        both(ctx, m, logs, lambda o: o.close(), [h[0][0], h[1][0]], "closing")
        same(ctx, w, pair)
    finally: del m.open


def value(ctx, cls, i):
    if cls == "Notepad":
        v = ctx.str(f"v{i}", 1, 1, alphabet=["a", "{", "%", "\n", "\u00e9"])
        return [v, "p" * 40] if i == 1 else v
    if cls == "GridPaper": return npmodel.make(ctx, f"v{i}", (2,) if i == 1 else (1, 3), "|u1")
    if cls == "MetaTagIndex" and ctx.bool(f"has{i}"): return aval(ctx, f"v{i}")


def locks(ctx, ops):
    """two locks of one name, with and without debug"""
    w = world(ctx)
    m = ctx.mod("codex.implements")
    logs = Logs(ctx)
    m.open = logs.open
    try:
        pair = (w.name("pad"), w.name("dbg"))
        ls = [[m.SlidingLock(p, d) for _ in range(2)] for p, d in zip(pair, (False, True))]
        first = ctx.bytes("count", 5, 5)
        for p in pair: put(ctx, w, p + "_count", first)
        for i, (op, j) in enumerate(ops):
            hs = [x[j] for x in ls]
            if op == "in":
                spins = (0, 1, 6)[ctx.choice(f"spins{i}", 3)]
                at = 1 + ctx.choice(f"at{i}", 2) if spins == 6 else None
                def f(l):
                    l.max_spins, INTERRUPT[0] = spins, at
                    try: return l.__enter__() is l
                    finally: INTERRUPT[0] = None
            elif op == "out": f = lambda l: l.__exit__(None, None, None)
            else: f = lambda l: l.__exit__(Boom, Boom("x"), None)
            a, b = both(ctx, m, logs, f, hs, f"{op} {j} ({i})")
            ctx.check(bool(a) == bool(b), f"{op}: debug mode changed the result")
            for q in ("acquired", "number", "spins"): ctx.eq(getattr(hs[1], q), getattr(hs[0], q), f"{op}: debug mode changed the lock's state")
            same(ctx, w, pair)
        ctx.check(logs.lines > 0, "debug mode logs nothing")
        ctx.eq(w.read(pair[1] + "_count"), w.read(pair[0] + "_count"), "debug mode changed the count")
        ctx.cover("logged")
    finally: del m.open


def put(ctx, w, n, d):
    if ctx.symbolic: w.find(n).cells[:] = list(SymBytes.cells(d))
    else:
        with open("/dev/shm/" + n, "r+b") as f: f.write(d)


def cases(tier):
    import itertools
    out = []
    q = tier == "quick"
    for cls in ("Notepad", "GridPaper", "TagIndex", "MetaTagIndex"):
        for n in range(1, 4 if q else 5):
            for ops in itertools.product(("set", "once", "bad", "del", "get", "clear"), repeat=n):
                if n > 1 and ops[0] not in ("set",): continue
                if n > 2 and (ops.count("get") + ops.count("clear") + ops.count("bad") > 1 or "clear" in ops and ops[-1] != "set"): continue
                if n > 3 and len(set(ops)) < 3: continue
                for kw in ({}, {"no_lockout": True}):
                    if kw and n > 1: continue
                    out.append((f"{cls}-{'-'.join(ops)}{'-nolock' if kw else ''}", history, dict(cls=cls, ops=ops, kw=kw)))
    moves = [("in", 0), ("in", 1), ("out", 0), ("exc", 0), ("out", 1)]
    for n in range(1, 5 if q else 6):
        for ops in itertools.product(moves, repeat=n):
            if ops[0] != ("in", 0): continue
            out.append(("lock-" + "-".join(f"{a}{b}" for a, b in ops), locks, dict(ops=ops)))
    return out

from harness.lib import *
from harness.shm import *
from harness import shm, npmodel
from harness.C10 import Pad
BOUNDS = "all histories of at most 5 (thorough: 7) entries, normal exits, exits by exceptions of several kinds (interrupts included), timed out entries (after 0-2 waits), entries interrupted at the first or second wait and superfluous releases by two lock objects plus a fresh one, from every content of the shared counter block; every shared memory change made by adding and removing (present, absent and unstorable) keys, after every history of at most 3 (thorough: 4) operations with arbitrary one-character keys"
OUTSIDE = "a process killed inside the lock; interrupts between two statements rather than while waiting; histories where operations of several processes interleave (C04)"
ASSUMPTIONS = shm.ASSUMPTIONS


def fakes(symbolic):
    f = shm.fakes(symbolic)
    if symbolic: f["numpy"] = npmodel.module()
    return f


class Boom(Exception): pass


class Quiet(BaseException): pass


def lock(ctx, name, spins=0):
    l = ctx.mod("codex.implements").SlidingLock(name)
    l.max_spins = spins
    return l


def probe(ctx, name, held, msg):
    """would somebody else have to wait now?"""
    l = lock(ctx, name)
    _, ex = ctx.attempt(l.__enter__)
    if held: ctx.check(isinstance(ex, TimeoutError), msg + ": entered although the lock is held")
    else:
        ctx.check(ex is None, msg + f": had to wait for a free lock ({type(ex).__name__})")
        l.__exit__(None, None, None)


def counter(ctx, w):
    """any content of the block(s) that exist before first use"""
    names = w.names()
    for i, n in enumerate(names):
        size = len(w.read(n))
        d = ctx.bytes(f"count{i}", size, size)
        if ctx.symbolic: w.find(n).cells[:] = list(SymBytes.cells(d))
        else:
            with open("/dev/shm/" + n, "r+b") as f: f.write(d)


def history(ctx, ops, end):
    w = world(ctx)
    nm = w.name("lk")
    l = [lock(ctx, nm), lock(ctx, nm)]
    counter(ctx, w)
    holder = None
    for i, (op, j) in enumerate(ops):
        if op == "new": l[j] = lock(ctx, nm); continue
        if op == "in":
            if holder is None:
                l[j].max_spins = 0 if ctx.bool(f"nowait{i}") else None
                r = ctx.ok("entering a free lock", l[j].__enter__)
                ctx.check(SLEEPS[0] == 0, "waited for a free lock")
                holder = j
            else:
                how = ctx.choice(f"spins{i}", 5)
                SLEEPS[0] = 0
                if how < 3:
                    l[j].max_spins = how
                    ctx.raises(TimeoutError, l[j].__enter__, "entering a lock held by another")
                else:
                    l[j].max_spins, INTERRUPT[0] = 8, how - 2
                    try:
                        try: l[j].__enter__()
                        finally: INTERRUPT[0] = None
                    except (KeyboardInterrupt, TimeoutError): pass
                    else: ctx.check(False, "entering a lock held by another")
                SLEEPS[0] = 0
        elif op == "out": l[j].__exit__(None, None, None); holder = None
        elif op == "exc":
            E = (Boom, KeyboardInterrupt, GeneratorExit, Quiet)[ctx.choice(f"exc{i}", 4) if len(ops) < 4 else i % 4]
            ctx.check(not l[j].__exit__(E, E("x"), None), "an exception was swallowed")
            holder = None
        elif op == "rel": l[j].release()
    SLEEPS[0] = 0
    probe(ctx, nm, holder is not None, "afterwards")
    if holder is not None:
        l[holder].__exit__(None, None, None)
        probe(ctx, nm, False, "after leaving")
    if end == "with":
        def body():
            with lock(ctx, nm):
                probe(ctx, nm, True, "inside")
                raise Boom()
        ctx.raises(Boom, body, "an exception inside the locked section")
        probe(ctx, nm, False, "after an exception")
        l[0].close(); l[1].close()
        probe(ctx, nm, False, "after closing")


def sequences(n):
    """sensible histories: only a holder leaves, only a non-holder enters or is released superfluously"""
    def go(ops, holder, n):
        if n == 0: yield ops; return
        for j in (0, 1):
            if holder != j: yield from go(ops + (("in", j),), j if holder is None else holder, n - 1)
            if holder == j:
                yield from go(ops + (("out", j),), None, n - 1)
                yield from go(ops + (("exc", j),), None, n - 1)
            else:
                if not ops or ops[-1] != ("rel", j): yield from go(ops + (("rel", j),), holder, n - 1)
                if ops and ops[-1][0] not in ("new", "rel"): yield from go(ops + (("new", j),), holder, n - 1)
    seen = set()
    for s in go((), None, n):
        if s and s[0][1] == 1: continue         # symmetric
        if s and s[-1][0] == "new": continue
        yield s


# ------------------------------------------------------------------ indexes
def is_index(ix):
    pre = [ix.key_address("")] + ([ix.val_address("")] if hasattr(ix, "val_address") else [])
    h = ix.hash_address("x")
    c = SymStr.cells(h)
    n = 1 if isinstance(c[-1], Part) else 64
    pre.append("".join(map(chr, c[:-n])))
    def test(name):
        if bool(name == ix.name): return True
        return any(bool(name.startswith(p)) for p in pre)
    return test


def index_of(o): return getattr(o, "index", o)


def indexed(ctx, p, w):
    """the index blocks and what they contain"""
    t = is_index(index_of(p.h[0]))
    if ctx.symbolic: return [(n, list(b.cells)) for n, b in w.blocks if t(n)]
    return {n: w.read(n) for n in w.names() if t(n)}


def unchanged(ctx, p, w, before):
    if not ctx.symbolic: return indexed(ctx, p, w) == before
    now = indexed(ctx, p, w)
    if len(now) != len(before): return False
    for n, c in before:
        b = w.find(n)
        if b is None or len(b.cells) != len(c) or not bool(cells_eq(b.cells, c)): return False
    return True


def act(ctx, p, op, i):
    o = p.h[i % 2]
    if op == "bad":
        k = ctx.str("badkey", 0, 1, alphabet="/\0")
        ctx.attempt(p.put, o, k, p.value("bv"))
    else: p.op(o, op, i)


def inside(ctx, cls, pre, op):
    w = world(ctx)
    p = Pad(ctx, cls, w)
    for i, q in enumerate(pre): p.op(p.h[i % 2], q, i)
    nm = index_of(p.h[0]).name
    test = is_index(index_of(p.h[0]))
    seen = [0]
    def watch(what, name):
        if not test(name): return
        seen[0] += 1
        probe(ctx, nm, True, f"an index block is changed ({what}) outside its lock")
    w.hooks.append(watch)
    act(ctx, p, op, len(pre))
    w.hooks.clear()
    if op == "set": ctx.cover("changed" if seen[0] else "unchanged")
    probe(ctx, nm, False, "after the operation")


def held(ctx, cls, pre, op):
    w = world(ctx)
    p = Pad(ctx, cls, w)
    for i, q in enumerate(pre): p.op(p.h[i % 2], q, i)
    nm = index_of(p.h[0]).name
    other = lock(ctx, nm)
    other.__enter__()
    before = indexed(ctx, p, w)
    model = list(p.model)
    o = p.h[len(pre) % 2]
    k = akey(ctx, "k", 1)
    at = find(model, k)
    if op == "del" and cls in ("Notepad", "GridPaper"): ctx.assume(at is not None)
    v = p.value("v")
    def rm(): del o[k]
    _, ex = ctx.attempt(rm if op == "del" else lambda: p.put(o, k, v))
    ctx.check(ex is not None and type(ex).__name__ in ("Stuck", "TimeoutError"), "an index operation does not wait for its lock")
    ctx.check(unchanged(ctx, p, w, before), "an index block was changed while another held the lock")
    probe(ctx, nm, True, "the other's lock")
    other.__exit__(None, None, None)
    probe(ctx, nm, False, "after waiting in vain")
    SLEEPS[0] = 0
    if op == "set":
        ctx.ok("storing once the lock is free", p.put, o, k, v)
        ctx.check(index_of(o).check(k) is not None, "the key is not listed")


def cases(tier):
    import itertools
    out = []
    for n in range(0, 6 if tier == "quick" else 8):
        for s in sequences(n):
            nm = "-".join(f"{op}{j}" for op, j in s) or "fresh"
            out.append((f"lock-{nm}", history, dict(ops=s, end="with" if n < 3 else "")))
    for cls in ("Notepad", "GridPaper", "TagIndex", "MetaTagIndex"):
        for n in range(0, 4 if tier == "quick" else 5):
            for pre in itertools.product(("set", "del"), repeat=n):
                if pre and pre[0] != "set": continue
                for op in ("set", "del", "bad"):
                    out.append((f"{cls}-{'-'.join(pre)}-{op}", inside, dict(cls=cls, pre=pre, op=op)))
                    if op != "bad" and n < 2 and (n or op == "set" or "Tag" in cls): out.append((f"{cls}-held-{'-'.join(pre)}-{op}", held, dict(cls=cls, pre=pre, op=op)))
    return out

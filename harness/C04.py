import random
from harness.lib import *
from harness import shm, trace
from harness.shm import world
from harness.trace import *
from harness.trace import fakes
BOUNDS = "2 and 3 processes using one lock name, each acquiring it once or twice (again with the same or a fresh lock object, or after timing out), any interleaving of their individual shared memory operations and any value of the shared counter; in each process at most 0-1 (thorough: 1-2) waits and 1-2 (thorough: 1-3) failed creations in a row, as the case name says; with the counter existing beforehand or created by the competing processes"
OUTSIDE = "processes killed inside the lock; close() while others use the lock; re-entry by the holder; more waits: a wait changes nothing shared"
ASSUMPTIONS = shm.ASSUMPTIONS + ["single shared memory operations (open, create, unlink, reading and writing the 5-byte counter) are atomic", "waits and retries beyond the bounds do not add behaviours"]


def program(ctx, kind, l, fresh):
    """what one process does; `mark` announces being inside"""
    def run(mark):
        lk = l()
        def enter(lock, final):
            lock.__enter__()
            mark("inside" if final else "in")
        def leave(lock):
            mark("out")
            lock.__exit__(None, None, None)
        if kind == "once": enter(lk, True)
        elif kind == "again":
            enter(lk, False); leave(lk); enter(lk, True)
        elif kind == "anew":
            enter(lk, False); leave(lk); enter(fresh(), True)
        elif kind == "through":
            enter(lk, False); leave(lk)
        elif kind == "late":            # gives up, then tries again
            lk.max_spins = 0
            try: lk.__enter__()
            except TimeoutError: pass
            else:
                mark("in"); leave(lk)
                return
            lk.max_spins, lk.spins = None, 0
            enter(lk, True)
        elif kind == "giveup":
            lk.max_spins = 0
            try: lk.__enter__()
            except TimeoutError: return
            mark("in"); leave(lk)
    return run


def setup(ctx, n, built, nm):
    """-> how each process gets its first lock object, and further ones"""
    SL = ctx.mod("codex.implements").SlidingLock
    del trace.SETUP[:]
    fresh = lambda: SL(nm)
    if not built: return [fresh] * n, fresh
    if ctx.symbolic:
        fresh()
        return [lambda: trace.quietly(fresh)] * n, fresh
    ls = [fresh() for _ in range(n)]
    return [lambda l=l: l for l in ls], fresh


def exclusive(ctx, kinds, built, waits, retries, part, parts):
    (sym if ctx.symbolic else real)(ctx, kinds, built, waits, retries, part, parts)


def sym(ctx, kinds, built, waits, retries, part, parts):
    st = ctx.eng.stats
    ls, fresh = setup(ctx, len(kinds), built, "lk")
    ini = list(trace.SETUP)
    ps = [trace.paths(i, program(ctx, k, l, fresh), waits[i], st, retries[i]) for i, (k, l) in enumerate(zip(kinds, ls))]
    goal = {0, 1}
    for i in goal: ps[i] = [p for p in ps[i] if p.end == "inside"]
    for p in ps: ctx.check(len(p) > 0, "a process can never enter")
    V0 = z3.Int("count") if len(ini) == 1 else None
    combos = 0
    rest = ps[2] if len(ps) > 2 else [None]
    ctx.eng.trace_paths = [len(p) for p in ps]
    for a, p in enumerate(ps[0]):
        for b, q in enumerate(ps[1]):
            if kinds[0] == kinds[1] and waits[0] == waits[1] and retries[0] == retries[1] and b < a: continue
            combos += 1
            if combos % parts != part: continue
            for r in rest:
                ctx.eng._tick()
                qy = Query([p, q] + ([r] if r else []), ini, partial=(r,) if r else (), arbitrary=V0)
                if V0 is not None: qy.s.add(V0 >= 0, V0 < 256 ** ini[0].size)
                m = qy.solve(st)
                if m is not None:
                    found(ctx, qy, m, V0, ini)
                    ctx.check(False, "two processes are inside the lock at once")
    # a schedule that does exist, to be followed on the real code
    ctx.cover("combinations")
    rnd = random.Random(part)
    for _ in range(40):
        p, q = rnd.choice(ps[0]), rnd.choice(ps[1])
        qy = Query([p, q], ini, partial=(p, q), arbitrary=V0)
        if V0 is not None: qy.s.add(V0 >= 0, V0 < 256 ** ini[0].size)
        qy.s.add(p.evs[-1].T < qy.H)
        if len(q.evs) > 2: qy.s.add(q.evs[2].T < qy.H)
        m = qy.solve(st)
        if m is not None:
            found(ctx, qy, m, V0, ini)
            return


def found(ctx, qy, m, V0, ini):
    ctx._rec("order", qy.order(m))
    n = ini[0].size if ini else 0
    v = m.eval(V0, model_completion=True).as_long() if V0 is not None else 0
    ctx._rec("count", v.to_bytes(n, "little") if n else b"")


def real(ctx, kinds, built, waits, retries, part, parts):
    w = world(ctx)
    nm = w.name("lk")
    ls, fresh = setup(ctx, len(kinds), built, nm)
    c = ctx.data.get("count", b"")
    if c and built:
        for n in w.names():
            with open("/dev/shm/" + n, "r+b") as f: f.write(c)
    progs = [program(ctx, k, l, fresh) for k, l in zip(kinds, ls)]
    inside, pos = trace.replay(progs, ctx.data.get("order", []), {0, 1})
    if pos != len(ctx.data.get("order", [])): ctx.cover("schedule not followed")
    ctx.check(not {0, 1} <= inside, "two processes are inside the lock at once")


def cases(tier):
    out = []
    def add(built, parts, *procs):
        kinds, waits, retries = zip(*procs)
        nm = "-".join(f"{k}{w}{r}" for k, w, r in procs)
        for i in range(parts):
            out.append((f"{nm}-{'built' if built else 'fresh'}-{i}", exclusive,
                        dict(kinds=kinds, built=built, waits=waits, retries=retries, part=i, parts=parts)))
    o, og = ("once", 1, 1), ("once", 0, 1)
    for b in (True, False):
        add(b, 4, ("once", 1, 2), ("once", 1, 2))
        for k in ("again", "anew", "late"):
            add(b, 5, (k, 1 if b else 0, 1), o)
            add(b, 2 if b else 4, (k, 0, 1), (k, 0, 1))
        add(b, 3, ("again", 0, 1), ("late", 0, 1))
        for k in ("giveup", "through"):
            add(b, 12, o if b else og, o if b else og, (k, 0, 1))
    if tier == "quick": return out
    for b in (True, False):
        add(b, 16, ("once", 2, 3), ("once", 2, 3))
        for k in ("again", "anew", "late"):
            add(b, 16, (k, 1, 2), o)
            add(b, 16, (k, 1, 1), (k, 1, 1))
        add(b, 16, ("again", 1, 1), ("late", 1, 1))
        add(b, 16, ("anew", 1, 1), ("late", 1, 1))
        for k in ("giveup", "through"):
            add(b, 32, o, o, (k, 1, 2))
        add(b, 32, o, og, ("again", 0, 1))
        add(b, 32, og, ("late", 0, 1), ("through", 0, 1))
    return out

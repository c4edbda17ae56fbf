from harness.lib import *
from harness.shm import *
from harness import shm, npmodel
from harness.C10 import Pad
BOUNDS = "every pair of stores, overwrites, refused overwrites and deletions (and, for Notepads, reads) issued by two processes on one Notepad or GridPaper for different keys, one of them interrupted before any one of its individual shared memory operations while the other runs to completion, with 0-2 (thorough: 0-3) keys stored before, arbitrary one-character keys, equal to those stored before or not in every pattern, and arbitrary values"
OUTSIDE = "both processes using the same key; more than one switch between the processes; listing keys or reading a GridPaper while others write"
ASSUMPTIONS = shm.ASSUMPTIONS + ["the lock excludes (C04)"]


def fakes(symbolic):
    f = shm.fakes(symbolic)
    if symbolic: f["numpy"] = npmodel.module()
    return f


def race(ctx, cls, pre, ops):
    w = world(ctx)
    p = Pad(ctx, cls, w)
    for i in range(pre):
        p.op(p.h[i % 2], "set", i)
    ctx.distinct(*p.used)
    ks = [akey(ctx, n, 1) for n in "ab"]
    ctx.distinct(*ks)
    p.used += ks
    vs = [p.value(n + "v") for n in "ab"]
    before = list(p.model)
    ran, got = [], [None]
    at = ctx.choice("at", 70)

    def refused(f, msg):
        try: f()
        except KeyError: return
        ctx.check(False, msg)

    def go(i):
        o, op, k = p.h[i], ops[i], ks[i]
        here = find(before, k)
        try:
            if op == "set": p.put(o, k, vs[i])
            elif op == "new":
                if here is not None: refused(lambda: o.set(k, vs[i], exists_ok=False), "overwriting although disallowed"); return
                p.put(o, k, vs[i], exists_ok=False)
            elif op == "get":
                d = object()
                r = o.get(k, d)
                if here is None: ctx.check(r is d, "a missing key was found")
                else: p.equal(r, before[here][1])
                return
            else:
                def rm(): del o[k]
                if here is None: refused(rm, "deleting a missing key"); return
                rm()
        except Stuck:
            if i: ctx.assume(False)
            raise
        j = find(p.model, k)
        if op == "del": p.model.pop(j)
        elif j is None: p.model.append((k, vs[i]))
        else: p.model[j] = (k, vs[i])

    def other():
        SLEEPS[0] = 0
        go(1)
        ran.append(1)
    w.at, w.count, w.other = at, 0, other
    go(0)
    w.other = None
    ctx.assume(bool(ran))
    p.same()


def cases(tier):
    out = []
    for cls, ops in (("Notepad", ("set", "new", "del", "get")), ("GridPaper", ("set", "new", "del"))):
        for pre in range(0, 3 if tier == "quick" else 4):
            for a in ops:
                for b in ops:
                    if a == "get": continue
                    if not pre and {a, b} <= {"del", "get"}: continue
                    out.append((f"{cls}-{pre}-{a}-{b}", race, dict(cls=cls, pre=pre, ops=(a, b))))
    return out

from harness.lib import *
from harness.shm import *
from harness import shm
from harness.ixlib import consistent, jval, NOTHING
BOUNDS = "every pair of additions (with or without value, with or without permission to find the key present) and removals issued by two processes on one index holding 0-2 (thorough: 0-3) keys, one of them interrupted before any one of its individual shared memory operations while the other runs to completion, with arbitrary one-character keys, equal or different in every pattern, and arbitrary values"
OUTSIDE = "more than one switch between the processes (inside the lock nothing else can run, see C04), readers listing keys meanwhile, indexes created with no_lockout"
ASSUMPTIONS = shm.ASSUMPTIONS + ["the lock excludes (C04)"]


def perform(ix, op, k, v):
    try:
        if op == "add": ix.add(k)
        elif op == "addv": ix.add(k, v)
        elif op == "new": ix.add(k, exists_ok=False)
        else: ix.remove(k)
    except KeyError: return "KeyError"
    except FileExistsError: return "FileExistsError"
    return None


def expect(model, op, k, v):
    model = list(model)
    at = find(model, k)
    if op == "del":
        if at is None: return model, "KeyError"
        model.pop(at)
    elif op == "new" and at is not None: return model, "FileExistsError"
    else:
        if at is None: model.append((k, v if op == "addv" else NOTHING))
        elif op == "addv": model[at] = (k, v)
    return model, None


def matches(ctx, ix, model, meta):
    keys = list(ix.update())
    if len(keys) != len(model): return False
    its = list(ix.items()) if meta else [(k, None) for k in keys]
    for k, v in its:
        at = find(model, k)
        if at is None: return False
        if meta and not bool(deep_eq(v, None if model[at][1] is NOTHING else model[at][1])): return False
    return True


def race(ctx, cls, pre, ops):
    w = world(ctx)
    meta = cls == "MetaTagIndex"
    C = getattr(ctx.mod("codex.implements"), cls)
    p = w.name("ix")
    h = [C(p, create=True), C(p, create=False)]
    model = []
    for i in range(pre):
        k = akey(ctx, f"k{i}", 1)
        ctx.distinct(k, *[q for q, _ in model])
        has = meta and i != 1
        v = jval(ctx, f"v{i}") if has else NOTHING
        h[i % 2].add(k, v) if has else h[i % 2].add(k)
        model.append((k, v))
    ks = [akey(ctx, n, 1) for n in "ab"]
    vs = [jval(ctx, n + "v") for n in "ab"]
    got = [None, None]
    ran = []
    at = ctx.choice("at", 60)

    def other():
        # the first process has not got the lock now, or the second would wait until it is done
        SLEEPS[0] = 0
        try: got[1] = perform(h[1], ops[1], ks[1], vs[1])
        except Stuck: ctx.assume(False)
        ran.append(1)
    w.at, w.count, w.other = at, 0, other
    SLEEPS[0] = 0
    got[0] = ctx.ok("the interrupted operation", perform, h[0], ops[0], ks[0], vs[0])
    w.other = None
    ctx.assume(bool(ran))
    ctx.cover("interrupted")
    fits = []
    for order in ((0, 1), (1, 0)):
        m, r = model, [None, None]
        for i in order: m, r[i] = expect(m, ops[i], ks[i], vs[i])
        if r == got and matches(ctx, h[0], m, meta): fits.append(m)
    ctx.check(bool(fits), "the outcome is that of neither order")
    for ix in h: consistent(ctx, ix, fits[0], meta)


def cases(tier):
    out = []
    for cls, ops in (("TagIndex", ("add", "new", "del")), ("MetaTagIndex", ("add", "addv", "del"))):
        for pre in range(0, 3 if tier == "quick" else 4):
            for a in ops:
                for b in ops:
                    if not pre and a == b == "del": continue
                    out.append((f"{cls}-{pre}-{a}-{b}", race, dict(cls=cls, pre=pre, ops=(a, b))))
    return out

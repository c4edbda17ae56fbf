import atexit
from harness.lib import *
from harness.shm import *
from harness.C09 import opener, store, listed, npmodel
from harness import shm
from sx.loader import FakeModule
BOUNDS = ("all histories of at most 3 (thorough: 4) operations (store, delete, clear) with arbitrary one-character keys on a Notepad, GridPaper, TagIndex or MetaTagIndex (with and without locks), or one or two of stick, note, pull on a Sticky, or a Sticky that only reads what somebody else may have stuck and pulled, "
          "made with or without cleanup on exit, closed by hand or not and then made anew with or without it, beside another object made without; then the exit callbacks in the interpreter's order")
OUTSIDE = "exits that run no exit callbacks; several handles of one object asking for cleanup; objects closed through another handle; FakeIndex (documented as unable to clean up)"
ASSUMPTIONS = shm.ASSUMPTIONS + ["exit callbacks run last registered first, as documented for atexit"]
CALLS = []


def register(f, *a, **k):
    CALLS.append((f, a, k))
    return f


def unregister(f): CALLS[:] = [c for c in CALLS if not (c[0] == f)]


def leave(ctx):
    """what the interpreter does at exit"""
    n = 0
    while CALLS:
        f, a, k = CALLS.pop()
        ctx.ok("exit callback", f, *a, **k)
        n += 1
        ctx.check(n < 20, "exit callbacks without end")


def fakes(symbolic):
    f = shm.fakes(symbolic)
    f["atexit"] = FakeModule("atexit", atexit, {"register": register, "unregister": unregister})
    if symbolic: f["numpy"] = npmodel.module()
    return f


def other(ctx, cls, w):
    """an object that did not ask for cleanup, and what it holds"""
    o = opener(ctx, cls, w.name("else"))
    store(ctx, o[0], cls, akey(ctx, "ko", 1), 7)


def held(w, stem):
    p = w.name(stem)
    return [n for n in w.names() if bool(n[:len(p)] == p)]


def steps(ctx, cls, h, ops, tag):
    live = []
    for i, op in enumerate(ops):
        o = h[i % 2]
        if op == "clear":
            if hasattr(o, "clear"): o.clear()
            else:
                for k in list(o.update()): o.remove(k)
            live = []
            continue
        k = akey(ctx, f"k{tag}{i}", 1)
        at = find(live, k)
        if op == "set":
            store(ctx, o, cls, k, i if tag == "a" else 20 + i)
            if at is None: live.append((k, 0))
        elif at is None: ctx.assume(False)
        else:
            del o[k]
            live.pop(at)
    return live


def history(ctx, cls, ops, ask, by_hand, again, kw):
    del CALLS[:]
    w = world(ctx)
    other(ctx, cls, w)
    mine = lambda: len(held(w, "pad"))
    theirs = {n: None for n in held(w, "else")}
    C = getattr(ctx.mod("codex.implements"), cls)
    p = w.name("pad")
    h = [C(p, create=True, cleanup_on_exit=ask, **kw), C(p, create=False, **kw)]
    live = steps(ctx, cls, h, ops, "a")
    if by_hand:
        h[0].close()
        ctx.check(mine() == 0, "closing left blocks behind")
        if again is not None:
            ask = again
            h2 = [C(p, create=True, cleanup_on_exit=again, **kw), C(p, create=False, **kw)]
            live = steps(ctx, cls, h2, ("set",), "b")
            h = h2
        else: ask, live, h = True, [], []
    before = w.snapshot()
    leave(ctx)
    if ask: ctx.check(mine() == 0, "an object made with cleanup on exit left blocks behind")
    else: ctx.check(w.same(before), "exit changed objects made without cleanup")
    ctx.check(len(held(w, "else")) == len(theirs), "exit removed blocks of another object")
    o = C(w.name("else"), create=False)
    ctx.check(len(listed(o)) == 1, "exit changed another object")
    if not ask:
        ctx.check(len(listed(h[1])) == len(live), "exit changed the keys of an object made without cleanup")


def sticky(ctx, ask, how, again):
    del CALLS[:]
    w = world(ctx)
    S = ctx.mod("codex.implements").Sticky
    a, b = w.name("st"), w.name("else")
    v, u, x = aval(ctx, "v"), aval(ctx, "u"), aval(ctx, "x")
    S.note(x, b)
    if how == "read":
        # made to read a note that somebody else stuck, or none at all
        if ctx.bool("stuck"): S.note(v, a)
        s = S(a, cleanup_on_exit=ask)
        if ctx.bool("read"): s.read()
        if ctx.bool("pulled by its maker") and w.read(a) is not None: S(a).pull()
        left = w.read(a) is not None
        leave(ctx)
        ctx.check((w.read(a) is not None) == (left and not ask), "exit must remove exactly the notes that asked for it")
        ctx.eq(S(b).read(), x, "exit removed or changed another note")
        return
    if how == "note": s = S.note(v, a, cleanup_on_exit=ask)
    else:
        s = S(a, cleanup_on_exit=ask)
        s.stick(v)
    gone = False
    if again is not None:
        s.pull() if again[0] == "pull" else s.close()
        ctx.check(w.read(a) is None, "a pulled note is still there")
        gone = True
        if again[1] == "same":
            s.stick(u); gone, v = False, u
        elif again[1] is not None:
            S.note(u, a, cleanup_on_exit=again[1]); gone, ask, v = False, again[1], u
    leave(ctx)
    if ask or gone: ctx.check(w.read(a) is None, "a note made with cleanup on exit was left behind")
    else: ctx.eq(S(a).read(), v, "exit removed or changed a note made without cleanup")
    ctx.eq(S(b).read(), x, "exit removed or changed another note")


def cases(tier):
    import itertools
    out = []
    for cls in ("Notepad", "GridPaper", "TagIndex", "MetaTagIndex"):
        for n in range(0, 4 if tier == "quick" else 5):
            for ops in itertools.product(("set", "del", "clear"), repeat=n):
                if n and ops[0] != "set": continue
                if "clear" in ops and ops[-1] == "del" and ops[-2:] != ("set", "del"): continue
                if ops.count("clear") > 1 or any(ops[:i].count("del") > ops[:i].count("set") for i in range(n + 1)): continue
                for kw in ({}, {"no_lockout": True}):
                    if kw and n > 1: continue
                    for ask, hand, again in ((True, False, None), (False, False, None), (True, True, None), (True, True, False), (True, True, True), (False, True, True)):
                        if n > 1 and (again is not None): continue
                        if n > 2 and hand: continue
                        nm = f"{cls}-{'-'.join(ops) or 'unused'}{'-nolock' if kw else ''}-{'ask' if ask else 'not'}{'-closed' if hand else ''}{'' if again is None else '-again' + str(int(again))}"
                        out.append((nm, history, dict(cls=cls, ops=ops, ask=ask, by_hand=hand, again=again, kw=kw)))
    for ask in (True, False): out.append((f"Sticky-read-{ask}", sticky, dict(ask=ask, how="read", again=None)))
    for how in ("note", "stick"):
        for ask in (True, False):
            for again in (None, ("pull", None), ("close", None), ("pull", False), ("pull", True), ("close", False), ("pull", "same")):
                out.append((f"Sticky-{how}-{'ask' if ask else 'not'}-{'kept' if again is None else again[0] + str(again[1])}", sticky, dict(ask=ask, how=how, again=again)))
    return out

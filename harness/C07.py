from harness.lib import *
from harness.shm import *
from harness import shm, npmodel
from harness.npmodel import make, equal
BOUNDS = "all histories of at most 3 (thorough: 4) operations (store, store without overwriting, delete, clear) on GridPapers through two handles with arbitrary one-character keys (also of the basic plane, and after 100 other characters), over arrays of 0 to 4 elements with 0 to 2 dimensions, several dtypes and memory orders and arbitrary elements; read through three handles, as copies and views"
OUTSIDE = "structured and object dtypes; views of overwritten arrays; larger arrays (elements are only moved, never inspected)"
ASSUMPTIONS = shm.ASSUMPTIONS + ["numpy's ndarray constructor, whole-array assignment and copy behave as modelled (validated by replaying sampled paths on numpy)"]
KINDS = [((2,), "<i2", "C"), ((), "<f8", "C"), ((0,), "<f4", "C"), ((2, 2), "|u1", "F"), ((1,), "<i2", "C"), ((1, 2), ">i2", "C"), ((2, 0), "|b1", "C"), ((3,), "|b1", "C"), ((4,), "|u1", "C")]


def fakes(symbolic):
    f = shm.fakes(symbolic)
    if symbolic: f["numpy"] = npmodel.module()
    return f


def history(ctx, ops, kinds, keys="ascii"):
    w = world(ctx, keys)
    G = ctx.mod("codex.implements").GridPaper
    p = w.name("grid")
    h = [G(p, create=True), G(p)]
    live, used, handed = [], [], []
    for i, op in enumerate(ops):
        hd = h[i % 2]
        if op == "clear":
            hd.clear(); live = []
            continue
        k = akey(ctx, f"k{i}", 1)
        used.append(k)
        at = find(live, k)
        if op in ("set", "new"):
            sh, dt, order = KINDS[ctx.choice(f"kind{i}", len(KINDS))] if i >= len(ops) - kinds else KINDS[i]
            v = make(ctx, f"v{i}", sh, dt, order)
            keep = v.copy()
            if op == "new" and at is not None:
                ctx.raises(KeyError, hd.__setitem__, "overwriting although disallowed", k, v, exists_ok=False)
            else:
                if op == "new": hd.set(k, v, exists_ok=False)
                elif i == 1: hd.__setitem__(k, v, keep_open=True)
                else: hd[k] = v
                if at is None: live.append((k, keep))
                else: live[at] = (k, keep)
                # copies handed out now must never change
                handed.append((h[0][k], keep)); handed.append((h[1].get(k, copy=True), keep))
            ctx.check(equal(v, keep), "the stored array itself was changed")
        elif op == "del":
            def rm(): del hd[k]
            if at is None: ctx.raises(KeyError, rm, "deleting a missing key")
            else: rm(); live.pop(at)
    h.append(G(p))
    used.append(akey(ctx, "other", 1))
    for hd in h:
        for k in used:
            at, d = find(live, k), object()
            if at is None:
                ctx.raises(KeyError, hd.__getitem__, "missing key", k)
                ctx.check(hd.get(k, d) is d, "default of a missing key")
                ctx.check(hd.get(k, d, copy=True) is d, "default of a missing key")
            else:
                ctx.check(equal(hd[k], live[at][1]), "array read")
                ctx.check(equal(hd.get(k), live[at][1]), "view read")
                ctx.check(equal(hd.get(k, d, copy=True), live[at][1]), "copy read")
        ks = [(k, None) for k in hd.keys()]
        ctx.check(len(ks) == len(live) and all(find(ks, k) is not None for k, _ in live), "keys listed")
        its = list(hd.iteritems())
        ctx.check(len(its) == len(live), "number of items")
        for k, v in its:
            ctx.check(equal(v, live[find(live, k)][1]), "item")
    for got, want in handed: ctx.check(equal(got, want), "a copy handed out earlier changed")


def cases(tier):
    import itertools
    out = []
    for n in range(1, 4 if tier == "quick" else 5):
        for ops in itertools.product(("set", "new", "del", "clear"), repeat=n):
            if n > 1 and ops[0] in ("del", "clear"): continue
            out.append(("-".join(ops), history, dict(ops=ops, kinds=2 if n < (3 if tier == 'quick' else 4) else 1)))
    for keys in ("wide", 100):
        for ops in (("set",), ("set", "set"), ("set", "del"), ("set", "new")):
            out.append((f"{'-'.join(ops)}-{keys}", history, dict(ops=ops, kinds=0, keys=keys)))
    return out

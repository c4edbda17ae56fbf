from functools import partial
from harness.klib import *
BOUNDS = "all pipelines of 1 or 2 steps whose steps are partial objects with 0..3 baked positional and 0..2 baked keyword arguments of arbitrary value, with any gap-free inserts over positions 0..3 and three names; also partials of partials and objects that merely look like partials"
OUTSIDE = "positions that leave a gap; more baked arguments"


class Like:
    """partially applied function that is not a functools.partial"""
    def __init__(self, func, args, keywords):
        self.func, self.args, self.keywords = func, args, keywords

    def __call__(self, *a, **k): return self.func(*self.args, *a, **{**self.keywords, **k})


def run(ctx, baked, sets, kind, second):
    w = World(ctx)
    C = ctx.mod("composition").Composition
    nb, kb = baked
    bargs = [ctx.value(f"b{i}") for i in range(nb)]
    bkw = {k: ctx.value(f"bk.{k}") for k in kb}
    slots = sets[ctx.choice("slots", len(sets))]
    if not nogap(set(range(nb)) | {s for s in slots if isinstance(s, int)}): ctx.assume(False)
    ins = make_insert(ctx, slots, "")
    base = w.step("s0")
    if kind == "partial": step = partial(base, *bargs, **bkw)
    elif kind == "nested": step = partial(partial(base, *bargs[:1], **bkw), *bargs[1:], **({"beta": bkw["beta"]} if "beta" in bkw else {}))
    else: step = Like(base, tuple(bargs), dict(bkw))
    pos = dict(enumerate(bargs)); ipos, ikw = split(ins); pos.update(ipos)
    kw = {**bkw, **ikw}
    sig = ctx.value("signal")
    args = arrange(sig, pos)
    want_call = ("s0", [args, [[q, kw[q]] for q in sorted(kw)]])
    out = w.out("s0", args, kw)
    n0, n1 = ctx.key("n0"), ctx.key("n1")
    ctx.distinct(n0, n1)
    steps, calls = {n0: step}, [want_call]
    if second:
        b2 = ctx.value("c0")
        steps[n1] = partial(w.step("s1"), b2, alpha=out)
        calls.append(("s1", [[b2, out], [["alpha", out]]]))
        last = w.out("s1", [b2, out], {"alpha": out})
    else: last = out
    pipe = C(steps, inserts={n0: ins}) if slots else C(steps)
    for r in (1, 2):
        w.log.clear()
        ctx.eq(pipe.execute(sig), last, f"result, run {r}")
        ctx.eq(list(w.log), calls, f"call, run {r}")
    ctx.check(type(step.args) is tuple and len(step.args) == nb, "baked arguments changed")
    ctx.eq(list(step.args), bargs, "baked arguments changed")
    ctx.eq(sorted(step.keywords), sorted(bkw), "baked names changed")
    for k in bkw: ctx.eq(step.keywords[k], bkw[k], "baked keyword value changed")
    ctx.eq(list(ins.items()), [(s, ins[s]) for s in slots], "inserts changed")
    # same as a plain function with equivalent inserts
    w.log.clear()
    eq = C({n0: base}, inserts={n0: {**pos, **kw}})
    ctx.eq(eq.execute(sig), out, "differs from the plain function with equivalent inserts")
    ctx.eq(list(w.log), calls[:1], "differs from the plain function with equivalent inserts")
    ctx.cover(f"baked{nb}")


def cases(tier):
    every = insert_sets(3, ("alpha", "beta", "gamma"))
    import itertools
    allsets = [ps + ks for r in range(5) for ps in itertools.combinations(range(4), r) for q in (0, 1, 2) for ks in itertools.combinations(("alpha", "beta", "gamma"), q)]
    out = []
    for nb in range(0, 4):
        for kb in ((), ("alpha",), ("alpha", "beta")):
            ok = [s for s in allsets if nogap(set(range(nb)) | {p for p in s if isinstance(p, int)})]
            out.append((f"partial-{nb}-{len(kb)}", run, dict(baked=(nb, kb), sets=ok, kind="partial", second=False)))
            out.append((f"like-{nb}-{len(kb)}", run, dict(baked=(nb, kb), sets=ok[:24], kind="like", second=False)))
            out.append((f"second-{nb}-{len(kb)}", run, dict(baked=(nb, kb), sets=ok[:12], kind="partial", second=True)))
            if nb > 1: out.append((f"nested-{nb}-{len(kb)}", run, dict(baked=(nb, kb), sets=ok[:24], kind="nested", second=False)))
    return out

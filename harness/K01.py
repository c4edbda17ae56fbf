from harness.klib import *
BOUNDS = "all pipelines of at most 3 (thorough: 4) uninterpreted steps under arbitrary distinct names (or positions), each with any gap-free set of inserts over positions 0..3 and two names, arbitrary insert values and signal; executed, iterated and executed again; 12 inserts with the signal in any slot; 12 steps"
OUTSIDE = "insert positions that leave a gap no call could fill; special runtime keyword hooks of subclasses"


def pipeline(ctx, n, groups, names, shape):
    w = World(ctx)
    C = ctx.mod("composition").Composition
    if names == "sym":
        ks = [ctx.key(f"n{i}") for i in range(n)]
        ctx.distinct(*ks)
    else: ks = list(range(n))
    slots = [g[ctx.choice(f"slots{i}", len(g))] for i, g in enumerate(groups)]
    fns = [w.step(f"s{i}") for i in range(n)]
    ins = {k: make_insert(ctx, s, f"{i}.") for i, (k, s) in enumerate(zip(ks, slots)) if s or shape != "sparse"}
    # an insert under an arbitrary further name belongs to the step of that name or to none
    if names == "sym" and shape == "extra":
        x = ctx.key("extra"); xi = {0: ctx.value("xv"), "alpha": ctx.value("xw")}
        for k in list(ins):
            if bool(k == x): del ins[k]
        ins[x] = xi
    steps = dict(zip(ks, fns)) if names == "sym" else (list(fns) if n % 2 else tuple(fns))
    insarg = ins if names == "sym" else [ins.get(k, {}) for k in ks]
    pipe = C(steps, inserts=insarg) if ins or shape != "sparse" else C(steps)
    before = [[k, list(v.items())] for k, v in pipe.inserts.items()]
    sig = ctx.value("signal")
    # oracle
    outs, calls, state = [], [], sig
    for i, k in enumerate(ks):
        mine = [v for q, v in ins.items() if bool(q == k)]
        pos, kw = split(mine[0]) if mine else ({}, {})
        args = arrange(state, pos)
        calls.append((f"s{i}", [args, [[q, kw[q]] for q in sorted(kw)]]))
        state = w.out(f"s{i}", args, kw)
        outs.append(state)
    for run in ("execute", "again", "call"):
        w.log.clear()
        got = pipe(sig) if run == "call" else pipe.execute(sig)
        ctx.eq(got, outs[-1], f"{run}: result is not the last output")
        ctx.eq(list(w.log), calls, f"{run}: wrong calls")
    w.log.clear()
    ctx.eq(list(pipe.itercall(sig)), outs, "iteration must yield the successive outputs")
    ctx.eq(list(w.log), calls, "iteration: wrong calls")
    ctx.eq([[k, list(v.items())] for k, v in pipe.inserts.items()], before, "inserts changed by execution")
    ctx.eq(list(pipe.index), ks, "step names changed")
    ctx.check(list(pipe.steps.values()) == fns, "steps changed")
    # partial iteration performs exactly the steps asked for
    if n > 1:
        w.log.clear()
        it = pipe.itercall(sig)
        ctx.eq(next(it), outs[0], "first output")
        ctx.eq(list(w.log), calls[:1], "iteration is lazy")


def wide(ctx, hole):
    """inserts at 12 positions with the signal anywhere among them"""
    w = World(ctx)
    C = ctx.mod("composition").Composition
    vals = {i: ctx.value(f"p{i}") for i in range(13) if i != hole}
    order = list(vals)
    if ctx.bool("reversed"): order.reverse()
    pipe = C([w.step("s0")], inserts={0: {i: vals[i] for i in order}})
    sig = ctx.value("signal")
    want = [sig if i == hole else vals[i] for i in range(13)]
    ctx.eq(pipe.execute(sig), w.out("s0", want, {}), "result")
    ctx.eq(list(w.log), [("s0", [want, []])], "inserts at the wrong slots")
    # as many steps, called in order
    w.log.clear()
    n = 12
    pipe = C([w.step(f"s{i}") for i in range(n)])
    pipe.execute(sig)
    ctx.check([t for t, _ in w.log] == [f"s{i}" for i in range(n)], "steps out of order")


def trivial(ctx):
    C = ctx.mod("composition").Composition
    s = ctx.value("s")
    ctx.eq(C().execute(s), s, "the default pipeline passes its signal through")
    ctx.check(C().execute() is None, "default signal")
    ctx.check(C([]).execute(s) is None, "a pipeline without steps has no output")
    ctx.check(list(C([]).itercall(s)) == [], "a pipeline without steps yields nothing")


def cases(tier):
    every = insert_sets()
    few = [(), (0,), (1,), (0, 1), (0, 1, 2), (0, 2), (1, 2), ("alpha",), (0, "alpha"), (1, "beta")]
    tiny = [(), (0,), (1, "alpha")]
    out = [("trivial", trivial, {})] + [(f"wide-{h}", wide, dict(hole=h)) for h in (0, 1, 5, 9, 10, 12)]
    for nm in ("sym", "pos"):
        for j, g in enumerate(chunks(every, 4)):
            out.append((f"one-{nm}-{j}", pipeline, dict(n=1, groups=[g], names=nm, shape="full")))
        for j, g in enumerate(chunks(few, 5)):
            out.append((f"two-{nm}-{j}", pipeline, dict(n=2, groups=[g, every], names=nm, shape="full")))
        for j, g in enumerate(tiny):
            out.append((f"three-{nm}-{j}", pipeline, dict(n=3, groups=[[g], few, few], names=nm, shape="full")))
        out.append((f"sparse-{nm}", pipeline, dict(n=2, groups=[tiny, tiny], names=nm, shape="sparse")))
        if tier != "quick":
            for j, g in enumerate(few): out.append((f"four-{nm}-{j}", pipeline, dict(n=4, groups=[[g], tiny, few, tiny], names=nm, shape="full")))
    out.append(("extra-1", pipeline, dict(n=1, groups=[tiny], names="sym", shape="extra")))
    out.append(("extra-2", pipeline, dict(n=2, groups=[tiny, tiny], names="sym", shape="extra")))
    return out

from harness.klib import *
import io
BOUNDS = "all pipelines of 2 (thorough: 3) uninterpreted steps under arbitrary text/number names with up to 2 (thorough: 3) sends attached to arbitrary names (existing or not), each with or without a pipe and any target kind: list append, list slot, mapping entry under an arbitrary key, stream, argument of an arbitrarily named step, nowhere; executed twice with a step added in between; captures on every step"
OUTSIDE = "targets of other types; insert slots that leave a gap; pointer None for a mapping target is an ordinary key"

KINDS = ("append", "slot", "dict", "stream", "insert", "nowhere")


class Stream:
    def __init__(self, log): self.log = log
    def write(self, x): self.log.append(("write", x))


class LogList(list):
    pass


def name_of(ctx, nm):
    k = ctx.key(nm)
    if ctx.symbolic: ctx.assume(k.isinst((str, int)))
    else: ctx.assume(isinstance(k, (str, int)))
    return k


def run(ctx, kinds, piped, nsteps, ctor):
    w = World(ctx)
    C = ctx.mod("composition").Composition
    ks = [name_of(ctx, f"n{i}") for i in range(nsteps + 1)]     # the last one is added later
    ctx.distinct(*ks)
    fns = [w.step(f"s{i}") for i in range(nsteps + 1)]
    steps = dict(zip(ks[:nsteps], fns))
    sends = []
    for j, (kind, pp) in enumerate(zip(kinds, piped)):
        src = ks[ctx.choice(f"src{j}", nsteps + 1)]
        pipe = w.step(f"pipe{j}") if pp else None
        ptr = None
        if kind == "append": tgt = LogList([ctx.value(f"t{j}.0")] if ctx.bool(f"t{j}.nonempty") else [])
        elif kind == "slot": tgt, ptr = LogList([ctx.value(f"t{j}.0"), ctx.value(f"t{j}.1")]), ctx.choice(f"ptr{j}", 2)
        elif kind == "dict": tgt, ptr = {}, ctx.key(f"ptr{j}")
        elif kind == "stream": tgt = Stream(w.log)
        elif kind == "insert":
            tgt = ks[ctx.choice(f"tgt{j}", nsteps + 1)]
            ptr = (0, 1, "alpha")[ctx.choice(f"ptr{j}", 3)]
        else: tgt = None
        sends.append((src, pipe, tgt, ptr, kind, f"pipe{j}"))
    if ctor:
        byname = {}
        for s in sends: byname.setdefault(s[0], []).append((s[1], s[2], s[3]))
        pipe = C(steps, sends=byname)
    else:
        pipe = C(steps)
        for s in sends: ctx.ok("adding a send", pipe.add_send, s[0], pipe=s[1], target=s[2], pointer=s[3])
    # model
    lists = {i: list(s[2]) for i, s in enumerate(sends) if s[4] in ("append", "slot")}
    dicts = {i: [] for i, s in enumerate(sends) if s[4] == "dict"}
    inserts = []                      # [step index, {slot: value}]
    ins = {i: {} for i in range(nsteps + 1)}

    def index(k): return next(i for i, x in enumerate(ks) if x is k)

    def simulate(live, sig):
        log, state = [], sig
        for i in range(live):
            pos, kw = split(ins[i])
            if not nogap(pos): ctx.assume(False)
            args = arrange(state, pos)
            log.append((f"s{i}", [args, [[q, kw[q]] for q in sorted(kw)]]))
            state = w.out(f"s{i}", args, kw)
            for j, (src, pp, tgt, ptr, kind, tag) in enumerate(sends):
                if src is not ks[i]: continue
                thing = state
                if pp is not None:
                    log.append((tag, [[state], []])); thing = w.out(tag, [state], {})
                if kind == "append": lists[j].append(thing)
                elif kind == "slot": lists[j][ptr] = thing
                elif kind == "dict": dicts[j] = [[ptr, thing]]
                elif kind == "stream": log.append(("write", thing))
                elif kind == "insert": ins[index(tgt)][ptr] = thing
        return log, state

    for run_ in range(2):
        live = nsteps if run_ == 0 else nsteps + 1
        if run_ == 1: pipe.add_step(fns[nsteps], ks[nsteps])
        sig = ctx.value(f"signal{run_}")
        log, last = simulate(live, sig)
        w.log.clear()
        ctx.eq(pipe.execute(sig), last, f"run {run_}: sends must not alter the signal")
        ctx.eq(list(w.log), log, f"run {run_}: calls, deliveries or their order")
        for j, s in enumerate(sends):
            if s[4] in ("append", "slot"): ctx.eq(list(s[2]), lists[j], f"run {run_}: list target")
            if s[4] == "dict": ctx.eq([[k, v] for k, v in s[2].items()], dicts[j], f"run {run_}: mapping target")
    for i, k in enumerate(ks):
        mine = [v for q, v in pipe.inserts.items() if bool(q == k)]
        got = dict(mine[0]) if mine else {}
        ctx.eq(sorted([str(x), x, got[x]] for x in got) if False else sorted(map(str, got)), sorted(map(str, ins[i])), "inserted arguments")
        for x in got: ctx.eq(got[x], ins[i][x], "inserted value")


def captures(ctx, nsteps, how):
    w = World(ctx)
    C = ctx.mod("composition").Composition
    ks = [ctx.key(f"n{i}") for i in range(nsteps)]
    ctx.distinct(*ks)
    pipe = C({k: w.step(f"s{i}") for i, k in enumerate(ks)})
    mine = []
    if how == "all": pipe.add_captures()
    else:
        t = mine = [ctx.value("old")]
        pipe.add_capture(ks[0], t)
    for r in range(2):
        sig = ctx.value(f"sig{r}")
        outs = list(pipe.itercall(sig)) if r else None
        if r == 0: pipe.execute(sig)
        state = sig
        for i, k in enumerate(ks):
            state = w.out(f"s{i}", [state], {})
            if how == "all":
                cap = [v for q, v in pipe.captures.items() if bool(q == k)]
                ctx.check(len(cap) == 1, "one capture per step")
                ctx.check(len(cap[0]) == 1, "a capture holds one output")
                ctx.eq(cap[0][0], state, "capture must hold the last output of its step")
            elif i == 0:
                ctx.eq(list(mine), [state], "capture target")
        if outs: ctx.eq(outs[-1], state, "captures must not alter the signal")


def inserts_api(ctx):
    """inserts added one by one, for steps that exist now or later"""
    w = World(ctx)
    C = ctx.mod("composition").Composition
    a, b = name_of(ctx, "a"), name_of(ctx, "b")
    ctx.distinct(a, b)
    pipe = C({a: w.step("s0")})
    x, y, z = ctx.value("x"), ctx.value("y"), ctx.value("z")
    pipe.add_insert(b, 0, x)
    pipe.add_insert(b, "alpha", y)
    s = ctx.value("s")
    ctx.eq(pipe.execute(s), w.out("s0", [s], {}), "an insert on a missing step must do nothing")
    pipe.add_step(w.step("s1"), b)
    ctx.eq(pipe.execute(s), w.out("s1", [x, w.out("s0", [s], {})], {"alpha": y}), "inserts apply once the step exists")
    pipe.add_insert(b, 0, z)
    pipe.add_insert(a, "beta", x)
    ctx.eq(pipe.execute(s), w.out("s1", [z, w.out("s0", [s], {"beta": x})], {"alpha": y}), "a later insert replaces an earlier one")
    ctx.raises(ValueError, pipe.add_send, "a send needs a pipe or a target", a)


def cases(tier):
    import itertools
    out = [("inserts", inserts_api, {})]
    for how in ("all", "one"):
        for n in (1, 2, 3): out.append((f"captures-{how}-{n}", captures, dict(nsteps=n, how=how)))
    n = 2
    for k in KINDS:
        for p in (False, True):
            if k == "nowhere" and not p: continue
            for ctor in (False, True):
                out.append((f"one-{k}-{p}-{ctor}", run, dict(kinds=(k,), piped=(p,), nsteps=n, ctor=ctor)))
    for ks in itertools.product(KINDS, repeat=2):
        for ps in ((False, False), (True, True)):
            ps = tuple(p or k == "nowhere" for p, k in zip(ps, ks))
            nm = f"two-{'-'.join(ks)}-{ps}"
            if any(o[0] == nm for o in out): continue
            out.append((nm, run, dict(kinds=ks, piped=ps, nsteps=n, ctor=False)))
    if tier != "quick":
        for ks in itertools.product(("append", "dict", "insert", "stream"), repeat=3):
            out.append((f"three-{'-'.join(ks)}", run, dict(kinds=ks, piped=(False, True, False), nsteps=2, ctor=False)))
        for ks in itertools.product(("append", "insert"), repeat=2):
            out.append((f"steps3-{'-'.join(ks)}", run, dict(kinds=ks, piped=(False, True), nsteps=3, ctor=False)))
    return out

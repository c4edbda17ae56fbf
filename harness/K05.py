from harness.klib import *
from pathlib import Path
BOUNDS = "all histories of at most 4 (thorough: 5) operations out of adding a step under an arbitrary name, adding one without a name, turning tracking on and executing, on pipelines of 1 or 2 initial steps, tracked from the start or not, with arbitrary names"
OUTSIDE = "reindexing; editing the step mapping directly; removing steps; failing steps (see K04)"


def history(ctx, ops, n0, tracked, ints):
    w = World(ctx)
    co = ctx.mod("composition")
    T = ctx.mod("tracker").Tracker
    tmp = Path(ctx.tmpdir())
    co.Tracker = lambda *a, **k: T(*a, **{**k, "outdir": tmp})
    name = (lambda nm: ctx.choice(nm, 5)) if ints else ctx.key
    ks = list(range(n0)) if ints == "list" else [name(f"n{i}") for i in range(n0)]
    ctx.distinct(*ks)
    fns = [w.step(f"s{i}") for i in range(n0)]
    tr = T("given", outdir=tmp) if tracked else None
    pipe = co.Composition(list(fns) if ints == "list" else dict(zip(ks, fns)), tracker=tr)
    model = [[k, f"s{i}"] for i, k in enumerate(ks)]
    cnt, seen, execs = [n0], 0, 0
    for j, op in enumerate(ops):
        if op in ("add", "anon"):
            tag = f"s{cnt[0]}"; cnt[0] += 1
            if op == "add":
                k = name(f"add{j}")
                if not ints: ctx.assume(notnone(k))
                pipe.add_step(w.step(tag), k)
            else:
                k = len(model) + 1
                pipe.add_step(w.step(tag))
            for row in model:
                if bool(eq_(row[0], k)):
                    row[1] = tag; ctx.cover("replaced"); break
            else: model.append([k, tag])
        elif op == "track":
            pipe.track()
            tracked = True
        else:
            sig = ctx.value(f"sig{j}")
            w.log.clear()
            state, calls = sig, []
            for k, tag in model:
                calls.append((tag, [[state], []])); state = w.out(tag, [state], {})
            ctx.eq(pipe.execute(sig), state, "result after edits")
            ctx.eq(list(w.log), calls, "executed steps after edits")
            execs += 1
        ctx.eq(list(pipe.index), [r[0] for r in model], "index must list the step names in execution order")
        if tracked:
            hist = pipe.tracker.history
            new = hist[seen:]
            if op == "run":
                ctx.cover("tracked run")
                ctx.check(len(new) == len(model), "each executed step must be recorded exactly once")
                for h, (k, tag) in zip(new, model):
                    ctx.eq(h.get("step"), k, "recorded under another name")
                    ctx.check(h["target"] == f"fn_{tag}", "recorded with another function")
                ctx.check([h["trackcount"] for h in hist] == list(range(1, len(hist) + 1)), "records numbered")
            else: ctx.check(not new, "recorded without execution")
            seen = len(hist)


def notnone(k):
    return not k.isinst(type(None)) if hasattr(k, "isinst") else k is not None


def eq_(a, b):
    from sx.proxies import deep_eq
    return deep_eq(a, b)


def cases(tier):
    import itertools
    out = []
    L = 4 if tier == "quick" else 5
    for ln in range(1, L + 1):
        for ops in itertools.product(("add", "anon", "track", "run"), repeat=ln):
            if ops[-1] != "run" or ops.count("track") > 1 or ops.count("run") > 2: continue
            for n0 in ((1, 2) if ln < 4 else (2,)):
                for tr in (False, True):
                    if tr and "track" in ops and ln > 2: continue
                    if not tr and "track" not in ops and ln > 2: continue
                    for ints in (False, True, "list"):
                        if ints is True and ln > 3: continue
                        # symbolic names and numbers never meet: unnamed steps get numbers from 2 up
                        out.append((f"{'-'.join(ops)}-{n0}-{tr}-{ints}", history, dict(ops=ops, n0=n0, tracked=tr, ints=ints)))
    return out

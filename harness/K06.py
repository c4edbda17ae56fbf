from pathlib import Path
from harness.klib import *
from harness.K03 import Stream, name_of
BOUNDS = ("all pipelines of at most 3 (thorough: 4) uninterpreted steps under arbitrary distinct text/number names, each with one of several sets of inserts, "
          "captures on every step or none, tracked or not, and up to 2 sends from arbitrary steps into lists, pipes and arguments of arbitrary steps; "
          "reindexed once or twice, or reindexed, extended and reindexed again")
OUTSIDE = "inserts and sends attached to names no step has"


def build_pipe(ctx, n, ks, slots, sends, tracked, caps, tag):
    w = World(ctx)
    C, T = ctx.mod("composition").Composition, ctx.mod("tracker").Tracker
    ins = {ks[i]: {s: ctx_ins(ctx, i, s) for s in sl} for i, sl in enumerate(slots) if sl}
    tr = T(tag, outdir=Path(ctx.tmpdir())) if tracked else None
    pipe = C({k: w.step(f"s{i}") for i, k in enumerate(ks)}, inserts=ins, tracker=tr)
    sinks = []
    for j, (src, kind, tgt) in enumerate(sends):
        if kind == "list": sinks.append([]); pipe.add_send(ks[src], target=sinks[-1])
        elif kind == "pipe": pipe.add_send(ks[src], pipe=w.step(f"p{j}"))
        elif kind == "insert": pipe.add_send(ks[src], target=ks[tgt], pointer="gamma")
    if caps: pipe.add_captures()
    return w, pipe, sinks, tr


VALS = {}


def ctx_ins(ctx, i, s):
    if (i, s) not in VALS: VALS[i, s] = ctx.value(f"{i}.ins.{s}")
    return VALS[i, s]


def run(ctx, n, groups, nsends, tracked, caps, edits):
    VALS.clear()
    ks = [name_of(ctx, f"n{i}") for i in range(n)]
    ctx.distinct(*ks)
    slots = [g[ctx.choice(f"slots{i}", len(g))] for i, g in enumerate(groups)]
    sends = [(ctx.choice(f"src{j}", n), ("list", "pipe", "insert")[ctx.choice(f"kind{j}", 3)], ctx.choice(f"tgt{j}", n)) for j in range(nsends)]
    w1, p1, sinks1, tr1 = build_pipe(ctx, n, ks, slots, sends, tracked, caps, "a")
    w2, p2, sinks2, tr2 = build_pipe(ctx, n, ks, slots, sends, tracked, caps, "b")
    ctx.ok("reindexing", p2.reindex)
    if edits == "twice": ctx.ok("reindexing", p2.reindex)
    if edits == "add":
        late = ctx.str("late", 1, 2)          # no other step has that name: all of them are strings here
        for k in ks: ctx.assume(No(k, late))
        p1.add_step(w1.step(f"s{n}"), late); p2.add_step(w2.step(f"s{n}"), late)
        ctx.ok("reindexing", p2.reindex)
        n += 1
    ctx.check(list(p2.index) == list(range(n)), "steps must be named by position")
    ctx.eq(list(p1.index)[:len(ks)], ks, "another pipeline was renamed")
    for r in range(2):
        sig = ctx.value(f"sig{r}")
        w1.log.clear(); w2.log.clear()
        a, b = p1.execute(sig), p2.execute(sig)
        ctx.eq(b, a, f"run {r}: result changed by reindexing")
        ctx.eq(list(w2.log), list(w1.log), f"run {r}: calls changed by reindexing")
        ctx.eq([list(s) for s in sinks2], [list(s) for s in sinks1], f"run {r}: sends changed by reindexing")
        if caps:
            ctx.check(sorted(p2.captures) == list(range(len(ks))), "captures must follow the names")
            ctx.eq([p2.captures[i] for i in range(len(ks))], list(p1.captures.values()), f"run {r}: captures")
    if tracked:
        ctx.check([(h["step"], h["target"]) for h in tr2.history] == [(i, f"fn_s{i}") for _ in range(2) for i in range(n)], "tracking after reindexing")
    ctx.cover("reindexed")


def No(a, b):
    from sx.proxies import Not_, deep_eq
    return Not_(deep_eq(a, b))


def plain(ctx, n):
    """names and nothing else"""
    C = ctx.mod("composition").Composition
    w = World(ctx)
    ks = [ctx.key(f"n{i}") for i in range(n)]
    ctx.distinct(*ks)
    given = {k: w.step(f"s{i}") for i, k in enumerate(ks)}
    p = C(given)
    p.reindex()
    ctx.check(list(p.index) == list(range(n)), "steps must be named by position")
    ctx.eq(list(given), ks, "the mapping of steps that was given must not change")
    ctx.check(list(p.function_names) == [f"fn_s{i}" for i in range(n)], "function names in order")
    ctx.check(all(x is y for x, y in zip(p.steps.values(), given.values())), "steps must stay")


def cases(tier):
    every = [(), (0,), (1,), ("alpha",), (0, "alpha"), (1, "beta")]
    few = [(), (0,), (1, "alpha")]
    out = [(f"plain-{n}", plain, dict(n=n)) for n in range(0, 4)] + [("plain-12", plain, dict(n=12))]
    for ed in ("once", "twice", "add"):
        for tr in (False, True):
            for caps in (False, True):
                out.append((f"one-{ed}-{tr}-{caps}", run, dict(n=1, groups=[every], nsends=1, tracked=tr, caps=caps, edits=ed)))
                for j, g in enumerate(every if ed == "once" else few):
                    out.append((f"two-{ed}-{tr}-{caps}-{j}", run, dict(n=2, groups=[[g], few], nsends=1 if caps else 2 if j < 2 else 1, tracked=tr, caps=caps, edits=ed)))
                for j, g in enumerate(few[:2]):
                    out.append((f"three-{ed}-{tr}-{caps}-{j}", run, dict(n=3, groups=[[g], few[:2], few[1:]], nsends=1, tracked=tr, caps=caps, edits=ed)))
                if tier != "quick": out.append((f"four-{ed}-{tr}-{caps}", run, dict(n=4, groups=[few[1:]] * 4, nsends=1, tracked=tr, caps=caps, edits=ed)))
    return out

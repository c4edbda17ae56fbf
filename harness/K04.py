from harness.klib import *
from pathlib import Path
BOUNDS = "all pipelines of at most 3 (thorough: 4) uninterpreted steps, failing in an arbitrary step or send (or nowhere), failing on an arbitrary execution of several, optional or not, with or without tracker, names arbitrary; several exception types with and without arguments, raised up to 5 calls below the step"
OUTSIDE = "interpreter-exit exceptions and keyboard interrupts; exceptions raised by the tracker itself"

EXC = (Boom, ValueError, KeyError, StopIteration, AttributeError, IndexError)



def fail_below(n, err):
    """raise err n calls further down"""
    if n == 0:
        raise err
    fail_below(n - 1, err)


BOTTOM = fail_below.__code__.co_firstlineno + 3


def run(ctx, n, optional, tracked, exc, sends):
    w = World(ctx)
    C = ctx.mod("composition").Composition
    T = ctx.mod("tracker").Tracker
    ks = [ctx.key(f"n{i}") for i in range(n)]
    ctx.distinct(*ks)
    where = ctx.choice("where", 2 * n + 1)        # step i | send of step i | nowhere
    noargs, deep = ctx.bool("noargs"), ctx.choice("deep", 5) if n == 1 else 2 * ctx.choice("deep", 2)
    err = EXC[exc]() if noargs else EXC[exc]("deliberate")
    armed = [True]

    def wrap(tag, i, fails):
        inner = w.step(tag)

        def fn(*a, **k):
            r = inner(*a, **k)
            if fails and armed[0]: fail_below(deep, err)
            return r
        fn.__name__ = fn.__qualname__ = f"fn_{tag}"
        return fn
    steps = {k: wrap(f"s{i}", i, where == i) for i, k in enumerate(ks)}
    tr = T("t", outdir=Path(ctx.tmpdir())) if tracked else None
    given = {ks[i]: [(wrap(f"p{i}", i, where == n + i), None, None)] for i in range(n)} if sends == "before" else None
    pipe = C(steps, sends=given, tracker=tr, optional=optional)
    if sends == "after":
        for i in range(n): pipe.add_send(ks[i], pipe=wrap(f"p{i}", i, where == n + i))
    total = 0
    for r in range(3):
        armed[0] = r == 1 or r == 0 and ctx.bool("firsttoo")
        sig = ctx.value(f"sig{r}")
        w.log.clear()
        got, ex = ctx.attempt(pipe.execute, sig)
        bad = where % n if where < 2 * n and armed[0] else None
        if sends == "none" and where >= n: bad = None
        # expected calls
        calls, state = [], sig
        for i in range(n):
            calls.append((f"s{i}", [[state], []])); o = w.out(f"s{i}", [state], {})
            if bad == i and where < n: break
            if sends != "none": calls.append((f"p{i}", [[o], []]))
            if bad == i: break
            state = o
        if bad is None:
            ctx.check(ex is None, "nothing failed"); ctx.eq(got, state, "result")
        elif optional:
            ctx.cover("swallowed")
            ctx.check(ex is None, "an optional pipeline must not raise"); ctx.eq(got, None, "an optional pipeline must return None when a step fails")
        else:
            ctx.cover("raised")
            ctx.check(ex is err, "the exception must reach the caller unchanged")
        ctx.eq(list(w.log), calls, "a step ran after the failure, or did not run")
        if tracked:
            hist = tr.history[total:]
            done = n if bad is None else bad
            # the track send of a step whose own send failed may or may not have come first
            steps_done = [h for h in hist if "exception" not in h]
            if bad is not None and where >= n and len(steps_done) == done + 1: done += 1
            ctx.check(len(steps_done) == done, "records of completed steps")
            for h, k, i in zip(steps_done, ks, range(n)):
                ctx.eq(h.get("step"), k, "record for another step"); ctx.check(h["target"] == f"fn_s{i}", "record names another function")
            if bad is None: ctx.check(len(hist) == done, "failure recorded without failure")
            else:
                ctx.check(len(hist) == done + 1 and "exception" in hist[-1], "the failure must be recorded once, last")
                ctx.check(hist[-1]["target"] == f"fn_s{bad}", "failure recorded against another step")
                ctx.check((noargs or "deliberate" in hist[-1]["exception"]) and EXC[exc].__name__ in hist[-1]["exception"], "another exception recorded")
                names, lines, files = hist[-1]["name"], hist[-1]["lineno"], hist[-1]["filename"]
                ctx.check(len(names) == len(lines) == len(files), "call chain lists do not belong together")
                tail = [x.rsplit(".", 1)[-1] for x in names[-deep - 2:]]
                ctx.check(tail == ["fn"] + ["fail_below"] * (deep + 1), "call chain of the failure incomplete")
                ctx.check(all(f == __file__ for f in files[-deep - 2:]), "call chain names other files")
                ctx.check([x == BOTTOM for x in lines[-deep - 1:]] == [False] * deep + [True], "line numbers of the call chain")
            total = len(tr.history)


def cases(tier):
    out = []
    N = 3 if tier == "quick" else 4
    for n in range(1, N + 1):
        for opt in (False, True):
            for tr in (False, True):
                for sends in ("none", "before", "after"):
                    for e in range(len(EXC)) if n <= 2 else (0, 3):
                        out.append((f"run-{n}-{opt}-{tr}-{sends}-{e}", run, dict(n=n, optional=opt, tracked=tr, exc=e, sends=sends)))
    return out

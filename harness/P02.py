from harness.P01 import *
BOUNDS = "all pools of at most 3 (thorough: 4) tasks (chunked and unchunked, 1..3 workers, and serial), 3 observation moments, an arbitrary subset of the tasks finishing between any two moments, failures included"
OUTSIDE = "observations racing with a completion inside one query (each moment is one instant)"


def watch(ctx, n, threads, chunks, reuse):
    setup(ctx)
    st = ctx.mod("structures")
    f, ran = job(ctx)
    pool = st.MaybePool(threads)
    if reuse:
        pool.map(f, batch(ctx, 2, (False,), "first.")[0], not chunks)
        pool.get()
    recs, want = batch(ctx, n, (False,))
    done = STATE["now"] = set()
    pool.map(f, recs, chunks)
    tasks = STATE["pools"][0].tasks[-(pool.n_results or 1):] if threads and pool.n_results else []
    total = (n if not chunks or threads is None else threads)
    ctx.check(pool.n_results == total, "number of results")
    ctx.check(threads is None or len(tasks) == total, "tasks submitted")
    for t in range(3):
        if t:
            for i, x in enumerate(tasks):
                if x.ix not in done and ctx.bool(f"finish{t}.{i}"): done.add(x.ix)
        ready = sum(x.ix in done for x in tasks) if threads else total
        ctx.check(pool.n_ready == ready, "n_ready")
        ctx.check(pool.n_running == total - ready, "n_running")
        ctx.check(pool.n_ready >= 0 and pool.n_running >= 0, "negative count")
        ctx.check(pool.n_ready + pool.n_running == pool.n_results == total, "counts do not add up")
        ctx.check(bool(pool.ready()) == (ready == total), "ready() disagrees")
        rr = pool.results_ready()
        ctx.check(len(rr) == total and sum(bool(v) for v in rr.values()) == ready, "results_ready disagrees")
        if threads:
            ctx.check([bool(v) for v in rr.values()] == [x.ix in done for x in tasks], "readiness attributed to wrong result")
        ctx.cover("partial" if 0 < ready < total else "all" if ready == total else "none")
    STATE["now"] = set(x.ix for x in tasks)
    pool.get()
    ctx.check(pool.ready() and pool.n_running == 0, "everything ready after reading results")
    pool.close(); pool.join(); pool.terminate()
    ctx.check(pool.n_results == pool.n_ready == pool.n_running == 0 and pool.ready(), "terminated pool has no results")


def cases(tier):
    out = []
    N = 3 if tier == "quick" else 4
    for threads in (None, 1, 2, 3):
        for ch in (True, False):
            for n in range(0, N + 1):
                for reuse in ((False, True) if n in (2,) else (False,)):
                    out.append((f"watch-{threads}-{ch}-{n}-{reuse}", watch, dict(n=n, threads=threads, chunks=ch, reuse=reuse)))
    return out

"""process pool replaced by a stub whose tasks complete at arbitrary moments"""
import multiprocessing
from harness.lib import *
BOUNDS = "all batches of at most 4 (thorough: 5) records with symbolic arguments, keyword arguments and failures, with symbolic or absent keys; serial, per-record and chunked modes with 1..3 workers; two consecutive maps on one pool in every mode combination; arbitrary completion order; 12 records on up to 15 workers finishing in submission order"
OUTSIDE = "records with equal keys; jobs whose result is itself an exception object; interpreter-exit exceptions; pickling of functions and results (the pool is a stub)"
ASSUMPTIONS = ["multiprocessing.Pool is replaced by a stub: each task runs once, at an arbitrary moment, and delivers its result or exception"]

STATE = {}


class FakeAsync:
    def __init__(self, ctx, ix, func, args, kwargs):
        self.ctx, self.ix, self.job, self.done, self.polls = ctx, ix, (func, args, kwargs), False, 0
        self.value = self.ex = None

    def _run(self):
        if self.done: return
        self.done = True
        f, a, k = self.job
        STATE["order"].append(self.ix)
        try:
            self.value = f(*a, **k)
        except Exception as ex:
            self.ex = ex

    def ready(self):
        if not self.done:
            self.polls += 1
            if STATE.get("now") is not None:
                if self.ix in STATE["now"]: self._run()
            elif self.ctx.bool(f"done{self.ix}.{self.polls}"): self._run()
        return self.done

    def get(self, timeout=None):
        self._run()
        if self.ex is not None: raise self.ex
        return self.value

    def wait(self, timeout=None): self._run()

    def successful(self):
        return self.ex is None


class FakePool:
    def __init__(self, processes=None, *a, **k):
        self.ctx, self.tasks, self.closed, self.terminated = STATE["ctx"], [], False, False
        STATE["pools"].append(self)
        self.n = processes

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        if self.closed or self.terminated: raise ValueError("Pool not running")
        t = FakeAsync(self.ctx, STATE["count"], func, tuple(args), dict(kwds or {}))
        STATE["count"] += 1
        self.tasks.append(t)
        return t

    def close(self): self.closed = True
    def terminate(self): self.closed = self.terminated = True

    def join(self):
        if not self.closed: raise ValueError("Pool is still running")
        # tasks finish in an arbitrary order
        left = [t for t in self.tasks if not t.done]
        while left:
            i = self.ctx.choice(f"next{STATE['count']}.{len(left)}.{left[0].ix}", len(left)) if len(left) > 1 and len(left) < 4 else 0
            left.pop(i)._run()

    def __enter__(self): return self
    def __exit__(self, *a): self.terminate()


def fakes(symbolic):
    from sx.loader import FakeModule
    return {"multiprocessing": FakeModule("multiprocessing", multiprocessing, {"Pool": FakePool})}


class JobError(Exception):
    def __init__(self, tag): self.tag = tag


def setup(ctx):
    STATE.clear()
    STATE.update(ctx=ctx, pools=[], count=0, order=[])


def job(ctx):
    ran = []

    def f(*args, **kwargs):
        sig = [list(args), [[k, kwargs[k]] for k in sorted(kwargs)]]
        ran.append(sig)
        if bool(ctx.ufbool("fails", sig)): raise JobError(sig)
        return ctx.uf("result", sig)
    return f, ran


def batch(ctx, n, keyed, pre=""):
    """records, expected (key, signature)"""
    recs, want, keys = [], [], []
    for i in range(n):
        rec = {}
        shape = (i + len(pre)) % 3
        args = tuple(ctx.value(f"{pre}a{i}.{j}") for j in range((1, 2, 0)[shape]))
        kwargs = {"kw": ctx.value(f"{pre}k{i}")} if shape in (1, 2) else {}
        if args or ctx_flag(i): rec["args"] = args
        if kwargs: rec["kwargs"] = kwargs
        if keyed[i % len(keyed)]:
            rec["key"] = k = ctx.key(f"{pre}key{i}")
            keys.append(k)
            if not all(keyed): ctx.assume(no_number(ctx, k))
        else: k = i
        recs.append(rec)
        want.append((k, [list(args), [[q, kwargs[q]] for q in sorted(kwargs)]]))
    ctx.distinct(*keys)
    return recs, want


def no_number(ctx, k):
    from sx.proxies import Not_, Or_, deep_eq
    return Not_(Or_(*[deep_eq(k, v) for v in (0, 1, -1, 2.5)]))


def ctx_flag(i): return i % 2 == 0


def verify(ctx, f, got, want, filter_exc, what):
    live = []
    for k, sig in want:
        bad = bool(ctx.ufbool("fails", sig))
        if bad and filter_exc: continue
        live.append((k, sig, bad))
    ctx.check(len(got) == len(live), f"{what}: number of results")
    ctx.eq(list(got), [k for k, _, _ in live], f"{what}: results not in record order")
    for k, sig, bad in live:
        hit = [v for g, v in got.items() if bool(ctx_eq(g, k))]
        ctx.check(len(hit) == 1, f"{what}: no result under the record's key")
        v = hit[0]
        if bad:
            ctx.check(isinstance(v, JobError), f"{what}: the job's exception is missing")
            ctx.eq(v.tag, sig, f"{what}: another job's exception")
            ctx.cover("failed")
        else:
            ctx.check(not isinstance(v, Exception), f"{what}: exception for a job that succeeded")
            ctx.eq(v, ctx.uf("result", sig), f"{what}: wrong result")


def ctx_eq(a, b):
    from sx.proxies import deep_eq
    return deep_eq(a, b)


def ran_once(ctx, ran, want, times=1):
    ctx.check(len(ran) == times * len(want), "each job must run exactly once")


def helper(ctx, n, keyed, threads, chunks, filt):
    """map_into_pool"""
    setup(ctx)
    st = ctx.mod("structures")
    f, ran = job(ctx)
    recs, want = batch(ctx, n, keyed)
    got = st.map_into_pool(f, recs, threads, filt, chunks)
    verify(ctx, f, got, want, filt, "map_into_pool")
    ran_once(ctx, ran, want)
    ctx.check(all(p.closed for p in STATE["pools"]), "pool left running")


def many(ctx, threads, chunks, keyed):
    """more records and workers than have one digit, one of them failing"""
    setup(ctx)
    st = ctx.mod("structures")
    n = 12
    xs = [ctx.value(f"x{i}") for i in range(n)]
    bad = ctx.choice("bad", n + 1)
    ran = []

    def f(i, x):
        ran.append(i)
        if i == bad: raise JobError(i)
        return [x]
    names = [f"k{i}" for i in range(n)] if keyed else list(range(n))
    recs = [{"args": (i, x)} | ({"key": names[i]} if keyed else {}) for i, x in enumerate(xs)]
    STATE["now"] = set()
    got = st.map_into_pool(f, recs, threads, False, chunks)
    ctx.check(list(got) == names, "results not in record order")
    for i, (k, x) in enumerate(zip(names, xs)):
        if i == bad: ctx.check(isinstance(got[k], JobError) and got[k].tag == i, "the job's exception is missing")
        else: ctx.eq(got[k], [x], "wrong result")
    ctx.check(sorted(ran) == list(range(n)), "each job must run exactly once")


def reuse(ctx, n1, n2, threads, c1, c2, keyed):
    """two maps on one pool"""
    setup(ctx)
    st = ctx.mod("structures")
    f, ran = job(ctx)
    pool = st.MaybePool(threads)
    r1, w1 = batch(ctx, n1, keyed)
    pool.map(f, r1, c1)
    verify(ctx, f, pool.get(), w1, False, "first map")
    r2, w2 = batch(ctx, n2, keyed, "second.")
    pool.map(f, r2, c2)
    verify(ctx, f, pool.get(), w2, False, "second map")
    again = pool.get()
    verify(ctx, f, again, w2, False, "results read twice")
    # the same records at other positions
    rest = r2[1:]
    pool.map(f, rest, c1)
    w3 = [(k if keyed[0] else i, sig) for i, (k, sig) in enumerate(w2[1:])]
    if all(keyed) or not any(keyed): verify(ctx, f, pool.get(), w3, False, "records reused")
    pool.close(); pool.join(); pool.terminate()


def reraise(ctx, n, threads, chunks):
    setup(ctx)
    st = ctx.mod("structures")
    f, ran = job(ctx)
    pool = st.MaybePool(threads)
    recs, want = batch(ctx, n, (False,))
    pool.map(f, recs, chunks)
    got, ex = ctx.attempt(pool.get, True)
    bad = [sig for _, sig in want if bool(ctx.ufbool("fails", sig))]
    if bad:
        ctx.check(isinstance(ex, JobError), "a failure must be re-raised on request")
        ctx.check(any(bool(ctx_eq(ex.tag, b)) for b in bad), "re-raised exception is not a job's")
        ctx.cover("reraised")
    else:
        ctx.check(ex is None, "nothing failed")
        verify(ctx, f, got, want, False, "raising get")
    pool.terminate()


def cases(tier):
    import itertools
    N = 4 if tier == "quick" else 5
    out = []
    for n in range(0, N + 1):
        for keyed in ((False,), (True,), (True, False)):
            if n < 2 and keyed == (True, False): continue
            for threads in (None, 1, 2, 3):
                for chunks in ((True, False) if threads else (True,)):
                    for filt in ((False, True) if n < 4 else (False,)):
                        out.append((f"helper-{n}-{keyed}-{threads}-{chunks}-{filt}", helper, dict(n=n, keyed=keyed, threads=threads, chunks=chunks, filt=filt)))
    for threads in (None, 2, 5, 11, 15):
        for ch in ((True, False) if threads else (False,)):
            for keyed in (True, False): out.append((f"many-{threads}-{ch}-{keyed}", many, dict(threads=threads, chunks=ch, keyed=keyed)))
    for threads in (None, 1, 2):
        for c1, c2 in itertools.product((True, False), repeat=2):
            for keyed in ((False,), (True,)):
                out.append((f"reuse-{threads}-{c1}-{c2}-{keyed}", reuse, dict(n1=2, n2=2, threads=threads, c1=c1, c2=c2, keyed=keyed)))
                if tier != "quick": out.append((f"reuse3-{threads}-{c1}-{c2}-{keyed}", reuse, dict(n1=2, n2=3, threads=threads, c1=c1, c2=c2, keyed=keyed)))
        for ch in (True, False):
            for n in (1, 3): out.append((f"reraise-{threads}-{ch}-{n}", reraise, dict(n=n, threads=threads, chunks=ch)))
    return out

from harness.lib import *
from itertools import islice
BOUNDS = "all adapters on at most 4 positional and 2 keyword arguments of arbitrary value, arbitrary results and failures"
OUTSIDE = "longer argument lists; wrapped objects without the attributes functools.wraps copies by default are still covered"


class Boom(Exception): pass
class Boom2(ValueError): pass


def spy(ctx, name="f", fails=False):
    calls = []

    def func(*args, **kwargs):
        sig = [list(args), [[k, kwargs[k]] for k in sorted(kwargs)]]
        calls.append(sig)
        if fails and bool(ctx.ufbool(name + ".fails", sig)): raise Boom(len(calls))
        return ctx.uf(name, sig)
    return func, calls


def args_of(ctx, n, nk):
    return [ctx.value(f"a{i}") for i in range(n)], {k: ctx.value(f"k_{k}") for k in ("kw", "other")[:nk]}


def sig_of(a, k): return [list(a), [[q, k[q]] for q in sorted(k)]]


def result(ctx, sig, name="f"): return ctx.uf(name, sig)


def once(ctx, calls, a, k, what):
    ctx.check(len(calls) == 1, f"{what}: called {len(calls)} times")
    ctx.eq(calls[0], sig_of(a, k), f"{what}: wrong arguments")


def passing(ctx, n, nk):
    fu = ctx.mod("func")
    a, k = args_of(ctx, n, nk)
    f, calls = spy(ctx)
    ctx.eq(fu.pass_parameters(f, *a, **k), result(ctx, sig_of(a, k)), "pass_parameters result")
    once(ctx, calls, a, k, "pass_parameters")
    # interaction suppression
    non, dflt = ctx.value("noninteractive"), ctx.value("default")
    truthy = bool(non)
    f, calls = spy(ctx)
    got = fu.catch_interaction(non, f, *a, _default=dflt, **k)
    if truthy:
        ctx.cover("suppressed")
        ctx.check(not calls, "called although non-interactive"); ctx.eq(got, dflt, "default not returned")
        ctx.eq(fu.catch_interaction(non, f, *a, **k), "", "built-in default"); ctx.check(not calls, "called")
    else:
        ctx.cover("interactive")
        once(ctx, calls, a, k, "catch_interaction"); ctx.eq(got, result(ctx, sig_of(a, k)), "catch_interaction result")
    # constants
    v = ctx.value("v")
    c = fu.constant(v)
    ctx.eq(c(*a, **k), v, "constant"); ctx.eq(c(), v, "constant without arguments"); ctx.eq(c(*a, **k), v, "constant, again")
    for v in ([1, 2], {"a": 1}, set(), object(), [], (), ""):
        c = fu.constant(v)
        ctx.check(c(*a, **k) is v and c() is v, "constant: another object than the one given")
    ctx.check(fu.zero(*a, **k) is None, "zero returns nothing")


def splatting(ctx, n, how):
    fu = ctx.mod("func")
    a, _ = args_of(ctx, n, 0)
    f, calls = spy(ctx)
    g = fu.splat(f)
    ctx.check(g.__name__ == "func", "wrapper keeps the name")
    ctx.eq(g(tuple(a) if how == "tuple" else list(a) if how == "list" else iter(a)), result(ctx, sig_of(a, {})), "splat result")
    once(ctx, calls, a, {}, "splat")


def stopping(ctx, n, nk, count, unpack):
    fu = ctx.mod("func")
    a, k = args_of(ctx, n, nk)
    f, calls = spy(ctx)
    if n == 1 and unpack:
        inner = [ctx.value(f"in{i}") for i in range(ctx.choice("inner", 4))]
        a = [tuple(inner) if ctx.bool("astuple") else list(inner)]
        want = inner[:count]
    else:
        want = a[:count]
    g = fu.argstop(f, count, unpack) if not (unpack and count == 0) else fu.argstop(f)
    ctx.eq(g(*a, **k), result(ctx, sig_of(want, k)), "argstop result")
    once(ctx, calls, want, k, "argstop")
    ctx.cover("truncated" if len(want) < n else "whole")


def triggering(ctx):
    fu = ctx.mod("func")
    f, calls = spy(ctx)
    s = ctx.value("state")
    t = fu.triggerize(f)
    ctx.eq(t(s), s, "the state must pass through unchanged"); once(ctx, calls, [], {}, "triggerize")
    ctx.check(t() is None, "no state"); ctx.check(len(calls) == 2, "called once per trigger")
    ctx.eq(t(deferred_state=s), s, "state by name")
    f, calls = spy(ctx, "g", True)
    got, ex = ctx.attempt(fu.triggerize(f), s)
    if bool(ctx.ufbool("g.fails", [[], []])): ctx.check(isinstance(ex, Boom), "failure must propagate"); ctx.cover("raised")
    else: ctx.eq(got, s, "state")


def optional(ctx, n, nk, kind):
    fu = ctx.mod("func")
    a, k = args_of(ctx, n, nk)
    seen = []

    def cb(e):
        seen.append(e)
        return r
    r = ctx.value("cbresult")
    calls = []
    exc = {"boom": Boom, "value": Boom2, "os": OSError, "stop": StopIteration, "lookup": KeyError, "ki": KeyboardInterrupt, "ok": None}[kind]

    def func(*args, **kwargs):
        calls.append(sig_of(args, kwargs))
        if exc is not None: raise exc("x")
        return ctx.uf("f", calls[-1])
    g = fu.optionalize(func, cb) if not ctx.bool("nocb") else fu.optionalize(func)
    try:
        got = g(*a, **k)
        err = None
    except KeyboardInterrupt as e:
        got, err = None, e
    once(ctx, calls, a, k, "optionalize")
    if kind == "ki":
        ctx.check(err is not None, "a keyboard interrupt must not be swallowed"); ctx.check(not seen, "interrupt handed to the callback")
        return
    ctx.check(err is None, "no interrupt was raised")
    if exc is None:
        ctx.eq(got, ctx.uf("f", calls[0]), "result must be unchanged"); ctx.check(not seen, "callback without failure")
    else:
        ctx.check(got is None, "failed optional call returns None")
        ctx.check(len(seen) <= 1 and all(type(e) is exc for e in seen), "callback gets the exception once")
        ctx.cover("failed")


def optional_cb(ctx, n, nk, kind):
    """callback given: it must be called exactly once with that exception"""
    fu = ctx.mod("func")
    a, k = args_of(ctx, n, nk)
    seen = []
    e0 = {"boom": Boom, "value": Boom2, "lookup": KeyError, "arith": ZeroDivisionError}[kind]("x")

    def func(*args, **kwargs): raise e0
    r = ctx.value("cb")

    def cb(e):
        seen.append(e)
        return r
    got = fu.optionalize(func, cb)(*a, **k)
    ctx.check(len(seen) == 1 and seen[0] is e0, "the callback must receive that very exception, once")
    ctx.check(got is None, "failed optional call returns None")


def mapping(ctx, n, how):
    fu = ctx.mod("func")
    f, calls = spy(ctx)
    xs = [ctx.value(f"x{i}") for i in range(n)]
    if how == "two":
        ys = [ctx.value(f"y{i}") for i in range(n)]
        got = fu.gmap(f, xs, ys)
        pairs = [[x, y] for x, y in zip(xs, ys)]
    elif how == "list":
        got = fu.gmap(f, xs, evaluator=list); pairs = [[x] for x in xs]
        ctx.check(type(got) is list, "evaluator result")
    elif how == "filter":
        P = lambda x: bool(ctx.ufbool("P", x))
        got = fu.gmap(P, iter(xs), mapper=filter)
        ctx.check(type(got) is tuple, "greedy by default"); ctx.eq(list(got), [x for x in xs if P(x)], "filtered elements")
        return
    else:
        got = fu.gmap(f, iter(xs)); pairs = [[x] for x in xs]
    if how != "list": ctx.check(type(got) is tuple, "greedy by default")
    ctx.eq(list(got), [ctx.uf("f", [p, []]) for p in pairs], "mapped results")
    ctx.eq(calls, [[p, []] for p in pairs], "called once per element in order")


def filtering(ctx, n):
    fu = ctx.mod("func")
    xs = [ctx.value(f"x{i}") for i in range(n)]
    asked = []

    def P(x):
        asked.append(x)
        return ctx.ufbool("P", x)
    hits = [i for i, x in enumerate(xs) if bool(ctx.ufbool("P", x))]
    got, ex = ctx.attempt(fu.filtern, P, list(xs))
    if hits:
        ctx.check(ex is None, "an element qualifies"); ctx.eq(got, xs[hits[0]], "not the first qualifying element"); ctx.cover("hit")
        ctx.check(len(asked) == hits[0] + 1, "looks no further than the first hit")
    else:
        ctx.check(isinstance(ex, StopIteration), "no element qualifies"); ctx.cover("none")
    nat = list(islice(fu.naturals(), n + 3))
    ctx.eq(nat, list(range(1, n + 4)), "natural numbers")


def cases(tier):
    out = [("trigger", triggering, {})]
    for n in range(0, 4):
        for nk in (0, 1, 2):
            out.append((f"pass-{n}-{nk}", passing, dict(n=n, nk=nk)))
            for kind in ("boom", "value", "os", "stop", "lookup", "ki", "ok"):
                if n < 3: out.append((f"opt-{n}-{nk}-{kind}", optional, dict(n=n, nk=nk, kind=kind)))
            for kind in ("boom", "value", "lookup", "arith"):
                if n < 3: out.append((f"optcb-{n}-{nk}-{kind}", optional_cb, dict(n=n, nk=nk, kind=kind)))
    for n in range(0, 5):
        for how in ("tuple", "list", "iter"): out.append((f"splat-{n}-{how}", splatting, dict(n=n, how=how)))
        for nk in (0, 1):
            for count in range(0, 4):
                for unpack in (True, False): out.append((f"stop-{n}-{nk}-{count}-{unpack}", stopping, dict(n=n, nk=nk, count=count, unpack=unpack)))
        for how in ("two", "list", "filter", "one"): out.append((f"map-{n}-{how}", mapping, dict(n=n, how=how)))
        out.append((f"filter-{n}", filtering, dict(n=n)))
    return out

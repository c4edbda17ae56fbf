from harness.lib import *
from operator import and_, or_
from collections import deque
BOUNDS = "all families of at most 3 iterables of at most 3 symbolic elements (repetitions included), as lists, tuples, dictionaries or views; membership of at most 3 items in containers of at most 3 elements with both connectives; type predicates over 1..3 types and an arbitrary value"
OUTSIDE = "unhashable elements; no iterables / no items at all"


def elems(ctx, pre, n): return [ctx.value(f"{pre}{i}") for i in range(n)]


def wrap(xs, how):
    if how == "list": return list(xs)
    if how == "tuple": return tuple(xs)
    if how == "deque": return deque(xs)
    if how == "dict": return {x: None for x in xs}
    if how == "set": return set(xs)
    if how == "iter": return iter(list(xs))


def isin(x, xs):
    from sx.proxies import Or_, deep_eq
    return bool(Or_(*[deep_eq(x, y) for y in xs]))


def sets(ctx, ns, how):
    fu = ctx.mod("func")
    xs = [elems(ctx, f"s{i}.", n) for i, n in enumerate(ns)]
    got = fu.intersection(*[wrap(x, how) for x in xs])
    ctx.check(isinstance(got, (set, frozenset)), "intersection must be a set")
    common = [x for x in xs[0] if all(isin(x, y) for y in xs[1:])]
    for x in common: ctx.check(isin(x, list(got)), "common element missing")
    for g in list(got): ctx.check(isin(g, common), "element not common to all")
    if how in ("list", "tuple", "deque"):
        src = [wrap(x, how) for x in xs]
        got = fu.disjoint(*src)
        ctx.check(len(got) == len(xs), "one result per iterable")
        for x, g in zip(xs, got):
            ctx.eq(list(g), [e for e in x if not isin(e, common)], "non-common elements, in order")
        ctx.eq([list(s) for s in src], xs, "inputs modified")
    ctx.cover("common" if common else "nothing common")


def member(ctx, ni, nc, how, oper):
    fu = ctx.mod("func")
    items, cont = elems(ctx, "i", ni), elems(ctx, "c", nc)
    c = wrap(cont, how)
    pred = fu.are_in(items) if oper is None else fu.are_in(items, {"and": and_, "or": or_}[oper])
    want = any(isin(x, cont) for x in items) if oper == "or" else all(isin(x, cont) for x in items)
    ctx.check(bool(pred(c)) == want, "membership answer wrong")
    ctx.check(bool(pred(c)) == want, "second use of the predicate disagrees")
    ctx.cover(f"answer {want}")


def types(ctx, ts):
    fu = ctx.mod("func")
    pred = fu.is_it(*ts)
    x = ctx.value("x")
    want = x.isinst(ts) if ctx.symbolic else isinstance(x, ts)
    ctx.check(bool(pred(x)) == want, "type answer wrong")
    for y in ([], {}, (1,), True, pred, b"", OrderedDict()):
        ctx.check(bool(pred(y)) == isinstance(y, ts), "type answer wrong")
    ctx.cover(f"is {want}")


def cases(tier):
    import itertools
    out = []
    q = tier == "quick"
    for k in (1, 2, 3):
        for ns in itertools.product(range(0, 4 if k < 3 else 3), repeat=k):
            for how in ("list", "dict") if k != 2 else ("list", "tuple", "deque", "dict", "set", "iter"):
                if q and sum(ns) > 5 and how != "list": continue
                out.append((f"sets-{ns}-{how}", sets, dict(ns=ns, how=how)))
    for ni in (1, 2, 3):
        for nc in range(0, 4):
            for how in ("list", "tuple", "dict", "set"):
                for op in (None, "and", "or"):
                    out.append((f"member-{ni}-{nc}-{how}-{op}", member, dict(ni=ni, nc=nc, how=how, oper=op)))
    T = (int, str, type(None), tuple, dict, bool, float)
    for n in (1, 2, 3):
        for ts in itertools.combinations(T, n): out.append((f"types-{'-'.join(t.__name__ for t in ts)}", types, dict(ts=ts)))
    return out

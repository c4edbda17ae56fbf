from harness.lib import *
BOUNDS = "all histories of at most 4 (thorough: 5) chained assignments of depth 1..3 with symbolic keys and values, including values that are dictionaries or self-nesting dictionaries; conversion of the result"
OUTSIDE = "assignment through an existing non-mapping value (TypeError in any dictionary); longer histories"


def m_get(model, k):
    for row in model:
        if bool(row[0] == k): return row
    return None


def run(ctx, depths, kinds, init):
    st = ctx.mod("structures")
    model = Rows()
    if init:
        k0, v0 = ctx.key("ik"), ctx.value("iv")
        n = st.NestingDict(None, {k0: v0})
        model.append([k0, v0])
    else:
        n = st.NestingDict()
    for i, (d, kind) in enumerate(zip(depths, kinds)):
        path = [ctx.key(f"k{i}.{j}") for j in range(d)]
        if kind == "atom": v = mv = ctx.value(f"v{i}")
        elif kind == "dict":
            a, b = ctx.key(f"a{i}"), ctx.value(f"b{i}")
            v, mv = {a: b}, [[a, b]]
        elif kind == "nest":
            a, b, c = ctx.key(f"a{i}"), ctx.key(f"b{i}"), ctx.value(f"c{i}")
            v = {a: st.NestingDict(None, {b: c})}
            mv = [[a, [[b, c]]]]
        if kind == "touch": m_touch(ctx, model, path)
        else: m_set_plain(ctx, model, path, mv)
        level = n
        ok = True
        for k in path[:-1] if kind != "touch" else path:
            level = level[k]
            if not isinstance(level, dict): ctx.assume(False)
        if kind == "touch": continue        # reading creates a level as well
        # a plain dictionary stored by the user does not nest by itself
        level[path[-1]] = v
    compare(ctx, model, n, False)
    ctx.cover("built")
    got = n.todict()
    compare(ctx, model, got, True)
    if any(type(r[1]) is list and any(type(x[1]) is list for x in r[1]) for r in model): ctx.cover("deep")


def m_set_plain(ctx, model, path, v):
    m = model
    plain_level = False
    for k in path[:-1]:
        row = m_get(m, k)
        if row is None:
            if getattr(m, "plain", False): ctx.assume(False)
            row = [k, Rows()]
            m.append(row)
        if not isinstance(row[1], list): ctx.assume(False)
        m = row[1]
    row = m_get(m, path[-1])
    if isinstance(v, list) and not isinstance(v, Rows): v = to_rows(v)
    if row is None: m.append([path[-1], v])
    else: row[1] = v


def m_touch(ctx, m, path):
    for k in path:
        row = m_get(m, k)
        if row is None:
            if getattr(m, "plain", False): ctx.assume(False)
            row = [k, Rows()]
            m.append(row)
        if not isinstance(row[1], list): ctx.assume(False)
        m = row[1]


class Rows(list):
    plain = False


def to_rows(v):
    r = Rows([[k, to_rows(x) if isinstance(x, list) else x] for k, x in v])
    r.plain = True
    return r


def compare(ctx, model, d, exact):
    if exact: ctx.check(type(d) is dict, "a level was not converted to a plain dictionary")
    items = list(d.items())
    ctx.check(len(items) == len(model), "entries lost or invented")
    for (k, v), (mk, mv) in zip(items, model):
        ctx.eq(k, mk, "wrong key or order")
        if isinstance(mv, list):
            ctx.check(isinstance(v, dict), "level is not a dictionary")
            compare(ctx, mv, v, exact)
        else: ctx.eq(v, mv, "wrong value")


def cases(tier):
    import itertools
    out = []
    n = 4 if tier == "quick" else 5
    for ln in range(1, n + 1):
        for ds in itertools.product((1, 2, 3) if ln < 3 or tier != "quick" else (1, 2, 3), repeat=ln):
            if ln == 5 and sum(ds) > 9: continue
            out.append((f"atoms-{'-'.join(map(str, ds))}", run, dict(depths=ds, kinds=("atom",) * ln, init=False)))
    for ds in itertools.product((1, 2), repeat=2):
        for ks in itertools.product(("atom", "dict", "nest"), repeat=2):
            if "dict" in ks or "nest" in ks:
                out.append((f"mix-{ds}-{ks}", run, dict(depths=ds, kinds=ks, init=False)))
        for ks in (("touch", "atom"), ("atom", "touch"), ("touch", "touch"), ("nest", "touch")):
            out.append((f"mix-{ds}-{ks}", run, dict(depths=ds, kinds=ks, init=False)))
    out.append(("touch-3", run, dict(depths=(2, 1, 2), kinds=("touch", "atom", "touch"), init=False)))
    out.append(("init", run, dict(depths=(1, 2), kinds=("atom", "atom"), init=True)))
    return out

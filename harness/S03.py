from harness.lib import *
from harness.S01 import tag, same_val
BOUNDS = "all nested mappings with at most 4 (thorough: 5) entries over all levels; arbitrary filter; setter returning arbitrary values, the original, fresh nested mappings or lists; dict and custom types"
OUTSIDE = "larger mappings; filters or setters that edit the mapping themselves"


def edit(ctx, group, types, mtypes, repl):
    st = ctx.mod("structures")
    mt = mtypes or (dict,)
    shape = group[ctx.choice("shape", len(group))]
    m = build(ctx, shape, "", types=types)
    F = lambda k, v: ctx.ufbool("F", k, tag(v))
    calls, real_result = [], []

    def setter(k, v):
        calls.append((k, v))
        n = len(calls) - 1
        if repl == "atom": r = ctx.uf("V", k, tag(v))
        elif repl == "map": r = {ctx.key(f"new{n}"): ctx.uf("V", k, tag(v))} if n < 2 else None
        elif repl == "same": r = v
        else: r = [v]
        real_result.append(dict(r) if type(r) is dict else r)
        return r

    def model(d):
        return ("map", [[k, model(v) if isinstance(v, mt) else ("leaf", v), v] for k, v in d.items()])

    mod = model(m)
    ret = st.dig_and_edit(m, F, setter, mt) if mtypes else st.dig_and_edit(m, F, setter)
    ctx.check(ret is m, "must return the mapping it was given")
    # replay the same edit on the model; setter results are taken in call order
    oracle_order(ctx, mod, F, mt, real_result, calls, same_val, model)
    compare(ctx, mod, m, mt)


def oracle_order(ctx, mod, F, mt, results, calls, same_val, model):
    """independent semantics: edit this level in order, then each nested mapping in order"""
    pos = [0]

    def run(node):
        for row in node[1]:
            if F(row[0], row[2]):
                i = pos[0]
                ctx.check(i < len(calls), "a matching item was not edited")
                ctx.eq(calls[i][0], row[0], "setter called with wrong key")
                ctx.check(same_val(calls[i][1], row[2]), "setter called with wrong value")
                pos[0] += 1
                r = results[i]
                row[1] = model(r) if isinstance(r, mt) else ("leaf", r)
        for row in node[1]:
            if row[1][0] == "map": run(row[1])
    run(mod)
    ctx.check(pos[0] == len(calls), "setter called for an item that does not match")
    ctx.cover("edited" if calls else "nothing")


def compare(ctx, node, d, mt):
    ctx.check(isinstance(d, mt), "level replaced")
    items = list(d.items())
    ctx.check(len(items) == len(node[1]), "entries added or lost")
    for (k, v), row in zip(items, node[1]):
        ctx.eq(k, row[0], "keys changed or reordered")
        if row[1][0] == "map": compare(ctx, row[1], v, mt)
        elif type(row[1][1]) is dict and type(v) is dict: ctx.eq(plain(v), plain(row[1][1]), "unsearched replacement changed")
        elif type(row[1][1]) is list and type(v) is list: ctx.check(len(v) == len(row[1][1]), "list value")
        else: ctx.check(same_val(v, row[1][1]), "wrong value")


def cases(tier):
    n = 4 if tier == "quick" else 5
    out = []
    for repl in ("atom", "map", "same", "wrap"):
        hi = n if repl == "atom" else n - 1
        for j, g in enumerate(chunks(shapes(0, hi), 8 if hi >= 4 else 3)):
            out.append((f"{repl}-{j}", edit, dict(group=g, types=None, mtypes=None, repl=repl)))
    odd = [("S", "L"), (("L",), "S"), (("S",), ("L",)), (("L", "L"), ("L",)), ((("L",),), "L")]
    for nm, types, mt in (("custom-in", {"0.": MyMap}, (dict, MyMap)), ("custom-out", {"0.": MyMap}, None),
                          ("only-custom", {"": MyMap, "0.": MyMap}, (MyMap,)), ("ordered", {"0.": OrderedDict}, None), ("plain", None, None)):
        out.append((f"{nm}", edit, dict(group=odd[0 if types is None else 1:], types=types, mtypes=mt, repl="atom")))
        out.append((f"{nm}-map", edit, dict(group=odd[0 if types is None else 1:], types=types, mtypes=mt, repl="map")))
    return out

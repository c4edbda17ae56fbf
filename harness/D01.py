from harness.lib import *
import harness.dynfuncs as DF
BOUNDS = "all histories of at most 3 calls of a dynamic function built from any of the listed source templates (positional, keyword, default, variadic, positional-only and keyword-only parameters, lambdas), with arbitrary arguments, default values, results and failures; object setting and per-call setting in every combination"
OUTSIDE = "sources that refer to themselves by name, use decorators, or whose defaults contain functions; keyboard interrupts"

SOURCES = {
    "one": "def f(x):\n    return F(x)",
    "two": "def f(x, y):\n    return F(x, y)",
    "default": "def f(x, y=D):\n    return F(x, y)",
    "defaults": "def f(x=D, y=E):\n    return F(x, y)",
    "star": "def f(*args, **kwargs):\n    return F(*args, **kwargs)",
    "kwonly": "def f(x, *, k=D):\n    return F(x, k=k)",
    "kwonly2": "def f(x, *, k, m=E):\n    return F(x, k=k, m=m)",
    "posonly": "def f(x, /, y=D):\n    return F(x, y)",
    "mixed": "def f(x, /, y=D, *rest, k=E, **kw):\n    return F(x, y, *rest, k=k, **kw)",
    "none": "def f():\n    return F()",
    "annotated": "def f(x: int = D) -> int:\n    'doc'\n    return F(x)",
    "lambda": "lambda x, y: F(x, y)",
    "inner": "def f(x, y=D):\n    def g(z):\n        return F(z, y)\n    return g(x)",
    "comment": "# leading comment\n\ndef f(x, y=D):\n    t = F(x)\n    return F(t, y)",
}
SHAPES = [((), ()), (("a",), ()), (("a", "b"), ()), (("a",), ("y",)), ((), ("x", "y")), (("a",), ("k",)), (("a", "b", "c"), ("k", "z"))]


class Boom(Exception): pass


def spy(ctx, fails):
    def F(*args, **kwargs):
        sig = [list(args), [[k, kwargs[k]] for k in sorted(kwargs)]]
        if fails and bool(ctx.ufbool("fails", sig)):
            e = Boom("deliberate")
            raise e
        return ctx.uf("F", sig)
    return F


def outcome(f, a, k):
    try:
        return f(*a, **k), None
    except Exception as ex:
        return None, ex


def calls(ctx, src, n, fails, shapes, how):
    dy = ctx.mod("dynamic")
    g = {"F": spy(ctx, fails), "D": ctx.value("D"), "E": ctx.value("E")}
    if how == "source":
        ref = {**g}
        code = SOURCES[src]
        exec(code if not code.startswith("lambda") else "f = " + code, ref)
        f = ref["f"]
        obj_opt = ctx.bool("optional")
        dyn = dy.Dynamic(code, globals_=dict(g), optional=obj_opt, lazy=ctx.bool("lazy"))
    else:
        f = DF.get(src, g)
        obj_opt = ctx.bool("optional")
        dyn = dy.Dynamic.from_function(f, optional=obj_opt, lazy=ctx.bool("lazy"))
    ctx.check(dyn.errors == [] and dyn.call_fail is False, "fresh object has errors")
    nerr, failed = 0, False
    for i in range(n):
        pos, kws = shapes[ctx.choice(f"shape{i}", len(shapes))] if len(shapes) > 1 else shapes[0]
        a = [ctx.value(f"{i}.{p}") for p in pos]
        k = {q: ctx.value(f"{i}.{q}") for q in kws}
        per = (None, True, False)[ctx.choice(f"per{i}", 3)]
        opt = obj_opt if per is None else per
        want, wex = outcome(f, a, k)
        got, ex = outcome(lambda *a, **k: dyn(*a, **k), a, k if per is None else {**k, "_optional": per})
        if wex is None:
            ctx.check(ex is None, "raised where the plain function returns"); ctx.eq(got, want, "differs from the plain function"); ctx.cover("returned")
        elif opt:
            ctx.check(ex is None and got is None, "an optional call that fails must return None")
            nerr += 1; failed = True; ctx.cover("optional failure")
        else:
            ctx.check(type(ex) is type(wex), "the exception must propagate"); ctx.cover("propagated")
        ctx.check(len(dyn.errors) == nerr, "exactly one record per optional failure")
        if nerr and opt and wex is not None:
            r = dyn.errors[-1]
            ctx.check(type(wex).__name__ in str(r["exception"]), "record of another exception")
            if isinstance(wex, Boom): ctx.check("deliberate" in str(r["exception"]), "record of another exception")
            ctx.check(r.get("category") == "call", "record category")
        ctx.check(bool(dyn.call_fail) == failed, "failure flag")


def cases(tier):
    out = []
    for s in SOURCES:
        for fails in (False, True):
            out.append((f"{s}-1-{fails}", calls, dict(src=s, n=1, fails=fails, shapes=SHAPES, how="source")))
        out.append((f"{s}-2", calls, dict(src=s, n=2, fails=True, shapes=SHAPES[1:5], how="source")))
        three = SHAPES[2:3] if s in ("two", "star", "default", "lambda") else SHAPES[1:2]
        out.append((f"{s}-3", calls, dict(src=s, n=3, fails=True, shapes=three, how="source")))
        if tier != "quick": out.append((f"{s}-3x", calls, dict(src=s, n=3, fails=True, shapes=SHAPES[:5], how="source")))
    for s in DF.NAMES:
        out.append((f"from-{s}-1", calls, dict(src=s, n=1, fails=True, shapes=SHAPES, how="function")))
        out.append((f"from-{s}-2", calls, dict(src=s, n=2, fails=True, shapes=SHAPES[1:4], how="function")))
    return out

from harness.lib import *
import harness.dynfuncs as DF
from functools import partial
from textwrap import dedent
from inspect import getsource
from harness.D01 import SOURCES, spy, outcome, Boom
BOUNDS = "all sequences of at most 4 (thorough: 5) operations on one object built from source, 3 (4) on the others, out of load, reload, define, redefine, unload, call and optional call, lazy or eager, loading on call or not, optional or not, from source and from an existing function, arbitrary argument, results and failures; sources that define nothing, repaired later; the source looked up in every state"
OUTSIDE = "a loaded function whose source is replaced by a broken one; compiling without defining"
OPS = ("load", "reload", "define", "redefine", "unload", "call", "ocall")


def life(ctx, ops_first, n, how, src):
    dy = ctx.mod("dynamic")
    g = {"F": spy(ctx, True), "D": ctx.value("D"), "E": ctx.value("E")}
    lazy, loc, opt = ctx.bool("lazy"), ctx.bool("load_on_call"), ctx.bool("optional")
    if how == "source":
        ref = {**g}; exec(SOURCES[src], ref); f = ref["f"]
        dyn = dy.Dynamic(SOURCES[src], globals_=dict(g), optional=opt, lazy=lazy, load_on_call=loc)
        loaded = not lazy
    else:
        f = DF.get(src, g)
        dyn = dy.Dynamic.from_function(f, optional=opt, lazy=lazy, load_on_call=loc)
        loaded = True
    nerr, failed = 0, False
    ctx.check((dyn.func is not None) == loaded, "initial state")
    for i in range(n):
        op = ops_first[i] if i < len(ops_first) else OPS[ctx.choice(f"op{i}", len(OPS))]
        if op == "load":
            _, ex = ctx.attempt(dyn.load)
            if loaded: ctx.check(isinstance(ex, dy.AlreadyLoadedError), "a loaded function must refuse to be loaded again")
            else: ctx.check(ex is None, "an unloaded function must load"); loaded = True
        elif op == "reload":
            _, ex = ctx.attempt(dyn.load, True)
            ctx.check(ex is None, "reloading must succeed"); loaded = True
        elif op in ("define", "redefine"):
            _, ex = ctx.attempt(dyn.define, *((True,) if op == "redefine" else ()))
            if loaded and op == "define": ctx.check(isinstance(ex, dy.AlreadyLoadedError), "a loaded function must refuse to be defined again")
            elif loaded: ctx.check(ex is None, "redefining must succeed")
            else:
                # nothing compiled: may refuse, but must not half-load
                loaded = dyn.func is not None
                ctx.check(loaded == (ex is None), "defining without code must either define or refuse")
        elif op == "unload":
            _, ex = ctx.attempt(dyn.unload)
            ctx.check(ex is None, "unloading must succeed")
            loaded, nerr, failed = False, 0, False
        else:
            a = [ctx.value(f"arg{i}")]
            k = {"_optional": True} if op == "ocall" else {}
            o = opt or op == "ocall"
            got, ex = outcome(dyn, a, k)
            if not loaded and not loc:
                ctx.check(isinstance(ex, dy.UnreadyError), "an unloaded function must refuse the call"); ctx.cover("refused")
            else:
                loaded = True
                want, wex = outcome(f, a, {})
                if wex is None: ctx.check(ex is None, "call failed"); ctx.eq(got, want, "result"); ctx.cover("called")
                elif o: ctx.check(ex is None and got is None, "optional call"); nerr += 1; failed = True
                else: ctx.check(isinstance(ex, Boom), "exception must propagate")
        ctx.check((dyn.func is not None) == loaded, f"loaded state after {op}")
        ctx.check(len(dyn.errors) == nerr, f"error records after {op}")
        ctx.check(bool(dyn.call_fail) == failed and not dyn.compile_fail, f"failure flags after {op}")
        ctx.check(isinstance(str(dyn), str), "printable in every state")
        source_of(ctx, dy, dyn, f, how, src)
        ctx.cover(f"{op}")


def source_of(ctx, dy, dyn, f, how, src):
    want = SOURCES[src] if how == "source" else dedent(getsource(f))
    for obj in (dyn, partial(dyn, 1), partial(partial(dyn), x=2)):
        ctx.check(ctx.ok("looking up the source", dy.digsource, obj) == want, "another source was found")


class Holder:
    def method(self, x): return x


def sources(ctx):
    """objects whose source can be looked up, and objects without"""
    dy = ctx.mod("dynamic")
    fs = [DF.one, DF.default, DF.nested, Holder.method, Holder().method]
    f = fs[ctx.choice("f", len(fs))]
    text = getsource(f)
    dyn = dy.Dynamic.from_function(f)
    for obj in (f, partial(f, 1), partial(partial(f, 1), k=2)): ctx.check(dy.digsource(obj) == text, "another source was found")
    for obj in (dyn, partial(dyn)): ctx.check(dedent(dy.digsource(obj)) == dedent(text), "another source was found")
    for obj in (3, None, len): ctx.raises((TypeError, OSError), dy.digsource, "an object without source", obj)
    ctx.cover("found")


BROKEN = ("def f(:", "x = 1", "", "def f(x): return y z", "def f(x):\nreturn 1", "(")


def broken(ctx, bad, n):
    """sources that define nothing, repaired later"""
    dy = ctx.mod("dynamic")
    g = {"F": spy(ctx, False), "D": ctx.value("D"), "E": ctx.value("E")}
    opt = ctx.bool("optional")
    _, ex = ctx.attempt(dy.Dynamic, BROKEN[bad], dict(g), opt)
    ctx.check(ex is not None, "a source that defines nothing must not load silently")
    dyn = dy.Dynamic(BROKEN[bad], globals_=dict(g), optional=opt, lazy=True)
    ctx.check(dyn.func is None and not dyn.compile_fail and len(dyn.errors) == 0, "nothing was tried yet")
    good, nerr = False, 0
    for i in range(n):
        op = ctx.choice(f"op{i}", 4)
        if op < 3:
            _, ex = ctx.attempt(*((dyn.load,), (dyn.load, True), (dyn, 1))[op])
            if good: break
            ctx.check(ex is not None and dyn.func is None, "a broken source must not give a function")
            nerr += 1
            ctx.check(len(dyn.errors) == nerr and dyn.errors[-1].get("category") == "compile", "the failure must be recorded")
            ctx.check(bool(dyn.compile_fail) and not dyn.call_fail, "the failure must be flagged")
        else:
            ctx.ok("unloading", dyn.unload)
            ctx.check(not dyn.errors and not dyn.compile_fail and not dyn.call_fail, "unloading clears everything")
            nerr = 0
    ctx.ok("unloading", dyn.unload)
    dyn.source = SOURCES["default"]
    ctx.ok("loading the repaired source", dyn.load)
    ref = {**g}; exec(SOURCES["default"], ref)
    v = ctx.value("v")
    ctx.eq(dyn(v), ref["f"](v), "result after repair")
    ctx.check(not dyn.compile_fail and not dyn.errors, "no failure left")


def cases(tier):
    out = []
    n = 4 if tier == "quick" else 5
    out.append(("sources", sources, {}))
    for b in range(len(BROKEN)): out.append((f"broken-{b}", broken, dict(bad=b, n=n - 1)))
    for how, srcs in (("source", ("default", "one")), ("function", ("one", "default", "nested"))):
        for s in srcs:
            for op in OPS:
                if tier == "quick":
                    out.append((f"{how}-{s}-{op}", life, dict(ops_first=(op,), n=n if s == "default" and how == "source" else n - 1, how=how, src=s)))
                else:
                    for op2 in OPS: out.append((f"{how}-{s}-{op}-{op2}", life, dict(ops_first=(op, op2), n=n if s == "default" and how == "source" else n - 1, how=how, src=s)))
    return out

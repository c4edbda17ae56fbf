from functools import partial
from pathlib import Path
from harness.lib import *
import json
BOUNDS = "all sequences of at most 4 (thorough: 5) operations out of track (functions, callables without a name, plain strings; 0..2 extra fields), set metadata, dump, pause and clear, with arbitrary metadata and extra values under colliding and distinct field names, tracked from plain, nested and anonymous functions"
OUTSIDE = "extra fields called trackcount; mutable metadata values changed by the caller"

TOK = {}


def fakes(symbolic):
    if not symbolic: return {}
    from sx.loader import FakeModule

    def dumps(obj, *a, **k):
        TOK[len(TOK)] = snapshot(obj)
        return json.dumps({"token": len(TOK) - 1})

    def dump(obj, stream, *a, **k):
        stream.write(dumps(obj))
    return {"json": FakeModule("json", json, {"dumps": dumps, "dump": dump})}


def snapshot(x):
    if type(x) is dict: return {k: snapshot(v) for k, v in x.items()}
    if type(x) is list: return [snapshot(v) for v in x]
    return x


def alpha(x): return x
class Named:
    def __call__(self): pass
    def __str__(self): return "a named thing"


TARGETS = [(alpha, "alpha"), (partial(alpha, 1), None), ("some step", "some step"), (Named(), "a named thing"), (len, "len")]
FIELDS = [(), ("m",), ("x",), ("m", "x"), ("target",), ("caller", "m")]


def val(ctx, nm):
    """JSON-serialisable arbitrary value"""
    v = ctx.value(nm)
    ok = v.isinst((str, int, float, type(None))) if ctx.symbolic else isinstance(v, (str, int, float, type(None)))
    ctx.assume(ok)
    return v


def outer(tr, tg, extra):
    tr.track(tg, **extra)


def inner(tr, tg, extra):
    def nested():
        tr.track(tg, **extra)
    nested()


def who(ctx, i, tr, tg, extra):
    """track from one of several places -> (function, line) of the call"""
    how = ctx.choice(f"how{i}", 3) if i < 2 else i % 3
    if how == 0: outer(tr, tg, extra); return "outer", outer.__code__.co_firstlineno + 1
    if how == 1: inner(tr, tg, extra); return "nested", inner.__code__.co_firstlineno + 2
    return (lambda: (tr.track(tg, **extra), ("<lambda>", LAMBDA))[1])()


LAMBDA = who.__code__.co_firstlineno + 5


def history(ctx, ops, narrow):
    TOK.clear()
    T = ctx.mod("tracker").Tracker
    tr = T("trk", outdir=Path(ctx.tmpdir()))
    meta, want, cnt = {}, [], 0
    for i, op in enumerate(ops):
        if op == "track":
            tg, nm = TARGETS[ctx.choice(f"t{i}", 1 if narrow else len(TARGETS))]
            fs = FIELDS[ctx.choice(f"f{i}", 4 if narrow else len(FIELDS))]
            extra = {k: val(ctx, f"{i}.{k}") for k in fs}
            here = who(ctx, i, tr, tg, extra)
            cnt += 1
            rec = {"target": nm or str(tg), "trackcount": cnt, "caller": here[0], "lineno": here[1], **meta, **extra}
            want.append(rec)
        elif op == "meta":
            fs = FIELDS[1 + ctx.choice(f"f{i}", 3 if narrow else len(FIELDS) - 1)]
            new = {k: val(ctx, f"{i}.{k}") for k in fs}
            tr.set_metadata(**new)
            meta = {**meta, **new}
        elif op == "dump": tr.dump()
        elif op == "pause": tr.paused = ctx.bool(f"p{i}")
        elif op == "clear":
            tr.clear(); want, cnt = [], 0
            ctx.cover("cleared")
        ctx.check(len(tr.history) == len(want), f"number of records after {op}")
        for h, r in zip(tr.history, want):
            for k, v in r.items():
                ctx.check(k in h, f"field {k} missing")
                ctx.eq(h[k], v, f"field {k}")
            # no field of a record comes from anywhere else
            ctx.check(set(h) <= set(r), "a record has a field it was never given")
        ctx.check([h["trackcount"] for h in tr.history] == list(range(1, len(want) + 1)), "numbering")
        ctx.check(tr.log["history"] is tr.history or list(tr.log["history"]) == list(tr.history), "log shows another history")


def cases(tier):
    import itertools
    out = []
    L = 4 if tier == "quick" else 5
    for ln in range(1, L + 1):
        for ops in itertools.product(("track", "meta", "dump", "pause", "clear"), repeat=ln):
            if "track" not in ops or ops.count("dump") + ops.count("pause") > 2 or ops.count("pause") > 1: continue
            if ops.count("track") + ops.count("meta") > 3 and tier == "quick" and ops.count("meta") > 1: continue
            out.append(("-".join(ops), history, dict(ops=ops, narrow=ln > 2)))
    return out

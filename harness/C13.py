from harness.lib import *
from harness import litmodel, shm
from harness.shm import PICKLES, p_dumps, p_loads, world, snap as keep
BOUNDS = ("the json, literal and pickle codecs over strings of at most 3 (thorough: 4) characters out of letters, digits, quotes, backslash, brackets, space, newline and a non-ASCII letter, "
          "arbitrary integers, booleans, None, floats, bytes and lists, tuples, mappings of such values nested up to 2 deep; used alone and as the codec of a Notepad read through a second handle")
OUTSIDE = "values outside a codec's documented domain (not stable through JSON; infinities, NaN and other values with no literal; unpicklable objects)"
ASSUMPTIONS = shm.ASSUMPTIONS[:1] + ["repr, ast.literal_eval, json.dumps and json.loads behave as modelled in harness/litmodel.py on values with symbolic strings and integers (validated by replaying sampled paths)", "pickle is injective"]
ALPHA = ["a", "1", "'", '"', "\\", "[", " ", "\n", "\u00e9"]


def fakes(symbolic):
    f = shm.fakes(symbolic)
    if symbolic: f.update(litmodel.fakes())
    return f


def leaf(ctx, nm, kind, n):
    if kind == "str": return ctx.str(nm, 0, n, alphabet=ALPHA)
    if kind == "int": return ctx.int(nm)
    if kind == "const": return (None, True, False, 0, -7, 12345678901234567890, "", 1.5, -0.25, 1e300)[ctx.choice(nm, 10)]
    if kind == "bytes": return (b"", b"a'\x00\xff")[ctx.choice(nm, 2)]
    return (1j, {1, 2}, set(), (), {1: 2, (1, "a"): [None]}, {None: True, 2.5: b"x"}, "'\"'''")[ctx.choice(nm, 7)]


def value(ctx, shape, n):
    """shape: leaf kind, or (container, shapes...)"""
    cnt = [0]

    def go(s):
        if isinstance(s, str):
            cnt[0] += 1
            return leaf(ctx, f"v{cnt[0]}", s, n if shape == s else 1)
        xs = [go(x) for x in s[1:]]
        if s[0] == "list": return xs
        if s[0] == "tuple": return tuple(xs)
        ks = [ctx.str(f"k{cnt[0]}.{i}", 0, 1, alphabet=ALPHA) for i in range(len(xs))]
        ctx.distinct(*ks)
        return dict(zip(ks, xs))
    return go(shape)


def sametype(a, b):
    from sx.proxies import is_sym
    if is_sym(a) or is_sym(b): return a.__class__ is b.__class__
    if type(a) is not type(b): return False
    if type(a) in (list, tuple): return len(a) == len(b) and all(map(sametype, a, b))
    if type(a) is dict: return len(a) == len(b) and all(sametype(x, y) for x, y in zip(a.items(), b.items()))
    return True


def roundtrip(ctx, codec, shape, n):
    w = world(ctx)
    cd = ctx.mod("codex.codecs")
    factory = getattr(cd, codec + "_codec_factory")
    encode, decode = factory()
    v = value(ctx, shape, n)
    before = keep(v)
    blob = ctx.ok("encoding", encode, v)
    ctx.check(isinstance(blob, (bytes, bytearray)), "an encoding must be bytes")
    got = ctx.ok("decoding", decode, blob)
    ctx.check(sametype(v, got), "another type came back")
    ctx.eq(items(got), items(v), "another value came back")
    ctx.eq(items(v), items(before), "the value itself was changed")
    other_encode, other_decode = factory()
    ctx.eq(items(other_decode(encode(v))), items(v), "codecs of one factory must understand each other")
    ctx.cover("restored")
    # as the codec of a notepad (blocks have exact sizes, so integers are a few lengths only)
    if "int" in str(shape): return
    N = ctx.mod("codex.implements").Notepad
    p = w.name("pad")
    N(p, create=True, codec_factory=factory)["k"] = v
    got = ctx.ok("reading through another handle", lambda: N(p, codec_factory=factory)["k"])
    ctx.check(sametype(v, got), "another type came back from the notepad")
    ctx.eq(items(got), items(v), "another value came back from the notepad")


def items(v):
    if type(v) in (list, tuple): return [items(x) for x in v]
    if type(v) is dict: return [[items(k), items(x)] for k, x in v.items()]
    return v


def cases(tier):
    q = tier == "quick"
    out = []
    nest = [("list",), ("list", "str"), ("list", "int", "const"), ("list", "str", "str"), ("map",), ("map", "str"), ("map", "int", "const"), ("list", ("map", "str"), "int"),
            ("map", ("list", "str", "int")), ("list", ("list", "const"), ("list",))]
    tup = [("tuple", "str"), ("tuple", "str", "int"), ("list", ("tuple", "str")), ("map", ("tuple", "int", "str"))]
    for c in ("json", "ast", "pickle"):
        for s in ["str", "int", "const"] + nest + (tup + ["bytes", "odd", ("list", "bytes"), ("tuple", "odd")] if c != "json" else []):
            out.append((f"{c}-{s if isinstance(s, str) else '-'.join(map(str, s))}".replace(" ", "").replace("'", ""), roundtrip, dict(codec=c, shape=s, n=3 if q else 4)))
    return out

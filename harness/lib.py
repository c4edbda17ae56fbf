"""shared pieces of the harnesses"""
from collections import OrderedDict, UserDict
from functools import lru_cache


# ---- shapes of nested mappings: a mapping is a tuple of children; a child is 'L' (leaf value)
#      or a mapping
@lru_cache(None)
def forests(n, leaf=("L",)):
    """all ordered forests with exactly n entries (empty nested mappings included)"""
    if n == 0: return ((),)
    out = []
    for k in range(n):            # first child has k entries below it
        for rest in forests(n - 1 - k, leaf):
            for sub in forests(k, leaf):
                out.append((sub,) + rest)
            if k == 0:
                for l in leaf: out.append((l,) + rest)
    return tuple(out)


def shapes(lo, hi, leaf=("L",), maxdepth=9):
    return [f for n in range(lo, hi + 1) for f in forests(n, leaf) if depth(f) <= maxdepth]


def depth(s):
    return 0 if isinstance(s, str) else 1 + max([depth(c) for c in s], default=0)


def size(s):
    return 0 if isinstance(s, str) else sum(1 + size(c) for c in s)


def chunks(seq, n):
    seq = list(seq)
    k = max(1, -(-len(seq) // n))
    return [seq[i:i + k] for i in range(0, len(seq), k)]


class MyMap(UserDict):
    """a Mapping that is not a dict"""


def build(ctx, shape, pre, typ=dict, types=None, leafval=None, keyf=None):
    """mapping of the given shape with symbolic distinct keys and symbolic leaves"""
    ks = [(keyf or ctx.key)(f"{pre}k{i}") for i in range(len(shape))]
    ctx.distinct(*ks)
    d = (types or {}).get(pre, typ)()
    for i, (k, c) in enumerate(zip(ks, shape)):
        p = f"{pre}{i}."
        if c == "L":
            d[k] = leafval(p) if leafval else ctx.value(p + "v")
        elif c == "S":
            d[k] = [ctx.value(p + "v"), {ctx.key(p + "sk"): ctx.value(p + "sv")}]
        else:
            d[k] = build(ctx, c, p, typ, types, leafval, keyf)
    return d


def snap(x):
    """structure of nested mappings with identity of every level kept"""
    if isinstance(type(x), type) and issubclass(type(x), (dict, UserDict)):
        return (type(x), id(x), [(k, snap(v)) for k, v in x.items()])
    if type(x) is list:
        return (list, id(x), [snap(v) for v in x])
    return x


def plain(x):
    """like snap but by value only"""
    if isinstance(type(x), type) and issubclass(type(x), (dict, UserDict)):
        return ("map", [(k, plain(v)) for k, v in x.items()])
    if type(x) is list: return ("list", [plain(v) for v in x])
    return x

"""parquet files, tables and compute functions as used by dustgoggles.mosaic.

SymWorld: a model over symbolic column values; RealWorld: real files (replay).
Column types: "int64", "double" (values are multiples of 1/8 of a scale, so that
differences and dyadic subdivisions are exact)."""
import math, os
import z3
from sx import core
from sx.loader import FakeModule
from sx.proxies import *

I64 = (-2 ** 63, 2 ** 63 - 1)
SCALE = {"double": 0, "huge": 990}      # exponent of the unit of a SymReal


def Inc(x): raise core.Inconclusive("parquet model: " + x)


class SymReal(Sym):
    """num / den * 2**exp (num an Int expression); float64 arithmetic on it is exact on the values
    used, up to overflow"""
    __slots__ = ("num", "den", "exp")
    __class__ = property(lambda self: float)

    def __init__(self, num, den=1, exp=0): self.num, self.den, self.exp = num, den, exp

    def _co(self, o):
        """-> (numerator, denominator) in this scale, or a special float, or None"""
        t = type(o)
        if t is SymReal:
            if o.exp != self.exp: Inc("mixed scales")
            return o.num, o.den
        if t is SymInt: return o.e, 2 ** self.exp
        if issubclass(t, int): return z3.IntVal(int(o)), 2 ** self.exp
        if issubclass(t, float):
            if o != o or abs(o) == math.inf: return float(o)
            n, d = float(o).as_integer_ratio()
            g = math.gcd(n, 2 ** self.exp)
            return z3.IntVal(n // g), d * (2 ** self.exp // g)
        return None

    def _cmp(self, o, f):
        c = self._co(o)
        if c is None: return NotImplemented
        if type(c) is float: return bool(f(0.0, c))
        g = math.gcd(self.den, c[1])
        return mkbool(f(self.num * (c[1] // g), c[0] * (self.den // g)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __hash__(self): return HASH
    def __bool__(self): return core.cur().fork(self.num != 0)

    def _mk(self, num, den):
        # beyond the largest double: infinite
        num = z3.simplify(num)
        lim = den * 2 ** (1024 - self.exp)
        if core.cur().fork(num >= lim): return math.inf
        if core.cur().fork(num <= -lim): return -math.inf
        return SymReal(num, den, self.exp)

    def _bin(self, o, f):
        c = self._co(o)
        if c is None: return NotImplemented
        if type(c) is float: return f(0.0, c)
        l = math.lcm(self.den, c[1])
        return self._mk(f(self.num * (l // self.den), c[0] * (l // c[1])), l)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if type(o) is not int and type(o) is not float: Inc("product")
        n, d = o.as_integer_ratio()
        return self._mk(self.num * n, self.den * d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) is not int and type(o) is not float: Inc("quotient")
        n, d = o.as_integer_ratio()
        if n < 0: n, d = -n, -d
        return self._mk(self.num * d, self.den * n)

    def __neg__(self): return SymReal(-self.num, self.den, self.exp)
    def item(self): return self
    def tolist(self): return self
    def is_integer(self): Inc("is_integer")
    def __float__(self): Inc("float() in C code")
    def __index__(self): raise TypeError("'float' object cannot be interpreted as an integer")
    def __repr__(self): return "<symreal>"


def isfinite(x):
    t = type(x)
    if t in (SymReal, SymInt): return True
    return math.isfinite(x)


def fl(x=0.0):
    if type(x) is SymReal: return x
    if type(x) is SymInt:
        # integers beyond 2**53 are rounded
        if core.cur().fork(z3.And(x.e <= 2 ** 53, x.e >= -2 ** 53)): return SymReal(x.e)
        Inc("float of a wide integer")
    return float(x)


class FLOAT:
    pass


def float_builtin():
    from sx.loader import _Meta

    class FLT(metaclass=_Meta):
        real = float
        def __new__(cls, x=0.0): return fl(x)
    return FLT


class Edges:
    def __init__(self, v): self.v = v
    def tolist(self): return list(self.v)
    def __iter__(self): return iter(self.v)
    def __len__(self): return len(self.v)
    def __getitem__(self, k): return Edges(self.v[k]) if type(k) is slice else self.v[k]
    def __setitem__(self, k, x): self.v[k] = x
    def __reversed__(self): return reversed(self.v)


def linspace(a, b, n, arbitrary=None):
    if n == 1: return Edges([fl(a)])
    if not (is_sym(a) or is_sym(b)):
        import numpy as np
        return np.linspace(a, b, n)
    a, b = fl(a), fl(b)
    d = b - a
    if not isfinite(d): return Edges([a] + [math.nan] * (n - 2) + [b])
    if arbitrary is not None:
        prev, out = a, [a]
        for i in range(n - 2):
            x = arbitrary(i)
            core.cur().assume(z3.And(zb(x >= prev), zb(x <= b)) if not isinstance(zb(x >= prev), bool) else True)
            out.append(x); prev = x
        return Edges(out + [b])
    return Edges([a] + [a + d / (n - 1) * i for i in range(1, n - 1)] + [b])


# ------------------------------------------------------------------ tables
class ArrowInvalid(ValueError):
    pass


class Col:
    def __init__(self, typ, v): self.type, self.v = typ, list(v)
    def __len__(self): return len(self.v)
    def __iter__(self): return iter(self.v)
    def __getitem__(self, k): return Col(self.type, self.v[k]) if type(k) is slice else self.v[k]
    def to_pylist(self): return list(self.v)
    def to_numpy(self, *a, **k): return list(self.v)
    def combine_chunks(self): return self
    null_count = 0


class Schema:
    def __init__(self, names, types): self.names, self.types = list(names), list(types)
    def __eq__(self, o): return isinstance(o, Schema) and (self.names, self.types) == (o.names, o.types)
    __hash__ = None
    def equals(self, o): return self == o
    def __iter__(self): return iter(self.names)


class Table:
    def __init__(self, cols): self.cols = dict(cols)
    @property
    def num_rows(self): return len(next(iter(self.cols.values()))) if self.cols else 0
    def __len__(self): return self.num_rows
    __sx_len__ = __len__
    column_names = property(lambda s: list(s.cols))
    num_columns = property(lambda s: len(s.cols))
    schema = property(lambda s: Schema(s.cols, [c.type for c in s.cols.values()]))
    shape = property(lambda s: (s.num_rows, len(s.cols)))
    columns = property(lambda s: list(s.cols.values()))

    def column(self, k):
        if type(k) is int: return list(self.cols.values())[k]
        if k not in self.cols: raise KeyError(k)
        return self.cols[k]

    def __getitem__(self, k):
        if type(k) is slice: return self._rows(range(*k.indices(len(self))))
        return self.column(k)

    def _rows(self, ix):
        ix = list(ix)
        return Table({n: Col(c.type, [c.v[i] for i in ix]) for n, c in self.cols.items()})

    def select(self, names): return Table({n: self.column(n) for n in names})
    def drop(self, names): return Table({n: c for n, c in self.cols.items() if n not in names})
    drop_columns = drop

    def filter(self, mask, *a, **k):
        if isinstance(mask, Expr): mask = mask.on(self)
        if isinstance(mask, Col): mask = mask.v
        return self._rows(i for i, m in enumerate(mask) if bool(m))

    def take(self, ix): return self._rows(int(i) for i in ix)
    def slice(self, offset=0, length=None):
        return self._rows(range(len(self))[offset:None if length is None else offset + length])
    def combine_chunks(self): return self
    def sort_by(self, sorting, **kw):
        if isinstance(sorting, str): sorting = [(sorting, "ascending")]
        return self.take(sort_indices(self, sort_keys=sorting))
    def to_pydict(self): return {n: list(c.v) for n, c in self.cols.items()}
    def equals(self, o): Inc("equals")


class Expr:
    """a field expression (dataset filters)"""
    def __init__(self, f): self.f = f
    def on(self, table): return self.f(table)
    def __lt__(self, o): return Expr(lambda t: cmp("lt", self.f(t), o))
    def __le__(self, o): return Expr(lambda t: cmp("le", self.f(t), o))
    def __gt__(self, o): return Expr(lambda t: cmp("gt", self.f(t), o))
    def __ge__(self, o): return Expr(lambda t: cmp("ge", self.f(t), o))
    def __eq__(self, o): return Expr(lambda t: cmp("eq", self.f(t), o))
    def __ne__(self, o): return Expr(lambda t: cmp("ne", self.f(t), o))
    def __and__(self, o): return Expr(lambda t: Col("bool", [And_(a, b) for a, b in zip(self.f(t), o.f(t))]))
    def __or__(self, o): return Expr(lambda t: Col("bool", [Or_(a, b) for a, b in zip(self.f(t), o.f(t))]))
    def __invert__(self): return Expr(lambda t: Col("bool", [Not_(a) for a in self.f(t)]))
    __hash__ = object.__hash__


def sort_indices(t, sort_keys=(), **kw):
    if isinstance(t, Col): Inc("sort_indices of an array")
    for _, d in sort_keys:
        if d not in ("ascending", "descending"): raise ValueError(f"Order string must be one of ascending, descending")
    out = []
    for i in range(len(t)):
        j = len(out)
        while j > 0 and _before(t, sort_keys, i, out[j - 1]): j -= 1
        out.insert(j, i)
    return out


def _before(t, keys, a, b):
    for c, d in keys:
        x, y = t.column(c).v[a], t.column(c).v[b]
        if d == "descending": x, y = y, x
        if bool(x < y): return True
        if len(keys) > 1 and bool(x == y): continue
        return False
    return False


OPS = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b,
       "ge": lambda a, b: a >= b, "eq": lambda a, b: a == b, "ne": lambda a, b: Not_(a == b)}


def cmp(op, a, b):
    if isinstance(a, Expr): return Expr(lambda t: cmp(op, a.f(t), b))
    if isinstance(b, Expr): return Expr(lambda t: cmp(op, a, b.f(t)))
    if not isinstance(a, Col) and not isinstance(b, Col): Inc("comparison of scalars")
    flip = not isinstance(a, Col)
    col, sc = (b, a) if flip else (a, b)
    if isinstance(sc, Col):
        return Col("bool", [OPS[op](x, y) for x, y in zip(a.v, b.v)])
    if isinstance(sc, Scalar): sc = sc.v
    if sc is None: Inc("comparison to null")
    f = OPS[op]
    if col.type == "int64" and isinstance(sc, float):
        # the integers are converted to doubles, which fails for wide ones
        for x in col.v:
            if not bool(And_(x <= 2 ** 53, x >= -2 ** 53)): raise ArrowInvalid("Integer value out of range of double")
    elif col.type == "int64":
        if not bool(And_(sc >= I64[0], sc <= I64[1])): raise OverflowError("Python int too large to convert to C long")
    return Col("bool", [f(sc, x) if flip else f(x, sc) for x in col.v])


class Scalar:
    def __init__(self, v): self.v = v
    def as_py(self): return self.v


def concat_tables(ts, **kw):
    ts = list(ts)
    if not ts: raise ArrowInvalid("Must pass at least one table")
    for t in ts[1:]:
        if not t.schema == ts[0].schema: raise ArrowInvalid("Schema at index 1 was different")
    return Table({n: Col(c.type, [x for t in ts for x in t.cols[n].v]) for n, c in ts[0].cols.items()})


def _minmax(v):
    lo = hi = v[0]
    for x in v[1:]:
        if bool(x < lo): lo = x
        elif bool(x > hi): hi = x
    return lo, hi


class Meta:
    def __init__(self, f, stats=True):
        self.groups, self.stats, self.cache = f, stats, {}
    num_row_groups = property(lambda s: len(s.groups))
    num_columns = property(lambda s: len(s.groups[0].cols) if s.groups else 0)
    num_rows = property(lambda s: sum(len(g) for g in s.groups))

    def row_group(self, g):
        if not 0 <= g < len(self.groups): raise IndexError("row group out of range")
        return Group(self, g)


class Group:
    def __init__(self, m, g): self.m, self.g = m, g
    num_columns = property(lambda s: s.m.num_columns)
    num_rows = property(lambda s: len(s.m.groups[s.g]))

    def column(self, c):
        if not 0 <= c < self.num_columns: raise IndexError("column out of range")
        return Chunk(self.m, self.g, c)


class Chunk:
    def __init__(self, m, g, c): self.m, self.g, self.c = m, g, c

    def to_dict(self):
        t = self.m.groups[self.g]
        name, col = list(t.cols.items())[self.c]
        key = (self.g, self.c)
        if key not in self.m.cache:
            lo, hi = _minmax(col.v) if len(col) else (None, None)
            self.m.cache[key] = (lo, hi)
        lo, hi = self.m.cache[key]
        st = dict(has_min_max=len(col) > 0, min=lo, max=hi, null_count=0, distinct_count=None,
                  num_values=len(col), physical_type=col.type.upper())
        d = dict(file_offset=4, file_path="", physical_type="INT64" if col.type == "int64" else "DOUBLE", num_values=len(col),
                 path_in_schema=name, is_stats_set=True, statistics=dict(st), compression="SNAPPY",
                 encodings=("PLAIN", "RLE", "RLE_DICTIONARY"), has_dictionary_page=True,
                 dictionary_page_offset=4, data_page_offset=40, total_compressed_size=80, total_uncompressed_size=90)
        return d


class PFile:
    """an open model file"""
    def __init__(self, w, fn, *a, **k):
        self.w, self.fn = w, fn
        self.t = w.store(fn)
        w.opened.append(self)
        self.closed = False
    metadata = property(lambda s: s.w.meta(s.fn))
    num_row_groups = property(lambda s: len(s.t))
    schema_arrow = property(lambda s: s.t[0].schema)

    def read_row_group(self, i, columns=None, **k):
        if self.closed: raise ValueError("I/O operation on closed file.")
        i = i.__index__()
        if not 0 <= i < len(self.t): raise IndexError("row group out of range")
        t = self.t[i]
        return t.select([c for c in t.cols if c in columns]) if columns is not None else Table(t.cols)

    def read_row_groups(self, ix, columns=None, **k): return concat_tables([self.read_row_group(i, columns) for i in ix])
    def read(self, columns=None, **k): return self.read_row_groups(range(len(self.t)), columns)
    def close(self, *a, **k): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


class PWriter:
    def __init__(self, w, where, schema, **k):
        self.w, self.where, self.schema, self.kw, self.is_open = w, where, schema, k, True
        if k.get("version", "2.6") not in ("1.0", "2.4", "2.6"): raise ValueError("unsupported parquet version")
        self.groups = []
        w.writers.append(self)
        w.files.pop(where, None)

    def write_table(self, t, row_group_size=None, **k):
        if not self.is_open: raise AssertionError("writer closed")
        if not t.schema == self.schema: raise ValueError("Table schema does not match schema used to create file")
        n = 1 << 20 if row_group_size is None else row_group_size
        if n <= 0: raise ArrowInvalid("invalid row group size")
        for i in range(0, len(t), n): self.groups.append(t.slice(i, n))
    write = write_table

    def close(self):
        if self.is_open:
            self.w.files[self.where] = self.groups
        self.is_open = False
    def __enter__(self): return self
    def __exit__(self, *a): self.close(); return False


class SymWorld:
    def __init__(self, ctx, edges=None):
        self.ctx, self.files, self.writers, self.opened, self.metas = ctx, {}, [], [], {}
        SymWorld.cur, self.edges = self, edges

    def store(self, fn):
        fn = os.fspath(fn)
        if fn not in self.files: raise FileNotFoundError(fn)
        return self.files[fn]

    def meta(self, fn):
        if fn not in self.metas: self.metas[fn] = Meta(self.store(fn))
        return self.metas[fn]

    def put(self, fn, groups, types):
        """groups: list of {column: values}"""
        self.files[fn] = [Table({n: Col(types[n], v) for n, v in g.items()}) for g in groups]

    def path(self, name): return "/model/" + name
    def pfile(self, fn): return PFile(self, fn)
    def rows(self, table): return table.to_pydict()
    def result(self, fn):
        """-> row groups as dicts, or None when not (completely) written"""
        if fn not in self.files: return None
        return [g.to_pydict() for g in self.files[fn]]
    def all_closed(self): return all(not w.is_open for w in self.writers)
    def bump(self, table, col, by):
        return Table({n: Col(c.type, [x + by for x in c.v]) if n == col else c for n, c in table.cols.items()})
    def dictionary(self, fn):
        k = [w for w in self.writers if w.where == fn][-1].kw
        return k.get("use_dictionary", True)


class RealWorld:
    def __init__(self, ctx, edges=None):
        self.ctx, self.d = ctx, ctx.tmpdir()
        self.writers = []
        import pyarrow.parquet as pq
        real = pq.ParquetWriter
        rw = self

        class Tracked(real):
            def __init__(s, where, *a, **k):
                rw.writers.append((where, s))
                super().__init__(where, *a, **k)
        pq.ParquetWriter = Tracked
        ctx.defer(lambda: setattr(pq, "ParquetWriter", real))

    def path(self, name): return os.path.join(self.d, name)

    def put(self, fn, groups, types):
        import pyarrow as pa, pyarrow.parquet as pq
        ty = {"int64": pa.int64(), "double": pa.float64()}
        schema = pa.schema([(n, ty[types[n]]) for n in groups[0]])
        with pq.ParquetWriter(fn, schema) as w:
            for g in groups:
                w.write_table(pa.table({n: pa.array(v, ty[types[n]]) for n, v in g.items()}), row_group_size=100)
        self.writers.clear()

    def pfile(self, fn):
        import pyarrow.parquet as pq
        return pq.ParquetFile(fn)

    def rows(self, table): return table.to_pydict()

    def result(self, fn):
        import pyarrow.parquet as pq
        try:
            f = pq.ParquetFile(fn)
        except Exception:
            return None
        return [f.read_row_group(i).to_pydict() for i in range(f.num_row_groups)]

    def all_closed(self): return all(not w.is_open for _, w in self.writers)

    def bump(self, table, col, by):
        import pyarrow.compute as pac
        i = table.column_names.index(col)
        return table.set_column(i, col, pac.add(table[col], by))

    def dictionary(self, fn):
        import pyarrow.parquet as pq
        m = pq.read_metadata(fn)
        if m.num_row_groups == 0: return None
        return m.row_group(0).column(0).to_dict()["has_dictionary_page"]


def world(ctx, edges=None):
    return (SymWorld if ctx.symbolic else RealWorld)(ctx, edges)


def fakes(symbolic):
    if not symbolic: return {}
    import pyarrow as pa, pyarrow.compute as pac, pyarrow.parquet as pq, numpy as np
    W = lambda: SymWorld.cur
    ops = {n: (lambda o: lambda a, b: cmp(o, a, b))(o) for n, o in
           [("less", "lt"), ("less_equal", "le"), ("greater", "gt"), ("greater_equal", "ge"), ("equal", "eq"), ("not_equal", "ne")]}

    def both(f):
        def g(a, b):
            if isinstance(a, Expr): return a & b if f is And_ else a | b
            return Col("bool", [f(x, y) for x, y in zip(a.v, b.v)])
        return g
    pacf = FakeModule("pyarrow.compute", pac, {**ops, "filter": lambda t, m, *a, **k: t.filter(m), "and_": both(And_), "or_": both(Or_),
        "and_kleene": both(And_), "or_kleene": both(Or_), "invert": lambda a: ~a if isinstance(a, Expr) else Col("bool", [Not_(x) for x in a.v]),
        "field": lambda n: Expr(lambda t: t.column(n)), "scalar": Scalar, "take": lambda t, ix, **k: t.take(ix), "sort_indices": sort_indices,
        "min_max": lambda c: Inc("min_max"), "sum": lambda c: Inc("sum"), "array_sort_indices": lambda *a, **k: Inc("sort")})
    for n in ("min_max", "sum"): pass
    pqf = FakeModule("pyarrow.parquet", pq, {"read_metadata": lambda fn, *a, **k: W().meta(fn), "ParquetFile": lambda fn, *a, **k: PFile(W(), fn),
        "ParquetWriter": lambda where, schema, **k: PWriter(W(), where, schema, **k),
        "read_table": lambda fn, columns=None, **k: PFile(W(), fn).read(columns) if not k.get("filters") else Inc("read_table filters"),
        "write_table": lambda *a, **k: Inc("write_table")})
    paf = FakeModule("pyarrow", pa, {"concat_tables": concat_tables, "Table": Table, "scalar": lambda v, *a, **k: Scalar(v), "parquet": pqf, "compute": pacf,
                                     "ArrowInvalid": ArrowInvalid})

    def np_linspace(a, b, num=50, **k):
        if k: Inc("linspace options")
        return linspace(a, b, num, W().edges)
    npf = FakeModule("numpy", np, {"linspace": np_linspace, "isfinite": isfinite, "isinf": lambda x: not isfinite(x) if is_sym(x) else np.isinf(x),
                                   "isnan": lambda x: False if is_sym(x) else np.isnan(x)})
    return {"pyarrow": paf, "pyarrow.parquet": pqf, "pyarrow.compute": pacf, "numpy": npf}


def builtins_(symbolic):
    return {"float": float_builtin()} if symbolic else {}

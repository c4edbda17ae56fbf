"""numpy arrays of symbolic numbers, as used by dustgoggles.pivot's downcasting.

Integer elements are mathematical integers within their type's range.  A floating value (V) has two
faces: its place in the order of all extended precision numbers (an Int, plus a not-a-number flag), on
which paths are decided, and its exact IEEE term (z3 FP).  Comparisons, classification, negation,
absolute value and widening are exact on the first face; rounding, differences and quotients are
arbitrary there but for a few axioms, which can only add behaviours.  Before a counterexample counts,
the path and the violated assertion are solved again on the second face (Engine._refine).
An integer obtained from a float stays an (integral) floating value, which loses nothing."""
import math, warnings
import numpy as np
import z3
from sx import core
from sx.loader import FakeModule
from sx.proxies import *


def Inc(x): raise core.Inconclusive("numeric model: " + x)


RNE, RTZ = z3.RNE(), z3.RTZ()
SORTS = {"float16": z3.FPSort(5, 11), "float32": z3.FPSort(8, 24), "float64": z3.FPSort(11, 53), "longdouble": z3.FPSort(15, 64)}
WIDTH = {"float16": 16, "float32": 32, "float64": 64, "longdouble": 79}
LD = np.dtype(np.longdouble)
INF = 0x7fff << 63


def fname(dt):
    dt = np.dtype(dt)
    return "longdouble" if dt == LD else dt.name


def sort(dt): return SORTS[fname(dt)]


# ------------------------------------------------------------------ concrete representations
def ordinal(x):
    """place of a number among all extended precision numbers"""
    raw = np.longdouble(x).tobytes()
    man, se = int.from_bytes(raw[:8], "little"), int.from_bytes(raw[8:10], "little")
    o = ((se & 0x7fff) << 63) | (man & (2 ** 63 - 1))
    return -o if se >> 15 else o


def unordinal(o):
    a = min(abs(o), INF)
    exp, man = a >> 63, a & (2 ** 63 - 1)
    raw = (man | ((exp != 0) << 63)).to_bytes(8, "little") + (exp | (o < 0) << 15).to_bytes(2, "little") + bytes(LD.itemsize - 10)
    return np.frombuffer(raw, LD)[0]


def bits(x, dt):
    """the encoding used for inputs"""
    n = fname(dt)
    with np.errstate(all="ignore"): raw = np.dtype(dt).type(x).tobytes()
    if n != "longdouble": return int.from_bytes(raw, "little")
    man, se = int.from_bytes(raw[:8], "little"), int.from_bytes(raw[8:10], "little")
    return (se >> 15) << 78 | (se & 0x7fff) << 63 | man & (2 ** 63 - 1)


def unbits(b, dt):
    n = fname(dt)
    if n != "longdouble": return np.frombuffer(b.to_bytes(WIDTH[n] // 8, "little"), dt)[0]
    o = b & (2 ** 78 - 1)
    if o >> 63 == 0x7fff and o & (2 ** 63 - 1): return np.longdouble("nan")
    return -unordinal(o) if b >> 78 else unordinal(o)


# ------------------------------------------------------------------ values
class V:
    """o: order (Int or int); n: is it no number (Bool or bool); e: FP term; whole: an integer"""
    __slots__ = ("o", "n", "e", "whole", "c", "mag", "of")

    def __init__(self, o, n, e, whole=False, c=None, mag=None):
        self.o, self.n, self.e, self.whole, self.c = o, n, e, whole, c
        self.mag, self.of = mag, None      # the absolute value; for an absolute value, a number it is that of
    sort = property(lambda s: s.e.sort())


def constv(x, s):
    """a numpy number as a value of sort s (it must be one)"""
    name = next(n for n, y in SORTS.items() if y == s)
    dt = LD if name == "longdouble" else np.dtype(name)
    with np.errstate(all="ignore"):
        x = dt.type(x)
    e = z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits(x, dt), WIDTH[name]), s))
    isnan = bool(np.isnan(x))
    return V(0 if isnan else ordinal(x), isnan, e, c=x)


def atom(co, ce):
    if isinstance(co, bool): return co
    co = z3.simplify(co)
    if z3.is_true(co): return True
    if z3.is_false(co): return False
    ex, pos = core.cur().exact, True
    while z3.is_not(co): co, ce = co.arg(0), z3.Not(ce)
    ex[co.get_id()] = (co, ce)
    return mkbool(co) if z3.simplify(co).eq(co) else SymBool(co)


def atom_(co, ce):
    neg = 0
    if not isinstance(co, bool):
        co = z3.simplify(co)
        while z3.is_not(co): co, neg = co.arg(0), 1 - neg
        if neg: return Not_(atom(co, z3.Not(ce)))
    return atom(co, ce)


def ok2(a, b): return And_(Not_(mkb(a.n)), Not_(mkb(b.n)))
def mkb(n): return n if isinstance(n, bool) or type(n) is SymBool else mkbool(n)
def le(a, b): return And_(ok2(a, b), atom_(a.o <= b.o, z3.fpLEQ(*same(a, b))))
def lt(a, b): return And_(ok2(a, b), Not_(atom_(b.o <= a.o, z3.fpLEQ(*same(b, a)))))
def eq(a, b): return And_(le(a, b), le(b, a))


def same(a, b):
    """the exact terms in the wider of the two sorts"""
    s = a.sort if a.sort.sbits() >= b.sort.sbits() else b.sort
    return tuple(x.e if x.sort == s else z3.fpFPToFP(RNE, x.e, s) for x in (a, b))


def isnan(a): return mkb(a.n)
def isinf(a): return And_(Not_(isnan(a)), Or_(atom_(a.o >= INF, z3.And(z3.fpIsInf(a.e), z3.fpIsPositive(a.e))), atom_(a.o <= -INF, z3.And(z3.fpIsInf(a.e), z3.fpIsNegative(a.e)))))
def iszero(a): return And_(Not_(isnan(a)), atom_(a.o >= 0, z3.fpGEQ(a.e, z3.FPVal(0, a.sort))), atom_(a.o <= 0, z3.fpLEQ(a.e, z3.FPVal(0, a.sort))))
def isfin(a): return And_(Not_(isnan(a)), Not_(isinf(a)))


class Tab:
    def __init__(self, owner): self.owner, self.m, self.k = owner, {}, 0


def tab():
    eng = core.cur()
    t = getattr(eng, "abstracted", None)
    if t is None or t.owner is not eng.exact: t = eng.abstracted = Tab(eng.exact)
    return t


def abstract(op, args, e, n, axioms, whole=False):
    """an operation whose result is arbitrary but for the axioms"""
    t = tab()
    key = (op, e.sort().ebits(), *[a.e.get_id() for a in args])
    if key not in t.m:
        t.k += 1
        o = z3.Int(f"{op}!{t.k}")
        t.m[key] = (V(o, n, e, whole), args)
        core.cur().axiom(z3.And(o <= INF, o >= -INF, *axioms(o)))
    return t.m[key][0]


def sg(o, a): return [z3.Implies(a >= 0, o >= 0), z3.Implies(a <= 0, o <= 0)]


def limit(s, f="max"):
    name = next(n for n, x in SORTS.items() if x == s)
    return ordinal(getattr(np.finfo(LD if name == "longdouble" else name), f))


def conv(a, s):
    if a.sort == s: return a
    if a.c is not None: return constv(a.c, s)
    e = z3.fpFPToFP(RNE, a.e, s)
    if s.sbits() >= a.sort.sbits():
        if a.of is not None: return fabs(conv(a.of, s))
        key = ("widen", s.ebits(), a.e.get_id())
        t = tab()
        if key not in t.m: t.m[key] = (V(a.o, a.n, e, a.whole), a)
        return t.m[key][0]
    lim = limit(s)
    return abstract("conv", (a,), e, a.n, lambda o: [*sg(o, a.o), z3.Implies(a.o >= INF, o >= INF), z3.Implies(a.o <= -INF, o <= -INF),
        z3.Implies(z3.And(a.o <= lim, a.o >= -lim), z3.And(o <= lim, o >= -lim)), z3.Or(z3.And(o <= lim, o >= -lim), o == INF, o == -INF)], a.whole)


def ftrunc(a, mode=RTZ):
    if a.whole: return a
    if a.c is not None:
        f = {str(RTZ): np.trunc, str(RNE): np.rint, str(z3.RTN()): np.floor, str(z3.RTP()): np.ceil}[str(mode)]
        r = constv(f(a.c), a.sort); r.whole = True
        return r
    rtz = mode.eq(RTZ)
    return abstract(f"int{mode}", (a,), z3.fpRoundToIntegral(mode, a.e), a.n, lambda o: [*sg(o, a.o), z3.Implies(a.o >= INF, o >= INF),
        z3.Implies(a.o <= -INF, o <= -INF), z3.Implies(z3.And(a.o < INF, a.o > -INF), z3.And(o < INF, o > -INF)),
        *([z3.Implies(a.o >= 0, o <= a.o), z3.Implies(a.o <= 0, o >= a.o)] if rtz else [])], True)


def neg(a): return V(-a.o, a.n, z3.fpNeg(a.e), a.whole, None if a.c is None else -a.c, None if a.c is not None else fabs(a))


def fabs(a):
    if a.c is not None: return constv(abs(a.c), a.sort)
    if a.of is not None: return a
    if a.mag is None:
        key = ("abs", a.e.get_id())
        t = tab()
        if key not in t.m:
            m = V(z3.simplify(z3.If(a.o >= 0, a.o, -a.o)), a.n, z3.simplify(z3.fpAbs(a.e)), a.whole)
            m.of = a
            t.m[key] = (m, a)
        a.mag = t.m[key][0]
    return a.mag


def opp(a, b, flip=False):
    x, y = (INF, -INF) if flip else (INF, INF)
    return Or_(And_(mkbool(a.o >= x), mkbool(b.o >= y) if y > 0 else mkbool(b.o <= y)), And_(mkbool(a.o <= -x), mkbool(b.o <= -y) if y > 0 else mkbool(b.o >= -y)))


def fsub(a, b):
    e = z3.fpSub(RNE, a.e, b.e)
    if a.c is not None and b.c is not None: return constv(a.c - b.c, a.sort)
    key = ("diff", e.sort().ebits(), b.e.get_id(), a.e.get_id())
    if key in tab().m:
        d = tab().m[key][0]
        return V(-d.o, d.n, e, d.whole, None, fabs(d))
    n = Or_(isnan(a), isnan(b), And_(isinf(a), isinf(b), Iff_(pos(a), pos(b))))
    return abstract("diff", (a, b), e, n, lambda o: [z3.Implies(a.o == b.o, o == 0), z3.Implies(a.o != b.o, o != 0), z3.Implies(a.o >= b.o, o >= 0), z3.Implies(a.o <= b.o, o <= 0)], a.whole and b.whole)


def pos(a): return atom_(a.o >= 0, z3.fpGEQ(a.e, z3.FPVal(0, a.sort)))


def fdiv(a, b):
    if a.c is not None and b.c is not None:
        with np.errstate(all="ignore"): return constv(a.c / b.c, a.sort)
    n = Or_(isnan(a), isnan(b), And_(iszero(a), iszero(b)), And_(isinf(a), isinf(b)))
    x, y = fabs(a), fabs(b)
    q = abstract("quot", (x, y), z3.fpDiv(RNE, x.e, y.e), n, lambda o: [o >= 0, z3.Implies(z3.And(x.o == 0, y.o != 0), o == 0)])
    if q.of is None: q.of = q
    if a.of is not None and b.of is not None: return q
    return V(z3.If((a.o >= 0) == (b.o >= 0), q.o, -q.o), n, z3.fpDiv(RNE, a.e, b.e), mag=q)


def fmul(a, b): return abstract("prod", (a, b), z3.fpMul(RNE, a.e, b.e), Or_(isnan(a), isnan(b), And_(iszero(a), isinf(b)), And_(isinf(a), iszero(b))), lambda o: [])
def fadd(a, b): return fsub(a, neg(b))


def fext(vs, up, skipnan):
    """largest (smallest) of the values"""
    if len(vs) == 1: return vs[0]
    if skipnan:
        keep = [v for v in vs if not bool(isnan(v))]
        if not keep: return vs[0]
        vs = keep
    else:
        for v in vs:
            if bool(isnan(v)): return v
    e = vs[0].e
    for v in vs[1:]: e = z3.If(z3.fpLT(e, v.e) if up else z3.fpGT(e, v.e), v.e, e)
    return abstract("max" if up else "min", tuple(vs), e, False, lambda o: [*[(o >= v.o) if up else (o <= v.o) for v in vs], z3.Or(*[o == v.o for v in vs])], all(v.whole for v in vs))


class Num(Sym):
    """a scalar: numpy scalar of type dt, or a python float (dt None)"""
    __slots__ = ("e", "dt")
    __array_ufunc__ = None

    def __init__(self, e, dt): self.e, self.dt = e, dt

    @property
    def __class__(self): return float if self.dt is None else self.dt.type

    dtype = property(lambda s: s.dt)
    ndim = 0
    shape = ()
    size = 1
    def item(self): return Num(conv(self.e, SORTS["float64"]), None) if self.dt is not None and self.dt != LD else self
    def astype(self, dt): return Arr(self.dt, [self.e]).astype(dt)[0]
    def copy(self): return self

    def _pair(self, o):
        """-> the two values in the type the operation happens in, and that type"""
        t = type(o)
        if t is Num or t is IntF:
            if self.dt is None and o.dt is None: return self.e, o.e, None
            dt = self.dt if o.dt is None else o.dt if self.dt is None else np.result_type(self.dt, o.dt)
            s = sort(dt)
            return conv(self.e, s), conv(o.e, s), dt
        if t is SymInt: Inc("float with a symbolic integer")
        if isinstance(o, np.generic):
            dt = o.dtype if self.dt is None else np.result_type(self.dt, o.dtype)
            if dt.kind != "f": Inc("scalar of another kind")
            return conv(self.e, sort(dt)), constv(o, sort(dt)), dt
        if issubclass(t, (int, float)):
            s = SORTS["float64"] if self.dt is None else sort(self.dt)
            if issubclass(t, int) and abs(o) > 2 ** 1000: raise OverflowError("int too large to convert to float")
            return self.e, constv(o, s), self.dt
        return None

    def _cmp(self, o, op):
        if self.dt is None and issubclass(type(o), int) and not is_sym(o):
            # exact for python numbers
            if abs(o) >= 2 ** 64: Inc("comparison with a wide integer")
            c = constv(np.longdouble(int(o)), SORTS["longdouble"])
            p = conv(self.e, SORTS["longdouble"]), c
        else:
            p = self._pair(o)
            if p is None: return NotImplemented
        a, b = p[0], p[1]
        return {"lt": lambda: lt(a, b), "le": lambda: le(a, b), "gt": lambda: lt(b, a), "ge": lambda: le(b, a), "eq": lambda: eq(a, b), "ne": lambda: Not_(eq(a, b))}[op]()

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")
    def __eq__(self, o): return self._cmp(o, "eq")
    def __ne__(self, o): return self._cmp(o, "ne")
    def __hash__(self): return HASH
    def __bool__(self): return not bool(iszero(self.e))

    def _bin(self, o, f):
        p = self._pair(o)
        if p is None: return NotImplemented
        return Num(f(p[0], p[1]), p[2])

    def __add__(self, o): return self._bin(o, fadd)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, fsub)
    def __rsub__(self, o): return self._bin(o, lambda a, b: fsub(b, a))
    def __mul__(self, o): return self._bin(o, fmul)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, fdiv)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: fdiv(b, a))
    def __neg__(self): return Num(neg(self.e), self.dt)
    def __abs__(self): return Num(fabs(self.e), self.dt)
    def __float__(self): Inc("float() in C code")
    def __repr__(self): return "<number>"


class NA:
    """pandas' missing value in a model column"""


def isint(dt): return dt.kind in "iu"


class Arr:
    """one-dimensional; elements: Int terms or numbers (integer types), FP terms (integral ones for
    integer types), booleans"""
    __array_ufunc__ = None

    def __init__(self, dt, v): self.dtype, self.v = np.dtype(dt), list(v)
    size = property(lambda s: len(s.v))
    ndim = 1
    shape = property(lambda s: (len(s.v),))
    itemsize = property(lambda s: s.dtype.itemsize)
    nbytes = property(lambda s: s.dtype.itemsize * len(s.v))
    flat = property(lambda s: s)
    T = property(lambda s: s)
    def __len__(self): return len(self.v)
    def copy(self, *a): return Arr(self.dtype, self.v)
    def ravel(self): return self
    flatten = copy
    def to_numpy(self, *a, **k): return self
    values = property(lambda s: s)
    def __iter__(self): return iter([self.scalar(x) for x in self.v])
    def tolist(self): return [x if isinstance(x, (SymInt, int)) else Num(x, None) for x in self.v]

    def scalar(self, x):
        if self.dtype.kind == "b": return x
        if isinstance(x, V):
            if isint(self.dtype): return IntF(x, self.dtype)
            return Num(x, self.dtype)
        return x

    def __getitem__(self, k):
        if isinstance(k, Arr):
            if k.dtype.kind == "b":
                if len(k) != len(self): raise IndexError("boolean index did not match indexed array")
                return Arr(self.dtype, [x for x, m in zip(self.v, k.v) if bool(m)])
            Inc("index array")
        if type(k) is slice: return Arr(self.dtype, self.v[k])
        if k is Ellipsis: return self
        return self.scalar(self.v[k])

    def __setitem__(self, k, x):
        if isinstance(k, Arr) and k.dtype.kind == "b":
            if isinstance(x, Arr): Inc("masked assignment of an array")
            for i, m in enumerate(k.v):
                if bool(m): self.v[i] = _el(x, self.dtype)
            return
        Inc("assignment")

    def as_fp(self, s):
        out = []
        for x in self.v:
            if isinstance(x, V): out.append(conv(x, s))
            elif isinstance(x, int): out.append(constv(x, s))
            else: Inc("symbolic integers in floating arithmetic")
        return out

    def _bin(self, o, f, cmp=False):
        if isinstance(o, Arr):
            dt = np.result_type(self.dtype, o.dtype)
            n = max(len(self), len(o))
            if len(self) != len(o) and 1 not in (len(self), len(o)): raise ValueError("operands could not be broadcast together")
            if dt.kind != "f":
                if cmp: return Arr(bool, [f(x, y) for x, y in zip(self._ints(), o._ints())])
                return Arr(dt, [wrap(f(x, y), dt) for x, y in zip(self._ints(), o._ints())])
            a, b = self.as_fp(sort(dt)), o.as_fp(sort(dt))
            a, b = a * (n if len(a) == 1 else 1), b * (n if len(b) == 1 else 1)
        else:
            if isinstance(o, (Num, float, np.floating)):
                dt = np.result_type(self.dtype, o.dt if type(o) is Num and o.dt is not None else o.dtype if isinstance(o, np.generic) else np.float64 if isint(self.dtype) else np.float16)
                b = conv(o.e, sort(dt)) if type(o) is Num else constv(o, sort(dt))
            elif self.dtype.kind == "f" and isinstance(o, (int, np.integer)) and not is_sym(o):
                dt = self.dtype
                b = constv(o, sort(dt))
            elif isint(self.dtype) and isinstance(o, int):
                return Arr(bool, [f(x, o) for x in self._ints()]) if cmp else Arr(self.dtype, [wrap(f(x, o), self.dtype) for x in self._ints()])
            else: return NotImplemented
            a = self.as_fp(sort(dt))
            b = [b] * len(a)
        if cmp: return Arr(bool, [f(Num(x, dt), Num(y, dt)) for x, y in zip(a, b)])
        return Arr(dt, [f(Num(x, dt), Num(y, dt)).e for x, y in zip(a, b)])

    def _ints(self): return [self.scalar(x) for x in self.v]
    def __eq__(self, o): return self._bin(o, lambda a, b: a == b, True)
    def __ne__(self, o): return self._bin(o, lambda a, b: a != b, True)
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b, True)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b, True)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b, True)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b, True)
    __hash__ = None
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __neg__(self): return Arr(self.dtype, [neg(x) if isinstance(x, V) else -x for x in self.v])
    def __abs__(self): return Arr(self.dtype, [fabs(x) if isinstance(x, V) else wrap(abs(x), self.dtype) for x in self.v])
    def _bools(self):
        if self.dtype.kind == "b": return self.v
        if self.dtype.kind == "f": return [Not_(iszero(x)) for x in self.v]
        return [x != 0 for x in self._ints()]
    def __and__(self, o): return Arr(bool, [And_(a, b) for a, b in zip(self._bools(), o._bools())])
    def __or__(self, o): return Arr(bool, [Or_(a, b) for a, b in zip(self._bools(), o._bools())])
    def __invert__(self):
        if self.dtype.kind != "b": Inc("inversion of numbers")
        return Arr(bool, [Not_(a) for a in self.v])
    def any(self, *a, **k): return Or_(*self._bools()) if self.v else False
    def all(self, *a, **k): return And_(*self._bools()) if self.v else True
    def sum(self, *a, **k):
        if self.dtype.kind != "b": Inc("sum")
        return sum(1 for x in self.v if bool(x))
    def __bool__(self):
        if len(self.v) != 1: raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(self._bools()[0])

    def _ext(self, up, skipnan=False):
        if not self.v: raise ValueError("zero-size array to reduction operation maximum which has no identity")
        if any(isinstance(x, V) for x in self.v): return self.scalar(fext(self.v, up, skipnan))
        r = self.v[0]
        for x in self.v[1:]:
            a, b = Z(r), Z(x)
            r = mkint(z3.If(a < b if up else a > b, b, a))
        return self.scalar(r)
    def max(self, *a, **k): return self._ext(True)
    def min(self, *a, **k): return self._ext(False)

    def astype(self, dt, copy=True, **k):
        dt = np.dtype(dt)
        if dt == self.dtype: return self.copy()
        if dt.kind == "f":
            s, out = sort(dt), []
            for x in self.v:
                if not isinstance(x, V):
                    if not isinstance(x, int): Inc("symbolic integer to floating")
                    out.append(constv(x, s)); continue
                y = conv(x, s)
                if s.sbits() < x.sort.sbits() and bool(And_(isinf(y), Not_(isinf(x)))):
                    warnings.warn("overflow encountered in cast", RuntimeWarning, stacklevel=2)
                out.append(y)
            return Arr(dt, out)
        if not isint(dt): Inc(f"cast to {dt}")
        info = np.iinfo(dt)
        if self.dtype.kind == "f" or any(isinstance(x, V) for x in self.v):
            out = []
            for x in self.v:
                if not isinstance(x, V): out.append(wrap(x, dt)); continue
                t = x if isint(self.dtype) else ftrunc(x)
                p = Num(conv(t, SORTS["longdouble"]), LD)
                if not bool(And_(p >= info.min, p <= info.max)):
                    # undefined
                    if not isint(self.dtype): warnings.warn("invalid value encountered in cast", RuntimeWarning, stacklevel=2)
                    lo, hi = ordinal(info.min), ordinal(info.max)
                    t = abstract(f"cast{dt.name}", (x,), z3.FP(f"cast!{tab().k}", x.sort), False, lambda o: [o >= lo, o <= hi], True)
                out.append(t)
            return Arr(dt, out)
        return Arr(dt, [wrap(x, dt) for x in self.v])


def _el(x, dt):
    if isint(dt): return x
    if type(x) is Num: return conv(x.e, sort(dt))
    return constv(x, sort(dt))


def wrap(x, dt):
    info = np.iinfo(dt)
    if isinstance(x, (int, np.integer)) and not is_sym(x):
        x = int(x)
        return x if info.min <= x <= info.max else (x - info.min) % (1 << info.bits) + info.min
    if isinstance(x, (SymInt, SymBool)):
        e = Z(x)
        n = 1 << info.bits
        if core.cur().fork(z3.And(e >= info.min, e <= info.max)): return mkint(e)
        return mkint((e - info.min) % n + info.min)
    Inc("integer conversion")


class IntF(Num):
    """an integer scalar held as an integral FP term"""
    __slots__ = ()
    def item(self): Inc("integer out of a float")


class Ser:
    """pd.Series"""
    def __init__(self, v, name=None, index=None, dtype=None):
        if isinstance(v, Ser): index, v = (v.index if index is None else index), v.v
        if dtype is not None: Inc("Series of another type")
        self.v, self.name = v, name
        self.index = list(range(len(v))) if index is None else index
    dtype = property(lambda s: s.v.dtype)
    def __len__(self): return len(self.v)
    def copy(self, *a, **k): return Ser(self.v.copy(), self.name, self.index)
    def to_numpy(self, *a, **k): return self.v
    values = property(lambda s: s.v)
    array = values
    size = property(lambda s: len(s.v))
    def rename(self, name): return Ser(self.v, name, self.index)
    def reset_index(self, drop=False): return Ser(self.v, self.name) if drop else Inc("reset_index")
    def set_axis(self, ix): return Ser(self.v, self.name, ix)
    def astype(self, dt): return Ser(pdarray(self.v, dt) if isext(dt) else self.v.astype(dt), self.name, self.index)
    def __getitem__(self, k): return self.v[k]


class ExtArr:
    """a nullable integer array"""
    def __init__(self, dt, v): self.dtype, self.v = dt, v
    def __len__(self): return len(self.v)
    def copy(self): return ExtArr(self.dtype, list(self.v))


def isext(dt):
    import pandas as pd
    return isinstance(dt, pd.api.extensions.ExtensionDtype)


def pdarray(a, dtype=None):
    import pandas as pd
    if dtype is None or not isext(dtype): Inc("pd.array")
    if isinstance(a, Ser): a = a.v
    base = dtype.numpy_dtype
    info = np.iinfo(base)
    out = []
    for x in a.v:
        if not isinstance(x, V): Inc("nullable integers out of integers")
        if bool(isnan(x)): out.append(NA); continue
        t = ftrunc(x)
        if bool(Or_(isinf(x), Not_(eq(t, x)))): raise TypeError("cannot safely cast non-equivalent float64 to int")
        p = Num(conv(t, SORTS["longdouble"]), LD)
        if not bool(And_(p >= info.min, p <= info.max)): raise TypeError("cannot safely cast non-equivalent float64 to int")
        out.append(t)
    return ExtArr(dtype, out)


def asarray(x, dtype=None, *a, **k):
    if isinstance(x, Ser): x = x.v
    if isinstance(x, Arr): return x if dtype is None else x.astype(dtype)
    if isinstance(x, (list, tuple)) and any(is_sym(y) for y in x):
        if all(type(y) is Num for y in x):
            dt = np.result_type(*[y.dt if y.dt is not None else np.dtype(float) for y in x])
            return Arr(dt, [conv(y.e, sort(dt)) for y in x])
        if all(isinstance(y, int) for y in x) and all(bool(And_(y >= -2 ** 63, y < 2 ** 63)) for y in x): return Arr(np.int64, list(x))
        Inc("conversion of a mixed sequence")
    return np.asarray(x, dtype, *a, **k)


def _u(f, real):
    def g(x, *a, **k):
        if isinstance(x, Ser): x = x.v
        if isinstance(x, (Arr, Num)) or is_sym(x): return f(x, *a, **k)
        return real(x, *a, **k)
    return g


def _pred(f, ints):
    def g(x):
        if type(x) is Num: return f(x.e)
        if not isinstance(x, Arr): return ints
        return Arr(bool, [f(e) if isinstance(e, V) else ints for e in x.v])
    return g


def _nanext(up):
    def g(x, *a, **k):
        if a or k: Inc("nanmax options")
        if isint(x.dtype): return x._ext(up)
        r = x._ext(up, True)
        if bool(isnan(r.e)): warnings.warn("All-NaN slice encountered", RuntimeWarning, stacklevel=2)
        return r
    return g


def _round(mode):
    def g(x, *a, **k):
        if a or k: Inc("rounding options")
        if type(x) is Num: return Num(ftrunc(x.e, mode), x.dt)
        return Arr(x.dtype, [ftrunc(e, mode) if isinstance(e, V) else e for e in x.v])
    return g


def fakes(symbolic):
    if not symbolic: return {}
    import pandas as pd
    tab = {"isfinite": _pred(isfin, True), "isnan": _pred(isnan, False), "isinf": _pred(isinf, False),
           "abs": abs, "absolute": abs, "fabs": abs, "nanmax": _nanext(True), "nanmin": _nanext(False),
           "max": lambda x: x.max(), "min": lambda x: x.min(), "amax": lambda x: x.max(), "amin": lambda x: x.min(),
           "any": lambda x: x.any(), "all": lambda x: x.all(), "trunc": _round(RTZ), "floor": _round(z3.RTN()), "ceil": _round(z3.RTP()),
           "rint": _round(RNE), "round": _round(RNE), "count_nonzero": lambda x: sum(1 for b in x._bools() if bool(b)),
           "size": lambda x: x.size, "copy": lambda x: x.copy(), "ravel": lambda x: x,
           "flatnonzero": lambda x: Inc("flatnonzero"), "nonzero": lambda x: Inc("nonzero"), "unique": lambda x: Inc("unique"),
           "logical_not": lambda x: ~x if x.dtype.kind == "b" else Arr(bool, [Not_(b) for b in x._bools()])}
    np_over = {n: _u(f, getattr(np, n)) for n, f in tab.items()}
    np_over.update(asarray=asarray, array=lambda x, *a, **k: asarray(x, *a).copy() if isinstance(x, (Arr, Ser)) else np.array(x, *a, **k),
                   atleast_1d=asarray, asanyarray=asarray, ndarray=Arr,
                   subtract=lambda a, b: a - b, divide=lambda a, b: a / b, true_divide=lambda a, b: a / b, logical_and=lambda a, b: a & b,
                   where=lambda *a, **k: Inc("where"), errstate=np.errstate)
    npf = FakeModule("numpy", np, np_over)

    def concat(objs, axis=0, **k):
        from harness import dfmodel
        return dfmodel.concat(objs, axis, **k)
    pdf = FakeModule("pandas", pd, {"Series": Ser, "array": pdarray, "concat": concat})
    return {"numpy": npf, "pandas": pdf}


# ------------------------------------------------------------------ inputs
class Input:
    """what is recorded of a floating input"""
    def __init__(self, b, v, dt): self.b, self.v, self.dt = b, v, dt

    def __sx_enc__(self, m):
        x = m.eval(self.b)
        if z3.is_bv_value(x): return x.as_long()
        if z3.is_true(m.eval(self.v.n, model_completion=True)): return bits(np.nan, self.dt)
        return bits(unordinal(m.eval(self.v.o, model_completion=True).as_long()), self.dt)


def num(ctx, name, dt):
    """an arbitrary value of a floating type -> V | numpy scalar"""
    dt = np.dtype(dt)
    n = fname(dt)
    if not ctx.symbolic: return unbits(ctx.int(name), dt)
    b = z3.BitVec(name, WIDTH[n])
    e = z3.fpBVToFP(b, SORTS[n])
    o, nan = z3.Int(name + ".o"), z3.Bool(name + ".nan")
    v = V(o, nan, e)
    ctx.eng.exact[nan.get_id()] = (nan, z3.fpIsNaN(e))
    lim = limit(SORTS[n])
    ctx.eng.axiom(z3.Or(z3.And(o <= lim, o >= -lim), o == INF, o == -INF))
    ctx._rec(name, Input(b, v, dt))
    return v


def pyfloat(ctx, name, lo, hi):
    x = num(ctx, name, np.float64)
    if ctx.symbolic:
        x = Num(x, None)
    else: x = float(x)
    ctx.assume(x >= lo); ctx.assume(x <= hi)
    return x


def array(ctx, dt, vals):
    if ctx.symbolic: return Arr(dt, vals)
    return np.array(vals, dtype=dt)


def series(ctx, arr, name, index=None):
    if ctx.symbolic: return Ser(arr, name, index)
    import pandas as pd
    return pd.Series(arr, name=name, index=index)

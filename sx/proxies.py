"""Symbolic values.

SymBool, SymInt         z3 Bool / mathematical Int
SymStr, SymBytes        sequences of concrete length whose elements are ints or z3 Ints
SymAtom                 an arbitrary value out of TABLE (falsy and awkward values) or the
                        unbounded tail 'v<N>'; equality, truth value, None-ness and class are lazy
"""
import z3
from . import core
from .core import Inconclusive

HASH = 0x5EED


def Z(x):
    """python/proxy int -> z3"""
    t = type(x)
    if t is SymInt:
        return x.e
    if t is bool:
        return z3.IntVal(int(x))
    if issubclass(t, int):
        return z3.IntVal(x)
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return x


def mkbool(e):
    if isinstance(e, bool):
        return e
    if isinstance(e, SymBool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mkint(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def zb(x):
    """python/proxy bool -> z3 Bool or python bool"""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    return bool(x)


def And_(*xs):
    out = []
    for x in xs:
        x = zb(x)
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    return mkbool(z3.And(*out)) if out else True


def Or_(*xs):
    out = []
    for x in xs:
        x = zb(x)
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    return mkbool(z3.Or(*out)) if out else False


def Not_(x):
    x = zb(x)
    if isinstance(x, bool):
        return not x
    return mkbool(z3.Not(x))


def Implies_(a, b):
    return Or_(Not_(a), b)


def Iff_(a, b):
    a, b = zb(a), zb(b)
    if isinstance(a, bool):
        return mkbool(b) if a else Not_(b)
    if isinstance(b, bool):
        return mkbool(a) if b else Not_(a)
    return mkbool(a == b)


class Sym:
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, p):
        raise Inconclusive(f"pickling of a symbolic {type(self).__name__}")


class SymBool(Sym):
    __slots__ = ("e",)
    __class__ = property(lambda self: bool)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return core.cur().fork(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        t = type(o)
        if t is SymBool or t is bool:
            return Iff_(self, o)
        if t is SymInt or t is int:
            return mkbool(Z(self) == Z(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not_(r)

    def __and__(self, o):
        return And_(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return Or_(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return Not_(Iff_(self, o))
    __rxor__ = __xor__

    def __invert__(self):
        return ~int(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __add__(self, o):
        return mkint(Z(self) + Z(o))
    __radd__ = __add__

    def __repr__(self):
        return "<symbool>"


def _isnum(o):
    return issubclass(type(o), (int, SymInt, SymBool))


BYTE_OF = {}     # cell id -> (cell, integer it is a byte of, index, width)


class SymInt(Sym):
    """mathematical integer; `conc` makes hashing fork over the feasible values."""
    __slots__ = ("e", "conc")
    __class__ = property(lambda self: int)

    def __init__(self, e, conc=False):
        self.e, self.conc = e, conc

    def _bin(self, o, f):
        if type(o) is float:
            if o.is_integer():
                o = int(o)
            else:
                return f(self.__index__(), o)
        if not _isnum(o):
            return NotImplemented
        return mkint(f(self.e, Z(o)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o):
        if issubclass(type(o), (str, bytes, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return mkint(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def _divisor(self, o):
        if not _isnum(o):
            return None
        if not isinstance(o, SymInt):
            return int(o)
        return core.cur().concretize(o.e)

    def __floordiv__(self, o):
        d = self._divisor(o)
        if d is None: return NotImplemented
        if d == 0: raise ZeroDivisionError("integer division or modulo by zero")
        if d > 0: return mkint(self.e / d)
        return mkint((-self.e) / (-d))

    def __mod__(self, o):
        d = self._divisor(o)
        if d is None: return NotImplemented
        if d == 0: raise ZeroDivisionError("integer division or modulo by zero")
        if d > 0: return mkint(self.e % d)
        return mkint(-((-self.e) % (-d)))

    def __divmod__(self, o): return self // o, self % o
    def __rfloordiv__(self, o): return o // self.__index__()
    def __rmod__(self, o): return o % self.__index__()
    def __truediv__(self, o): return self.__index__() / (o.__index__() if isinstance(o, SymInt) else o)
    def __rtruediv__(self, o): return o / self.__index__()
    def __pow__(self, o):
        n = o if isinstance(o, int) else self._divisor(o)
        if isinstance(n, int) and 0 <= n <= 8:
            r = 1
            for _ in range(n): r = self * r
            return r
        return self.__index__() ** n
    def __rpow__(self, o): return o ** self.__index__()
    def __lshift__(self, o): return self * (1 << self._divisor(o))
    def __rshift__(self, o): return self // (1 << self._divisor(o))
    def __and__(self, o):
        d = self._divisor(o)
        if d is None: return NotImplemented
        if d >= 0 and (d & (d + 1)) == 0:
            return self % (d + 1)
        return self.__index__() & d
    __rand__ = __and__
    def __or__(self, o): return self.__index__() | (o.__index__() if isinstance(o, SymInt) else o)
    __ror__ = __or__

    def _cmp(self, o, f):
        if type(o) is float:
            import math
            if o == math.inf: return f(0, 1)
            if o == -math.inf: return f(0, -1)
            if o != o: return f(0, o)
            n, d = o.as_integer_ratio()
            return mkbool(f(self.e * d, z3.IntVal(n)))
        if not _isnum(o):
            return NotImplemented
        return mkbool(f(self.e, Z(o)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        if self.conc:
            return hash(core.cur().concretize(self.e))
        return HASH

    def __bool__(self):
        return core.cur().fork(self.e != 0)

    def __index__(self):
        return core.cur().concretize(self.e)
    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if signed: raise Inconclusive("signed to_bytes of a symbolic int")
        if not (self >= 0):
            raise OverflowError("can't convert negative int to unsigned")
        if not (self < 256 ** length):
            raise OverflowError("int too big to convert")
        cells = [mkcell(z3.simplify((self.e / (256 ** i)) % 256)) for i in range(length)]
        for i, c in enumerate(cells):
            if isinstance(c, z3.ExprRef): BYTE_OF[c.get_id()] = (c, self.e, i, length)
        if byteorder == "big": cells.reverse()
        b = SymBytes(cells)
        b.origin = ("int", self, byteorder)
        return b

    def bit_length(self):
        return self.__index__().bit_length()

    def item(self): return self

    def __repr__(self): return "<symint>"
    def __str__(self):
        return str(self.__index__())
    def __format__(self, spec):
        return format(self.__index__(), spec)


def mkcell(e):
    if isinstance(e, SymInt):
        e = e.e
    if isinstance(e, int):
        return e
    if isinstance(e, Part):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return e


class Part:
    """an opaque element of a string: never equal to an ordinary character."""
    __slots__ = ("tag", "payload")

    def __init__(self, tag, payload):
        self.tag, self.payload = tag, payload

    def same(self, o):
        if not isinstance(o, Part) or o.tag != self.tag:
            return False
        return deep_eq(self.payload, o.payload)


class IntPart(Part):
    """decimal digits of a symbolic non-negative integer."""
    __slots__ = ()

    def __init__(self, e):
        super().__init__("int", e)

    def same(self, o):
        if isinstance(o, IntPart):
            return mkbool(self.payload == o.payload)
        return False


def cell_eq(a, b):
    if isinstance(a, Part) or isinstance(b, Part):
        if isinstance(a, Part):
            return a.same(b)
        return False
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return mkbool(Z(a) == Z(b))


def cells_eq(a, b):
    if len(a) != len(b) and (any(isinstance(x, IntPart) for x in a) or any(isinstance(x, IntPart) for x in b)):
        return _ragged_eq(a, b)
    if len(a) != len(b):
        return False
    if any(isinstance(x, IntPart) and not isinstance(y, IntPart) or
           isinstance(y, IntPart) and not isinstance(x, IntPart) for x, y in zip(a, b)):
        return _ragged_eq(a, b)
    return And_(*[cell_eq(x, y) for x, y in zip(a, b)])


def _isdig(c):
    return isinstance(c, int) and 48 <= c <= 57


def _ragged_eq(a, b):
    """equality when decimal renderings of symbolic ints face plain digits."""
    a, b = list(a), list(b)
    conds = []
    while a and b:
        x, y = a[0], b[0]
        if isinstance(x, IntPart) and isinstance(y, IntPart):
            na = a[1] if len(a) > 1 else None
            nb = b[1] if len(b) > 1 else None
            for n in (na, nb):
                if n is not None and not (isinstance(n, int) and not _isdig(n)):
                    raise Inconclusive("ambiguous decimal alignment")
            conds.append(mkbool(x.payload == y.payload)); a.pop(0); b.pop(0); continue
        if isinstance(y, IntPart):
            a, b = b, a
            x, y = y, x
        if isinstance(x, IntPart):
            n = 0
            while n < len(b) and _isdig(b[n]):
                n += 1
            if n < len(b) and not isinstance(b[n], int):
                raise Inconclusive("ambiguous decimal alignment")
            if n == 0 or (n > 1 and b[0] == 48):
                return False
            conds.append(mkbool(x.payload == int("".join(map(chr, b[:n])))))
            a.pop(0); del b[:n]; continue
        conds.append(cell_eq(x, y)); a.pop(0); b.pop(0)
        if conds[-1] is False:
            return False
    if a or b:
        return False
    return And_(*conds)


class SymSeq(Sym):
    __slots__ = ("c", "origin")
    real = None

    def __init__(self, cells, origin=None):
        self.c = list(cells)
        self.origin = origin

    # -- construction
    @classmethod
    def mk(cls, cells):
        cells = [mkcell(x) for x in cells]
        if all(isinstance(x, int) for x in cells):
            return cls.conc(cells)
        return cls(cells)

    @classmethod
    def cells(cls, o):
        raise NotImplementedError

    def _co(self, o):
        return self.cells(o)

    def __len__(self):
        if any(isinstance(x, IntPart) for x in self.c):
            raise Inconclusive("length of a decimal rendering")
        return len(self.c)

    def __hash__(self):
        return HASH

    def __eq__(self, o):
        oc = self._co(o)
        if oc is None:
            return NotImplemented if not is_sym(o) and not isinstance(o, (int, float, type(None), tuple, list, dict)) else False
        return cells_eq(self.c, oc)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not_(r)

    def _lex(self, o, strict):
        oc = self._co(o)
        if oc is None: return NotImplemented
        for x, y in zip(self.c, oc):
            if bool(cell_eq(x, y)):
                continue
            return mkbool(Z(x) < Z(y))
        return len(self.c) < len(oc) if strict else len(self.c) <= len(oc)

    def __lt__(self, o): return self._lex(o, True)
    def __le__(self, o): return self._lex(o, False)
    def __gt__(self, o):
        r = self._lex(o, False)
        return r if r is NotImplemented else Not_(r)
    def __ge__(self, o):
        r = self._lex(o, True)
        return r if r is NotImplemented else Not_(r)

    def __bool__(self):
        return len(self.c) > 0

    def __add__(self, o):
        oc = self._co(o)
        if oc is None: return NotImplemented
        return self.mk(self.c + oc)

    def __radd__(self, o):
        oc = self._co(o)
        if oc is None: return NotImplemented
        return self.mk(oc + self.c)

    def __mul__(self, n):
        return self.mk(self.c * n.__index__())
    __rmul__ = __mul__

    def _slice(self, s):
        return self.mk(self.c[s])

    def __contains__(self, o):
        return bool(Or_(*[m for _, m in self._matches(o)]))

    def _matches(self, o, start=0, end=None):
        oc = self._co(o)
        if oc is None:
            raise TypeError("'in <string>' requires string as left operand")
        end = len(self.c) if end is None else end
        for i in range(start, end - len(oc) + 1):
            m = cells_eq(self.c[i:i + len(oc)], oc)
            if m is not False:
                yield i, m

    def find(self, sub, start=0, end=None):
        if not isinstance(start, int): start = start.__index__()
        if start < 0: start = max(0, len(self.c) + start)
        end = len(self.c) if end is None else (end if end >= 0 else len(self.c) + end)
        for i, m in self._matches(sub, start, min(end, len(self.c))):
            if m is True or bool(m):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        end = len(self.c) if end is None else min(end, len(self.c))
        for i, m in reversed(list(self._matches(sub, start, end))):
            if m is True or bool(m):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0: raise ValueError("substring not found")
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0: raise ValueError("substring not found")
        return r

    def count(self, sub):
        n, i, ln = 0, 0, len(self._co(sub))
        while True:
            j = self.find(sub, i)
            if j < 0: return n
            n += 1
            i = j + max(ln, 1)

    def startswith(self, p, start=0, end=None):
        c = self.c[start:end]
        ps = p if isinstance(p, tuple) else (p,)
        return bool(Or_(*[cells_eq(c[:len(x)], x) for x in map(self._co, ps) if len(x) <= len(c)]))

    def endswith(self, p, start=0, end=None):
        c = self.c[start:end]
        ps = p if isinstance(p, tuple) else (p,)
        return bool(Or_(*[cells_eq(c[len(c) - len(x):], x) for x in map(self._co, ps) if len(x) <= len(c)]))

    def removeprefix(self, p):
        return self.mk(self.c[len(self._co(p)):]) if self.startswith(p) else self

    def removesuffix(self, p):
        n = len(self._co(p))
        return self.mk(self.c[:len(self.c) - n]) if n and self.endswith(p) else self

    def replace(self, old, new, count=-1):
        oc, nc = self._co(old), self._co(new)
        if len(oc) == 0: raise Inconclusive("replace of empty string")
        out, i = [], 0
        while i < len(self.c):
            if count != 0 and i + len(oc) <= len(self.c) and bool(cells_eq(self.c[i:i + len(oc)], oc)):
                out += nc
                i += len(oc)
                count -= 1
            else:
                out.append(self.c[i])
                i += 1
        return self.mk(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, curw = [], []
            for ch in self.c:
                if bool(self._isspace(ch)):
                    if curw: out.append(self.mk(curw)); curw = []
                else:
                    curw.append(ch)
            if curw: out.append(self.mk(curw))
            if maxsplit != -1: raise Inconclusive("split(maxsplit)")
            return out
        n, out, i = len(self._co(sep)), [], 0
        while maxsplit != 0:
            j = self.find(sep, i)
            if j < 0: break
            out.append(self.mk(self.c[i:j]))
            i = j + n
            maxsplit -= 1
        out.append(self.mk(self.c[i:]))
        return out

    def partition(self, sep):
        j = self.find(sep)
        if j < 0: return self, self.mk([]), self.mk([])
        n = len(self._co(sep))
        return self.mk(self.c[:j]), self.mk(self.c[j:j + n]), self.mk(self.c[j + n:])

    def rpartition(self, sep):
        j = self.rfind(sep)
        if j < 0: return self.mk([]), self.mk([]), self
        n = len(self._co(sep))
        return self.mk(self.c[:j]), self.mk(self.c[j:j + n]), self.mk(self.c[j + n:])

    @staticmethod
    def _isspace(ch):
        if isinstance(ch, Part): return False
        if isinstance(ch, int): return ch in (9, 10, 11, 12, 13, 32)
        return Or_(mkbool(ch == 32), mkbool(z3.And(ch >= 9, ch <= 13)))

    def _strippable(self, ch, chars):
        if chars is None:
            return self._isspace(ch)
        return Or_(*[cell_eq(ch, x) for x in self._co(chars)])

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.c) and bool(self._strippable(self.c[i], chars)): i += 1
        return self.mk(self.c[i:])

    def rstrip(self, chars=None):
        i = len(self.c)
        while i > 0 and bool(self._strippable(self.c[i - 1], chars)): i -= 1
        return self.mk(self.c[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars) if len(r) else r

    def _map(self, f):
        return self.mk([x if isinstance(x, Part) else f(x) for x in self.c])

    def upper(self):
        return self._map(lambda x: z3.If(z3.And(Z(x) >= 97, Z(x) <= 122), Z(x) - 32, Z(x)))

    def lower(self):
        return self._map(lambda x: z3.If(z3.And(Z(x) >= 65, Z(x) <= 90), Z(x) + 32, Z(x)))

    def _all(self, f):
        return len(self.c) > 0 and bool(And_(*[False if isinstance(x, Part) else mkbool(f(Z(x))) for x in self.c]))

    def isdigit(self): return self._all(lambda x: z3.And(x >= 48, x <= 57))
    isnumeric = isdecimal = isdigit
    def isalpha(self): return self._all(lambda x: z3.Or(z3.And(x >= 65, x <= 90), z3.And(x >= 97, x <= 122)))
    def isspace(self): return len(self.c) > 0 and bool(And_(*[self._isspace(x) for x in self.c]))

    def join(self, it):
        out, first = [], True
        for x in it:
            if not first: out += self.c
            xc = self._co(x)
            if xc is None: raise TypeError("sequence item: expected str instance")
            out += xc
            first = False
        return self.mk(out)

    def __repr__(self):
        return f"<{type(self).__name__.lower()} len {len(self.c)}>"


class SymStr(SymSeq):
    __slots__ = ()
    __class__ = property(lambda self: str)

    @staticmethod
    def conc(cells):
        return "".join(map(chr, cells))

    @classmethod
    def cells(cls, o):
        t = type(o)
        if t is SymStr: return o.c
        if issubclass(t, str): return [ord(x) for x in o]
        return None

    def __getitem__(self, k):
        if isinstance(k, slice): return self._slice(k)
        return self.mk([self.c[k.__index__()]])

    def __iter__(self):
        return iter([self.mk([x]) for x in self.c])

    def encode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        out = []
        for x in self.c:
            if isinstance(x, Part):
                out.append(x)
            elif bool(mkbool(Z(x) < 0x80)):
                out.append(x)
            elif enc in ("ascii", "us-ascii") or (enc in ("latin-1", "latin1", "iso-8859-1") and not bool(mkbool(Z(x) < 0x100))):
                if errors == "ignore": continue
                if errors == "replace": out.append(63); continue
                raise UnicodeEncodeError(enc, "?", 0, 1, "ordinal not in range")
            elif enc.startswith("latin") or enc.startswith("iso-8859"):
                out.append(x)
            elif enc not in ("utf-8", "utf8"):
                raise Inconclusive(f"encoding {encoding}")
            elif bool(mkbool(Z(x) < 0x800)):
                out += [0xC0 + Z(x) / 64, 0x80 + Z(x) % 64]
            elif bool(mkbool(Z(x) < 0x10000)):
                out += [0xE0 + Z(x) / 4096, 0x80 + (Z(x) / 64) % 64, 0x80 + Z(x) % 64]
            else:
                raise Inconclusive("astral character")
        r = SymBytes.mk(out)
        if isinstance(r, SymBytes) and enc in ("utf-8", "utf8"):
            r.origin = ("str", self)
        return r

    def isidentifier(self): raise Inconclusive("isidentifier")

    def zfill(self, n):
        return self if len(self.c) >= n else self.mk([48] * (n - len(self.c)) + self.c)

    def splitlines(self, keepends=False):
        out, curl = [], []
        for ch in self.c:
            if bool(cell_eq(ch, 10)):
                out.append(self.mk(curl + ([ch] if keepends else []))); curl = []
            else: curl.append(ch)
        if curl: out.append(self.mk(curl))
        return out

    def casefold(self): return self.lower()
    def __str__(self): raise Inconclusive("str() of a symbolic string inside C code")
    def __format__(self, spec): raise Inconclusive("format() of a symbolic string inside C code")


class SymBytes(SymSeq):
    __slots__ = ()
    __class__ = property(lambda self: bytes)

    @staticmethod
    def conc(cells):
        return bytes(cells)

    @classmethod
    def cells(cls, o):
        t = type(o)
        if t is SymBytes: return o.c
        if issubclass(t, (bytes, bytearray)): return list(o)
        if t is memoryview: return list(o.tobytes())
        if hasattr(t, "__sx_cells__"): return o.__sx_cells__()
        return None

    def __getitem__(self, k):
        if isinstance(k, slice): return self._slice(k)
        x = self.c[k.__index__()]
        return x if isinstance(x, (int, Part)) else SymInt(x)

    def __iter__(self):
        return iter([x if isinstance(x, (int, Part)) else SymInt(x) for x in self.c])

    def tobytes(self): return self
    def hex(self): raise Inconclusive("hex of symbolic bytes")

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower()
        out, i, c = [], 0, self.c
        while i < len(c):
            x = c[i]
            if isinstance(x, Part) or bool(mkbool(Z(x) < 0x80)):
                out.append(x); i += 1; continue
            if enc not in ("utf-8", "utf8"):
                if enc.startswith("latin"): out.append(x); i += 1; continue
                raise UnicodeDecodeError(encoding, b"?", i, i + 1, "ordinal not in range")
            if i + 1 < len(c) and bool(mkbool(z3.And(Z(x) >= 0xC2, Z(x) < 0xE0, Z(c[i+1]) >= 0x80, Z(c[i+1]) < 0xC0))):
                out.append((Z(x) - 0xC0) * 64 + (Z(c[i+1]) - 0x80)); i += 2; continue
            tails = [z3.And(Z(y) >= 0x80, Z(y) < 0xC0) for y in c[i+1:i+4] if not isinstance(y, Part)]
            if len(tails) >= 2 and bool(mkbool(z3.And(Z(x) >= 0xE0, Z(x) < 0xF0, *tails[:2], z3.Implies(Z(x) == 0xE0, Z(c[i+1]) >= 0xA0), z3.Implies(Z(x) == 0xED, Z(c[i+1]) < 0xA0)))):
                out.append((Z(x) - 0xE0) * 4096 + (Z(c[i+1]) - 0x80) * 64 + Z(c[i+2]) - 0x80); i += 3; continue
            if len(tails) >= 3 and bool(mkbool(z3.And(Z(x) >= 0xF0, Z(x) < 0xF5, *tails[:3], z3.Implies(Z(x) == 0xF0, Z(c[i+1]) >= 0x90), z3.Implies(Z(x) == 0xF4, Z(c[i+1]) < 0x90)))):
                out.append((Z(x) - 0xF0) * 262144 + (Z(c[i+1]) - 0x80) * 4096 + (Z(c[i+2]) - 0x80) * 64 + Z(c[i+3]) - 0x80); i += 4; continue
            if errors == "ignore": i += 1; continue
            if errors == "replace": out.append(0xFFFD); i += 1; continue
            raise UnicodeDecodeError("utf-8", b"?", i, i + 1, "invalid start byte")
        return SymStr.mk(out)

    def __bytes__(self): raise Inconclusive("bytes() of symbolic bytes inside C code")


# ------------------------------------------------------------------ atoms
TABLE = [None, 0, "", (), b"", 1, "a", (0,), -1, 2.5]
NT = len(TABLE)
FALSY = [i for i, v in enumerate(TABLE) if not v]


def atom_value(i):
    return TABLE[i] if 0 <= i < NT else f"v{i}"


class SymAtom(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _idx(self, pred):
        """condition that the concrete value satisfies pred (tail is strs)."""
        tail = pred("v999")
        ids = [i for i, v in enumerate(TABLE) if bool(pred(v)) != bool(tail)]
        c = z3.Or(*[self.e == i for i in ids]) if ids else z3.BoolVal(False)
        return mkbool(z3.Not(c) if tail else c)

    def cls(self):
        for t in (str, type(None), int, tuple, bytes, float):
            if bool(self._idx(lambda v: type(v) is t)):
                return t

    def isinst(self, types):
        return bool(self._idx(lambda v: isinstance(v, types)))

    def is_const(self, c):
        return self._idx(lambda v: v is c)

    def __eq__(self, o):
        if type(o) is SymAtom:
            return mkbool(self.e == o.e)
        if is_sym(o):
            return False
        t = type(o)
        if t is str and o[:1] == "v" and o[1:].isdigit():
            return mkbool(self.e == int(o[1:]))
        if t in (type(None), int, str, tuple, bytes, float, bool):
            return self._idx(lambda v: v == o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not_(r)

    def __hash__(self):
        return HASH

    def __bool__(self):
        return bool(self._idx(bool))

    def __index__(self):
        for i, v in enumerate(TABLE):
            if type(v) is int and core.cur().fork(self.e == i): return v
        raise TypeError("object cannot be interpreted as an integer")

    def concretize(self):
        """table values fork; the unbounded tail is one class and cannot be realised"""
        for i in range(NT):
            if core.cur().fork(self.e == i):
                return TABLE[i]
        raise Inconclusive("concretization of an opaque value")

    def __repr__(self): return "<atom>"
    def __str__(self): raise Inconclusive("str() of an opaque value")
    def __format__(self, spec): raise Inconclusive("format() of an opaque value")


def is_sym(x):
    return isinstance(type(x), type) and issubclass(type(x), Sym)


def has_sym(x, depth=3):
    if is_sym(x): return True
    if depth and type(x) in (list, tuple): return any(has_sym(y, depth - 1) for y in x)
    return False


# ------------------------------------------------------------------ deep equality
def deep_eq(a, b):
    """structural equality as one condition, without forking where possible."""
    if a is b:
        return True
    sa, sb = is_sym(a), is_sym(b)
    if sa or sb:
        if isinstance(a, Part) or isinstance(b, Part):
            return cell_eq(a, b)
        r = a.__eq__(b) if sa else NotImplemented
        if r is NotImplemented and sb:
            r = b.__eq__(a)
        return False if r is NotImplemented else r
    if isinstance(a, Part) or isinstance(b, Part):
        return cell_eq(a, b)
    if isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
        return mkbool(Z(a) == Z(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        return And_(*[deep_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        return And_(deep_eq(list(a.keys()), list(b.keys())), deep_eq(list(a.values()), list(b.values())))
    if isinstance(a, (list, tuple, dict)) or isinstance(b, (list, tuple, dict)):
        return False
    if type(a) is not type(b) and (isinstance(a, bool) or isinstance(b, bool)):
        return False
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return False


def strict_eq(a, b):
    """deep_eq that also distinguishes 1 / True / 1.0 (for values that must pass through unchanged)."""
    if not is_sym(a) and not is_sym(b) and type(a) is not type(b):
        return False
    return deep_eq(a, b)

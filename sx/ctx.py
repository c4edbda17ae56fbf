"""Harness contexts.  The same harness runs under SymCtx (inputs are solver variables) and,
for replay, under ConcreteCtx (inputs come from a solver model)."""
import contextlib, shutil, tempfile
import z3
from . import core, loader, proxies as px
from .core import Inconclusive, Prune
from .proxies import *


class Violated(BaseException):
    """a property assertion failed in a concrete run"""


# ------------------------------------------------------------ value <-> json
def enc(m, v):
    t = type(v)
    ev = lambda e: m.eval(e, model_completion=True)
    if hasattr(t, "__sx_enc__"): return v.__sx_enc__(m)
    if t is SymBool: return bool(z3.is_true(ev(v.e)))
    if t is SymInt: return ev(v.e).as_long()
    if t is SymAtom: return {"a": ev(v.e).as_long()}
    if t in (SymStr, SymBytes):
        out = ""
        for c in v.c:
            if isinstance(c, IntPart):
                out += str(ev(c.payload if not isinstance(c.payload, SymInt) else c.payload.e).as_long())
            elif isinstance(c, Part): out += "\ufffc"
            else: out += chr(c if isinstance(c, int) else ev(c).as_long())
        return out if t is SymStr else {"b": [ord(x) for x in out]}
    if v is None or t in (bool, int, str): return v
    if t is float: return {"f": v.hex() if v == v else "nan"}
    if t is bytes: return {"b": list(v)}
    if t is list: return {"l": [enc(m, x) for x in v]}
    if isinstance(v, tuple): return {"t": [enc(m, x) for x in v]}
    if isinstance(v, dict): return {"d": [[enc(m, k), enc(m, x)] for k, x in v.items()]}
    return {"o": t.__name__}


def dec(j):
    if isinstance(j, dict):
        (k, x), = j.items()
        if k == "a": return atom_value(x)
        if k == "f": return float("nan") if x == "nan" else float.fromhex(x)
        if k == "b": return bytes(x)
        if k == "l": return [dec(y) for y in x]
        if k == "t": return tuple(dec(y) for y in x)
        if k == "d": return {dec(a): dec(b) for a, b in x}
        if k == "o": return ("opaque", x)
    return j


class BaseCtx:
    def __init__(self):
        self._clean = []
        self.scratch = None
        self.covers = {}

    def mod(self, name):
        return loader.mod(name)

    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    def defer(self, f):
        self._clean.append(f)

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix="sx-")
        self.defer(lambda: shutil.rmtree(d, ignore_errors=True))
        return d

    def cleanup(self):
        for f in reversed(self._clean):
            try:
                f()
            except Exception:
                pass
        self._clean = []

    def eq(self, a, b, msg):
        self.check(px.deep_eq(a, b), msg)

    def attempt(self, f, *a, **k):
        """-> (value, None) or (None, exception)"""
        try:
            return f(*a, **k), None
        except Exception as ex:
            return None, ex

    def raises(self, types, f, msg, *a, **k):
        v, ex = self.attempt(f, *a, **k)
        self.check(ex is not None and isinstance(ex, types),
                   f"{msg}: expected {types}, got {'no exception' if ex is None else type(ex).__name__}")
        return ex

    def ok(self, msg, f, *a, **k):
        v, ex = self.attempt(f, *a, **k)
        self.check(ex is None, f"{msg}: unexpected {type(ex).__name__}: {_s(ex)}")
        return v


def _s(ex):
    try:
        return str(ex)[:200]
    except BaseException:
        return "?"


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, eng):
        super().__init__()
        self.eng = eng
        self.recs = {}
        self.ufs = {}

    # -- inputs
    def _rec(self, name, v):
        if name in self.recs:
            raise Inconclusive(f"duplicate input {name}")
        self.recs[name] = v
        return v

    def int(self, name, lo=None, hi=None, conc=False):
        e = z3.Int(name)
        if lo is not None: self.eng.assume(e >= lo)
        if hi is not None: self.eng.assume(e <= hi)
        return self._rec(name, SymInt(e, conc))

    def choice(self, name, n, lo=0):
        e = z3.Int(name)
        self.eng.assume(z3.And(e >= lo, e < lo + n))
        self._rec(name, SymInt(e))
        return self.eng.concretize(e, limit=n + 1)

    def bool(self, name):
        e = z3.Bool(name)
        self._rec(name, SymBool(e))
        return self.eng.fork(e)

    def symbool(self, name):
        return self._rec(name, SymBool(z3.Bool(name)))

    def str(self, name, minlen, maxlen, lo=0x20, hi=0x7e, alphabet=None):
        return self._seq(SymStr, name, minlen, maxlen, lo, hi, alphabet)

    def bytes(self, name, minlen, maxlen, lo=0, hi=255, alphabet=None):
        return self._seq(SymBytes, name, minlen, maxlen, lo, hi, alphabet)

    def _seq(self, cls, name, minlen, maxlen, lo, hi, alphabet):
        n = minlen
        if maxlen > minlen:
            e = z3.Int(name + ".len")
            self.eng.assume(z3.And(e >= minlen, e <= maxlen))
            n = self.eng.concretize(e)
        cells = []
        for i in range(n):
            c = z3.Int(f"{name}.{i}")
            if alphabet is not None:
                self.eng.assume(z3.Or(*[c == (ord(a) if isinstance(a, str) else a) for a in alphabet]))
            else:
                self.eng.assume(z3.And(c >= lo, c <= hi))
            cells.append(c)
        return self._rec(name, cls(cells) if n else cls.conc([]))

    def atom(self, name, lo=0, hi=None):
        e = z3.Int(name)
        self.eng.assume(e >= lo)
        if hi is not None: self.eng.assume(e <= hi)
        return self._rec(name, SymAtom(e))

    def value(self, name):
        """arbitrary non-container value (None and other falsy values included)"""
        return self.atom(name)

    key = value

    def ufbool(self, name, *args):
        tab = self.ufs.setdefault(name, [])
        for a, r in tab:
            same = deep_eq(list(a), list(args))
            if same is True:
                return r
        r = SymBool(z3.Bool(f"{name}#{len(tab)}"))
        self._ack(tab, args, r, lambda p, q: p.e == q.e)
        return r

    def uf(self, name, *args):
        tab = self.ufs.setdefault(name, [])
        for a, r in tab:
            if deep_eq(list(a), list(args)) is True:
                return r
        e = z3.Int(f"{name}#{len(tab)}")
        self.eng.assume(e >= 0)
        r = SymAtom(e)
        self._ack(tab, args, r, lambda p, q: p.e == q.e)
        return r

    def _ack(self, tab, args, r, eqf):
        for a, q in tab:
            same = deep_eq(list(a), list(args))
            if same is False: continue
            self.eng.assume(z3.Implies(px.zb(same), eqf(r, q)))
        tab.append((tuple(args), r))

    # -- control
    def assume(self, cond):
        self.eng.assume(px.zb(cond))

    def distinct(self, *vs):
        for i in range(len(vs)):
            for j in range(i):
                self.assume(Not_(deep_eq(vs[i], vs[j])))

    def check(self, cond, msg):
        self.eng.check(px.zb(cond), msg, self)

    def ordinary(self):
        """wishes for a plain counterexample: no special values, everything different"""
        atoms = [v.e for v in self.recs.values() if type(v) is SymAtom]
        atoms += [r.e for t in self.ufs.values() for _, r in t if type(r) is SymAtom]
        atoms = atoms[:12]
        out = [z3.And(*[a >= px.NT for a in atoms])] if atoms else []
        out += [a >= px.NT for a in atoms]
        if len(atoms) > 1: out.append(z3.Distinct(*atoms))
        out += [x != y for i, x in enumerate(atoms) for y in atoms[:i]]
        return out

    def decode(self, m):
        d = {k: enc(m, v) for k, v in self.recs.items()}
        u = {k: [[enc(m, list(a)), enc(m, r)] for a, r in t] for k, t in self.ufs.items()}
        return {"inputs": d, "ufs": u}


class ConcreteCtx(BaseCtx):
    symbolic = False

    def __init__(self, data):
        super().__init__()
        self.data = {k: dec(v) for k, v in data["inputs"].items()}
        self.ufs = {k: [(dec(a), dec(r)) for a, r in t] for k, t in data.get("ufs", {}).items()}
        self.nchecks = 0
        self.missing = []

    def _get(self, name, default):
        if name not in self.data:
            self.missing.append(name)
            return default
        return self.data[name]

    def int(self, name, lo=None, hi=None, conc=False): return self._get(name, lo or 0)
    def choice(self, name, n, lo=0): return self._get(name, lo)
    def bool(self, name): return self._get(name, False)
    symbool = bool
    def str(self, name, minlen, maxlen, *a, **k): return self._get(name, "x" * minlen)
    def bytes(self, name, minlen, maxlen, *a, **k): return self._get(name, b"x" * minlen)
    def atom(self, name, lo=0, hi=None): return self._get(name, atom_value(lo))
    def value(self, name): return self._get(name, None)
    key = value

    def _uf(self, name, args, default):
        for a, r in self.ufs.get(name, []):
            if len(a) == len(args) and all(px.deep_eq(x, y) for x, y in zip(a, args)):
                return r
        self.missing.append(name)
        return default

    def ufbool(self, name, *args): return self._uf(name, args, False)
    def uf(self, name, *args): return self._uf(name, args, "v0")

    def assume(self, cond):
        if not cond:
            raise Prune()

    def distinct(self, *vs):
        for i in range(len(vs)):
            for j in range(i):
                self.assume(not deep_eq(vs[i], vs[j]))

    def check(self, cond, msg):
        self.nchecks += 1
        if not cond:
            raise Violated(msg)

    def decode(self, m):
        return {}

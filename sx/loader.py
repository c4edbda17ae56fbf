"""Loads /repo/dustgoggles afresh: symbolic mode (AST pass + symbolic builtins + fakes)
or plain mode (unmodified source, optional fakes)."""
import ast, builtins, importlib, importlib.abc, importlib.util, os, sys, types
from . import core, proxies as px
from .proxies import *

REPO = os.environ.get("SX_REPO", "/repo")
PKG = "dustgoggles"

STRM = {"join", "startswith", "endswith", "replace", "split", "rsplit", "find", "index", "count", "strip",
        "lstrip", "rstrip", "format", "partition", "rpartition", "removeprefix", "removesuffix", "rfind"}


class Pass(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([val, ast.Constant(v.conversion), spec], ast.Load()))
        r = ast.Call(ast.Name("__sx_fstr__", ast.Load()), [ast.List(parts, ast.Load())], [])
        return ast.copy_location(r, n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            c = n.comparators[0]
            l = n.left
            if isinstance(l, ast.Constant) and not isinstance(c, ast.Constant):
                l, c = c, l
            if isinstance(c, ast.Constant) and (c.value is None or isinstance(c.value, bool)):
                r = ast.Call(ast.Name("__sx_is__", ast.Load()), [l, c], [])
                if isinstance(n.ops[0], ast.IsNot):
                    r = ast.UnaryOp(ast.Not(), r)
                return ast.copy_location(r, n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in STRM and not (
                isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super"):
            r = ast.Call(ast.Name("__sx_m__", ast.Load()), [f.value, ast.Constant(f.attr)] + n.args, n.keywords)
            return ast.copy_location(r, n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and not (isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str)):
            return ast.copy_location(ast.Call(ast.Name("__sx_pct__", ast.Load()), [n.left, n.right], []), n)
        return n


# ---------------------------------------------------------------- runtime
def sx_str(x):
    t = type(x)
    if t is SymStr: return x
    if t is SymInt:
        if bool(x < 0): return str(x.__index__())
        return SymStr([IntPart(x.e)])
    if t is SymBool: return str(bool(x))
    if t is SymAtom: return str(x.concretize())
    if t is SymBytes: raise Inconclusive("str() of symbolic bytes")
    if hasattr(t, "__sx_str__"): return x.__sx_str__()
    if t in (list, tuple, dict) and has_sym(list(x.items()) if t is dict else x): return sx_repr(x)
    return str(x)


def sx_repr(x):
    from harness.litmodel import sym_repr
    return sym_repr(x)


def fstr(parts):
    vals, sym = [], False
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            t = type(v)
            if is_sym(v) or hasattr(t, "__sx_str__"):
                if conv == 114: v = sx_repr(v)
                else: v = sx_str(v)
                if is_sym(v) and spec:
                    if t is SymInt: v = format(p[0].__index__(), spec)
                    else: raise Inconclusive(f"format spec {spec!r} on a symbolic value")
                elif spec: v = format(p[0].__index__() if t is SymInt else v, spec)
            else:
                if conv == 114: v = repr(v)
                elif conv == 115: v = str(v)
                elif conv == 97: v = ascii(v)
                v = format(v, spec)
            vals.append(v)
        else:
            vals.append(p)
        sym = sym or is_sym(vals[-1])
    if not sym:
        return "".join(vals)
    out = []
    for v in vals: out += SymStr.cells(v)
    return SymStr.mk(out)


def sx_is(a, c):
    t = type(a)
    if t is SymBool and c is not None:
        return bool(a) is c
    if t is SymAtom:
        return bool(a.is_const(c))
    return a is c


def sx_m(o, name, *args, **kw):
    t = type(o)
    if t in (str, bytes):
        if name == "join" and args:
            args = (list(args[0]),)
        if name == "format":
            if has_sym(list(args) + list(kw.values())):
                return _format(o, args, kw)
        elif has_sym(list(args)):
            return getattr((SymStr if t is str else SymBytes)([ord(x) for x in o] if t is str else list(o)), name)(*args, **kw)
    return getattr(o, name)(*args, **kw)


def _format(s, args, kw):
    import string
    out, auto = [], 0
    for lit, fld, spec, conv in string.Formatter().parse(s):
        if lit: out.append(lit)
        if fld is None: continue
        if spec or conv: raise Inconclusive("format spec")
        if fld == "":
            out.append((args[auto], -1, "")); auto += 1
        elif fld.isdigit(): out.append((args[int(fld)], -1, ""))
        elif fld in kw: out.append((kw[fld], -1, ""))
        else: raise Inconclusive("format field")
    return fstr(out)


def sx_pct(s, arg):
    if type(s) is not str:
        if type(s) is SymStr: raise Inconclusive("percent format")
        return s % arg
    args = arg if type(arg) is tuple else (arg,)
    if not has_sym(list(args)):
        return s % arg
    import re
    pieces = re.split(r"(%[sd])", s)
    out, i = [], 0
    for p in pieces:
        if p in ("%s", "%d"):
            out.append((args[i], -1, "")); i += 1
        elif "%" in p: raise Inconclusive("percent format")
        else: out.append(p)
    return fstr(out)


class _Meta(type):
    def __instancecheck__(cls, x):
        return sx_isinstance(x, cls.real)

    def __subclasscheck__(cls, c):
        return issubclass(getattr(c, "real", c) if isinstance(c, _Meta) else c, cls.real)

    def __eq__(cls, o):
        return o is cls or o is cls.real

    def __hash__(cls):
        return hash(cls.real)

    def __getattr__(cls, name):
        a = getattr(cls.real, name)
        if not callable(a): return a

        def call(*args, **kw):
            if args and is_sym(args[0]):
                return getattr(args[0], name)(*args[1:], **kw)
            return a(*args, **kw)
        return call

    def __repr__(cls): return repr(cls.real)
    def __or__(cls, o): return cls.real | o
    def __ror__(cls, o): return o | cls.real


class STR(metaclass=_Meta):
    real = str
    def __new__(cls, x="", *a):
        if a and is_sym(x): return x.decode(*a)
        return sx_str(x) if not a else str(x, *a)


class INT(metaclass=_Meta):
    real = int

    def __new__(cls, x=0, *a):
        t = type(x)
        if t is SymInt: return x
        if t is SymBool: return mkint(Z(x))
        if t is SymStr: return _parse_int(x, *a)
        if t is SymAtom: return int(x.concretize())
        if hasattr(t, "__sx_int__"): return x.__sx_int__()
        return int(x, *a)

    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        t = type(b)
        if hasattr(t, "__sx_cells__"): b = SymBytes.mk(b.__sx_cells__())
        if type(b) is not SymBytes:
            return int.from_bytes(b, byteorder, signed=signed)
        if signed: raise Inconclusive("signed from_bytes")
        cells = b.c if byteorder == "little" else b.c[::-1]
        if any(isinstance(c, Part) for c in cells): raise Inconclusive("number from opaque bytes")
        src = [px.BYTE_OF.get(c.get_id()) if isinstance(c, z3.ExprRef) else None for c in cells]
        if all(src) and all(s[2] == i and s[3] == len(cells) and s[1].eq(src[0][1]) for i, s in enumerate(src)):
            return mkint(src[0][1])
        return mkint(z3.Sum([Z(c) * (256 ** i) for i, c in enumerate(cells)]))


def _parse_int(s, base=10):
    cells = s.c
    if len(cells) == 1 and isinstance(cells[0], IntPart): return mkint(cells[0].payload)
    if not s.isdigit(): raise ValueError("invalid literal for int()")
    return mkint(z3.Sum([(Z(c) - 48) * (10 ** i) for i, c in enumerate(reversed(cells))]))


class BYTES(metaclass=_Meta):
    real = bytes
    def __new__(cls, x=b"", *a):
        t = type(x)
        if t is SymStr: return x.encode(*a)
        if t is SymBytes: return x
        if hasattr(t, "__sx_cells__"): return SymBytes.mk(x.__sx_cells__())
        if t is list and has_sym(x): return SymBytes.mk(x)
        return bytes(x, *a)


def _untag(t):
    if type(t) is tuple: return tuple(_untag(x) for x in t)
    return t.real if isinstance(t, _Meta) else t


def sx_isinstance(x, types):
    types = _untag(types)
    if type(x) is SymAtom:
        return x.isinst(types)
    return isinstance(x, types)


def sx_len(x):
    t = type(x)
    if hasattr(t, "__sx_len__"): return x.__sx_len__()
    return len(x)


def sx_type(x, *a):
    if not a and is_sym(x): return x.cls() if type(x) is SymAtom else x.__class__
    return type(x, *a)


_NONE = object()


def sx_getattr(o, name, default=_NONE):
    t = type(name)
    if t is SymAtom:
        if not name.isinst(str):
            raise TypeError("attribute name must be string, not 'opaque'")
        for n in dir(o):
            if (n in ("", "a") or n[:1] == "v" and n[1:].isdigit()) and bool(name == n):
                return getattr(o, n)
        if default is _NONE: raise AttributeError("no such attribute")
        return default
    if t is SymStr:
        for n in dir(o):
            if len(n) == len(name.c) and bool(name == n): return getattr(o, n)
        if default is _NONE: raise AttributeError("no such attribute")
        return default
    return getattr(o, name) if default is _NONE else getattr(o, name, default)


def sx_hasattr(o, name):
    try:
        sx_getattr(o, name)
        return True
    except AttributeError:
        return False


def sx_sum(it, start=0):
    r = start
    for x in it: r = r + x
    return r


class SymRange:
    """range with symbolic ends; its length is decided by forking"""
    def __init__(self, a, n, step): self.a, self.n, self.step = a, n, step
    def __len__(self): return self.n
    def __iter__(self): return iter([self.a + i * self.step for i in range(self.n)])
    def __reversed__(self): return reversed(list(self))
    def __bool__(self): return self.n > 0

    def __getitem__(self, k):
        return list(self)[k]

    def __contains__(self, x): return any(bool(x == y) for y in self)


def sx_range(*args):
    if not has_sym(list(args)): return range(*args)
    a, b, st = (0, args[0], 1) if len(args) == 1 else args if len(args) == 3 else (*args, 1)
    if st not in (1, -1) or is_sym(st): return range(*[x.__index__() for x in args])
    n = (b - a) * st
    if not bool(n > 0): return SymRange(a, 0, st)
    return SymRange(a, n.__index__(), st)


SYM_BUILTINS = {"range": sx_range, "str": STR, "int": INT, "bytes": BYTES, "isinstance": sx_isinstance, "repr": sx_repr, "len": sx_len, "sum": sx_sum, "getattr": sx_getattr, "hasattr": sx_hasattr,
                "__sx_fstr__": fstr, "__sx_is__": sx_is, "__sx_m__": sx_m, "__sx_pct__": sx_pct}


class FakeModule(types.ModuleType):
    """a real module with some attributes replaced."""
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        r = self.__dict__["_real"]
        if r is None: raise AttributeError(n)
        return getattr(r, n)


class Loader(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, symbolic, fakes, extra_builtins=None):
        self.symbolic, self.fakes = symbolic, fakes or {}
        self.extra = extra_builtins or {}
        real_import = builtins.__import__

        def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0 and name in self.fakes:
                if fromlist: return self.fakes[name]
                if "." not in name: return self.fakes[name]
            if level == 0 and not fromlist and "." in name:
                # import a.b -> returns a; expose faked children
                top = real_import(name, globals, locals, fromlist, level)
                over = {k[len(top.__name__) + 1:]: v for k, v in self.fakes.items()
                        if k.startswith(top.__name__ + ".") and "." not in k[len(top.__name__) + 1:]}
                base = self.fakes.get(top.__name__)
                if over or base is not None:
                    return FakeModule(top.__name__, base or top, over)
                return top
            m = real_import(name, globals, locals, fromlist, level)
            if level == 0 and fromlist:
                over = {}
                for f in fromlist:
                    if f"{name}.{f}" in self.fakes: over[f] = self.fakes[f"{name}.{f}"]
                if over: return FakeModule(name, m, over)
            return m
        self.imp = sx_import

    def find_spec(self, name, path, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        rel = os.path.join(REPO, *name.split("."))
        if os.path.isdir(rel):
            f, pk = os.path.join(rel, "__init__.py"), True
        else:
            f, pk = rel + ".py", False
        if not os.path.exists(f):
            return None
        spec = importlib.util.spec_from_file_location(name, f, loader=self, submodule_search_locations=[rel] if pk else None)
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        f = mod.__spec__.origin
        src = open(f, "rb").read()
        tree = ast.parse(src, f)
        bd = dict(builtins.__dict__)
        bd["__import__"] = self.imp
        if self.symbolic:
            tree = ast.fix_missing_locations(Pass().visit(tree))
            bd.update(SYM_BUILTINS)
        bd.update(self.extra)
        mod.__dict__["__builtins__"] = bd
        exec(compile(tree, f, "exec", dont_inherit=True), mod.__dict__)


def purge():
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]:
        del sys.modules[k]
    sys.meta_path[:] = [x for x in sys.meta_path if not isinstance(x, Loader)]


def install(symbolic, fakes=None, extra_builtins=None):
    purge()
    if not symbolic and not fakes and not extra_builtins:
        if REPO not in sys.path: sys.path.insert(0, REPO)
        return None
    ld = Loader(symbolic, fakes, extra_builtins)
    sys.meta_path.insert(0, ld)
    return ld


def mod(name):
    return importlib.import_module(f"{PKG}.{name}")

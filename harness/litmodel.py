"""repr / ast.literal_eval / json over values that contain symbolic strings and integers.

Models of the standard library, written from its documentation; every concrete argument goes to the
real functions, and sampled paths are replayed on them."""
import ast, json
from sx.core import Inconclusive
from sx.loader import FakeModule, sx_str
from sx.proxies import *


def deep(x):
    if is_sym(x): return True
    if type(x) in (list, tuple, set): return any(map(deep, x))
    if type(x) is dict: return any(deep(k) or deep(v) for k, v in x.items())
    return False


def esc(c, table):
    """escape of one character by table {code: text}, or None"""
    for k, t in table.items():
        if bool(cell_eq(c, k)): return [ord(x) for x in t]
    return None


def hexed(c, lo, hi, fmt):
    """concretize control / non-ASCII characters"""
    if isinstance(c, int): return [ord(x) for x in fmt % c] if lo <= c < hi else None
    if not bool(mkbool(z3.And(c >= lo, c < hi))): return None
    return [ord(x) for x in fmt % SymInt(c).__index__()]


def sym_repr(v):
    if not deep(v): return repr(v)
    t = type(v)
    if t is SymStr:
        has1, has2 = "'" in v, '"' in v
        q = 34 if has1 and not has2 else 39
        out = [q]
        for c in v.c:
            if isinstance(c, Part): out.append(c); continue
            e = esc(c, {92: "\\\\", 10: "\\n", 13: "\\r", 9: "\\t", q: "\\" + chr(q)})
            if e is None: e = hexed(c, 0, 32, "\\x%02x")
            if e is None: e = hexed(c, 127, 161, "\\x%02x")
            out += [c] if e is None else e
        return SymStr.mk(out + [q])
    if t is SymBytes: raise Inconclusive("repr of symbolic bytes")
    if is_sym(v): return text(v)
    if t is list: return bracket("[", [sym_repr(x) for x in v], "]")
    if t is tuple: return bracket("(", [sym_repr(x) for x in v], ",)" if len(v) == 1 else ")")
    if t is dict: return bracket("{", [cat(sym_repr(k), ": ", sym_repr(x)) for k, x in v.items()], "}")
    raise Inconclusive(f"repr of {t}")


def text(v):
    if type(v) is SymInt and bool(v < 0): return cat("-", SymStr([IntPart((-v).e)]) if is_sym(-v) else str(-v))
    return sx_str(v)


def cat(*parts):
    out = []
    for p in parts: out += SymStr.cells(p)
    return SymStr.mk(out)


def bracket(a, parts, b):
    out = [a]
    for i, p in enumerate(parts): out += ([", "] if i else []) + [p]
    return cat(*out, b)


class Parser:
    def __init__(self, cells, quotes, consts, tuples, err):
        self.c, self.i, self.quotes, self.consts, self.tuples, self.err = cells, 0, quotes, consts, tuples, err

    def fail(self): raise self.err()

    def is_(self, ch, i=None):
        i = self.i if i is None else i
        return i < len(self.c) and not isinstance(self.c[i], Part) and bool(cell_eq(self.c[i], ord(ch)))

    def any_(self, chars):
        return next((x for x in chars if self.is_(x)), None)

    def space(self):
        while self.any_(" \n\t\r"): self.i += 1

    def word(self, w):
        if self.i + len(w) <= len(self.c) and all(self.is_(ch, self.i + j) for j, ch in enumerate(w)):
            self.i += len(w)
            return True
        return False

    def value(self):
        self.space()
        q = self.any_(self.quotes)
        if q: return self.string(q)
        if self.any_("["): return self.items("]", list)
        if self.any_("{"): return self.mapping()
        if self.tuples and self.any_("("): return self.items(")", tuple)
        for w, v in self.consts.items():
            if self.word(w): return v
        return self.number()

    def number(self):
        neg = self.is_("-")
        if neg: self.i += 1
        if self.i < len(self.c) and isinstance(self.c[self.i], IntPart):
            p = self.c[self.i].payload
            self.i += 1
            v = mkint(p if not isinstance(p, SymInt) else p.e)
            return -v if neg else v
        txt = ""
        while self.i < len(self.c) and not isinstance(self.c[self.i], Part):
            c = self.c[self.i]
            d = next((x for x in "0123456789.e+-" if bool(cell_eq(c, ord(x)))), None)
            if d is None: break
            txt += d; self.i += 1
        try: v = ast.literal_eval(txt) if self.tuples else json.loads(txt)
        except (ValueError, SyntaxError): self.fail()
        return -v if neg else v

    def string(self, q):
        if self.tuples and self.is_(q, self.i + 1) and self.is_(q, self.i + 2): raise Inconclusive("triple quotes")
        self.i += 1
        out = []
        simple = {"\\": 92, "'": 39, '"': 34, "n": 10, "r": 13, "t": 9} if self.tuples else {"\\": 92, '"': 34, "/": 47, "n": 10, "r": 13, "t": 9, "b": 8, "f": 12}
        while True:
            if self.i >= len(self.c): self.fail()
            if self.is_(q): self.i += 1; return SymStr.mk(out)
            if self.is_("\\"):
                self.i += 1
                if self.i >= len(self.c): self.fail()
                e = self.any_(simple)
                if e: out.append(simple[e]); self.i += 1; continue
                n = 4 if self.is_("u") else 2 if self.is_("x") and self.tuples else 0
                if n:
                    h = ""
                    for _ in range(n):
                        self.i += 1
                        d = self.any_("0123456789abcdefABCDEF")
                        if d is None: self.fail()
                        h += d
                    self.i += 1
                    out.append(int(h, 16)); continue
                if not self.tuples: self.fail()
                if self.any_("01234567abfvNU\n"): raise Inconclusive("escape")
                out.append(92); continue
            if self.is_("\n") or (not self.tuples and not isinstance(self.c[self.i], Part) and bool(mkbool(Z(self.c[self.i]) < 32))): self.fail()
            out.append(self.c[self.i]); self.i += 1

    def items(self, end, typ):
        self.i += 1
        out, comma = [], False
        while True:
            self.space()
            if self.is_(end):
                if out and comma and not self.tuples: self.fail()
                self.i += 1
                if typ is tuple and len(out) == 1 and not comma: return out[0]
                return typ(out)
            if out and not comma: self.fail()
            out.append(self.value()); self.space()
            comma = self.is_(",")
            if comma: self.i += 1

    def mapping(self):
        self.i += 1
        out, n, comma = {}, 0, False
        while True:
            self.space()
            if self.is_("}"):
                if n and comma and not self.tuples: self.fail()
                self.i += 1
                return out
            if n and not comma: self.fail()
            k = self.value(); self.space()
            if not self.tuples and type(k) is not SymStr and not isinstance(k, str): self.fail()
            if not self.is_(":"):
                raise Inconclusive("set display") if self.tuples else self.err()
            self.i += 1
            out[k] = self.value(); n += 1
            self.space()
            comma = self.is_(",")
            if comma: self.i += 1

    def whole(self):
        v = self.value(); self.space()
        if self.i != len(self.c): self.fail()
        return v


def literal_eval(s):
    if not is_sym(s): return ast.literal_eval(s)
    if type(s) is not SymStr: raise ValueError("malformed node or string")
    return Parser(list(s.c), "'\"", {"None": None, "True": True, "False": False}, True, lambda: ValueError("malformed node or string")).whole()


def j_text(v, ascii_, isep, ksep):
    t = type(v)
    if t is SymStr or isinstance(t, type) and issubclass(t, str):
        out = [34]
        for c in SymStr.cells(v):
            if isinstance(c, Part): out.append(c); continue
            e = esc(c, {92: "\\\\", 34: '\\"', 10: "\\n", 13: "\\r", 9: "\\t", 8: "\\b", 12: "\\f"})
            if e is None: e = hexed(c, 0, 32, "\\u%04x")
            if e is None and ascii_: e = hexed(c, 127, 0x10000, "\\u%04x")
            out += [c] if e is None else e
        return SymStr.mk(out + [34])
    if t is SymInt: return text(v)
    if t is SymBool: return "true" if bool(v) else "false"
    if is_sym(v): raise Inconclusive("json of an opaque value")
    if t in (list, tuple):
        return cat("[", *[x for i, y in enumerate(v) for x in ([isep] if i else []) + [j_text(y, ascii_, isep, ksep)]], "]")
    if t is dict:
        out = []
        for i, (k, y) in enumerate(v.items()):
            if not (type(k) is SymStr or isinstance(k, str)): raise Inconclusive("json key")
            out += ([isep] if i else []) + [j_text(k, ascii_, isep, ksep), ksep, j_text(y, ascii_, isep, ksep)]
        return cat("{", *out, "}")
    return json.dumps(v)


def j_dumps(v, *, ensure_ascii=True, separators=None, sort_keys=False, indent=None, **kw):
    if not deep(v): return json.dumps(v, ensure_ascii=ensure_ascii, separators=separators, sort_keys=sort_keys, indent=indent, **kw)
    if sort_keys or indent is not None or kw: raise Inconclusive("json options")
    a, b = separators or (", ", ": ")
    return j_text(v, ensure_ascii, a, b)


def j_loads(s, **kw):
    if not is_sym(s): return json.loads(s, **kw)
    if kw: raise Inconclusive("json options")
    if type(s) is SymBytes: s = s.decode()
    return Parser(list(SymStr.cells(s)), '"', {"null": None, "true": True, "false": False, "NaN": float("nan"), "Infinity": float("inf")}, False,
                  lambda: json.JSONDecodeError("malformed", "", 0)).whole()


def fakes():
    return {"ast": FakeModule("ast", ast, {"literal_eval": literal_eval}),
            "json": FakeModule("json", json, {"dumps": j_dumps, "loads": j_loads})}

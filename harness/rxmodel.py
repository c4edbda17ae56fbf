"""regular expressions, literals and files over symbolic text.

Patterns are parsed by the real re parser; matching is backtracking with every test of a character
decided by the solver, in re's order of preference.  Text is ASCII."""
import ast, builtins, io, keyword, os, pathlib, re
import re._parser as sp, re._constants as sc
from sx import core
from sx.loader import FakeModule
from sx.proxies import *
from sx.proxies import cell_eq, cells_eq


def Inc(x): raise core.Inconclusive("text model: " + x)


# ------------------------------------------------------------------ regular expressions
def rng(c, a, b): return a <= c <= b if isinstance(c, int) else mkbool(z3.And(c >= a, c <= b))
DIGIT = lambda c: rng(c, 48, 57)
SPACE = lambda c: Or_(rng(c, 9, 13), cell_eq(c, 32), rng(c, 28, 31))
BSPACE = lambda c: Or_(rng(c, 9, 13), cell_eq(c, 32))
WORD = lambda c: Or_(DIGIT(c), rng(c, 65, 90), rng(c, 97, 122), cell_eq(c, 95))


class M:
    def __init__(self, pattern, s, cells, pos, end, groups):
        self.re, self.string, self._c, self._g = pattern, s, cells, {0: (pos, end), **groups}
        self.pos, self.endpos = 0, len(cells)
    def _n(self, k):
        k = self.re.real.groupindex[k] if isinstance(k, str) and k in self.re.real.groupindex else k
        if not isinstance(k, int) or not 0 <= k <= self.re.groups: raise IndexError("no such group")
        return k
    def span(self, k=0): return self._g.get(self._n(k), (-1, -1))
    def start(self, k=0): return self.span(k)[0]
    def end(self, k=0): return self.span(k)[1]

    def _one(self, k, default=None):
        k = self._n(k)
        if k not in self._g: return default
        a, b = self._g[k]
        return self.string[a:b]

    def group(self, *ks):
        if not ks: return self._one(0)
        return self._one(ks[0]) if len(ks) == 1 else tuple(self._one(k) for k in ks)
    def __getitem__(self, k): return self._one(k)
    def groups(self, default=None): return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))
    def groupdict(self, default=None): return {n: self._one(n, default) for n in self.re.real.groupindex}
    @property
    def lastindex(self):
        ks = [(e, -k) for k, (s, e) in self._g.items() if k]
        return -max(ks)[1] if ks else None
    def __bool__(self): return True


class P:
    """a compiled pattern"""
    def __init__(self, pattern, flags=0):
        self.real = re.compile(pattern, flags)
        self.pattern, self.flags, self.groups, self.groupindex = pattern, self.real.flags, self.real.groups, self.real.groupindex
        self.ast = list(sp.parse(pattern, flags))
        self.bytes = isinstance(pattern, bytes)
    def __eq__(self, o): return isinstance(o, P) and (self.pattern, self.flags) == (o.pattern, o.flags)
    def __hash__(self): return hash((self.pattern, self.flags))

    def _cat(self, cat):
        n = str(cat).rsplit("_", 1)
        neg = "_NOT_" in str(cat)
        f = {"DIGIT": DIGIT, "SPACE": BSPACE if self.bytes else SPACE, "WORD": WORD}.get(n[-1])
        if f is None: Inc(f"category {cat}")
        return (lambda c: Not_(f(c))) if neg else f

    def _lit(self, c, x):
        if self.flags & re.I and chr(x).isalpha():
            return Or_(cell_eq(c, ord(chr(x).lower())), cell_eq(c, ord(chr(x).upper())))
        return cell_eq(c, x)

    def _test(self, op, av):
        """-> condition on one character, or None"""
        if op is sc.LITERAL: return lambda c: self._lit(c, av)
        if op is sc.NOT_LITERAL: return lambda c: Not_(self._lit(c, av))
        if op is sc.ANY: return (lambda c: True) if self.flags & re.S else (lambda c: Not_(cell_eq(c, 10)))
        if op is sc.CATEGORY: return self._cat(av)
        if op is sc.IN:
            neg, fs = False, []
            for o, a in av:
                if o is sc.NEGATE: neg = True
                elif o is sc.RANGE:
                    if self.flags & re.I: Inc("range ignoring case")
                    fs.append(lambda c, a=a: rng(c, *a))
                else: fs.append(self._test(o, a))
            return (lambda c: Not_(Or_(*[f(c) for f in fs]))) if neg else (lambda c: Or_(*[f(c) for f in fs]))
        return None

    def _m(self, ops, i, pos, g, k):
        if i == len(ops): return k(pos, g)
        op, av = ops[i]
        c = self.c
        f = self._test(op, av)
        if f is not None:
            # a run of single characters is one condition
            j, conds = i, []
            while j < len(ops) and (f := self._test(*ops[j])) is not None:
                if pos + (j - i) >= len(c): return None
                conds.append(f(c[pos + j - i])); j += 1
            if not bool(And_(*conds)): return None
            return self._m(ops, j, pos + j - i, g, k)
        nxt = lambda p, g2: self._m(ops, i + 1, p, g2, k)
        if op is sc.SUBPATTERN:
            n, on, off, sub = av
            if on or off: Inc("local flags")
            return self._m(list(sub), 0, pos, g, lambda p, g2: nxt(p, g2 if n is None else {**g2, n: (pos, p)}))
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self._m(list(alt), 0, pos, g, nxt)
                if r is not None: return r
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            hi = 10 ** 9 if hi is sc.MAXREPEAT else hi
            sub = list(sub)

            def rep(n, p, g2):
                def more():
                    if n >= hi: return None
                    return self._m(sub, 0, p, g2, lambda q, g3: None if q == p and n >= lo else rep(n + 1, q, g3))
                if n < lo: return more()
                if op is sc.MAX_REPEAT:
                    r = more()
                    return r if r is not None else nxt(p, g2)
                r = nxt(p, g2)
                return r if r is not None else more()
            return rep(0, pos, g)
        if op is sc.AT:
            ml = bool(self.flags & re.M)
            at = lambda q: 0 <= q < len(c)
            if av is sc.AT_BEGINNING_STRING or av is sc.AT_BEGINNING and not ml: ok = pos == 0
            elif av is sc.AT_BEGINNING: ok = pos == 0 or bool(cell_eq(c[pos - 1], 10))
            elif av is sc.AT_END_STRING: ok = pos == len(c)
            elif av is sc.AT_END and ml: ok = pos == len(c) or bool(cell_eq(c[pos], 10))
            elif av is sc.AT_END: ok = pos == len(c) or pos == len(c) - 1 and bool(cell_eq(c[pos], 10))
            elif av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
                a = at(pos - 1) and bool(WORD(c[pos - 1]))
                b = at(pos) and bool(WORD(c[pos]))
                ok = (a != b) == (av is sc.AT_BOUNDARY)
            else: Inc(f"position {av}")
            return nxt(pos, g) if ok else None
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, sub = av
            if d < 0:
                lo, hi = sub.getwidth()
                if lo != hi: Inc("look-behind")
                r = None if pos < lo else self._m(list(sub), 0, pos - lo, g, lambda p, g2: (p, g2))
            else: r = self._m(list(sub), 0, pos, g, lambda p, g2: (p, g2))
            if op is sc.ASSERT: return None if r is None else nxt(pos, r[1])
            return nxt(pos, g) if r is None else None
        if op is sc.GROUPREF:
            if av not in g: return None
            a, b = g[av]
            if pos + b - a > len(c) or not bool(cells_eq(c[a:b], c[pos:pos + b - a])): return None
            return nxt(pos + b - a, g)
        Inc(f"operator {op}")

    def _cells(self, s):
        if is_sym(s) and type(s) in (SymStr, SymBytes):
            if (type(s) is SymBytes) != self.bytes: raise TypeError("cannot use a string pattern on a bytes-like object")
            return s.c
        return None

    def _at(self, s, cells, pos, full=False):
        self.c = cells
        r = self._m(self.ast, 0, pos, {}, lambda p, g: None if full and p != len(cells) else (p, g))
        return None if r is None else M(self, s, cells, pos, r[0], r[1])

    def search(self, s, pos=0, endpos=None):
        cells = self._cells(s)
        if cells is None: return self.real.search(s, *([pos] if endpos is None else [pos, endpos]))
        if endpos is not None: Inc("endpos")
        for p in range(pos, len(cells) + 1):
            r = self._at(s, cells, p)
            if r is not None: return r
        return None

    def match(self, s, pos=0, endpos=None):
        cells = self._cells(s)
        if cells is None: return self.real.match(s, *([pos] if endpos is None else [pos, endpos]))
        return self._at(s, cells, pos)

    def fullmatch(self, s, pos=0, endpos=None):
        cells = self._cells(s)
        if cells is None: return self.real.fullmatch(s)
        return self._at(s, cells, pos, True)

    def finditer(self, s, pos=0):
        cells = self._cells(s)
        if cells is None: return self.real.finditer(s, pos)
        return self._iter(s, cells, pos)

    def _iter(self, s, cells, pos):
        last = -1
        while pos <= len(cells):
            m = None
            for p in range(pos, len(cells) + 1):
                m = self._at(s, cells, p)
                if m is not None: break
            if m is None: return
            if m.end() == m.start() and m.end() == last: pos = m.end() + 1; continue
            yield m
            last = m.end()
            if m.end() == m.start():
                # an empty match: a longer one may start here
                Inc("repeated empty matches")
            pos = m.end()

    def findall(self, s, pos=0):
        cells = self._cells(s)
        if cells is None: return self.real.findall(s, pos)
        e = s[0:0]
        out = []
        for m in self._iter(s, cells, pos):
            out.append(m.group() if self.groups == 0 else m._one(1, e) if self.groups == 1 else m.groups(e))
        return out

    def split(self, s, maxsplit=0):
        cells = self._cells(s)
        if cells is None: return self.real.split(s, maxsplit)
        if maxsplit: Inc("maxsplit")
        out, at = [], 0
        for m in self._iter(s, cells, 0):
            out += [s[at:m.start()], *m.groups()]; at = m.end()
        return out + [s[at:]]

    def sub(self, repl, s, count=0):
        cells = self._cells(s)
        if cells is None: return self.real.sub(repl, s, count)
        out, at, n = s[0:0], 0, 0
        for m in self._iter(s, cells, 0):
            if count and n == count: break
            if not callable(repl) and not is_sym(repl) and ("\\" if not self.bytes else b"\\") in repl: Inc("template")
            out = out + s[at:m.start()] + (repl(m) if callable(repl) else repl); at = m.end(); n += 1
        return out + s[at:]


def compile_(p, flags=0): return p if isinstance(p, P) else P(p.pattern, p.flags) if isinstance(p, re.Pattern) else P(p, flags)


def _fn(name):
    def f(p, *a, flags=0):
        k = {"sub": 2}.get(name, 1)
        if len(a) > k and name in ("search", "match", "fullmatch", "findall", "finditer"): flags, a = a[k], a[:k]
        return getattr(compile_(p, flags), name)(*a)
    return f


RE = FakeModule("re", re, {"compile": compile_, **{n: _fn(n) for n in ("search", "match", "fullmatch", "findall", "finditer", "split", "sub")}, "Pattern": P, "Match": M})


# ------------------------------------------------------------------ literals
def number(cells):
    """value of a run of digits (SyntaxError: 01)"""
    if len(cells) > 1 and bool(cell_eq(cells[0], 48)):
        if bool(And_(*[cell_eq(c, 48) for c in cells])): return 0
        raise SyntaxError("leading zeros in decimal integer literals are not permitted")
    return mkint(z3.Sum([(Z(c) - 48) * 10 ** i for i, c in enumerate(reversed(cells))])) if any(not isinstance(c, int) for c in cells) else int("".join(map(chr, cells)))


def literal_eval(x):
    if type(x) is not SymStr:
        if is_sym(x): raise ValueError("malformed node")
        return ast.literal_eval(x)
    cells = x.c
    digits = lambda cs: len(cs) > 0 and bool(And_(*[DIGIT(c) for c in cs]))
    if digits(cells): return number(cells)
    if 44 in cells:
        parts, cur = [], []
        for c in cells + [44]:
            if isinstance(c, int) and c == 44: parts.append(cur); cur = []
            else: cur.append(c)
        if all(digits(p) for p in parts): return tuple(number(p) for p in parts)
    if len(cells) > 1 and bool(cell_eq(cells[0], 45)) and digits(cells[1:]): return -number(cells[1:])
    if cells and bool(And_(*[WORD(c) for c in cells])) and bool(Not_(DIGIT(cells[0]))):
        if not bool(Or_(*[x == w for w in keyword.kwlist if len(w) == len(cells)])): raise ValueError("malformed node or string")
    s = "".join(chr(core.cur().concretize(Z(c), 130)) for c in cells)
    return ast.literal_eval(s)


# ------------------------------------------------------------------ files
class Stream:
    """a binary stream over (symbolic) bytes; short: reads may return less than asked for"""
    def __init__(self, data=b"", name=None, log=None, short=False):
        self.d, self.p, self.closed, self.name, self.log, self.short = SymBytes.cells(data), 0, False, name, log, short
        self.mode = "rb"
    def _open(self):
        if self.closed: raise ValueError("I/O operation on closed file.")
    def read(self, n=-1, *a):
        self._open()
        left = max(len(self.d) - self.p, 0)
        if n is None: k = left
        elif bool(n < 0): k = left
        elif bool(n >= left): k = left
        else: k = n if isinstance(n, int) and not is_sym(n) else core.cur().concretize(Z(n))
        if self.short and k > 1: k = 1
        r = SymBytes.mk(self.d[self.p:self.p + k])
        self.p += k
        return r
    read1 = read
    def write(self, b):
        self._open()
        c = SymBytes.cells(b)
        if c is None: raise TypeError("a bytes-like object is required")
        if self.p > len(self.d): self.d += [0] * (self.p - len(self.d))
        self.d[self.p:self.p + len(c)] = c
        self.p += len(c)
        return len(c)
    def seek(self, p, whence=0):
        self._open()
        p = p.__index__()
        self.p = p if whence == 0 else self.p + p if whence == 1 else len(self.d) + p
        return self.p
    def tell(self): self._open(); return self.p
    def getvalue(self): self._open(); return SymBytes.mk(self.d)
    getbuffer = getvalue
    def truncate(self, n=None):
        del self.d[self.p if n is None else n:]
    def readable(self): return True
    writable = seekable = readable
    def flush(self): pass
    def close(self): self.closed = True
    def __enter__(self): self._open(); return self
    def __exit__(self, *a): self.close()
    def __del__(self): pass
    def readline(self, n=-1):
        self._open()
        i = self.p
        while i < len(self.d):
            i += 1
            if bool(cell_eq(self.d[i - 1], 10)): break
        r = SymBytes.mk(self.d[self.p:i]); self.p = i
        return r
    def __iter__(self): return iter(self.readline, b"")
    def readinto(self, b): Inc("readinto")


class Text(Stream):
    """a text stream for reading"""
    def __init__(self, data, name, encoding, errors, newline):
        super().__init__(b"", name)
        if encoding not in (None, "utf-8", "utf8", "UTF-8", "ascii", "latin-1", "latin1"): Inc(f"encoding {encoding}")
        c, out, i = SymStr.cells(SymBytes.cells(data) and SymBytes.mk(SymBytes.cells(data)).decode(encoding or "utf-8", errors or "strict") or ""), [], 0
        if newline not in (None, ""): Inc("newline")
        while i < len(c):
            if newline is None and bool(cell_eq(c[i], 13)):
                out.append(10)
                if i + 1 < len(c) and bool(cell_eq(c[i + 1], 10)): i += 1
            else: out.append(c[i])
            i += 1
        self.d = out
    def read(self, n=-1):
        return SymStr.mk(SymBytes.cells(super().read(n))) if self.d else ""
    def readline(self, n=-1): return SymStr.mk(SymBytes.cells(super().readline(n))) if self.d else ""


class FS:
    def __init__(self): self.files, self.opened = {}, []


CURFS = [FS()]


def open_(path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a):
    if isinstance(path, (str, os.PathLike)):
        k = os.path.abspath(os.fspath(path))
        if k in CURFS[0].files:
            if mode.replace("b", "").replace("t", "") != "r": Inc("writing")
            if "b" not in mode:
                t = Text(CURFS[0].files[k], path, encoding, errors, newline)
                CURFS[0].opened.append(t)
                return t
            s = Stream(CURFS[0].files[k], path, short=buffering == 0)
            CURFS[0].opened.append(s)
            return s
    return open(path, mode, buffering, encoding, errors, newline, *a)


class FakePath(pathlib.PosixPath):
    def open(self, mode="r", *a, **k): return open_(self, mode, *a, **k)
    def read_bytes(self):
        with self.open("rb") as f: return f.read()
    def read_text(self, *a, **k):
        r = self.read_bytes().decode("utf-8")
        if is_sym(r): Inc("newlines in text mode")
        return r


def fakes(symbolic):
    if not symbolic: return {}
    return {"re": RE, "ast": FakeModule("ast", ast, {"literal_eval": literal_eval}), "io": FakeModule("io", io, {"BytesIO": Stream, "open": open_}),
            "pathlib": FakeModule("pathlib", pathlib, {"Path": FakePath, "PosixPath": FakePath})}


def builtins_(symbolic): return {"open": open_} if symbolic else {}


def file(ctx, name, data):
    """a file of the given contents -> its path as a string; a placeholder of the same length stands on disk"""
    if not hasattr(ctx, "_fsdir"):
        ctx._fsdir = ctx.tmpdir()
        for f in vars(ctx.mod("scrape")).values():
            # caches outlive paths
            if hasattr(f, "cache_clear"): f.cache_clear()
        CURFS[0] = FS()
    p = os.path.join(ctx._fsdir, name)
    with open(p, "wb") as f: f.write(b"?" * len(data) if ctx.symbolic else data)
    if ctx.symbolic: CURFS[0].files[p] = data
    return p


def Path(ctx, p): return FakePath(p) if ctx.symbolic else pathlib.Path(p)


def closed(ctx):
    """have all files opened been closed?"""
    if ctx.symbolic: return all(s.closed for s in CURFS[0].opened)
    return not any(os.readlink(f"/proc/self/fd/{f}").startswith(ctx._fsdir) for f in os.listdir("/proc/self/fd") if os.path.islink(f"/proc/self/fd/{f}"))

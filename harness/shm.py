"""shared memory world for the codex checks.

Symbolic mode: multiprocessing.shared_memory is a store of named blocks whose names and contents may
be symbolic; sha256 is an injective function; pickle/json are injective encoders with real sizes.
Concrete mode (replay): the real shared memory, under names no one else uses, removed afterwards."""
import atexit, hashlib, itertools, json, os, pickle, time
from multiprocessing import shared_memory as real_shm, resource_tracker
from sx import core
from sx.loader import FakeModule
from sx.proxies import *

SPINS = 25


class Stuck(Exception):
    """waiting although nobody else can ever make progress"""


class Bad:
    """cannot be encoded by pickle, json or as an array"""
    def __reduce__(self): raise TypeError("cannot be encoded")


# ------------------------------------------------------------------ symbolic store
class Blk:
    __slots__ = ("cells",)

    def __init__(self, cells): self.cells = cells


class Buf:
    """memoryview over (part of) a block"""
    itemsize, ndim, format, readonly = 1, 1, "B", False

    def __init__(self, blk, lo=0, hi=None):
        self.blk, self.lo, self.hi = blk, lo, len(blk.cells) if hi is None else hi

    def __sx_cells__(self): return self.blk.cells[self.lo:self.hi]
    def __len__(self): return self.hi - self.lo
    nbytes = property(__len__)
    shape = property(lambda s: (len(s),))
    def tobytes(self, order=None):
        W.step()
        return SymBytes.mk(self.__sx_cells__())
    def tolist(self): return list(SymBytes.mk(self.__sx_cells__()))
    def __iter__(self): return iter(self.tolist())
    def release(self): pass
    def toreadonly(self): return self
    def __eq__(self, o): return self.tobytes() == (o.tobytes() if hasattr(o, "tobytes") else o)
    __hash__ = None

    def __getitem__(self, k):
        if isinstance(k, slice):
            a, b, st = k.indices(len(self))
            if st != 1: raise core.Inconclusive("strided view")
            return Buf(self.blk, self.lo + a, self.lo + max(a, b))
        return SymBytes.mk(self.__sx_cells__())[k]

    def __setitem__(self, k, v):
        if not isinstance(k, slice):
            k = k.__index__(); k = slice(k, k + 1)
            v = [v] if type(v) is int else [v.e]
        else:
            v = SymBytes.cells(v)
            if v is None: raise TypeError("a bytes-like object is required")
        a, b, st = k.indices(len(self))
        if st != 1: raise core.Inconclusive("strided view")
        if len(v) != max(b - a, 0):
            raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
        W.step()
        W.event("write", self.blk)
        self.blk.cells[self.lo + a:self.lo + b] = list(v)


class SymShm:
    def __init__(self, name=None, create=False, size=0):
        if not size >= 0: raise ValueError("'size' must be a positive integer")
        if create and size == 0: raise ValueError("'size' must be a positive number different from zero")
        if name is None: raise core.Inconclusive("anonymous block")
        W.checkname(name)
        W.step()
        self._name = self.name = name
        b = W.find(name)
        if create:
            if b is not None: raise FileExistsError(17, "File exists")
            b = Blk([0] * int(size))
            W.event("create", b, name)
            W.blocks.append((name, b))
        elif b is None: raise FileNotFoundError(2, "No such file or directory")
        elif not b.cells: raise ValueError("cannot mmap an empty file")
        self.size = len(b.cells)
        self._blk = b
        self.buf = Buf(b)

    def close(self): self.buf = None

    def unlink(self):
        W.checkname(self._name)
        W.step()
        b = W.find(self._name)
        if b is None: raise FileNotFoundError(2, "No such file or directory")
        W.event("unlink", b)
        W.remove(self._name, b)

    def __repr__(self): return "<block>"


class Stepped:
    """at: number of the shared memory operation before which `other` gets to run"""
    at, other, count = None, None, 0

    def step(self):
        if self.other is None or self.quiet: return
        if self.count == self.at:
            f, self.other = self.other, None
            f()
        self.count += 1


class SymWorld(Stepped):
    def __init__(self, ctx):
        self.ctx, self.blocks, self.hooks, self.lazy = ctx, [], [], None
        self.quiet = False

    def name(self, stem): return stem

    def checkname(self, n):
        if not (type(n) is SymStr or isinstance(n, str)): raise TypeError("name")
        for c in SymStr.cells(n):
            if isinstance(c, Part): continue
            if bool(cell_eq(c, 47)): raise OSError(22, "Invalid argument")
            if bool(cell_eq(c, 0)): raise ValueError("embedded null character")
        if not 0 < len(SymStr.cells(n)) <= 250: raise OSError(22, "Invalid argument")

    def find(self, name):
        for n, b in self.blocks:
            r = (name == n) if type(name) is SymStr else (n == name)
            if r is NotImplemented: r = False
            if bool(r): return b
        if self.lazy is not None: return self.lazy(name)
        return None

    def remove(self, name, b):
        self.blocks = [(n, x) for n, x in self.blocks if x is not b]

    def event(self, op, blk, name=None):
        if self.hooks and not self.quiet:
            if name is None: name = next((n for n, b in self.blocks if b is blk), None)
            if name is None: return     # block already unlinked: invisible
            self.quiet = True
            try:
                for h in self.hooks: h(op, name)
            finally: self.quiet = False

    def names(self, stem=""):
        """names of all blocks"""
        return [n for n, _ in self.blocks]

    def snapshot(self):
        return [(n, list(b.cells)) for n, b in self.blocks]

    def same(self, snap):
        """same blocks with the same contents"""
        if len(snap) != len(self.blocks): return False
        for n, c in snap:
            b = self.find(n)
            if b is None or len(b.cells) != len(c) or not bool(cells_eq(b.cells, c)): return False
        return True

    def make(self, name, data):
        self.blocks.append((name, Blk(list(SymBytes.cells(data)))))

    def read(self, name):
        b = self.find(name)
        return None if b is None else SymBytes.mk(b.cells)


# ------------------------------------------------------------------ real store (replay)
class RealShm(real_shm.SharedMemory):
    def __init__(self, name=None, create=False, size=0):
        W.step()
        if create: W.event("create", name)
        super().__init__(name, create, size)

    @property
    def buf(self):
        b = super().buf
        return b if b is None or not (W.hooks or W.other) else RealBuf(b, self.name)

    def unlink(self):
        W.step()
        W.event("unlink", self.name)
        super().unlink()

    def __del__(self):
        try: super().__del__()
        except BufferError: pass


class RealBuf:
    """memoryview that announces writes"""
    def __init__(self, b, name): self.b, self.name = b, name
    def tobytes(self, order=None):
        W.step()
        return self.b.tobytes()
    def __getitem__(self, k): return self.b[k]
    def __setitem__(self, k, v):
        W.step()
        W.event("write", self.name)
        self.b[k] = v
    def __len__(self): return len(self.b)
    def __buffer__(self, flags): return self.b
    def __getattr__(self, n): return getattr(self.b, n)


_stems = itertools.count()


class RealWorld(Stepped):
    def __init__(self, ctx):
        self.ctx, self.hooks, self.quiet = ctx, [], False
        self.pre = f"sx{os.getpid()}q{next(_stems)}z"
        ctx.defer(self.clean)

    def name(self, stem): return self.pre + stem

    def event(self, op, name):
        if self.hooks and not self.quiet:
            self.quiet = True
            try:
                for h in self.hooks: h(op, name)
            finally: self.quiet = False

    def names(self, stem=""):
        return sorted(n for n in os.listdir("/dev/shm") if n.startswith(self.pre))

    def snapshot(self):
        return {n: open("/dev/shm/" + n, "rb").read() for n in self.names()}

    def same(self, snap): return self.snapshot() == snap

    def make(self, name, data):
        with open("/dev/shm/" + name, "wb") as f: f.write(data)

    def read(self, name):
        try: return open("/dev/shm/" + name, "rb").read()
        except FileNotFoundError: return None

    def clean(self):
        for n in self.names(): os.unlink("/dev/shm/" + n)


W = None


KEYS = ["ascii"]


def world(ctx, keys="ascii"):
    """keys: what akey() makes; "ascii", "wide" (any characters of the basic plane), or a number of characters before those"""
    global W
    KEYS[0] = keys
    W = SymWorld(ctx) if ctx.symbolic else RealWorld(ctx)
    PICKLES.clear()
    SLEEPS[0], INTERRUPT[0] = 0, None
    return W


# ------------------------------------------------------------------ encoders
PICKLES = []


def snap(x):
    if type(x) is dict: return {k: snap(v) for k, v in x.items()}
    if type(x) is list: return [snap(v) for v in x]
    if type(x) is tuple: return tuple(snap(v) for v in x)
    return x


def bad(x):
    if isinstance(x, (list, tuple)): return any(map(bad, x))
    if isinstance(x, dict): return any(map(bad, x.values()))
    return type(x) is Bad


def weight(x):
    if type(x) is str: return len(x)
    if isinstance(x, (list, tuple)): return 1 + sum(map(weight, x))
    if isinstance(x, dict): return 1 + sum(weight(v) for v in x.values())
    return 1


def p_dumps(obj, protocol=None, **_):
    if bad(obj): raise TypeError("cannot be encoded")
    PICKLES.append(snap(obj))
    body = [0xEE] * weight(obj)
    return bytes([0x80, len(PICKLES) - 1, len(body)] + body)


def p_loads(b, **_):
    c = SymBytes.cells(b)
    if c is None: raise TypeError("a bytes-like object is required")
    if not c: raise EOFError("Ran out of input")
    if any(not isinstance(x, int) for x in c): raise pickle.UnpicklingError("not an encoding")
    if c[0] != 0x80 or len(c) < 3 or c[1] >= len(PICKLES) or len(c) < 3 + c[2]: raise pickle.UnpicklingError("pickle data was truncated")
    return snap(PICKLES[c[1]])


def has_atoms(x):
    if isinstance(x, (list, tuple)): return any(map(has_atoms, x))
    if isinstance(x, dict): return any(map(has_atoms, list(x.values()) + list(x.keys())))
    return is_sym(x)


def j_dumps(obj, *a, **k):
    if not has_atoms(obj): return json.dumps(obj, *a, **k)
    if bad(obj): raise TypeError("cannot be encoded")
    PICKLES.append(jsonify(obj))
    return json.dumps({"__token__": [len(PICKLES) - 1, "e" * weight(obj)]})


def jsonify(x):
    if isinstance(x, (list, tuple)): return [jsonify(v) for v in x]
    if isinstance(x, dict): return {k: jsonify(v) for k, v in x.items()}
    return x


def j_loads(b, *a, **k):
    if is_sym(b):
        if any(not isinstance(x, int) for x in b.c): raise json.JSONDecodeError("not json", "", 0)
    r = json.loads(b, *a, **k)
    if type(r) is dict and "__token__" in r: return snap(PICKLES[r["__token__"][0]])
    return r


class Sha:
    def __init__(self, data=b"", **_): self.d = data
    def update(self, b): self.d = self.d + b
    def hexdigest(self): return SymStr([Part("sha256", self.d)])
    def digest(self): return SymBytes([Part("sha256", self.d)])


SLEEPS = [0]
INTERRUPT = [None]      # at which wait the user presses a key


def sleep(*_):
    SLEEPS[0] += 1
    if INTERRUPT[0] is not None and SLEEPS[0] >= INTERRUPT[0]: raise KeyboardInterrupt
    if SLEEPS[0] > SPINS: raise Stuck("waits for ever")


def fakes(symbolic):
    import multiprocessing
    tm = FakeModule("time", time, {"sleep": sleep})
    if not symbolic:
        resource_tracker.register = resource_tracker.unregister = lambda *a: None
        sm = FakeModule("multiprocessing.shared_memory", real_shm, {"SharedMemory": RealShm})
        return {"time": tm, "multiprocessing.shared_memory": sm}
    sm = FakeModule("multiprocessing.shared_memory", real_shm, {"SharedMemory": SymShm})
    return {"time": tm, "multiprocessing.shared_memory": sm,
            "hashlib": FakeModule("hashlib", hashlib, {"sha256": Sha}),
            "pickle": FakeModule("pickle", pickle, {"dumps": p_dumps, "loads": p_loads}),
            "json": FakeModule("json", json, {"dumps": j_dumps, "loads": j_loads})}


ASSUMPTIONS = ["shared memory blocks behave as POSIX shared memory on Linux (exact sizes, names without '/' and NUL)",
               "sha256 has no collisions", "pickle and json are injective on the values stored"]


# ------------------------------------------------------------------ generators
def akey(ctx, nm, maxlen=2):
    """arbitrary printable key that can name a block"""
    if KEYS[0] == "wide":
        k = ctx.str(nm, 1, maxlen, lo=0x20, hi=0xD7FF)
        for c in SymStr.cells(k): ctx.assume(Not_(cell_eq(c, 0x7f)))
    else: k = ctx.str(nm, 1, maxlen, lo=0x20, hi=0x7e)
    for c in SymStr.cells(k): ctx.assume(Not_(cell_eq(c, 47)))
    if type(KEYS[0]) is int: k = "k" * KEYS[0] + k
    return k


def aval(ctx, nm):
    """arbitrary object of one of two sizes"""
    v = ctx.value(nm)
    return [v, "p" * 40] if ctx.bool(nm + ".big") else v


class draws:
    """the random numbers drawn for objects made without a name are all different"""
    def __init__(self, ctx, m): self.ctx, self.m, self.got = ctx, m, []

    def __enter__(self):
        self.had = self.m.__dict__.get("randint")
        if self.ctx.symbolic and self.had is not None:
            def randint(a, b):
                n = self.ctx.int(f"draw{len(self.got)}", a, b)
                for o in self.got: self.ctx.assume(Not_(n == o))
                self.got.append(n)
                return n
            self.m.randint = randint
        return self

    def __exit__(self, *_):
        if self.had is not None: self.m.randint = self.had


def find(model, k):
    for i, (q, _) in enumerate(model):
        if bool(q == k): return i
    return None

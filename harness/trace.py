"""Concurrent programs over shared memory, decided by event order.

Each thread's real code is executed symbolically on its own: whether each shared memory operation
succeeds and what each read returns are free variables, so the paths are all the behaviours the thread
could show in any company.  A combination of paths (one per thread) is then one query: is there a total
order of all operations, consistent with each thread's own order and with the semantics of named blocks
(a creation succeeds exactly if no block of that name exists, a read returns the last value written to
that block...), in which the bad thing happens?  A satisfying order is replayed against the real code:
real threads on real shared memory, each operation held back until its turn."""
import threading, time as _time
from multiprocessing import shared_memory as real_shm
import z3
from sx import core
from sx.core import Engine, Prune, Inconclusive
from sx.loader import FakeModule
from sx.proxies import *
from harness import shm


class Ev:
    __slots__ = ("th", "i", "op", "name", "ok", "src", "val", "size", "T", "inst")
    def __repr__(self): return f"{self.th}.{self.i}:{self.op}"


# ------------------------------------------------------------------ symbolic side
class Tracer:
    """records what one thread does"""
    def __init__(self, th, waits, retries):
        self.th, self.waits, self.retries, self.fails = th, waits, retries, 0
        self.evs, self.off, self.n, self.handles = [], False, 0, []

    def ev(self, op, name=None, src=None, val=None, size=None, fork=False):
        if self.off: raise Prune()
        e = Ev()
        e.th, e.i, e.op, e.name, e.src, e.val, e.size = self.th, len(self.evs), op, name, src, val, size
        e.ok = True
        if fork:
            b = z3.Bool(f"t{self.th}.{e.i}.ok")
            e.ok = core.cur().fork(b)
            if op == "create":
                self.fails = 0 if e.ok else self.fails + 1
                if self.fails > self.retries: raise Prune()
        e.T, e.inst = z3.Int(f"t{self.th}.{e.i}.at"), None
        self.evs.append(e)
        return e


TR = None       # the running tracer, or None while shared objects are set up


class TBuf:
    itemsize, ndim, format, readonly = 1, 1, "B", False
    def __init__(self, h): self.h = h
    def __len__(self): return self.h.size
    nbytes = property(__len__)

    def read(self):
        h = self.h
        if TR is None: return SymBytes.mk([0] * h.size)
        if h.size is None: raise Inconclusive("read of a block of unknown size")
        v = z3.Int(f"t{TR.th}.{len(TR.evs)}.val")
        core.cur().assume(z3.And(v >= 0, v < 256 ** h.size))
        TR.ev("read", src=h.ev, val=v, size=h.size)
        return SymInt(v).to_bytes(h.size, "little")

    def tobytes(self, order=None): return self.read()
    def tolist(self): return list(self.read())
    def __sx_cells__(self): return SymBytes.cells(self.read())
    def __getitem__(self, k): return self.read()[k]
    def __iter__(self): return iter(self.read())
    def release(self): pass
    def __eq__(self, o): return self.read() == o
    __hash__ = None

    def __setitem__(self, k, v):
        h = self.h
        if h.size is None: raise Inconclusive("write to a block of unknown size")
        if not isinstance(k, slice):
            k = slice(k, k + 1); v = bytes([v]) if type(v) is int else v
        if k.indices(h.size) != (0, h.size, 1): raise Inconclusive("partial write")
        c = SymBytes.cells(v)
        if len(c) != h.size: raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
        if TR is None: h.ev.val = value_of(c); return
        TR.ev("write", src=h.ev, val=value_of(c), size=h.size)


def value_of(cells):
    src = [BYTE_OF.get(c.get_id()) if isinstance(c, z3.ExprRef) else None for c in cells]
    if all(src) and all(s[2] == i and s[3] == len(cells) and s[1].eq(src[0][1]) for i, s in enumerate(src)): return src[0][1]
    return z3.Sum([Z(c) * 256 ** i for i, c in enumerate(cells)]) if cells else z3.IntVal(0)


class TShm:
    def __init__(self, name=None, create=False, size=0):
        if name is None: raise Inconclusive("anonymous block")
        self.name = self._name = name
        self.cells = SymStr.cells(name)
        if TR is None:
            b = next((e for e in SETUP if bool(cells_eq(e.name, self.cells))), None)
            if create:
                if b is not None: raise FileExistsError(17, "File exists")
                b = Ev()
                b.th, b.i, b.op, b.name, b.ok, b.size, b.src, b.val = "s", len(SETUP), "create", self.cells, True, int(size), None, None
                b.inst = z3.IntVal(-1 - b.i)
                SETUP.append(b)
            elif b is None: raise FileNotFoundError(2, "No such file or directory")
            self.ev, self.size = b, b.size
            return
        e = TR.ev("create" if create else "attach", self.cells, size=int(size) if create else None, fork=True)
        if not e.ok:
            raise FileExistsError(17, "File exists") if create else FileNotFoundError(2, "No such file or directory")
        self.ev, self.size = e, e.size
        if not create:      # its size, if a block of that name is known
            for k in SETUP:
                if same_text(k.name, self.cells): self.size = k.size
            for k in TR.evs:
                if k.op == "create" and same_text(k.name, self.cells): self.size = k.size

    @property
    def buf(self): return TBuf(self)
    def close(self): pass

    def unlink(self):
        if TR is None: raise Inconclusive("unlink during set up")
        e = TR.ev("unlink", self.cells, fork=True)
        if not e.ok: raise FileNotFoundError(2, "No such file or directory")


SETUP = []


def quietly(f):
    """before the processes start"""
    global TR
    tr, TR = TR, None
    try: return f()
    finally: TR = tr


def tsleep(*_):
    if TR is None: raise Inconclusive("sleep during set up")
    TR.waits -= 1
    if TR.waits < 0: raise Prune()


class Captured(core.Control):
    pass


class Path:
    def __init__(self, evs, cons, end): self.evs, self.cons, self.end = evs, cons, end


def paths(th, prog, waits, stats, retries):
    """all behaviours of one thread's program; prog(mark) runs real code"""
    global TR
    out = []
    eng = Engine(nsamples=0)
    if core.CUR is not None: eng.deadline = core.CUR.deadline

    class Ctx:
        covers = {}
        def cleanup(self): pass

    def run(ctx):
        global TR
        TR = tr = Tracer(th, waits, retries)

        def capture(end):
            if not tr.off:
                tr.off = True
                out.append(Path(tr.evs, list(eng.solver.assertions()), end))

        def mark(what):
            if what == "inside": capture("inside"); raise Captured()
            tr.ev(what)
        try:
            prog(mark)
            capture("end")
        except Captured: pass
        except Exception as ex: capture(type(ex).__name__)
        finally: TR = None
    eng.explore(run, lambda e: Ctx())
    for k in ("branches", "queries", "solver_s"): stats[k] += eng.stats[k]
    return out


def same_text(a, b):
    return len(a) == len(b) and all((x.e if isinstance(x, SymInt) else x) is y or type(x) is type(y) is int and x == y for x, y in zip(a, b))


def zeq(a, b):
    r = cells_eq(a, b)
    return r if type(r) is bool else zb(r)


class Query:
    """is there an order of the operations of these paths...?"""
    def __init__(self, ps, setup, partial=(), arbitrary=None, timeout=60000):
        self.ps = ps
        s = self.s = z3.Solver()
        s.set("timeout", timeout)
        H = self.H = z3.Int("horizon")
        evs = [e for p in ps for e in p.evs]
        self.shm = [e for e in evs if e.op in ("create", "attach", "unlink", "read", "write")]
        for p in ps:
            for c in p.cons: s.add(c)
            last = None
            for e in p.evs:
                if last is not None: s.add(last.T < e.T)
                else: s.add(e.T > 0)
                last = e
            if last is not None and p not in partial: s.add(last.T < H)
        if len(evs) > 1: s.add(z3.Distinct(*[e.T for e in evs]))
        for i, b in enumerate(setup):
            b.T, b.inst = z3.IntVal(0), z3.IntVal(-1 - i)
        for i, e in enumerate(evs): e.inst = z3.IntVal(i) if e.op == "create" else None
        creates = setup + [e for e in evs if e.op == "create" and e.ok]
        unlinks = [e for e in evs if e.op == "unlink" and e.ok]
        same = {}
        def eq(a, b):
            k = (id(a), id(b))
            if k not in same: same[k] = same[(id(b), id(a))] = zeq(a.name, b.name)
            return same[k]
        nodes = {e: 0 for e in evs}
        for e in evs:
            live = e.T < H
            if e.op in ("create", "attach", "unlink"):
                alts = []
                if e.op == "attach":
                    e.inst = z3.Int(f"{e.T}.inst")
                for c in creates:
                    if c is e: continue
                    q = eq(c, e)
                    if q is False: continue
                    cond = [] if q is True else [q]
                    if c.T is not None and c not in setup: cond.append(c.T < e.T)
                    for u in unlinks:
                        if u is e: continue
                        r = eq(u, c)
                        if r is False: continue
                        gone = z3.And(*( [] if r is True else [r]), u.T < e.T, *([c.T < u.T] if c not in setup else []))
                        cond.append(z3.Not(gone))
                    here = z3.And(*cond) if cond else z3.BoolVal(True)
                    if e.op == "attach": here = z3.And(here, e.inst == c.inst)
                    alts.append(here)
                ex = z3.Or(*alts) if alts else z3.BoolVal(False)
                if e.op == "attach" and not e.ok:
                    ex = z3.Or(*[a for a in alts]) if alts else z3.BoolVal(False)
                want = ex if (e.op != "create") == e.ok else z3.Not(ex)
                if e.op == "attach" and not e.ok:
                    # no instance may be chosen to make a present block look absent
                    s.add(z3.Implies(live, z3.And(*[z3.Not(z3.And(*a.children()[:-1])) if z3.is_and(a) else z3.Not(a) for a in alts])) if alts else True)
                else: s.add(z3.Implies(live, want))
        reads = [e for e in evs if e.op == "read"]
        writes = [e for e in evs if e.op == "write"]
        for r in reads:
            live = r.T < H
            ri = r.src.inst
            earlier = lambda w: z3.And(w.src.inst == ri, w.T < r.T)
            alts = []
            for w in writes:
                cond = [earlier(w), r.val == w.val]
                for x in writes:
                    if x is not w: cond.append(z3.Not(z3.And(earlier(x), w.T < x.T)))
                alts.append(z3.And(*cond))
            none = [z3.Not(earlier(w)) for w in writes]
            init = []
            for i, b in enumerate(setup):
                v0 = arbitrary if arbitrary is not None else (b.val if b.val is not None else z3.IntVal(0))
                init.append(z3.Implies(ri == b.inst, r.val == v0))
            init.append(z3.Implies(z3.And(*[ri != b.inst for b in setup]), r.val == 0))
            alts.append(z3.And(*none, *init))
            s.add(z3.Implies(live, z3.Or(*alts)))
        for w in writes:     # a value wider than its block cannot have been written
            s.add(w.val >= 0, w.val < 256 ** w.size)

    def solve(self, stats):
        t = _time.time()
        r = self.s.check()
        stats["solver_s"] += _time.time() - t
        stats["queries"] += 1
        stats["checks"] += 1
        if r == z3.unknown: raise Inconclusive("solver: unknown ordering query")
        return self.s.model() if r == z3.sat else None

    def order(self, m):
        ev = lambda x: m.eval(x, model_completion=True).as_long()
        H = ev(self.H)
        seq = sorted((ev(e.T), e.th) for e in self.shm if ev(e.T) < H)
        return [th for _, th in seq]


# ------------------------------------------------------------------ real side
class Gate:
    def __init__(self, order):
        self.order, self.pos, self.free = order, 0, False
        self.c = threading.Condition()
        self.me = threading.local()

    def __enter__(self):
        th = getattr(self.me, "id", None)
        with self.c:
            while th is not None and not self.free and not (self.pos < len(self.order) and self.order[self.pos] == th):
                self.c.wait(5)

    def __exit__(self, *a):
        with self.c:
            if getattr(self.me, "id", None) is not None and not self.free: self.pos += 1
            self.c.notify_all()

    def open(self):
        with self.c:
            self.free = True
            self.c.notify_all()


class NoGate:
    def __enter__(self): pass
    def __exit__(self, *a): pass


GATE = NoGate()


class GShm(real_shm.SharedMemory):
    def __init__(self, name=None, create=False, size=0):
        with GATE: super().__init__(name, create, size)

    @property
    def buf(self):
        b = super().buf
        return b if b is None else GBuf(b)

    def unlink(self):
        with GATE: super().unlink()

    def __del__(self):
        try: super().__del__()
        except BufferError: pass


class GBuf:
    def __init__(self, b): self.b = b
    def tobytes(self, order=None):
        with GATE: return self.b.tobytes()
    def tolist(self): return list(self.tobytes())
    def __getitem__(self, k): return self.tobytes()[k]
    def __iter__(self): return iter(self.tobytes())
    def __eq__(self, o): return self.tobytes() == o
    __hash__ = None
    def __setitem__(self, k, v):
        with GATE: self.b[k] = v
    def __len__(self): return len(self.b)
    def __buffer__(self, flags): return self.b
    def __getattr__(self, n): return getattr(self.b, n)


SPIN = [0]


def gsleep(*_):
    SPIN[0] += 1
    if SPIN[0] > 20000: raise shm.Stuck("waits for ever")


def fakes(symbolic):
    import time
    f = shm.fakes(symbolic)
    f["time"] = FakeModule("time", time, {"sleep": tsleep if symbolic else gsleep})
    f["multiprocessing.shared_memory"] = FakeModule("multiprocessing.shared_memory", real_shm, {"SharedMemory": TShm if symbolic else GShm})
    return f


def replay(progs, order, final):
    """run the programs as threads, operations in the given order; -> which reached 'inside' for good"""
    global GATE
    SPIN[0] = 0
    g = GATE = Gate(order)
    inside, hold = set(), threading.Event()

    def body(i, prog):
        g.me.id = i
        def mark(what):
            if what == "inside":
                inside.add(i)
                hold.wait(20)
                inside.discard(i)
        try: prog(mark)
        except BaseException: pass
    ts = [threading.Thread(target=body, args=(i, p), daemon=True) for i, p in enumerate(progs)]
    for t in ts: t.start()
    end = _time.time() + 4
    while _time.time() < end and not (g.pos >= len(order) and final <= inside): _time.sleep(0.005)
    r = set(inside), g.pos
    g.open(); hold.set()
    for t in ts: t.join(3)
    GATE = NoGate()
    return r

import builtins, os
from harness.lib import *
from harness.shm import *
from harness import shm, npmodel
from harness.npmodel import make, equal
BOUNDS = ("notepads and grid papers of at most 3 (thorough: 4) entries under arbitrary one- and two-character keys with arbitrary values of several sizes and arrays of several shapes, "
          "entries replaced and deleted in between; dumped one by one under given and default names, dumped again after a change, missing keys, closed with and without dumping")
OUTSIDE = "keys whose default file names coincide when closing (a known finding); file modes other than overwriting; failing disks"
ASSUMPTIONS = shm.ASSUMPTIONS + ["files opened for writing in binary mode hold exactly what was written to them"]
KINDS = [((2,), "<i2", "C"), ((), "<f8", "C"), ((0,), "<f4", "C"), ((2, 2), "|u1", "C"), ((1, 2), ">i2", "C")]
FILES = []        # [name, cells]


def Inc(x): raise core.Inconclusive("file operation: " + x)


class File:
    def __init__(self, entry): self.e, self.closed = entry, False
    def write(self, b):
        c = SymBytes.cells(b.tobytes() if hasattr(b, "tobytes") else b)
        if c is None: raise TypeError("a bytes-like object is required")
        self.e[1] = self.e[1] + list(c)
        return len(c)
    def close(self): self.closed = True
    def flush(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


def entry(name, create=True):
    for f in FILES:
        if bool(name == f[0]): return f
    if create: FILES.append([name, []])
    return FILES[-1] if create else None


def open_(name, mode="r", *a, **k):
    if not (is_sym(name) or isinstance(name, str)): Inc("path type")
    if mode not in ("wb", "ab", "wb+", "xb"): Inc("mode " + mode)
    if mode == "xb" and entry(name, False): raise FileExistsError(17, "File exists")
    e = entry(name)
    if mode != "ab": e[1] = []
    return File(e)


def tofile(self, f, sep="", format="%s"):
    if sep: Inc("text array")
    (f if isinstance(f, File) else open_(f, "wb")).write(self.__sx_cells__() and SymBytes.mk(self.__sx_cells__()) or b"")


npmodel.NdArray.tofile = tofile


def fakes(symbolic):
    f = shm.fakes(symbolic)
    if symbolic: f["numpy"] = npmodel.module()
    return f


def builtins_(symbolic): return {"open": open_} if symbolic else {}


def start(ctx):
    del FILES[:]
    w = world(ctx)
    if not ctx.symbolic:
        d, old = ctx.tmpdir(), os.getcwd()
        ctx.defer(lambda: os.chdir(old)); os.chdir(d)
    return w


def files(ctx):
    if ctx.symbolic: return [(n, SymBytes.mk(c)) for n, c in FILES]
    return [(n, builtins.open(n, "rb").read()) for n in sorted(os.listdir("."))]


def same_files(ctx, want, msg):
    """want: [(name, bytes)]"""
    got = files(ctx)
    ctx.check(len(got) == len(want), msg + f": {len(got)} files instead of {len(want)}")
    for n, b in want:
        hit = [c for m, c in got if bool(m == n)]
        ctx.check(len(hit) == 1, msg + ": no file of that name")
        ctx.check(bool(hit[0] == b), msg + ": other contents")


def default_name(prefix, key):
    out = []
    for c in SymStr.cells(prefix) + [95] + SymStr.cells(key): out.append(95 if not isinstance(c, Part) and bool(cell_eq(c, 46)) else c)
    return SymStr.mk(out)


def put(want, name, data):
    for i, (n, _) in enumerate(want):
        if bool(n == name): want[i] = (n, data); return
    want.append((name, data))


def raw_of(ctx, w, pad, p, k, v, grid):
    """the bytes that must be on file"""
    if grid: return v.tobytes()
    raw = pad.get_raw(k)
    dec = ctx.mod("codex.codecs").pickle_codec_factory()[1]
    ctx.eq(dec(raw), v, "raw bytes must be the stored encoding")
    return raw


def store(ctx, grid, i, h, k, live):
    if grid: sh, dt, o = KINDS[ctx.choice(f"kind{i}", len(KINDS))]; v = make(ctx, f"v{i}", sh, dt, o)
    else: v = aval(ctx, f"v{i}")
    h[k] = v
    at = find(live, k)
    if at is None: live.append((k, v))
    else: live[at] = (k, v)


def history(ctx, grid, ops):
    w = start(ctx)
    I = ctx.mod("codex.implements")
    cls = I.GridPaper if grid else I.Notepad
    p = w.name("p.d")
    h = [cls(p, create=True), cls(p)]
    live, want, used = [], [], []
    for i, op in enumerate(ops):
        hd = h[i % 2]
        if op == "close":
            if not distinct_names(ctx, p, live): ctx.assume(False)
            for k, v in live: put(want, default_name(p, k), raw_of(ctx, w, hd, p, k, v, grid))
            hd.close(dump=True)
            gone(ctx, cls, p, w, live)
            same_files(ctx, want, "closing with dump")
            return
        if op == "drop":
            hd.close()
            gone(ctx, cls, p, w, live)
            same_files(ctx, want, "closing without dump")
            return
        k = akey(ctx, f"k{i}", 2 if len(ops) < 3 else 1)
        used.append(k)
        at = find(live, k)
        if op == "set": store(ctx, grid, i, hd, k, live)
        elif op == "del":
            if at is None: ctx.assume(False)
            del hd[k]; live.pop(at)
        else:
            fn = None if op == "dump" else ("out.bin", "out")[ctx.choice(f"fn{i}", 2)]
            before = w.snapshot()
            args = () if fn is None else (fn,)
            if at is None:
                ctx.raises((LookupError, OSError), hd.dump, "dumping a missing key", k, *args)
            else:
                ctx.ok("dumping", hd.dump, k, *args)
                put(want, default_name(p, k) if fn is None else fn, raw_of(ctx, w, hd, p, k, live[at][1], grid))
            ctx.check(w.same(before), "dumping changed shared memory")
            same_files(ctx, want, f"after {op} {i}")
    for hd in (h[0], cls(p)):
        for k, v in live:
            ctx.check(equal(hd[k], v) if grid else ctx_same(hd[k], v), "entry changed by dumping")
        ctx.check(len(list(hd.keys())) == len(live), "entries changed by dumping")
    same_files(ctx, want, "at the end")


def ctx_same(a, b):
    from sx.proxies import deep_eq
    return deep_eq(a, b)


def distinct_names(ctx, p, live):
    ns = [default_name(p, k) for k, _ in live]
    return not any(bool(a == b) for i, a in enumerate(ns) for b in ns[:i])


def gone(ctx, cls, p, w, live):
    ctx.raises(FileNotFoundError, cls, "a closed notepad must be gone", p)
    for k, _ in live: ctx.check(w.read(p + "_" + k) is None, "an entry outlived its notepad")


def collide(ctx, grid):
    """two keys that differ only in dots and underscores"""
    w = start(ctx)
    I = ctx.mod("codex.implements")
    cls = I.GridPaper if grid else I.Notepad
    h = cls(w.name("pd"), create=True)
    live = []
    store(ctx, grid, 0, h, "a.", live); store(ctx, grid, 1, h, "a_", live)
    want = [raw_of(ctx, w, h, None, k, v, grid) for k, v in live]
    h.close(dump=True)
    got = [b for _, b in files(ctx)]
    ctx.check(len(got) == 2, "entries share one dump file")


def cases(tier):
    import itertools
    def bare(ops): return any(ops[:i].count("del") > ops[:i].count("set") for i in range(len(ops) + 1))
    out = []
    L = 3 if tier == "quick" else 4
    for grid in (False, True):
        for n in range(1, L + 1):
            for ops in itertools.product(("set", "del", "dump", "dumpto"), repeat=n):
                if n > 1 and ops[0] in ("del", "dump"): continue
                if "dump" not in ops and "dumpto" not in ops: continue
                if bare(ops): continue
                if n == 4 and ops.count("set") > 2 or "del" in ops[:1]: continue
                out.append((f"{'grid' if grid else 'pad'}-{'-'.join(ops)}", history, dict(grid=grid, ops=ops)))
            for ops in itertools.product(("set", "del", "dump"), repeat=n):
                if bare(ops) or ops[0] != "set" or ops.count("dump") > 1: continue
                for end in ("close", "drop"): out.append((f"{'grid' if grid else 'pad'}-{'-'.join(ops)}-{end}", history, dict(grid=grid, ops=ops + (end,))))
        for end in ("close", "drop"): out.append((f"{'grid' if grid else 'pad'}-{end}", history, dict(grid=grid, ops=(end,))))
        out.append((f"{'grid' if grid else 'pad'}-collide", collide, dict(grid=grid)))
    return out

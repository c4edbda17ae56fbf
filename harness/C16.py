import os, sys, types
from multiprocessing import resource_tracker as RT
from harness.lib import *
from sx.proxies import *
BOUNDS = ("all histories of at most 4 (thorough: 5) registrations and unregistrations of resources of arbitrary kinds (any text of 9, 13 or 14 characters, and the shared memory blocks' own) and names (any text of 2 characters), "
          "with the deactivation called up to twice at arbitrary points of them, on any platform name of 5 or 6 characters")
OUTSIDE = "what the interpreter's separate tracker process does with what it is told (N02); interpreters that keep track of resources in another way"
ASSUMPTIONS = ["the interpreter reports a resource through multiprocessing.resource_tracker's register and unregister, looked up when it does, and removes at exit the kinds listed in its table of cleanup functions"]
VARS = ("register", "unregister", "ensure_running", "getfd", "_resource_tracker", "_CLEANUP_FUNCS")


class Recorder:
    """stands in for the connection to the tracker process"""
    def __init__(self): self.log = []
    def register(self, name, rtype): self.log.append(["+", name, rtype])
    def unregister(self, name, rtype): self.log.append(["-", name, rtype])
    def ensure_running(self): pass
    def getfd(self): raise OSError("no tracker process here")


class Fresh:
    """the tracker's module as it is in a new process"""
    def __enter__(self):
        self.old = {k: RT.__dict__[k] for k in VARS}
        r = Recorder()
        RT._resource_tracker = r
        for k in ("register", "unregister", "ensure_running", "getfd"): setattr(RT, k, getattr(r, k))
        self.table = {"noop": lambda n: None, "semaphore": lambda n: None, "shared_memory": lambda n: None}
        RT._CLEANUP_FUNCS = dict(self.table)
        return r

    def __exit__(self, *_):
        for k in list(RT.__dict__):
            if k in self.old: setattr(RT, k, self.old[k])


def platform(ctx, kind):
    if kind == "windows": return ("win32", "cygwin")[ctx.choice("windows", 2)]
    k = (5, 6)[ctx.choice("platform length", 2)]
    p = ctx.str("platform", k, k)
    for w in ("win32", "cygwin"): ctx.assume(Not_(deep_eq(p, w)))
    return p


def history(ctx, n, at, kind, kinds):
    m = ctx.mod("codex.memutilz")
    had = m.sys
    with Fresh() as rec:
        try:
            m.sys = types.SimpleNamespace(**{**{k: getattr(sys, k) for k in dir(sys) if not k.startswith("__")}, "platform": platform(ctx, kind)})
            want = []
            off = False
            for i in range(n + 1):
                for _ in range(at.count(i)):
                    r = ctx.ok("deactivation", m.deactivate_shared_memory_resource_tracker)
                    ctx.check(r is None, "deactivation returns nothing")
                    off = kind != "windows"
                    rest = {k for k in ("noop", "semaphore", "shared_memory") if not (off and k == "shared_memory")}
                    ctx.check(set(RT._CLEANUP_FUNCS) == rest, f"kinds of resources cleaned up at exit: {sorted(RT._CLEANUP_FUNCS)}")
                if i == n: break
                t = kinds[i % len(kinds)]
                if t == "any":
                    k = (9, 13, 14)[ctx.choice(f"length{i}", 3)]
                    t = ctx.str(f"kind{i}", k, k)
                name = ctx.str(f"name{i}", 2, 2)
                f, s = (RT.register, "+") if ctx.bool(f"in{i}") else (RT.unregister, "-")
                f = RT.register if s == "+" else RT.unregister
                ctx.ok("reporting a resource", f, name, t)
                if not (off and bool(deep_eq(t, "shared_memory"))):
                    want.append([s, name, t]); ctx.cover("reported")
                else: ctx.cover("kept from the tracker")
            ctx.check(len(rec.log) == len(want), f"{len(rec.log)} reports instead of {len(want)}")
            ctx.eq([list(x) for x in rec.log], want, "reports to the tracker")
            if not ctx.symbolic: blocks(ctx, rec, off)
        finally: m.sys = had


def blocks(ctx, rec, off):
    """in replays: real blocks and semaphores report as was assumed"""
    from multiprocessing.shared_memory import SharedMemory
    import multiprocessing as mp
    rec.log.clear()
    b = SharedMemory(f"sx{os.getpid()}_c16", create=True, size=3)
    b.close(); b.unlink()
    ctx.check([x[0] for x in rec.log] == ([] if off else ["+", "-"]), "reports of a real block")
    rec.log.clear()
    s = ctx.ok("semaphore", mp.get_context("spawn").Semaphore, 1)
    ctx.check([x[0] for x in rec.log] == ["+"] and rec.log[0][2] == "semaphore", "reports of a real semaphore")
    from _multiprocessing import sem_unlink
    name = rec.log[0][1]
    s._semlock.__class__        # keep it alive until it is unlinked
    from multiprocessing import util
    for k in [k for k, f in util._finalizer_registry.items() if name in (f._args or ())]: util._finalizer_registry[k]()


def cases(tier):
    out = []
    deep = tier != "quick"
    for n in (1, 2, 3, 4) + ((5,) if deep else ()):
        for at in [()] + [(i,) for i in range(n + 1)] + [(i, j) for i in range(n + 1) for j in range(i, n + 1) if n < 4 or deep]:
            for kind in ("posix", "windows"):
                if kind == "windows" and len(at) != 1: continue
                if n <= 2: ks = ("any",)
                elif n == 3: ks = ("any", "shared_memory")
                else: ks = ("shared_memory", "any", "shared_memory", "semaphore")
                out.append((f"{kind}-{n}-{'.'.join(map(str, at)) or 'never'}", history, dict(n=n, at=at, kind=kind, kinds=ks)))
    return out

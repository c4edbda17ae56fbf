"""indexes: histories from empty, and one operation from an arbitrary consistent state of any length"""
from harness.lib import *
from harness.shm import *
from harness import shm
NOTHING = "no value"


# ------------------------------------------------------------------ histories
def consistent(ctx, ix, model, meta):
    """through the API only"""
    keys = list(ix.update())
    ctx.check(ix.length == len(model), "recorded length")
    ctx.check(len(keys) == len(model), "number of keys listed")
    pairs = [(q, 0) for q in keys]
    for k, v in model:
        ctx.check(find(pairs, k) is not None, "a key is missing")
        at = ix.check(k)
        ctx.check(at is not None and 0 <= at < len(model), "slot of a key")
        ctx.check(bool(keys[at] == k), "the slot of a key holds another key")
    if meta:
        its = list(ix.items())
        ctx.check(len(its) == len(model), "number of items")
        for (k, v), q in zip(its, ix.keys()):
            i = find(model, k)
            ctx.check(i is not None and bool(q == k), "a removed key is listed")
            ctx.eq(v, None if model[i][1] is NOTHING else model[i][1], "value listed with a key")
        for a, (_, b) in zip(ix.values(), its): ctx.eq(a, b, "values and items disagree")


def history(ctx, cls, ops, klen, keys="ascii"):
    w = world(ctx, keys)
    C = getattr(ctx.mod("codex.implements"), cls)
    meta = cls == "MetaTagIndex"
    p = w.name("ix")
    h = [C(p, create=True)]
    h.append(C(p, create=False))
    model = []
    for i, op in enumerate(ops):
        ix = h[i % 2]
        k = akey(ctx, f"k{i}", klen)
        at = find(model, k)
        if op == "add" or op == "addv" or op == "new":
            v = NOTHING
            kw = {}
            if op == "addv":
                v = jval(ctx, f"v{i}", (40, 0, 0, 60, 10)[i])
                kw = {"value": v}
            if op == "new" and at is not None:
                before = list(ix.update())
                ctx.raises(FileExistsError, ix.add, "adding a duplicate though disallowed", k, exists_ok=False)
                ctx.eq(list(ix.update()), before, "a refused addition changed something")
            else:
                was = ix.check(k)
                if op == "new": s = ix.add(k, exists_ok=False)
                else: s = ix.add(k, **kw)
                if at is None: model.append((k, v))
                else:
                    ctx.check(s == was, "slot reported for a key already present")
                    if v is not NOTHING: model[at] = (k, v)
                ctx.check(s == ix.check(k), "slot reported")
        elif op == "del":
            if at is None:
                before = list(ix.update())
                ctx.raises(KeyError, ix.remove, "removing an absent key", k)
                ctx.eq(list(ix.update()), before, "a refused removal changed something")
            else:
                if i % 2:
                    ix.remove(k)
                else: del ix[k]
                ctx.check(ix.check(k) is None, "a removed key is found")
                model.pop(at)
    for ix in h: consistent(ctx, ix, model, meta)


def jval(ctx, nm, pad=0):
    """arbitrary atom, or a list of one that takes `pad` more bytes when encoded"""
    v = ctx.value(nm)
    ok = v.isinst((str, int, float)) if ctx.symbolic else isinstance(v, (str, int, float))
    ctx.assume(ok)
    return [v, "p" * pad] if pad else v


# ------------------------------------------------------------------ one step from any state
class Pre:
    """an arbitrary consistent index; blocks come into being as they are looked at"""
    def __init__(self, ctx, w, ix, meta, klen, nmax):
        self.ctx, self.w, self.ix, self.meta, self.klen = ctx, w, ix, meta, klen
        self.n = ctx.int("n", 0, nmax)
        self.slots, self.absent, self.gone, self.vals = [], [], [], {}
        X = SymInt(z3.Int("probe!"))
        ctx.assume(X >= 0)
        self.tk = SymStr.cells(ix.key_address(X))
        self.tv = SymStr.cells(ix.val_address(X)) if meta else None
        self.th = SymStr.cells(ix.hash_address("x"))
        w.find(w.name("ix")).cells[:] = self.n.to_bytes(8, "little").c if is_sym(self.n) else list(self.n.to_bytes(8, "little"))
        w.lazy = self.lookup
        orig = w.remove

        def remove(name, b):
            self.gone.append(name); orig(name, b)
        w.remove = remove

    def match(self, tmpl, name):
        c = SymStr.cells(name)
        j = next(i for i, x in enumerate(tmpl) if isinstance(x, Part))
        pre, suf = tmpl[:j], tmpl[j + 1:]
        if len(c) <= j or c[:j] != pre or (suf and c[-len(suf):] != suf): return None
        mid = c[j:len(c) - len(suf)]
        if isinstance(tmpl[j], IntPart):
            if len(mid) == 1 and isinstance(mid[0], IntPart): return mkint(mid[0].payload)
            if all(isinstance(x, int) and 48 <= x <= 57 for x in mid): return int("".join(map(chr, mid)))
            return None
        if len(mid) == 1 and isinstance(mid[0], Part) and mid[0].tag == tmpl[j].tag: return mid[0].payload
        return None

    def lookup(self, name):
        for g in self.gone:
            if bool(g == name): return None
        for t in (self.tk, self.tv):
            if t is None: continue
            e = self.match(t, name)
            if e is None: continue
            if not bool(e >= 0) or not bool(e < self.n): return None
            for pos, _ in self.slots:
                if bool(pos == e): return None      # its blocks that exist are already there
            self.materialise(e)
            return self.w.find(name)
        d = self.match(self.th, name)
        if d is None: return None
        k = SymStr.mk(SymBytes.cells(d))
        for q in self.absent:
            if bool(q == k): return None
        for _, q in self.slots:
            if bool(q == k): return None
        j = len(self.slots)
        if self.ctx.bool(f"present{j}.{len(self.absent)}"):
            p = self.ctx.int(f"p{j}", 0)
            self.ctx.assume(p < self.n)
            self.ctx.distinct(p, *[x for x, _ in self.slots])
            self.materialise(p, k)
            return self.w.find(name)
        self.absent.append(k)
        return None

    def materialise(self, pos, key=None):
        ctx, j = self.ctx, len(self.slots)
        if key is None:
            key = akey(ctx, f"slot{j}.key", self.klen)
            ctx.distinct(key, *[q for _, q in self.slots], *self.absent)
        else: ctx._rec(f"slot{j}.key", key)
        ctx._rec(f"slot{j}.pos", pos if is_sym(pos) else SymInt(z3.IntVal(pos)))
        self.slots.append((pos, key))
        w = self.w
        w.make(self.ix.key_address(pos), SymStr.cells(key) and SymBytes.mk(SymStr.cells(key)))
        w.make(self.ix.hash_address(key), pos.to_bytes(8, "little"))
        if self.meta and ctx.bool(f"slot{j}.has"):
            v = jval(ctx, f"slot{j}.val", 40)
            self.vals[j] = v
            w.make(self.ix.val_address(pos), SymBytes.mk([ord(c) for c in j_dumps(v)]))
        return key

    def value(self, j):
        """value materialised with slot j"""
        return self.vals.get(j, NOTHING)


def step(ctx, cls, op, klen, nmax, wit):
    (sym_step if ctx.symbolic else real_step)(ctx, cls, op, klen, nmax, wit)


def act(ctx, ix, op, t, present, v):
    """-> (slot or None, refused)"""
    if op == "add": return ix.add(t), False
    if op == "addv": return ix.add(t, v), False
    if op == "new":
        if present:
            ctx.raises(FileExistsError, ix.add, "adding a duplicate though disallowed", t, exists_ok=False)
            return None, True
        return ix.add(t, exists_ok=False), False
    if op == "del":
        if not present:
            ctx.raises(KeyError, ix.remove, "removing an absent key", t)
            return None, True
        ix.remove(t)
        return None, False


def sym_step(ctx, cls, op, klen, nmax, has_wit):
    w = world(ctx)
    meta = cls == "MetaTagIndex"
    C = getattr(ctx.mod("codex.implements"), cls)
    ix = C(w.name("ix"), create=True)
    pre = Pre(ctx, w, ix, meta, klen, nmax)
    n0 = pre.n
    wit = None
    if has_wit:
        q = ctx.int("q", 0)
        ctx.assume(q < n0)
        wit = pre.materialise(q)
    t = akey(ctx, "t", klen)
    at = ix.check(t)
    present = at is not None
    tval = NOTHING
    if present and meta:
        tv = w.find(ix.val_address(at))
        tval = NOTHING if tv is None else j_loads(SymBytes.mk(tv.cells))
    v = jval(ctx, "v", 60 if has_wit else 20) if op == "addv" else None
    slot, refused = act(ctx, ix, op, t, present, v)
    ix = C(w.name("ix"), create=False)
    ix.update_length()
    L = ix.length
    grows = op != "del" and not present
    shrinks = op == "del" and present
    ctx.check(L == n0 + (1 if grows else -1 if shrinks else 0), "recorded length")
    here = lambda k: read_key(ctx, w, ix, k, L)
    s = ix.check(t)
    if op == "del": ctx.check(s is None, "a removed key is found")
    else:
        here(t)
        if not refused:
            ctx.check(s is not None and s == slot, "slot reported")
            if present: ctx.check(s == at, "slot of a key already present")
        if meta:
            want = v if op == "addv" else tval
            ctx.eq(val(w, ix, s), want, "value of the key added")
    if wit is not None and not (shrinks and bool(wit == t)):
        s = here(wit)
        if meta and not bool(wit == t): ctx.eq(val(w, ix, s), pre.value(0), "value of another key")
    r = ctx.int("r", 0)
    b = w.find(ix.key_address(r))
    if b is None:
        ctx.check(r >= L, "an empty slot below the length")
        if meta: ctx.check(w.find(ix.val_address(r)) is None, "a value without a key")
    else:
        ctx.check(r < L, "a key beyond the length")
        s = ix.check(SymBytes.mk(b.cells))
        ctx.check(s is not None and s == r, "the key in a slot is recorded elsewhere")
    z = akey(ctx, "z", klen)
    s = ix.check(z)
    if s is not None: here(z)


def val(w, ix, s):
    b = w.find(ix.val_address(s))
    return NOTHING if b is None else j_loads(SymBytes.mk(b.cells))


def read_key(ctx, w, ix, k, L):
    s = ix.check(k)
    ctx.check(s is not None, "a key is missing")
    ctx.check(And_(s >= 0, s < L), "slot of a key")
    b = w.find(ix.key_address(s))
    ctx.check(b is not None and bool(SymStr.mk(b.cells) == k), "the slot of a key holds another key")
    return s


def real_step(ctx, cls, op, klen, nmax, has_wit):
    """the same state built and observed through the real API"""
    from sx.core import Prune
    w = world(ctx)
    meta = cls == "MetaTagIndex"
    C = getattr(ctx.mod("codex.implements"), cls)
    n = ctx.int("n")
    if n > 700: raise Prune()
    keys, vals = [f"filler{i}" for i in range(n)], [NOTHING] * n
    j = 0
    while f"slot{j}.key" in ctx.data:
        p = ctx.data[f"slot{j}.pos"]
        keys[p] = ctx.data[f"slot{j}.key"]
        if ctx.data.get(f"slot{j}.has"):
            vals[p] = ctx.data[f"slot{j}.val"]
            vals[p] = [vals[p], "p" * 40]
        j += 1
    assert len(set(keys)) == n
    ix = C(w.name("ix"), create=True)
    model = list(zip(keys, vals))
    for k, v in model:
        if v is NOTHING: ix.add(k)
        else: ix.add(k, v)
    consistent(ctx, ix, model, meta)
    t = ctx.data["t"]
    at = find(model, t)
    v = [ctx.data["v"], "p" * (60 if has_wit else 20)] if "v" in ctx.data else None
    slot, refused = act(ctx, ix, op, t, at is not None, v)
    ix = C(w.name("ix"), create=False)
    if op != "del" and not refused:
        ctx.check(ix.check(t) == slot, "slot reported")
        if at is not None: ctx.check(slot == at, "slot of a key already present")
        if at is None: model.append((t, NOTHING))
        if op == "addv": model[-1 if at is None else at] = (t, v)
    elif op == "del" and at is not None:
        model.pop(at)
        ctx.check(ix.check(t) is None, "a removed key is found")
    consistent(ctx, ix, model, meta)
    if meta:    # a later key must not inherit a stale value
        ix.add("later key")
        consistent(ctx, ix, model + [("later key", NOTHING)], meta)


def cases(tier, cls, ops, lmax, kq=2):
    out = []
    for op in ops:
        for nm, nmax in (("short", 5), ("medium", 600), ("any", 2 ** 63 - 2)):
            for wit in (False, True):
                out.append((f"step-{op}-{nm}" + "-other" * wit, step, dict(cls=cls, op=op, nmax=nmax, wit=wit, klen=kq if tier == "quick" else kq + 1)))
    import itertools
    for n in range(1, lmax + 1):
        for seq in itertools.product(ops, repeat=n):
            if seq[0] == "del" and n > 1 or seq[0] == "new" and n > 2: continue
            if n > 3 and seq.count("del") == 0: continue
            out.append(("-".join(seq), history, dict(cls=cls, ops=seq, klen=2 if n < 3 else 1)))
    for keys in ("wide", 100, 300):
        for seq in (ops[:1], ops[:1] * 2, (ops[0], "del"), (ops[1], ops[0], "del"), ops[1:2] * 2):
            out.append((f"{'-'.join(seq)}-{keys}", history, dict(cls=cls, ops=seq, klen=1, keys=keys)))
    return out

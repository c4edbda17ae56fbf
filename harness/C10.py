from harness.lib import *
from harness.shm import *
from harness import shm, npmodel
from harness.C01 import look, same_items
BOUNDS = "a rejected write (existing key with overwriting disallowed; a value, nested value or value attached to a key that cannot be encoded; an array of objects; a key that cannot name a block: empty, or 1-2 (thorough: 1-3) characters among which '/' or NUL, or too long) after every history of at most 2 (thorough: 3) stores and deletions and before at most 1 (thorough: 2) further operations, through two handles, with arbitrary one-character keys and arbitrary values"
OUTSIDE = "keys whose text cannot be encoded at all, non-ASCII names (Python's resource tracker), writes that fail because memory runs out, processes killed half way"
ASSUMPTIONS = shm.ASSUMPTIONS
MAXBAD = 2
REJECT = {"Notepad": ("exists", "bad", "badlist", "badnew", "key", "keynew", "longkey", "badkey"),
          "GridPaper": ("exists", "object", "objectnew", "notarray", "key", "keynew", "longkey", "badkey"),
          "NotepadMeta": ("exists", "bad", "badnew", "badmeta", "key", "replace"),
          "MetaTagIndex": ("exists", "bad", "badlist", "key", "keyval", "badkey"),
          "TagIndex": ("exists", "value", "key", "keynew")}


def fakes(symbolic):
    f = shm.fakes(symbolic)
    if symbolic: f["numpy"] = npmodel.module()
    return f


class Pad:
    """one of the four stores behind one interface; the model is a list of (key, value)"""
    def __init__(self, ctx, cls, w):
        self.ctx, self.cls = ctx, cls
        I = ctx.mod("codex.implements")
        C, kw = getattr(I, cls.replace("dMeta", "d")), {}
        if cls == "NotepadMeta": kw["index_type"] = I.MetaTagIndex
        self.h = [C(w.name("pad"), create=True, **kw), C(w.name("pad"), create=False, **kw)]
        self.model, self.used = [], []

    def value(self, nm):
        c = self.cls
        if c == "GridPaper": return npmodel.make(self.ctx, nm, (2,), "|u1")
        if c == "TagIndex": return None
        if c == "NotepadMeta": return self.ctx.value(nm), self.meta(nm + ".meta") if self.ctx.bool(nm + ".hasmeta") else None
        if c == "MetaTagIndex":
            v = self.ctx.value(nm)
            self.ctx.assume(v.isinst((str, int, float)) if self.ctx.symbolic else isinstance(v, (str, int, float)))
            return v
        return aval(self.ctx, nm) if nm == 'v' else self.ctx.value(nm)

    def meta(self, nm):
        v = self.ctx.value(nm)
        self.ctx.assume(v.isinst((str, int, float)) if self.ctx.symbolic else isinstance(v, (str, int, float)))
        return v

    def put(self, o, k, v, **kw):
        if self.cls == "NotepadMeta": o.set(k, v[0], v[1], **kw)
        elif self.cls in ("Notepad", "GridPaper"): o.set(k, v, **kw)
        elif v is None: o.add(k, **kw)
        else: o.add(k, v, **kw)

    def op(self, o, op, i):
        k = akey(self.ctx, f"k{i}", 1)
        self.used.append(k)
        at = find(self.model, k)
        if op == "set":
            v = self.value(f"v{i}")
            self.put(o, k, v)
            if at is None: self.model.append((k, v))
            else:
                if self.cls == "NotepadMeta" and v[1] is None: v = v[0], self.model[at][1][1]
                self.model[at] = (k, v)
        else:
            def rm(): del o[k]
            if at is None: self.ctx.raises(KeyError, rm, "deleting a missing key")
            else: rm(); self.model.pop(at)

    def same(self, extra=()):
        ctx = self.ctx
        for o in self.h:
            for k in self.used: self.look(o, k)
            for k in extra: self.look(o, k)
            if self.cls == "Notepad":
                same_items(ctx, [(k, 0) for k in o.keys()], [(k, 0) for k, _ in self.model], "keys")
                same_items(ctx, list(o.iteritems()), self.model, "items")
            elif self.cls == "NotepadMeta":
                same_items(ctx, [(k, 0) for k in o.keys()], [(k, 0) for k, _ in self.model], "keys")
                same_items(ctx, list(o.iteritems()), [(k, v[0]) for k, v in self.model], "items")
                same_items(ctx, list(o.index.items()), [(k, v[1]) for k, v in self.model], "metadata")
            elif self.cls == "TagIndex":
                same_items(ctx, [(k, 0) for k in o.update()], [(k, 0) for k, _ in self.model], "keys")
            else:
                ks = list(o.keys())
                its = list(o.items() if self.cls == "MetaTagIndex" else o.iteritems())
                ctx.check(len(ks) == len(self.model) == len(its), "number of keys")
                for k, v in its:
                    at = find(self.model, k)
                    ctx.check(at is not None, "a key that was rejected is listed")
                    self.equal(v, self.model[at][1])

    def equal(self, a, b):
        if self.cls == "GridPaper": self.ctx.check(npmodel.equal(a, b), "value")
        else: self.ctx.eq(a, b, "value")

    def look(self, o, k):
        ctx, at = self.ctx, find(self.model, k)
        if self.cls == "Notepad": look(ctx, o, self.model, k, 0)
        elif self.cls == "NotepadMeta": look(ctx, o, [(q, v[0]) for q, v in self.model], k, 0)
        elif self.cls == "GridPaper":
            if at is None: ctx.check(o.get(k) is None, "missing key")
            else: self.equal(o[k], self.model[at][1])
        else:
            s = ctx.ok("looking a key up", o.check, k)
            ctx.check((s is None) == (at is None), "key found")
            if at is not None: ctx.check(0 <= s < len(self.model), "slot")


def badkey(ctx, nm):
    k = ctx.str(nm, 0, MAXBAD, lo=0, hi=0x7e)
    c = SymStr.cells(k)
    ctx.assume(Or_(*[cell_eq(x, 47) for x in c], *[cell_eq(x, 0) for x in c]) if c else True)
    return k


def rejected(ctx, cls, pre, why, post):
    w = world(ctx)
    p = Pad(ctx, cls, w)
    for i, op in enumerate(pre): p.op(p.h[i % 2], op, i)
    o = p.h[len(pre) % 2]
    v = p.value("v")
    kw, exc, extra = {}, Exception, []
    if why in ("key", "keynew", "keyval"):
        k = badkey(ctx, "k")
        if why == "keynew": kw["exists_ok"] = False
        if why == "key" and cls == "MetaTagIndex": v = None
    elif why == "longkey": k = "k" * 300
    else:
        k = akey(ctx, "k", 1)
        extra = [k]
        at = find(p.model, k)
        if why == "exists":
            ctx.assume(at is not None)
            kw["exists_ok"] = False
            exc = KeyError if cls in ("Notepad", "NotepadMeta", "GridPaper") else FileExistsError
            if cls == "MetaTagIndex" and ctx.bool("novalue"): v = None
    if cls == "NotepadMeta":
        if why == "bad": ctx.assume(find(p.model, k) is None or v[1] is None)
        if why == "replace": ctx.assume(find(p.model, k) is not None and v[1] is not None)
        if why in ("bad", "badnew", "replace"): v = Bad(), v[1]
        if why == "badnew": kw["exists_ok"] = False
        if why == "badmeta": v = v[0], Bad()
    elif why == "bad": v = Bad()
    if why == "badlist": v = [v, {"x": Bad()}]
    if why == "badnew" and cls != "NotepadMeta": v = Bad(); kw["exists_ok"] = False
    if why == "value": v = "tag"
    if why.startswith("object"):
        import numpy as np
        v = npmodel.NdArray((2,), "O") if ctx.symbolic else np.array([{}, None], dtype="O")
        if why == "objectnew": kw["exists_ok"] = False
    if why == "notarray": v = "text"
    if why == "badkey":
        k, extra = badkey(ctx, "k2"), [k]
        v = Bad() if cls != "GridPaper" else "text"
    def write():
        if cls == "TagIndex" and why == "value": o.add(k, v)
        elif not kw and cls in ("Notepad", "GridPaper") and len(pre) % 2: o[k] = v
        else: p.put(o, k, v, **kw)
    if why in ("key", "keynew", "keyval", "longkey"):
        _, ex = ctx.attempt(write)
        if ex is None:                  # then it has to be there
            p.model.append((k, v)); p.used.append(k)
    else: ctx.raises(exc, write, "a write that has to be rejected")
    p.same(extra)
    for i, op in enumerate(post): p.op(p.h[i % 2], op, f"p{i}")
    if post: p.same(extra)


def cases(tier):
    import itertools
    global MAXBAD
    MAXBAD = 2 if tier == "quick" else 3
    out = []
    q = tier == "quick"
    pres = [x for n in range(0, 3 if q else 4) for x in itertools.product(("set", "del"), repeat=n) if not x or x[0] == "set"]
    posts = [x for n in range(0, 2 if q else 3) for x in itertools.product(("set", "del"), repeat=n)]
    for cls, whys in REJECT.items():
        for why in whys:
            for pre in pres:
                if why in ("exists", "replace") and not pre: continue
                if cls == "NotepadMeta" and len(pre) > 1 and (q or len(pre) > 2) and pre.count("set") > 1: continue
                for post in posts:
                    if why == "replace" and (pre != ("set",) or post): continue
                    if not post and why not in ("exists", "bad", "key", "replace"): continue
                    if cls == "NotepadMeta" and post == ("set",) and len(pre) > 1: continue
                    out.append((f"{cls}-{why}-{'-'.join(pre)}-then-{'-'.join(post)}", rejected, dict(cls=cls, pre=pre, why=why, post=post)))
    return out

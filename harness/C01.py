from harness.lib import *
from harness.shm import *
from harness import shm
BOUNDS = "all histories of at most 3 (thorough: 4) operations (set, overwrite, refused overwrite, delete, clear, read) on a Notepad through two handles, with arbitrary keys of 1-2 ASCII characters, 1 character of the basic plane or 101 ASCII characters (the last one arbitrary), equal or different in every pattern, and arbitrary values of two sizes; results seen through three handles"
OUTSIDE = "keys in the reserved namespace (C09), keys that cannot name a shared memory block, FakeIndex, concurrent histories (C04)"


def history(ctx, ops, klen, narrow=False, keys="ascii"):
    w = world(ctx, keys)
    N = ctx.mod("codex.implements").Notepad
    p = w.name("pad")
    h = [N(p, create=True), N(p)]
    live = []
    used = []
    for i, op in enumerate(ops):
        hd = h[0] if i == 0 else h[i % 2 if narrow else ctx.choice(f"h{i}", 2)]
        if op == "clear":
            hd.clear(); live = []
            continue
        k = akey(ctx, f"k{i}", klen)
        used.append(k)
        at = find(live, k)
        if op == "set" or op == "new":
            v = aval(ctx, f"v{i}")
            if op == "new" and at is not None:
                ctx.raises(KeyError, hd.set, "overwriting although disallowed", k, v, None, False)
            elif op == "new": hd.set(k, v, exists_ok=False)
            elif i % 2 if narrow else ctx.choice(f"how{i}", 2): hd[k] = v
            else: hd.set(k, v)
            if at is None: live.append((k, v))
            elif op == "set": live[at] = (k, v)
        elif op == "del":
            def rm(): del hd[k]
            if at is None: ctx.raises(KeyError, rm, "deleting a missing key")
            else: rm(); live.pop(at)
        elif op == "get": look(ctx, hd, live, k, f"r{i}")
    h.append(N(p))
    used.append(akey(ctx, "other", klen))
    for n, hd in enumerate(h):
        for k in used: look(ctx, hd, live, k, n)
        ks = list(hd.keys())
        same_items(ctx, [(k, None) for k in ks], [(k, None) for k, _ in live], "keys")
        same_items(ctx, list(hd.iteritems()), live, "iteritems")
        ctx.check(len(list(hd.iterkeys())) == len(live) and len(list(hd.itervalues())) == len(live), "number of keys")


def same_items(ctx, got, want, msg):
    ctx.check(len(got) == len(want), msg + ": number")
    for k, v in want:
        i = find(got, k)
        ctx.check(i is not None, msg + ": a live key is missing")
        ctx.eq(got[i][1], v, msg + ": wrong value")
        got = got[:i] + got[i + 1:]


def look(ctx, hd, live, k, tag):
    at = find(live, k)
    d = object()
    if at is None:
        ctx.raises(KeyError, hd.__getitem__, "subscription of a missing key", k)
        ctx.check(hd.get(k, d) is d, "default of a missing key")
        ctx.check(hd.get(k) is None, "implicit default")
    else:
        ctx.eq(hd[k], live[at][1], "value read")
        ctx.eq(hd.get(k, d), live[at][1], "value got")


def cases(tier):
    import itertools
    L = 3 if tier == "quick" else 4
    out = []
    for n in range(1, L + 1):
        for ops in itertools.product(("set", "new", "del", "clear", "get"), repeat=n):
            if ops[0] in ("get", "clear", "del") and n > 1: continue
            if ops.count("get") > 1 or ops[-1] == "get" and n > 1: continue
            out.append(("-".join(ops), history, dict(ops=ops, klen=2 if n < 3 else 1, narrow=n > (2 if tier == 'quick' else 3))))
    for keys in ("wide", 100):
        for ops in (("set",), ("set", "set"), ("set", "del"), ("set", "new"), ("set", "set", "del")):
            out.append((f"{'-'.join(ops)}-{keys}", history, dict(ops=ops, klen=1, narrow=True, keys=keys)))
    return out

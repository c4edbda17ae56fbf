from harness.lib import *
from harness.shm import *
from harness.C09 import Named
BOUNDS = "all histories of at most 4 (thorough: 5) operations (stick, note, read, forced read, pull) through two handles and fresh ones at one address (text, or a number that is false), with arbitrary objects of two sizes; two notes given no address, restuck and pulled"
OUTSIDE = "a handle's caching of None (a stuck None and no note read alike); concurrent use; the chance that the random addresses of two notes are the same"


class Number(Named):
    """an address that is not text, like the number 0"""
    def __bool__(self): return False


def history(ctx, ops):
    w = world(ctx)
    S = ctx.mod("codex.implements").Sticky
    a = name = w.name("st")
    if len(ops) < 3 and ctx.bool("number"): a = Number(name)
    h = [S(a), S(a)]
    cached = [None, None]       # None: nothing seen
    stuck = None                # None: no note
    for i, (op, n) in enumerate(ops):
        if op in ("stick", "note"):
            v = aval(ctx, f"v{i}")
            if op == "note":
                h[n] = S.note(v, a)
                ctx.check(bool(h[n].address == name), "address of a note")
            else: h[n].stick(v)
            stuck = cached[n] = (v,)
        elif op in ("read", "reread"):
            got = h[n].read(op == "reread") if i % 2 else h[n].read(reread=op == "reread")
            if op == "read" and cached[n] is not None and not isnone(ctx, cached[n][0]):
                ctx.eq(got, cached[n][0], "cached read")
            else:
                ctx.eq(got, stuck[0] if stuck else None, "read")
                if stuck: cached[n] = stuck
                elif op == "reread": cached[n] = None; h[n] = S(a)      # what a handle told that there is nothing remembers is open
        elif op == "pull":
            if stuck is None: continue
            h[n].pull() if i % 2 else h[n].close()
            stuck = None
        elif op == "dup":
            h[n] = S(a); cached[n] = None
    for n in (0, 1):
        if cached[n] is not None and not isnone(ctx, cached[n][0]):
            ctx.eq(h[n].read(), cached[n][0], "cached read at the end")
    for hd in (S(a), h[1], h[0]):
        ctx.eq(hd.read(reread=True), stuck[0] if stuck else None, "forced read at the end")
    ctx.eq(S(a).read(), stuck[0] if stuck else None, "fresh read at the end")


def unnamed(ctx, ops):
    """notes given no address get one of their own"""
    w = world(ctx)
    m = ctx.mod("codex.implements")
    S = m.Sticky
    with draws(ctx, m):
        v = [aval(ctx, f"v{i}") for i in range(3)]
        n = []
        try:
            for i in range(2):
                n.append(S.note(v[i]) if not ctx.bool(f"explicit{i}") else S.note(v[i], None))
            have = list(v[:2])
            for op, j in ops:
                if op == "stick": n[j].stick(v[2]); have[j] = v[2]
                elif op == "pull" and have[j] is not None: n[j].pull(); have[j] = None
            ctx.check(type(n[0].address) is SymStr or isinstance(n[0].address, str), "an address is text")
            ctx.check(not bool(n[0].address == n[1].address), "two notes at one address")
            for j in range(2):
                ctx.eq(S(n[j].address).read(), have[j], "a note that was given no address")
        finally:
            if not ctx.symbolic:
                for x in n:
                    try: x.pull()
                    except FileNotFoundError: pass


def isnone(ctx, v):
    return v is None or (type(v) is SymAtom and v.isinst(type(None)))


def cases(tier):
    import itertools
    L = 4 if tier == "quick" else 5
    al = [("stick", 0), ("stick", 1), ("note", 1), ("read", 0), ("reread", 1), ("read", 1), ("pull", 0), ("pull", 1), ("dup", 1)]
    out = []
    for n in range(1, L + 1):
        for ops in itertools.product(al, repeat=n):
            names = [o for o, _ in ops]
            if n > 1 and names[0] not in ("stick", "note", "read"): continue
            if n > 2 and not any(x in ("stick", "note") for x in names): continue
            if any(names[j] == names[j + 1] == "pull" or ops[j] == ops[j + 1] and names[j] != "stick" for j in range(n - 1)): continue
            if n > 3 and sum(x in ("read", "reread", "dup") for x in names) > n - 2: continue
            out.append(("-".join(f"{o}{k}" for o, k in ops), history, dict(ops=ops)))
    # one case per leading pair
    groups = {}
    for nm, f, p in out: groups.setdefault("-".join(nm.split("-")[:2]), []).append(p["ops"])
    un = [("unnamed-" + "-".join(f"{o}{k}" for o, k in ops), unnamed, dict(ops=ops)) for n in (0, 1, 2) for ops in itertools.product([("stick", 0), ("stick", 1), ("pull", 0), ("pull", 1)], repeat=n)]
    return un + [(g, many, dict(all_ops=o)) for g, o in groups.items()]


def many(ctx, all_ops):
    history(ctx, all_ops[ctx.choice("history", len(all_ops))])

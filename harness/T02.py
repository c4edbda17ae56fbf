from harness.T01 import *
BOUNDS = "all sequences of at most 4 (thorough: 6) operations (and chosen longer ones) out of track, set metadata, dump, pause, unpause and clear on a fresh or preexisting log file with 1..2 entries; two trackers on one file in turn; arbitrary recorded values (serialisation itself is an uninterpreted injective function)"
OUTSIDE = "files not written by a tracker; concurrent dumps; values that cannot be serialised"
ASSUMPTIONS = ["json.dumps returns some text that stands for exactly the object it was given (replayed with the real one)"]


def entries(ctx, path):
    """the file as a list of logs"""
    text = path.read_bytes()
    try:
        data = json.loads(text.decode("utf-8"))
    except ValueError:
        ctx.check(False, "the log file is not well-formed JSON")
    ctx.check(type(data) is list, "the log file is not one list")
    if not ctx.symbolic: return data
    return [TOK[d["token"]] if isinstance(d, dict) and set(d) == {"token"} and d["token"] in TOK else d for d in data]


def norm(ctx, x): return x if ctx.symbolic else json.loads(json.dumps(x))


def dumps(ctx, ops, pre, two):
    TOK.clear()
    T = ctx.mod("tracker").Tracker
    out = Path(ctx.tmpdir())
    trs = [T("trk", outdir=out)]
    path = trs[0].outpath
    ctx.check(str(path).startswith(str(out)), "log file outside its directory")
    want = [{"old": i} for i in range(pre)]
    if pre: path.write_bytes(json.dumps(want, indent=1).encode())
    if two: trs.append(T("trk", outdir=out))
    exists = bool(pre)
    paused = [False, False]
    for i, op in enumerate(ops):
        w = i % 2 if two else 0
        tr = trs[w]
        if op == "track": tr.track(alpha, x=val(ctx, f"{i}.x"))
        elif op == "meta": tr.set_metadata(m=val(ctx, f"{i}.m"))
        elif op in ("pause", "unpause"):
            paused[w] = op == "pause"
            tr.paused = paused[w]
            ctx.check(tr.paused is paused[w], "paused state")
        elif op == "clear":
            ctx.ok("clear", tr.clear); want, exists = [], False
        elif op == "dump":
            before = path.read_bytes() if path.exists() else None
            ctx.ok("dump", tr.dump)
            if paused[w]:
                ctx.cover("paused dump")
                ctx.check((path.read_bytes() if path.exists() else None) == before, "a paused dump touched the file")
            else:
                want = want + [norm(ctx, snapshot(tr.log))]; exists = True
                ctx.check(len(tr.log["history"]) == len(tr.history) and tr.log.get("name") == "trk", "log contents")
        ctx.check(path.exists() == exists, f"existence of the log file after {op}")
        if exists:
            got = entries(ctx, path)
            ctx.check(len(got) == len(want), f"number of entries after {op}")
            for g, r in zip(got, want):
                ctx.check(isinstance(g, dict) and sorted(g) == sorted(r), "an entry is not the dumped log")
                for k in r: ctx.check(same(g[k], r[k]), f"entry field {k}")
            ctx.cover(f"entries{len(want)}")


def same(a, b):
    from sx.proxies import And_, deep_eq
    if type(a) is list and type(b) is list: return And_(len(a) == len(b), *[same(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    if type(a) is dict and type(b) is dict: return And_(*[same(a[k], b[k]) for k in a]) if set(a) == set(b) else False
    return deep_eq(a, b)


def named(ctx, ident, nm):
    """separate trackers have separate files"""
    T = ctx.mod("tracker").Tracker
    out = Path(ctx.tmpdir())
    a, b = T("one", outdir=out, identifier=ident), T("two", outdir=out, identifier=ident)
    a.track(alpha); a.dump(); b.dump(); b.dump()
    ctx.check(a.outpath != b.outpath, "two names share a file")
    ctx.check(len(entries(ctx, a.outpath)) == 1 and len(entries(ctx, b.outpath)) == 2, "dumps of another tracker")
    b.clear()
    ctx.check(a.outpath.exists() and not b.outpath.exists(), "clearing one tracker removes only its file")


def cases(tier):
    import itertools
    out = [("named-plain", named, dict(ident="", nm=0)), ("named-ident", named, dict(ident="run7", nm=0))]
    L = 4 if tier == "quick" else 6
    for ln in range(1, L + 1):
        for ops in itertools.product(("track", "dump", "pause", "unpause", "clear"), repeat=ln):
            if "dump" not in ops: continue
            if ln > 4 and ops.count("dump") < 2: continue
            for pre in (0, 1, 2) if ln < 3 else (0, 1) if ln < 5 else (0,):
                out.append((f"{'-'.join(ops)}-{pre}", dumps, dict(ops=ops, pre=pre, two=False)))
    for ops in (("track", "dump", "dump", "dump", "track", "dump"), ("dump", "meta", "track", "dump", "clear", "dump"), ("track", "track", "pause", "dump", "dump", "dump"), ("dump", "dump", "dump", "dump", "dump")):
        out.append((f"two-{'-'.join(ops)}", dumps, dict(ops=ops, pre=0, two=True)))
        out.append((f"long-{'-'.join(ops)}", dumps, dict(ops=ops, pre=1, two=False)))
    # group small cases
    return group(out)


def many(ctx, members):
    i = ctx.choice("member", len(members))
    members[i][1](ctx, **members[i][2])


def group(cs, size=24):
    return [(f"group-{i}-{g[0][0]}", many, dict(members=g)) for i, g in enumerate(chunks(cs, -(-len(cs) // size)))]

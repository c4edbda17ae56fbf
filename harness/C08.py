from harness.lib import *
from harness.shm import *
BOUNDS = "one primitive call on any store of up to 2 blocks with arbitrary names of 1-2 characters and arbitrary contents of 1-3 bytes, for an arbitrary address and requested sizes 1-4; all pairs of calls on stores of up to 1 block with one-character names and sizes 1-2 (thorough: 2 blocks, two-character names)"
OUTSIDE = "blocks larger than 4 bytes; invalid names; calls that fail half way"


LEN, SZ = 2, 4


def nm(ctx, w, i):
    k = akey(ctx, i, LEN)
    return w.name("") + k


def one(ctx, w, mz, model, op, i):
    a = nm(ctx, w, f"a{i}") if ctx.bool(f"fresh{i}") or not model else model[ctx.choice(f"which{i}", len(model))][0]
    at = find(model, a)
    if op == "open":
        create, over = ctx.bool(f"create{i}"), ctx.bool(f"over{i}")
        n = 1 + ctx.choice(f"n{i}", SZ)
        if not create and at is None:
            ctx.raises(FileNotFoundError, mz.open_block, "opening a missing block without creation", a, n, create=False, overwrite=over)
        elif not create:
            b = mz.open_block(a, n, False, over)
            ctx.eq(b.buf.tobytes(), model[at][1], "contents of an opened block")
        else:
            b = mz.open_block(a, n, overwrite=over) if i % 2 else mz.open_block(a, size=n, create=True, overwrite=over)
            if at is not None and not over:
                ctx.eq(b.buf.tobytes(), model[at][1], "an existing block keeps its contents")
                n = len(model[at][1])
            else:
                ctx.check(len(b.buf) == n and b.size == n, "size of a new block")
                if at is not None: model.pop(at)
                model.append((a, None))
                at = len(model) - 1
            d = ctx.bytes(f"d{i}", n, n)
            b.buf[:] = d        # the handle is writable and is the block
            model[at] = (a, d)
            ctx.check(bool(b.name == a), "name of the block")
    elif op == "exists":
        ctx.check(mz.exists_block(a) is (at is not None), "existence")
    elif op == "fetch":
        if at is None: ctx.raises(FileNotFoundError, mz.fetch_block_bytes, "fetching a missing block", a)
        else: ctx.eq(mz.fetch_block_bytes(a), model[at][1], "bytes fetched")
    elif op == "delete":
        ok = ctx.choice(f"ok{i}", 3)
        args = ([], [False], [True])[ok]
        if at is None and ok != 2: ctx.raises(FileNotFoundError, mz.delete_block, "deleting a missing block", a, *args)
        else:
            mz.delete_block(a, *args)
            if at is not None: model.pop(at)


def run(ctx, ops, ln=2, blocks=2, sz=4):
    global LEN, SZ
    LEN, SZ = ln, sz
    w = world(ctx)
    mz = ctx.mod("codex.memutilz")
    model = []
    for i in range(ctx.choice("blocks", blocks + 1)):
        a, d = nm(ctx, w, f"b{i}"), ctx.bytes(f"c{i}", 1, min(sz, 3))
        if find(model, a) is not None: continue
        w.make(a, d); model.append((a, d))
    for i, op in enumerate(ops):
        one(ctx, w, mz, model, op, i)
        ctx.check(len(w.names()) == len(model), f"number of blocks after {op}")
        for a, d in model:
            ctx.eq(w.read(a), d, f"contents after {op}")


def empty(ctx):
    """a block that another process has created but not sized yet exists"""
    w = world(ctx)
    a = nm(ctx, w, "a")
    w.make(a, b"")
    ctx.check(ctx.mod("codex.memutilz").exists_block(a) is True, "existence of a block being created")


def cases(tier):
    import itertools
    ops = ("open", "exists", "fetch", "delete")
    out = [(o, run, dict(ops=(o,))) for o in ops] + [("empty", empty, {})]
    for n in ((2,) if tier == "quick" else (2, 3)):
        kw = dict(ln=1, blocks=1, sz=2) if tier == "quick" or n == 3 else dict(ln=2, blocks=1, sz=2)
        out += [("-".join(p), run, dict(ops=p, **kw)) for p in itertools.product(ops, repeat=n)
                if "open" in p or "delete" in p]
    return out

"""pipelines of uninterpreted steps"""
from harness.lib import *


class Boom(Exception): pass


class World:
    """steps are uninterpreted functions; every call is logged"""
    def __init__(self, ctx):
        self.ctx, self.log = ctx, []

    def step(self, tag, name=None, fails=None):
        def fn(*args, **kwargs):
            sig = [list(args), [[k, kwargs[k]] for k in sorted(kwargs)]]
            self.log.append((tag, sig))
            if fails is not None: raise fails
            return self.ctx.uf(tag, sig)
        fn.__name__ = fn.__qualname__ = name or f"fn_{tag}"
        return fn

    def out(self, tag, args, kwargs):
        return self.ctx.uf(tag, [list(args), [[k, kwargs[k]] for k in sorted(kwargs)]])


def arrange(state, pos):
    """positional arguments with the signal in the first slot not taken"""
    slot = 0
    while slot in pos: slot += 1
    allpos = dict(pos)
    allpos[slot] = state
    return [allpos[i] for i in sorted(allpos)]


def nogap(pos):
    slot = 0
    while slot in pos: slot += 1
    return sorted(list(pos) + [slot]) == list(range(len(pos) + 1))


def insert_sets(maxpos=3, kws=("alpha", "beta")):
    """all gap-free sets of insert slots: some positions and some names"""
    import itertools
    out = []
    for r in range(maxpos + 1):
        for ps in itertools.combinations(range(maxpos + 1), r):
            if not nogap(ps): continue
            for q in range(len(kws) + 1):
                for ks in itertools.combinations(kws, q): out.append(ps + ks)
    return out


def make_insert(ctx, slots, pre):
    return {s: ctx.value(f"{pre}ins.{s}") for s in slots}


def split(ins):
    return ({k: v for k, v in ins.items() if isinstance(k, int)}, {k: v for k, v in ins.items() if isinstance(k, str)})

from harness.lib import *
from harness import rxmodel as rx
from harness.rxmodel import fakes, builtins_
from sx.proxies import *
import io
BOUNDS = "files of at most 5 (for trimming 9; thorough: 8 and 13) arbitrary bytes; every size limit from 0 up, symbolic; paths given as text or Path, open streams at any position"
OUTSIDE = "files that change while they are read; heads that are not valid UTF-8 (an error either way); arbitrary characters beyond ASCII in heads that are trimmed (some fixed ones are covered)"
ASSUMPTIONS = ["a buffered binary file returns as many bytes as asked for, or all there are; an unbuffered one or a pipe may return fewer"]
TECHNIQUE = "symbolic execution of scrape.py on z3-backed bytes over a file model and a backtracking model of re; every path's assertions decided by z3, counterexamples replayed on real files"


def head_of(ctx, data, n):
    """first n bytes"""
    k = len(data)
    if bool(n < k): k = n if type(n) is int else n.__index__()
    return data[:k]


def text_of(ctx, b):
    try: return b.decode()
    except UnicodeDecodeError: ctx.assume(False)


def label_text(ctx, n, how, multi, default=False):
    data = ctx.bytes("data", n, n, 0, 255 if multi else 127)
    path = rx.file(ctx, "l.lbl", data)
    twice = how == "cached-twice"
    size = 35592 if default else ctx.choice("size", n + 2) if twice else ctx.int("size", 0)
    sc = ctx.mod("scrape")
    f = sc.cached_label_loader if how.startswith("cached") else sc.get_label_text
    arg = rx.Path(ctx, path) if how.endswith("path") else path
    want = text_of(ctx, head_of(ctx, data, size))
    for i in range(2 if how.startswith("cached") else 1):
        r = ctx.ok("reading a label", f, arg, *([] if default else [size]))
        ctx.check(isinstance(r, str), "not text")
        ctx.eq(r, want, "the text is not that of the first bytes")
    if how == "cached-twice":
        other = ctx.choice("other", n + 2)
        want2 = text_of(ctx, head_of(ctx, data, other))
        ctx.eq(ctx.ok("reading with another limit", f, arg, other), want2, "the text for another limit")
        p2 = rx.file(ctx, "m.lbl", data[::-1])
        want3 = text_of(ctx, head_of(ctx, data[::-1], size))
        ctx.eq(ctx.ok("reading another", f, p2, size), want3, "the text of another file")
    ctx.check(rx.closed(ctx), "a file is left open")


def big(ctx):
    """the default limit"""
    data = (b"0123456789abcdef" * 3000)[:40000]
    path = rx.file(ctx, "l.lbl", data)
    extra = ctx.int("more", -3, 3)
    size = 35592 + extra
    ctx.eq(ctx.mod("scrape").get_label_text(path, size), head_of(ctx, data, size).decode(), "long text")
    ctx.eq(ctx.mod("scrape").get_label_text(path), data[:35592].decode(), "default limit")


def stream(ctx, data):
    if ctx.symbolic: return rx.Stream(data)
    return io.BytesIO(data)


class Reader:
    """anything with read and close"""
    def __init__(self, s): self.s, self.closed = s, False
    def read(self, n=-1): return self.s.read(n)
    def close(self): self.closed = True


def head(ctx, n, how):
    data = ctx.bytes("data", n, n)
    size = ctx.int("size", 0)
    at = ctx.choice("at", n + 1) if how in ("stream", "reader") else 0
    if how in ("stream", "reader"):
        src = stream(ctx, data)
        src.read(at)
        if how == "reader": src = Reader(src)
    else:
        p = rx.file(ctx, "l.lbl", data)
        src = rx.Path(ctx, p) if how == "path" else p
    r = ctx.ok("reading a head", ctx.mod("scrape").head_file, src, size)
    want = head_of(ctx, data[at:], size)
    ctx.check(r.tell() == 0, "the result is not positioned at its start")
    ctx.eq(r.read(), want, "the head")
    ctx.eq(r.read(), b"", "the head ends")
    ctx.eq(r.getvalue(), want, "the buffer")
    if how in ("stream", "reader"): ctx.check(src.closed, "the source is left open")
    else: ctx.check(rx.closed(ctx), "the file is left open")


ENDS = [b"END\r\n", b"\x00\x00\x00"]


def trim(ctx, n, how, pre="", post="", limited=True, asked=None):
    data = ctx.bytes("data", n, n, 0, 127)
    data = pre.encode() + data + post.encode()
    size = ctx.int("size", 0) if limited else None
    if how in ("text", "path", "cached"):
        p = rx.file(ctx, "l.lbl", data)
        src = rx.Path(ctx, p) if how == "path" else p
    else: src = stream(ctx, data)
    sc = ctx.mod("scrape")
    f = sc.cached_label_trimmer if how == "cached" else sc.trim_label
    fail = ctx.bool("fail") if asked is None else asked
    args = ([size] if limited else []) + ([fail] if limited and fail else [])
    r, ex = ctx.attempt(f, src, *args, **(dict(raise_for_failure=fail) if fail and not limited else {}))
    h = head_of(ctx, data, size) if limited else data
    cut = None
    for e in ENDS:
        # (the order of preference is that of the kinds, not of the positions)
        at = h.find(e)
        if at >= 0: cut = at + len(e); break
    if cut is None and fail:
        ctx.cover("failed")
        ctx.check(isinstance(ex, ValueError), "a label without an ending does not raise")
    else:
        ctx.cover("cut" if cut is not None else "whole")
        ctx.check(ex is None, f"trimming failed: {type(ex).__name__}")
        ctx.check(isinstance(r, str), "not text")
        ctx.eq(r, (h if cut is None else h[:cut]).decode(), "the trimmed label")
    if how in ("text", "path", "cached"): ctx.check(rx.closed(ctx), "a file is left open")
    else: ctx.check(src.closed, "the source is left open")
    if how == "cached" and ex is None:
        ctx.eq(f(src, *args, **(dict(raise_for_failure=fail) if fail and not limited else {})), r, "a repeated call")


def maxlabel(ctx):
    """the default limit of half a megabyte"""
    lim = 500 * 1024
    shift = ctx.choice("shift", 12) - 6
    data = b"x" * (lim - 5 + shift) + b"END\r\n" + b"y" * 50
    p = rx.file(ctx, "l.lbl", data)
    r = ctx.mod("scrape").trim_label(p)
    ctx.check(len(r) == (lim if shift > 0 else lim + shift), "the default limit")


def cases(tier):
    t = tier == "thorough"
    out = [("default", big, {}), ("maxlabel", maxlabel, {})]
    for n in range(0, 9 if t else 6):
        for how in ("text", "path", "cached-text", "cached-twice"):
            for multi in (False, True):
                if multi and n > (6 if t else 4) or how == "cached-twice" and n > 3: continue
                out.append((f"text-{how}-{n}-{multi}", label_text, dict(n=n, how=how, multi=multi)))
        for how in ("text", "path", "stream", "reader"):
            out.append((f"head-{how}-{n}", head, dict(n=n, how=how)))
    out.append(("text-default", label_text, dict(n=3, how="text", multi=False, default=True)))
    for n in range(0, 14 if t else 10):
        for how in ("text", "path", "stream", "cached"):
            if n < 5 and how in ("text", "stream"):
                for i, (pre, post) in enumerate((("\u00b5\u20ac", "END\r\nxy"), ("", "\u00b5END\r\n\u00b5"), ("\u00b5", "\0\0\0xx"))):
                    out.append((f"trim-{how}-{n}-wide{i}", trim, dict(n=n, how=how, limited=False, pre=pre, post=post)))
            for lim in (True, False):
                if n > 7 and (how, lim) not in (("text", True), ("stream", False)): continue
                out.append((f"trim-{how}-{n}-{lim}", trim, dict(n=n, how=how, limited=lim)))
    for pre, post in (("END", ""), ("", "END\r\n"), ("\0\0\0", ""), ("", "\0\0\0"), ("END\r\n", "\0\0\0"), ("\0\0\0", "END\r\n"), ("xEND\r", "\0\0")):
        for n in ((0, 1, 2, 3, 4, 5, 6) if t else (1, 3)):
            out.append((f"trim-{pre!r}-{post!r}-{n}", trim, dict(n=n, how="text", pre=pre, post=post)))
    return out

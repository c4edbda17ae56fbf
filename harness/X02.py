from harness.lib import *
from harness import rxmodel as rx
from harness.rxmodel import fakes, builtins_
from sx.proxies import *
from sx import loader
import ast, re
BOUNDS = "texts of at most 5 (thorough: 7) symbols around chosen fixed parts, every alphabet symbol at every place; patterns with and without groups that take part, compiled and not; up to 3 fields; arbitrary supplemental results; up to 3 files"
OUTSIDE = "patterns without a group; texts beyond ASCII; blocks with fewer than two numbers or with leading zeros for the subframe; captured literals longer than 5 symbols"
ASSUMPTIONS = ["re as documented (a backtracking model of it, replayed with the real one)", "ast.literal_eval as documented (decided for numbers, run for other captured texts symbol by symbol)"]
TECHNIQUE = "symbolic execution of scrape.py on z3-backed text over a backtracking model of re; every path's assertions decided by z3, counterexamples replayed with the real re"
R = lambda ctx: rx.RE if ctx.symbolic else re
BAD = (ValueError, SyntaxError, TypeError, MemoryError, RecursionError)


def typed(ctx, text):
    """what a captured text stands for"""
    if text is None: return None
    try: return (rx.literal_eval if ctx.symbolic else ast.literal_eval)(text)
    except BAD: return text


def expected(ctx, pattern, text):
    m = R(ctx).search(pattern, text)
    return None if m is None else typed(ctx, m.group(1))


def same(a, b): return strict_eq(a, b)


PATTERNS = {"digits": (r"A=(\d+)", "A=1209\n"), "word": (r"A *= *(\w+)", "A= 1x_\n"), "lazy": (r"A=(.*?)\n", "A=1\n',"), "quoted": (r'A="(.*?)"', 'A="1.-'),
            "option": (r"A(=1)?", "A=1x"), "line": (r"(?m)^A=(.*)$", "A=1\n0"), "literal": (r"A(.*)", "A('1,)"), "braces": (r"A(.*)", "A{}[]:"), "either": (r"A=(?:(\d)|x)", "A=1x"), "two": (r"(A|=)=(1)", "A=1x")}


def one(ctx, pat, n, pre="", post="", compiled=False):
    p, alphabet = PATTERNS[pat]
    text = pre + ctx.str("text", n, n, alphabet=alphabet) + post
    if compiled: p = R(ctx).compile(p)
    scrape = ctx.mod("scrape").make_scraper(text)
    want = expected(ctx, p, text)
    r = ctx.ok("scraping", scrape, p)
    ctx.cover(type(want).__name__ if not is_sym(want) else want.__class__.__name__)
    ctx.check(same(r, want), "the value of the first match")
    ctx.check(same(scrape(p), want), "a repeated call")


FIELDS = [("a", r"A=(\d+)"), ("b", r"B=(\w*)"), ("c", r"A=(.)")]


def many(ctx, n, nf, sup, loader_):
    text = ctx.str("text", n, n, alphabet="AB=01")
    sc = ctx.mod("scrape")
    fields = dict(FIELDS[:nf])
    calls = []
    label = ctx.value("label")

    def load(x):
        calls.append(x)
        return text
    want = {k: expected(ctx, p, text) for k, p in fields.items()}
    supp = {}
    if sup is not None:
        for i in range(sup):
            k = ("b", "z", "a")[i]
            supp[k] = ctx.value(f"sup{i}")
    scalls = []

    def extra(*a, **k):
        scalls.append((a, k))
        return dict(supp)
    kw = {} if sup is None else {"supplemental_search_function": extra}
    if loader_ == "given": r, ex = ctx.attempt(sc.scrape_patterns, label, fields, label_loader=load, **kw)
    elif loader_ == "bulk":
        r, ex = ctx.attempt(sc.bulk_scrape_metadata, [label], lambda f: sc.scrape_patterns(f, fields, label_loader=load, **kw))
        if ex is None:
            ctx.check(type(r) is list and len(r) == 1, "one record per file")
            r = r[0]
    else:
        label = rx.file(ctx, "l.lbl", text.encode())
        r, ex = ctx.attempt(sc.scrape_patterns, label, fields, **kw)
    ctx.check(ex is None, f"scraping failed: {type(ex).__name__}")
    if loader_ != "file":
        ctx.check(len(calls) >= 1, "the label is not loaded")
        for c in calls: ctx.check(same(c, label), "another label is loaded")
    want |= supp
    ctx.check(type(r) is dict and len(r) == len(want), "one entry per name")
    for k in want: ctx.check(k in r and same(r[k], want[k]), f"the entry for {k}")
    if sup is None: return
    ctx.check(len(scalls) == 1, "the supplemental function is called once")
    a, k = scalls[0]
    ctx.check(len(a) == 2 and not k and bool(same(a[0], label)), "the supplemental function is called with the label")
    ctx.eq(a[1], text, "and its text")


def from_file(ctx, n):
    """the cached scraper keeps files and patterns apart"""
    texts = [ctx.str(f"text{i}", n, n, alphabet="A=12") for i in range(2)]
    paths = [rx.file(ctx, f"l{i}.lbl", t.encode()) for i, t in enumerate(texts)]
    sc = ctx.mod("scrape")
    pats = [r"A=?(\d)", r"(=)"]
    want = {}
    for rnd in range(2):
        for i, p in enumerate(paths):
            for j, q in enumerate(pats):
                r = ctx.ok("scraping a file", sc.scrape_from_file, p, q)
                if rnd == 0: want[i, j] = expected(ctx, q, texts[i])
                ctx.check(same(r, want[i, j]), f"file {i}, pattern {j}, round {rnd}")
    ctx.check(rx.closed(ctx), "a file is left open")


def bulk(ctx, n, kind):
    files = [ctx.value(f"file{i}") for i in range(n)]
    recs = [ctx.value(f"rec{i}") for i in range(n)]
    seen = []

    def scraper(f):
        seen.append(f)
        return recs[len(seen) - 1]
    src = {"list": list, "tuple": tuple, "iter": iter, "gen": lambda x: (y for y in x)}[kind](files)
    r = ctx.ok("bulk scraping", ctx.mod("scrape").bulk_scrape_metadata, src, scraper)
    ctx.check(type(r) is list and len(r) == n, "one record per file")
    for i in range(n):
        ctx.check(same(r[i], recs[i]), f"record {i}")
        ctx.check(same(seen[i], files[i]), f"file {i}")
    ctx.check(len(seen) == n, "every file is scraped once")


def subframe(ctx, pre, mid, post, alphabet):
    a, b, c = (ctx.str(x, k, k, alphabet=alphabet) for x, k in (("pre", pre), ("mid", mid), ("post", post)))
    text = a + "SUBFRAME" + b + "END" + c
    start = text.find("SUBFRAME")
    stop = text.find("END", start)
    runs, cur = [], None
    for i in range(start, stop):
        ch = text[i]
        if ch.isdigit():
            if cur is None: cur = []; runs.append(cur)
            cur.append(ch)
        else: cur = None
    ctx.assume(len(runs) >= 2)
    for r in runs: ctx.assume(Or_(len(r) == 1, r[0] != "0"))
    want = tuple(sum_([(ord_(ch) - 48) * 10 ** i for i, ch in enumerate(reversed(r))]) for r in runs)
    r = ctx.ok("scraping a subframe", ctx.mod("scrape").scrape_subframe, text)
    ctx.check(type(r) is tuple and len(r) == len(want), "number of fields")
    ctx.cover(len(want))
    for x, y in zip(r, want): ctx.check(isinstance(x, int) and bool(x == y), "a field's value")


def ord_(ch):
    return SymInt(Z(ch.c[0])) if is_sym(ch) else ord(ch)


def sum_(xs):
    r = 0
    for x in xs: r = r + x
    return r


def cases(tier):
    t = tier == "thorough"
    out = []
    for pat in PATTERNS:
        for n in range(0, 8 if t else 6):
            if pat in ("literal", "braces", "quoted", "lazy") and n > (6 if t else 4): continue
            out.append((f"one-{pat}-{n}", one, dict(pat=pat, n=n)))
        out.append((f"one-{pat}-compiled", one, dict(pat=pat, n=3, compiled=True)))
    for pat, pre, post, n in (("digits", "A=", "\nA=2", 3), ("digits", "xxA=", "", 4), ("word", "A = ", " A = b", 3), ("lazy", "\nA=", "\n", 3), ("quoted", 'A="', '" A="3"', 3), ("line", "xA=1\n", "\nA=3", 4),
                              ("literal", "A", "", 4), ("braces", "A{", "", 3), ("digits", "", "A=0", 3), ("option", "A", "", 2)):
        out.append((f"around-{pat}-{pre!r}", one, dict(pat=pat, n=n, pre=pre, post=post)))
    for n in ((2, 3, 4, 5) if t else (2, 3, 4)):
        for nf in (0, 1, 2, 3):
            for sup in (None, 0, 2, 3):
                for ld in ("given", "file", "bulk"):
                    if n > 3 and (ld != "given" or sup == 3) or n == 4 and not t and nf == 1: continue
                    out.append((f"many-{n}-{nf}-{sup}-{ld}", many, dict(n=n, nf=nf, sup=sup, loader_=ld)))
    out += [(f"file-{n}", from_file, dict(n=n)) for n in ((2, 3) if t else (2,))]
    out += [(f"bulk-{k}-{n}", bulk, dict(n=n, kind=k)) for k in ("list", "tuple", "iter", "gen") for n in (0, 1, 2, 3)]
    for pre, mid, post, al in ((0, 3, 0, "0189,"), (1, 4, 0, "10\n"), (0, 4, 2, "1\nE"), (3, 3, 0, "1 N"), (0, 3, 3, "END1"), (0, 5, 0, "12 ")) + (((0, 6, 0, "10 "), (3, 4, 3, "END1 ")) if t else ()):
        out.append((f"subframe-{pre}-{mid}-{post}", subframe, dict(pre=pre, mid=mid, post=post, alphabet=al)))
    return out

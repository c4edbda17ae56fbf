from harness.lib import *
from sx.proxies import *
from harness import M03
BOUNDS = "files of at most 3 columns (thorough: 4) in at most 3 (4) row groups, in either order of records; arbitrary numbers of values, sizes, offsets and statistics, equal or different in every pattern across row groups; compression and encodings the same in all row groups or not; statistics absent in some"
OUTSIDE = "files without columns or row groups; how pyarrow derives the metadata of a real file; the dtypes of the summary"
ASSUMPTIONS = M03.ASSUMPTIONS + ["pandas and numpy treat columns of symbolic numbers as they treat columns of Python objects (the real pandas code is run on them; sampled paths are replayed with numbers)"]
preload, fakes = M03.preload, M03.fakes
NAMES = {"physical_type": "type", "path_in_schema": "column", "has_dictionary_page": "dict_page", "total_compressed_size": "comp_size", "total_uncompressed_size": "uncomp_size"}
BRIEF = ["column", "type", "comp_size", "uncomp_size", "num_values", "dict_page", "encodings", "compression", "col_ix"]
SUMS = ["num_values", "total_compressed_size", "total_uncompressed_size"]
ENC = [("PLAIN", "RLE"), ("PLAIN", "RLE", "RLE_DICTIONARY")]


def missing(x):
    import pandas as pd
    return not is_sym(x) and not isinstance(x, (tuple, list)) and bool(pd.isna(x))


def number(ctx, x):
    return x if is_sym(x) else int(x)


def agree(ctx, got, want, msg):
    """want: a value, or None for 'missing'"""
    if want is None: ctx.check(missing(got), f"{msg}: a value where there is none")
    else:
        ctx.check(not missing(got), f"{msg}: missing")
        if isinstance(want, (str, tuple, bool)): ctx.check(not is_sym(got) and got == want, f"{msg}: wrong")
        else: ctx.check(deep_eq(number(ctx, got), want), f"{msg}: wrong number")


def chunks(ctx, nc, ng, vary, flags):
    """records as parquet_metadata_records lists them: [c][g]"""
    out = []
    for c in range(nc):
        out.append([])
        for g in range(ng):
            p = f"{c}.{g}."
            d = {"physical_type": ["INT64", "BYTE_ARRAY", "DOUBLE", "INT64"][c], "num_values": ctx.int(p + "num", 0, 2 ** 40),
                 "path_in_schema": f"col{c}.x" if c == 1 else f"col{c}", "compression": "SNAPPY", "encodings": ENC[c % 2], "has_dictionary_page": c % 2 == 0,
                 "total_compressed_size": ctx.int(p + "comp", 0, 2 ** 40), "total_uncompressed_size": ctx.int(p + "uncomp", 0, 2 ** 40)}
            if vary == c and g == ng - 1:
                d["compression"], d["encodings"], d["has_dictionary_page"] = "GZIP", ENC[1 - c % 2], c % 2 == 1
            if flags:
                d["min"] = ctx.int(p + "min", -2 ** 40, 2 ** 40) if not (flags == "gaps" and ctx.bool(p + "nostat")) else None
            d["row_group"], d["col_ix"] = g, c
            out[-1].append(d)
    return out


def summary(ctx, nc, ng, vary, flags, extended, order, api):
    m = ctx.mod("mosaic")
    rec = chunks(ctx, nc, ng, vary, flags)
    flat = [r for c in rec for r in c]
    if order == "by group": flat = [rec[c][g] for g in range(ng) for c in range(nc)]
    if order == "reversed": flat = flat[::-1]
    kw = {"extended": True} if extended else {}
    if api == "records": got = ctx.ok("summary of records", m.meta_record_df, [dict(r) for r in flat], **kw)
    else:
        M03.CURRENT.clear()
        M03.CURRENT["/f.pq"] = M03.Meta([[{k: v for k, v in rec[c][g].items() if k not in ("row_group", "col_ix")} for c in range(nc)] for g in range(ng)], nc)
        t = ctx.ok("summary of a file", m.meta_column_df, "/f.pq", **kw)
        ctx.check(list(t.columns) == [c[0]["path_in_schema"] for c in rec], f"columns {list(t.columns)} instead of those of the file")
        got = t.T
    ctx.cover("summary")
    cols = list(got.columns)
    if not extended: ctx.check(cols == BRIEF, f"fields {cols}")
    ctx.check(len(set(cols)) == len(cols), f"fields {cols} are not distinct")
    paths = []
    for r in flat:
        if r["path_in_schema"] not in paths: paths.append(r["path_in_schema"])
    listed = list(got["column"])
    ctx.check(listed == paths, f"summary lists {listed} instead of {paths}")
    by = {c[0]["path_in_schema"]: c for c in rec}
    for i, path in enumerate(paths):
        rs = by[path]
        for k in flat[0]:
            if k == "path_in_schema" or not extended and NAMES.get(k, k) not in BRIEF: continue
            n = NAMES.get(k, k)
            if k in SUMS: want = sum([r[k] for r in rs])
            else:
                vs = [r[k] for r in rs if r[k] is not None]
                want = None
                if vs and all(bool(deep_eq(v, vs[0])) for v in vs): want = vs[0]
            if n not in cols:
                ctx.check(extended and want is None, f"{n} is not summarised")
                continue
            agree(ctx, got[n].iloc[i], want, f"{n} of {path}")


def cases(tier):
    out = []
    big = tier != "quick"
    for nc in range(1, 5 if big else 4):
        for ng in range(1, 5 if big else 4):
            if nc * ng > (8 if big else 6): continue
            for vary in [None, 0] + ([1] if nc > 1 else []):
                for ext in (False, True):
                    fl = (None, "full", "gaps") if nc * ng <= 4 else (None,)
                    for flags in fl:
                        if flags and vary is not None: continue
                        for order in ("as listed", "by group", "reversed"):
                            if order != "as listed" and (nc == 1 and order == "by group" or flags): continue
                            out.append((f"{nc}x{ng}-{vary}-{flags}-{ext}-{order}", summary, dict(nc=nc, ng=ng, vary=vary, flags=flags, extended=ext, order=order, api="records")))
                        if not flags: out.append((f"{nc}x{ng}-{vary}-{ext}-file", summary, dict(nc=nc, ng=ng, vary=vary, flags=flags, extended=ext, order="as listed", api="file")))
    return out

from harness.lib import *
from sx.proxies import *
BOUNDS = "at most 3 columns (thorough: 4) and 3 (4) row groups; arbitrary values of every metadata field and statistic; statistics present, None or absent per column chunk, with fields that collide with the chunk's own"
OUTSIDE = "how pyarrow derives the metadata of a real file"
ASSUMPTIONS = ["FileMetaData offers num_columns, num_row_groups and row_group(i).column(j).to_dict() as documented"]


class Chunk:
    def __init__(self, d): self.d = d
    def to_dict(self): return {k: dict(v) if type(v) is dict else v for k, v in self.d.items()}


class Group:
    def __init__(self, cs): self.cs = cs
    num_columns = property(lambda s: len(s.cs))
    def column(self, i):
        if type(i) is not int or not 0 <= i < len(self.cs): raise IndexError("column index out of range")
        return Chunk(self.cs[i])


class Meta:
    def __init__(self, gs, nc): self.gs, self.num_columns = gs, nc
    num_row_groups = property(lambda s: len(s.gs))
    def row_group(self, i):
        if type(i) is not int or not 0 <= i < len(self.gs): raise IndexError("row group index out of range")
        return Group(self.gs[i])


class File:
    def __init__(self, fn, *a, **k):
        self.metadata = CURRENT[fn]
    num_row_groups = property(lambda s: s.metadata.num_row_groups)
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass


CURRENT = {}


def preload():
    import pyarrow.parquet, pyarrow.compute, numpy, pandas


def fakes(symbolic):
    import pyarrow.parquet as pq
    from sx.loader import FakeModule
    return {"pyarrow.parquet": FakeModule("pyarrow.parquet", pq, {"read_metadata": lambda fn, *a, **k: CURRENT[fn], "ParquetFile": File})}


def records(ctx, nc, ng):
    CURRENT.clear()
    gs = []
    for g in range(ng):
        cs = []
        for c in range(nc):
            p = f"{g}.{c}."
            # file-wide facts of a chunk, and its statistics
            d = {"file_path": "", "physical_type": ctx.value(p + "type"), "num_values": ctx.value(p + "num"), "path_in_schema": f"col{c}", "total_compressed_size": ctx.value(p + "size")}
            st = ctx.choice(p + "stats", 3)
            if st == 1: d["statistics"] = None
            if st == 2:
                ctx.cover("statistics")
                d["statistics"] = {"has_min_max": True, "min": ctx.value(p + "min"), "max": ctx.value(p + "max"), "num_values": ctx.value(p + "snum"), "null_count": 0}
            cs.append(d)
        gs.append(cs)
    CURRENT["/f.pq"] = Meta(gs, nc)
    recs = ctx.ok("listing metadata", ctx.mod("mosaic").parquet_metadata_records, "/f.pq")
    ctx.check(len(recs) == nc * ng, f"{len(recs)} records for {nc} columns in {ng} row groups")
    seen = sorted((r["col_ix"], r["row_group"]) for r in recs)
    ctx.check(seen == [(c, g) for c in range(nc) for g in range(ng)], f"records cover {seen}")
    for r in recs:
        d = gs[r["row_group"]][r["col_ix"]]
        want = {k: v for k, v in d.items() if k != "statistics"}
        if d.get("statistics"): want.update(d["statistics"])
        for k, v in want.items():
            ctx.check(k in r, f"{k} is missing")
            ctx.eq(r[k], v, f"{k} of another chunk")
        ctx.check(set(r) == set(want) | {"col_ix", "row_group"}, f"fields {sorted(r)}")


def cases(tier):
    m = (3, 3) if tier == "quick" else (4, 3)
    return [(f"{c}x{g}", records, dict(nc=c, ng=g)) for c in range(1, m[0] + 1) for g in range(0, m[1] + 1) if c * g <= (6 if tier == "quick" else 8)]

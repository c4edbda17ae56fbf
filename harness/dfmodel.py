"""a table of model columns (nummodel): what pivot's downcast_df uses of pandas' DataFrame"""
import numpy as np
from harness import nummodel as nm
from harness.nummodel import Inc, Ser, Arr, ExtArr
from sx.proxies import *


class Obj:
    """a column of no number type"""
    dtype = np.dtype(object)
    ndim = 1
    def __init__(self, v): self.v = list(v)
    def __len__(self): return len(self.v)
    def copy(self, *a): return Obj(self.v)
    shape = property(lambda s: (len(s.v),))
    size = property(lambda s: len(s.v))
    def __iter__(self): return iter(self.v)
    def __getitem__(self, k): return self.v[k]


def same_index(a, b):
    return a is b or len(a) == len(b) and bool(And_(*[deep_eq(x, y) for x, y in zip(a, b)]))


class Frame:
    def __init__(self, cols, index, names=None):
        self.cols, self.index = list(cols), list(index)
        if names is not None:
            for c, n in zip(self.cols, names): c.name = n
    columns = property(lambda s: Labels([c.name for c in s.cols]))
    shape = property(lambda s: (len(s.index), len(s.cols)))
    empty = property(lambda s: 0 in s.shape)
    def __len__(self): return len(self.index)
    def items(self): return iter([(c.name, c) for c in self.cols])
    def __iter__(self): return iter([c.name for c in self.cols])
    def copy(self, *a, **k): return Frame([c.copy() for c in self.cols], self.index)
    dtypes = property(lambda s: [c.dtype for c in s.cols])

    def __getitem__(self, k):
        if isinstance(k, list): return Frame([c for n in k for c in self.cols if bool(deep_eq(c.name, n))], self.index)
        cs = [c for c in self.cols if bool(deep_eq(c.name, k))]
        if not cs: raise KeyError(k)
        return cs[0] if len(cs) == 1 else Frame(cs, self.index)

    def __setitem__(self, k, v):
        if not isinstance(v, Ser): Inc("column assignment")
        if not same_index(v.index, self.index): Inc("aligned assignment")
        hit = [i for i, c in enumerate(self.cols) if bool(deep_eq(c.name, k))]
        new = Ser(v.v, k, self.index)
        if not hit: self.cols.append(new)
        for i in hit: self.cols[i] = new

    @property
    def iloc(self):
        df = self

        class I:
            def __getitem__(self, k):
                if isinstance(k, tuple) and k[0] == slice(None) and isinstance(k[1], int): return df.cols[k[1]]
                Inc("iloc")
        return I()

    def set_axis(self, labels, axis=0):
        labels = list(labels)
        if axis in (0, "index"): return Frame([Ser(c.v, c.name, labels) for c in self.cols], labels)
        return Frame([Ser(c.v, n, c.index) for c, n in zip(self.cols, labels)], self.index)


class Labels(list):
    def to_list(self): return list(self)
    tolist = to_list
    def copy(self): return Labels(self)


def concat(objs, axis=0, ignore_index=False, keys=None, **k):
    objs = list(objs.values()) if isinstance(objs, dict) else list(objs)
    if k or keys is not None: Inc("concat options")
    if not objs: raise ValueError("No objects to concatenate")
    if axis not in (1, "columns") or not all(isinstance(o, (Ser, Frame)) for o in objs): Inc("concat")
    cols = [c for o in objs for c in (o.cols if isinstance(o, Frame) else [Ser(o.v, o.name, o.index)])]
    if ignore_index:
        for i, c in enumerate(cols): c.name = i
    elif not any(isinstance(o, Frame) for o in objs):
        # unnamed columns are numbered
        named = any(c.name is not None for c in cols)
        n = 0
        for i, c in enumerate(cols):
            if c.name is None: c.name = n if named else i; n += 1
    first = cols[0].index
    if all(same_index(c.index, first) for c in cols):
        for c in cols: c.index = first
        return Frame(cols, first)
    # outer join
    for c in cols:
        for i in range(len(c.index)):
            for j in range(i):
                if bool(deep_eq(c.index[i], c.index[j])): raise ValueError("cannot reindex on an axis with duplicate labels")
    union = []
    for c in cols: union += [x for x in c.index if not any(bool(deep_eq(x, y)) for y in union)]
    out = []
    for c in cols:
        v = []
        for x in union:
            at = [i for i, y in enumerate(c.index) if bool(deep_eq(x, y))]
            v.append(c.v.v[at[0]] if at else nm.NA)
        out.append(Ser(Obj(v), c.name, union))
    return Frame(out, union)

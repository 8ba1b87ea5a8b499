"""C02: indexing ragged tensors equals indexing nested lists."""
import k2
import torch

from oracle.core import group
from oracle.vh import (Harness, Rag, check_layers, check_nested, from_nested, items, leaves, rand_rag, rand_shape,
                       row_ids)

H = Harness("C02")
P = "C02"


def monotone_indexes(t, r, axis, n):
    """indexes into `axis` that keep the order of the previous axis"""
    tot = r.shape.tot(axis)
    if tot == 0:
        return []
    ids = row_ids(r.shape.splits[axis - 1])
    ix = [t.int(0, tot - 1) for _ in range(n)]
    ix.sort(key=lambda i: (ids[i], t.rng.random()))
    return ix


def model_index(r, axis, ix):
    """(nested result over leaf positions)"""
    na = r.shape.num_axes()
    pos = r.shape.nested()
    it = items(pos, axis)
    if axis == 0:
        return [it[i] if i >= 0 else [] for i in ix]
    ids = row_ids(r.shape.splits[axis - 1])
    nparents = r.shape.tot(axis - 1)
    groups = [[] for _ in range(nparents)]
    for i in ix:
        groups[ids[i]].append(it[i])
    # rebuild the upper axes
    cur = groups
    for k in range(axis - 2, -1, -1):
        s = r.shape.splits[k]
        cur = [cur[s[j]:s[j + 1]] for j in range(len(s) - 1)]
    return cur


@group(P, 300)
def index_axis(t):
    "Index(src, axis, indexes) selects the listed sublists, and reports where the elements came from"
    r = rand_rag(t)
    na = r.shape.num_axes()
    axis = t.int(0, na - 1)
    n = t.upto(8)
    if axis == 0:
        d = r.shape.dim0()
        ix = [t.int(-1 if t.bool(0.3) else 0, d - 1) if d else -1 for _ in range(n)]
    else:
        ix = monotone_indexes(t, r, axis, n)
    t.note(src=r, axis=axis, indexes=ix)
    pos = model_index(r, axis, ix)
    splits, lv = from_nested(pos, na)
    o = H("Index", axis, r, ix)
    check_layers(t, o.layers(), splits, "Index")
    t.eq(o.vec(), [r.values[i] for i in lv], "Index: values")
    t.eq(o.vec(), lv, "Index: value positions")
    check_layers(t, o.layers(), splits, "Index of the shape")
    t.eq(o.vec(), lv, "Index of the shape: element positions")
    check_layers(t, o.layers(), splits, "Index of the shape without positions")
    check_nested(t, o, r.nested(), na, "the source is unchanged")


@group(P, 200)
def scalar_range_prefix(t):
    "one sublist, a contiguous range, prefixes and the axis-0 splitter"
    r = rand_rag(t)
    na = r.shape.num_axes()
    pos = r.shape.nested()
    t.note(src=r)
    d = r.shape.dim0()
    if d and na > 2:
        i = t.int(0, d - 1)
        splits, lv = from_nested(pos[i], na - 1)
        o = H("IndexScalar", i, r)
        check_layers(t, o.layers(), splits, f"Index(0, {i})")
        off = o.i()
        if lv:
            t.eq(off, lv[0], "value offset")
        check_layers(t, o.layers(), splits, "Ragged::Index")
        t.eq(o.vec(), [r.values[j] for j in lv], "Ragged::Index values")
        o = H("Splitter", r)
        base = [0] * na
        for i in range(d):
            splits, lv = from_nested(pos[i], na - 1)
            check_layers(t, o.layers(), splits, f"Axis0Splitter({i})")
            t.eq(o.vec(), [r.values[j] for j in lv], "Axis0Splitter values")
            off = o.i()
            if lv:
                t.eq(off, lv[0], "Axis0Splitter offset")
        for i in range(d + 1):
            x = i
            for a in range(na):
                t.eq(o.i(), x, f"GetOffset({i}, {a})")
                if a < na - 1:
                    x = r.shape.splits[a][x]
    axis = t.int(0, na - 2)
    tot = r.shape.tot(axis)
    b = t.int(0, tot)
    e = t.int(b, tot)
    t.note(axis=axis, begin=b, end=e)
    want = items(pos, axis)[b:e]
    splits, lv = from_nested(want, na - axis)
    o = H("Arange", axis, b, e, r)
    check_layers(t, o.layers(), splits, "Arange")
    vb, ve = o.i(), o.i()
    t.eq(ve - vb, len(lv), "Arange: size of the value range")
    if lv:
        t.eq((vb, ve), (lv[0], lv[-1] + 1), "Arange: value range")
    check_layers(t, o.layers(), splits, "Arange of Ragged")
    t.eq(o.vec(), [r.values[i] for i in lv], "Arange values")
    sizes = [t.int(0, d) for _ in range(t.int(0, 4))]
    t.note(prefix_sizes=sizes)
    o = H("Prefix", r.shape, sizes)
    o.i()
    for which in ("Prefix", "GetPrefixes"):
        for n in sizes:
            check_layers(t, o.layers(), from_nested(pos[:n], na)[0], f"{which}({n})")


@group(P, 250)
def subsets(t):
    "keeping a subset of the elements of an axis, and removing empty lists"
    r = rand_rag(t)
    na = r.shape.num_axes()
    axis = t.int(0, na - 1)
    tot = r.shape.tot(axis)
    p = t.choice([0, 0.3, 0.7, 1])
    keep = [int(t.bool(p)) for _ in range(tot)]
    t.note(src=r, axis=axis, keep=keep)
    n2o = [i for i in range(tot) if keep[i]]
    o2n = [sum(keep[:i]) for i in range(tot)]
    o = H("Renumber", t.int(0, 2), keep)
    t.eq(o.vec(), n2o, "New2Old")
    t.eq(o.vec()[:tot], o2n, "Old2New")
    t.eq(o.i(), len(n2o), "NumNewElems")
    t.eq(o.i(), tot, "NumOldElems")
    pos = model_index(r, axis, n2o)
    splits, lv = from_nested(pos, na)
    o = H("Subset", axis if t.bool() else axis - na, r, keep)
    check_layers(t, o.layers(), splits, "SubsetRagged")
    t.eq(o.vec(), [r.values[i] for i in lv], "SubsetRagged values")
    t.eq(o.vec(), lv, "SubsetRagged new2old")
    if na > 2:
        # both last axes
        k2_ = [int(t.bool(0.7)) for _ in range(r.shape.tot(na - 1))]
        k1 = [int(t.bool(0.7)) for _ in range(r.shape.tot(na - 2))]
        for i, x in enumerate(row_ids(r.shape.splits[-1])):
            if not k1[x]:
                k2_[i] = 0          # elements of removed lists must go too
        s2 = r.shape.splits[-1]
        s1 = r.shape.splits[-2]
        rows = [sum(k2_[s2[i]:s2[i + 1]]) for i in range(len(s2) - 1)]
        n1 = [0]
        for i in range(len(s1) - 1):
            n1.append(n1[-1] + sum(k1[s1[i]:s1[i + 1]]))
        n2 = [0]
        for i, x in enumerate(rows):
            if k1[i]:
                n2.append(n2[-1] + x)
        t.note(keep_before_last=k1, keep_last=k2_)
        check_layers(t, H("Subset2", r.shape, k1, k2_).layers(), r.shape.splits[:-2] + [n1, n2],
                     "SubsetRaggedShape of the two last axes")
    ax = t.int(0, na - 2)
    it = items(r.shape.nested(), ax)
    keep = [int(len(x) > 0) for x in it]
    some = [k or int(t.bool()) for k in keep]
    for name, kp in (("RemoveEmpty", keep), ("RemoveSomeEmpty", some)):
        want = model_index(r, ax, [i for i in range(len(kp)) if kp[i]])
        sp = from_nested(want, na)[0]
        o = H(name, ax, r.shape) if name == "RemoveEmpty" else H(name, ax, r.shape, kp)
        check_layers(t, o.layers(), sp, name)
        if name == "RemoveEmpty":
            t.eq(o.vec(), [i for i in range(len(kp)) if kp[i]], "RemoveEmptyLists renumbering")
        if ax == 0:
            check_layers(t, o.layers(), sp, name + " on axis 0")


@group(P, 200)
def prune(t):
    "PruneRagged keeps what is within the beam of the best and among the best max_elems"
    sh = rand_shape(t, maxlen=5)
    na = sh.num_axes()
    n = sh.splits[-1][-1]
    vals = [float(x) / 4 for x in t.rng.sample(range(-10 * n - 40, 40), n)]     # distinct
    axis = t.int(0, na - 1)
    beam = t.choice([0.5, 2.0, 10.0, 1000.0]) + 0.125
    mx = t.choice([-1, 0, 1, 2, 3, 100])
    t.note(shape=sh, values=vals, axis=axis, beam=beam, max_elems=mx)
    it = items(sh.nested(vals), axis)

    def score(x, k):
        if k == 0:
            return x
        v = [score(y, k - 1) for y in x]
        return max(v + [float("-inf")])
    sc = [score(x, na - 1 - axis) for x in it]
    batch = row_ids(sh.splits[axis - 1]) if axis else [0] * len(it)
    keep = set()
    for b in set(batch):
        mem = [i for i in range(len(it)) if batch[i] == b]
        best = max(sc[i] for i in mem)
        mem = [i for i in mem if sc[i] > float("-inf") and sc[i] >= best - beam]
        mem.sort(key=lambda i: -sc[i])
        keep |= set(mem[:mx] if mx > 0 else mem)
    o = H("Prune", axis, beam, mx, sh, vals)
    t.eq(o.vec(), sorted(keep), "kept elements")
    t.eq(o.i(), len(it), "NumOldElems")


@group(P, 150)
def ragged_index(t):
    "indexing by a ragged index, iterating and sorting by size"
    r = rand_rag(t)
    na = r.shape.num_axes()
    d = r.shape.dim0()
    pos = r.nested()
    ixs = rand_shape(t, maxlen=3, max_axes=3)
    n = ixs.splits[-1][-1]
    if d == 0 and n:
        t.trivial = True
    else:
        idx = Rag(ixs, [t.int(0, d - 1) for _ in range(n)])
        t.note(src=r, index=idx)
        want = ixs.nested([pos[i] for i in idx.values])
        ia = ixs.num_axes()
        check_nested(t, H("IndexRagged", 0, r, idx), want, ia + na - 1, "Index by a ragged index")
        def merge(x, k):
            return [z for y in x for z in y] if k == 0 else [merge(y, k - 1) for y in x]
        check_nested(t, H("IndexRagged", 1, r, idx), merge(want, ia + na - 3), ia + na - 2,
                     "Index by a ragged index, last but one axis removed")
    arr = [t.int(-9, 9) for _ in range(t.int(1, 8))]
    m1 = t.bool()
    idx = Rag(ixs, [t.int(-1 if m1 else 0, len(arr) - 1) for _ in range(n)])
    t.note(array=arr, index2=idx)
    check_nested(t, H("IndexArrayRagged", arr, idx, 33, m1), ixs.nested([33 if i < 0 else arr[i] for i in idx.values]),
                 ixs.num_axes(), "array indexed by a ragged index")
    o = H("Iterate", r)
    want = []

    def walk(x, ix):
        if not isinstance(x, list):
            want.extend(ix + [x])
        else:
            for i, y in enumerate(x):
                walk(y, ix + [i])
    walk(pos, [])
    t.eq(o.vec(), want, "index iterator")
    order = o.vec()
    sz = [r.shape.splits[0][i + 1] - r.shape.splits[0][i] for i in range(d)]
    t.eq(sorted(order), list(range(d)), "GetDecreasingSizeOrder is a permutation")
    t.ok(all(sz[a] >= sz[b] for a, b in zip(order, order[1:])), "GetDecreasingSizeOrder decreases")
    t.eq(o.vec(), [max([s[i + 1] - s[i] for i in range(len(s) - 1)] + [0]) for s in r.shape.splits], "MaxSize")


def py_rag(t, r, dtype):
    sh = None
    for s in r.shape.splits:
        rs = torch.tensor(s, dtype=torch.int32)
        if t.bool():
            x = k2.ragged.create_ragged_shape2(rs, torch.tensor(row_ids(s), dtype=torch.int32))
        else:
            x = k2.ragged.create_ragged_shape2(rs)
        sh = x if sh is None else sh.compose(x)
    return k2.RaggedTensor(sh, torch.tensor(r.values, dtype=dtype))


@group(P, 200)
def python_index(t):
    "RaggedTensor and RaggedShape indexing from Python"
    r = rand_rag(t)
    na = r.shape.num_axes()
    d = r.shape.dim0()
    dtype = t.choice([torch.int32, torch.float32, torch.float64])
    x = py_rag(t, r, dtype)
    nested = r.nested()
    t.note(src=r, dtype=dtype)

    def same(y, want, n, what):
        t.eq(y.num_axes, n, what + ": num_axes")
        t.eq(y.tolist(), want, what)
        splits, lv = from_nested(want, n)
        for a in range(1, n):
            t.eq(y.shape.row_splits(a).tolist(), splits[a - 1], what + f": row_splits({a})")
            t.eq(y.shape.row_ids(a).tolist(), row_ids(splits[a - 1]), what + f": row_ids({a})")
            t.eq(y.tot_size(a), splits[a - 1][-1], what + f": tot_size({a})")
        t.eq(y.dim0, len(want), what + ": dim0")
        t.eq(y.values.tolist(), lv, what + ": values")
        t.eq(y.dtype, dtype, what + ": dtype")
    same(x, nested, na, "the tensor itself")
    if d:
        i = t.int(0, d - 1)
        y = x[i]
        if na == 2:
            t.eq(y.tolist(), nested[i], f"x[{i}]")
        else:
            same(y, nested[i], na - 1, f"x[{i}]")
    if d:
        sel = [t.int(0, d - 1) for _ in range(t.int(1, 4))]
        s, vi = x.shape.index(0, torch.tensor(sel, dtype=torch.int32), True)
        splits, lv = from_nested([r.shape.nested()[i] for i in sel], na)
        for a in range(1, na):
            t.eq(s.row_splits(a).tolist(), splits[a - 1], "shape.index: row_splits")
            t.eq(s.row_ids(a).tolist(), row_ids(splits[a - 1]), "shape.index: row_ids")
        t.eq(vi.tolist(), lv, "shape.index: value indexes")
    t.raises(lambda: x[d], "x[dim0]")
    t.raises(lambda: x[-1 - t.int(0, 2)], "x[i] for a negative i")
    b, e = t.int(0, d), t.int(0, d)
    same(x[b:e], nested[b:e], na, f"x[{b}:{e}]")
    if d:
        lo, hi = t.int(-d, -1), None
        same(x[lo:], nested[lo:], na, f"x[{lo}:]")
        same(x[:hi], nested, na, "x[:]")
    ax = t.int(0, na - 2)
    tot = r.shape.tot(ax)
    b = t.int(0, tot)
    e = t.int(b, tot)
    same(x.arange(axis=ax, begin=b, end=e), items(nested, ax)[b:e], na - ax, f"arange({ax}, {b}, {e})")
    axis = t.int(0, na - 1)
    ix = [t.int(-1, d - 1) for _ in range(t.upto(7))] if axis == 0 else monotone_indexes(t, r, axis, t.upto(7))
    t.note(axis=axis, indexes=ix)
    pos = model_index(r, axis, ix)
    lv = leaves(pos, na)
    it = torch.tensor(ix, dtype=torch.int32)
    y, vi = x.index(it, axis=axis, need_value_indexes=True)
    t.eq(y.values.tolist(), [r.values[i] for i in lv], "index: values")
    splits = from_nested(pos, na)[0]
    for a in range(1, na):
        t.eq(y.shape.row_splits(a).tolist(), splits[a - 1], f"index: row_splits({a})")
    t.eq(vi.tolist(), lv, "index: value positions")
    y, vi = x.index(it, axis=axis)
    t.eq(y.values.tolist(), [r.values[i] for i in lv], "index without positions: values")
    t.ok(vi is None, "positions are not returned unless asked for")
    if axis == 0:
        t.eq(x[it].values.tolist(), [r.values[i] for i in lv], "x[tensor]")
    if d:
        ish = rand_shape(t, maxlen=3, max_axes=3)
        idx = Rag(ish, [t.int(0, d - 1) for _ in range(ish.splits[-1][-1])])
        t.note(ragged_index=idx)
        same(x.index(py_rag(t, idx, torch.int32)), ish.nested([nested[i] for i in idx.values]),
             na + ish.num_axes() - 1, "index by a ragged tensor")
    n = len(r.values)
    src = torch.tensor([t.int(-9, 9) for _ in range(max(n, 1))], dtype=dtype)
    idx = Rag(r.shape, [t.int(-1, len(src) - 1) for _ in range(n)])
    dv = t.choice([None, 5])
    y = k2.ragged.index(src, py_rag(t, idx, torch.int32), dv)
    t.eq(y.values.tolist(), [(dv or 0) if i < 0 else src[i].item() for i in idx.values], "tensor by ragged index")

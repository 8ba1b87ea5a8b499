"""C01: row-splits / row-ids and the flat-array primitives."""
import itertools

import k2
import torch
from k2 import ragged as kr

from oracle.core import group
from oracle.vh import Harness, k2_text, Shape, Err, check_layers, from_nested, rand_rag, rand_shape, rand_splits, row_ids

H = Harness("C01")
P = "C01"


def splits_case(t):
    s = rand_splits(t, 0 if t.bool(0.08) else t.upto(t.choice([3, 12, 60])), t.choice([1, 3, 9]))
    t.note(row_splits=s)
    return s


@group(P, 300)
def splits_ids_roundtrip(t):
    "RowSplitsToRowIds and RowIdsToRowSplits give the two forms of one partition"
    s = splits_case(t)
    ids = row_ids(s)
    pad = t.int(0, 3)
    o = H("RowSplitsToRowIds", pad, s)
    t.eq(o.vec(), ids, "row_ids")
    t.eq(o.vec(), s, "row_splits left unchanged")
    o = H("RowIdsToRowSplits", pad, len(s) - 1, ids)
    t.eq(o.vec(), s, "row_splits")
    t.eq(o.vec(), ids, "row_ids left unchanged")
    ne = all(s[i] < s[i + 1] for i in range(len(s) - 1))
    t.eq(H("RowIdsToRowSplitsPtr", ne and t.bool(), len(s) - 1, ids).vec(), s, "row_splits (pointer version)")
    sizes = [s[i + 1] - s[i] for i in range(len(s) - 1)]
    t.eq(H("RowSplitsToSizes", s).vec(), sizes, "sizes")
    off = t.int(0, 5)
    t.eq(H("RowSplitsToRowIdsOffset", [x + off for x in s]).vec(), ids, "row_ids of a part")
    if ids:
        a = t.int(0, len(s) - 1)
        b = t.int(a, len(s) - 1)
        part = s[a:b + 1]
        t.eq(H("RowSplitsToRowIdsOffset", part).vec(), row_ids([x - part[0] for x in part]), "row_ids of rows a..b")
    # extra empty rows at the end
    ex = t.int(0, 3)
    t.eq(H("RowIdsToRowSplits", 0, len(s) - 1 + ex, ids).vec(), s + [s[-1]] * ex, "row_splits with trailing empty rows")
    # from sizes
    t.eq(H("ExclusiveSum", 1, 0, sizes).vec(), s, "row_splits from sizes")
    t.eq(H("ExclusiveSum", 1, 1, sizes).vec(), s, "row_splits from sizes, in place")
    t.eq(H("ExclusiveSum", 0, t.bool(), sizes).vec(), s[:-1], "exclusive sum")
    m = H("SizesToMergeMap", sizes).vec() if sizes else []
    t.eq(m, [(j - s[i]) * len(sizes) + i for j, i in enumerate(ids)], "merge map from sizes")


@group(P, 200)
def array_primitives(t):
    "flat-array primitives equal their definitions"
    n = 0 if t.bool(0.06) else t.upto(t.choice([4, 20, 90]))
    v = [t.int(-9, 9) for _ in range(n)]
    t.note(v=v)
    o = H("InclusiveSum", t.int(0, 2), v)
    t.eq(o.vec(), list(itertools.accumulate(v)), "inclusive sum")
    t.eq(o.vec(), list(itertools.accumulate([0] + v))[:n], "exclusive sum")
    f = [t.int(-64, 64) / 8.0 for _ in range(n)]
    o = H("ExclusiveSumF", f)
    t.eq(o.vecd(), list(itertools.accumulate([0.0] + f))[:n], "exclusive sum of floats")
    t.eq(o.vecd(), list(itertools.accumulate(f)), "inclusive sum of floats")
    d = t.int(-12, 12)
    o = H("MaxValue", v, d)
    if n:
        t.eq(o.i(), max(v), "MaxValue") if max(v) >= 0 else o.i()
    else:
        o.i()
    t.eq(o.i(), max(v + [d]), "Max with default")
    x = -1
    for y in v:
        x &= y
    t.eq(o.i(), x, "And")
    x = 0
    for y in v:
        x |= y
    t.eq(o.i(), x, "Or")
    w = [t.int(-9, 9) for _ in range(n)]
    o = H("Binary", v, w)
    t.eq(o.vec(), [a + b for a, b in zip(v, w)], "Plus")
    t.eq(o.vec(), [a - b for a, b in zip(v, w)], "Minus")
    t.eq(o.vec(), [a * b for a, b in zip(v, w)], "Times")
    t.eq(o.vec(), [a + 7 for a in v], "Plus constant")
    # bounds
    o = H("Bounds", v)
    lo = list(itertools.accumulate(v[::-1], min))[::-1]
    t.eq(o.vec(), lo, "MonotonicLowerBound")
    t.eq(o.vec(), list(itertools.accumulate(v[::-1], max))[::-1], "MonotonicDecreasingUpperBound")
    t.eq(o.vec(), lo, "MonotonicLowerBound in place")
    o = H("Sort", v)
    s, m = o.vec(), o.vec()
    t.eq(s, sorted(v), "Sort")
    t.eq(sorted(m), list(range(n)), "Sort map is a permutation")
    t.eq([v[i] for i in m], s, "Sort map")
    s, m = o.vec(), o.vec()
    t.eq(s, sorted(v, reverse=True), "Sort descending")
    t.eq(sorted(m), list(range(n)), "Sort map is a permutation")
    t.eq([v[i] for i in m], s, "Sort map")
    t.eq(H("ExclusiveSumDeref", v).vec(), list(itertools.accumulate([0] + v[::-1]))[:n], "ExclusiveSumDeref") \
        if n else None
    a, inc = t.int(-5, 5), t.choice([-2, -1, 0, 1, 3])
    b, e, inc2 = t.int(-5, 5), t.int(-5, 20), t.choice([1, 2, 3, 7])
    if e < b:
        b, e = e, b
    o = H("Range", n, a, inc, b, e, inc2)
    t.eq(o.vec(), [a + i * inc for i in range(n)], "Range")
    t.eq(o.vec(), list(range(b, e, inc2)), "Arange")
    cnt = t.int(1, 12)
    c = [t.int(0, cnt - 1) for _ in range(n)]
    o = H("GetCounts", cnt, c)
    t.eq(o.vec(), [c.count(i) for i in range(cnt)], "GetCounts")
    t.eq(o.vec(), [c.count(i) for i in range(cnt)], "GetCounts (pointer version)")
    p = list(range(n))
    t.rng.shuffle(p)
    inv = [0] * n
    for i, x in enumerate(p):
        inv[x] = i
    t.eq(H("InvertPermutation", p).vec(), inv, "InvertPermutation")
    dec = sorted([t.int(1, 12) for _ in range(n)], reverse=True)
    o = H("InvertMonotonicDecreasing", dec)
    want = [min(j for j in range(n + 1) if (dec + [0])[j] <= i) for i in range(dec[0] if dec else 0)]
    t.eq(o.vec(), want, "InvertMonotonicDecreasing")
    t.eq(o.vec(), dec, "InvertMonotonicDecreasing twice")
    ix = [t.int(-1, n - 1) for _ in range(t.upto(12))]
    t.eq(H("Index1", 1, 77, v, ix).vec(), [77 if i < 0 else v[i] for i in ix], "Index with default")
    ix = [i for i in ix if i >= 0]
    t.eq(H("Index1", 0, 77, v, ix).vec(), [v[i] for i in ix], "Index")


@group(P, 150)
def predicates(t):
    "validation and comparison predicates hold exactly when their definition does"
    n = 0 if t.bool(0.06) else t.upto(10)
    kind = t.int(0, 5)
    if kind == 0:
        v = sorted(t.int(0, 5) for _ in range(n))
    elif kind == 1:
        v = sorted((t.int(0, 5) for _ in range(n)), reverse=True)
    elif kind == 2:
        v = list(range(n))
        t.rng.shuffle(v)
    elif kind == 3:
        v = [0] + sorted(t.int(0, 5) for _ in range(max(n - 1, 0)))
    elif kind == 4:
        v = [t.int(0, 2)] * n
    else:
        v = [t.int(-1, 3) for _ in range(n)]
    if v and t.bool(0.4):       # one defect, at any position
        v[t.int(0, len(v) - 1)] = t.choice([-1, 0, 1, len(v), len(v) - 1, 6])
    w = list(v)
    if w and t.bool():
        w[t.int(0, len(w) - 1)] += t.choice([0, 1])
    c = t.int(0, 2)
    t.note(v=v, w=w, c=c)
    n = len(v)
    o = H("Preds", v, w, c)
    inc = all(v[i] <= v[i + 1] for i in range(n - 1))
    t.eq(o.i(), inc, "IsMonotonic")
    t.eq(o.i(), all(v[i] >= v[i + 1] for i in range(n - 1)), "IsMonotonicDecreasing")
    t.eq(o.i(), sorted(v) == list(range(n)), "IsPermutation")
    t.eq(o.i(), inc and all(x >= 0 for x in v), "ValidateRowIds")
    t.eq(o.i(), inc and all(x >= 0 for x in v), "ValidateRowIds with temp")
    ok = n > 0 and v[0] == 0 and inc
    t.eq(o.i(), ok, "ValidateRowSplits")
    t.eq(o.i(), ok, "ValidateRowSplits with temp")
    t.eq(o.i(), v == w, "Equal")
    t.eq(o.i(), all(x == c for x in v), "Equal to a value")
    # row_splits with row_ids
    s = splits_case(t)
    d = row_ids(s)
    if t.bool(0.6):
        x = t.int(0, 4)
        if x == 0 and d:
            d[t.int(0, len(d) - 1)] += t.choice([-1, 1])
        elif x == 1 and d:
            d = d[:-1]
        elif x == 2 and d:
            d = d + [d[-1]]
        elif x == 3:
            s[t.int(0, len(s) - 1)] += t.choice([-1, 1])
        elif len(s) > 1:
            i = t.int(1, len(s) - 1)
            s = s[:i] + s[i + 1:]
    t.note(splits=s, ids=d)
    good = s[0] == 0 and all(s[i] <= s[i + 1] for i in range(len(s) - 1)) and d == row_ids(s)
    o = H("ValidateBoth", s, d)
    t.eq(o.i(), good, "ValidateRowSplitsAndIds")
    t.eq(o.i(), good, "ValidateRowSplitsAndIds with temp")


@group(P, 120)
def arrays_2d(t):
    "two-dimensional primitives, also on strided views"
    r, c, pad = t.int(0, 6), t.int(0, 6), t.int(0, 2)
    v = [[t.int(0, 9) for _ in range(c)] for _ in range(r)]
    flat = [x for row in v for x in row]
    axis, extra = t.int(0, 1), t.int(0, 1)
    t.note(v=v, axis=axis, extra=extra, pad=pad)
    if r and c:
        o = H("ExclusiveSum2", r, c, axis, extra, pad, flat)
        if axis == 1:
            want = [list(itertools.accumulate([0] + row))[:c + extra] for row in v]
        else:
            cols = [list(itertools.accumulate([0] + [v[i][j] for i in range(r)]))[:r + extra] for j in range(c)]
            want = [[cols[j][i] for j in range(c)] for i in range(r + extra)]
        t.eq(o.vec(), [x for row in want for x in row], "ExclusiveSum along axis %d" % axis)
        t.eq(set(o.vec()) <= {55}, True, "nothing outside the destination is written")
    o = H("Transpose2", r, c, pad, flat)
    t.eq(o.vec(), [v[i][j] for j in range(c) for i in range(r)], "Transpose")
    t.eq(o.vec(), flat, "ToContiguous")
    t.eq(o.i(), 1, "Equal")
    t.eq(o.i(), 0 if r and c and pad else o.v[o.pos - 1][0], "Equal after a change")
    ix = [t.int(-1 if t.bool(0.3) else 0, r - 1) for _ in range(t.int(0, 6))] if r else []
    m1 = -1 in ix or t.bool()
    o = H("IndexRows", r, c, pad, m1, flat, ix)
    t.eq(o.i(), len(ix), "IndexRows dim0")
    t.eq(o.i(), c, "IndexRows dim1")
    t.eq(o.vec(), [x for i in ix for x in ([0] * c if i < 0 else v[i])], "IndexRows")


@group(P, 150)
def cat_and_splice(t):
    "concatenation of arrays, of row-splits and with offsets"
    n = t.int(1, 1 + t.upto(6))
    vs = [[t.int(-5, 20) for _ in range(0 if t.bool(0.3) else t.upto(7))] for _ in range(n)]
    t.note(vs=vs)
    o = H("Cat", n, *vs)
    t.eq(o.vec(), sum(vs, []), "Cat")
    t.eq(o.vec(), sum(vs, []), "Cat of an array of arrays")
    rs = [rand_splits(t, 0 if t.bool(0.2) else t.upto(5), 3) for _ in range(n)]
    t.note(row_splits=rs)
    want = [0]
    for s in rs:
        want += [want[-1] + x for x in s[1:]] if len(s) > 1 else []
    base, want = 0, [0]
    for s in rs:
        want += [base + x for x in s[1:]]
        base += s[-1]
    t.eq(H("SpliceRowSplits", n, *rs).vec(), want, "SpliceRowSplits")
    off = [t.int(0, 30) for _ in range(n)]
    t.eq(H("CatWithOffsets", off, *vs).vec(), [x + off[i] for i, v in enumerate(vs) for x in v], "CatWithOffsets")


@group(P, 200)
def shape_construction(t):
    "a shape built from row_splits, row_ids or both describes the same partition"
    na = t.int(2, 4)
    sh = rand_shape(t, num_axes=na)
    t.note(shape=sh)
    s = sh.splits[0]
    d = row_ids(s)
    # row_ids alone cannot express trailing empty rows
    can = len(s) == 1 and False or (len(s) >= 2 and s[-1] > s[-2])
    ws = [1, 3, 5, 7] + ([2, 6] if can else [])
    for w in ws:
        o = H("RaggedShape2", w, s[-1], s, d)
        check_layers(t, o.layers(), [s], f"RaggedShape2(which={w})")
        t.eq(o.i(), max([s[i + 1] - s[i] for i in range(len(s) - 1)] + [0]), "MaxSize")
    if na >= 3:
        args = []
        for x in sh.splits:
            w = t.choice([1, 3, 5, 7])
            args += [w, x[-1], x, row_ids(x)]
        o = H("RaggedShapeN", na - 1, *args)
        check_layers(t, o.layers(), sh.splits, "RaggedShape3/4")
    o = H("Populate", sh)
    check_layers(t, o.layers(), sh.splits, "Populate")
    want = [sh.dim0()]
    for x in sh.splits:
        want += [x[-1], max([x[i + 1] - x[i] for i in range(len(x) - 1)] + [0])]
    t.eq(o.vec(), want + [sh.splits[-1][-1]], "TotSize and MaxSize")
    a, b = t.int(0, 5), t.int(0, 5)
    o = H("Regular", a, b)
    check_layers(t, o.layers(), [[b * i for i in range(a + 1)]], "RegularRaggedShape")
    check_layers(t, o.layers(), [[0, a]], "TrivialShape")
    check_layers(t, o.layers(), [[0]] * (1 + a % 3), "EmptyRaggedShape")
    tots = [t.int(0, 6) for _ in range(na)]
    want = list(tots)
    for i in range(na - 1):
        want += [tots[i] + 1, tots[i + 1]]
    t.eq(H("FromTotSizes", tots).vec(), want, "RaggedShapeFromTotSizes")


@group(P, 200)
def shape_validation(t):
    "Check() accepts exactly the layers that describe a partition"
    sh = rand_shape(t, maxlen=3, maxdim=4)
    layers = []
    for s in sh.splits:
        has = t.bool()     # row_ids need the size to be cached too
        layers.append([list(s), has, row_ids(s), s[-1] if has or t.bool() else -1])
    if t.bool(0.75):
        k = t.int(0, len(layers) - 1)
        L = layers[k]
        x = t.int(0, 5)
        if x == 0:
            L[0][t.int(0, len(L[0]) - 1)] += t.choice([-2, -1, 1, 2])
        elif x == 1 and L[2]:
            L[1], L[3] = True, L[0][-1]
            L[2][t.int(0, len(L[2]) - 1)] += t.choice([-1, 1])
        elif x == 2:
            L[3] = L[0][-1] + t.choice([1, -1, 2])
        elif x == 3:
            L[1], L[3] = True, L[0][-1]
            L[2] = L[2] + [0 if not L[2] else L[2][-1]]
        elif x == 4 and L[2]:
            L[1], L[3] = True, L[0][-1]
            L[2] = L[2][:-1]
        elif len(L[0]) > 1:
            L[0] = L[0][:-1]
    good = True
    for k, (s, h, d, n) in enumerate(layers):
        if s[0] != 0 or any(s[i] > s[i + 1] for i in range(len(s) - 1)) or s[-1] < 0:
            good = False
            break
        if n >= 0 and n != s[-1] or (h and d and d != row_ids(s)) or (n < -1):
            good = False
            break
        if h and not d and s[-1] != 0:
            h = False
            layers[k][1] = False
        if k and layers[k - 1][0][-1] != len(s) - 1:
            good = False
            break
    t.note(layers=layers, good=good)
    args = [len(layers)]
    for s, h, d, n in layers:
        args += [s, h, d, n]
    try:
        H("CheckShape", *args)
        got = True
    except Err:
        got = False
    if good or all(L[3] >= -1 for L in layers):
        t.eq(got, good, "Check() accepts the shape")


@group(P, 120)
def python_shapes(t):
    "row_splits and row_ids reported by RaggedTensor / RaggedShape match the nested list"
    r = rand_rag(t, flags=False)
    na = r.shape.num_axes()
    nested = r.nested()
    t.note(nested=nested, splits=r.shape.splits)
    shape = None
    for s in r.shape.splits:
        rs = torch.tensor(s, dtype=torch.int32)
        w = t.int(0, 2)
        ri = torch.tensor(row_ids(s), dtype=torch.int32)
        if w == 0:
            x = kr.create_ragged_shape2(rs)
        elif w == 1:
            x = kr.create_ragged_shape2(rs, ri)
        else:
            x = kr.create_ragged_shape2(rs, ri, s[-1])
        shape = x if shape is None else shape.compose(x)
    rag = k2.RaggedTensor(shape, torch.tensor(r.values, dtype=torch.int32))
    objs = [rag.shape, shape]
    for o in objs:
        t.eq(o.num_axes, na, "num_axes")
        for ax in range(1, na):
            a = lambda: t.eq(o.row_splits(ax).tolist(), r.shape.splits[ax - 1], f"row_splits({ax})")
            b = lambda: t.eq(o.row_ids(ax).tolist(), row_ids(r.shape.splits[ax - 1]), f"row_ids({ax})")
            for f in ([a, b] if t.bool() else [b, a]):
                f()
        for ax in range(na):
            t.eq(o.tot_size(ax), r.shape.tot(ax), f"tot_size({ax})")
    t.eq(shape.tot_sizes(), tuple(r.shape.tot(a) for a in range(na)), "tot_sizes")
    for ax in range(1, na):
        s = r.shape.splits[ax - 1]
        t.eq(shape.max_size(ax), max([s[i + 1] - s[i] for i in range(len(s) - 1)] + [0]), "max_size")
    t.eq(rag.tolist(), nested, "tolist")
    t.eq(rag.numel(), len(r.values), "numel")
    if r.shape.dim0() and not (na > 2 and r.shape.tot(na - 1) == 0):
        rag2 = k2.RaggedTensor(nested, dtype=torch.int32)
        if rag2.num_axes == na:
            for ax in range(1, na):
                t.eq(rag2.shape.row_splits(ax).tolist(), r.shape.splits[ax - 1], "from a nested list: row_splits")
                t.eq(rag2.shape.row_ids(ax).tolist(), row_ids(r.shape.splits[ax - 1]), "from a nested list: row_ids")
        rag3 = k2.RaggedTensor(k2_text(nested), dtype=torch.int32)
        for ax in range(1, na):
            t.eq(rag3.shape.row_splits(ax).tolist(), r.shape.splits[ax - 1], "from text: row_splits")
    d0, d1 = t.int(0, 4), t.int(0, 4)
    g = kr.RaggedShape.regular_ragged_shape(d0, d1)
    t.eq(g.row_splits(1).tolist(), [d1 * i for i in range(d0 + 1)], "regular_ragged_shape")


@group(P, 60)
def rejected(t):
    "row-splits and row-ids that describe no partition are refused"
    s = rand_splits(t, t.int(1, 6), 3)
    d = row_ids(s)
    k = t.int(0, 3)
    if k == 0:
        s2, d2, n = [x + 1 for x in s], d, -1
    elif k == 1:
        s2, d2, n = s, d, s[-1] + t.choice([1, 2])
    elif k == 2:
        s2, d2, n = s, d + [len(s) - 2], -1
    else:
        if len(s) < 3 or s[-2] == 0:
            t.trivial = True
            return
        s2, d2, n = list(s), d, -1
        s2[-1] = s2[-2] - 1
        d2 = None
    t.note(row_splits=s2, row_ids=d2, n=n)
    t.raises(lambda: H("RaggedShape2", (1 if d2 is None else 3) | (4 if n >= 0 else 0), n, s2, d2 or []),
             "a shape built from inconsistent parts")

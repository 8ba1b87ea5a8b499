"""C03: re-arranging ragged tensors equals re-arranging the nested lists."""
import k2
import torch

from oracle.c02 import model_index, py_rag
from oracle.core import group
from oracle.vh import (Harness, Rag, Shape, check_layers, check_nested, from_nested, items, k2_text, leaves, map_at,
                       rand_rag, rand_shape, rand_splits, row_ids)

H = Harness("C03")
P = "C03"


def fill(t, splits, lo=0, hi=99):
    s = Shape(splits, [t.int(0, 3) for _ in splits])
    return Rag(s, [t.int(lo, hi) for _ in range(splits[-1][-1])])


def sources(t, axis, na, num, maxdim=4, maxlen=3):
    """`num` ragged tensors whose first `axis` axes agree"""
    common, rows = [], (0 if t.bool(0.1) else t.upto(maxdim))
    d0 = rows
    for _ in range(axis - 1):
        common.append(rand_splits(t, rows, maxlen))
        rows = common[-1][-1]
    out = []
    for _ in range(num):
        s = list(common)
        n = rows if axis else (0 if t.bool(0.2) else t.upto(maxdim))
        while len(s) < na - 1:
            s.append(rand_splits(t, n, maxlen))
            n = s[-1][-1]
        out.append(fill(t, s))
    del d0
    return out


def zipped(xs, axis):
    """stack: the new axis is `axis`"""
    if axis == 0:
        return list(xs)
    return [zipped(list(ys), axis - 1) for ys in zip(*xs)]


def catted(xs, axis):
    if axis == 0:
        return [y for x in xs for y in x]
    return [catted(list(ys), axis - 1) for ys in zip(*xs)]


def tagged(r, j):
    """the same shape with leaves (source, position)"""
    return r.shape.nested([(j, p) for p in range(len(r.values))])


def check_many(t, o, nested, na, srcs, what):
    """Ragged, merge map, shape, merge map, Ragged"""
    splits, tags = from_nested(nested, na)
    vals = [srcs[j].values[p] for j, p in tags]
    mm = [p * len(srcs) + j for j, p in tags]
    check_layers(t, o.layers(), splits, what)
    t.eq(o.vec(), vals, what + ": values")
    t.eq(o.vec(), mm, what + ": merge map")
    check_layers(t, o.layers(), splits, what + " of shapes")
    t.eq(o.vec(), mm, what + " of shapes: merge map")
    if o.done():        # only for axis 0 and 1
        return
    check_layers(t, o.layers(), splits, what + " of an array of tensors")
    t.eq(o.vec(), vals, what + " of an array of tensors: values")


@group(P, 300)
def stack_cat(t):
    "Stack and Cat along every axis, with the merge map"
    na = t.int(2, 4)
    axis = t.int(0, na - 1)
    num = t.choice([1, 2, 2, 3, 5])
    rs = sources(t, axis, na, num)
    t.note(axis=axis, srcs=rs)
    x = [tagged(r, j) for j, r in enumerate(rs)]
    check_many(t, H("Stack", axis, num, *rs), zipped(x, axis), na + 1, rs, "Stack")
    check_many(t, H("Cat", axis, num, *rs), catted(x, axis), na, rs, "Cat")


@group(P, 150)
def merge(t):
    "Merge of top-level lists in any order, and GetOffsets"
    na = t.int(2, 4)
    num = t.choice([1, 2, 3, 4])
    rs = sources(t, 0, na, num)
    order = [(j, i) for j, r in enumerate(rs) for i in range(r.shape.dim0())]
    t.rng.shuffle(order)
    t.note(srcs=rs, order=order)
    x = [tagged(r, j) for j, r in enumerate(rs)]
    splits, tags = from_nested([x[j][i] for j, i in order], na)
    o = H("Merge", num, *rs, [i * num + j for j, i in order])
    check_layers(t, o.layers(), splits, "Merge")
    t.eq(o.vec(), [rs[j].values[p] for j, p in tags], "Merge: values")
    t.eq(o.vec(), [p * num + j for j, p in tags], "Merge: merge map")
    o = H("GetOffsets", num, *rs)
    t.eq((o.i(), o.i()), (na + 1, num + 1), "GetOffsets: shape")
    want = []
    for a in range(na + 1):
        acc = 0
        for r in rs + [None]:
            want.append(acc)
            acc += 0 if r is None else 1 if a == 0 else r.shape.tot(a - 1)
    t.eq(o.vec(), want, "GetOffsets")


def unstacked(x, na, axis, right, wrap=True):
    """list of nested lists with axis `axis` removed (leaves kept as they are)"""
    if axis == 0:
        return [[y] if na == 2 else y for y in x]
    n = max([len(y) for y in items(x, axis - 1)] + [0])
    out = []
    for j in range(n):
        def pick(lst):
            r = []
            for y in lst:
                k = j if right else j - (n - len(y))
                if 0 <= k < len(y):
                    r.append(y[k])
                elif axis < na - 1:
                    r.append([])
            return r
        z = map_at(x, axis - 1, pick)
        out.append([z] if na == 2 else z)
    return out


@group(P, 250)
def unstack(t):
    "Unstack is the inverse of Stack, with the map of elements"
    r = rand_rag(t, hi=99)
    na = r.shape.num_axes()
    axis = t.int(0, na - 1)
    right = True if axis == na - 1 else t.bool()
    t.note(src=r, axis=axis, pad_right=right)
    outs = unstacked(r.shape.nested(), na, axis, right)
    oa = max(2, na - 1)
    o = H("Unstack", axis, right, r)
    t.eq(o.i(), len(outs), "number of outputs")
    for j, x in enumerate(outs):
        splits, lv = from_nested(x, oa)
        check_layers(t, o.layers(), splits, f"output {j}")
        t.eq(o.vec(), [r.values[p] for p in lv], f"output {j}: values")
        t.eq(o.vec(), lv, f"output {j}: split map")
    t.eq(o.i(), len(outs), "number of output shapes")
    for j, x in enumerate(outs):
        check_layers(t, o.layers(), from_nested(x, oa)[0], f"output shape {j}")
    check_layers(t, o.layers(), r.shape.splits, "the source after Unstack")


@group(P, 250)
def axes(t):
    "Unsqueeze, RemoveAxis, layers, composition and decomposition"
    r = rand_rag(t)
    na = r.shape.num_axes()
    x = r.nested()
    t.note(src=r)
    ax = t.int(0, na - 1)
    t.note(unsqueeze=ax)
    o = H("Unsqueeze", ax, r)
    # axis 0: the whole becomes one list; otherwise (as the implementation's comment and the C++ tests say)
    # every item on axis `ax` becomes a list of one
    want = [x] if ax == 0 else map_at(x, ax, lambda lst: [[y] for y in lst])
    check_nested(t, o, want, na + 1, "Unsqueeze")
    check_layers(t, o.layers(), from_nested([x], na + 1)[0], "UnsqueezeParallel")
    if na > 2:
        ax = t.int(0, na - 1)
        t.note(remove_axis=ax)
        o = H("RemoveAxis", ax, r)
        if ax == na - 1:
            check_layers(t, o.layers(), r.shape.splits[:-1], "RemoveAxis of the last axis")
        else:
            want = map_at(x, ax - 1, lambda lst: [z for y in lst for z in y]) if ax else [z for y in x for z in y]
            if ax:
                want = map_at(x, ax - 1, lambda lst: [[z for y in q for z in y] for q in lst])
            check_nested(t, o, want, na - 1, "RemoveAxis")
            check_nested(t, o, want, na - 1, "RemoveAxis (method)")
    o = H("Layers", r.shape)
    for s in r.shape.splits:
        check_layers(t, o.layers(), [s], "GetLayer")
    for a in range(1, na - 1):
        check_layers(t, o.layers(), r.shape.splits[:a], "Decompose: top")
        check_layers(t, o.layers(), r.shape.splits[a:], "Decompose: bottom")
        check_layers(t, o.layers(), r.shape.splits, "Compose of the parts")
    if na == 4:
        check_layers(t, o.layers(), r.shape.splits, "ComposeRaggedShapes3")


@group(P, 200)
def transpose(t):
    "Transpose of a regular shape, MakeTransposable, CoveringShape"
    d0, d1 = t.upto(4), t.upto(4)
    if d0 == 0:
        d1 = 0
    s1 = [i * d1 for i in range(d0 + 1)]
    s = [s1, rand_splits(t, s1[-1], 3)]
    if t.bool(0.4):
        s.append(rand_splits(t, s[-1][-1], 3))
    r = fill(t, s)
    na = len(s) + 1
    t.note(src=r)
    if d0:
        pos = r.shape.nested()
        want = [[pos[i][j] for i in range(d0)] for j in range(d1)]
        splits, lv = from_nested(want, na)
        o = H("Transpose", r)
        check_layers(t, o.layers(), splits, "Transpose")
        t.eq(o.vec(), [r.values[p] for p in lv], "Transpose: values")
        t.eq(o.vec(), lv, "Transpose: value indexes")
        check_layers(t, o.layers(), splits, "Transpose of the shape")
    sh = rand_shape(t, num_axes=t.int(3, 4))
    t.note(make_transposable=sh)
    x = sh.nested()
    m = max([len(y) for y in x] + [0])
    want = [y + [[]] * (m - len(y)) for y in x]
    check_layers(t, H("MakeTransposable", sh).layers(), from_nested(want, sh.num_axes())[0], "MakeTransposable")
    n = t.int(1, 4)
    rows = t.upto(5)
    rs = [fill(t, [rand_splits(t, rows, 3)]) for _ in range(n)]
    t.note(covering=rs)
    sz = [[r.shape.splits[0][i + 1] - r.shape.splits[0][i] for i in range(rows)] for r in rs]
    o = H("Covering", n, *rs)
    mx = [max(z[i] for z in sz) for i in range(rows)]
    cs = [sum(mx[:i]) for i in range(rows + 1)]
    check_layers(t, o.layers(), [cs], "CoveringShape")
    for r, z in zip(rs, sz):
        want = [r.shape.splits[0][i] + j if j < z[i] else -1 for i in range(rows) for j in range(mx[i])]
        t.eq(o.vec(), want, "CoveringShapeForwardMap")


@group(P, 250)
def last_axis(t):
    "adding a prefix or suffix, changing sublist sizes, padding and removing values"
    r = rand_rag(t, lo=-3, hi=4)
    na = r.shape.num_axes()
    x = r.nested()
    subs = items(x, na - 2)
    fix = [t.int(50, 99) for _ in subs]
    t.note(src=r, fix=fix)
    o = H("AddFix", r, fix)
    sp, up = r.shape.splits[-1], r.shape.splits[:-1]

    def rebuilt(rows):
        acc = [0]
        for row in rows:
            acc.append(acc[-1] + len(row))
        return up + [acc], [v for row in rows for v in row]
    for what, rows in (("AddSuffixToRagged", [y + [f] for y, f in zip(subs, fix)]),
                       ("AddPrefixToRagged", [[f] + y for y, f in zip(subs, fix)])):
        splits, lv = rebuilt(rows)
        check_layers(t, o.layers(), splits, what)
        t.eq(o.vec(), lv, what + ": values")
    sizes = [sp[i + 1] - sp[i] for i in range(len(sp) - 1)]
    d = t.int(-2, 3)
    t.note(delta=d)
    if all(z + d >= 0 for z in sizes):
        check_layers(t, H("ChangeSize", d, 0, r.shape).layers(), rebuilt([[0] * (z + d) for z in sizes])[0],
                     "ChangeSublistSize")
    check_layers(t, H("ChangeSize", d, 1, r.shape).layers(),
                 rebuilt([[0] * (0 if z == 0 else max(0, z + d)) for z in sizes])[0], "ChangeSublistSizePinned")
    cut = t.int(-4, 4)
    t.note(cut=cut)
    o = H("RemoveValues", cut, r)
    for what, rows in (("RemoveValuesLeq", [[v for v in y if v > cut] for y in subs]),
                       ("RemoveValuesEq", [[v for v in y if v != cut] for y in subs]), ("source", subs)):
        splits, lv = rebuilt(rows)
        check_layers(t, o.layers(), splits, what)
        t.eq(o.vec(), lv, what + ": values")
    q = rand_rag(t, num_axes=2, hi=99)
    rep, left, val = t.bool(), t.bool(), t.int(-5, -1)
    t.note(pad=q, replicate=rep, left=left, value=val)
    t.eq(pad_out(H("Pad", rep, left, val, q)), padded(q.nested(), rep, left, val), "PadRagged")


def pad_out(o):
    n, m = o.i(), o.i()
    v = o.vec()
    return [v[i * m:(i + 1) * m] for i in range(n)]


def padded(x, rep, left, val):
    m = max([len(y) for y in x] + [0])
    out = []
    for y in x:
        if left:
            p = y[0] if rep and y else val
            # the entry nearest to the padding
            out.append([p] * (m - len(y)) + y)
        else:
            out.append(y + [y[-1] if rep and y else val] * (m - len(y)))
    return out


@group(P, 150)
def text(t):
    "the text form reads back as the same tensor; equality"
    a = rand_rag(t, lo=-9, hi=9)
    t.note(src=a)
    if a.shape.tot(a.shape.num_axes() - 2):      # else the text does not tell the number of axes
        o = H("Text", a)
        check_nested(t, o, a.nested(), a.shape.num_axes(), "read back")
        check_layers(t, o.layers(), a.shape.splits, "shape read back")
    b = Rag(Shape(a.shape.splits, [t.int(0, 3) for _ in a.shape.splits]), a.values)
    o = H("EqualShapes", a, b)
    t.eq((o.i(), o.i()), (1, 1), "equal tensors")
    c = [list(s) for s in a.shape.splits]
    if t.bool() and len(c[-1]) > 2:
        k = t.int(1, len(c[-1]) - 2)
        c[-1][k] = t.int(c[-1][k - 1], c[-1][k + 1])
    v = list(a.values)
    if v and t.bool(0.3):
        v[t.int(0, len(v) - 1)] += 1
    b = Rag(Shape(c), v)
    t.note(other=b)
    o = H("EqualShapes", a, b)
    t.eq((o.i(), o.i()), (int(c == a.shape.splits), int(c == a.shape.splits and v == a.values)), "Equal")


def same(t, y, want, n, dtype, what):
    splits, lv = from_nested(want, n)
    t.eq(y.num_axes, n, what + ": num_axes")
    for a in range(1, n):
        t.eq(y.shape.row_splits(a).tolist(), splits[a - 1], what + f": row_splits({a})")
        t.eq(y.shape.row_ids(a).tolist(), row_ids(splits[a - 1]), what + f": row_ids({a})")
        t.eq(y.tot_size(a), splits[a - 1][-1], what + f": tot_size({a})")
    t.eq(y.values.tolist(), lv, what + ": values")
    t.eq(y.dtype, dtype, what + ": dtype")
    t.eq(y.tolist(), want, what + ": tolist")


def numbers(s):
    """nested list in the text of a RaggedTensor"""
    i, j = s.index("["), s.rindex("]")
    return eval(s[i:j + 1])        # brackets, commas and numbers only


@group(P, 250)
def python_api(t):
    "the same operations through k2.RaggedTensor"
    dtype = t.choice([torch.int32, torch.float32, torch.float64])
    na = t.int(2, 4)
    axis = t.int(0, 1)
    rs = sources(t, axis, na, t.int(1, 4))
    t.note(axis=axis, srcs=rs, dtype=dtype)
    xs = [py_rag(t, r, dtype) for r in rs]
    y = k2.ragged.cat(xs, axis)
    same(t, y, catted([r.nested() for r in rs], axis), na, dtype, "cat")
    y = k2.RaggedTensor.cat(xs, axis)
    same(t, y, catted([r.nested() for r in rs], axis), na, dtype, "RaggedTensor.cat")
    r, x = rs[0], xs[0]
    n = r.nested()
    for form in (str(x), repr(x), x.to_str_simple()):
        t.eq(numbers(form), n, "text form")
        t.ok(str(dtype) in form, "text form names the dtype")
    if r.shape.tot(na - 2):
        same(t, k2.RaggedTensor(k2_text(n), dtype=dtype), n, na, dtype, "built from text")
    if r.values:
        same(t, k2.RaggedTensor(n, dtype=dtype), n, na, dtype, "built from nested lists")
    if na > 2:
        ax = t.int(0, na - 2)
        t.note(remove_axis=ax)
        if ax:
            want = map_at(n, ax - 1, lambda lst: [[z for y in q for z in y] for q in lst])
        else:
            want = [z for y in n for z in y]
        same(t, x.remove_axis(ax), want, na - 1, dtype, "remove_axis")
        s = x.shape.remove_axis(ax)
        t.eq([s.row_splits(a).tolist() for a in range(1, na - 1)], from_nested(want, na - 1)[0], "shape.remove_axis")
    cut = t.choice(r.values) if r.values else 0
    t.note(cut=cut)
    for what, y, keep in (("remove_values_leq", x.remove_values_leq(cut), lambda v: v > cut),
                          ("remove_values_eq", x.remove_values_eq(cut), lambda v: v != cut)):
        same(t, y, map_at(n, na - 2, lambda lst: [[v for v in q if keep(v)] for q in lst]), na, dtype, what)
    if na == 2:
        rep, left = t.bool(), t.bool()
        y = x.pad(mode="replicate" if rep else "constant", padding_value=-7, pad_left=left)
        t.eq(y.tolist(), padded(n, rep, left, -7), f"pad replicate={rep} left={left}")
        t.eq(y.dtype, dtype, "pad: dtype")
    add = [t.int(0, 20) for _ in range(r.shape.tot(na - 2))]
    alpha = t.choice([1, -1, 2, 3])
    y = x.add(torch.tensor(add, dtype=dtype), alpha)
    ids = row_ids(r.shape.splits[-1])
    same(t, y, r.shape.nested([v + alpha * add[ids[i]] for i, v in enumerate(r.values)]), na, dtype, "add")
    other = t.choice([torch.int32, torch.float32, torch.float64])
    same(t, x.to(other), n, na, other, "to(dtype)")
    dims = [t.int(1, 3) for _ in range(t.int(2, 4))]
    d = torch.arange(torch.Size(dims).numel()).reshape(dims).to(dtype)
    if t.bool():
        d = d.transpose(0, len(dims) - 1)
    t.note(dense=d.tolist(), contiguous=d.is_contiguous())
    same(t, k2.RaggedTensor(d), d.tolist(), len(dims), dtype, "from a dense tensor")
    q = rand_shape(t, num_axes=t.int(2, 3), dim0=r.shape.splits[-1][-1])
    comp = x.shape.compose(k2_shape(t, q))
    t.eq([comp.row_splits(a + 1).tolist() for a in range(comp.num_axes - 1)], r.shape.splits + q.splits, "compose")
    for i in range(na - 1):
        t.eq(x.shape.get_layer(i).row_splits(1).tolist(), r.shape.splits[i], "get_layer")
    t.ok(x == py_rag(t, r, dtype), "equal tensors compare equal")
    t.ok(not x != py_rag(t, r, dtype), "equal tensors do not compare different")


def k2_shape(t, q):
    sh = None
    for s in q.splits:
        rs = torch.tensor(s, dtype=torch.int32)
        x = k2.ragged.create_ragged_shape2(rs) if t.bool() else k2.ragged.create_ragged_shape2(
            rs, torch.tensor(row_ids(s), dtype=torch.int32))
        sh = x if sh is None else sh.compose(x)
    return sh


_ = (model_index, leaves)

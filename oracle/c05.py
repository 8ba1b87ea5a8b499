"""C05: gather, scatter-add and gather-sum follow their index, also in the gradient."""
import k2
import torch

from oracle.c02 import py_rag
from oracle.core import group
from oracle.vh import Harness, Rag, rand_shape

H = Harness("C05")
P = "C05"
ALL = [torch.int32, torch.int64, torch.float32, torch.float64, torch.bool]
REAL = [torch.int32, torch.float32, torch.float64]


def num(t, dtype):
    if dtype == torch.bool:
        return bool(t.int(0, 1))
    if dtype == torch.int64 and t.bool(0.2):
        return t.choice([2**40, -2**35, 2**31])
    return t.int(-40, 40)


def strided(t, dims, dtype, inner_contiguous=False, gen=num):
    """a tensor of the given dims, possibly a view with gaps"""
    style = t.int(0, 3)
    n = dims[0]
    if len(dims) == 1:
        st = 1 if style < 2 else t.int(2, 4)
        off = 0 if style == 0 else t.int(0, 3)
        base = torch.tensor([gen(t, dtype) for _ in range(off + max(n, 1) * st)], dtype=dtype)
        return base[off:off + n * st:st][:n]
    m = dims[1]
    c = m if style < 2 else m + t.int(1, 3)
    r = n if style == 0 else n + t.int(0, 2)
    base = torch.tensor([[gen(t, dtype) for _ in range(c)] for _ in range(r)], dtype=dtype).reshape(r, c)
    lo, ro = t.int(0, c - m), t.int(0, r - n)
    x = base[ro:ro + n, lo:lo + m]
    if style == 3 and not inner_contiguous:
        x = torch.tensor([[gen(t, dtype) for _ in range(n)] for _ in range(m)], dtype=dtype).reshape(m, n).t()
    return x


def indexes(t, n, k):
    lo = -1 if t.bool() else 0
    if n == 0:
        return [-1] * k
    return [t.int(lo, n - 1) for _ in range(k)]


def gather(x, ix, default, m=None):
    x = x.tolist()
    return [(default if m is None else [type(default)(0)] * m) if i < 0 else x[i] for i in ix]


@group(P, 400)
def select(t):
    "index_select of 1-D and 2-D tensors"
    dtype = t.choice(ALL)
    two = t.bool()
    n, m = t.upto(6), t.int(1, 4)
    x = strided(t, [n, m] if two else [n], dtype, inner_contiguous=True)
    if dtype == torch.bool:     # strided bool tensors are not supported
        x = x.contiguous()
    ix = indexes(t, n, t.upto(7))
    d = t.choice([None, 0, 3, -2]) if dtype != torch.bool else t.choice([None, 0, 1])
    before = x.tolist()
    t.note(src=before, strides=x.stride(), index=ix, default=d, dtype=dtype)
    it = torch.tensor(ix, dtype=torch.int32)
    y = k2.index_select(x, it) if d is None else k2.index_select(x, it, default_value=d)
    zero = torch.zeros(1, dtype=dtype).tolist()[0]
    dv = zero if d is None else torch.tensor([d], dtype=dtype).tolist()[0]
    want = gather(x, ix, dv, m if two else None)
    t.eq(list(y.shape), [len(ix)] + ([m] if two else []), "shape")
    t.eq(y.tolist(), want, "index_select")
    t.eq(y.dtype, dtype, "dtype")
    t.eq((x.tolist(), it.tolist()), (before, ix), "inputs are unchanged")
    y2 = y.clone()
    if x.numel() and y.numel():
        y2.zero_()
        t.eq(x.tolist(), before, "the result does not alias the source")


@group(P, 200)
def add(t):
    "index_add changes the destination by the sum of the values sent to each position"
    dtype = t.choice(REAL)
    two = t.bool()
    n, m, k = t.int(1, 6), t.int(1, 4), t.upto(7)
    dest = strided(t, [n, m] if two else [n], dtype)
    val = strided(t, [k, m] if two else [k], dtype)
    ix = indexes(t, n, k)
    before, vb = dest.tolist(), val.tolist()
    t.note(dest=before, dest_strides=dest.stride(), value=vb, value_strides=val.stride(), index=ix, dtype=dtype)
    base = dest._base if dest._base is not None else dest
    inside = torch.zeros_like(base, dtype=torch.bool)
    inside.as_strided(dest.shape, dest.stride(), dest.storage_offset()).fill_(True)
    keep = base.clone()
    k2.index_add(torch.tensor(ix, dtype=torch.int32), val, dest)
    want = [list(r) if two else r for r in before]
    for i, j in enumerate(ix):
        if j >= 0:
            want[j] = [a + b for a, b in zip(want[j], vb[i])] if two else want[j] + vb[i]
    t.eq(dest.tolist(), want, "index_add")
    t.eq(val.tolist(), vb, "values unchanged")
    t.ok(bool((base == keep)[~inside].all()), "nothing outside the destination is written")


@group(P, 250)
def gradients(t):
    "index_select and index_and_sum: forward values and their gradients"
    dtype = t.choice([torch.float32, torch.float64])
    kind = t.choice(["1d", "2d", "sum"])
    n, m = t.int(1, 6), t.int(1, 3)
    x = strided(t, [n, m] if kind == "2d" else [n], dtype, True)
    if kind == "sum":
        x = x.contiguous()
    ref = x.detach().clone().to(torch.float64).requires_grad_(True)
    x = x.detach().requires_grad_(True)
    if kind == "sum":
        sh = rand_shape(t, num_axes=2, maxlen=4)
        r = Rag(sh, indexes(t, n, sh.splits[-1][-1]))
        t.note(src=ref.tolist(), ragged=r)
        y = k2.ragged.index_and_sum(x, py_rag(t, r, torch.int32))
        s = sh.splits[0]
        rows = [r.values[s[i]:s[i + 1]] for i in range(len(s) - 1)]
        z = torch.stack([sum([ref[i] for i in row if i >= 0], ref[0] * 0) for row in rows]) if rows else ref[:0]
    else:
        ix = indexes(t, n, t.upto(7))
        d = t.choice([0, 2.5])
        t.note(src=ref.tolist(), strides=x.stride(), index=ix, default=d)
        y = k2.index_select(x, torch.tensor(ix, dtype=torch.int32), default_value=d)
        if kind == "1d":
            z = torch.stack([ref[i] if i >= 0 else ref[0] * 0 + d for i in ix]) if ix else ref[:0]
        else:
            z = torch.stack([ref[i] if i >= 0 else ref[0] * 0 for i in ix]) if ix else ref[:0]
    t.eq(list(y.shape), list(z.shape), "shape")
    t.eq(y.dtype, dtype, "dtype")
    t.close(y.detach(), z.detach(), "value", 1e-6)
    if y.numel() == 0:
        t.trivial = True
        return
    w = torch.tensor([t.int(-8, 8) / 2 for _ in range(y.numel())], dtype=torch.float64).reshape(y.shape)
    style = t.int(0, 2)
    if style == 0:
        y.backward(w.to(dtype))
    elif style == 1:        # an expanded (stride 0) gradient
        w = torch.ones_like(w) * 1.5
        (y * 1.5).sum().backward()
    else:                   # a strided gradient
        g = torch.zeros(list(y.shape) + [2], dtype=dtype)[..., 0]
        g.copy_(w)
        y.backward(g)
    (z * w).sum().backward()
    t.close(x.grad, ref.grad, f"gradient ({kind})", 1e-5)


@group(P, 150)
def ragged(t):
    "indexing by a ragged index; the only non-zero value of each sublist"
    dtype = t.choice(REAL)
    n = t.int(1, 6)
    x = strided(t, [n], dtype)
    sh = rand_shape(t, maxlen=3, max_axes=3)
    r = Rag(sh, indexes(t, n, sh.splits[-1][-1]))
    d = t.choice([None, 4])
    t.note(src=x.tolist(), stride=x.stride(), ragged=r, default=d)
    y = k2.ragged.index(x.contiguous(), py_rag(t, r, torch.int32), d)
    t.eq(y.tolist(), sh.nested(gather(x, r.values, (d or 0) * torch.ones(1, dtype=dtype).tolist()[0])), "ragged index")
    t.eq(y.dtype, dtype, "dtype")
    sh = rand_shape(t, num_axes=2, maxlen=3)
    s = sh.splits[0]
    r = Rag(sh, [t.int(0, n - 1) for _ in range(s[-1])])
    dtype = t.choice([torch.int32, torch.float32])
    vals = [0] * n
    x = strided(t, [n], dtype)
    # at most one non-zero per sublist
    for i in t.rng.sample(range(n), n):
        if t.bool(0.5):
            vals[i] = t.int(1, 9)
            if any(len({j for j in r.values[s[k]:s[k + 1]] if vals[j]}) > 1 for k in range(len(s) - 1)):
                vals[i] = 0
    for i in range(n):
        x[i] = vals[i]
    r.values = list(r.values)
    if any(sum(1 for j in r.values[s[k]:s[k + 1]] if vals[j]) > 1 for k in range(len(s) - 1)):
        t.trivial = True        # the same non-zero element twice
        return
    t.note(src2=vals, ragged2=r)
    y = k2.simple_ragged_index_select(x, py_rag(t, r, torch.int32))
    t.eq(y.tolist(), [sum(vals[j] for j in r.values[s[k]:s[k + 1]]) for k in range(len(s) - 1)],
         "simple_ragged_index_select")


def raw(t, dims, inner):
    """offset, dims, strides, storage"""
    n = dims[0]
    off = t.int(0, 3)
    if len(dims) == 1:
        st = [t.int(1, 3)]
        size = off + n * st[0] + t.int(0, 2)
    else:
        if inner or t.bool():
            st = [dims[1] + t.int(0, 2), 1]
        else:
            st = [1, max(n, 1) + t.int(0, 2)]
        size = off + max(n, 1) * st[0] + max(n, dims[1]) * st[1] + 3
    return off, dims, st, [t.int(-30, 30) for _ in range(size + 1)]


def view(r):
    off, dims, st, v = r
    if len(dims) == 1:
        return [v[off + i * st[0]] for i in range(dims[0])]
    return [v[off + i * st[0] + j * st[1]] for i in range(dims[0]) for j in range(dims[1])]


@group(P, 200)
def tensors(t):
    "Index, IndexAdd, Cast and ToContiguous of k2::Tensor, with and without -1"
    k = t.int(0, 2)
    two = t.bool()
    n, m = t.int(1, 6), t.int(1, 4)
    m1 = t.bool()
    x = raw(t, [n, m] if two else [n], True)
    ix = [t.int(-1 if m1 else 0, n - 1) for _ in range(t.int(1, 7))]
    d = float(t.choice([0, 3]))
    t.note(dtype=k, src=x, index=ix, minus_one=m1, default=d)
    o = H("TensorIndex", k, d, *x, ix, m1)
    v = view(x)
    rows = [v[i * m:(i + 1) * m] for i in range(n)] if two else [[y] for y in v]
    want = [y for i in ix for y in ([0 if two else d] * len(rows[0]) if i < 0 else rows[i])]
    t.eq(o.vec(), [len(ix)] + ([m] if two else []), "Index: dims")
    t.eq(o.vecd(), want, "Index")
    for what in ("ToContiguous", "Cast", "the source is unchanged"):
        t.eq(o.vec(), x[1], what + ": dims")
        t.eq(o.vecd(), v, what)
    kk = t.int(1, 7)
    src = raw(t, [kk, m] if two else [kk], False)
    dest = raw(t, [n, m] if two else [n], False)
    ix = [t.int(-1 if m1 else 0, n - 1) for _ in range(kk)]
    t.note(add=src, dest=dest, index2=ix)
    w = m if two else 1
    sv, dv = view(src), view(dest)
    acc = [0] * (n * w)
    for i, j in enumerate(ix):
        if j >= 0:
            for c in range(w):
                acc[j * w + c] += sv[i * w + c]
    o = H("TensorAdd", k, *src, *dest, ix, m1)
    t.eq(o.vec(), dest[1], "IndexAdd: dims")
    t.eq(o.vecd(), [a + b for a, b in zip(acc, dv)], "IndexAdd")
    o.vec()
    t.eq(o.vecd(), sv, "IndexAdd: the source is unchanged")

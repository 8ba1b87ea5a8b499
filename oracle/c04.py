"""C04: per-sublist reductions, sorting, normalisation and uniqueness match each sublist."""
import math

import k2
import torch

from oracle.c02 import py_rag
from oracle.core import group
from oracle.vh import Harness, Rag, Shape, check_layers, from_nested, items, rand_rag, rand_shape, row_ids

H = Harness("C04")
P = "C04"
IMIN, IMAX = -2**31, 2**31 - 1
FMAX = 3.4028234663852886e38
INF = float("inf")


def subs(r):
    s = r.shape.splits[-1]
    return [r.values[s[i]:s[i + 1]] for i in range(len(s) - 1)]


def values(t, n, kind):
    if kind == "int":
        if t.bool(0.2):
            return [t.choice([IMIN, IMAX, -1, 0, 1]) for _ in range(n)], 0
        lo = t.choice([-50, -50, 1, -50])
        hi = t.choice([50, -1]) if lo < 0 else 50
        return [t.int(lo, hi) for _ in range(n)], 0
    lo, hi = t.choice([(-400, 400), (-400, -8), (8, 400), (-8, 8)])
    return [t.int(lo, hi) / 8 for _ in range(n)], 0


def wrap(x):
    return (x - IMIN) % 2**32 + IMIN


@group(P, 300)
def reduce(t):
    "Max, Min, Sum, ArgMax, And, Or and exclusive sums per sublist"
    kind = t.choice(["I", "F", "D"])
    sh = rand_shape(t)
    v, _ = values(t, sh.splits[-1][-1], "int" if kind == "I" else "float")
    if kind == "I" and any(x in (IMIN, IMAX) for x in v):
        v = [max(-2**24, min(2**24, x)) for x in v]
    init = t.choice([0, 0, 5, -5, -100, 100, IMIN + 1000 if kind == "I" else -INF, IMAX // 2 if kind == "I" else 1e9])
    if kind == "F" and init == 1e9:
        init = 2.0**20
    r = Rag(sh, [float(x) for x in v])
    t.note(kind=kind, src=r, initial_value=init)
    o = H("Reduce" + kind, float(init), sh, r.values)
    sb = subs(r)
    ids = row_ids(sh.splits[-1])
    t.eq(o.vecd(), [max([init] + x) for x in sb], "MaxPerSublist")
    t.eq(o.vecd(), [min([init] + x) for x in sb], "MinPerSublist")
    sums = [init + sum(x) for x in sb]
    t.close(o.vecd(), sums, "SumPerSublist", 1e-6)
    t.close(o.vecd(), [-77.0] + sums + [-77.0], "only the given range is written", 1e-6)
    am = o.vec()
    p = 0
    for i, x in enumerate(sb):
        if not x or max(x) < init:
            t.eq(am[i], -1, f"ArgMaxPerSublist of sublist {i}")
        else:
            t.ok(p <= am[i] < p + len(x) and x[am[i] - p] == max(x),
                 f"ArgMaxPerSublist of sublist {i}: got {am[i]}, values {x} begin at {p}")
        p += len(x)
    es = [sum(x[:j]) for x in sb for j in range(len(x))]
    t.close(o.vecd(), es, "SegmentedExclusiveSum", 1e-5)
    t.close(o.vecd(), es, "SegmentedExclusiveSum in place", 1e-5)
    v, _ = values(t, len(v), "int")
    r = Rag(sh, v)
    init = t.choice([0, -1, 12])
    o = H("AndOr", init, r)
    a, b = [], []
    for x in subs(r):
        m = n = init
        for y in x:
            m &= y
            n |= y
        a.append(m)
        b.append(n)
    t.eq(o.vec(), a, "AndPerSublist")
    t.eq(o.vec(), b, "OrPerSublist")
    del ids


def logsum(xs):
    m = max(xs + [-INF])
    return m if m == -INF else m + math.log(sum(math.exp(x - m) for x in xs))


@group(P, 200)
def soft(t):
    "LogSum, normalisation and adding a value per sublist"
    kind = t.choice(["F", "D"])
    tol = 2e-5 if kind == "F" else 1e-9
    sh = rand_shape(t)
    v, _ = values(t, sh.splits[-1][-1], "float")
    if t.bool(0.3):
        v = [-INF if t.bool(0.2) else x for x in v]
    init = t.choice([-INF, -INF, 0.0, 3.0])
    n = sh.tot(sh.num_axes() - 2)
    add = [t.int(-20, 20) / 4 for _ in range(n)]
    alpha = t.choice([1.0, -1.0, 0.5])
    r = Rag(sh, v)
    t.note(kind=kind, src=r, initial_value=init, add=add, alpha=alpha)
    o = H("Soft" + kind, init, sh, [float(x) for x in v], alpha, [float(x) for x in add])
    sb = subs(r)
    t.close(o.vecd(), [logsum([init] + x) for x in sb], "LogSumPerSublist", tol, 10 * tol)
    lg = o.vecd()
    ln = o.vecd()
    p = 0
    for x in sb:
        z = logsum(x)
        if z > -INF:
            t.close(lg[p:p + len(x)], [y - z for y in x], "normalised (log)", tol, 20 * tol)
        s = sum(x)
        if s > -INF and abs(s) > 0.1:
            t.close(ln[p:p + len(x)], [y / s for y in x], "normalised", 20 * tol)
        p += len(x)
    ids = row_ids(sh.splits[-1])
    want = [y + alpha * add[ids[i]] for i, y in enumerate(v)]
    t.close(o.vecd(), want, "AddPerSublist", tol)
    t.eq(o.vecd(), v, "the source is unchanged")


@group(P, 250)
def sort(t):
    "SortSublists: sorted, a permutation within each sublist, and its order map"
    desc = t.bool()
    kind = t.choice(["I", "F"])
    sh = rand_shape(t, maxlen=t.choice([3, 8]))
    if t.bool(0.1):
        sh = Shape([[0, 0, 200, 200, 330, 340]])     # long sublists
    v, _ = values(t, sh.splits[-1][-1], "int" if kind == "I" else "float")
    if t.bool(0.3):
        v = [x % 3 for x in v]
    r = Rag(sh, v)
    t.note(src=r, descending=desc, kind=kind)
    want = [sorted(x, reverse=desc) for x in subs(r)]
    if kind == "I":
        o = H("SortI", desc, r)
        check_layers(t, o.layers(), sh.splits, "the shape is unchanged")
        got = o.vec()
    else:
        o = H("SortF", desc, sh, [float(x) for x in v])
        got = o.vecd()
    t.eq(got, [y for x in want for y in x], "sorted values")
    order = o.vec()
    t.eq(sorted(order), list(range(len(v))), "the order is a permutation")
    t.eq([v[i] for i in order], got, "the order maps sorted to original positions")
    ids = row_ids(sh.splits[-1])
    t.eq([ids[i] for i in order], ids, "the order stays within each sublist")


def check_unique(t, r, splits, vals, reps, n2o, what):
    na = r.shape.num_axes()
    x = r.nested()
    out = Shape(splits).nested(vals)
    gin = items(x, na - 3) if na > 2 else [x]
    gout = items(out, na - 3) if na > 2 else [out]
    t.eq(splits[:-2], r.shape.splits[:-2], what + ": earlier axes")
    t.eq(len(gout), len(gin), what + ": number of groups")
    flat = items(x, na - 2)
    base = k = 0
    for a, b in zip(gin, gout):
        t.eq(sorted(b), sorted([list(z) for z in {tuple(y) for y in a}]), what + ": distinct sequences of a group")
        for y in b:
            if reps is not None:
                t.eq(reps[k], a.count(y), what + f": number of repeats of {y}")
            if n2o is not None:
                t.ok(base <= n2o[k] < base + len(a) and flat[n2o[k]] == y, what + f": representative of {y}: {n2o[k]}")
            k += 1
        base += len(a)


@group(P, 250)
def unique(t):
    "UniqueSequences, ComputeHash"
    na = t.choice([2, 2, 3, 3, 3, 4])
    r = rand_rag(t, num_axes=na, lo=0, hi=t.choice([0, 1, 1, 2]), maxlen=t.choice([2, 3, 5]))
    if t.bool(0.3):
        r.values = [t.choice([-1, 0, 7, 100000]) if t.bool() else x for x in r.values]
    full = t.bool(0.8)
    t.note(src=r, full=full)
    o = H("Unique", r, full)
    ls = o.layers()
    vals = o.vec()
    check_layers(t, ls, [x[0] for x in ls], "the result is well formed")
    reps = n2o = None
    if full:
        rl = o.layers()
        reps = o.vec()
        n2o = o.vec()
        check_layers(t, rl, [x[0] for x in rl], "num_repeats is well formed")
        t.eq(len(reps), ls[-1][0] and len(ls[-1][0]) - 1, "one count per sequence")
        if na > 2:
            t.eq(rl[-1][0], ls[-2][0], "num_repeats is grouped like the result")
    check_unique(t, r, [x[0] for x in ls], vals, reps, n2o, "UniqueSequences")
    o = H("Hash", r)
    h32, h64 = o.vec(), o.vec()
    flat = subs(r)
    t.eq((len(h32), len(h64)), (len(flat), len(flat)), "ComputeHash: size")
    for h in (h32, h64):
        seen = {}
        for x, y in zip(flat, h):
            t.eq(y, seen.setdefault(tuple(x), y), "equal sequences have equal hashes")


@group(P, 150)
def counting(t):
    "GetTransposeReordering and GetCountsPartitioned"
    r = rand_rag(t, num_axes=2, hi=5, maxlen=5)
    ncol = max(r.values + [0]) + t.int(1, 3)
    t.note(src=r, num_cols=ncol)
    got = H("TransposeReordering", ncol, r).vec()
    t.eq(sorted(got), list(range(len(r.values))), "a permutation")
    t.eq([r.values[i] for i in got], sorted(r.values), "sorted by column")
    d0 = t.upto(4)
    ash = rand_shape(t, num_axes=2, dim0=d0, maxlen=3)
    rows = []
    for i in range(d0):
        b, e = ash.splits[0][i], ash.splits[0][i + 1]
        rows.append([t.int(b, e - 1) for _ in range(t.upto(5))] if e > b else [])
    src = Rag(Shape(from_nested(rows, 2)[0], [t.int(0, 3)]), from_nested(rows, 2)[1])
    t.note(src2=src, answer_shape=ash)
    o = H("CountsPartitioned", src, ash)
    check_layers(t, o.layers(), ash.splits, "GetCountsPartitioned: shape")
    t.eq(o.vec(), [src.values.count(i) for i in range(ash.splits[0][-1])], "GetCountsPartitioned")
    # three axes: values increase with idx0
    ns = t.upto(3)
    nested, base = [], 0
    for _ in range(ns):
        w = t.int(1, 4)
        nested.append([[t.int(base, base + w - 1) for _ in range(t.upto(4))] for _ in range(t.upto(3))])
        base += w
    splits, lv = from_nested(nested, 3)
    t.note(src3=nested, num_cols3=base)
    if lv:
        got = H("TransposeReordering", base, Rag(Shape(splits), lv)).vec()
        t.eq(sorted(got), list(range(len(lv))), "a permutation (3 axes)")
        t.eq([lv[i] for i in got], sorted(lv), "sorted by column (3 axes)")


@group(P, 250)
def python_api(t):
    "the same through k2.RaggedTensor"
    dtype = t.choice([torch.int32, torch.float32, torch.float64])
    sh = rand_shape(t, max_axes=3)
    v, _ = values(t, sh.splits[-1][-1], "int" if dtype == torch.int32 else "float")
    if dtype == torch.int32:
        v = [max(-2**24, min(2**24, x)) for x in v]
    r = Rag(sh, v)
    x = py_rag(t, r, dtype)
    sb = subs(r)
    isf = dtype != torch.int32
    init = t.choice([None, None, 0, 3, -20])
    t.note(src=r, dtype=dtype, initial_value=init)
    low = IMIN if not isf else (-FMAX if dtype == torch.float32 else -1.7976931348623157e308)
    hig = IMAX if not isf else -low

    def kw(d):
        return {} if init is None else {"initial_value": init}
    i0 = init
    t.close(x.max(**kw(0)), [max(y + [low if i0 is None else i0]) for y in sb], "max", 1e-6)
    t.close(x.min(**kw(0)), [min(y + [hig if i0 is None else i0]) for y in sb], "min", 1e-6)
    t.close(x.sum(**kw(0)), [sum(y) + (i0 or 0) for y in sb], "sum", 1e-5)
    am = x.argmax(**kw(0)).tolist()
    p = 0
    for i, y in enumerate(sb):
        if not y or (i0 is not None and max(y) < i0):
            t.eq(am[i], -1, f"argmax of sublist {i}")
        else:
            t.ok(p <= am[i] < p + len(y) and y[am[i] - p] == max(y), f"argmax of sublist {i}: {am[i]}")
        p += len(y)
    if isf:
        tol = 2e-5 if dtype == torch.float32 else 1e-9
        t.close(x.logsumexp(**kw(0)), [logsum(y + ([] if i0 is None else [float(i0)])) for y in sb], "logsumexp", tol,
                20 * tol)
        for use_log in (True, False):
            z = x.normalize(use_log=use_log)
            t.eq([z.shape.row_splits(a).tolist() for a in range(1, z.num_axes)], sh.splits, "normalize: shape")
            got = z.values.tolist()
            p = 0
            for y in sb:
                d = logsum(y) if use_log else sum(y)
                if d > -INF and (use_log or abs(d) > 0.1):
                    t.close(got[p:p + len(y)], [q - d if use_log else q / d for q in y], f"normalize({use_log})",
                            20 * tol, 20 * tol)
                p += len(y)
    c = x.clone()
    desc, need = t.bool(), t.bool()
    m = c.sort_(descending=desc, need_new2old_indexes=need)
    t.close(c.values, [q for y in sb for q in sorted(y, reverse=desc)], "sort_", 1e-6)
    t.close(x.values, v, "the original of the clone", 1e-6)
    if need:
        t.close([v[i] for i in m.tolist()], c.values, "sort_: new2old", 1e-6)
        ids = row_ids(sh.splits[-1])
        t.eq([ids[i] for i in m.tolist()], ids, "sort_: within sublists")
    if not isf:
        r = rand_rag(t, max_axes=3, hi=2, maxlen=3)
        x = py_rag(t, r, dtype)
        t.note(unique_src=r)
        y, reps, n2o = x.unique(need_num_repeats=True, need_new2old_indexes=True)
        check_unique(t, r, [y.shape.row_splits(a).tolist() for a in range(1, y.num_axes)], y.values.tolist(),
                     reps.values.tolist(), n2o.tolist(), "unique")
        y, reps, n2o = x.unique()
        t.ok(reps is None and n2o is None, "optional results")
        check_unique(t, r, [y.shape.row_splits(a).tolist() for a in range(1, y.num_axes)], y.values.tolist(), None,
                     None, "unique")


@group([P, "C18"], 120, name="ragged_gradients")
def ragged_gradients(t):
    "derivatives of sum, logsumexp and normalize equal those of the same formula on each sublist"
    dtype = t.choice([torch.float32, torch.float64])
    tol = 2e-4 if dtype == torch.float32 else 1e-8
    sh = rand_shape(t, max_axes=3)
    n = sh.splits[-1][-1]
    v = [t.int(-24, 24) / 8 for _ in range(n)]
    r = Rag(sh, v)
    s = sh.splits[-1]
    rows = sh.tot(sh.num_axes() - 2)
    op = t.choice(["sum", "logsumexp", "normlog"])     # k2 refuses the backward pass of normalize(False)
    if op == "norm":
        v = [abs(x) + 0.5 for x in v]
        r.values = v
    t.note(src=r, op=op, dtype=dtype)
    ref = torch.tensor(v, dtype=torch.float64, requires_grad=True)
    x = py_rag(t, r, dtype)
    x.requires_grad_(True)
    parts = [ref[s[i]:s[i + 1]] for i in range(rows)]
    w = torch.tensor([t.int(-16, 16) / 8 for _ in range(n if op.startswith("norm") else rows)], dtype=torch.float64)
    if op == "sum":
        y = x.sum()
        z = torch.stack([p.sum() for p in parts]) if parts else ref.sum() * w
    elif op == "logsumexp":
        y = x.logsumexp()
        z = torch.stack([p.logsumexp(0) if len(p) else p.sum() for p in parts]) if parts else ref.sum() * w
        if any(len(p) == 0 for p in parts):
            m = torch.tensor([len(p) > 0 for p in parts])
            t.ok((y.detach()[~m] == -INF).all(), "logsumexp of an empty sublist")
            y, z, w = y[m], z[m], w[m]
    else:
        y = x.normalize(use_log=op == "normlog").values
        z = torch.cat([p.log_softmax(0) if op == "normlog" else p / p.sum() for p in parts]) if parts else ref * 1
    t.close(y.detach(), z.detach(), op, tol)
    if n == 0 or y.numel() == 0:
        t.trivial = True
        return
    (y.to(torch.float64) * w).sum().backward()
    (z * w).sum().backward()
    t.close(x.grad, ref.grad, f"gradient of {op}", tol, tol)


_ = (wrap, k2)

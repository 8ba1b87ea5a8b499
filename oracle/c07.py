"""C07: conversions, clones and re-assembly."""
import os
import pickle
import tempfile

import _k2
import k2
import torch

from oracle import fsa as A
from oracle import vh
from oracle.c02 import py_rag
from oracle.core import group

P = "C07"
ATTRS = ["aux_labels", "ids", "f_w", "r_x"]


def mk(t, vec=None, **kw):
    vec = t.bool() if vec is None else vec
    at = [a for a in ATTRS if t.bool(0.6)]
    kw.setdefault("acyclic", t.bool())
    kw.setdefault("self_loops", t.bool())
    if vec:
        fs = A.rand_vec(t, attrs=at, **kw)
        if not fs:
            at = []
        x = A.to_vec(fs)
    else:
        fs = [A.rand_fsa(t, attrs=at, **kw)]
        x = A.to_k2(fs[0])
    if t.bool():
        x.wide = torch.tensor([[i, 2.5 * i] for i in range(x.num_arcs)], dtype=torch.float64).reshape(-1, 2)
    if t.bool():
        x.symbols = "some table"
        x.foo_filler = 7
    t.note(fsas=fs, vec=vec)
    return fs, at, x, vec


def check(t, y, fs, at, x, vec, what, non=True):
    t.eq(y.arcs.num_axes(), 3 if vec else 2, what + ": number of axes")
    got = A.read_vec(y, at)
    A.same_vec(t, got, fs, what, 0)
    for k in at:
        t.eq([g.attrs[k] for g in got], [f.attrs[k] for f in fs], f"{what}: {k}")
    t.eq(sorted(n for n, _ in y.named_tensor_attr()), sorted(n for n, _ in x.named_tensor_attr()), what + ": attribute names")
    for n, v in x.named_tensor_attr():
        if isinstance(v, torch.Tensor):
            t.eq((getattr(y, n).dtype, tuple(getattr(y, n).shape)), (v.dtype, tuple(v.shape)), f"{what}: type and shape of {n}")
        t.eq(getattr(y, n).tolist(), v.tolist(), f"{what}: {n}")
    if non:
        t.eq(sorted(y.named_non_tensor_attr()), sorted(x.named_non_tensor_attr()), what + ": other attributes")
    t.eq(y.properties, x.properties, what + ": properties")


def arcs_kept(f):
    """the single-automaton tensor form does not record the states after the last one used, if it has no arcs"""
    return bool(f.arcs) and any(a[1] == f.n - 1 for a in f.arcs)


@group(P, 250)
def dictionary(t):
    """from_dict(as_dict(x)) equals x, also through torch.save"""
    fs, at, x, vec = mk(t)
    if not vec and not arcs_kept(fs[0]):
        t.trivial = True
        return
    d = x.as_dict()
    if t.bool():
        with tempfile.TemporaryDirectory() as tmp:
            f = os.path.join(tmp, "x.pt")
            dd = {k: v for k, v in d.items()}
            torch.save(dd, f)
            d = torch.load(f, weights_only=False)
    y = k2.Fsa.from_dict(d)
    check(t, y, fs, at, x, vec, "from_dict(as_dict(x))")
    check(t, x, fs, at, x, vec, "x afterwards")


@group(P, 200)
def tensor_form(t):
    """Fsa(to_tensor(x)) has the same arcs"""
    fs, at, x, vec = mk(t)
    w = k2.to_tensor(x) if t.bool() else x.arcs_as_tensor()
    t.eq(w.dtype, torch.int32, "type of the tensor form")
    if not vec:
        t.eq(w.tolist(), A.arcs_tensor(fs[0].arcs).tolist(), "tensor form of one automaton")
        if not arcs_kept(fs[0]):
            if not fs[0].arcs:
                A.same_vec(t, A.read_vec(k2.Fsa(w)), [A.F(0, [])], "automaton of no arcs")
            elif not any(a[1] == fs[0].n - 1 for a in fs[0].arcs):
                # no arc has label -1: one more state after the highest one used
                m = max(max(a[:2]) for a in fs[0].arcs)
                A.same_vec(t, A.read_vec(k2.Fsa(w)), [A.F(m + 2, fs[0].arcs)], "no arc enters the final state")
            return
    aux = x.aux_labels if "aux_labels" in at else None
    y = k2.Fsa(w, aux) if t.bool() else k2.Fsa(w.clone(), aux_labels=aux)
    A.same_vec(t, A.read_vec(y), fs, "Fsa(to_tensor(x))", 0)
    t.eq(y.arcs.num_axes(), 3 if vec else 2, "number of axes")
    if aux is not None:
        t.eq(y.aux_labels.tolist(), aux.tolist(), "aux_labels")


@group(P, 150)
def arcs_in_any_order(t):
    """arcs given as a tensor whose source states decrease, or with labels that break the rules, are refused"""
    f = A.rand_fsa(t, acyclic=t.bool(), self_loops=t.bool(), empty_ok=False)
    if not arcs_kept(f):
        t.trivial = True
        return
    arcs = list(f.arcs)
    how = t.int(0, 3)
    i = t.int(0, len(arcs) - 1)
    s, d, l, w = arcs[i]
    if how == 0:
        if len({a[0] for a in arcs}) < 2:
            t.trivial = True
            return
        while [a[0] for a in arcs] == sorted(a[0] for a in arcs):
            t.rng.shuffle(arcs)
    elif how == 1:
        arcs[i] = (s, d, -2 if l != -1 else 3, w)
        if l == -1 and not any(a[2] == -1 for a in arcs):
            t.trivial = True
            return
    elif how == 2:
        arcs[i] = (-1, d, l, w)
    else:
        arcs[i] = (s, -1 - t.int(0, 3), l if l != -1 else 1, w)
    t.note(arcs=arcs)
    t.raises(lambda: k2.Fsa(A.arcs_tensor(arcs)), "an invalid arc tensor")


@group(P, 200)
def pickled(t):
    """pickled arcs, ragged tensors and shapes come back equal"""
    if t.bool():
        fs, at, x, vec = mk(t)
        y = k2.Fsa(pickle.loads(pickle.dumps(x.arcs)))
        A.same_vec(t, A.read_vec(y), fs, "pickled RaggedArc", 0)
        t.eq(y.arcs.num_axes(), x.arcs.num_axes(), "axes")
        return
    r = rand23(t)
    dt = t.choice([torch.int32, torch.float32, torch.float64])
    x = py_rag(t, r, dt)
    t.note(rag=x.tolist(), dtype=dt)
    y = pickle.loads(pickle.dumps(x))
    t.eq((y.num_axes, y.dtype), (x.num_axes, x.dtype), "axes and type of a pickled ragged tensor")
    t.eq(y.tolist(), x.tolist(), "pickled ragged tensor")
    t.ok(x == y, "the copy compares equal")
    for a in range(1, x.num_axes):
        t.eq(y.shape.row_splits(a).tolist(), x.shape.row_splits(a).tolist(), "row splits")
    if x.shape.tot_size(x.num_axes - 2):      # text cannot show axes below an empty one
        s = k2.RaggedShape(str(x.shape))
        t.ok(s == x.shape, "a shape written as text and read back")
        for a in range(1, s.num_axes):
            t.eq(s.row_splits(a).tolist(), x.shape.row_splits(a).tolist(), "row splits of a shape read back")
            t.eq(s.row_ids(a).tolist(), x.shape.row_ids(a).tolist(), "row ids of a shape read back")
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, "r.pt")
        torch.save(x, f)
        z = torch.load(f, weights_only=False)
        t.eq(z.tolist(), x.tolist(), "ragged tensor saved to a file")


def rand23(t):
    return vh.rand_rag(t, max_axes=3)


@group(P, 200)
def clones(t):
    """a clone has equal contents and does not share its data; a detached copy has equal contents"""
    fs, at, x, vec = mk(t)
    if t.bool():
        x.requires_grad_(True)
    if t.bool() and all(A.is_acyclic(f) and all(a[0] < a[1] for a in f.arcs) for f in fs) and vec and fs:
        x.get_tot_scores(t.bool(), t.bool())        # fill the cache
    y = x.clone()
    check(t, y, fs, at, x, vec, "clone")
    t.eq(y.requires_grad, x.requires_grad, "requires_grad of a clone")
    z = x.detach()
    check(t, z, fs, at, x, vec, "detached copy")
    t.ok(not z.requires_grad, "a detached copy does not track gradients")
    if not x.num_arcs:
        return
    before = A.snapshot(x)
    new = torch.tensor([A.score(t) - 20 for _ in range(x.num_arcs)], dtype=torch.float32)
    lab = torch.tensor([a[2] if a[2] == -1 else a[2] + 1 for f in fs for a in f.arcs], dtype=torch.int32)
    steps = ["scores", "labels", "inplace", "attr"]
    t.rng.shuffle(steps)
    for s in steps:
        if s == "scores":
            y.scores = new.clone()
        elif s == "labels":
            y.labels = lab.clone()
        elif s == "inplace" and not y.requires_grad:
            y.scores[0] += 100
            y.arcs.values()[0, 3] = 17
        elif s == "attr":
            for n, v in list(y.named_tensor_attr(include_scores=False)):
                if isinstance(v, torch.Tensor):
                    v.zero_()
                elif v.values.numel():
                    v.values.add_(1)
            y.more = new
            y.other = 3
        t.eq(A.snapshot(x), before, f"the original after changing its clone ({steps})")
    t.eq(y.labels.tolist(), lab.tolist(), "labels of the changed clone")
    check(t, z, fs, at, x, vec, "detached copy afterwards")


@group(P, 150)
def ragged_clones(t):
    """a cloned ragged tensor is equal and independent"""
    r = rand23(t)
    x = py_rag(t, r, t.choice([torch.int32, torch.float32, torch.float64]))
    y = x.clone()
    t.eq(y.tolist(), x.tolist(), "clone")
    t.ok(y == x and y.dtype == x.dtype, "equality of a clone")
    before = x.tolist()
    if x.values.numel():
        y.values.add_(1)
        t.eq(x.tolist(), before, "the original after changing its clone")
        t.ok(not (x == y), "a changed clone is different")
    t.eq(x.to("cpu").tolist(), before, "to(cpu)")


@group(P, 250)
def split_join(t):
    """x[i] is the i-th member, and create_fsa_vec puts members together"""
    fs, at, x, vec = mk(t, vec=True)
    ys = []
    for i in range(len(fs)):
        y = x[i]
        t.eq(y.arcs.num_axes(), 2, "axes of x[i]")
        g = A.read(y, at)
        A.same_arcs(t, g, fs[i], f"x[{i}]", 0)
        t.eq(g.attrs, {k: fs[i].attrs[k] for k in at}, f"attributes of x[{i}]")
        if hasattr(x, "wide"):
            b = sum(len(f.arcs) for f in fs[:i])
            t.eq(y.wide.tolist(), x.wide[b:b + len(fs[i].arcs)].tolist(), "two-dimensional attribute")
        t.eq(sorted(y.named_non_tensor_attr()), sorted(x.named_non_tensor_attr()), "other attributes")
        ys.append(y)
    t.raises(lambda: x[len(fs)], "x[number of members]")
    t.raises(lambda: x[-1], "x[-1]")
    if not ys:
        return
    z = k2.create_fsa_vec(ys)
    check(t, z, fs, at, x, True, "create_fsa_vec of all members")
    # any selection, in any order
    ix = [t.int(0, len(fs) - 1) for _ in range(t.int(1, 4))]
    z = k2.create_fsa_vec([ys[i] for i in ix])
    A.same_vec(t, A.read(z, at), [fs[i] for i in ix], f"create_fsa_vec of members {ix}", 0)
    g = A.read(z, at)
    for k in at:
        t.eq([a.attrs[k] for a in g], [fs[i].attrs[k] for i in ix], f"{k} of members {ix}")


@group(P, 250)
def index_and_cat(t):
    """index_fsa selects members (also repeated) and cat joins vectors, with their attributes"""
    fs, at, x, vec = mk(t, vec=True)
    if fs:
        ix = [t.int(0, len(fs) - 1) for _ in range(t.int(0, 4))]
        y = k2.ops.index_fsa(x, A.i32(ix))
        g = A.read(y, at)
        want = [fs[i] for i in ix]
        A.same_vec(t, g, want, f"index_fsa {ix}", 0)
        for k in at:
            t.eq([a.attrs[k] for a in g], [f.attrs[k] for f in want], f"{k} after index_fsa {ix}")
        t.eq(sorted(y.named_non_tensor_attr()), sorted(x.named_non_tensor_attr()), "other attributes after index_fsa")
        if t.bool() and want:
            z = k2.cat([x, y]) if t.bool() else k2.cat([x, y, x])
            allf = fs + want + (fs if z.shape[0] > len(fs) + len(want) else [])
            g = A.read(z, at)
            A.same_vec(t, g, allf, "cat", 0)
            for k in at:
                t.eq([a.attrs[k] for a in g], [f.attrs[k] for f in allf], f"{k} after cat")
    # vectors with different attributes: the common ones are kept
    gs = A.rand_vec(t, lo=1, attrs=["aux_labels"] + (["other"] if t.bool() else []))
    hs = A.rand_vec(t, lo=1, attrs=["aux_labels", "f_q"])
    a, b = A.to_vec(gs), A.to_vec(hs)
    a.sym, b.sym, b.sym2 = 1, 2, 3
    t.note(gs=gs, hs=hs)
    z = k2.cat([a, b])
    g = A.read(z, ["aux_labels"])
    A.same_vec(t, g, gs + hs, "cat of different vectors", 0)
    t.eq([q.attrs["aux_labels"] for q in g], [q.attrs["aux_labels"] for q in gs + hs], "aux_labels after cat")
    t.eq(sorted(n for n, _ in z.named_tensor_attr()), ["aux_labels", "scores"], "common attributes after cat")
    t.eq(dict(z.named_non_tensor_attr()), dict(sym=1, sym2=3), "other attributes after cat")


@group(P, 200)
def renaming(t):
    """rename_tensor_attribute_ moves values, symbols and fillers, and nothing else"""
    fs, at, x, vec = mk(t)
    if "aux_labels" not in at:
        t.trivial = True
        return
    x.ids_sym, x.aux_labels_sym = "a", "b"
    before = x.aux_labels.tolist()
    x.rename_tensor_attribute_("aux_labels", "moved")
    t.eq(x.moved.tolist(), before, "renamed attribute")
    t.ok(not hasattr(x, "aux_labels"), "the old name is gone")
    t.eq(getattr(x, "moved_sym", None), "b", "symbols follow")
    t.eq(x.ids_sym, "a", "other symbols stay")
    A.same_vec(t, A.read_vec(x), fs, "arcs after renaming", 0)


def rand_dense(t):
    n, T, C = t.int(1, 3), t.int(1, 4), t.int(1, 4)
    lp = torch.tensor([[[A.score(t) for _ in range(C)] for _ in range(T)] for _ in range(n)], dtype=torch.float32)
    seg, extra = [], t.int(0, 2)
    for _ in range(t.int(1, 4)):
        s = t.int(0, T - 1)
        seg.append((t.int(0, n - 1), s, t.int(0, T - s + extra)))
    t.note(log_probs=lp.tolist(), segments=seg, allow_truncate=extra)
    return lp, seg, extra, n, T, C


@group(P, 200)
def dense(t):
    """DenseFsaVec holds exactly the frames of each segment, and converts to the automata they stand for"""
    lp, seg, extra, n, T, C = rand_dense(t)
    d = k2.DenseFsaVec(lp, torch.tensor(seg, dtype=torch.int32), allow_truncate=extra)
    rows, splits, dur = [], [0], []
    for q, s, k in seg:
        e = min(s + k, T)
        for f in range(s, e):
            rows.append([A.NEG] + lp[q, f].tolist())
        rows.append([0.0] + [A.NEG] * C)
        splits.append(len(rows))
        dur.append(e - s)
    t.close(d.scores, rows, "scores of the dense vector", 0)
    t.eq(d.dense_fsa_vec.shape().row_splits(1).tolist(), splits, "frames of each segment")
    t.eq(d.dense_fsa_vec.scores_dim1(), C + 1, "columns kept in C++")
    t.eq(d.duration.tolist(), dur, "durations")
    t.eq(d.dim0(), len(seg), "number of segments")
    w = d.to("cpu")
    t.close(w.scores, rows, "to(cpu)", 0)
    want = []
    for q, s, k in seg:
        e = min(s + k, T)
        arcs = []
        for f in range(s, e):
            arcs += [(f - s, f - s + 1, c + 1 - 1, lp[q, f, c].item()) for c in range(C)]
        arcs.append((e - s, e - s + 1, -1, 0.0))
        want.append(A.F(e - s + 2, arcs))
    y = k2.convert_dense_to_fsa_vec(d)
    A.same_vec(t, A.read(y), want, "convert_dense_to_fsa_vec", 0)
    t.close(d.scores, rows, "dense vector afterwards", 0)
    bad = list(seg)
    q, s, k = bad[0]
    bad[0] = t.choice([(n, s, k), (q, T, 1), (q, s, T - s + extra + 1), (-1, s, k), (q, -1, 1)])
    t.raises(lambda: k2.DenseFsaVec(lp, torch.tensor(bad, dtype=torch.int32), allow_truncate=extra), f"segments {bad}")

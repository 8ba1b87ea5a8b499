"""C15: union, closure, reversal, inversion, expansion and replacement."""
import itertools

import _k2
import k2
import torch

from oracle import fsa as A
from oracle import vh
from oracle.core import group

P = "C15"
H = vh.Harness("C15")
ATTRS = ["ids", "f_w"]


def gen(t, acyclic=True, attrs=(), **kw):
    kw.setdefault("max_states", 5)
    kw.setdefault("max_arcs", 7)
    kw.setdefault("empty_ok", False)
    if t.bool(0.05):
        return A.fill(t, A.F(t.int(2, 3), []), attrs)
    return A.rand_fsa(t, acyclic=acyclic, self_loops=not acyclic, attrs=attrs, shuffle_states=t.bool(0.3), **kw)


def mapped(g, m, cap=3000, max_len=None):
    """complete paths as sequences of input arcs (added arcs left out) -> how often"""
    ps = A.paths(g, max_len, cap)
    if ps is None:
        return None
    r = {}
    for p in ps:
        k = tuple(m[i] for i in p if m[i] >= 0)
        r[k] = r.get(k, 0) + 1
    return r


def src_paths(f, base=0, max_len=None, cap=3000):
    ps = A.paths(f, max_len, cap)
    return None if ps is None else [tuple(base + i for i in p) for p in ps]


def added(t, a, what, label=0):
    t.eq((a[2], a[3]), (label, 0.0), f"{what}: an added arc has no label and no score")


def kept(t, a, b, fin, what):
    """output arc a comes from input arc b; fin: final arcs lose the -1"""
    t.eq(a[2], 0 if fin and b[2] == -1 else b[2], f"{what}: label of an arc")
    t.eq(a[3], b[3], f"{what}: score of an arc")


def attrs_ok(t, x, fs, m, names, what):
    for k in names:
        v = [e for f in fs for e in f.attrs[k]]
        t.eq(A.attr_list(getattr(x, k)), [v[i] if i >= 0 else 0 for i in m], f"{what}: {k}")


def gradient_ok(t, x, y, m):
    """gradients follow the arc map"""
    if not y.num_arcs:
        return
    c = [t.int(-8, 8) / 2 for _ in range(y.num_arcs)]
    (torch.tensor(c) * y.scores).sum().backward()
    w = [0.0] * x.num_arcs
    for i, k in zip(m, c):
        if i >= 0:
            w[i] += k
    t.close(x.grad, w, "gradient", 1e-5)


@group(P, 300)
def union(t):
    """union accepts exactly the paths of any member"""
    at = ATTRS if t.bool() else []
    fs = [gen(t, t.bool(0.8), at) for _ in range(t.int(1, 4))]
    t.note(fsas=fs)
    rg = t.bool()
    x = A.to_vec(fs, rg)
    x.tag = 3
    y = k2.union(x)
    t.eq(y.tag, 3, "other attributes")
    _, m = _k2.union(x.arcs, True)
    m = m.tolist()
    g = A.read(y)
    A.well_formed(t, g, "result")
    src = [a for f in fs for a in f.arcs]
    t.eq(sorted(i for i in m if i >= 0), list(range(len(src))), "every input arc appears once")
    for a, i in zip(g.arcs, m):
        if i < 0:
            added(t, a, "result")
        else:
            kept(t, a, src[i], False, "result")
    attrs_ok(t, y, fs, m, at, "result")
    off, want = 0, {}
    for f in fs:
        for p in src_paths(f, off, 5) or []:
            want[p] = 1
        off += len(f.arcs)
    got = mapped(g, m, max_len=6)
    if got is not None:
        t.eq(sorted(got.items()), sorted(want.items()), "paths")
    if rg:
        gradient_ok(t, x, y, m)


@group(P, 300)
def closure(t):
    """closure accepts exactly the concatenations of zero or more paths"""
    at = (ATTRS if t.bool() else []) + (["aux_labels"] if t.bool() else [])
    f = gen(t, t.bool(0.8), at, max_states=4, max_arcs=5)
    t.note(fsa=f)
    rg = t.bool()
    x = A.to_k2(f, rg)
    x.tag = 3
    y = k2.closure(x)
    _, m = _k2.closure(x.arcs, True)
    m = m.tolist()
    g = A.read(y)
    A.well_formed(t, g, "result")
    t.eq(y.tag, 3, "other attributes")
    t.eq(sorted(i for i in m if i >= 0), list(range(len(f.arcs))), "every input arc appears once")
    for a, i in zip(g.arcs, m):
        if i < 0:
            added(t, a, "result", -1)
        else:
            kept(t, a, f.arcs[i], True, "result")
    attrs_ok(t, y, [f], m, [k for k in at if k != "aux_labels"], "result")
    if "aux_labels" in at:
        v = f.attrs["aux_labels"]
        t.eq(y.aux_labels.tolist(), [-1 if i < 0 else 0 if f.arcs[i][2] == -1 else v[i] for i in m], "aux_labels")
    L = 6
    base = src_paths(f, 0, L)
    got = mapped(g, m, max_len=L + 1)
    if got is None or base is None:
        return
    want, cur = {(): 1}, [()]
    while cur:
        nxt = []
        for c in cur:
            for p in base:
                if len(c) + len(p) <= L:
                    nxt.append(c + p)
                    want[c + p] = want.get(c + p, 0) + 1
        cur = nxt
        if len(want) > 3000:
            return
    if any(a[1] == 0 for a in f.arcs) and got != want:
        # listed finding: the documented construction re-uses the start state, so a
        # path that came back to it counts as complete.  Check that construction.
        t.known["closure-entered-start"] = True
        n = f.n - 1
        c = A.F(f.n, [(0, n, -1, 0.0)] + [(a[0], 0 if a[1] == n else a[1], 1, 0.0) for a in f.arcs])
        want = mapped(c, [-1] + list(range(len(f.arcs))), max_len=L + 1)
        if want is None:
            return
    t.eq(sorted(got.items()), sorted(want.items()), "paths of bounded length")
    if rg:
        gradient_ok(t, x, y, m)


@group(P, 300)
def reverse(t):
    """reverse accepts exactly the reversed paths"""
    at = ATTRS if t.bool() else []
    vec = t.bool()
    fs = [gen(t, t.bool(0.8), at, empty_ok=t.bool(0.2)) for _ in range(t.int(1, 4) if vec else 1)]
    t.note(fsas=fs, vec=vec)
    rg = t.bool()
    x = A.to_vec(fs, rg) if vec else A.to_k2(fs[0], rg)
    x.tag = 3
    y = k2.reverse(x)
    t.eq(y.tag, 3, "other attributes")
    t.eq(len(y.shape), len(x.shape), "axes")
    _, m = _k2.reverse(x.arcs, True)
    m = m.tolist()
    gs = A.read_vec(y)
    t.eq(len(gs), len(fs), "members")
    attrs_ok(t, y, fs, m, at, "result")
    src = [a for f in fs for a in f.arcs]
    t.eq(sorted(i for i in m if i >= 0), list(range(len(src))), "every input arc appears once")
    k = off = 0
    for g, f in zip(gs, fs):
        A.well_formed(t, g, "result")
        mm = m[k:k + len(g.arcs)]
        k += len(g.arcs)
        for a, i in zip(g.arcs, mm):
            if i < 0:
                added(t, a, "result", -1)
            else:
                kept(t, a, src[i], True, "result")
        want, got = src_paths(f, off, 5), mapped(g, mm, max_len=6)
        if want is not None and got is not None:
            t.eq(sorted(got.items()), sorted((p[::-1], 1) for p in want), "paths")
        off += len(f.arcs)
    if rg:
        gradient_ok(t, x, y, m)


@group(P, 250)
def invert(t):
    """invert exchanges labels and output labels and nothing else"""
    vec = t.bool()
    at = ["aux_labels", "ids", "f_w", "r_x"]
    fs = [gen(t, False, at, empty_ok=True) for _ in range(t.int(1, 4) if vec else 1)]
    t.note(fsas=fs, vec=vec)
    x = A.to_vec(fs) if vec else A.to_k2(fs[0])
    x.aux_labels_extra, x.labels_extra, x.tag = 11, 22, 33
    in_place = t.bool()
    before = A.read_vec(x, at)
    if in_place:
        y = x.clone()
        y.properties
        t.ok(y.invert_() is y, "invert_ returns the object")
    elif t.bool():
        y = k2.invert(x)
    else:
        y, m = k2.invert(x, ret_arc_map=True)
        t.eq(m.tolist(), list(range(x.num_arcs)), "arc map")
    if not in_place:
        A.same_vec(t, A.read_vec(x, at), before, "the input")
        t.eq(x.aux_labels.tolist(), [v for f in fs for v in f.attrs["aux_labels"]], "output labels of the input")
    gs = A.read_vec(y, at)
    t.eq(len(gs), len(fs), "members")
    for g, f in zip(gs, fs):
        A.well_formed(t, g, "result")
        t.eq(g.n, f.n, "states")
        for i, (a, b) in enumerate(zip(g.arcs, f.arcs)):
            t.eq((a[0], a[1], a[3]), (b[0], b[1], b[3]), "an arc")
            t.eq(a[2], f.attrs["aux_labels"][i], "label")
            t.eq(g.attrs["aux_labels"][i], b[2], "output label")
        t.eq(len(g.arcs), len(f.arcs), "arcs")
        for k in at[1:]:
            t.eq(g.attrs[k], f.attrs[k], k)
    z = y.invert()
    A.same_vec(t, A.read_vec(z), fs, "inverting twice")
    bad = A.to_k2(A.rand_fsa(t, empty_ok=False))
    t.raises(lambda: bad.invert_(), "inverting an acceptor")


def rag_aux(t, f, minus=True):
    """ragged output labels; final arcs end in -1 (always, or sometimes)"""
    r = []
    for a in f.arcs:
        v = [t.int(1, 9) for _ in range(t.choice([0, 0, 1, 1, 2, 3]))]
        if a[2] == -1 and (minus or t.bool()):
            v.append(-1)
        r.append(v)
    return r


def check_chain(t, g, f, m, base, names, g_lab, f_lab, what):
    """g is f with arcs turned into chains; m: where each output arc's score came from; g_lab, f_lab: the ragged attributes'
    values of the output arcs / lists of the input arcs"""
    A.well_formed(t, g, what)
    ps, want = A.paths(g, None, 2000), A.paths(f, None, 2000)
    if ps is None or want is None:
        return
    drop = lambda v: [e for e in v if e not in (0, -1)]
    bag = {}
    for p in ps:
        k = (tuple(drop(A.path_labels(g, p))), tuple(m[i] - base for i in p if m[i] >= 0)) + tuple(
            tuple(drop([g_lab[q][i] for i in p])) for q in range(len(f_lab)))
        bag.setdefault(k, []).append(A.path_score(g, p))
        for i in p:
            if m[i] < 0:
                t.eq(g.arcs[i][3], 0.0, f"{what}: the score is on one arc of a chain")
            else:
                t.eq(g.arcs[i][3], f.arcs[m[i] - base][3], f"{what}: score of the arc that carries it")
    ref = {}
    for p in want:
        k = (tuple(drop(A.path_labels(f, p))), tuple(p)) + tuple(
            tuple(drop([e for i in p for e in f_lab[q][i]])) for q in range(len(f_lab)))
        ref.setdefault(k, []).append(A.path_score(f, p))
    t.eq(sorted(bag), sorted(ref), f"{what}: paths (labels, arcs, output labels)")
    for k in ref:
        t.close(sorted(bag[k]), sorted(ref[k]), f"{what}: scores of {k}", 1e-5)


@group(P, 300)
def expand(t):
    """ragged attributes become chains of arcs with one value each and the score on one of them"""
    vec = t.bool()
    fs = [gen(t, True, ["ids", "f_w"], empty_ok=True) for _ in range(t.int(1, 3) if vec else 1)]
    nr = t.int(1, 2)
    rags = [[rag_aux(t, f, t.bool()) for f in fs] for _ in range(nr)]
    names = ["aux_labels", "other"][:nr]
    only = t.bool(0.3) and nr == 2
    t.note(fsas=fs, ragged=rags, vec=vec, only_first=only)
    rg = t.bool()
    x = A.to_vec(fs, rg) if vec else A.to_k2(fs[0], rg)
    for k, r in zip(names, rags):
        v = [e for q in r for e in q]
        setattr(x, k, k2.RaggedTensor(v) if v else k2.RaggedTensor("[ ]", dtype=torch.int32) if False else
                k2.RaggedTensor(k2.ragged.create_ragged_shape2(torch.zeros(1, dtype=torch.int32)), torch.zeros(0, dtype=torch.int32)))
    x.tag = 5
    y, m = k2.expand_ragged_attributes(x, ret_arc_map=True, ragged_attribute_names=names[:1] if only else None)
    m = m.tolist()
    t.eq(y.tag, 5, "other attributes")
    gs = A.read_vec(y)
    t.eq(len(gs), len(fs), "members")
    nl = names[:1] if only else names
    cols = [getattr(y, k).tolist() for k in nl]
    ids = [v for f in fs for v in f.attrs["ids"]]
    fw = [v for f in fs for v in f.attrs["f_w"]]
    t.eq(y.ids.tolist(), [ids[i] if i >= 0 else 0 for i in m], "ids")
    t.eq(y.f_w.tolist(), [fw[i] if i >= 0 else 0.0 for i in m], "f_w")
    if only:
        r = [e for q in rags[1] for e in q]
        t.eq(y.other.tolist(), [r[i] if i >= 0 else [] for i in m], "the attribute that stays ragged")
    k = base = 0
    lab = [a[2] for g in gs for a in g.arcs]
    for c in cols:
        for l, v in zip(lab, c):
            t.eq(v == -1, l == -1, "-1 exactly on final arcs")
    for i, (g, f) in enumerate(zip(gs, fs)):
        e = k + len(g.arcs)
        check_chain(t, g, f, m[k:e], base, nl, [c[k:e] for c in cols], [rags[q][i] for q in range(len(nl))], f"member {i}")
        k, base = e, base + len(f.arcs)
    if rg:
        gradient_ok(t, x, y, m)
    z = k2.expand_ragged_attributes(x, ragged_attribute_names=names[:1] if only else None)
    A.same_vec(t, A.read_vec(z), gs, "without an arc map")


@group(P, 150)
def invert_ragged(t):
    """inverting with ragged output labels: paths with labels and output labels exchanged"""
    vec = t.bool()
    fs = [gen(t, True, ["ids"], empty_ok=False) for _ in range(t.int(1, 3) if vec else 1)]
    rags = [rag_aux(t, f) for f in fs]
    t.note(fsas=fs, aux_labels=rags, vec=vec)
    x = A.to_vec(fs) if vec else A.to_k2(fs[0])
    flat = [e for q in rags for e in q]
    if flat:
        x.aux_labels = k2.RaggedTensor(flat)
        y, m = k2.invert(x, ret_arc_map=True)
        gs, aux, m = A.read_vec(y), y.aux_labels.tolist(), m.tolist()
        k = base = 0
        for i, (g, f) in enumerate(zip(gs, fs)):
            e = k + len(g.arcs)
            h = A.F(g.n, [(a[0], a[1], l, a[3]) for a, l in zip(g.arcs, aux[k:e])])
            check_chain(t, h, f, m[k:e], base, ["aux"], [[a[2] for a in g.arcs]], [rags[i]], f"member {i}")
            k, base = e, base + len(f.arcs)
    if not flat:
        t.trivial = True
        return
    # the C++ functions (host and device)
    sp = [0]
    for r in flat:
        sp.append(sp[-1] + len(r))
    for host in (0, 1):
        o = H("Invert", [host], *A.harness_args(fs, vec), vh.Shape([sp]), [e for r in flat for e in r])
        gs = A.harness_read(o)
        gs = gs if vec else [gs]
        asp = o.layers()[0][0]
        av = o.vec()
        k = 0
        bag = []
        for i, (g, f) in enumerate(zip(gs, fs)):
            A.well_formed(t, g, "inverted")
            ps, want = A.paths(g, None, 2000), A.paths(f, None, 2000)
            n = len(g.arcs)
            if ps is not None and want is not None:
                drop = lambda v: tuple(e for e in v if e not in (0, -1))
                got = sorted((drop(A.path_labels(g, p)), drop(sum((av[asp[k + j]:asp[k + j + 1]] for j in p), [])),
                              round(A.path_score(g, p), 4)) for p in ps)
                ref = sorted((drop(sum((rags[i][j] for j in p), [])), drop(A.path_labels(f, p)),
                              round(A.path_score(f, p), 4)) for p in want)
                t.eq(got, ref, f"paths of member {i} (host={host})")
            k += n


@group(P, 350)
def replace(t):
    """each arc with a replaceable label becomes exactly the paths of the automaton it names"""
    begin = t.int(1, 4)
    nsrc = t.int(1, 3)
    at = ["f_w"] if t.bool() else []
    at_i = at + (["ids"] if t.bool() else [])
    src = [gen(t, True, at, max_states=4, max_arcs=4, empty_ok=t.bool(0.2)) if t.bool(0.85) else A.fill(t, A.F(0, []), at) for _ in range(nsrc)]
    vec = t.bool()
    idx = [gen(t, t.bool(0.8), at_i, max_states=4, max_arcs=5, labels=6, empty_ok=t.bool(0.2)) for _ in range(t.int(1, 3) if vec else 1)]
    t.note(src=src, index=idx, begin=begin, vec=vec)
    rg = t.bool()
    xs, xi = A.to_vec(src, rg), A.to_vec(idx, rg) if vec else A.to_k2(idx[0], rg)
    xs.tag_s, xi.tag_i = 1, 2
    y, mi, ms = k2.replace_fsa(xs, xi, begin, ret_arc_map=True)
    t.eq(len(y.shape), len(xi.shape), "axes")
    t.eq((y.tag_s, y.tag_i), (1, 2), "other attributes")
    mi, ms = mi.tolist(), ms.tolist()
    gs = A.read_vec(y)
    t.eq(len(gs), len(idx), "members")
    fi, fsrc = [a for f in idx for a in f.arcs], [a for f in src for a in f.arcs]
    t.eq(sorted(i for i in mi if i >= 0), list(range(len(fi))), "every arc of the index appears once")
    if at:
        wi, ws = [v for f in idx for v in f.attrs["f_w"]], [v for f in src for v in f.attrs["f_w"]]
        t.close(y.f_w, [(wi[i] if i >= 0 else 0) + (ws[j] if j >= 0 else 0) for i, j in zip(mi, ms)], "f_w", 1e-5)
    if "ids" in at_i:
        v = [v for f in idx for v in f.attrs["ids"]]
        t.eq(y.ids.tolist(), [v[i] if i >= 0 else 0 for i in mi], "ids")
    soff = [0]
    for f in src:
        soff.append(soff[-1] + len(f.arcs))
    sub = [src_paths(f, soff[q], None, 500) for q, f in enumerate(src)]
    k = base = 0
    for g, f in zip(gs, idx):
        e = k + len(g.arcs)
        A.well_formed(t, g, "result")
        for a, i, j in zip(g.arcs, mi[k:e], ms[k:e]):
            t.ok((i >= 0) != (j >= 0), "an output arc comes from the index or from src")
            if i >= 0:
                b = fi[i]
                t.eq(a[2:], (0 if begin <= b[2] < begin + nsrc else b[2], b[3]), "label and score of an arc of the index")
            else:
                kept(t, a, fsrc[j], True, "an arc of src")
        L = 4
        want = []
        big = any(s is None for s in sub)
        for p in src_paths(f, base, L) or []:
            opts = []
            for i in p:
                l = fi[i][2]
                if begin <= l < begin + nsrc:
                    q = l - begin
                    opts.append([(("i", i),)] if src[q].n == 0 else [] if big else
                                [(("i", i),) + tuple(("s", j) for j in sp) for sp in sub[q]])
                else:
                    opts.append([(("i", i),)])
            n = 1
            for o in opts:
                n *= len(o)
            if n > 500:
                big = True
                break
            want += [sum(c, ()) for c in itertools.product(*opts)]
        ps = A.paths(g, None if A.is_acyclic(f) else L * 4 + 4, 3000)
        if not big and ps is not None and len(want) < 3000:
            key = lambda p: tuple(("i", mi[k + x]) if mi[k + x] >= 0 else ("s", ms[k + x]) for x in p)
            got = sorted(key(p) for p in ps)
            got = [p for p in got if sum(1 for x in p if x[0] == "i") <= L]
            t.eq(got, sorted(want), "paths")
        k, base = e, base + len(f.arcs)
    if rg and y.num_arcs:
        c = [t.int(-8, 8) / 2 for _ in range(y.num_arcs)]
        (torch.tensor(c) * y.scores).sum().backward()
        for x, m in ((xi, mi), (xs, ms)):
            w = [0.0] * x.num_arcs
            for i, v in zip(m, c):
                if i >= 0:
                    w[i] += v
            if x.num_arcs:
                t.close(x.grad, w, "gradient", 1e-5)

"""C12: intersection with dense scores."""
import _k2
import k2
import torch

from oracle import fsa as A
from oracle import dense as D
from oracle.core import group

P = "C12"


def setup(t, inf=0.0, grad=False, attrs=("ids", "r_x", "f_w")):
    T, C = t.int(1, 4), t.int(1, 3)
    nq = t.int(1, 3)
    lp = D.rand_scores(t, nq, T, C, inf)
    segs = []
    for _ in range(t.int(1, 4)):
        s = t.int(0, T - 1)
        segs.append((t.int(0, nq - 1), s, t.int(0, T - s) if t.bool(0.2) else t.int(1, T - s)))
    segs.sort(key=lambda x: -x[2])
    if t.bool():
        m = None
        n = len(segs)
        mp = list(range(n))
    else:
        n = t.int(1, 4)
        mp = sorted(t.int(0, len(segs) - 1) for _ in range(n))
        m = A.i32(mp)
    fs = [D.graph(t, C, attrs) for _ in range(n)]
    t.note(graphs=fs, scores=lp, segments=segs, a_to_b_map=mp)
    x, d = D.dense_vec(lp, segs, grad)
    return fs, lp, segs, m, mp, x, d, C


def decode(t, fs, lp, segs, m, mp, d, C, beam, exact, **kw):
    a = A.to_vec(fs)
    a.tag = 9
    y = k2.intersect_dense(a, d, output_beam=beam, a_to_b_map=m, seqframe_idx_name="seqframe", frame_idx_name="frame", **kw)
    ra, ma, mb = _k2.intersect_dense(a_fsas=a.arcs, b_fsas=d.dense_fsa_vec,
                                     a_to_b_map=m if m is not None else None, output_beam=beam,
                                     max_states=kw.get("max_states", 15000000), max_arcs=kw.get("max_arcs", 1 << 30))
    got = A.read(y)
    t.eq(len(got), len(fs), "members")
    A.same_vec(t, A.read(k2.Fsa(ra)), got, "C++ result")
    ma, mb = ma.tolist(), mb.tolist()
    rs, off = D.row_starts(segs), D.offsets(fs)
    k = 0
    for i, g in enumerate(got):
        e = k + len(g.arcs)
        lat = D.Lattice(fs[i], D.rows_of(lp, segs[mp[i]]))
        D.check_lattice(t, g, fs[i], lat, [j - off[i] for j in ma[k:e]], mb[k:e], rs[mp[i]], C + 1, f"lattice {i}",
                        None if exact else beam)
        if g.n and g.arcs:
            t.eq(A.useful(g), set(range(g.n)), f"lattice {i}: every state is useful")
        k = e
    t.eq(k, len(ma), "all arcs belong to a member")
    if y.num_arcs or True:
        t.eq(y.seqframe.tolist(), [j // (C + 1) for j in mb], "seqframe")
        bases = {}
        for q, b in enumerate(rs[:-1]):
            for r in range(b, rs[q + 1]):
                bases[r] = r - b
        t.eq(y.frame.tolist(), [bases[j // (C + 1)] for j in mb], "frame")
    ids = a.ids.tolist() if hasattr(a, "ids") else None
    if ids is not None:
        t.eq(y.ids.tolist(), [ids[j] for j in ma], "integer attribute")
        r = a.r_x.tolist()
        t.eq(y.r_x.tolist(), [r[j] for j in ma], "ragged attribute")
        w = a.f_w.tolist()
        t.eq(y.f_w.tolist(), [w[j] for j in ma], "float attribute")
    t.eq(y.tag, 9, "other attributes")
    return y, got, ma, mb


@group(P, 500)
def exact(t):
    """with a wide beam the lattice has exactly the paths emitting one label per frame"""
    fs, lp, segs, m, mp, x, d, C = setup(t)
    decode(t, fs, lp, segs, m, mp, d, C, 1000.0, True)


@group(P, 250)
def impossible_labels(t):
    """labels with score -inf are never used"""
    fs, lp, segs, m, mp, x, d, C = setup(t, inf=0.25)
    decode(t, fs, lp, segs, m, mp, d, C, 1000.0, True)


@group(P, 400)
def beam(t):
    """with a narrow beam exactly the arcs on a path within the beam of the best remain"""
    fs, lp, segs, m, mp, x, d, C = setup(t)
    decode(t, fs, lp, segs, m, mp, d, C, t.choice([0.1, 0.6, 1.1, 2.1, 4.1]), False)


@group(P, 150)
def alone(t):
    """each sequence of a batch is handled as if it were alone"""
    fs, lp, segs, m, mp, x, d, C = setup(t)
    b = t.choice([0.6, 2.1, 1000.0])
    y = A.read(k2.intersect_dense(A.to_vec(fs), d, output_beam=b, a_to_b_map=m))
    for i in range(len(fs)):
        _, d1 = D.dense_vec(lp, [segs[mp[i]]])
        z = A.read(k2.intersect_dense(A.to_vec([fs[i]]), d1, output_beam=b))
        A.same_vec(t, [y[i]], z, f"sequence {i} alone")


@group(P, 120)
def limits(t):
    """limits on states or arcs keep the best path and the most likely part"""
    fs, lp, segs, m, mp, x, d, C = setup(t, attrs=())
    a = A.to_vec(fs)
    full = k2.intersect_dense(a, d, output_beam=1000.0, a_to_b_map=m)
    ns, na = full.arcs.shape().tot_size(1), full.num_arcs
    lats = [D.Lattice(f, D.rows_of(lp, segs[mp[i]])) for i, f in enumerate(fs)]
    need = sum(len(l.rows) + 1 for l in lats if l.best > A.NEG)
    # limits that the best paths alone meet (ties aside)
    tot = {}
    for i, l in enumerate(lats):
        tot[i] = len(l.paths(l.arcs(0.05)) or {})
    if any(v > 1 for v in tot.values()):
        t.trivial = True
        return
    lim = t.int(need + 2, max(need + 2, ns))
    y = k2.intersect_dense(a, d, output_beam=1000.0, a_to_b_map=m, max_states=lim)
    t.ok(y.arcs.shape().tot_size(1) <= lim, f"states with max_states={lim}")
    got = A.read(y)
    for i, (g, l) in enumerate(zip(got, lats)):
        t.close(A.total(g, False) if g.n else A.NEG, l.best, f"best score of sequence {i} with max_states={lim}")


@group(P, 200)
def gradient(t):
    """gradients of lattice scores reach the graph scores and the frame scores they came from"""
    fs, lp, segs, m, mp, x, d, C = setup(t, grad=True, attrs=())
    a = A.to_vec(fs, True)
    y = k2.intersect_dense(a, d, output_beam=1000.0, a_to_b_map=m)
    if not y.num_arcs:
        t.trivial = True
        return
    _, ma, mb = _k2.intersect_dense(a_fsas=a.arcs, b_fsas=d.dense_fsa_vec, a_to_b_map=m, output_beam=1000.0,
                                    max_states=15000000, max_arcs=1 << 30)
    c = [t.int(-8, 8) / 2 for _ in range(y.num_arcs)]
    (torch.tensor(c) * y.scores).sum().backward()
    ga = [0.0] * a.num_arcs
    gb = [[[0.0] * C for _ in range(len(lp[0]))] for _ in lp]
    rs = D.row_starts(segs)
    for w, i, j in zip(c, ma.tolist(), mb.tolist()):
        ga[i] += w
        r, col = divmod(j, C + 1)
        if col == 0:
            continue
        q = max(k for k in range(len(segs)) if rs[k] <= r)
        gb[segs[q][0]][segs[q][1] + r - rs[q]][col - 1] += w
    t.close(a.grad, ga, "gradient of the graph scores", 1e-5)
    t.close(x.grad, gb, "gradient of the frame scores", 1e-5)


@group(P, 60)
def order(t):
    """sequences that are not in order of decreasing length are refused"""
    T, C = 4, 2
    lp = D.rand_scores(t, 1, T, C)
    k = t.int(1, 3)
    segs = [(0, 0, k), (0, 0, k + 1)]
    _, d = D.dense_vec(lp, segs)
    fs = [D.graph(t, C) for _ in range(2)]
    t.raises(lambda: k2.intersect_dense(A.to_vec(fs), d, output_beam=10.0), "sequences of increasing length")
    segs = segs[::-1]
    _, d = D.dense_vec(lp, segs)
    t.raises(lambda: k2.intersect_dense(A.to_vec(fs), d, output_beam=10.0, a_to_b_map=A.i32([1, 0])), "decreasing a_to_b_map")

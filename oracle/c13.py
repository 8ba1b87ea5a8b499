"""C13: pruned and online intersection with dense scores."""
import _k2
import k2
import torch

from oracle import fsa as A
from oracle import dense as D
from oracle.core import group

P = "C13"
WIDE = dict(search_beam=1000.0, min_active_states=0, max_active_states=100000)


def setup(t, Tmax=5, nq=3, grad=False, attrs=("ids", "r_x", "f_w"), inf=0.0, C=None, zero_ok=True, **kw):
    T, C = t.int(1, Tmax), C or t.int(1, 3)
    nq = t.int(1, nq)
    lp = D.rand_scores(t, nq, T, C, inf)
    segs = []
    for _ in range(t.int(1, 4)):
        s = t.int(0, T - 1)
        segs.append((t.int(0, nq - 1), s, t.int(0, T - s) if zero_ok and t.bool(0.1) else t.int(1, T - s)))
    shared = t.bool()
    fs = [D.graph(t, C, attrs, **kw) for _ in range(1 if shared else len(segs))]
    t.note(graphs=fs, scores=lp, segments=segs)
    x, d = D.dense_vec(lp, segs, grad)
    return fs, lp, segs, x, d, C


def decode(t, fs, lp, segs, d, C, beam, **kw):
    """run; check every output arc against its sources; gives the members, their graph arcs and score entries"""
    a = A.to_vec(fs)
    a.tag = 9
    y = k2.intersect_dense_pruned(a, d, output_beam=beam, seqframe_idx_name="seqframe", frame_idx_name="frame", **kw)
    raw = dict(kw, output_beam=beam)
    raw.setdefault("allow_partial", False)
    ra, ma, mb = _k2.intersect_dense_pruned(a_fsas=a.arcs, b_fsas=d.dense_fsa_vec, **raw)
    got = A.read(y)
    t.eq(len(got), len(segs), "members")
    t.eq([(g.n, g.arcs) for g in A.read(k2.Fsa(ra))], [(g.n, g.arcs) for g in got], "C++ result")
    ma, mb = ma.tolist(), mb.tolist()
    t.eq(y.seqframe.tolist(), [j // (C + 1) for j in mb], "seqframe")
    rs = D.row_starts(segs)
    fr = []
    for j in mb:
        r = j // (C + 1)
        q = max(k for k in range(len(segs)) if rs[k] <= r)
        fr.append(r - rs[q])
    t.eq(y.frame.tolist(), fr, "frame")
    if hasattr(a, "ids"):
        ids, w, r = a.ids.tolist(), a.f_w.tolist(), a.r_x.tolist()
        if not kw.get("allow_partial"):
            t.eq(y.ids.tolist(), [ids[j] for j in ma], "integer attribute")
            t.eq(y.f_w.tolist(), [w[j] for j in ma], "float attribute")
            t.eq(y.r_x.tolist(), [r[j] for j in ma], "ragged attribute")
    t.eq(y.tag, 9, "other attributes")
    off = D.offsets(fs)
    res, k = [], 0
    for i, g in enumerate(got):
        e = k + len(g.arcs)
        b = off[i if len(fs) > 1 else 0]
        res.append((g, [j - b if j >= 0 else -1 for j in ma[k:e]], mb[k:e]))
        k = e
    t.eq(k, len(ma), "all arcs belong to a member")
    return y, res, ma, mb


def lattices(fs, lp, segs):
    return [D.Lattice(fs[i if len(fs) > 1 else 0], D.rows_of(lp, s)) for i, s in enumerate(segs)]


@group(P, 450)
def wide(t):
    """with wide beams the paths are those of the exact intersection"""
    fs, lp, segs, x, d, C = setup(t, inf=t.choice([0, 0, 0.25]))
    _, res, _, _ = decode(t, fs, lp, segs, d, C, 1000.0, **WIDE)
    rs = D.row_starts(segs)
    for i, ((g, ids, bm), l) in enumerate(zip(res, lattices(fs, lp, segs))):
        D.check_lattice(t, g, l.f, l, ids, bm, rs[i], C + 1, f"lattice {i}")


@group(P, 400)
def output_beam(t):
    """only the output beam prunes: the arcs on a path within the beam of the best remain"""
    fs, lp, segs, x, d, C = setup(t)
    b = t.choice([0.1, 0.6, 1.1, 2.1, 4.1])
    _, res, _, _ = decode(t, fs, lp, segs, d, C, b, **WIDE)
    rs = D.row_starts(segs)
    for i, ((g, ids, bm), l) in enumerate(zip(res, lattices(fs, lp, segs))):
        D.check_lattice(t, g, l.f, l, ids, bm, rs[i], C + 1, f"lattice {i}", beam=b)


def check_part(t, g, l, ids, bm, row0, C, what, sbeam, obeam):
    """every path is a path of the exact lattice with its score; those that no beam can drop are there"""
    A.well_formed(t, g, what)
    rows = l.rows
    for (s, d_, lab, sc), i, b in zip(g.arcs, ids, bm):
        r = b // (C + 1) - row0
        t.ok(0 <= r < len(rows), f"{what}: score row {r}")
        t.eq(lab, l.f.arcs[i][2], f"{what}: label")
        t.close(sc, l.f.arcs[i][3] + rows[r][lab + 1], f"{what}: arc score", 1e-4)
    ps = A.paths(g, None, 3000)
    full = l.paths()
    if ps is None or full is None:
        return
    got = {}
    for p in ps:
        t.eq([bm[i] // (C + 1) - row0 for i in p], list(range(len(rows))), f"{what}: one arc per frame, in order")
        k = tuple(ids[i] for i in p)
        t.ok(k not in got, f"{what}: path {k} appears once")
        t.ok(k in full, f"{what}: path {k} is a path of the exact lattice")
        got[k] = A.path_score(g, p)
        t.close(got[k], full[k], f"{what}: score of path {k}", 1e-4)
    if sbeam is None:
        return
    top = [max(f.values(), default=A.NEG) for f in l.fw]
    for k, x in full.items():
        if x < l.best - obeam:
            continue
        y, ok = 0.0, True
        for q, i in enumerate(k):
            y += l.f.arcs[i][3] + rows[q][l.f.arcs[i][2] + 1]
            if q + 1 < len(rows) and y < top[q + 1] - sbeam:
                ok = False
                break
        if ok:
            t.ok(k in got, f"{what}: path {k}, within both beams, is kept")


@group(P, 350)
def search_beam(t):
    """narrow search beams drop paths but never invent or change one; what is within them stays"""
    fs, lp, segs, x, d, C = setup(t, Tmax=9)
    sb, ob = t.choice([0.3, 1.1, 2.1, 4.1]), t.choice([0.6, 2.1, 1000.0])
    lim = t.bool()
    kw = dict(search_beam=sb, min_active_states=t.int(0, 2), max_active_states=t.int(3, 5)) if lim else dict(
        search_beam=sb, min_active_states=0, max_active_states=100000)
    t.note(kw=kw, output_beam=ob)
    _, res, _, _ = decode(t, fs, lp, segs, d, C, ob, **kw)
    rs = D.row_starts(segs)
    for i, ((g, ids, bm), l) in enumerate(zip(res, lattices(fs, lp, segs))):
        check_part(t, g, l, ids, bm, rs[i], C, f"lattice {i}", None if lim else sb, ob)


@group(P, 40)
def long(t):
    """many frames (pruned window by window): best path and totals stay exact; arcs within the beam remain"""
    T, C = t.int(18, 75), 2
    lp = D.rand_scores(t, 2, T, C)
    segs = []
    for _ in range(t.int(1, 3)):
        s = t.int(0, 3)
        segs.append((t.int(0, 1), s, t.int(1, T - s)))
    fs = [D.graph(t, C, ()) for _ in segs]
    ob = t.choice([1000.0, 2.1, 6.1])
    t.note(graphs=fs, segments=segs, output_beam=ob)
    x, d = D.dense_vec(lp, segs)
    y, res, _, _ = decode(t, fs, lp, segs, d, C, ob, **WIDE)
    rs = D.row_starts(segs)
    n = 0
    for i, ((g, ids, bm), l) in enumerate(zip(res, lattices(fs, lp, segs))):
        check_part(t, g, l, ids, bm, rs[i], C, f"lattice {i}", None, ob) if len(l.rows) < 8 else None
        A.well_formed(t, g, f"lattice {i}")
        have = {}
        for (s, d_, lab, sc), k, b in zip(g.arcs, ids, bm):
            r = b // (C + 1) - rs[i]
            t.close(sc, l.f.arcs[k][3] + l.rows[r][lab + 1], f"lattice {i}: arc score", 1e-4)
            t.ok((r, k) not in have, f"lattice {i}: arc {k} at frame {r} once")
            have[(r, k)] = 1
        if l.best == A.NEG:
            t.eq(A.total(g, False) if g.n else A.NEG, A.NEG, f"lattice {i}: no path")
            continue
        t.close(A.total(g, False), l.best, f"lattice {i}: best score", 2e-3)
        for k in l.arcs(ob):
            t.ok(k in have, f"lattice {i}: arc {k[1]} at frame {k[0]}, within the beam, is kept")
            n += 1
        ex = l.arcs(1e9)
        for k in have:
            if A.useful(g) == set(range(g.n)):
                t.ok(k in ex, f"lattice {i}: arc {k[1]} at frame {k[0]} is on a path of the exact lattice")
    t.trivial = n == 0


@group(P, 150)
def alone(t):
    """each sequence of a batch is handled as if it were alone"""
    fs, lp, segs, x, d, C = setup(t, Tmax=7)
    kw = dict(search_beam=t.choice([0.6, 2.1, 1000.0]), min_active_states=t.int(0, 2), max_active_states=t.choice([3, 1000]))
    b = t.choice([1.1, 1000.0])
    y = A.read(k2.intersect_dense_pruned(A.to_vec(fs), d, output_beam=b, **kw))
    for i, s in enumerate(segs):
        _, d1 = D.dense_vec(lp, [s])
        f = fs[i if len(fs) > 1 else 0]
        z = A.read(k2.intersect_dense_pruned(A.to_vec([f]), d1, output_beam=b, **kw))
        A.same_vec(t, [y[i]], z, f"sequence {i} alone")


@group(P, 150)
def gradient(t):
    """gradients of lattice scores reach the graph scores and the frame scores they came from"""
    fs, lp, segs, x, d, C = setup(t, grad=True, attrs=())
    a = A.to_vec(fs, True)
    kw = dict(WIDE, output_beam=t.choice([1.1, 1000.0]))
    y = k2.intersect_dense_pruned(a, d, **kw)
    if not y.num_arcs:
        t.trivial = True
        return
    _, ma, mb = _k2.intersect_dense_pruned(a_fsas=a.arcs, b_fsas=d.dense_fsa_vec, allow_partial=False, **kw)
    c = [t.int(-8, 8) / 2 for _ in range(y.num_arcs)]
    (torch.tensor(c) * y.scores).sum().backward()
    ga = [0.0] * a.num_arcs
    gb = [[[0.0] * C for _ in range(len(lp[0]))] for _ in lp]
    rs = D.row_starts(segs)
    for w, i, j in zip(c, ma.tolist(), mb.tolist()):
        ga[i] += w
        r, col = divmod(j, C + 1)
        if col == 0:
            continue
        q = max(k for k in range(len(segs)) if rs[k] <= r)
        gb[segs[q][0]][segs[q][1] + r - rs[q]][col - 1] += w
    t.close(a.grad, ga, "gradient of the graph scores", 1e-5)
    t.close(x.grad, gb, "gradient of the frame scores", 1e-5)


@group(P, 150)
def partial(t):
    """with allow_partial a sequence that has a complete path is as without; one that has none gives real prefixes"""
    fs, lp, segs, x, d, C = setup(t, attrs=(), zero_ok=False, final_p=0.3)
    _, res, _, _ = decode(t, fs, lp, segs, d, C, 1000.0, allow_partial=True, **WIDE)
    rs = D.row_starts(segs)
    for i, ((g, ids, bm), l) in enumerate(zip(res, lattices(fs, lp, segs))):
        if l.best > A.NEG:
            D.check_lattice(t, g, l.f, l, ids, bm, rs[i], C + 1, f"lattice {i}")
            continue
        ps = A.paths(g, None, 2000) or []
        for p in ps:
            s = 0
            t.eq([bm[k] // (C + 1) - rs[i] for k in p], list(range(len(l.rows))), f"lattice {i}: one arc per frame, in order")
            for q, k in enumerate(p[:-1]):
                a = l.f.arcs[ids[k]]
                t.eq(a[0], s, f"lattice {i}: arcs follow one another in the graph")
                t.close(g.arcs[k][3], a[3] + l.rows[q][a[2] + 1], f"lattice {i}: arc score", 1e-4)
                s = a[1]


def cuts(t, T):
    r = []
    while T:
        r.append(t.int(1, T))
        T -= r[-1]
    return r


def online(t, f, lp, plan, kw, C):
    """plan: list of calls, each a list of (stream, frames); gives the last lattice of each stream.
    Streams new to a call are given None"""
    g = A.to_vec([f])
    g.tag = 5
    n = max(len(c) for c in plan)
    it = {}
    states, pos, last = {}, {}, {}
    for call in plan:
        k = len(call)
        if k not in it:
            it[k] = k2.OnlineDenseIntersecter(g, k, **kw)
        T = max(c for _, c in call)
        x = torch.zeros(k, T, C)
        for q, (s, c) in enumerate(call):
            p = pos.get(s, 0)
            x[q, :c] = torch.tensor(lp[s][p:p + c])
        d = k2.DenseFsaVec(x, torch.tensor([[q, 0, c] for q, (_, c) in enumerate(call)], dtype=torch.int32))
        st = [states.get(s) or k2.DecodeStateInfo() for s, _ in call]
        lat, new = it[k].decode(d, st)
        t.eq(len(new), k, "states returned")
        t.eq(lat.tag, 5, "other attributes")
        attrs = [n for n in ("ids", "f_w") if hasattr(g, n)]
        for q, (s, c) in enumerate(call):
            states[s] = new[q]
            pos[s] = pos.get(s, 0) + c
            last[s] = (A.read(lat[q], attrs), pos[s])
            check_online(t, f, lp, s, *last[s], kw, f"stream {s} after {pos[s]} frames", attrs)
    return last


def check_online(t, f, lp, s, g, T, kw, what, attrs):
    """the lattice so far is that of the frames so far"""
    g = g[0] if isinstance(g, list) else g
    A.well_formed(t, g, what)
    l = D.Lattice(f, D.rows_of(lp, (s, 0, T)))
    if l.best == A.NEG:
        if not kw.get("allow_partial", True):
            t.eq(A.total(g, False) if g.n > 1 else A.NEG, A.NEG, f"{what}: no path")
        return
    ps, want = A.paths(g, None, 3000), l.paths()
    if ps is None or want is None:
        return
    ids = f.attrs["ids"] if attrs else None
    bag = {}
    for p in ps:
        k = tuple((g.arcs[i][2], round(g.arcs[i][3], 3)) + ((g.attrs["ids"][i],) if attrs else ()) for i in p)
        bag[k] = bag.get(k, 0) + 1
    ref = {}
    for p in want:
        k = tuple((f.arcs[i][2], round(f.arcs[i][3] + l.rows[q][f.arcs[i][2] + 1], 3)) + ((ids[i],) if attrs else ())
                  for q, i in enumerate(p))
        ref[k] = ref.get(k, 0) + 1
    if kw["search_beam"] >= 1000 and kw["output_beam"] >= 1000:
        t.eq(sorted(bag.items()), sorted(ref.items()), f"{what}: paths")
    else:
        for k, v in bag.items():
            t.ok(v <= ref.get(k, 0), f"{what}: path {k} is a path of the exact lattice")
        if kw["search_beam"] >= 1000:
            t.close(A.total(g, False), l.best, f"{what}: best score", 1e-3)


def plan_of(t, n, T):
    """calls in which some of the streams move on by one common number of frames (or less where a stream ends)"""
    left = {s: t.int(1, T) for s in range(n)}
    plan = []
    while left:
        who = [s for s in left if t.bool(0.6)] or [t.choice(sorted(left))]
        if t.bool():
            who.reverse()
        c = t.int(1, max(left[s] for s in who))
        plan.append([(s, min(c, left[s])) for s in who])
        for s, m in plan[-1]:
            left[s] -= m
            if not left[s]:
                del left[s]
    return plan


@group(P, 350)
def chunks(t):
    """any cutting into chunks and any interleaving of streams gives the lattice of all frames"""
    C, n = t.int(1, 3), t.int(1, 3)
    lp = D.rand_scores(t, n, 6, C)
    f = D.graph(t, C, ("ids", "f_w") if t.bool() else (), max_states=3)
    if not f.n:
        t.trivial = True
        return
    plan = plan_of(t, n, 6)
    kw = dict(search_beam=t.choice([1000.0, 1000.0, 3.1]), output_beam=t.choice([1000.0, 1000.0, 1.1]), min_active_states=0,
              max_active_states=100000, allow_partial=t.bool())
    if kw["search_beam"] < 1000:  # the states that could end here may be pruned away
        kw["allow_partial"] = False
    t.note(graph=f, plan=plan, kw=kw, scores=lp)
    online(t, f, lp, plan, kw, C)


@group(P, 20)
def long_chunks(t):
    """streams with many frames"""
    C, n, T = 2, t.int(1, 2), t.int(30, 60)
    lp = D.rand_scores(t, n, T, C)
    f = D.graph(t, C, (), max_states=3)
    if not f.n:
        t.trivial = True
        return
    plan = plan_of(t, n, T)
    kw = dict(search_beam=1000.0, output_beam=t.choice([1000.0, 3.1]), min_active_states=0, max_active_states=100000)
    t.note(graph=f, plan=plan, kw=kw)
    last = online_last(t, f, lp, plan, kw, C)
    for s, (g, T) in last.items():
        l = D.Lattice(f, D.rows_of(lp, (s, 0, T)))
        if l.best > A.NEG:
            t.close(A.total(g, False), l.best, f"stream {s}: best score", 3e-3)
            if kw["output_beam"] >= 1000:
                _, d = D.dense_vec(lp, [(s, 0, T)])
                y = A.read(k2.intersect_dense_pruned(A.to_vec([f]), d, output_beam=1000.0, **WIDE))[0]
                t.close(A.total(g, True), A.total(y, True), f"stream {s}: log total equals the one of all frames at once", 5e-3)


def online_last(t, f, lp, plan, kw, C):
    g = A.to_vec([f])
    it, states, pos, last = {}, {}, {}, {}
    for call in plan:
        k = len(call)
        if k not in it:
            it[k] = k2.OnlineDenseIntersecter(g, k, **kw)
        T = max(c for _, c in call)
        x = torch.zeros(k, T, C)
        for q, (s, c) in enumerate(call):
            p = pos.get(s, 0)
            x[q, :c] = torch.tensor(lp[s][p:p + c])
        d = k2.DenseFsaVec(x, torch.tensor([[q, 0, c] for q, (_, c) in enumerate(call)], dtype=torch.int32))
        lat, new = it[k].decode(d, [states.get(s) or k2.DecodeStateInfo() for s, _ in call])
        for q, (s, c) in enumerate(call):
            states[s] = new[q]
            pos[s] = pos.get(s, 0) + c
            last[s] = (A.read(lat[q]), pos[s])
    return {s: (g[0] if isinstance(g, list) else g, T) for s, (g, T) in last.items()}

"""Frame scores as plain lists, and the lattice an automaton makes with them."""
from collections import Counter

import k2
import torch

from oracle import fsa as A


def rand_scores(t, n, T, C, inf=0.0):
    return [[[A.NEG if t.rng.random() < inf else t.int(-12, 4) / 4 for _ in range(C)] for _ in range(T)] for _ in range(n)]


def dense_vec(lp, segs, grad=False):
    x = torch.tensor(lp, dtype=torch.float32)
    if grad:
        x.requires_grad_(True)
    return x, k2.DenseFsaVec(x, torch.tensor(segs, dtype=torch.int32))


def rows_of(lp, seg):
    """score rows of one segment: column 0 is the final symbol"""
    q, s, k = seg
    C = len(lp[0][0])
    return [[A.NEG] + list(lp[q][f]) for f in range(s, s + k)] + [[0.0] + [A.NEG] * C]


def row_starts(segs):
    r = [0]
    for _, _, k in segs:
        r.append(r[-1] + k + 1)
    return r


class Lattice:
    """what an automaton makes with the rows: forward/backward by state and frame, and all paths"""

    def __init__(self, f, rows):
        self.f, self.rows = f, rows
        T = len(rows)
        fw = [{0: 0.0}] if f.n else [{}]
        for r in rows:
            nx = {}
            for s, x in fw[-1].items():
                for i in f.out(s):
                    _, d, l, w = f.arcs[i]
                    y = x + w + (r[l + 1] if l + 1 < len(r) else A.NEG)
                    if y > A.NEG and y > nx.get(d, A.NEG):
                        nx[d] = y
            fw.append(nx)
        bw = [None] * (T + 1)
        bw[T] = {f.n - 1: 0.0} if f.n else {}
        for t in range(T - 1, -1, -1):
            cur = {}
            for i, (s, d, l, w) in enumerate(f.arcs):
                if d in bw[t + 1]:
                    y = bw[t + 1][d] + w + (rows[t][l + 1] if l + 1 < len(rows[t]) else A.NEG)
                    if y > A.NEG and y > cur.get(s, A.NEG):
                        cur[s] = y
            bw[t] = cur
        self.fw, self.bw = fw, bw
        self.best = fw[T].get(f.n - 1, A.NEG) if f.n else A.NEG

    def arcs(self, beam):
        """(frame, arc) -> score of the best complete path through it, for those within beam of the best"""
        res = {}
        for t, r in enumerate(self.rows):
            for i, (s, d, l, w) in enumerate(self.f.arcs):
                if s in self.fw[t] and d in self.bw[t + 1]:
                    y = self.fw[t][s] + w + r[l + 1] + self.bw[t + 1][d]
                    if y > A.NEG and y >= self.best - beam:
                        res[(t, i)] = y
        return res

    def paths(self, keep=None, cap=1500):
        """complete paths as tuples of arcs -> score (only through the kept (frame, arc) pairs); None if too many"""
        res = {}
        stack = [((), 0, 0.0)]
        T = len(self.rows)
        if self.best == A.NEG:
            return res
        while stack:
            p, s, x = stack.pop()
            k = len(p)
            if k == T:
                if s == self.f.n - 1:
                    res[p] = x
                    if len(res) > cap:
                        return None
                continue
            for i in self.f.out(s):
                _, d, l, w = self.f.arcs[i]
                y = x + w + self.rows[k][l + 1]
                if y > A.NEG and d in self.bw[k + 1] and (keep is None or (k, i) in keep):
                    stack.append((p + (i,), d, y))
            if len(stack) > 20 * cap:
                return None
        return res


def check_lattice(t, g, f, lat, ids, bmap, row0, cols, what, beam=None, tol=1e-4):
    """the output automaton g is the lattice of f with the rows; ids: graph arc of each output arc (relative to f), bmap:
    entry of the scores each output arc used"""
    A.well_formed(t, g, what)
    for a, i, b in zip(g.arcs, ids, bmap):
        t.ok(0 <= i < len(f.arcs), f"{what}: graph arc {i}")
        src = f.arcs[i]
        r = b // cols - row0
        t.ok(0 <= r < len(lat.rows), f"{what}: score row {r} belongs to the sequence")
        t.eq(b % cols, src[2] + 1, f"{what}: column of the scores")
        t.eq(a[2], src[2], f"{what}: label")
        t.close(a[3], src[3] + lat.rows[r][src[2] + 1], f"{what}: score of an arc", tol)
    if beam is None:
        want = lat.paths()
    else:
        want = lat.paths(lat.arcs(beam))
    ps = A.paths(g, None, 3000)
    if want is None or ps is None:
        return
    got = {}
    for p in ps:
        t.eq([bmap[i] // cols - row0 for i in p], list(range(len(lat.rows))), f"{what}: one arc per frame, in order")
        key = tuple(ids[i] for i in p)
        t.ok(key not in got, f"{what}: path {key} appears once")
        got[key] = A.path_score(g, p)
    t.eq(sorted(got), sorted(want), f"{what}: paths")
    for k in want:
        t.close(got[k], want[k], f"{what}: score of path {k}", tol)


def offsets(fs):
    o = [0]
    for f in fs:
        o.append(o[-1] + len(f.arcs))
    return o


def graph(t, C, attrs=(), **kw):
    """a random decoding graph with labels below C"""
    if t.bool(0.05):
        return A.fill(t, A.F(t.choice([0, 2]), []), attrs)
    kw.setdefault("max_states", 4)
    kw.setdefault("max_arcs", 7)
    if C == 1:
        kw["eps"], kw["labels"] = 1.0, 1
        f = A.rand_fsa(t, acyclic=t.bool(0.3), self_loops=True, sorted_=True, **kw)
        f = A.F(f.n, [(a, b, min(c, 0), d) for a, b, c, d in f.arcs])
        return A.fill(t, A.F(f.n, sorted(f.arcs, key=A.arc_key)), attrs)
    f = A.rand_fsa(t, acyclic=t.bool(0.3), self_loops=True, sorted_=True, labels=C - 1, **kw)
    return A.fill(t, f, attrs)

"""C24: streaming transducer decoding."""
import hashlib

import k2
import torch

from oracle import fsa as A
from oracle.core import group

P = "C24"
EPS = 2e-4


class Ambiguous(Exception):
    pass


class Ref:
    """one stream: the documented steps, on dictionaries"""

    def __init__(self, graph, cfg):
        self.g, self.cfg = graph, cfg
        self.active = {(0, 0): 0.0}      # (context number, graph state) -> best score
        self.frames = []                 # per frame: list of (src, dst, label, score, graph arc)

    def contexts(self):
        V, h = self.cfg["V"], self.cfg["h"]
        out = []
        for c in sorted({c for c, _ in self.active}):
            out.append([c // V ** (h - 1 - i) % V for i in range(h)])
        return out

    def prune(self, scores, limit):
        if not scores:
            return set()
        best, beam = max(scores.values()), self.cfg["beam"]
        order = sorted(scores, key=lambda k: -scores[k])
        for k in order:
            if abs(scores[k] - (best - beam)) < EPS:
                raise Ambiguous
        keep = [k for k in order if scores[k] > best - beam]
        if limit > 0 and len(keep) > limit:
            if scores[keep[limit - 1]] - scores[keep[limit]] < EPS:
                raise Ambiguous
            keep = keep[:limit]
        return set(keep)

    def advance(self, lp):
        """lp: dict context (tuple) -> list of V log-probabilities"""
        V, h, beam = self.cfg["V"], self.cfg["h"], self.cfg["beam"]
        ctx = dict(zip(sorted({c for c, _ in self.active}), self.contexts()))
        top = max(self.active.values()) if self.active else 0.0
        arcs = []
        for (c, s), sc in sorted(self.active.items()):
            if s == self.g.n - 1:
                continue
            p = lp[tuple(ctx[c])]
            arcs.append(((c, s), (c, s), 0, p[0], -1, sc + p[0]))
            for k in self.g.out(s):
                _, d, l, w = self.g.arcs[k]
                if l != 0:
                    z = sc + w + (p[l] if l != -1 else 0.0)
                    if abs(z - (top - beam)) < EPS:
                        raise Ambiguous
                    if z < top - beam:
                        continue
                q = p[0 if l == -1 else l]
                c2 = c % V ** (h - 1) * V + l if l > 0 else c
                arcs.append(((c, s), (c2, d), l, w + q, k, sc + w + q))
        best = {}
        for a in arcs:
            best[a[1]] = max(best.get(a[1], -1e30), a[5])
        keep = self.prune(best, self.cfg["max_states"])
        cs = {}
        for k in keep:
            cs[k[0]] = max(cs.get(k[0], -1e30), best[k])
        kc = self.prune(cs, self.cfg["max_contexts"])
        keep = {k for k in keep if k[0] in kc}
        self.frames.append([a[:5] for a in arcs if a[1] in keep])
        self.active = {k: best[k] for k in keep}

    def lattice(self, T, partial):
        """(all complete paths as lists of (label, score, graph arc)), None if too many"""
        if T == 0:
            return []
        fr = self.frames[:T]
        last = [a for a in fr[-1] if a[2] == -1]
        if not last and partial:
            last = fr[-1]
        cur = {(0, 0): [()]}
        for f in fr[:-1]:
            nx = {}
            for s, d, l, w, k in f:
                for p in cur.get(s, []):
                    nx.setdefault(d, []).append(p + ((max(l, 0), w, k),))
            cur = nx
            if sum(map(len, cur.values())) > 3000:
                return None
        out = []
        for s, d, l, w, k in last:
            out += [p + ((-1, 0.0, -1),) for p in cur.get(s, [])]
        return out


def logprobs(seed, t, ctx, V, scale):
    h = hashlib.sha256(repr((seed, t, tuple(ctx))).encode()).digest()
    g = torch.Generator().manual_seed(int.from_bytes(h[:6], "big"))
    x = torch.log_softmax(torch.randn(V, generator=g) * scale, 0)
    return x


def rand_graph(t, V):
    k = t.int(0, 4)
    if k == 0:
        x = k2.trivial_graph(V - 1)
    elif k == 1:
        x = k2.ctc_topo(V - 1, modified=t.bool())
    else:
        f = A.rand_fsa(t, max_states=t.int(2, 5), max_arcs=9, labels=V - 1, eps=t.choice([0.0, 0.2]), self_loops=True, acyclic=t.bool(0.3), connected=t.bool(0.6))
        if f.n < 2:
            f = A.F(2, [(0, 0, 1, 0.3), (0, 1, -1, 0.0)])
        x = A.to_k2(f)
        return x
    if "aux_labels" in x._tensor_attr:
        del x._tensor_attr["aux_labels"]
    x.scores = torch.tensor([A.score(t) for _ in range(x.num_arcs)])
    return x


def set_attrs(t, x):
    names = {}
    n = x.num_arcs
    if t.bool(0.6):
        x.f_a = torch.tensor([A.score(t) for _ in range(n)])
        names["f_a"] = x.f_a.tolist()
    if t.bool(0.6):
        x.i_b = torch.tensor([t.int(0, 50) for _ in range(n)], dtype=torch.int32)
        x.i_b_filler = 7
        names["i_b"] = x.i_b.tolist()
    if t.bool(0.6):
        x.i_c = torch.tensor([t.int(0, 50) for _ in range(n)], dtype=torch.int32)
        x.i_c_filler = -3
        names["i_c"] = x.i_c.tolist()
    if t.bool(0.5):
        x.r_d = k2.RaggedTensor([[t.int(0, 9) for _ in range(t.int(0, 2))] for _ in range(n)], dtype=torch.int32)
        names["r_d"] = x.r_d.tolist()
    return names


FILL = {"f_a": 0.0, "i_b": 7, "i_c": -3, "r_d": []}


def lattice_paths(f, cap=20000):
    out, stack = [], [(0, ())]
    while stack:
        s, p = stack.pop()
        for k in f.out(s):
            if f.arcs[k][2] == -1:
                out.append(p + (k,))
            else:
                stack.append((f.arcs[k][1], p + (k,)))
        if len(out) > cap:
            return None
    return out


def config(t):
    V = t.int(2, 5)
    return dict(V=V, h=t.int(1, 3), beam=t.choice([0.7, 2.0, 4.0, 8.0, 30.0]), max_states=t.choice([0, 1, 2, 3, 5, 50]), max_contexts=t.choice([0, 1, 2, 3, 50]))


def kconfig(c):
    return k2.RnntDecodingConfig(c["V"], c["h"], c["beam"], c["max_states"], c["max_contexts"])


def run_session(t, cfg, kstreams, refs, seeds, clocks, T, scale, record=None, lp=None):
    """advance a batch of streams T frames, comparing the contexts before every frame"""
    S = k2.RnntDecodingStreams(kstreams, kconfig(cfg))
    prob = lp or (lambda seed, u, ctx: logprobs(seed, u, ctx, cfg["V"], scale))
    for u in range(T):
        shape, ctx = S.get_contexts()
        want = [r.contexts() for r in refs]
        sp = shape.row_splits(1).tolist()
        got = [ctx[sp[i]:sp[i + 1]].tolist() for i in range(len(refs))]
        t.eq(got, want, f"contexts of the streams before frame {u}")
        lp = [{tuple(c): prob(seeds[i], clocks[i], c) for c in w} for i, w in enumerate(want)]
        rows = [lp[i][tuple(c)] for i, w in enumerate(want) for c in w]
        x = torch.stack(rows) if rows else torch.zeros(0, cfg["V"])
        if record is not None:
            record.append((x, sp))
        S.advance(x)
        for i, r in enumerate(refs):
            r.advance({c: v.double().tolist() for c, v in lp[i].items()})
            clocks[i] += 1
    shape, ctx = S.get_contexts()
    t.eq(ctx.tolist(), [c for r in refs for c in r.contexts()], "contexts at the end")
    S.terminate_and_flush_to_streams()
    return S


def check_output(t, S, refs, nf, partial, attrs, out=None):
    x = S.format_output(nf, partial) if out is None else out
    t.eq(x.shape[0], len(refs), "number of lattices")
    names = sorted({n for a in attrs for n in a})
    got = A.read_vec(x, names)
    allp = []
    for i, (r, f) in enumerate(zip(refs, got)):
        want = r.lattice(nf[i], partial)
        if want is None:
            allp.append(None)
            continue
        ps = lattice_paths(f)
        t.ok(ps is not None, "too many paths")
        at = lambda k: tuple(repr(f.attrs[n][k]) for n in names)

        def wat(k):
            return tuple(repr(type_of(n, attrs[i][n][k] if k >= 0 and n in attrs[i] else FILL[n])) for n in names)
        g = sorted((tuple((f.arcs[k][2],) + at(k) for k in p), round(sum(f.arcs[k][3] for k in p), 3), tuple(round(f.arcs[k][3], 3) for k in p)) for p in ps)
        w = sorted((tuple((l,) + wat(k) for l, sc, k in p), round(sum(sc for l, sc, k in p), 3), tuple(round(sc, 3) for l, sc, k in p)) for p in want)
        t.eq([p[0] for p in g], [p[0] for p in w], f"paths (labels, attributes) of stream {i}, {nf[i]} frames")
        for a, b in zip(sorted(g, key=lambda z: (z[0], z[1])), sorted(w, key=lambda z: (z[0], z[1]))):
            t.close(a[1], b[1], f"path score in stream {i}", 1e-3, 5e-3)
        allp.append(g)
        # surviving arcs, dead ends included
        fr = r.frames[:nf[i]]
        t.eq(sorted(a[2] for a in f.arcs if a[2] != -1), sorted(max(a[2], 0) for fr_ in fr[:-1] for a in fr_), f"arcs of stream {i}")
    return x


def type_of(n, v):
    return float(torch.tensor(v, dtype=torch.float32)) if n == "f_a" else v


@group(P, 140, thorough=2000, name="one_session")
def one_session(t):
    cfg = config(t)
    N, T = t.int(1, 4), t.int(1, 6)
    gs = [rand_graph(t, cfg["V"]) for _ in range(N)]
    attrs = [set_attrs(t, x) for x in gs]
    scale = t.choice([1.0, 3.0])
    seeds = [t.int(0, 10 ** 6) for _ in range(N)]
    refs = [Ref(A.read(x), cfg) for x in gs]
    t.note(config=cfg, graphs=[(r.g.n, r.g.arcs) for r in refs], attrs=attrs, T=T)
    try:
        S = run_session(t, cfg, [k2.RnntDecodingStream(x) for x in gs], refs, seeds, [0] * N, T, scale)
    except Ambiguous:
        return
    nf = [T] * N if t.bool() else [t.int(1, T) for _ in range(N)]
    partial = t.bool()
    t.note(num_frames=nf, allow_partial=partial)
    check_output(t, S, refs, nf, partial, attrs)


@group(P, 60, thorough=800, name="sessions")
def sessions(t):
    """streams joining, leaving and changing places between sessions"""
    cfg = config(t)
    N = t.int(2, 4)
    gs = [rand_graph(t, cfg["V"]) for _ in range(N)]
    attrs = [set_attrs(t, x) for x in gs]
    seeds = [t.int(0, 10 ** 6) for _ in range(N)]
    refs = [Ref(A.read(x), cfg) for x in gs]
    ks = [k2.RnntDecodingStream(x) for x in gs]
    clocks = [0] * N
    t.note(config=cfg, graphs=[(r.g.n, r.g.arcs) for r in refs])
    for _ in range(t.int(1, 4)):
        sub = t.rng.sample(range(N), t.int(1, N))
        T = t.int(1, 3)
        t.log((sub, T))
        cl = [clocks[i] for i in sub]
        try:
            S = run_session(t, cfg, [ks[i] for i in sub], [refs[i] for i in sub], [seeds[i] for i in sub], cl, T, 2.0)
        except Ambiguous:
            return
        for i, c in zip(sub, cl):
            clocks[i] = c
        nf = [clocks[i] if t.bool(0.7) else t.int(1, clocks[i]) for i in sub]
        check_output(t, S, [refs[i] for i in sub], nf, t.bool(), [attrs[i] for i in sub])


@group(P, 40, thorough=500, name="differentiable")
def differentiable(t):
    """with the log-probabilities given, scores are the same and their gradients reach the entries used"""
    cfg = config(t)
    N, T = t.int(1, 3), t.int(1, 4)
    gs = [rand_graph(t, cfg["V"]) for _ in range(N)]
    seeds = [t.int(0, 10 ** 6) for _ in range(N)]
    refs = [Ref(A.read(x), cfg) for x in gs]
    rec = []
    t.note(config=cfg, graphs=[(r.g.n, r.g.arcs) for r in refs], T=T)
    try:
        S = run_session(t, cfg, [k2.RnntDecodingStream(x) for x in gs], refs, seeds, [0] * N, T, 2.0, rec)
    except Ambiguous:
        return
    lp = torch.cat([x for x, _ in rec]).requires_grad_(True)
    off, r1, r2 = 0, [0], [0]
    for x, sp in rec:
        r1.append(r1[-1] + N)
        r2 += [off + v for v in sp[1:]]
        off += sp[-1]
    i32 = lambda v: torch.tensor(v, dtype=torch.int32)
    shape = k2.ragged.create_ragged_shape2(i32(r1)).compose(k2.ragged.create_ragged_shape2(i32(r2)))
    nf = [T] * N if t.bool() else [t.int(1, T) for _ in range(N)]
    partial = t.bool()
    t.note(num_frames=nf, allow_partial=partial)
    a = S.format_output(nf, partial)
    # a second object is not needed: formatting may be repeated
    b = S.format_output(nf, partial, log_probs=lp, t2s2c_shape=shape)
    t.eq(b.arcs.values()[:, :3].tolist(), a.arcs.values()[:, :3].tolist(), "arcs with and without log-probabilities")
    t.close(b.scores.tolist(), a.scores.tolist(), "scores with and without log-probabilities", 1e-4, 1e-4)
    check_output(t, S, refs, nf, partial, [{} for _ in refs], b)
    V = cfg["V"]
    want = torch.zeros_like(lp)
    for i, r in enumerate(refs):
        act = sorted({c for c, _ in {(0, 0): 0}})
        for u, fr in enumerate(r.frames[:max(nf[i] - 1, 0)]):
            sp = rec[u][1]
            base = sum(rec[j][1][-1] for j in range(u)) + sp[i]
            for s, d, l, w, k in fr:
                want[base + act.index(s[0]), max(l, 0)] += 1
            act = sorted({a_[1][0] for a_ in fr})
    if b.scores.requires_grad and b.num_arcs:
        b.scores.sum().backward()
        g = lp.grad if lp.grad is not None else torch.zeros_like(lp)
        t.eq(g.tolist(), want.tolist(), "gradient of the sum of the arc scores")


@group(P, 40, thorough=400, name="large_vocabulary")
def large_vocabulary(t):
    """token histories whose number needs more than 32 bits"""
    V, h = t.choice([(1000, 4), (1000, 5), (3000, 3), (40000, 3), (47000, 2), (70000, 2), (70000, 3)])
    cfg = dict(V=V, h=h, beam=t.choice([8.0, 1000.0]), max_states=t.choice([3, 20]), max_contexts=t.choice([2, 20]))
    N, T, K = t.int(1, 2), t.int(2, 6), t.int(2, 4)
    hot = sorted(t.rng.sample(range(1, V), K - 1) + [V - 1]) if V - 1 > K else None
    gs = []
    for _ in range(N):
        f = A.rand_fsa(t, max_states=t.int(2, 4), max_arcs=7, labels=K, eps=0.1, self_loops=True, acyclic=False, connected=t.bool(0.7))
        if f.n < 2 or t.bool(0.3):
            f = A.F(2, [(0, 0, k + 1, 0.1 * k) for k in range(K)] + [(0, 1, -1, 0.0)])
        f.arcs = [(s, d, hot[l - 1] if l > 0 else l, w) for s, d, l, w in f.arcs]
        gs.append(A.to_k2(f))
    seeds = [t.int(0, 10 ** 6) for _ in range(N)]
    refs = [Ref(A.read(x), cfg) for x in gs]
    t.note(config=cfg, graphs=[(r.g.n, r.g.arcs) for r in refs], T=T)

    def lp(seed, u, ctx):
        x = torch.full((V,), -12.0)
        x[[0] + hot] = logprobs(seed, u, ctx, K + 1, 2.0)
        return x
    try:
        S = run_session(t, cfg, [k2.RnntDecodingStream(x) for x in gs], refs, seeds, [0] * N, T, 2.0, lp=lp)
    except Ambiguous:
        return
    check_output(t, S, refs, [T] * N, t.bool(), [{} for _ in refs])


@group(P, 20, thorough=100, name="refusals")
def refusals(t):
    g = k2.trivial_graph(3)
    s = k2.RnntDecodingStream(g)
    S = k2.RnntDecodingStreams([s], k2.RnntDecodingConfig(4, 2, 8.0, 10, 10))
    t.raises(lambda: S.advance(torch.zeros(2, 4)), "wrong number of contexts")
    t.raises(lambda: S.advance(torch.zeros(1, 5)), "wrong vocabulary size")
    S.advance(torch.randn(1, 4))
    t.raises(lambda: S.format_output([1]), "output before the end of the session")
    S.terminate_and_flush_to_streams()
    t.raises(lambda: S.format_output([2]), "more frames than received")
    t.raises(lambda: S.format_output([1, 1]), "wrong number of streams")

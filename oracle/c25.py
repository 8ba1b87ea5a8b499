"""C25: sampled paths, n-best lists, pruning on posteriors, minimum-word-error loss."""
import math

import k2
import torch

from oracle import fsa as A
from oracle.c23 import edit
from oracle.core import group

P = "C25"


def lattice(t, words="tensor", hi=3, **kw):
    """(member automata, FsaVec); words: aux_labels as a tensor or as a ragged tensor of words"""
    kw.setdefault("max_states", 7)
    kw.setdefault("max_arcs", 12)
    kw.setdefault("labels", hi)
    fs = [A.rand_fsa(t, acyclic=True, **kw) for _ in range(t.int(1, 4))]
    name = "aux_labels" if words == "tensor" else "r_words"
    for f in fs:
        f.attrs = {}
        if words == "tensor":
            f.attrs["aux_labels"] = [-1 if a[2] == -1 else t.int(0, hi) for a in f.arcs]
    x = A.to_vec(fs, False)
    ws = []
    if words == "tensor":
        ws = [[[v] for v in f.attrs["aux_labels"]] for f in fs]
    else:
        for f in fs:
            ws.append([[t.int(0, hi) for _ in range(t.upto(2))] + ([-1] if a[2] == -1 else []) for a in f.arcs])
        x.aux_labels = k2.RaggedTensor([w for m in ws for w in m], dtype=torch.int32) \
            if any(ws) else k2.RaggedTensor(torch.zeros(0, 0, dtype=torch.int32))
    return fs, x, ws


def arc_bases(fs):
    b, r = 0, []
    for f in fs:
        r.append(b)
        b += len(f.arcs)
    return r


def complete(t, f, path, what):
    """the arcs (indexes in f) form a complete path of f"""
    s = 0
    t.ok(len(path) > 0, f"{what}: a path has arcs")
    for k, i in enumerate(path):
        t.ok(0 <= i < len(f.arcs), f"{what}: arc {i} belongs to the sequence's lattice")
        a = f.arcs[i]
        t.eq(a[0], s, f"{what}: arc {k} leaves the state the previous one enters")
        s = a[1]
        t.ok((a[2] == -1) == (k == len(path) - 1), f"{what}: the final arc is the last one")
    t.eq(s, f.n - 1, f"{what}: ends in the final state")


def check_paths(t, fs, rows, what):
    """rows: [utt][path][arc] of absolute arc indexes -> the same relative to each member"""
    base = arc_bases(fs)
    t.eq(len(rows), len(fs), f"{what}: number of sequences")
    out = []
    for u, ps in enumerate(rows):
        out.append([[i - base[u] for i in p] for p in ps])
        for j, p in enumerate(out[-1]):
            complete(t, fs[u], p, f"{what}: sequence {u} path {j}")
    return out


@group(P, 250, thorough=3000)
def sample(t):
    """k2.random_paths: complete paths, as many as asked, frequencies as the posteriors say"""
    fs, x, _ = lattice(t)
    check_sample(t, fs, x)
    if t.bool(0.3) and x.num_arcs:
        ws = [A.score(t) for _ in range(x.num_arcs)]
        x.scores = torch.tensor(ws, dtype=torch.float32)
        i, gs = 0, []
        for f in fs:
            gs.append(A.F(f.n, [(a, b, c, w) for (a, b, c, _), w in zip(f.arcs, ws[i:i + len(f.arcs)])]))
            i += len(f.arcs)
        check_sample(t, gs, x)


def check_sample(t, fs, x):
    n = t.choice([1, 2, 3, 10, 50, 200])
    dbl = t.bool()
    t.note(fsas=fs, n=n, double=dbl)
    before = A.snapshot(x)
    r = k2.random_paths(x, use_double_scores=dbl, num_paths=n)
    t.eq(r.dtype, torch.int32, "dtype")
    t.eq(r.num_axes, 3, "axes")
    rows = check_paths(t, fs, r.tolist(), "random_paths")
    t.eq(A.snapshot(x), before, "input lattice")
    for u, f in enumerate(fs):
        t.eq(len(rows[u]), n if A.total(f, True) > A.NEG else 0, f"number of paths of sequence {u}")
    t.eq(k2.random_paths(x, use_double_scores=dbl, num_paths=n).tolist(), r.tolist(), "a second call")
    for u, f in enumerate(fs):
        all_p = A.paths(f, len(f.arcs) + 1, 300)
        if all_p is None or not rows[u]:
            continue
        tot = A.total(f, True)
        cnt = {}
        for p in rows[u]:
            cnt[tuple(p)] = cnt.get(tuple(p), 0) + 1
        for p in all_p:
            want = n * math.exp(A.path_score(f, p) - tot)
            t.ok(abs(cnt.get(tuple(p), 0) - want) < 2.5 + 1e-3 * n,
                 f"sequence {u}: path {list(p)} was sampled {cnt.get(tuple(p), 0)} times of {n}, posterior says {want}")


@group(P, 300, thorough=3000)
def nbest(t):
    """Nbest.from_lattice: paths, scores, words, no two equal hypotheses, none lost"""
    kind = t.choice(["tensor", "ragged"])
    fs, x, ws = lattice(t, kind, hi=t.choice([1, 2, 5]))
    n = t.choice([1, 2, 5, 20, 100])
    scale = t.choice([0.5, 1.0, 0.1])
    dbl = t.bool()
    rg = t.bool()
    t.note(fsas=fs, words=ws, n=n, scale=scale, double=dbl)
    if rg:
        x.scores.requires_grad_(True)
    before = A.snapshot(x)
    orig = x.scores
    nb = k2.Nbest.from_lattice(x, num_paths=n, use_double_scores=dbl, nbest_scale=scale)
    t.eq(A.snapshot(x), before, "input lattice")
    t.ok(x.scores is orig or torch.equal(x.scores, orig), "the lattice keeps its scores")
    sizes = [b - a for a, b in zip(*[nb.shape.row_splits(1).tolist()[k:] for k in (0, 1)])]
    t.eq(len(sizes), len(fs), "number of sequences")
    kept, rows, q = nb.kept_path.tolist(), [], 0
    for s in sizes:
        rows.append(kept[q:q + s])
        q += s
    t.eq(q, len(kept), "number of paths")
    rel = check_paths(t, fs, rows, "from_lattice")
    arcs = nb.fsa.arcs.values()[:, :3].tolist()
    shp = nb.fsa.arcs.shape()
    sc = nb.fsa.scores.tolist()
    aux = nb.fsa.aux_labels.tolist()
    aux = [[v] for v in aux] if kind == "tensor" else aux
    t.eq(nb.fsa.shape[0], len(kept), "one linear automaton per path")
    st = shp.row_splits(1).tolist()
    q, k = 0, 0
    for u, f in enumerate(fs):
        seen = set()
        for p in rel[u]:
            t.eq(st[k + 1] - st[k], len(p) + 1, "states of the linear automaton")
            for j, i in enumerate(p):
                t.eq(arcs[q], [j, j + 1, f.arcs[i][2]], f"sequence {u}: arc of the linear automaton")
                t.close(sc[q], f.arcs[i][3], f"sequence {u}: score of an arc", 1e-6, 1e-6)
                t.eq(aux[q], ws[u][i], f"sequence {u}: word of an arc")
                q += 1
            h = tuple(w for i in p for w in ws[u][i] if w > 0)
            t.ok(h not in seen, f"sequence {u}: hypothesis {list(h)} is listed twice")
            seen.add(h)
            k += 1
        t.ok(len(seen) <= n, "no more paths than asked")
        if A.total(f, True) > A.NEG:
            t.ok(seen, f"sequence {u} has a complete path: it has a hypothesis")
    # every sampled hypothesis is listed
    y = A.to_vec([A.F(f.n, [(a, b, c, d * scale) for a, b, c, d in f.arcs], {}) for f in fs], False)
    for u, ps in enumerate(check_paths(t, fs, k2.random_paths(y, use_double_scores=dbl, num_paths=n).tolist(), "")):
        words = lambda p: tuple(w for i in p for w in ws[u][i] if w > 0)
        t.eq({words(p) for p in rel[u]}, {words(p) for p in ps}, f"sequence {u}: hypotheses of the sampled paths")
    tot = nb.total_scores()
    t.close([[float(v) for v in r] for r in tot.tolist()],
            [[A.path_score(fs[u], p) for p in ps] for u, ps in enumerate(rel)], "total_scores", 1e-5, 1e-5)
    if rg and k:
        g = [t.int(-2, 2) for _ in sc]
        (nb.fsa.scores * torch.tensor(g, dtype=torch.float32)).sum().backward()
        want, q = [0.0] * x.num_arcs, 0
        for p in kept:
            for i in p:
                want[i] += g[q]
                q += 1
        t.close(x.scores.grad.tolist(), want, "gradient", 1e-5, 1e-5)


def hand_nbest(t, sizes, hi=4):
    """an Nbest of random linear automata: (Nbest, [(labels, aux, scores)])"""
    lab = [[t.int(1, hi) for _ in range(t.upto(4))] for _ in range(sum(sizes))]
    fsa = k2.linear_fsa(k2.RaggedTensor(lab, dtype=torch.int32) if lab else
                        k2.RaggedTensor(torch.zeros(0, 0, dtype=torch.int32)))
    sc = [A.score(t) for _ in range(fsa.num_arcs)]
    aux = []
    for p in lab:
        aux += [t.int(0, hi) for _ in p] + [-1]
    fsa.scores = torch.tensor(sc, dtype=torch.float32)
    fsa.aux_labels = torch.tensor(aux, dtype=torch.int32)
    spl = [0]
    for s in sizes:
        spl.append(spl[-1] + s)
    shape = k2.ragged.create_ragged_shape2(torch.tensor(spl, dtype=torch.int32), None, spl[-1])
    items, q = [], 0
    for p in lab:
        m = len(p) + 1
        items.append((p + [-1], aux[q:q + m], sc[q:q + m]))
        q += m
    return k2.Nbest(fsa, shape), items


def linear_items(fsa):
    out = []
    for f in A.read_vec(fsa, ["aux_labels"]):
        out.append(([a[2] for a in f.arcs], list(f.attrs["aux_labels"]), [a[3] for a in f.arcs]))
    return out


@group(P, 250, thorough=2500)
def top_k(t):
    sizes = [t.int(0 if t.bool(0.1) else 1, 6) for _ in range(t.int(1, 4))]
    nb, items = hand_nbest(t, sizes)
    k = t.int(1, 8)
    t.note(sizes=sizes, items=items, k=k)
    tots = [sum(i[2]) for i in items]
    t.close([v for r in nb.total_scores().tolist() for v in r], tots, "total_scores", 1e-5, 1e-5)
    before = A.snapshot(nb.fsa)
    if 0 in sizes:
        t.raises(lambda: nb.top_k(k), "top_k of an empty list")
        return
    r = nb.top_k(k)
    t.eq(A.snapshot(nb.fsa), before, "input")
    t.eq(r.shape.row_splits(1).tolist(), [k * i for i in range(len(sizes) + 1)], "shape")
    got = linear_items(r.fsa)
    t.eq(len(got), k * len(sizes), "number of paths")
    q = 0
    for u, s in enumerate(sizes):
        mine = sorted(tots[q:q + s], reverse=True)
        mine = (mine + [mine[-1]] * k)[:k]
        g = got[u * k:(u + 1) * k]
        t.close([sum(i[2]) for i in g], mine, f"sequence {u}: scores of the best {k}", 1e-5, 1e-5)
        pool = [(tuple(i[0]), tuple(i[1]), tuple(round(v, 4) for v in i[2])) for i in items[q:q + s]]
        left = list(pool)
        for j, i in enumerate(g):
            key = (tuple(i[0]), tuple(i[1]), tuple(round(v, 4) for v in i[2]))
            if j < s:
                t.ok(key in left, f"sequence {u}: path {j} is one of the sequence's, listed once")
                left.remove(key)
            else:
                t.eq(key, (tuple(g[s - 1][0]), tuple(g[s - 1][1]), tuple(round(v, 4) for v in g[s - 1][2])),
                     f"sequence {u}: the last path is repeated")
        q += s


@group(P, 80, thorough=800)
def lev_graphs(t):
    sizes = [t.int(0, 3) for _ in range(t.int(1, 3))] + [1]
    nb, items = hand_nbest(t, sizes)
    t.note(items=items)
    g = nb.build_levenshtein_graphs()
    want = k2.levenshtein_graph([[w for w in i[1] if w > 0] for i in items])
    t.eq(A.snapshot(g), A.snapshot(want), "levenshtein graphs of the words")


@group(P, 120, thorough=1500)
def rescore_nbest(t):
    """Nbest.intersect: the best path of the lattice among those with the same tokens"""
    fs, x, ws = lattice(t, "tensor", hi=2, max_states=6, max_arcs=9)
    base = k2.Nbest.from_lattice(x, num_paths=t.choice([1, 5, 30]), nbest_scale=t.choice([0.5, 1.0]))
    if base.shape.tot_size(1) == 0:
        return
    lab = [[a[2] for a in f.arcs if a[2] > 0] for f in A.read_vec(base.fsa, ["aux_labels"])]
    # token sequences without epsilons
    fsa = k2.linear_fsa(k2.RaggedTensor(lab, dtype=torch.int32))
    sc = [A.score(t) for _ in range(fsa.num_arcs)]
    fsa.scores = torch.tensor(sc, dtype=torch.float32)
    nb = k2.Nbest(fsa, base.shape)
    t.note(fsas=fs, tokens=lab, scores=sc)
    sp = base.shape.row_splits(1).tolist()
    mp = [u for u in range(len(fs)) for _ in range(sp[u], sp[u + 1])]
    b1, b2 = A.snapshot(fsa), A.snapshot(x)
    r = nb.intersect(x)
    t.eq(A.snapshot(fsa), b1, "n-best input")
    t.eq(A.snapshot(x), b2, "lattice input")
    t.eq(r.shape.row_splits(1).tolist(), base.shape.row_splits(1).tolist(), "shape")
    t.eq(r.fsa.shape[0], len(lab), "number of paths")
    q = 0
    tot = r.fsa.get_tot_scores(use_double_scores=True, log_semiring=False).tolist()
    for k, f in enumerate(A.read_vec(r.fsa, ["aux_labels"])):
        aux = [w for v in f.attrs["aux_labels"] for w in (v if isinstance(v, list) else [v])]
        own = sum(sc[q:q + len(lab[k]) + 1])
        q += len(lab[k]) + 1
        g = fs[mp[k]]
        ps = A.paths(g, len(g.arcs) + 1, 2000)
        if ps is None:
            continue
        same = [p for p in ps if [v for v in A.path_labels(g, p) if v > 0] == lab[k]]
        t.ok(same, "the tokens come from the lattice")
        best = max(A.path_score(g, p) for p in same)
        t.close(tot[k], own + best, f"path {k}: score of the best path with the same tokens", 1e-4, 1e-4)
        t.eq([a[2] for a in f.arcs if a[2] > 0], lab[k], f"path {k}: tokens")
        words = [tuple(v for v in (g.attrs["aux_labels"][i] for i in p) if v > 0) for p in same
                 if A.path_score(g, p) > best - 1e-3]
        t.ok(tuple(v for v in aux if v > 0) in words, f"path {k}: words of the best path")


@group(P, 150, thorough=1500)
def prune_post(t):
    """prune_on_arc_post removes just the arcs whose posterior is below the threshold"""
    fs, x, ws = lattice(t)
    th = t.choice([1e-4, 0.01, 0.1, 0.25, 0.5, 0.9])
    dbl = t.bool()
    t.note(fsas=fs, threshold=th)
    before = A.snapshot(x)
    try:
        y = k2.prune_on_arc_post(x, th, dbl)
    finally:
        t.eq(A.snapshot(x), before, "input")
    out = A.read_vec(y, ["aux_labels"])
    t.eq(len(out), len(fs), "number of automata")
    for u, (f, g) in enumerate(zip(fs, out)):
        a, b, tot = A.forward(f, True), A.backward(f, True), A.total(f, True)
        must, may, alive = [], [], set()
        for k, (s, d, l, w) in enumerate(f.arcs):
            p = 0.0 if tot == A.NEG else math.exp(max(-700, a[s] + w + b[d] - tot)) \
                if a[s] > A.NEG and b[d] > A.NEG else 0.0
            if p > th * 1.001:
                must.append(k)
            elif p > th * 0.999:
                may.append(k)
        key = lambda k: (f.arcs[k][2], f.attrs["aux_labels"][k], round(f.arcs[k][3], 4))
        got = sorted((c, g.attrs["aux_labels"][k], round(w, 4)) for k, (_, _, c, w) in enumerate(g.arcs))
        if not may:
            t.eq(got, sorted(key(k) for k in must), f"automaton {u}: arcs kept")
        if not may and must:
            st = sorted({s for k in must for s in f.arcs[k][:2]})
            if len(st) == g.n:
                # states in their order
                mp = {s: i for i, s in enumerate(st)}
                t.eq(sorted((mp[f.arcs[k][0]], mp[f.arcs[k][1]]) + key(k) for k in must),
                     sorted((s, d, c, g.attrs["aux_labels"][k], round(w, 4)) for k, (s, d, c, w) in enumerate(g.arcs)),
                     f"automaton {u}: arcs kept, with their states")


@group(P, 150, thorough=2000)
def mwer(t):
    kind = t.choice(["tensor", "ragged"])
    fs, x, ws = lattice(t, kind, hi=t.choice([1, 3]), max_states=6, max_arcs=9)
    refs = [[t.int(1, 3) for _ in range(t.upto(4))] for _ in fs]
    n, scale, temp = t.choice([1, 5, 50]), t.choice([0.5, 1.0]), t.choice([1.0, 0.5, 3.0])
    dbl, red = t.bool(), t.choice(["sum", "mean", "none"])
    t.note(fsas=fs, words=ws, refs=refs, n=n, scale=scale, temperature=temp, double=dbl, reduction=red)
    base = arc_bases(fs)
    nb = k2.Nbest.from_lattice(x, num_paths=n, use_double_scores=dbl, nbest_scale=scale)
    kept, q, per = nb.kept_path.tolist(), 0, []
    if not kept:
        return
    spl = nb.shape.row_splits(1).tolist()
    leaf = x.scores.detach().clone().requires_grad_(True)
    x.scores = leaf
    before = leaf.detach().clone()
    r = refs if t.bool() else k2.RaggedTensor(refs, dtype=torch.int32)
    if t.bool():
        loss = k2.mwer_loss(x, r, nbest_scale=scale, num_paths=n, temperature=temp, use_double_scores=dbl,
                            reduction=red)
    else:
        loss = k2.MWERLoss(temp, dbl, red)(x, r, scale, n)
    t.ok(torch.equal(leaf.detach(), before), "the scores are as they were")
    s = torch.tensor([a[3] for f in fs for a in f.arcs], dtype=torch.float64, requires_grad=True)
    want = []
    for u in range(len(fs)):
        ps = kept[spl[u]:spl[u + 1]]
        if not ps:
            want.append([])
            continue
        lp = torch.stack([s[torch.tensor(p)].sum() for p in ps]) / temp
        pr = torch.softmax(lp, 0)
        e = [edit(refs[u], [w for i in p for w in ws[u][i - base[u]] if w > 0]) for p in ps]
        want.append([pr[j] * e[j] for j in range(len(ps))])
    flat = [v for w in want for v in w]
    if red == "none":
        t.eq(loss.shape.row_splits(1).tolist(), spl, "shape")
        t.close(loss.values.tolist(), [float(v) for v in flat], "loss of each path", 2e-4, 2e-4)
        tot, ref = loss.values.sum(), sum(flat)
    else:
        ref = sum(flat) / (len(flat) if red == "mean" else 1)
        t.close(float(loss), float(ref), "loss", 2e-4, 2e-4)
        tot = loss
    tot.backward()
    ref.backward()
    t.close(leaf.grad.tolist(), s.grad.tolist(), "gradient", 2e-3, 2e-4)


@group(P, 100, thorough=1000)
def list_tokens(t):
    """generate_nbest_list: the distinct token sequences of sampled paths"""
    fs, x, ws = lattice(t, "tensor")
    ph = [[-1 if a[2] == -1 else t.int(0, 3) for a in f.arcs] for f in fs]
    x.phones = torch.tensor([v for p in ph for v in p], dtype=torch.int32)
    n = t.choice([1, 4, 40])
    t.note(fsas=fs, phones=ph, n=n)
    before = A.snapshot(x)
    nb = k2.nbest.generate_nbest_list(x, n)
    t.eq(A.snapshot(x), before, "input")
    spl = nb.shape.row_splits(1).tolist()
    out = A.read_vec(nb.fsa, [])
    smp = check_paths(t, fs, k2.random_paths(x, use_double_scores=True, num_paths=n).tolist(), "random_paths")
    for u in range(len(fs)):
        got = [tuple(a[2] for a in f.arcs) for f in out[spl[u]:spl[u + 1]]]
        want = {tuple(v for v in (ph[u][i] for i in p) if v > 0) + (-1,) for p in smp[u]}
        t.eq(len(got), len(set(got)), f"sequence {u}: no sequence is listed twice")
        t.eq(set(got), want, f"sequence {u}: token sequences")


@group(P, 80, thorough=800)
def rescore_lattice(t):
    """whole_lattice_rescoring: acoustic scores kept, language-model scores replaced by G's"""
    fs, x, ws = lattice(t, "tensor", hi=2, max_states=5, max_arcs=8, eps=0.3)
    lm = [A.score(t) for f in fs for a in f.arcs]
    x.lm_scores = torch.tensor(lm, dtype=torch.float32)
    g = A.rand_fsa(t, acyclic=True, max_states=4, max_arcs=8, labels=2, eps=0, pos=False)
    g.arcs += [(s, s, 0, 0.0) for s in range(g.n - 1)]
    g.arcs.sort(key=lambda a: (a[0], a[2] & 0xffffffff, a[1]))
    g.attrs = {}
    G = k2.arc_sort(A.to_vec([g], False))
    t.note(fsas=fs, lm=lm, G=g)
    b1, b2 = A.snapshot(x), A.snapshot(G)
    y = k2.nbest.whole_lattice_rescoring(x, G)
    t.eq(A.snapshot(x), b1, "input lattice")
    t.eq(A.snapshot(G), b2, "input G")
    t.eq(y.shape[0], len(fs), "number of lattices")
    out = A.read_vec(y, ["aux_labels"])
    base = arc_bases(fs)
    gl = {}
    for s in A.paths(A.F(g.n, [a for a in g.arcs if a[0] != a[1]], {}), 10, 5000) or []:
        h = A.F(g.n, [a for a in g.arcs if a[0] != a[1]], {})
        k = tuple(v for v in A.path_labels(h, s) if v > 0)
        gl.setdefault(k, []).append(A.path_score(h, s))
    for u, f in enumerate(fs):
        ps = A.paths(f, len(f.arcs) + 1, 1000)
        ro = A.paths(out[u], 20, 2000) if out[u].n else []
        if ps is None or ro is None:
            continue
        want = []
        for p in ps:
            w = tuple(v for v in (f.attrs["aux_labels"][i] for i in p) if v > 0)
            tok = tuple(v for v in A.path_labels(f, p) if v > 0)
            ac = sum(f.arcs[i][3] - lm[base[u] + i] for i in p)
            for q in gl.get(w, []):
                want.append((tok, w, ac + q))
        got = [(tuple(v for v in A.path_labels(out[u], p) if v > 0),
                tuple(v for v in (out[u].attrs["aux_labels"][i] for i in p) if v > 0),
                A.path_score(out[u], p)) for p in ro]
        want, got = sorted(want), sorted(got)
        t.eq(sorted({v[:2] for v in got}), sorted({v[:2] for v in want}), f"lattice {u}: (tokens, words)")
        for k in {v[:2] for v in want}:
            t.close(max(v[2] for v in got if v[:2] == k), max(v[2] for v in want if v[:2] == k),
                    f"lattice {u}: best score of {k}", 1e-4, 1e-4)

"""C23: edit distance and alignments."""
import k2
import torch

from oracle import fsa as A
from oracle.core import group

P = "C23"


def edit(r, h, sub=1.0, indel=1.0):
    d = [[0.0] * (len(h) + 1) for _ in range(len(r) + 1)]
    for i in range(len(r) + 1):
        for j in range(len(h) + 1):
            c = []
            if i:
                c.append(d[i - 1][j] + indel)
            if j:
                c.append(d[i][j - 1] + indel)
            if i and j:
                c.append(d[i - 1][j - 1] + (0 if r[i - 1] == h[j - 1] else sub))
            d[i][j] = min(c) if c else 0.0
    return d[-1][-1]


def rand_seqs(t, n, m):
    hi = t.choice([1, 2, 4, 1000])
    return [[t.int(1, hi) for _ in range(t.upto(m))] for _ in range(n)]


def mutate(t, s):
    s = list(s)
    for _ in range(t.int(0, 3)):
        k = t.int(0, 2)
        i = t.int(0, len(s))
        if k == 0:
            s.insert(i, t.int(1, 4))
        elif s and k == 1:
            s.pop(i % len(s))
        elif s:
            s[i % len(s)] = t.int(1, 4)
    return s


def graphs(seqs, score, t):
    if t.bool():
        return k2.levenshtein_graph(seqs, ins_del_score=score)
    return k2.levenshtein_graph(k2.RaggedTensor(seqs, dtype=torch.int32), ins_del_score=score)


@group(P, 80, thorough=800, name="graph")
def graph(t):
    n = t.int(1, 5)
    seqs = rand_seqs(t, n, 6)
    sc = t.choice([-0.501, -0.5, -0.51, -0.499, -0.75])
    t.note(seqs=seqs, score=sc)
    x = graphs(seqs, sc, t)
    t.eq(x.shape[0], n, "number of graphs")
    fs = A.read_vec(x, ["aux_labels", "__ins_del_score_offset_internal_attr_"])
    for s, f in zip(seqs, fs):
        t.eq(f.n, len(s) + 2, "states")
        want = []
        for i, v in enumerate(s):
            want += [(i, i, 0, 0, sc, sc + 0.5), (i, i + 1, 0, v, -0.5, 0.0), (i, i + 1, v, v, 0.0, 0.0)]
        want += [(len(s), len(s), 0, 0, sc, sc + 0.5), (len(s), len(s) + 1, -1, -1, 0.0, 0.0)]
        off = f.attrs["__ins_del_score_offset_internal_attr_"]
        aux = f.attrs["aux_labels"]
        got = [(a[0], a[1], a[2], aux[k], a[3], off[k]) for k, a in enumerate(f.arcs)]
        key = lambda z: z[:4]
        g, w = sorted(got, key=key), sorted(want, key=key)
        t.eq([z[:4] for z in g], [z[:4] for z in w], "arcs (source, destination, label, symbol)")
        t.close([z[4:] for z in g], [z[4:] for z in w], "scores and offsets", 1e-5, 1e-6)


def check_alignment(t, ali, refs, hyps, mp, sc):
    t.eq(ali.shape[0], len(hyps), "number of alignments")
    tot = ali.get_tot_scores(use_double_scores=True, log_semiring=False).tolist()
    fs = A.read_vec(ali, ["ref_labels", "hyp_labels"])
    for i, h in enumerate(hyps):
        r = refs[mp[i]]
        t.close(-tot[i], edit(r, h), "distance of %s and %s" % (r, h), 1e-4, 1e-3)
        f = fs[i]
        cols = []
        s, seen = 0, 0
        while s != f.n - 1:
            o = f.out(s)
            t.eq(len(o), 1, "arcs leaving a state of the alignment")
            k = o[0]
            cols.append((f.attrs["ref_labels"][k], f.attrs["hyp_labels"][k], f.arcs[k][2]))
            s = f.arcs[k][1]
            seen += 1
            t.ok(seen <= len(f.arcs), "the alignment has a cycle")
        t.eq(len(f.arcs), seen, "arcs of the alignment")
        t.eq(cols[-1], (-1, -1, -1), "last arc")
        cols = cols[:-1]
        t.eq([c[0] for c in cols if c[0]], r, "reference spelt by the alignment")
        t.eq([c[1] for c in cols if c[1]], h, "hypothesis spelt by the alignment")
        t.ok(all(c[0] or c[1] for c in cols), "empty column")
        t.eq(sum(c[0] != c[1] for c in cols), int(edit(r, h)), "edits in the alignment")
        for c in cols:
            t.ok(c[2] == (c[0] if c[0] == c[1] else 0), "label %d of column %s" % (c[2], c[:2]))
        ind = sum(not (c[0] and c[1]) for c in cols)
        best = edit(r, h, 1.0, 0.5 - sc)
        t.close(sum(c[0] != c[1] for c in cols) + ind * (-0.5 - sc), best, "penalised cost", 1e-4, 1e-4)


@group(P, 120, thorough=1500, name="alignment")
def alignment(t):
    n = t.int(1, 4)
    refs = rand_seqs(t, n, 6)
    mode = t.choice(["own", "map"])
    if mode == "own":
        mp = list(range(n))
    else:
        mp = [t.int(0, n - 1) for _ in range(t.int(1, 6))]
    hyps = [mutate(t, refs[j]) if t.bool(0.7) else [t.int(1, 4) for _ in range(t.upto(6))] for j in mp]
    sc = t.choice([-0.501, -0.501, -0.5, -0.505])
    srt = t.bool()
    t.note(refs=refs, hyps=hyps, map=mp, score=sc, sorted=srt)
    R, H = graphs(refs, sc, t), graphs(hyps, sc, t)
    before = (A.snapshot(R), A.snapshot(H))
    if srt:
        R = k2.arc_sort(R)
    ali = k2.levenshtein_alignment(R, H, torch.tensor(mp, dtype=torch.int32), srt)
    check_alignment(t, ali, refs, hyps, mp, sc)
    if not srt:
        t.eq((A.snapshot(R), A.snapshot(H)), before, "the graphs given")
    # one pair at a time
    i = t.int(0, len(hyps) - 1)
    one = k2.levenshtein_alignment(graphs([refs[mp[i]]], sc, t), graphs([hyps[i]], sc, t), torch.tensor([0], dtype=torch.int32))
    a = one.get_tot_scores(True, False).tolist()[0]
    b = ali.get_tot_scores(True, False).tolist()[i]
    t.close(b, a, "distance alone and in the batch", 1e-4, 1e-4)
    # other tropical totals of the same thing
    t.close(ali.get_tot_scores(use_double_scores=False, log_semiring=False).tolist()[i], b, "float totals", 1e-4, 1e-4)


@group(P, 6, thorough=60, name="long")
def long(t):
    n = t.int(1, 2)
    refs = [[t.int(1, 3) for _ in range(t.int(20, 50))] for _ in range(n)]
    hyps = [mutate(t, mutate(t, mutate(t, refs[t.int(0, n - 1)]))) for _ in range(n)]
    t.note(refs=refs, hyps=hyps)
    ali = k2.levenshtein_alignment(k2.levenshtein_graph(refs), k2.levenshtein_graph(hyps), torch.arange(n, dtype=torch.int32))
    check_alignment(t, ali, refs, hyps, list(range(n)), -0.501)


@group(P, 15, thorough=60, name="refusals")
def refusals(t):
    s = [t.int(1, 4) for _ in range(t.int(0, 4))]
    s.insert(t.int(0, len(s)), t.choice([0, -1]))
    t.note(s=s)
    t.raises(lambda: k2.levenshtein_graph([[1], s]), "0 or -1 as a symbol")

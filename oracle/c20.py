"""C20: CTC loss."""
import k2
import torch

from oracle import dense as D
from oracle import fsa as A
from oracle.core import group

P = "C20"
INF = float("inf")


def textbook(lp, s, modified=False):
    """log-sum over the alignments of s to the frames lp (T x C, torch double), by the blank-extended recursion"""
    e = [0] + [v for c in s for v in (c, 0)]
    al = None
    for r in lp:
        if al is None:
            al = [r[0]] + ([r[e[1]]] if len(e) > 1 else []) + [None] * (len(e) - 2)
            continue
        new = []
        for j, v in enumerate(e):
            c = [al[j]]
            if j:
                c.append(al[j - 1])
            if j >= 2 and v != 0 and (modified or e[j - 2] != v):
                c.append(al[j - 2])
            c = [x for x in c if x is not None]
            new.append(torch.logsumexp(torch.stack(c), 0) + r[v] if c else None)
        al = new
    fin = [x for x in al[-2:] if x is not None]
    return torch.logsumexp(torch.stack(fin), 0) if fin else None


def graph_total(g, aux, lp, pen=0.0):
    """log-sum over the paths of graph g with len(lp) frames"""
    T = len(lp)
    cur = {0: torch.zeros((), dtype=torch.float64)}

    def step(cur, i, r):
        nx = {}
        for s, v in cur.items():
            for k in g.out(s):
                _, d, l, w = g.arcs[k]
                if r is None and l != -1 or r is not None and (l < 0 or l >= len(r)):
                    continue
                x = v + w + (r[l] if r is not None else 0.0)
                if aux is not None and aux[k] not in (0, -1):
                    x = x - pen * (i - T // 2)
                nx.setdefault(d, []).append(x)
        return {d: torch.logsumexp(torch.stack(v), 0) for d, v in nx.items()}
    for i, r in enumerate(lp):
        cur = step(cur, i, r)
    cur = step(cur, T, None)
    return cur.get(g.n - 1)


def setup(t, maxlen=4, T=6, n=4, C=4):
    N = t.int(1, n)
    C = t.int(2, C)
    T = t.int(1, T)
    lp = D.rand_scores(t, N, T, C)
    if t.bool(0.5):
        lp = torch.log_softmax(torch.tensor(lp, dtype=torch.float32), -1).tolist()
    segs = []
    for _ in range(t.int(1, 4)):
        b = t.int(0, T - 1)
        segs.append((t.int(0, N - 1), b, t.int(1, T - b)))
    segs.sort(key=lambda s: -s[2])
    ys = []
    for q, b, d in segs:
        y = [t.int(1, C - 1) for _ in range(t.int(0, min(maxlen, d + 1)))]
        if len(y) > 1 and t.bool(0.4):
            y[1] = y[0]
        ys.append(y)
    return lp, segs, ys


def reduce(t, ls, ys, how):
    if how == "none":
        return ls
    if how == "sum":
        return ls.sum()
    return (ls / torch.tensor([max(1, len(y)) for y in ys], dtype=torch.float64)).mean()


def run(t, lp, segs, graph, want_of, ys, pen=0.0, tol=1e-3):
    """graph: FsaVec; want_of(i, rows) -> torch scalar or None"""
    how = t.choice(["none", "sum", "mean"])
    t.log(how)
    x, dv = D.dense_vec(lp, segs, True)
    kw = dict(output_beam=1e5, reduction=how, use_double_scores=t.bool())
    tl = torch.tensor([max(1, len(y)) for y in ys])
    if t.bool():
        loss = k2.CtcLoss(**kw)(graph, dv, delay_penalty=pen, target_lengths=tl)
    else:
        loss = k2.ctc_loss(graph, dv, delay_penalty=pen, target_lengths=tl, **kw)
    z = torch.tensor(lp, dtype=torch.float64, requires_grad=True)
    tot = [want_of(i, z[q, b:b + d]) for i, (q, b, d) in enumerate(segs)]
    vals = torch.stack([torch.full((), INF, dtype=torch.float64) if v is None else -v for v in tot])
    want = reduce(t, vals, ys, how)
    t.eq(list(loss.shape), [len(segs)] if how == "none" else [], "shape")
    t.close(loss.detach(), want.detach(), f"loss ({how})", tol)
    c = torch.tensor([t.int(-4, 4) / 2 if v is not None else 0.0 for v in tot], dtype=torch.float64)
    if how == "none":
        fin = [v is not None for v in tot]
        if not any(fin):
            return
        (loss * c.to(loss.dtype))[torch.tensor(fin)].sum().backward()
        (torch.stack([v for v in vals if v.item() != INF]) * c[torch.tensor(fin)]).sum().backward()
    else:
        loss.backward()
        k = [1.0 if how == "sum" else 1.0 / (max(1, len(y)) * len(ys)) for y in ys]
        fin = [v * w for v, w in zip(vals, k) if v.item() != INF]
        if not fin:
            t.close(x.grad, torch.zeros_like(x), "gradient without any alignment", 1e-6)
            return
        torch.stack(fin).sum().backward()
    t.close(x.grad, z.grad, f"gradient ({how})", 2e-3)


@group(P, 400)
def loss(t):
    """loss and gradient of CTC graphs"""
    lp, segs, ys = setup(t)
    t.note(scores=lp, segments=segs, symbols=ys)
    run(t, lp, segs, k2.ctc_graph(ys), lambda i, r: textbook(list(r), ys[i]), ys)


@group(P, 150)
def modified(t):
    """the modified topology: an alignment counts once for every way it can be cut into the symbols"""
    lp, segs, ys = setup(t, maxlen=3, T=5)
    g = k2.ctc_graph(ys, modified=True)
    t.note(scores=lp, segments=segs, symbols=ys)
    run(t, lp, segs, g, lambda i, r: textbook(list(r), ys[i], True), ys)


@group(P, 150)
def by_composition(t):
    """graphs made by composing the topology with the transcript, as a training script does"""
    lp, segs, ys = setup(t, maxlen=3)
    C = len(lp[0][0])
    t.note(scores=lp, segments=segs, symbols=ys)
    topo = k2.arc_sort(k2.ctc_topo(C - 1, modified=False))
    lin = k2.arc_sort(k2.linear_fsa_with_self_loops(k2.linear_fsa(k2.RaggedTensor(ys) if any(ys) else
                                                                   k2.RaggedTensor(A.shape2([0] * (len(ys) + 1)), A.i32([])))))
    g = k2.connect(k2.compose(topo, lin, treat_epsilons_specially=False))
    run(t, lp, segs, g, lambda i, r: textbook(list(r), ys[i]), ys)


@group(P, 200)
def graphs(t):
    """any weighted graph without epsilons takes the place of the transcript; delay penalties"""
    lp, segs, ys = setup(t)
    C = len(lp[0][0])
    fs = []
    for _ in segs:
        fs.append(A.rand_fsa(t, acyclic=False, self_loops=True, max_states=5, max_arcs=9, labels=C - 1, empty_ok=False,
                             attrs=["aux_labels"]))
        fs[-1].attrs["aux_labels"] = [-1 if a[2] == -1 else t.choice([0, a[2]]) for a in fs[-1].arcs]
    pen = t.choice([0.0, 0.0, 0.25, 1.0])
    t.note(scores=lp, segments=segs, graphs=fs, penalty=pen)
    run(t, lp, segs, A.to_vec(fs), lambda i, r: graph_total(fs[i], fs[i].attrs["aux_labels"], list(r), pen), ys, pen)


@group(P, 150)
def delay(t):
    """delay penalty on CTC graphs; the attribute that marks repeats gives the same"""
    lp, segs, ys = setup(t, maxlen=3)
    g = k2.ctc_graph(ys)
    pen = t.choice([0.125, 0.5, 2.0])
    t.note(scores=lp, segments=segs, symbols=ys, penalty=pen)
    gs = A.read_vec(g, ["aux_labels"])
    if t.bool():
        g._is_repeat_token_ = g.labels != g.aux_labels
    run(t, lp, segs, g, lambda i, r: graph_total(gs[i], gs[i].attrs["aux_labels"], list(r), pen), ys, pen)


@group(P, 100)
def padding(t):
    """frames outside the segment, and the other sequences of the batch, do not matter"""
    lp, segs, ys = setup(t, n=3)
    t.note(scores=lp, segments=segs, symbols=ys)
    x, dv = D.dense_vec(lp, segs)
    a = k2.ctc_loss(k2.ctc_graph(ys), dv, output_beam=1e5, reduction="none")
    for i, (q, b, d) in enumerate(segs):
        pad, lead = t.int(0, 3), t.int(0, 2)
        C = len(lp[0][0])
        junk = [[[t.int(-40, 40) / 4 for _ in range(C)] for _ in range(k)] for k in (lead, pad)]
        x, dv = D.dense_vec([junk[0] + lp[q][b:b + d] + junk[1]], [(0, lead, d)])
        y = ys[i]
        g = k2.ctc_graph([y]) if y else k2.ctc_graph(k2.RaggedTensor(A.shape2([0, 0]), A.i32([])))
        t.close(k2.ctc_loss(g, dv, output_beam=1e5, reduction="none")[0], a[i], "loss alone", 1e-4)


@group(P, 40)
def large(t):
    """longer sequences against the textbook recursion"""
    T, C = t.int(20, 60), t.int(3, 30)
    n = t.int(1, 4)
    lp = torch.log_softmax(2 * torch.tensor([[[t.rng.gauss(0, 1) for _ in range(C)] for _ in range(T)] for _ in range(n)]), -1)
    segs = sorted(((i, 0, t.int(T // 2, T)) for i in range(n)), key=lambda s: -s[2])
    ys = [[t.int(1, min(C - 1, t.choice([1, 2, 100]))) for _ in range(t.int(0, 20))] for _ in segs]
    t.note(T=T, C=C, segments=segs, symbols=ys)
    x, dv = D.dense_vec(lp.tolist(), segs)
    got = k2.ctc_loss(k2.ctc_graph(ys), dv, output_beam=1e5, reduction="none")
    for (q, b, d), y, g in zip(segs, ys, got.tolist()):
        w = textbook(list(lp[q, b:b + d].double()), y)
        t.close(g, INF if w is None else -w.item(), "loss", 1e-3)

"""C19: graph builders."""
import itertools

import k2
import torch

from oracle import fsa as A
from oracle.core import group

P = "C19"


def seq(t, n, hi=4, lo=1):   # repeats are common
    s = [t.int(lo, hi) for _ in range(n)]
    if len(s) > 1 and t.bool(0.5):
        i = t.int(0, len(s) - 2)
        s[i + 1] = s[i]
    return s


def seqs(t, lo=0, hi=4, **kw):
    return [seq(t, t.upto(5) if t.bool(0.85) else 0, **kw) for _ in range(max(lo, t.upto(hi)))]


def form(t, xs):
    """the documented ways of passing a batch"""
    if xs and t.bool():
        return xs
    s = [0]
    for x in xs:
        s.append(s[-1] + len(x))
    return k2.RaggedTensor(A.shape2(s), A.i32([e for x in xs for e in x]))


def linear(s, w=None):
    n = len(s)
    w = w or [0.0] * (n + 1)
    return [(i, i + 1, l, w[i]) for i, l in enumerate(s)] + [(n, n + 1, -1, w[n])]


def same(t, g, arcs, n, what):
    t.eq(g.arcs, arcs, f"{what}: arcs")
    t.eq(g.n, n, f"{what}: states")
    A.well_formed(t, g, what)


@group(P, 200)
def linear_fsa(t):
    if t.bool(0.3):
        s = seq(t, t.int(0, 6), lo=0)
        t.note(labels=s)
        x = k2.linear_fsa(s)
        t.eq(len(x.shape), 2, "a list gives one automaton")
        same(t, A.read(x), linear(s), len(s) + 2, "linear_fsa")
        return
    xs = seqs(t, lo=0, hi=5)
    t.note(labels=xs)
    x = k2.linear_fsa(form(t, xs))
    gs = A.read_vec(x)
    t.eq(len(gs), len(xs), "one automaton per sequence")
    for g, s in zip(gs, xs):
        same(t, g, linear(s), len(s) + 2, "linear_fsa")


@group(P, 150)
def linear_fst(t):
    single = t.bool(0.3)
    xs = [seq(t, t.int(0, 5), lo=0)] if single else seqs(t, lo=1, hi=5)
    ys = [[t.int(0, 5) for _ in s] for s in xs]
    t.note(labels=xs, aux=ys)
    x = k2.linear_fst(xs[0], ys[0]) if single else k2.linear_fst(xs, ys)
    gs = [A.read(x, ["aux_labels"])] if single else A.read_vec(x, ["aux_labels"])
    t.eq(len(gs), len(xs), "one transducer per sequence")
    for g, s, y in zip(gs, xs, ys):
        same(t, g, linear(s), len(s) + 2, "linear_fst")
        t.eq(g.attrs["aux_labels"], y + [-1], "output labels")


def loops_ok(t, g, s, what):
    """a linear automaton with an epsilon loop on every state but the last"""
    t.eq(g.n, len(s) + 2, f"{what}: states")
    A.well_formed(t, g, what)
    want = sorted([(i, i, 0) for i in range(len(s) + 1)] + [(a, b, c) for a, b, c, _ in linear(s)])
    t.eq(sorted((a, b, c) for a, b, c, _ in g.arcs), want, f"{what}: arcs")


@group(P, 200)
def linear_with_loops(t):
    vec = t.bool(0.7)
    xs = [seq(t, t.upto(6), lo=0) for _ in range(t.int(1, 4) if vec else 1)]
    fs = [A.F(len(s) + 2, linear(s, [A.score(t) for _ in range(len(s) + 1)]), {}) for s in xs]
    t.note(fsas=fs, vec=vec)
    x = A.to_vec(fs) if vec else A.to_k2(fs[0])
    y = k2.linear_fsa_with_self_loops(x)
    gs = A.read_vec(y) if vec else [A.read(y)]
    t.eq(len(gs), len(fs), "members")
    for g, s in zip(gs, xs):
        loops_ok(t, g, [e for e in s if e], "linear_fsa_with_self_loops")
        t.ok(all(a[3] == 0 for a in g.arcs), "scores are zero")


@group(P, 250)
def fst_with_loops(t):
    vec = t.bool(0.7)
    xs = [seq(t, t.upto(6), lo=0) for _ in range(t.int(1, 4) if vec else 1)]
    fs = []
    for s in xs:
        ws = [A.score(t) for _ in range(len(s) + 1)]
        fs.append(A.F(len(s) + 2, linear(s, ws), {"aux_labels": [t.int(0, 5) for _ in s] + [-1]}))
    t.note(fsts=fs, vec=vec)
    x = A.to_vec(fs) if vec else A.to_k2(fs[0])
    y = k2.linear_fst_with_self_loops(x)
    gs = A.read_vec(y, ["aux_labels"]) if vec else [A.read(y, ["aux_labels"])]
    t.eq(len(gs), len(fs), "members")
    for g, f, s in zip(gs, fs, xs):
        loops_ok(t, g, [e for e in s if e], "linear_fst_with_self_loops")
        # the labels, output labels and scores in order along the only path without loops
        outs, ws, groups, cur, w = [], [], [], [], 0.0
        for a, o in zip(f.arcs, f.attrs["aux_labels"]):
            w += a[3]
            if o > 0:
                cur.append(o)
            if a[2] != 0:
                groups.append((a[2], cur, w))
                cur, w = [], 0.0
        got = [(a[2], o, a[3]) for a, o in zip(g.arcs, g.attrs["aux_labels"]) if a[0] != a[1]]
        t.eq([(l, o) for l, o, _ in got], [(l, o) for l, o, _ in groups], "labels and output labels in order")
        t.close([w for _, _, w in got], [w for _, _, w in groups], "scores")
        for a, o in zip(g.arcs, g.attrs["aux_labels"]):
            if a[0] == a[1]:
                t.eq((o, a[3]), ([], 0.0), "an added loop has no output and no score")


# ------------------------------------------------------------------ CTC
def collapse(p):
    r = [k for k, _ in itertools.groupby(p)]
    return tuple(e for e in r if e)


def outs_modified(p):
    """all outputs of an alignment if equal neighbours may or may not be one token: output -> number of ways"""
    r = {(): 1}
    for k, g in itertools.groupby(p):
        n = len(list(g))
        if k == 0:
            continue
        q = {}
        for y, c in r.items():
            for m in range(1, n + 1):        # m tokens share n frames: C(n-1, m-1) ways
                w = 1
                for i in range(1, m):
                    w = w * (n - i) // i
                z = y + (k,) * m
                q[z] = q.get(z, 0) + c * w
        r = q
    return r


def relation(t, g, L):
    """(labels, output labels) of the complete paths of at most L frames -> number of paths"""
    r = {}
    cur = {(0, (), ()): 1}
    aux = g.attrs["aux_labels"]
    for _ in range(L + 1):
        nxt = {}
        for (s, p, y), c in cur.items():
            for i in g.out(s):
                _, d, l, w = g.arcs[i]
                if l == -1:
                    r[(p, y)] = r.get((p, y), 0) + c
                elif len(p) < L:
                    k = (d, p + (l,), y + ((aux[i],) if aux[i] else ()))
                    nxt[k] = nxt.get(k, 0) + c
        cur = nxt
    return r


def topo_ok(t, g, what):
    A.well_formed(t, g, what)
    t.ok(all(a[3] == 0 for a in g.arcs), f"{what}: scores are zero")
    t.eq([a == -1 for a in g.attrs["aux_labels"]], [a[2] == -1 for a in g.arcs], f"{what}: output label -1 on final arcs")


@group(P, 16, 60)
def ctc_topo(t):
    mod = t.idx % 2 == 1
    V = 1 + (t.idx // 2) % 6 if t.idx < 12 else t.int(7, 40)
    t.note(max_token=V, modified=mod)
    g = A.read(k2.ctc_topo(V, mod), ["aux_labels"])
    topo_ok(t, g, "ctc_topo")
    L = {1: 6, 2: 5, 3: 4, 4: 4}.get(V, 3 if V < 10 else 2)
    want = {}
    for n in range(L + 1):
        for p in itertools.product(range(V + 1), repeat=n):
            for y, c in (outs_modified(p) if mod else {collapse(p): 1}).items():
                want[(p, y)] = c
    got = relation(t, g, L)
    t.eq(sorted(got.items()), sorted(want.items()), "alignments and outputs")


@group(P, 10, 40)
def trivial_graph(t):
    V = t.idx + 1 if t.idx < 8 else t.int(9, 200)
    t.note(max_token=V)
    g = A.read(k2.trivial_graph(V), ["aux_labels"])
    topo_ok(t, g, "trivial_graph")
    t.eq(g.n, 2, "states")
    t.eq(sorted((a[0], a[1], a[2], x) for a, x in zip(g.arcs, g.attrs["aux_labels"])),
         sorted([(0, 0, i, i) for i in range(1, V + 1)] + [(0, 1, -1, -1)]), "arcs")


@group(P, 200)
def ctc_graph(t):
    mod = t.bool()
    hi = t.choice([1, 2, 3])
    xs = [seq(t, t.int(0, 3), hi=hi) for _ in range(t.int(1, 4))] if t.bool(0.95) else []
    t.note(symbols=xs, modified=mod)
    x = k2.ctc_graph(form(t, xs), mod)
    gs = A.read_vec(x, ["aux_labels"])
    t.eq(len(gs), len(xs), "one graph per sequence")
    for g, s in zip(gs, xs):
        topo_ok(t, g, "ctc_graph")
        L = len(s) + (3 if len(s) < 3 else 2)
        al = sorted(set(s) | {0})
        want = {}
        for n in range(L + 1):
            for p in itertools.product(al, repeat=n):
                c = outs_modified(p).get(tuple(s), 0) if mod else int(collapse(p) == tuple(s))
                if c:
                    want[(p, tuple(s))] = c
        t.eq(sorted(relation(t, g, L).items()), sorted(want.items()), f"alignments of {s}")


@group(P, 60)
def ctc_long(t):
    """long sequences, compared with themselves alone and by their total number of alignments"""
    mod = t.bool()
    xs = [seq(t, t.int(0, 40), hi=t.choice([1, 3, 500])) for _ in range(t.int(1, 6))]
    t.note(symbols=xs, modified=mod)
    gs = A.read_vec(k2.ctc_graph(form(t, xs), mod), ["aux_labels"])
    for g, s in zip(gs, xs):
        topo_ok(t, g, "ctc_graph")
        h = A.read_vec(k2.ctc_graph([s] if s else form(t, [s]), mod), ["aux_labels"])[0]
        t.eq((g.n, g.arcs, g.attrs), (h.n, h.arcs, h.attrs), "treated as if alone")
        T = len(s) + t.int(0, 8)
        cnt = [0] * g.n
        cnt[0] = 1
        for _ in range(T):
            nxt = [0] * g.n
            for a in g.arcs:
                if a[2] >= 0:
                    nxt[a[1]] += cnt[a[0]]
            cnt = nxt
        got = sum(cnt[a[0]] for a in g.arcs if a[2] == -1)
        # the textbook recursion over blank-extended labels
        al = [(1,) + (0,) * (2 * len(s))]
        e = [0] + [v for c in s for v in (c, 0)]
        al = [0] * len(e)
        for i in range(T):
            new = [0] * len(e)
            for j, v in enumerate(e):
                if i == 0:
                    new[j] = 1 if j < 2 else 0
                    continue
                new[j] = al[j] + (al[j - 1] if j else 0)
                if j >= 2 and v != 0 and (mod or e[j - 2] != v):
                    new[j] += al[j - 2]
            al = new
        want = (al[-1] + (al[-2] if len(e) > 1 else 0)) if T else int(not s)
        t.eq(got, want, f"number of alignments of length {T}")


@group(P, 60)
def by_composition(t):
    """ctc_graph against ctc_topo composed with the linear automaton"""
    mod = t.bool()
    s = seq(t, t.int(1, 4), hi=3)
    t.note(symbols=s, modified=mod)
    g = A.read_vec(k2.ctc_graph([s], mod), ["aux_labels"])[0]
    topo = k2.arc_sort(k2.ctc_topo(max(s), mod))
    h = A.read(k2.compose(topo, k2.arc_sort(k2.linear_fsa_with_self_loops(k2.linear_fsa(s))), treat_epsilons_specially=False),
               ["aux_labels"])
    L = min(6, len(s) + 2)
    t.eq(sorted(relation(t, g, L).items()), sorted(relation(t, h, L).items()), "alignments")

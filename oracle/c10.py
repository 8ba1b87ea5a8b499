"""C10: topological sorting and arc sorting."""
import _k2
import k2
import torch

from oracle import fsa as A
from oracle import vh
from oracle.core import group

P = "C10"
H = vh.Harness("C10")
ATTRS = ["aux_labels", "ids", "f_w", "r_x"]


def attrs_ok(t, got, fs, mps, at, what):
    for k in at:
        for g, f, m in zip(got, fs, mps):
            t.eq(g.attrs[k], [f.attrs[k][i] for i in m], f"{what}: {k}")


def split_map(t, m, fs):
    """a flat arc map of an arc-preserving operation as one permutation per member"""
    out, b = [], 0
    t.eq(len(m), sum(len(f.arcs) for f in fs), "length of the arc map")
    for f in fs:
        x = m[b:b + len(f.arcs)]
        t.eq(sorted(x), list(range(b, b + len(f.arcs))), "the arc map is a permutation of the member's arcs")
        out.append([i - b for i in x])
        b += len(f.arcs)
    return out


def no_entry(f):
    """arcs entering the start state (other than self-loops) are not supported by top_sort"""
    return not any(a[1] == 0 and a[0] != 0 for a in f.arcs)


def top_rand(t, attrs):
    if t.bool(0.05):
        return A.fill(t, A.F(t.int(2, 4), []), attrs)
    return A.rand_fsa(t, acyclic=True, self_loops=t.bool(), shuffle_states=t.bool(0.8), attrs=attrs,
                      max_states=9, max_arcs=12)


def check_top(t, g, f, m, what):
    t.eq(g.n, f.n, what + ": number of states")
    A.well_formed(t, g, what)
    old_new, new_old = {0: 0, f.n - 1: f.n - 1}, {0: 0, f.n - 1: f.n - 1}
    for a, i in zip(g.arcs, m):
        b = f.arcs[i]
        t.eq(a[2:], b[2:], f"{what}: label and score of an output arc")
        t.ok(a[1] >= a[0], f"{what}: arc {a} goes to an earlier state")
        t.eq(a[0] == a[1], b[0] == b[1], f"{what}: self-loops")
        for x, y in ((a[0], b[0]), (a[1], b[1])):
            t.eq(new_old.setdefault(x, y), y, f"{what}: one old state for new state {x}")
            t.eq(old_new.setdefault(y, x), x, f"{what}: one new state for old state {y}")
    if len(f.arcs) < 16 and A.is_acyclic(f):
        t.eq(A.path_bag(g), A.path_bag(f), what + ": paths")


@group(P, 500)
def top_sort(t):
    """top_sort gives arcs that never go back, by a renumbering of the states"""
    vec = t.bool(0.7)
    at = [a for a in ATTRS if t.bool()]
    fs = [top_rand(t, at) for _ in range(t.upto(4) if vec else 1)]
    if not fs:
        at = []
    t.note(fsas=fs)
    x = A.to_vec(fs) if vec else A.to_k2(fs[0])
    x.tag = 5
    y = k2.top_sort(x)
    t.eq(y.arcs.num_axes(), 3 if vec else 2, "number of axes")
    ra, mp = _k2.top_sort(x.arcs, need_arc_map=True)
    got = A.read_vec(y, at)
    mps = split_map(t, mp.tolist(), fs)
    t.eq(len(got), len(fs), "members")
    for i, (g, f, m) in enumerate(zip(got, fs, mps)):
        check_top(t, g, f, m, f"top_sort[{i}]")
    attrs_ok(t, got, fs, mps, at, "top_sort")
    t.eq(y.tag, 5, "other attributes")
    A.same_vec(t, A.read_vec(k2.Fsa(ra)), got, "C++ TopSort", 0)
    ra, _ = _k2.top_sort(x.arcs, need_arc_map=False)
    A.same_vec(t, A.read_vec(k2.Fsa(ra)), got, "TopSort without an arc map", 0)


@group(P, 150)
def cyclic(t):
    """top_sort refuses an automaton with a cycle"""
    f = A.rand_fsa(t, acyclic=False, self_loops=t.bool(), max_states=8, max_arcs=14, final_p=0.15)
    if A.is_acyclic(f, True) or not no_entry(f):
        t.trivial = True
        return
    t.note(fsa=f)
    fs = [A.rand_fsa(t, acyclic=True) for _ in range(t.int(0, 2))] + [f]
    x = A.to_vec(fs) if t.bool() else A.to_k2(f)
    t.raises(lambda: k2.top_sort(x), "top_sort of a cyclic automaton")


def arc_rand(t, attrs):
    if t.bool(0.05):
        return A.fill(t, A.F(t.int(2, 4), []), attrs)
    return A.rand_fsa(t, acyclic=t.bool(), self_loops=t.bool(), shuffle_states=t.bool(), attrs=attrs, sorted_=t.bool(0.2),
                      max_states=t.choice([3, 7]), max_arcs=t.choice([6, 16, 30]), labels=t.choice([2, 5, 2**31 - 2]))


def check_arc(t, g, f, m, what):
    t.eq(g.n, f.n, what + ": number of states")
    t.eq([a for a in g.arcs], [f.arcs[i] for i in m], what + ": arcs given by the arc map")
    keys = [A.arc_key(a) for a in g.arcs]
    t.eq(keys, sorted(keys), what + ": order by label, then destination")


@group(P, 500)
def arc_sort(t):
    """arc_sort orders the arcs of each state and changes nothing else"""
    vec = t.bool(0.7)
    at = [a for a in ATTRS if t.bool()]
    fs = [arc_rand(t, at) for _ in range(t.upto(4) if vec else 1)]
    if not fs:
        at = []
    t.note(fsas=fs)
    x = A.to_vec(fs) if vec else A.to_k2(fs[0])
    x.tag = 5
    y, mp = k2.arc_sort(x, ret_arc_map=True)
    got = A.read_vec(y, at)
    mps = split_map(t, mp.tolist(), fs)
    t.eq(len(got), len(fs), "members")
    for i, (g, f, m) in enumerate(zip(got, fs, mps)):
        check_arc(t, g, f, m, f"arc_sort[{i}]")
    attrs_ok(t, got, fs, mps, at, "arc_sort")
    t.eq(y.tag, 5, "other attributes")
    t.ok(y.properties & k2.fsa_properties.ARC_SORTED, "the result is reported as arc-sorted")
    z = k2.arc_sort(x)
    A.same_vec(t, A.read_vec(z), got, "arc_sort without an arc map", 0)
    ra, mp = _k2.arc_sort(x.arcs, need_arc_map=True)
    g2 = A.read_vec(k2.Fsa(ra))
    for i, (g, f, m) in enumerate(zip(g2, fs, split_map(t, mp.tolist(), fs))):
        check_arc(t, g, f, m, f"C++ ArcSort[{i}]")
    o = H("ArcSortInPlace", *A.harness_args(fs, vec, (t.int(0, 3), t.int(0, 3))))
    g3 = A.harness_read(o)
    g3 = g3 if vec else [g3]
    t.eq(len(g3), len(fs), "members after in-place sorting")
    for i, (g, f) in enumerate(zip(g3, fs)):
        t.eq(g.n, f.n, "states after in-place sorting")
        t.eq(sorted(g.arcs), sorted(f.arcs), "arcs after in-place sorting")
        keys = [A.arc_key(a) for a in g.arcs]
        t.eq(keys, sorted(keys), "order after in-place sorting")


@group(P, 150)
def gradient(t):
    """gradients go back along the arc map"""
    top = t.bool()
    fs = [(top_rand if top else arc_rand)(t, []) for _ in range(t.int(1, 3))]
    t.note(fsas=fs, top=top)
    x = A.to_vec(fs, True)
    y = (k2.top_sort if top else k2.arc_sort)(x)
    if not y.num_arcs:
        t.trivial = True
        return
    _, mp = (_k2.top_sort if top else _k2.arc_sort)(x.arcs, need_arc_map=True)
    mp = mp.tolist() if y is not x else list(range(x.num_arcs))
    c = torch.tensor([t.int(-8, 8) / 2 for _ in range(y.num_arcs)])
    (c * y.scores).sum().backward()
    want = [0.0] * x.num_arcs
    for j, i in enumerate(mp):
        want[i] += c[j].item()
    t.close(x.grad, want, "gradient", 0)


@group(P, 20, thorough=100)
def bigger(t):
    """larger automata"""
    n = t.int(40, 300)
    p = list(range(1, n - 1))
    t.rng.shuffle(p)
    p = [0] + p + [n - 1]
    arcs = []
    for _ in range(t.int(n, 5 * n)):
        s = t.int(0, n - 2)
        d = t.int(s, n - 1)
        arcs.append((p[s], p[d], -1 if d == n - 1 else t.int(0, 6), A.score(t)))
    arcs.sort(key=lambda a: a[0])
    f = A.F(n, arcs)
    t.note(n=n, arcs=len(arcs))
    x = A.to_k2(f)
    ra, mp = _k2.top_sort(x.arcs, need_arc_map=True)
    check_top(t, A.read(k2.Fsa(ra)), f, split_map(t, mp.tolist(), [f])[0], "top_sort")
    ra, mp = _k2.arc_sort(x.arcs, need_arc_map=True)
    check_arc(t, A.read(k2.Fsa(ra)), f, split_map(t, mp.tolist(), [f])[0], "arc_sort")

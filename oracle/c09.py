"""C09: connecting."""
import _k2
import k2
import torch

from oracle import fsa as A
from oracle import vh
from oracle.core import group

P = "C09"
H = vh.Harness("C09")
ATTRS = ["aux_labels", "ids", "f_w", "r_x"]


def trimmed(f):
    """the useful states and arcs, in order; the arcs' old positions"""
    us = sorted(A.useful(f))
    mp = {s: i for i, s in enumerate(us)}
    pos = [i for i, a in enumerate(f.arcs) if a[0] in mp and a[1] in mp]
    arcs = [(mp[f.arcs[i][0]], mp[f.arcs[i][1]]) + f.arcs[i][2:] for i in pos]
    return A.F(len(us), arcs, {k: [v[i] for i in pos] for k, v in f.attrs.items()}), pos


def rand(t, attrs):
    if t.bool(0.06):
        return A.fill(t, A.F(t.int(2, 3), []), attrs)
    kind = t.int(0, 3)
    f = A.rand_fsa(t, acyclic=kind < 2, self_loops=t.bool(), attrs=(), shuffle_states=kind == 1 or t.bool(),
                   max_states=9, max_arcs=9, final_p=t.choice([0.0, 0.1, 0.3]))
    if kind == 3 and f.n > 3:
        # a cycle that cannot be reached or left
        arcs = list(f.arcs)
        s, e = t.rng.sample(range(1, f.n - 1), 2)
        arcs = [a for a in arcs if a[1] not in (s, e) or a[0] in (s, e)] if t.bool() else \
            [a for a in arcs if a[0] not in (s, e) or a[1] in (s, e)]
        arcs += [(s, e, t.int(0, 3), A.score(t)), (e, s, t.int(0, 3), A.score(t))]
        arcs.sort(key=lambda a: a[0])
        f = A.F(f.n, arcs)
    return A.fill(t, f, attrs)


def check(t, x, fs, at, vec):
    want = [trimmed(f) for f in fs]
    y = k2.connect(x)
    t.eq(y.arcs.num_axes(), 3 if vec else 2, "number of axes")
    got = A.read_vec(y, at)
    A.same_vec(t, got, [w for w, _ in want], "connect", 0)
    for k in at:
        t.eq([g.attrs[k] for g in got], [w.attrs[k] for w, _ in want], f"connect: {k}")
    t.eq(sorted(n for n, _ in y.named_tensor_attr()), sorted(n for n, _ in x.named_tensor_attr()), "attribute names")
    t.eq(sorted(y.named_non_tensor_attr()), sorted(x.named_non_tensor_attr()), "other attributes")
    ra, mp = _k2.connect(x.arcs, need_arc_map=True)
    A.same_vec(t, A.read_vec(k2.Fsa(ra)), [w for w, _ in want], "C++ Connect", 0)
    base, exp = 0, []
    for f, (_, pos) in zip(fs, want):
        exp += [base + i for i in pos]
        base += len(f.arcs)
    t.eq(mp.tolist(), exp, "arc map")
    for f, g in zip(fs, got):
        if A.is_acyclic(f, True) and len(f.arcs) < 20:
            t.eq(A.path_bag(g, 12), A.path_bag(f, 12), "paths")
    z = k2.connect(y)
    A.same_vec(t, A.read_vec(z), [w for w, _ in want], "connecting twice", 0)


@group(P, 500)
def one(t):
    """connect keeps the useful states and arcs of one automaton"""
    at = [a for a in ATTRS if t.bool()]
    f = rand(t, at)
    t.note(fsa=f)
    x = A.to_k2(f)
    x.note = "q"
    check(t, x, [f], at, False)


@group(P, 600)
def vector(t):
    """connect works on each member of a vector alone"""
    at = [a for a in ATTRS if t.bool()]
    fs = [rand(t, at) for _ in range(t.upto(5))]
    if not fs:
        at = []
    t.note(fsas=fs)
    x = A.to_vec(fs)
    x.note = "q"
    check(t, x, fs, at, True)


@group(P, 200)
def gradient(t):
    """the gradient follows the arc map"""
    fs = [rand(t, []) for _ in range(t.int(1, 3))]
    t.note(fsas=fs)
    x = A.to_vec(fs, True)
    y = k2.connect(x)
    if not y.num_arcs:
        t.trivial = True
        return
    c = torch.tensor([t.int(-8, 8) / 2 for _ in range(y.num_arcs)])
    (c * y.scores).sum().backward()
    want, base, j = [0.0] * x.num_arcs, 0, 0
    for f in fs:
        for i in trimmed(f)[1]:
            want[base + i] += c[j].item()
            j += 1
        base += len(f.arcs)
    t.close(x.grad, want, "gradient of the input scores", 0)


@group(P, 30, thorough=120)
def bigger(t):
    """larger automata"""
    n = t.int(30, 400)
    arcs = []
    for _ in range(t.int(n // 2, 3 * n)):
        s, d = t.int(0, n - 2), t.int(0, n - 1)
        arcs.append((s, d, -1 if d == n - 1 else t.int(0, 3), 0.5))
    arcs.sort(key=lambda a: a[0])
    f = A.F(n, arcs)
    t.note(n=n, arcs=len(arcs))
    w, _ = trimmed(f)
    A.same_arcs(t, A.read(k2.connect(A.to_k2(f))), w, "connect", 0)


def iso(t, g, f, m, what):
    """g is f restricted to its useful part, its states and arcs in any order; arc i of g is arc m[i] of f"""
    w, pos = trimmed(f)
    t.eq(sorted(m), pos if w.n else [], what + ": the arcs kept")
    t.eq(g.n, w.n, what + ": number of states")
    if not w.n:
        return
    A.well_formed(t, g, what)
    o2n, n2o = {0: 0, f.n - 1: g.n - 1}, {0: 0, g.n - 1: f.n - 1}
    for a, i in zip(g.arcs, m):
        b = f.arcs[i]
        t.eq(a[2:], b[2:], what + ": label and score")
        for x, y in ((a[0], b[0]), (a[1], b[1])):
            t.eq(o2n.setdefault(y, x), x, f"{what}: one new state for old state {y}")
            t.eq(n2o.setdefault(x, y), y, f"{what}: one old state for new state {x}")


@group(P, 400)
def host(t):
    """the CPU-only ConnectHost and TopSortHost keep the useful part"""
    vec, top = t.bool(), t.bool()
    fs = [rand(t, []) for _ in range(t.int(1, 4) if vec else 1)]
    op = "TopSortHost" if top else "ConnectHost"
    t.note(fsas=fs, op=op)
    o = H(op, *A.harness_args(fs, vec))
    ok = o.vec()[0]
    acyclic = [A.is_acyclic(trimmed(f)[0], True) for f in fs]
    if all(A.is_acyclic(f, True) for f in fs):
        t.ok(ok, op + " succeeds if there is no cycle")
    elif not all(acyclic):
        t.ok(not ok, op + " reports a cycle")
    if not ok and (top or vec):
        return
    g = A.harness_read(o)
    m = o.vec()
    gs = g if vec else [g]
    t.eq(len(gs), len(fs), "members")
    i = base = 0
    for k, (x, f, ac) in enumerate(zip(gs, fs, acyclic)):
        n = len(x.arcs)
        iso(t, x, f, [j - base for j in m[i:i + n]], f"{op}[{k}]")
        i, base = i + n, base + len(f.arcs)
        if ok and ac:
            t.ok(all(a[1] >= a[0] for a in x.arcs), f"{op}[{k}] is top-sorted")
    t.eq(i, len(m), "length of the arc map")

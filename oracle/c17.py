"""C17: shortest paths."""
import k2
import _k2
import torch

from oracle import fsa as A
from oracle.core import group

P = "C17"
ATTRS = ["ids", "f_w", "r_x", "aux_labels"]


def check_path(t, f, g, want_score, base, pos, tol, what):
    """g (a linear result carrying pos: the index of the input arc) is a best complete path of f"""
    A.well_formed(t, g, what)
    if want_score == A.NEG and not (g.n and 0 in A.useful(f)):
        t.eq((g.n, g.arcs), (0, []), f"{what}: no complete path gives an empty result")
        return
    n = len(g.arcs)
    t.eq([(a, b) for a, b, _, _ in g.arcs], [(i, i + 1) for i in range(n)], f"{what}: linear")
    t.eq(g.n, n + 1, f"{what}: states of a linear automaton")
    t.ok(all(0 <= p < len(f.arcs) for p in pos), f"{what}: arcs of this member, {pos}")
    p = [f.arcs[i] for i in pos]
    t.ok(n > 0 and p[0][0] == 0 and p[-1][1] == f.n - 1 and all(a[1] == b[0] for a, b in zip(p, p[1:])),
         f"{what}: consecutive arcs from the start to the final state, {p}")
    t.eq([(a[2], a[3]) for a in g.arcs], [(a[2], a[3]) for a in p], f"{what}: labels and scores of the chosen arcs")
    t.close(sum(a[3] for a in p), want_score, f"{what}: score of the path", tol)
    for k in g.attrs:
        t.eq(g.attrs[k], [f.attrs[k][i] for i in pos], f"{what}: {k}")


def run(t, fs, vec, at, dbl, rg, tol=1e-6):
    for f in fs:
        f.attrs["ids"] = list(range(len(f.arcs)))
    x = A.to_vec(fs, rg) if vec else A.to_k2(fs[0], rg)
    x.tag = "t"
    if t.bool(0.3):
        (x if vec else k2.create_fsa_vec([x])).get_tot_scores(dbl, t.bool())      # something cached
    y = k2.shortest_path(x, dbl)
    t.eq(y.tag, "t", "other attributes")
    gs = A.read_vec(y, at)
    t.eq(len(gs), len(fs), "one result per member")
    for f, g in zip(fs, gs):
        check_path(t, f, g, A.total(f, False), 0, g.attrs["ids"], tol, "path")
    t.close(y.get_tot_scores(True, False), [A.total(f, False) for f in fs], "total scores of the result", tol)
    if rg and y.num_arcs:
        c = [t.int(-8, 8) / 2 for _ in range(y.num_arcs)]
        (torch.tensor(c) * y.scores).sum().backward()
        w, k, base = [0.0] * x.num_arcs, 0, 0
        for f, g in zip(fs, gs):
            for i in g.attrs["ids"]:
                w[base + i] += c[k]
                k += 1
            base += len(f.arcs)
        t.close(x.grad, w, "gradient", 1e-6)


@group(P, 500)
def best(t):
    """the result is a best complete path"""
    at = ["ids"] + [a for a in ATTRS[1:] if t.bool(0.3)]
    vec = t.bool(0.85)
    fs = [A.rand_fsa(t, attrs=at, max_states=7, max_arcs=12) for _ in range(t.int(1, 5) if vec else 1)]
    t.note(fsas=fs, vec=vec)
    run(t, fs, vec, at, t.bool(), t.bool())


@group(P, 200)
def ties(t):
    """few distinct scores, many ties and parallel arcs"""
    fs = [A.rand_fsa(t, attrs=["ids"], max_states=5, max_arcs=14) for _ in range(t.int(1, 3))]
    for f in fs:
        f.arcs = [(a, b, c, float(t.int(-1, 1))) for a, b, c, _ in f.arcs]
    t.note(fsas=fs)
    run(t, fs, True, ["ids"], t.bool(), t.bool())


@group(P, 200)
def disconnected(t):
    """dead states, unreachable states, scores of minus infinity"""
    fs = [A.rand_fsa(t, attrs=["ids"], max_states=7, max_arcs=7, final_p=0.05) for _ in range(t.int(1, 4))]
    inf = t.bool(0.4)
    for f in fs:
        f.arcs = [(a, b, c, A.NEG if inf and t.bool(0.2) else w) for a, b, c, w in f.arcs]
    t.note(fsas=fs)
    run(t, fs, True, ["ids"], t.bool(), False)


@group(P, 25)
def large(t):
    fs = []
    for _ in range(t.int(1, 5)):
        n = t.choice([2, 3, 40, 150])
        arcs = [(i, i + 1, -1 if i == n - 2 else 1, A.score(t)) for i in range(n - 1) if t.bool(0.995)]
        for _ in range(t.choice([0, n, 4 * n])):
            s = t.int(0, n - 2)
            d = min(n - 1, s + t.int(1, t.choice([2, 8, n])))
            arcs.append((s, d, -1 if d == n - 1 else t.int(0, 3), A.score(t)))
        fs.append(A.F(n, sorted(arcs, key=lambda a: a[0]), {}))
    t.note(shapes=[(f.n, len(f.arcs)) for f in fs])
    run(t, fs, True, ["ids"], t.bool(), False)


@group(P, 150)
def after_changes(t):
    """the path follows the current scores, whatever was computed before"""
    fs = [A.rand_fsa(t, attrs=["ids"], max_states=5, max_arcs=8) for _ in range(t.int(1, 3))]
    for f in fs:
        f.attrs["ids"] = list(range(len(f.arcs)))
    t.note(fsas=fs)
    x = A.to_vec(fs, False)
    for _ in range(t.int(2, 4)):
        dbl = t.bool()
        if t.bool():
            _ = x.get_forward_scores(t.bool(), t.bool())
        y = k2.shortest_path(x, dbl)
        for f, g in zip(fs, A.read_vec(y, ["ids"])):
            check_path(t, f, g, A.total(f, False), 0, g.attrs["ids"], 1e-6, "path")
        for f in fs:
            f.arcs = [(a, b, c, A.score(t)) for a, b, c, _ in f.arcs]
            f.__dict__.pop("_out", None)
        x.scores = torch.tensor([a[3] for f in fs for a in f.arcs], dtype=torch.float32)

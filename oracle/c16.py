"""C16: forward, backward and total scores, arc posteriors, their batching and their caching."""
import _k2
import k2
import torch

from oracle import fsa as A
from oracle.core import group

P = "C16"
COMBOS = [(d, l) for d in (False, True) for l in (False, True)]


def posts(f, log):
    a, b = A.forward(f, log), A.backward(f, log)
    tot = A.total(f, log)
    if tot == A.NEG:
        return [A.NEG] * len(f.arcs)
    return [a[s] + w + b[d] - tot for s, d, _, w in f.arcs]


def cat(xs):
    return [v for x in xs for v in x]


def check(t, x, fs, combos, what):
    for dbl, log in combos:
        tol = 1e-9 if dbl else 2e-5
        w = f"{what} double={dbl} log={log}"
        dt = torch.float64 if dbl else torch.float32
        mx = 1 + max([abs(a[3]) for f in fs for a in f.arcs] + [0]) * (max([f.n for f in fs] + [0]) ** 0.5)
        for name, want in (("forward_scores", cat(A.forward(f, log) for f in fs)),
                           ("backward_scores", cat(A.backward(f, log) for f in fs)),
                           ("tot_scores", [A.total(f, log) for f in fs]),
                           ("arc_post", cat(posts(f, log) for f in fs))):
            for pre in t.rng.sample(["get_", "_get_"], t.int(1, 2)):
                v = getattr(x, pre + name)(use_double_scores=dbl, log_semiring=log)
                t.eq(v.dtype, dt, f"{w}: dtype of {pre}{name}")
                t.close(v.detach(), want, f"{w}: {pre}{name}", tol, tol * mx)


def small(t, **kw):
    kw.setdefault("max_states", 7)
    kw.setdefault("max_arcs", 12)
    return A.rand_fsa(t, **kw)


def scaled(t, f, k):
    f.arcs = [(a, b, c, d * k) for a, b, c, d in f.arcs]
    return f


@group(P, 400)
def scores(t):
    """all four score functions against textbook recursions, each member on its own"""
    k = t.choice([1, 1, 1, 0.125, 10, 50])
    fs = [scaled(t, small(t), k) for _ in range(t.int(0, 4))] or [small(t)]
    t.note(fsas=fs)
    check(t, A.to_vec(fs, t.bool()), fs, COMBOS if t.bool(0.3) else [t.choice(COMBOS)], "vector")


@group(P, 200)
def by_paths(t):
    """total and arc scores against an enumeration of the complete paths"""
    f = small(t, max_states=6, max_arcs=8)
    t.note(fsa=f)
    ps = A.paths(f, None, 2000)
    if ps is None:
        return
    x = A.to_vec([f], False)
    for log in (False, True):
        op = A.logsum if log else lambda v: max(list(v) + [A.NEG])
        t.close(x.get_tot_scores(True, log), [op([A.path_score(f, p) for p in ps])], f"total log={log}", 1e-9)
        tot = op([A.path_score(f, p) for p in ps])
        if ps:
            want = [op([A.path_score(f, p) for p in ps if i in p]) - tot for i in range(len(f.arcs))]
            t.close(x.get_arc_post(True, log), want, f"posteriors log={log}", 1e-9)


@group(P, 40)
def large(t):
    """long chains and wide fans: many and large batches"""
    fs = []
    for _ in range(t.int(1, 5)):
        n = t.choice([2, 3, 20, 60, 150])
        m = t.choice([0, n, 4 * n])
        w = t.choice([1, 2, 8, n])
        arcs = [(i, i + 1, -1 if i == n - 2 else 1, A.score(t)) for i in range(n - 1) if t.bool(0.99)]
        for _ in range(m):
            s = t.int(0, n - 2)
            d = min(n - 1, s + t.int(1, w))
            arcs.append((s, d, -1 if d == n - 1 else t.int(0, 3), A.score(t)))
        fs.append(A.F(n, sorted(arcs, key=lambda a: a[0])))
    t.note(shapes=[(f.n, len(f.arcs)) for f in fs])
    check(t, A.to_vec(fs, False), fs, [t.choice(COMBOS)], "large")


@group(P, 200)
def neg_inf(t):
    """arcs with score minus infinity behave as absent ones in the log and the max"""
    fs = [small(t, max_states=5, max_arcs=7) for _ in range(t.int(1, 3))]
    for f in fs:
        f.arcs = [(a, b, c, A.NEG if t.bool(0.2) else w) for a, b, c, w in f.arcs]
    t.note(fsas=fs)
    x = A.to_vec(fs, False)
    for dbl, log in COMBOS:
        tol = 1e-9 if dbl else 2e-5
        t.close(x.get_forward_scores(dbl, log), cat(A.forward(f, log) for f in fs), f"forward double={dbl} log={log}", tol)
        t.close(x.get_backward_scores(dbl, log), cat(A.backward(f, log) for f in fs), f"backward double={dbl} log={log}", tol)
        t.close(x.get_tot_scores(dbl, log), [A.total(f, log) for f in fs], f"total double={dbl} log={log}", tol)


@group(P, 300)
def histories(t):
    """values never outlive an assignment of scores"""
    fs = [small(t, max_states=5, max_arcs=7) for _ in range(t.int(1, 3))]
    t.note(fsas=fs)
    x = A.to_vec(fs, t.bool())
    others = []                # (object, its own score) that must not change
    n = sum(len(f.arcs) for f in fs)

    def now(ws):
        r, i = [], 0
        for f in fs:
            k = len(f.arcs)
            r.append(A.F(f.n, [(a, b, c, w) for (a, b, c, _), w in zip(f.arcs, ws[i:i + k])]))
            i += k
        return r
    ws = [a[3] for f in fs for a in f.arcs]
    for _ in range(t.int(2, 6)):
        op = t.choice(["query", "query", "assign", "scale", "clone", "stochastic", "labels", "grad", "cdf"])
        t.log(op)
        if op == "query":
            check(t, x, now(ws), [t.choice(COMBOS)], "after " + op)
        elif op == "assign":
            ws = [A.score(t) for _ in range(n)]
            x.scores = torch.tensor(ws, dtype=torch.float32)
        elif op == "scale":
            with torch.no_grad():
                x = x.detach() if x.requires_grad else x
                x.scores *= 0.5
            ws = [w * 0.5 for w in ws]
        elif op == "clone":
            y = x.clone()
            others.append((y, list(ws)))
        elif op == "stochastic" and n:
            x = x.detach() if x.requires_grad else x
            x.set_scores_stochastic_(x.scores)
            ws = x.scores.tolist()
        elif op == "labels" and n:
            x.labels = torch.tensor([-1 if v == -1 else t.int(0, 5) for v in x.labels.tolist()], dtype=torch.int32)
        elif op == "grad":
            x.requires_grad_(t.bool()) if x.scores.is_leaf else None
        elif op == "cdf":
            d = t.bool()
            x._get_arc_post(d, True)
            x._get_arc_cdf(d, True)
            x._get_entering_arcs(t.bool())
    check(t, x, now(ws), COMBOS, "at the end")
    # what is cached is what an object made afresh with these scores computes
    y = A.to_vec(now(ws), False)
    for d in (True, False):
        t.close(x._get_arc_post(d, True).tolist(), y._get_arc_post(d, True).tolist(), f"posteriors of arcs, double={d}", 1e-5, 1e-5)
        t.close(x._get_arc_cdf(d, True).tolist(), y._get_arc_cdf(d, True).tolist(), f"cumulative probabilities of arcs, double={d}", 1e-5, 1e-5)
    # the best arc entering each state agrees with the current scores
    e = x._get_entering_arcs(True).tolist()
    base, arc = 0, 0
    for f in now(ws):
        a = A.forward(f, False)
        for s in range(f.n):
            i = e[base + s]
            if s == 0 or a[s] == A.NEG:
                continue
            j = i - arc
            t.ok(0 <= j < len(f.arcs) and f.arcs[j][1] == s, "best arc enters its state")
            t.close(a[f.arcs[j][0]] + f.arcs[j][3], a[s], "best arc is best", 1e-5)
        base += f.n
        arc += len(f.arcs)
    for y, w in others:
        check(t, y, now(w), [t.choice(COMBOS)], "earlier clone")


@group(P, 300)
def batches(t):
    """states, entering and leaving arcs are grouped so that arcs only lead to later batches"""
    fs = [small(t) for _ in range(t.int(0, 4))] or [small(t)]
    t.note(fsas=fs)
    x = A.to_vec(fs, False)
    so, ao = [0], [0]
    for f in fs:
        so.append(so[-1] + f.n)
        ao.append(ao[-1] + len(f.arcs))
    for tr in (True, False):
        b = _k2.get_state_batches(x.arcs, tr).tolist()
        where = {}
        if not tr:
            t.eq(len(b), len(fs), "one list of batches per member")
        for i, r in enumerate(b):
            if tr:
                t.eq(len(r), len(fs), "every batch has one list per member")
            for j, l in enumerate(r):
                fi, bi = (j, i) if tr else (i, j)
                for s in l:
                    t.ok(s not in where, "a state appears once")
                    t.ok(so[fi] <= s < so[fi + 1], "states belong to their member")
                    where[s] = bi
        t.eq(sorted(where), list(range(so[-1])), "every state appears")
        for f, o in zip(fs, so):
            for a in f.arcs:
                t.ok(where[o + a[0]] < where[o + a[1]], f"arc {a} leads to a later batch (transpose={tr})")
    sb = _k2.get_state_batches(x.arcs, True)
    dest1 = cat([a[1] for a in f.arcs] for f in fs)
    dest01 = cat([o + a[1] for a in f.arcs] for f, o in zip(fs, so))
    src01 = cat([o + a[0] for a in f.arcs] for f, o in zip(fs, so))
    t.eq(_k2.get_dest_states(x.arcs, False).tolist(), dest1, "destination states within members")
    d = _k2.get_dest_states(x.arcs, True)
    t.eq(d.tolist(), dest01, "destination states")
    inc = _k2.get_incoming_arcs(x.arcs, d)
    t.eq([[sorted(l) for l in r] for r in inc.tolist()],
         [[[i for i, v in enumerate(dest01) if v == s] for s in range(so[k], so[k + 1])] for k in range(len(fs))],
         "incoming arcs")
    ent = _k2.get_entering_arc_index_batches(x.arcs, inc, sb).tolist()
    lea = _k2.get_leaving_arc_index_batches(x.arcs, sb).tolist()
    want_e = [[[[i for i, v in enumerate(dest01) if v == s] for s in l] for l in r] for r in sb.tolist()]
    want_l = [[[[i for i, v in enumerate(src01) if v == s] for s in l] for l in r] for r in sb.tolist()]

    def srt(v):
        return [[[sorted(l) for l in q] for q in r] for r in v]
    t.eq(srt(ent), want_e, "entering arcs in batches")
    t.eq(srt(lea), want_l, "leaving arcs in batches")
    for name, f in (("_get_state_batches", sb), ("_get_incoming_arcs", inc)):
        t.eq(getattr(x, name)().tolist(), f.tolist(), name)


@group(P, 60)
def written_in_place(t):
    """writing into the scores tensor (a listed finding: the cache does not notice)"""
    f = small(t, max_states=4, max_arcs=5, empty_ok=False)
    if not f.arcs:
        return
    t.note(fsa=f)
    x = A.to_vec([f], False)
    queried = t.bool(0.7)
    if queried:
        check(t, x, [f], [(True, True)], "before")
    i = t.int(0, len(f.arcs) - 1)
    w = A.score(t)
    x.scores[i] = w
    g = A.F(f.n, [(a, b, c, w if j == i else d) for j, (a, b, c, d) in enumerate(f.arcs)])
    t.close(x.scores, g.col(3), "the scores themselves")
    got = x.get_tot_scores(True, True)[0].item()
    if queried and abs(A.total(g, True) - A.total(f, True)) > 1e-9 and A.total(f, True) != A.NEG:
        if abs(got - A.total(f, True)) < 1e-9:
            t.known["scores-written-in-place"] = True
            x.scores = x.scores
            got = x.get_tot_scores(True, True)[0].item()
    t.close(got, A.total(g, True), "total", 1e-9)

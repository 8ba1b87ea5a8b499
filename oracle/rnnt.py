"""Reference for the transducer lattices: explicit dynamic programming over lattice nodes in double, by autograd."""
import torch

INF = float("inf")


def lse(xs):
    xs = [x for x in xs if x is not None and float(x.detach()) != -INF]
    if not xs:
        return None
    return xs[0] if len(xs) == 1 else torch.logsumexp(torch.stack(xs), 0)


def total(px, py, bound, modified):
    """log-sum over the alignments of one sequence. px(s, t), py(s, t) give scalars (or None = not allowed)"""
    s0, t0, s1, t1 = bound
    p = {}
    for s in range(s0, s1 + 1):
        for t in range(t0, t1 + 1):
            if (s, t) == (s0, t0):
                p[s, t] = torch.zeros((), dtype=torch.float64)
                continue
            c = []
            q = (s - 1, t - 1) if modified else (s - 1, t)
            if p.get(q) is not None:
                w = px(*q)
                if w is not None:
                    c.append(p[q] + w)
            if p.get((s, t - 1)) is not None:
                w = py(s, t - 1)
                if w is not None:
                    c.append(p[s, t - 1] + w)
            p[s, t] = lse(c)
    return p[s1, t1]


def paths(bound, modified):
    """alignments as lists of ('x'|'y', s, t)"""
    s0, t0, s1, t1 = bound

    def rec(s, t, acc):
        if (s, t) == (s1, t1):
            yield list(acc)
            return
        d = 1 if modified else 0
        if s < s1 and t + d <= t1:
            acc.append(("x", s, t))
            yield from rec(s + 1, t + d, acc)
            acc.pop()
        if t < t1:
            acc.append(("y", s, t))
            yield from rec(s, t + 1, acc)
            acc.pop()
    yield from rec(s0, t0, [])


def rand_boundary(t, B, S, T, modified, begin=True, full_first=False):
    """rows [s_begin, t_begin, s_end, t_end]; in the modified topologies t_end - t_begin >= s_end - s_begin"""
    rows = []
    for b in range(B):
        if full_first and b == 0:
            rows.append([0, 0, S, T])
            continue
        s0 = t.int(0, S) if begin and t.bool(0.3) else 0
        t0 = t.int(0, T) if begin and t.bool(0.3) else 0
        s1 = t.int(s0, S)
        t1 = t.int(t0, T)
        if modified:
            s1 = min(s1, s0 + t1 - t0)
            if s1 > t1:
                s0, t0, s1, t1 = 0, 0, min(S, T), T
        rows.append([s0, t0, s1, t1])
    return rows


def close(a, b, tol):
    if a == b:
        return True
    return abs(a - b) <= tol * (1 + abs(b))

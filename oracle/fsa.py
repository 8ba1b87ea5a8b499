"""Automata as plain Python data, with independent definitions of what they accept."""
import math
from collections import Counter

import _k2
import k2
import torch

NEG = -math.inf


def logadd(a, b):
    if a == NEG:
        return b
    if b == NEG:
        return a
    m = max(a, b)
    return m + math.log(math.exp(a - m) + math.exp(b - m))


def logsum(xs):
    r = NEG
    for x in xs:
        r = logadd(r, x)
    return r


def plus(log):
    return logadd if log else max


class F:
    """states 0..n-1, start 0, final n-1; arcs (src, dest, label, score) ordered by src; attrs: name -> list per arc"""

    def __init__(self, n, arcs, attrs=None):
        self.n, self.arcs, self.attrs = n, [tuple(a) for a in arcs], dict(attrs or {})

    def __repr__(self):
        return f"F({self.n}, {self.arcs}" + (f", {self.attrs}" if self.attrs else "") + ")"

    def text(self):
        return "".join(f"{s} {d} {l} {w}\n" for s, d, l, w in self.arcs) + (f"{self.n - 1}\n" if self.n else "")

    def splits(self):
        r = [0] * (self.n + 1)
        for a in self.arcs:
            r[a[0] + 1] += 1
        for i in range(self.n):
            r[i + 1] += r[i]
        return r

    def out(self, s):
        if not hasattr(self, "_out"):
            self._out = [[] for _ in range(self.n)]
            for i, a in enumerate(self.arcs):
                self._out[a[0]].append(i)
        return self._out[s]

    def col(self, k):
        return [a[k] for a in self.arcs]


def i32(x):
    return torch.tensor(x, dtype=torch.int32)


def arcs_tensor(arcs):
    if not arcs:
        return torch.empty((0, 4), dtype=torch.int32)
    t = torch.tensor([a[:3] for a in arcs], dtype=torch.int32)
    w = torch.tensor([a[3] for a in arcs], dtype=torch.float32).view(torch.int32)
    return torch.cat([t, w[:, None]], 1).contiguous()


def shape2(splits):
    return k2.ragged.create_ragged_shape2(row_splits=i32(splits))


def set_attrs(x, fs):
    names = fs[0].attrs.keys() if fs else []
    for k in names:
        v = [y for f in fs for y in f.attrs[k]]
        kind = next((y for y in v if y is not None), None)
        if isinstance(kind, list) or k.startswith("r_"):
            s, flat = [0], []
            for y in v:
                flat += y
                s.append(len(flat))
            setattr(x, k, k2.RaggedTensor(shape2(s), i32(flat)))
        elif isinstance(kind, float) or k.startswith("f_"):
            setattr(x, k, torch.tensor(v, dtype=torch.float32))
        else:
            setattr(x, k, torch.tensor(v, dtype=torch.int32))
    return x


def to_k2(f, requires_grad=False):
    x = k2.Fsa(_k2.RaggedArc(shape2(f.splits()), arcs_tensor(f.arcs)))
    set_attrs(x, [f])
    if requires_grad:
        x.requires_grad_(True)
    return x


def to_vec(fs, requires_grad=False):
    s1, s2, arcs = [0], [0], []
    for f in fs:
        base = s2[-1]
        s1.append(s1[-1] + f.n)
        s2 += [base + y for y in f.splits()[1:]]
        arcs += f.arcs
    sh = shape2(s1).compose(shape2(s2))
    x = k2.Fsa(_k2.RaggedArc(sh, arcs_tensor(arcs)))
    set_attrs(x, fs)
    if requires_grad:
        x.requires_grad_(True)
    return x


def attr_list(v):
    return v.tolist()


def read(x, attrs=()):
    """an Fsa as F, an FsaVec as a list of F (attributes as given)"""
    arcs = x.arcs
    sh = arcs.shape()
    vals = arcs.values()
    sc = vals[:, 3].contiguous().view(torch.float32).tolist() if vals.shape[0] else []
    rows = [(a[0], a[1], a[2], w) for a, w in zip(vals.tolist(), sc)]
    at = {k: attr_list(getattr(x, k)) for k in attrs}
    if arcs.num_axes() == 2:
        return F(arcs.dim0(), rows, at)
    s1, s2 = sh.row_splits(1).tolist(), sh.row_splits(2).tolist()
    ans = []
    for i in range(len(s1) - 1):
        b, e = s2[s1[i]], s2[s1[i + 1]]
        ans.append(F(s1[i + 1] - s1[i], rows[b:e], {k: v[b:e] for k, v in at.items()}))
    return ans


def read_vec(x, attrs=()):
    r = read(x, attrs)
    return r if isinstance(r, list) else [r]


def well_formed(t, f, what):
    """the structural rules every automaton k2 returns obeys"""
    s = None
    for a in f.arcs:
        t.ok(0 <= a[0] < f.n and 0 <= a[1] < f.n, f"{what}: states in range in {f}")
        t.ok((a[2] == -1) == (a[1] == f.n - 1), f"{what}: label -1 exactly on arcs entering the final state, in {f}")
        t.ok(a[2] >= -1, f"{what}: labels >= -1")
        t.ok(s is None or a[0] >= s, f"{what}: arcs ordered by source state")
        s = a[0]


# ------------------------------------------------------------------ generators
def score(t):
    return t.int(-12, 12) / 4


def rand_fsa(t, acyclic=True, self_loops=False, eps=0.2, max_states=6, max_arcs=10, labels=3, final_p=0.25,
             connected=False, sorted_=False, empty_ok=True, attrs=(), pos=True, shuffle_states=False, eps_loops=True,
             loop_labels=None):
    """a valid random automaton"""
    r = t.rng
    if empty_ok and t.bool(0.04):
        return fill(t, F(0, []), attrs)
    n = max(2, t.upto(max_states))
    m = t.upto(max_arcs)
    arcs = []

    def lab():
        return 0 if r.random() < eps else t.int(1, labels)

    def w():
        return score(t) if pos else -abs(score(t))
    chain = r.random() < 0.6
    if chain:               # a spine so that complete paths are common
        sp = sorted(r.sample(range(1, n - 1), t.int(0, n - 2))) if n > 2 else []
        st = [0] + sp + [n - 1]
        for a, b in zip(st, st[1:]):
            arcs.append((a, b, -1 if b == n - 1 else lab(), w()))
    for _ in range(m):
        s = t.int(0, n - 2)
        if r.random() < final_p:
            d = n - 1
        elif acyclic:
            if s + 1 > n - 2:
                d = n - 1
            else:
                d = t.int(s + 1, n - 2)
        else:
            d = t.int(0, n - 2)
        if d == s and not self_loops and acyclic:
            continue
        l = -1 if d == n - 1 else lab()
        if not eps_loops and l == 0 and d <= s:
            l = t.int(1, labels)
        arcs.append((s, d, l, w()))
        if r.random() < 0.12:       # a parallel arc
            arcs.append((s, d, l if r.random() < 0.6 or l == -1 else lab() or 1, w()))
    if self_loops:
        for s in range(n - 1):
            if r.random() < 0.3:
                l = lab()
                if l == 0 and not eps_loops:
                    l = 1
                arcs.append((s, s, l, w() if l or not eps_loops else -abs(score(t)) - .25))
    if connected:
        f = F(n, sorted(arcs))
        keep = useful(f)
        ids = sorted(keep | {0, n - 1})
        if not keep:
            return rand_fsa(t, acyclic, self_loops, eps, max_states, max_arcs, labels, 0.6, connected, sorted_, False, attrs,
                            pos, shuffle_states, eps_loops)
        mp = {s: i for i, s in enumerate(ids)}
        arcs = [(mp[a], mp[b], c, d) for a, b, c, d in arcs if a in keep and b in keep]
        n = len(ids)
    if shuffle_states and n > 2:
        p = list(range(1, n - 1))
        r.shuffle(p)
        p = [0] + p + [n - 1]
        arcs = [(p[a], p[b], c, d) for a, b, c, d in arcs]
    r.shuffle(arcs)
    arcs.sort(key=arc_key if sorted_ else (lambda a: a[0]))
    return fill(t, F(n, arcs), attrs)


def arc_key(a):
    return (a[0], a[2] % 2**32, a[1])


def fill(t, f, attrs):
    """random attributes; 'aux_labels' obeys the -1 convention, r_* are ragged, f_* floats"""
    for k in attrs:
        if k.startswith("r_"):
            f.attrs[k] = [[] if t.bool(0.3) else [t.int(1, 5) for _ in range(t.int(0, 3))] for _ in f.arcs]
        elif k.startswith("f_"):
            f.attrs[k] = [score(t) for _ in f.arcs]
        elif k == "aux_labels":
            f.attrs[k] = [-1 if a[2] == -1 else (0 if t.bool(0.3) else t.int(1, 4)) for a in f.arcs]
        else:
            f.attrs[k] = [t.int(0, 50) for _ in f.arcs]
    return f


def rand_vec(t, lo=0, hi=4, **kw):
    return [rand_fsa(t, **kw) for _ in range(max(lo, t.upto(hi)))]


# ------------------------------------------------------------------ definitions
def accessible(f):
    if f.n == 0:
        return set()
    seen, todo = {0}, [0]
    while todo:
        for i in f.out(todo.pop()):
            d = f.arcs[i][1]
            if d not in seen:
                seen.add(d)
                todo.append(d)
    return seen


def coaccessible(f):
    if f.n == 0:
        return set()
    inc = [[] for _ in range(f.n)]
    for a in f.arcs:
        inc[a[1]].append(a[0])
    seen, todo = {f.n - 1}, [f.n - 1]
    while todo:
        for s in inc[todo.pop()]:
            if s not in seen:
                seen.add(s)
                todo.append(s)
    return seen


def useful(f):
    r = accessible(f) & coaccessible(f)
    return r if f.n and 0 in r and f.n - 1 in r else set()


def is_acyclic(f, loops_ok=False):
    """no cycles (self-loops aside if loops_ok)"""
    state = [0] * f.n
    for s0 in range(f.n):
        if state[s0]:
            continue
        stack = [(s0, iter(f.out(s0)))]
        state[s0] = 1
        while stack:
            s, it = stack[-1]
            for i in it:
                d = f.arcs[i][1]
                if d == s and loops_ok:
                    continue
                if state[d] == 1:
                    return False
                if state[d] == 0:
                    state[d] = 1
                    stack.append((d, iter(f.out(d))))
                    break
            else:
                state[s] = 2
                stack.pop()
    return True


def paths(f, max_len=None, cap=3000):
    """complete paths as tuples of arc positions (at most max_len arcs); None if there are more than cap"""
    res = []
    if f.n < 2:
        return res
    useful_ = useful(f)
    stack = [((), 0)]
    while stack:
        p, s = stack.pop()
        if s == f.n - 1 and p:
            res.append(p)
            if len(res) > cap:
                return None
            continue
        if max_len is not None and len(p) >= max_len:
            continue
        for i in reversed(f.out(s)):
            if f.arcs[i][1] in useful_:
                stack.append((p + (i,), f.arcs[i][1]))
        if len(stack) > 20 * cap:
            return None
    return res


def path_score(f, p):
    return sum(f.arcs[i][3] for i in p)


def path_labels(f, p, drop_eps=False):
    return tuple(f.arcs[i][2] for i in p if not (drop_eps and f.arcs[i][2] == 0))


def path_bag(f, max_len=None, attrs=(), cap=3000):
    """the multiset of (label sequence, attribute sequences, score) of the complete paths"""
    ps = paths(f, max_len, cap)
    if ps is None:
        return None
    c = Counter()
    for p in ps:
        at = tuple(tuple(str(f.attrs[k][i]) for i in p) for k in attrs)
        c[(path_labels(f, p), at, round(path_score(f, p), 4))] += 1
    return c


def score_bag(f, max_len=None, drop_eps=True, cap=3000):
    """multiset of (labels, score)"""
    ps = paths(f, max_len, cap)
    if ps is None:
        return None
    return Counter((path_labels(f, p, drop_eps), round(path_score(f, p), 3)) for p in ps)


def forward(f, log):
    """forward scores of a top-sorted acyclic automaton"""
    a = [NEG] * f.n
    op = plus(log)
    if f.n:
        a[0] = 0.0
    for s in range(f.n):
        for i in f.out(s):
            _, d, _, w = f.arcs[i]
            a[d] = op(a[d], a[s] + w)
    return a


def backward(f, log):
    b = [NEG] * f.n
    op = plus(log)
    if f.n:
        b[-1] = 0.0
    for s in range(f.n - 1, -1, -1):
        for i in f.out(s):
            _, d, _, w = f.arcs[i]
            b[s] = op(b[s], b[d] + w)
    return b


def total(f, log):
    return forward(f, log)[-1] if f.n else NEG


def lang(f, max_len, log=False, labels=None):
    """the score of every epsilon-free label sequence (final -1 not shown) of at most max_len symbols"""
    if f.n < 2:
        return {}
    op = plus(log)
    lab = labels or [a[2] for a in f.arcs]
    us = useful(f)
    if not us:
        return {}

    def closure(v):
        tot, cur = dict(v), dict(v)
        for _ in range(f.n + 1):
            nxt = {}
            for s, x in cur.items():
                for i in f.out(s):
                    d = f.arcs[i][1]
                    if lab[i] == 0 and d in us:
                        nxt[d] = op(nxt.get(d, NEG), x + f.arcs[i][3])
            if log:
                if not nxt:
                    break
                for s, x in nxt.items():
                    tot[s] = op(tot.get(s, NEG), x)
                cur = nxt
            else:
                cur = {}
                for s, x in nxt.items():
                    if x > tot.get(s, NEG):
                        tot[s] = x
                        cur[s] = x
                if not cur:
                    break
        return tot
    res = {}
    todo = [((), closure({0: 0.0}))]
    while todo:
        s, v = todo.pop()
        fin, step = NEG, {}
        for q, x in v.items():
            for i in f.out(q):
                _, d, _, w = f.arcs[i]
                if d not in us:
                    continue
                if d == f.n - 1:
                    fin = op(fin, x + w)
                elif lab[i] != 0:
                    e = step.setdefault(lab[i], {})
                    e[d] = op(e.get(d, NEG), x + w)
        if fin != NEG:
            res[s] = fin
        if len(s) < max_len:
            for l, e in step.items():
                todo.append((s + (l,), closure(e)))
    return res


def same_lang(t, got, want, what, tol=1e-3):
    g = {k: v for k, v in got.items() if v > -1e9}
    w = {k: v for k, v in want.items() if v > -1e9}
    t.eq(sorted(g), sorted(w), what + ": accepted sequences")
    for k in w:
        t.close(g[k], w[k], f"{what}: score of {k}", tol)


def same_arcs(t, got, want, what, tol=1e-5):
    """two F with the same arcs in the same order"""
    t.eq(got.n, want.n, what + ": number of states")
    t.eq([a[:3] for a in got.arcs], [a[:3] for a in want.arcs], what + ": arcs")
    t.close(got.col(3), want.col(3), what + ": scores", tol)


def same_vec(t, got, want, what, tol=1e-5):
    t.eq(len(got), len(want), what + ": number of members")
    for i, (g, w) in enumerate(zip(got, want)):
        same_arcs(t, g, w, f"{what}[{i}]", tol)


def snapshot(x):
    """everything observable about an Fsa"""
    r = [repr(read(x))]
    for k, v in sorted(x.named_tensor_attr()):
        r.append((k, str(v.tolist())))
    for k, v in sorted(x.named_non_tensor_attr()):
        r.append((k, repr(v)))
    return r


def arc_map_list(m):
    return m.tolist()


def harness_args(fs, vec, flags=(0, 0)):
    """arguments for vh::GetFsa"""
    from oracle import vh
    s1, s2, arcs = [0], [0], []
    for f in fs:
        base = s2[-1]
        s1.append(s1[-1] + f.n)
        s2 += [base + y for y in f.splits()[1:]]
        arcs += f.arcs
    sh = vh.Shape([s1, s2], list(flags)) if vec else vh.Shape([s2], [flags[0]])
    return sh, [y for a in arcs for y in a[:3]], [float(a[3]) for a in arcs]


def harness_read(o):
    """what vh::PutFsa wrote"""
    ly = o.layers()
    a, w = o.vec(), o.vecd()
    rows = [(a[3 * i], a[3 * i + 1], a[3 * i + 2], w[i]) for i in range(len(w))]
    if len(ly) == 1:
        return F(len(ly[0][0]) - 1, rows)
    s1, s2 = ly[0][0], ly[1][0]
    return [F(s1[i + 1] - s1[i], rows[s2[s1[i]]:s2[s1[i + 1]]]) for i in range(len(s1) - 1)]

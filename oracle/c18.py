"""C18: gradients and attributes follow arcs.

r_src on the input is the list [own index] of every arc; every operation must
concatenate it, so on a result it says which input arcs an output arc stands for.
Scores are distinct enough that a wrong r_src shows up as a wrong score.
"""
import _k2
import k2
import torch

import oracle.c04          # noqa: F401  (its ragged gradients count for C18 as well)
from oracle import fsa as A
from oracle.core import group

P = "C18"


def gen(t, attrs, **kw):
    kw.setdefault("max_states", 5)
    kw.setdefault("max_arcs", 7)
    kw.setdefault("empty_ok", False)
    f = A.rand_fsa(t, attrs=attrs, **kw)
    f.arcs = [(a, b, c, t.int(-2000, 2000) / 64) for a, b, c, _ in f.arcs]
    return f


class Track:
    """an automaton with its derivation from the inputs"""

    def __init__(self, x, flat, names, fillers):
        self.x, self.flat, self.names, self.fillers = x, flat, names, fillers


def derivs(y):
    return A.attr_list(y.r_src)


def check(t, y, x, src, names, fillers, what, ragged=False, kept=None):
    """y is derived from x through r_src; src: name -> list of the input's values"""
    d = derivs(y)
    t.eq(len(d), y.num_arcs, f"{what}: one derivation per arc")
    sc = y.scores.tolist()
    t.close(sc, [sum(src["scores"][i] for i in r) for r in d], f"{what}: scores", 1e-4)
    arcs = y.arcs.values()[:, 3].contiguous().view(torch.float32).tolist() if y.num_arcs else []
    t.eq(sc, arcs, f"{what}: scores attribute and scores on the arcs")
    for k in names:
        v = getattr(y, k)
        fill = fillers.get(k, 0)
        if k.startswith("f_"):
            t.eq(v.dtype, torch.float32, f"{what}: type of {k}")
            if ragged and all(d):       # (no filler in a sum)
                t.close(v, [sum(src[k][i] for i in r) for r in d], f"{what}: {k}", 1e-4)
            else:
                got = v.tolist()
                for i, r in enumerate(d):
                    ok = [sum(src[k][j] for j in r)] if r else [fill, 0] if ragged else [fill]
                    t.ok(any(abs(got[i] - w) < 1e-3 for w in ok), f"{what}: {k} of arc {i}: {got[i]}, expected {ok[0]}")
        elif k.startswith("r_"):
            t.eq(A.attr_list(v), [[e for i in r for e in src[k][i]] for r in d], f"{what}: {k}")
        elif ragged and not isinstance(v, torch.Tensor):
            t.eq(A.attr_list(v), [[src[k][i] for i in r if src[k][i] != fill and not (src[k][i] == -1 and src["labels"][i] == -1)] for r in d],
                 f"{what}: {k}")
        else:
            t.eq(v.dtype, torch.int32, f"{what}: type of {k}")
            t.eq(v.tolist(), [src[k][r[0]] if r else fill for r in d], f"{what}: {k}")
    if x.requires_grad and y.num_arcs:
        t.ok(y.requires_grad, f"{what}: gradients are tracked")
        c = [t.int(-8, 8) / 2 for _ in range(y.num_arcs)]
        g, = torch.autograd.grad((torch.tensor(c) * y.scores).sum(), x.scores, retain_graph=True)
        w = [0.0] * x.num_arcs
        for r, k in zip(d, c):
            for i in r:
                w[i] += k
        t.close(g, w, f"{what}: gradient", 1e-4)
    # tensors do not alias: attributes are as long as there are arcs
    for k, v in y.named_tensor_attr():
        t.eq(v.shape[0] if isinstance(v, torch.Tensor) else v.dim0, y.num_arcs, f"{what}: length of {k}")


def add_eps(x):
    return k2.add_epsilon_self_loops(x)


TENSOR_OPS = {
    "arc_sort": lambda t, x: k2.arc_sort(x),
    "top_sort": lambda t, x: k2.top_sort(x),
    "connect": lambda t, x: k2.connect(k2.top_sort(x)),
    "add_epsilon_self_loops": lambda t, x: k2.add_epsilon_self_loops(x),
    "remove_epsilon_self_loops": lambda t, x: k2.remove_epsilon_self_loops(x),
    "reverse": lambda t, x: k2.reverse(x),
    "clone": lambda t, x: x.clone(),
    "to": lambda t, x: x.to("cpu"),
    "closure": lambda t, x: k2.closure(x),
    "union": lambda t, x: k2.union(x),
    "vec": lambda t, x: k2.create_fsa_vec([x]),
    "vec2": lambda t, x: k2.create_fsa_vec([x, x, x]),
    "from_fsas": lambda t, x: k2.Fsa.from_fsas([x]),
    "item": lambda t, x: x[t.int(0, x.shape[0] - 1)],
    "shortest_path": lambda t, x: k2.shortest_path(k2.top_sort(x), t.bool()),
    "prune": lambda t, x: k2.prune_on_arc_post(k2.connect(k2.top_sort(x)), 0.05, t.bool()),
    "replace": lambda t, x: k2.replace_fsa(k2.create_fsa_vec([k2.linear_fsa([1])]), x, 60),
}
SINGLE = {"closure", "vec", "vec2", "from_fsas", "connect"}
VEC = {"union", "item", "prune"}
RAGGED_OPS = {
    "remove_epsilon": lambda t, x: k2.remove_epsilon(x),
    "remove_epsilon_and_add_self_loops": lambda t, x: k2.remove_epsilon_and_add_self_loops(x),
    "determinize": lambda t, x: k2.determinize(k2.connect(k2.remove_epsilon(x))),
}
ACYCLIC = {"top_sort", "connect", "shortest_path", "prune"}


def make(t, vec, acyclic=True, names=("n_a", "f_w", "r_x")):
    names = [k for k in names if t.bool(0.7)]
    fs = [gen(t, names, acyclic=acyclic, self_loops=False) for _ in range(t.int(1, 3) if vec else 1)]
    base = 0
    for f in fs:
        f.attrs["r_src"] = [[base + i] for i in range(len(f.arcs))]
        base += len(f.arcs)
        if "n_a" in f.attrs:
            f.attrs["n_a"] = [t.choice([-1, 0, 0, 7, 8, 9]) for _ in f.arcs]
    x = A.to_vec(fs) if vec else A.to_k2(fs[0])
    fillers = {}
    for k in names:
        if not k.startswith("r_") and t.bool(0.4):
            fillers[k] = t.choice([-1, 5])
            setattr(x, k + "_filler", fillers[k])
    src = {k: [e for f in fs for e in f.attrs[k]] for k in names}
    src["scores"] = [a[3] for f in fs for a in f.arcs]
    src["labels"] = [a[2] for f in fs for a in f.arcs]
    x.tag = ("some", "object")
    x.requires_grad_(t.bool(0.8))
    return fs, x, names, fillers, src


def run_ops(t, x, vec, n, acyclic):
    y, done = x, []
    cyc = not acyclic
    for _ in range(n):
        v = len(y.shape) == 3
        c = [k for k in TENSOR_OPS if not (k in SINGLE and v) and not (k in VEC and not v) and not (k in ACYCLIC and cyc)]
        if y.num_arcs > 60:
            break
        k = t.choice(c)
        if k == "item" and y.shape[0] == 0 or k == "union" and y.shape[0] == 0:
            continue
        if k in ("union", "closure", "reverse", "replace", "connect"):
            # these want at least two states in every member
            sizes = A.read(y) if isinstance(A.read(y), list) else [A.read(y)]
            if any(f.n < 2 for f in sizes):
                continue
        t.log(k)
        y = TENSOR_OPS[k](t, y)
        if k in ("closure", "add_epsilon_self_loops", "reverse", "union", "replace"):
            cyc = cyc or k in ("closure", "add_epsilon_self_loops")
            if k in ("reverse", "union", "replace") and not cyc:
                y = k2.top_sort(y)
        done.append(k)
    return y, done


@group(P, 500)
def chains(t):
    """chains of structural operations"""
    vec, acyclic = t.bool(), t.bool(0.8)
    fs, x, names, fillers, src = make(t, vec, acyclic)
    t.note(fsas=fs, fillers=fillers)
    y, done = run_ops(t, x, vec, t.int(1, 4), acyclic)
    check(t, y, x, src, names, fillers, "chain")
    t.eq(y.tag, ("some", "object"), "object attribute")
    for k, v in fillers.items():
        t.eq(getattr(y, k + "_filler"), v, "fillers are carried over")


@group(P, 300)
def ragged_ops(t):
    """operations whose output arcs stand for several input arcs, after a chain of others"""
    vec = t.bool(0.3)
    fs, x, names, fillers, src = make(t, vec)
    t.note(fsas=fs, fillers=fillers)
    y = x
    for k in [t.choice(["arc_sort", "top_sort", "clone"]) for _ in range(t.int(0, 2))]:
        t.log(k)
        y = TENSOR_OPS[k](t, y)
    k = t.choice(list(RAGGED_OPS))
    t.log(k)
    if k == "remove_epsilon_and_add_self_loops" or k == "determinize":
        if any(f.n == 0 for f in fs):
            return
    if k == "determinize":      # (does not support gradients)
        x = x.detach()
        y = x
    # the int attribute becomes ragged here, and a second ragged operation keeps it so
    y = RAGGED_OPS[k](t, y)
    check(t, y, x, src, names, fillers, k, ragged=True)
    t.eq(y.tag, ("some", "object"), "object attribute")


@group(P, 400)
def unary_tensor(t):
    """fsa_from_unary_function_tensor with any arc map"""
    fs, x, names, fillers, src = make(t, t.bool())
    g = gen(t, [])
    n = x.num_arcs
    m = [t.int(-1, n - 1) if n else -1 for _ in g.arcs]
    t.note(src=fs, dest=g, arc_map=m, fillers=fillers)
    ws = [0.0 if i < 0 else src["scores"][i] for i in m]
    g.arcs = [(a, b, c, w) for (a, b, c, _), w in zip(g.arcs, ws)]
    y = k2.utils.fsa_from_unary_function_tensor(x, A.to_k2(g).arcs, A.i32(m))
    t.eq(derivs(y), [[] if i < 0 else [i] for i in m], "ragged attribute")
    check(t, y, x, src, names, fillers, "unary")
    t.eq(y.tag, x.tag, "object attribute")


@group(P, 400)
def unary_ragged(t):
    """fsa_from_unary_function_ragged with any arc map, with and without fillers"""
    fs, x, names, fillers, src = make(t, t.bool())
    g = gen(t, [])
    n = x.num_arcs
    m = [[t.int(0, n - 1) for _ in range(t.int(0, 3))] if n else [] for _ in g.arcs]
    t.note(src=fs, dest=g, arc_map=m, fillers=fillers)
    ws = [sum(src["scores"][i] for i in r) for r in m]
    g.arcs = [(a, b, c, w) for (a, b, c, _), w in zip(g.arcs, ws)]
    s, flat = [0], []
    for r in m:
        flat += r
        s.append(len(flat))
    am = k2.RaggedTensor(A.shape2(s), A.i32(flat))
    rf = t.bool(0.8)
    y = k2.utils.fsa_from_unary_function_ragged(x, A.to_k2(g).arcs, am, remove_filler=rf)
    t.eq(derivs(y), m, "ragged attribute")
    if rf:
        check(t, y, x, src, names, fillers, "unary", ragged=True)
    t.eq(y.tag, x.tag, "object attribute")


@group(P, 400)
def binary(t):
    """fsa_from_binary_function_tensor: attributes of both, shared real attributes add"""
    def side(p):
        f = gen(t, [p + "ids", "f_" + p, "r_" + p, "f_both"])
        x = A.to_k2(f, t.bool(0.8))
        setattr(x, p + "tag", p)
        x.common = p
        fill = {}
        for k in (p + "ids", "f_" + p):
            if t.bool(0.4):
                fill[k] = t.choice([-1, 4])
                setattr(x, k + "_filler", fill[k])
        return f, x, fill
    (a, x, fa), (b, y, fb) = side("a"), side("b")
    g = gen(t, [])
    ma = [t.int(-1, len(a.arcs) - 1) for _ in g.arcs]
    mb = [t.int(-1, len(b.arcs) - 1) for _ in g.arcs]
    g.arcs = [(p, q, l, (a.arcs[i][3] if i >= 0 else 0) + (b.arcs[j][3] if j >= 0 else 0))
              for (p, q, l, _), i, j in zip(g.arcs, ma, mb)]
    t.note(a=a, b=b, dest=g, a_map=ma, b_map=mb, fillers=(fa, fb))
    z = k2.utils.fsa_from_binary_function_tensor(x, y, A.to_k2(g).arcs, A.i32(ma), A.i32(mb))
    for p, f, m, fl in (("a", a, ma, fa), ("b", b, mb, fb)):
        t.eq(getattr(z, p + "ids").tolist(), [f.attrs[p + "ids"][i] if i >= 0 else fl.get(p + "ids", 0) for i in m], f"int of {p}")
        t.close(getattr(z, "f_" + p), [f.attrs["f_" + p][i] if i >= 0 else fl.get("f_" + p, 0) for i in m], f"float of {p}")
        t.eq(A.attr_list(getattr(z, "r_" + p)), [f.attrs["r_" + p][i] if i >= 0 else [] for i in m], f"ragged of {p}")
        t.eq(getattr(z, p + "tag"), p, f"object attribute of {p}")
    t.eq(z.common, "a", "the first object attribute wins")
    t.close(z.f_both, [(a.attrs["f_both"][i] if i >= 0 else 0) + (b.attrs["f_both"][j] if j >= 0 else 0) for i, j in zip(ma, mb)],
            "shared real attribute")
    t.close(z.scores, g.col(3), "scores", 1e-5)
    if z.num_arcs and (x.requires_grad or y.requires_grad):
        c = [t.int(-8, 8) / 2 for _ in g.arcs]
        (torch.tensor(c) * z.scores).sum().backward()
        for f, v, m, p in ((a, x, ma, "a"), (b, y, mb, "b")):
            if v.requires_grad:
                w = [0.0] * len(f.arcs)
                for i, k in zip(m, c):
                    if i >= 0:
                        w[i] += k
                t.close(v.grad, w, f"gradient of {p}", 1e-5)


# ------------------------------------------------------------------ scores
def ref(fs, scores, log):
    """forward, backward, total scores and arc posteriors of plain automata as differentiable torch expressions"""
    def comb(vs):
        if not vs:
            return None
        v = torch.stack(vs)
        return torch.logsumexp(v, 0) if log else v[int(torch.argmax(v))]
    fw, bw, tot, post, base = [], [], [], [], 0
    for f in fs:
        a = [None] * f.n
        b = [None] * f.n
        if f.n:
            a[0] = torch.zeros((), dtype=torch.float64)
            b[-1] = torch.zeros((), dtype=torch.float64)
        for s in range(1, f.n):
            a[s] = comb([a[p] + scores[base + i] for i, (p, q, _, _) in enumerate(f.arcs) if q == s and a[p] is not None])
        for s in range(f.n - 2, -1, -1):
            b[s] = comb([b[q] + scores[base + i] for i, (p, q, _, _) in enumerate(f.arcs) if p == s and b[q] is not None])
        fw += a
        bw += b
        tot.append(a[-1] if f.n else None)
        for i, (p, q, _, _) in enumerate(f.arcs):
            post.append(None if a[p] is None or b[q] is None or a[-1] is None else
                        a[p] + scores[base + i] + b[q] - 0.5 * (a[-1] + b[0]))
        base += len(f.arcs)
    return {"get_forward_scores": fw, "get_backward_scores": bw, "get_tot_scores": tot, "get_arc_post": post}


def distinct_paths(f):
    """no two complete or partial paths between the same states tie (so that the best one has a derivative)"""
    def tied(pairs):
        pairs = sorted(pairs, reverse=True)
        return len(pairs) > 1 and abs(pairs[0] - pairs[1]) < 1e-6
    a, b = A.forward(f, False), A.backward(f, False)
    for s in range(f.n):
        if tied([a[p] + w for p, q, _, w in f.arcs if q == s and a[p] != A.NEG]):
            return False
        if tied([b[q] + w for p, q, _, w in f.arcs if p == s and b[q] != A.NEG]):
            return False
    return True


@group(P, 500)
def score_gradients(t):
    """derivatives of the score functions against automatic differentiation of the textbook recursion"""
    fs = [gen(t, [], empty_ok=True, max_states=6, max_arcs=9) for _ in range(t.int(1, 3))]
    for f in fs:
        f.arcs = [(a, b, c, w / 8) for a, b, c, w in f.arcs]
    dbl, log = t.bool(), t.bool()
    fn = t.choice(["get_forward_scores", "get_backward_scores", "get_tot_scores", "get_tot_scores", "get_arc_post"])
    t.note(fsas=fs, fn=fn, double=dbl, log=log)
    if not log and not all(distinct_paths(f) for f in fs):
        t.trivial = True
        return
    x = A.to_vec(fs, True)
    if t.bool(0.3):
        x.get_tot_scores(t.bool(), t.bool())
    y = getattr(x, fn)(dbl, log)
    s = torch.tensor([a[3] for f in fs for a in f.arcs], dtype=torch.float64, requires_grad=True)
    want = ref(fs, s, log)[fn]
    t.close(y.detach(), [A.NEG if w is None else w.item() for w in want], "value", 1e-4)
    c = [t.int(-8, 8) / 2 for _ in want]
    # minus infinity has no derivative; leave those out of the sum, as a user would
    if any(w is None for w in want) and fn == "get_arc_post":
        t.trivial = True
        return
    c = [0.0 if w is None else k for w, k in zip(want, c)]
    if not x.num_arcs or not any(w is not None and w.requires_grad for w in want):
        return
    g, = torch.autograd.grad(sum(k * w for k, w in zip(c, want) if w is not None), s, allow_unused=True)
    keep = [i for i, w in enumerate(want) if w is not None]
    if len(keep) < len(want) and t.bool():
        (y[keep] * torch.tensor([c[i] for i in keep], dtype=y.dtype)).sum().backward()
    else:
        y.backward(torch.tensor(c, dtype=y.dtype))
    got = x.grad if x.grad is not None else torch.zeros(x.num_arcs)
    t.close(got, g if g is not None else [0.0] * len(s), f"derivative of {fn}", 2e-4)


@group(P, 150)
def through_chain(t):
    """the gradient of a total score taken after a chain of operations"""
    f = gen(t, [], max_states=5, max_arcs=6)
    f.arcs = [(a, b, c, w / 16) for a, b, c, w in f.arcs]
    t.note(fsa=f)
    ps = A.paths(f, None, 500)
    if not ps:
        t.trivial = True
        return
    x = A.to_k2(f, True)
    y = x
    for k in [t.choice(["arc_sort", "top_sort", "connect", "clone", "reverse"]) for _ in range(t.int(1, 4))]:
        if A.read(y).n < 2:
            return
        t.log(k)
        y = TENSOR_OPS[k](t, y)
        if k == "reverse":
            y = k2.top_sort(y)
    y = k2.create_fsa_vec([k2.connect(y)] * t.int(1, 2))
    n = y.shape[0]
    log = t.bool()
    if not log and not distinct_paths(f):
        return
    y.get_tot_scores(t.bool(), log).sum().backward()
    s = torch.tensor(f.col(3), dtype=torch.float64, requires_grad=True)
    v = torch.stack([s[list(p)].sum() for p in ps])
    (n * (torch.logsumexp(v, 0) if log else v.max())).backward()
    t.close(x.grad, s.grad, "gradient", 2e-4)

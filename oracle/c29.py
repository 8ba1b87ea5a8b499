"""C29: operations leave their inputs as they were, and give the same answer again."""
import k2
import torch

from oracle import fsa as A
from oracle import vh
from oracle import dense as D
from oracle.c02 import py_rag
from oracle.core import group

P = "C29"


# ---- what can be observed

def tens(v):
    return (str(v.dtype), tuple(v.shape), str(v.tolist()))


def snap(x, grads=True):
    """everything observable about a value; floats to the last bit"""
    if isinstance(x, k2.Fsa):
        r = [("arcs", tens(x.arcs.values()), snap(x.arcs.shape())), ("requires_grad", x.requires_grad)]
        for k, v in sorted(x.named_tensor_attr()):
            r.append((k, snap(v, grads)))
        for k, v in sorted(x.named_non_tensor_attr()):
            r.append((k, repr(v)))
        r.append(("properties", x.properties))
        # anything kept in the object's cache must go with the scores
        if x.arcs.num_axes() == 3 and x.properties & k2.fsa_properties.TOPSORTED_AND_ACYCLIC:
            for n, v in sorted(x._cache.items()):
                if isinstance(v, torch.Tensor):
                    r.append(("cache " + n, None))
        return ("Fsa", [e for e in r if e[1] is not None])
    if isinstance(x, k2.DenseFsaVec):
        return ("Dense", tens(x.scores), tens(x._duration) if hasattr(x, "_duration") else None,
                snap(x.dense_fsa_vec.shape()), tens(x.dense_fsa_vec.scores()) if hasattr(x.dense_fsa_vec, "scores") else None)
    if isinstance(x, k2.RaggedTensor):
        return ("Ragged", str(x.dtype), snap(x.shape), tens(x.values), x.requires_grad)
    if isinstance(x, k2.RaggedShape):
        return ("Shape", x.num_axes, [tens(x.row_splits(i)) for i in range(1, x.num_axes)],
                [tens(x.row_ids(i)) for i in range(1, x.num_axes)], [x.tot_size(i) for i in range(x.num_axes)])
    if isinstance(x, torch.Tensor):
        return ("Tensor",) + tens(x) + (x.requires_grad, x.is_leaf, None if not x.is_leaf or x.grad is None or not grads
                                        else tens(x.grad))
    if isinstance(x, (list, tuple)):
        return [snap(v, grads) for v in x]
    if isinstance(x, dict):
        return [(k, snap(v, grads)) for k, v in sorted(x.items())]
    if hasattr(x, "fsa") and hasattr(x, "shape"):                     # Nbest
        return ("Nbest", snap(x.fsa), snap(x.shape))
    return repr(x) if not hasattr(x, "num_axes") else str(x)


def first_difference(a, b, at=""):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, at if isinstance(x, str) else f"{at}/{x[0]}" if isinstance(x, tuple) and x and isinstance(x[0], str)
                                 else f"{at}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{at}: {str(a)[:200]} became {str(b)[:200]}"


def same(t, a, b, what):
    t.checks += 1
    d = first_difference(a, b)
    if d:
        t.ok(False, f"{what}: {d}")


def run(t, name, inputs, fn, deterministic=True, backward=True):
    """fn(*inputs) twice"""
    t.note(op=name)
    before = snap(inputs)
    r1 = fn(*inputs)
    same(t, before, snap(inputs), f"{name}: input")
    if not deterministic:
        return
    s1 = snap(r1, False)
    for v in inputs:                                   # queries in between must not matter
        if isinstance(v, k2.Fsa) and t.bool(0.3):
            v.properties
    r2 = fn(*inputs)
    same(t, before, snap(inputs), f"{name}: input, after the second run")
    same(t, s1, snap(r1, False), f"{name}: first result, after the second run")
    same(t, s1, snap(r2, False), f"{name}: result of the second run")
    if not backward:
        return
    outs = []

    def collect(v):
        if isinstance(v, k2.Fsa):
            outs.append(v.scores)
        elif isinstance(v, k2.RaggedTensor):
            outs.append(v.values)
        elif isinstance(v, torch.Tensor):
            outs.append(v)
        elif isinstance(v, (list, tuple)):
            for e in v:
                collect(e)
    collect(r2)
    loss = [torch.where(torch.isfinite(v), v, torch.zeros_like(v)).sum() for v in outs
            if v.dtype.is_floating_point and v.requires_grad and v.grad_fn is not None and v.numel()]
    if loss:
        sum(v.double() for v in loss).backward(retain_graph=True)
        same(t, snap(strip(before), False), snap(strip(snap(inputs)), False), f"{name}: input, after backpropagation")
        same(t, s1, snap(r1, False), f"{name}: first result, after backpropagation")


def strip(s):
    """a snapshot without gradients"""
    if isinstance(s, tuple) and s and s[0] == "Tensor":
        return s[:-1]
    if isinstance(s, (list, tuple)):
        return [strip(v) for v in s]
    return s


# ---- inputs

ATTRS = ["aux_labels", "f_w", "r_x"]


def attrs(t):
    return [a for a in ATTRS if t.bool(0.6)]


def dress(t, x, fs):
    """vary how an equal automaton is held: own memory, a part of something larger, tracked scores, cached queries"""
    if t.bool(0.35):
        k = t.int(0, 2)
        if k == 0:
            x.requires_grad_(True)
        elif k == 1:
            leaf = x.scores.detach().clone().requires_grad_(True)
            x.scores = leaf * 1.0
        else:
            x.scores = x.scores.detach().clone().requires_grad_(True)
    if t.bool(0.2):
        x.note = "text"
    if t.bool(0.2):
        x.set_filler = None if False else 0
        x.f_w_filler = 2.5
    if t.bool(0.3) and x.arcs.num_axes() == 3 and x.properties & k2.fsa_properties.TOPSORTED_AND_ACYCLIC:
        x._get_tot_scores(use_double_scores=t.bool(), log_semiring=t.bool())
    return x


def vec(t, names=None, n=None, dressed=True, **kw):
    kw.setdefault("max_states", 5)
    kw.setdefault("max_arcs", 7)
    names = attrs(t) if names is None else names
    n = n or t.int(1, 3)
    fs = [A.rand_fsa(t, attrs=names, **kw) for _ in range(n)]
    if t.bool(0.3):                            # members of a larger vector
        more = [A.rand_fsa(t, attrs=names, **kw)] + fs + [A.rand_fsa(t, attrs=names, **kw)]
        big = A.to_vec(more, False)
        x = k2.index_fsa(big, torch.arange(1, n + 1, dtype=torch.int32))
    else:
        x = A.to_vec(fs, False)
    t.note(fsas=fs)
    return dress(t, x, fs) if dressed else x


def one(t, names=None, dressed=True, **kw):
    kw.setdefault("max_states", 6)
    kw.setdefault("max_arcs", 9)
    f = A.rand_fsa(t, attrs=attrs(t) if names is None else names, **kw)
    t.note(fsa=f)
    if t.bool(0.3):
        x = A.to_vec([A.rand_fsa(t, attrs=list(f.attrs), **kw), f], False)[1]
    else:
        x = A.to_k2(f, False)
    return dress(t, x, [f]) if dressed else x


def either(t, **kw):
    return one(t, **kw) if t.bool() else vec(t, **kw)


def rag(t, dtype=None, **kw):
    dtype = dtype or t.choice([torch.int32, torch.float32, torch.float64])
    r = vh.rand_rag(t, **kw)
    t.note(ragged=str(r), dtype=str(dtype))
    x = py_rag(t, r, dtype)
    if dtype != torch.int32 and t.bool():
        x.requires_grad_(True)
    return x


def idx(t, n, m=5, neg=False):
    if not n:
        return torch.zeros(0, dtype=torch.int32)
    v = [t.int(-1 if neg else 0, n - 1) for _ in range(t.int(0, m))]
    return torch.tensor(v, dtype=torch.int32)


def dense(t, C=4, n=None, T=5):
    n = n or t.int(1, 3)
    g = torch.Generator().manual_seed(t.int(0, 1 << 30))
    lp = torch.log_softmax(torch.randn(n, T, C, generator=g), -1)
    if t.bool():
        lp.requires_grad_(True)
    segs = sorted([[i, 0, t.int(1, T)] for i in range(n)], key=lambda s: -s[2])
    sup = torch.tensor(segs, dtype=torch.int32)
    before = snap([lp, sup])
    d = k2.DenseFsaVec(lp, sup, allow_truncate=t.choice([0, 1]))
    same(t, before, snap([lp, sup]), "DenseFsaVec: input")
    return d


# ---- operations on automata

UNARY = {
    "arc_sort": lambda t: (either(t, acyclic=False), k2.arc_sort),
    "connect": lambda t: (either(t, acyclic=False), k2.connect),
    "top_sort": lambda t: (k2.connect(either(t, acyclic=True, shuffle_states=True)), k2.top_sort),
    "add_epsilon_self_loops": lambda t: (either(t, acyclic=False), k2.add_epsilon_self_loops),
    "remove_epsilon_self_loops": lambda t: (vec(t, acyclic=False, self_loops=True), k2.remove_epsilon_self_loops),
    "remove_epsilon": lambda t: (vec(t), k2.remove_epsilon),
    "remove_epsilon_and_add_self_loops": lambda t: (vec(t), k2.remove_epsilon_and_add_self_loops),
    "determinize": lambda t: (k2.connect(vec(t, dressed=False, eps=0, pos=False)), k2.determinize),
    "invert": lambda t: (either(t, names=["aux_labels"] + [a for a in ("f_w", "r_x") if t.bool()]), k2.invert),
    "Fsa.invert": lambda t: (either(t, names=["aux_labels", "f_w"]), lambda x: x.invert()),
    "invert (ragged)": lambda t: (ragged_aux(t), k2.invert),
    "closure": lambda t: (one(t, connected=True, empty_ok=False), k2.closure),
    "reverse": lambda t: (either(t), k2.reverse),
    "union": lambda t: (vec(t, empty_ok=False), k2.union),
    "shortest_path": lambda t: (vec(t), lambda x: k2.shortest_path(x, use_double_scores=True)),
    "expand_ragged_attributes": lambda t: (either(t, names=["aux_labels", "r_x"]), k2.expand_ragged_attributes),
    "clone": lambda t: (either(t), lambda x: x.clone()),
    "detach": lambda t: (either(t), lambda x: x.detach()),
    "to": lambda t: (either(t), lambda x: x.to("cpu")),
    "as_dict": lambda t: (either(t), lambda x: x.as_dict()),
    "to_str": lambda t: (one(t), lambda x: [k2.to_str(x, openfst=False), k2.to_str(x, openfst=True)]),
    "to_str_simple": lambda t: (one(t), lambda x: k2.to_str_simple(x)),
    "to_tensor": lambda t: (either(t), lambda x: k2.to_tensor(x)),
    "to_dot": lambda t: (one(t, names=["aux_labels"]), lambda x: str(k2.to_dot(x))),
    "str": lambda t: (either(t), str),
    "getitem": lambda t: (vec(t), lambda x: x[0]),
    "member": lambda t: (vec(t), lambda x: [x[i] for i in range(x.shape[0])]),
    "prune_on_arc_post": lambda t: (vec(t), lambda x: k2.prune_on_arc_post(x, 0.2, True)),
    "random_paths": lambda t: (vec(t, connected=True), lambda x: k2.random_paths(x, use_double_scores=True, num_paths=3)),
    "get_tot_scores": lambda t: (vec(t), lambda x: x.get_tot_scores(True, False)),
    "get_tot_scores log": lambda t: (vec(t), lambda x: x.get_tot_scores(False, True)),
    "get_forward_scores": lambda t: (vec(t), lambda x: x.get_forward_scores(True, True)),
    "get_backward_scores": lambda t: (vec(t), lambda x: x.get_backward_scores(True, True)),
    "get_arc_post": lambda t: (vec(t), lambda x: x.get_arc_post(True, True)),
    "properties": lambda t: (either(t, acyclic=False), lambda x: (x.properties, x.properties_str, x.shape, x.num_arcs)),
    "trees": lambda t: (vec(t), lambda x: [x._get_state_batches(), x._get_dest_states(), x._get_incoming_arcs(),
                                           x._get_leaving_arc_batches(), x._get_entering_arc_batches()]),
    "k2.ragged arcs": lambda t: (either(t), lambda x: x.arcs_as_tensor() if hasattr(x, "arcs_as_tensor") else None),
    "levenshtein_alignment": None,
}
UNARY = {k: v for k, v in UNARY.items() if v}


def ragged_aux(t):
    x = either(t, names=["r_x", "f_w"])
    x.aux_labels = x.r_x.remove_values_leq(0)
    return x


@group(P, 700, thorough=8000)
def unary(t):
    name = sorted(UNARY)[t.idx % len(UNARY)]
    x, fn = UNARY[name](t)
    run(t, name, [x], fn)


def pair(t, **kw):
    sh = dict(max_states=4, max_arcs=6)
    sh.update(kw)
    return sh


BINARY = {
    "intersect": lambda t: ([k2.arc_sort(either(t, names=["f_w"], **pair(t))), k2.arc_sort(one(t, names=["r_x"], **pair(t)))],
                            lambda a, b: k2.intersect(a, b, treat_epsilons_specially=t.idx % 2 == 0)),
    "compose": lambda t: ([k2.arc_sort(one(t, names=["aux_labels", "f_w"], **pair(t))),
                           k2.arc_sort(one(t, names=["aux_labels", "r_x"], **pair(t)))],
                          lambda a, b: k2.compose(a, b, treat_epsilons_specially=t.idx % 2 == 0)),
    "compose_inner": lambda t: ([one(t, names=["aux_labels"], **pair(t)), one(t, names=["aux_labels"], **pair(t))],
                                lambda a, b: k2.compose(a, k2.arc_sort(b), inner_labels="mid")),
    "intersect_device": lambda t: ([k2.arc_sort(vec(t, names=["f_w"], n=2, **pair(t))), vec(t, names=["r_x"], n=2, **pair(t)),
                                    torch.tensor([0, 1], dtype=torch.int32)],
                                   lambda a, b, m: k2.intersect_device(a, b, m, sorted_match_a=t.idx % 2 == 0)),
    "cat": lambda t: ([vec(t, names=["f_w"]), vec(t, names=["f_w"])], lambda a, b: k2.cat([a, b])),
    "create_fsa_vec": lambda t: ([one(t, names=["f_w", "r_x"]), one(t, names=["f_w", "r_x"])], lambda a, b: k2.create_fsa_vec([a, b])),
    "index_fsa": lambda t: (lambda x: [x, idx(t, x.shape[0])])(vec(t)),
    "is_rand_equivalent": lambda t: ([one(t, names=[], **pair(t)), one(t, names=[], **pair(t))],
                                     lambda a, b: k2.is_rand_equivalent(a, b, log_semiring=False)),
    "replace_fsa": lambda t: ([vec(t, names=["f_w"], n=2), one(t, names=["f_w"], eps=0)], lambda s, i: k2.replace_fsa(s, i, 1)),
    "dense": lambda t: ([k2.arc_sort(vec(t, names=["aux_labels", "r_x"], n=2, labels=3, acyclic=False)), dense(t, n=2)],
                        lambda f, d: k2.intersect_dense(f, d, output_beam=10.0)),
    "dense pruned": lambda t: ([k2.arc_sort(vec(t, names=["aux_labels", "r_x"], n=1, labels=3, acyclic=False)), dense(t)],
                               lambda f, d: k2.intersect_dense_pruned(f, d, search_beam=8.0, output_beam=8.0,
                                                                      min_active_states=1, max_active_states=20)),
    "to_fsa_vec": lambda t: ([dense(t)], lambda d: k2.convert_dense_to_fsa_vec(d)),
    "dense members": lambda t: ([dense(t)], lambda d: (d.dim0(), d.duration.clone(), str(d), d.to("cpu"))),
    "dense index": lambda t: (lambda d: [d, idx(t, d.dim0(), 3)])(dense(t)),
}


@group(P, 500, thorough=6000)
def binary(t):
    name = sorted(BINARY)[t.idx % len(BINARY)]
    r = BINARY[name](t)
    if name == "index_fsa":
        inputs, fn = r, k2.index_fsa
    elif name == "dense index":
        inputs, fn = r, lambda d, i: d[i] if i.numel() else None
        if not hasattr(k2.DenseFsaVec, "__getitem__"):
            return
    else:
        inputs, fn = r
    run(t, name, inputs, fn, deterministic=name not in ("is_rand_equivalent",), backward=name not in ("dense members",))


# ---- ragged tensors and shapes

RAGGED = {
    "sum": lambda t, x: x.sum(), "logsumexp": lambda t, x: x.logsumexp() if x.dtype != torch.int32 else None,
    "max": lambda t, x: x.max(initial_value=-5), "min": lambda t, x: x.min(initial_value=5), "argmax": lambda t, x: x.argmax(),
    "normalize": lambda t, x: x.normalize(use_log=True) if x.dtype != torch.int32 else None,
    "normalize_": lambda t, x: x.normalize(use_log=False) if x.dtype != torch.int32 else None,
    "pad": lambda t, x: x.pad("constant", 3) if x.num_axes == 2 else None,
    "pad_replicate": lambda t, x: x.pad("replicate", 3) if x.num_axes == 2 else None,
    "remove_axis": lambda t, x: x.remove_axis(t.idx // 7 % (x.num_axes - 1)) if x.num_axes > 2 else None,
    "remove_values_eq": lambda t, x: x.remove_values_eq(3), "remove_values_leq": lambda t, x: x.remove_values_leq(3),
    "arange": lambda t, x: x.arange(0, 0, x.dim0), "clone": lambda t, x: x.clone(), "to": lambda t, x: x.to(torch.float64),
    "unique": lambda t, x: x.unique(True, True) if x.dtype == torch.int32 and x.num_axes in (2, 3) else None,
    "add": lambda t, x: x.add(torch.ones(x.shape.tot_size(x.num_axes - 2), dtype=x.dtype), 2),
    "cat": lambda t, x: k2.ragged.cat([x, x, x], t.idx // 5 % 2 if x.num_axes > 2 else 0), "str": lambda t, x: (str(x), repr(x), x.tolist()),
    "getitem": lambda t, x: x[0] if x.dim0 and x.num_axes > 2 else None, "slice": lambda t, x: x[0:x.dim0],
    "shape": lambda t, x: (x.shape, x.num_axes, x.numel(), x.tot_size(1)),
    "index": lambda t, x: x.index(torch.tensor([0] * (x.dim0 > 0), dtype=torch.int32), 0, True),
    "index_ragged": lambda t, x: x.index(k2.RaggedTensor([[0] * (x.dim0 > 0), []], dtype=torch.int32)),
    "shape remove_axis": lambda t, x: x.shape.remove_axis(0) if x.num_axes > 2 else None,
    "shape get_layer": lambda t, x: x.shape.get_layer(x.num_axes - 2), "shape compose": lambda t, x: x.shape.get_layer(0).compose(
        k2.ragged.regular_ragged_shape(x.shape.tot_size(1), 2)),
    "shape index": lambda t, x: x.shape.index(0, torch.tensor([0] * (x.dim0 > 0), dtype=torch.int32)),
    "max_size": lambda t, x: x.shape.max_size(1),
}


@group(P, 500, thorough=6000)
def ragged(t):
    name = sorted(RAGGED)[t.idx % len(RAGGED)]
    x = rag(t)
    fn = RAGGED[name]
    if name == "sum" and t.bool():
        run(t, name, [x], lambda y: y.sum(initial_value=2))
        return
    run(t, name, [x], lambda y: fn(t, y), backward=name != "normalize_")        # its backward is documented as not implemented


@group(P, 200, thorough=2000)
def tensors(t):
    """indexing with tensors and ragged tensors; the two sources of k2.ragged.create_*"""
    k = t.int(0, 6)
    n = t.int(1, 8)
    dt = t.choice([torch.int32, torch.float32, torch.float64])
    src = torch.tensor([t.int(-9, 9) for _ in range(2 * n)]).to(dt)
    src = src[:n]
    if dt != torch.int32 and t.bool():
        src = src.clone().requires_grad_(True)
    i = idx(t, n, 8, neg=True)
    r = k2.RaggedTensor([[t.int(0, n - 1) for _ in range(t.int(0, 3))] for _ in range(t.int(1, 4))], dtype=torch.int32)
    t.note(src=src.tolist(), index=i.tolist(), ragged=str(r))
    if k == 0:
        run(t, "index_select", [src, i], lambda a, b: k2.index_select(a, b))
    elif k == 1:
        run(t, "ragged.index", [src, r], lambda a, b: k2.ragged.index(a, b))
    elif k == 2 and dt == torch.float32:
        run(t, "index_and_sum", [src, r], lambda a, b: k2.ragged.index_and_sum(a, b))
    elif k == 3:
        j = idx(t, n, 8, neg=True)
        v = torch.tensor([t.int(-9, 9) for _ in range(j.numel())]).to(dt)
        if dt != torch.int32:
            def add(j, v):
                out = torch.zeros(n, dtype=dt)
                k2.index_add(j, v, out)
                return out
            run(t, "index_add", [j, v], add)
    elif k == 4:
        spl = torch.tensor([0] + sorted(t.int(0, n) for _ in range(3)) + [n], dtype=torch.int32)
        val = torch.arange(n, dtype=torch.int32)

        def mk(s, v):
            x = k2.RaggedTensor(k2.ragged.create_ragged_shape2(s, None, n), v)
            return [x.sum(), x.remove_values_leq(2), x.max(initial_value=-3), x.unique(True, True) if False else x.tolist()]
        run(t, "create_ragged_shape2", [spl, val], mk)
    elif k == 5:
        run(t, "simple_ragged_index_select", [src.detach().to(torch.int32), r],
            lambda a, b: k2.simple_ragged_index_select(torch.nn.functional.relu(a) * (torch.arange(n) == 1), one_each(b)))
    else:
        m = A.i32([t.int(-1, n - 1) for _ in range(5)])
        s2 = A.i32([t.int(-1, 9) for _ in range(n)])
        run(t, "compose_arc_maps", [s2, m], lambda a, b: k2.compose_arc_maps(a, b) if hasattr(k2, "compose_arc_maps") else None)


def one_each(r):
    return k2.RaggedTensor([v[:1] for v in r.tolist()], dtype=torch.int32)


@group(P, 150, thorough=1500)
def builders(t):
    """graphs built from lists and ragged tensors; losses"""
    seqs = [[t.int(1, 4) for _ in range(t.upto(4))] for _ in range(t.int(1, 3))]
    r = k2.RaggedTensor(seqs, dtype=torch.int32)
    t.note(seqs=seqs)
    k = t.int(0, 9)
    if k == 0:
        run(t, "linear_fsa", [seqs], k2.linear_fsa)
        run(t, "linear_fsa", [r], k2.linear_fsa)
    elif k == 1:
        run(t, "linear_fst", [seqs, [list(reversed(s)) for s in seqs]], k2.linear_fst)
    elif k == 2:
        run(t, "ctc_graph", [t.choice([seqs, r])], lambda s: k2.ctc_graph(s, modified=t.idx % 2 == 0))
    elif k == 3:
        run(t, "levenshtein_graph", [t.choice([seqs, r])], k2.levenshtein_graph)
    elif k == 4:
        h = k2.levenshtein_graph([[t.int(1, 4) for _ in range(t.upto(4))] for _ in seqs])
        ref = k2.levenshtein_graph(seqs)
        m = A.i32(list(range(len(seqs))))
        run(t, "levenshtein_alignment", [ref, h, m], lambda a, b, c: k2.levenshtein_alignment(a, b, c, sorted_match_ref=t.idx % 2 == 0))
    elif k == 5:
        run(t, "linear_fsa_with_self_loops", [k2.linear_fsa(seqs)], k2.linear_fsa_with_self_loops)
        run(t, "linear_fst_with_self_loops", [k2.linear_fst(seqs, seqs)], k2.linear_fst_with_self_loops)
    elif k == 6:
        d = dense(t, C=5, n=len(seqs), T=9)
        d2 = torch.tensor([len(s) for s in seqs])
        g = k2.ctc_graph(seqs)
        run(t, "ctc_loss", [g, d, d2], lambda a, b, c: k2.ctc_loss(a, b, target_lengths=c, reduction=["none", "mean", "sum"][t.idx % 3]))
    elif k == 7:
        x = vec(t, names=["aux_labels"], connected=True)
        run(t, "Nbest", [x], lambda y: k2.Nbest.from_lattice(y, 5, True, 0.5))
        if all(p for p in k2.random_paths(x, use_double_scores=True, num_paths=2).tolist()):
            nb = k2.Nbest.from_lattice(x, 5, True, 0.5)
            run(t, "Nbest queries", [nb, x], lambda y, z: [y.total_scores(), y.top_k(2), y.build_levenshtein_graphs()])
            run(t, "mwer_loss", [x, seqs], lambda y, s: k2.mwer_loss(y, (s * 3)[:y.shape[0]], num_paths=4))
    elif k == 8:
        g = torch.Generator().manual_seed(t.int(0, 1 << 30))
        B, S, T, C = 2, 3, 4, 5
        am, lm = torch.randn(B, T, C, generator=g), torch.randn(B, S + 1, C, generator=g)
        if t.bool():
            am.requires_grad_(True)
            lm.requires_grad_(True)
        sym = torch.randint(1, C, (B, S), generator=g)
        bnd = torch.tensor([[0, 0, 2, 4], [0, 0, 3, 3]], dtype=torch.int64)
        ty = t.choice(["regular", "modified", "constrained"])
        run(t, "rnnt_loss_simple", [lm, am, sym, bnd],
            lambda a, b, c, d: k2.rnnt_loss_simple(a, b, c, 0, d, rnnt_type=ty, reduction="none", return_grad=t.idx % 2 == 0))
        run(t, "rnnt_loss_smoothed", [lm, am, sym, bnd],
            lambda a, b, c, d: k2.rnnt_loss_smoothed(a, b, c, 0, 0.1, 0.2, d, rnnt_type=ty, reduction="none"))
        lg = torch.randn(B, T, S + 1, C, generator=g)
        run(t, "rnnt_loss", [lg, sym, bnd], lambda a, c, d: k2.rnnt_loss(a, c, 0, d, rnnt_type=ty, reduction="none"))
        _, (px, py) = k2.rnnt_loss_simple(lm.detach(), am.detach(), sym, 0, bnd, rnnt_type=ty, reduction="none", return_grad=True)
        run(t, "get_rnnt_prune_ranges", [px, py, bnd], lambda a, b, c: k2.get_rnnt_prune_ranges(a, b, c, 2))
        rg = k2.get_rnnt_prune_ranges(px, py, bnd, 2)
        run(t, "do_rnnt_pruning", [am, lm, rg], lambda a, b, c: k2.do_rnnt_pruning(a, b, c))
        pl = torch.randn(B, T, 2, C, generator=g)
        run(t, "rnnt_loss_pruned", [pl, sym, rg, bnd],
            lambda a, b, c, d: k2.rnnt_loss_pruned(a, b, c, 0, d, rnnt_type=ty, reduction="none"))
    else:
        x = torch.randn(t.int(1, 9), generator=torch.Generator().manual_seed(t.int(0, 99)))
        run(t, "swoosh", [x], lambda v: [k2.swoosh_l(v), k2.swoosh_r(v), k2.swoosh_l_forward(v), k2.swoosh_r_forward(v),
                                         k2.swoosh_l_forward_and_deriv(v), k2.swoosh_r_forward_and_deriv(v)])


@group(P, 60, thorough=600)
def independent(t):
    """an in-place change of a result that is documented to be a copy does not reach the input"""
    x = either(t)
    before = snap(x)
    y = x.clone()
    y.scores = y.scores.detach() + 1
    same(t, before, snap(x), "new scores of a clone")
    for k, v in list(y.named_tensor_attr(include_scores=False)):
        if isinstance(v, torch.Tensor):
            v += 1
    same(t, before, snap(x), "writing into attributes of a clone")
    z = x.invert() if hasattr(x, "aux_labels") and isinstance(x.aux_labels, torch.Tensor) else k2.arc_sort(k2.add_epsilon_self_loops(x))
    z.scores = z.scores.detach() * 2 + 1
    same(t, before, snap(x), "new scores of a result")
    r = rag(t, torch.int32)
    b = snap(r)
    c = r.clone()
    if c.num_axes >= 2:
        c.sort_()
        c.sort_(descending=True, need_new2old_indexes=True)
    same(t, b, snap(r), "sorting a clone in place")

"""C11: intersection and composition."""
from collections import Counter

import k2
import torch

from oracle import fsa as A
from oracle.core import group

P = "C11"


def gen(t, eps, attrs=(), sorted_=True, acyclic=True, **kw):
    if t.bool(0.04):
        return A.fill(t, A.F(2, []), attrs)
    kw.setdefault("labels", t.choice([1, 2, 3]))
    return A.rand_fsa(t, acyclic=acyclic, self_loops=not acyclic, eps=eps, sorted_=sorted_, attrs=attrs, max_states=5,
                      max_arcs=7, eps_loops=False, empty_ok=True, **kw)


def pairs(fa, fb, la, lb, special, max_len=None):
    """all pairs of complete paths that agree on their label sequence"""
    pa, pb = A.paths(fa, max_len, 400), A.paths(fb, max_len, 400)
    if pa is None or pb is None:
        return None
    by = {}
    for p in pb:
        s = tuple(lb[i] for i in p if not (special and lb[i] == 0))
        by.setdefault(s, []).append(p)
    res = Counter()
    for p in pa:
        s = tuple(la[i] for i in p if not (special and la[i] == 0))
        for q in by.get(s, []):
            res[(p, q)] += 1
            if len(res) > 4000:
                return None
    return res


def out_pairs(t, g, ma, mb, oa, ob):
    """the pairs of input paths the paths of the output stand for (maps relative to the inputs)"""
    ps = A.paths(g, None, 6000)
    if ps is None:
        return None
    res = Counter()
    for p in ps:
        res[(tuple(ma[i] - oa for i in p if ma[i] != -1), tuple(mb[i] - ob for i in p if mb[i] != -1))] += 1
    return res


def arcs_ok(t, g, fa, fb, ma, mb, oa, ob, special, what):
    """every output arc combines the two arcs its maps name"""
    for arc, i, j in zip(g.arcs, ma, mb):
        if i == -1 or j == -1:
            t.ok(special, f"{what}: an arc without a source arc although epsilons are ordinary")
            t.ok(not (i == -1 and j == -1), f"{what}: an arc with no source at all")
            src = fa.arcs[i - oa] if j == -1 else fb.arcs[j - ob]
            t.eq((arc[2], src[2]), (0, 0), f"{what}: labels of an epsilon move")
            t.close(arc[3], src[3], f"{what}: score of an epsilon move", 1e-6)
            continue
        t.ok(oa <= i < oa + len(fa.arcs), f"{what}: a arc map {i} lies in its automaton")
        t.ok(ob <= j < ob + len(fb.arcs), f"{what}: b arc map {j} lies in its automaton")
        a, b = fa.arcs[i - oa], fb.arcs[j - ob]
        t.eq((arc[2], arc[2]), (a[2], b[2]), f"{what}: labels of arc {arc}")
        t.close(arc[3], a[3] + b[3], f"{what}: score of arc {arc}", 1e-6)
        if special and a[2] == 0 and b[2] == 0:
            pass
    A.well_formed(t, g, what)


def member(t, g, fa, fb, ma, mb, oa, ob, special, what):
    arcs_ok(t, g, fa, fb, ma, mb, oa, ob, special, what)
    both = special and any(a[2] == 0 for a in fa.arcs) and any(a[2] == 0 for a in fb.arcs)
    if A.is_acyclic(fa) and A.is_acyclic(fb):
        want = pairs(fa, fb, fa.col(2), fb.col(2), special)
        got = out_pairs(t, g, ma, mb, oa, ob)
        if want is None or got is None:
            return
        if both:            # no epsilon-sequencing filter: repeated paths are documented
            t.eq(sorted(got), sorted(want), what + ": pairs of paths")
        else:
            t.eq(got, want, what + ": pairs of paths")
    else:
        n = 4
        if special:
            wa, wb = A.lang(fa, n), A.lang(fb, n)
            got = A.lang(g, n)
        else:
            sh = lambda f: A.F(f.n, [(a[0], a[1], a[2] + 1 if a[2] >= 0 else -1, a[3]) for a in f.arcs])
            wa, wb, got = A.lang(sh(fa), n), A.lang(sh(fb), n), A.lang(sh(g), n)
        A.same_lang(t, got, {k: wa[k] + wb[k] for k in wa if k in wb}, what + ": language")


def attr_check(t, y, x, mp, name, kind):
    v = getattr(x, name).tolist()
    fill = [] if kind == "r" else x.get_filler(name)
    t.eq(getattr(y, name).tolist(), [v[i] if i >= 0 else fill for i in mp], f"attribute {name}")


def run(t, special, device, acyclic):
    ea = t.choice([0, 0.3])
    eb = t.choice([0, 0.3]) if t.bool(0.7) else (0 if ea else 0.3)
    nb = t.choice([1, 1, 2, 3])
    na = nb if not device else t.int(1, 3)
    va = device or t.bool()
    vb = device or t.bool()
    if not device and not va:
        na = 1
    if not device and not vb:
        nb = 1
    if not device and va and vb:
        nb = na
    srt = not device or t.bool()
    fas = [gen(t, ea, ["ids", "r_x", "f_both"], srt, acyclic) for _ in range(na)]
    fbs = [gen(t, eb, ["jds", "r_y", "f_both", "aux_labels"], not device or t.bool(), acyclic) for _ in range(nb)]
    t.note(a=fas, b=fbs, special=special, device=device, va=va, vb=vb)
    a = A.to_vec(fas) if va else A.to_k2(fas[0])
    b = A.to_vec(fbs) if vb else A.to_k2(fbs[0])
    a.ids_filler = -7
    a.tag, b.tag, b.tag2 = 1, 2, 3
    if device:
        m = [t.int(0, na - 1) for _ in range(nb)]
        t.note(b_to_a_map=m)
        match = srt and t.bool()
        y, ma, mb = k2.intersect_device(a, b, A.i32(m), sorted_match_a=match, ret_arc_maps=True)
        prs = [(m[i], i) for i in range(nb)]
        t.eq(y.arcs.num_axes(), 3, "number of axes")
    else:
        y, ma, mb = k2.intersect(a, b, treat_epsilons_specially=special, ret_arc_maps=True)
        n = max(na, nb)
        prs = [(i if na > 1 else 0, i if nb > 1 else 0) for i in range(n)]
        t.eq(y.arcs.num_axes(), 3 if va or vb else 2, "number of axes")
    ma, mb = ma.tolist(), mb.tolist()
    got = A.read_vec(y)
    t.eq(len(got), len(prs), "members")
    t.eq((len(ma), len(mb)), (y.num_arcs, y.num_arcs), "lengths of the arc maps")
    oa, ob = [0], [0]
    for f in fas:
        oa.append(oa[-1] + len(f.arcs))
    for f in fbs:
        ob.append(ob[-1] + len(f.arcs))
    k = 0
    for q, (g, (i, j)) in enumerate(zip(got, prs)):
        e = k + len(g.arcs)
        member(t, g, fas[i], fbs[j], ma[k:e], mb[k:e], oa[i], ob[j], special, f"member {q}")
        k = e
    attr_check(t, y, a, ma, "ids", "i")
    attr_check(t, y, a, ma, "r_x", "r")
    attr_check(t, y, b, mb, "jds", "i")
    attr_check(t, y, b, mb, "r_y", "r")
    va_, vb_ = a.f_both.tolist(), b.f_both.tolist()
    t.close(y.f_both, [(va_[i] if i >= 0 else 0) + (vb_[j] if j >= 0 else 0) for i, j in zip(ma, mb)], "shared attribute")
    t.eq((y.tag, y.tag2), (1, 3), "other attributes")


@group(P, 350)
def epsilons(t):
    """intersect with epsilons treated specially: exactly the agreeing pairs of paths"""
    run(t, True, False, True)


@group(P, 300)
def ordinary(t):
    """intersect with label 0 an ordinary symbol"""
    run(t, False, False, True)


@group(P, 200)
def cyclic(t):
    """intersect of automata with cycles"""
    run(t, t.bool(), False, False)


@group(P, 400)
def device(t):
    """intersect_device for any index mapping"""
    run(t, False, True, t.bool(0.7))


@group(P, 400)
def compose(t):
    """compose matches outputs of a with inputs of b, keeping outer labels, scores added"""
    special = t.bool()
    ea, eb = t.choice([0, 0.3]), t.choice([0, 0.3])
    vec = t.bool()
    n = t.int(1, 3) if vec else 1
    fas = [gen(t, 0.2, [], t.bool()) for _ in range(n)]
    for f in fas:
        f.attrs["aux_labels"] = [-1 if a[2] == -1 else (0 if t.bool(ea) else t.int(1, 2)) for a in f.arcs]
        f.attrs["ids"] = [t.int(0, 9) for _ in f.arcs]
    trans = t.bool()
    fbs = [gen(t, eb, ["aux_labels"] if trans else [], True) for _ in range(n)]
    inner = "inner" if trans and t.bool() else None
    t.note(a=fas, b=fbs, special=special, transducer=trans)
    a = A.to_vec(fas) if vec else A.to_k2(fas[0])
    b = A.to_vec(fbs) if vec else A.to_k2(fbs[0])
    y = k2.compose(a, b, treat_epsilons_specially=special, inner_labels=inner)
    got = A.read_vec(y, ["aux_labels"] + ([inner] if inner else []))
    t.eq(len(got), n, "members")
    for q, (g, fa, fb) in enumerate(zip(got, fas, fbs)):
        A.well_formed(t, g, "compose")
        prs = pairs(fa, fb, fa.attrs["aux_labels"], fb.col(2), special)
        ps = A.paths(g, None, 6000)
        if prs is None or ps is None:
            continue
        want = Counter()
        keep = lambda x: tuple(l for l in x if l != 0)
        for (pa, pb), c in prs.items():
            key = (keep(fa.arcs[i][2] for i in pa), keep(fb.attrs["aux_labels"][i] if trans else fb.arcs[i][2] for i in pb),
                   round(A.path_score(fa, pa) + A.path_score(fb, pb), 3))
            if inner:
                key += (keep(fb.arcs[i][2] for i in pb),)
            want[key] += c
        have = Counter()
        for p in ps:
            key = (keep(g.arcs[i][2] for i in p), keep(g.attrs["aux_labels"][i] for i in p), round(A.path_score(g, p), 3))
            if inner:
                key += (keep(g.attrs[inner][i] for i in p),)
            have[key] += 1
        both = special and 0 in fa.attrs["aux_labels"] and any(x[2] == 0 for x in fb.arcs)
        if both:
            t.eq(sorted(have), sorted(want), f"paths of member {q}")
        else:
            t.eq(have, want, f"paths of member {q}")


@group(P, 200)
def gradient(t):
    """the gradient of each input score is the sum over the output arcs it went into"""
    dev = t.bool()
    n = t.int(1, 3)
    fas = [gen(t, t.choice([0, 0.3]), [], True, acyclic=True) for _ in range(n)]
    fbs = [gen(t, t.choice([0, 0.3]), [], True, acyclic=True) for _ in range(n)]
    t.note(a=fas, b=fbs, device=dev)
    a, b = A.to_vec(fas, True), A.to_vec(fbs, True)
    if dev:
        y, ma, mb = k2.intersect_device(a, b, A.i32(list(range(n))), ret_arc_maps=True)
    else:
        y, ma, mb = k2.intersect(a, b, treat_epsilons_specially=t.bool(), ret_arc_maps=True)
    if not y.num_arcs:
        t.trivial = True
        return
    c = [t.int(-8, 8) / 2 for _ in range(y.num_arcs)]
    (torch.tensor(c) * y.scores).sum().backward()
    for x, m in ((a, ma), (b, mb)):
        want = [0.0] * x.num_arcs
        for w, i in zip(c, m.tolist()):
            if i >= 0:
                want[i] += w
        t.close(x.grad, want, "gradient", 1e-5)

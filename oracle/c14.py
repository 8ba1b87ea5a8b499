"""C14: epsilon removal, determinisation, epsilon self-loops."""
import struct

import _k2
import k2
import torch

from oracle import fsa as A
from oracle import vh
from oracle.core import group

P = "C14"
H = vh.Harness("C14")
DT = _k2.DeterminizeWeightPushingType
PUSH = [DT.kTropicalWeightPushing, DT.kLogWeightPushing, DT.kNoWeightPushing]
ATTRS = ["aux_labels", "ids", "f_w", "r_x"]


def bits(x):
    return struct.unpack("q", struct.pack("d", x))[0]


def gen(t, acyclic, **kw):
    """epsilon cycles only with scores <= 0"""
    f = A.rand_fsa(t, acyclic=acyclic, self_loops=not acyclic, **kw)
    if not acyclic:
        f.arcs = [(a, b, l, -abs(w) if l == 0 else w) for a, b, l, w in f.arcs]
    return f


def make(t, acyclic, **kw):
    n = t.int(1, 4) if t.bool() else None
    kw.setdefault("max_states", 6)
    kw.setdefault("max_arcs", 9)
    kw.setdefault("eps", t.choice([0.2, 0.5, 0.8]))
    fs = [gen(t, acyclic, **kw) for _ in range(n or 1)]
    t.note(fsas=fs, vec=n is not None)
    x = A.to_vec(fs) if n else A.to_k2(fs[0])
    return fs, x, n is not None


def rows(rag):
    return rag.tolist()


def split(fs_out, fs_in, derivs, t):
    """derivation lists by member, with indexes relative to the member"""
    off = [0]
    for f in fs_in:
        off.append(off[-1] + len(f.arcs))
    t.eq(len(derivs), sum(len(g.arcs) for g in fs_out), "one derivation for each output arc")
    res, k = [], 0
    for i, g in enumerate(fs_out):
        res.append([[j - off[i] for j in r] for r in derivs[k:k + len(g.arcs)]])
        k += len(g.arcs)
    return res


def check_derivs(t, g, f, ds, what, eps_ok=False, any_label=False):
    for a, d in zip(g.arcs, ds):
        t.ok(all(0 <= j < len(f.arcs) for j in d), f"{what}: derivation {d} within the member")
        if eps_ok and not d:
            t.eq((a[0], a[2], a[3]), (a[1], 0, 0.0), f"{what}: an added arc is an epsilon self-loop")
            continue
        t.close(a[3], sum(f.arcs[j][3] for j in d), f"{what}: score of arc {a} from arcs {d}", 1e-4)
        if any_label:
            continue
        t.eq([f.arcs[j][2] for j in d if f.arcs[j][2] != 0], [a[2]] if a[2] else [], f"{what}: label of arc {a} from arcs {d}")
        for i, j in zip(d, d[1:]):
            t.eq(f.arcs[i][1], f.arcs[j][0], f"{what}: arcs {d} follow one another")


def eps_free(t, g, what):
    t.ok(all(a[2] != 0 for a in g.arcs), f"{what}: no epsilon in {g}")


def check_rm(t, gs, fs, derivs, what, max_len=5):
    t.eq(len(gs), len(fs), what + ": members")
    for i, (g, f, d) in enumerate(zip(gs, fs, split(gs, fs, derivs, t))):
        w = f"{what} {i}"
        A.well_formed(t, g, w)
        eps_free(t, g, w)
        check_derivs(t, g, f, d, w)
        A.same_lang(t, A.lang(g, max_len), A.lang(f, max_len), w)


@group(P, 450)
def remove(t):
    """remove_epsilon: epsilon-free, same best score for every label sequence, derivations are right"""
    fs, x, vec = make(t, t.bool(0.7), shuffle_states=t.bool(0.3))
    ra, am = _k2.remove_epsilon(x.arcs, x.properties)
    gs = A.read_vec(k2.Fsa(ra))
    check_rm(t, gs, fs, rows(am), "member")
    y = k2.remove_epsilon(x)
    A.same_vec(t, A.read_vec(y), gs, "Python result")
    t.eq(len(y.shape), len(x.shape), "axes")
    z = A.read_vec(k2.connect(y))
    for f, h in zip(fs, z):
        A.same_lang(t, A.lang(h, 5), A.lang(f, 5), "connected result")


@group(P, 350)
def host_device(t):
    """the host and the device algorithm agree"""
    fs, x, vec = make(t, True)
    for f in (_k2.remove_epsilon_host, _k2.remove_epsilon_device):
        ra, am = f(x.arcs)
        check_rm(t, A.read_vec(k2.Fsa(ra)), fs, rows(am), f.__name__)


@group(P, 300)
def attributes(t):
    """attributes of the result are those of the arcs in the derivation"""
    at = t.rng.sample(ATTRS, t.int(1, 4))
    fs, x, vec = make(t, t.bool(), attrs=at)
    x.tag = 4
    if "ids" in at and t.bool():
        x.ids_filler = t.int(-2, 3)
    _, am = _k2.remove_epsilon(x.arcs, x.properties)
    y = k2.remove_epsilon(x)
    fin = [a[2] == -1 for f in fs for a in f.arcs]
    for k in at:
        v = A.attr_list(getattr(x, k))
        if k == "f_w":
            t.close(y.f_w, [sum(v[j] for j in r) for r in rows(am)], k, 1e-4)
            continue
        if k == "r_x":
            want = [[e for j in r for e in v[j]] for r in rows(am)]
        else:
            fill = getattr(x, k + "_filler", 0)
            v = [fill if (b and e == -1) else e for e, b in zip(v, fin)] if fill != -1 else v
            want = [[v[j] for j in r if v[j] != fill and not (k == "aux_labels" and v[j] == 0)] for r in rows(am)]
        t.eq(getattr(y, k).tolist(), want, k)
    t.eq(y.tag, 4, "other attributes")


@group(P, 200)
def gradient(t):
    """the gradient of each input score is the sum over the output arcs it is part of"""
    fs, x, vec = make(t, t.bool())
    x = x.requires_grad_(True)
    _, am = _k2.remove_epsilon(x.arcs, x.properties)
    y = k2.remove_epsilon(x)
    if not y.num_arcs:
        t.trivial = True
        return
    c = [t.int(-8, 8) / 2 for _ in range(y.num_arcs)]
    (torch.tensor(c) * y.scores).sum().backward()
    w = [0.0] * x.num_arcs
    for r, k in zip(rows(am), c):
        for j in r:
            w[j] += k
    t.close(x.grad, w, "gradient", 1e-4)


@group(P, 250)
def remove_add(t):
    """remove_epsilon_and_add_self_loops: the only epsilons are one zero self-loop on every non-final state"""
    fs, x, vec = make(t, t.bool(0.7), eps=t.choice([0, 0.3, 0.6]))
    y = k2.remove_epsilon_and_add_self_loops(x)
    gs = A.read_vec(y)
    t.eq(len(gs), len(fs), "members")
    ra, am = _k2.remove_epsilon_and_add_self_loops(x.arcs, x.properties)
    hs = A.read_vec(k2.Fsa(ra))
    for what, zs in (("Python", gs), ("C++", hs)):
        for g, f in zip(zs, fs):
            A.well_formed(t, g, what)
            for s in range(g.n - 1):
                e = [g.arcs[i] for i in g.out(s) if g.arcs[i][2] == 0]
                t.eq([(a[1], a[3]) for a in e], [(s, 0.0)], f"{what}: epsilons leaving state {s} of {g}")
            A.same_lang(t, A.lang(g, 4), A.lang(f, 4), what)
    for h, f, d in zip(hs, fs, split(hs, fs, rows(am), t)):
        check_derivs(t, h, f, d, "C++", eps_ok=True)


@group(P, 300)
def self_loops(t):
    """add_epsilon_self_loops adds one zero epsilon self-loop, first, to each non-final state, and nothing else changes"""
    fs, x, vec = make(t, t.bool(), attrs=ATTRS[:3], sorted_=t.bool())
    y, m = k2.add_epsilon_self_loops(x, ret_arc_map=True)
    gs = A.read_vec(y, ATTRS[:3])
    t.eq(len(gs), len(fs), "members")
    m = A.arc_map_list(m)
    k = b = 0
    for g, f in zip(gs, fs):
        t.eq(g.n, f.n, "states")
        want, wm, at = [], [], {a: [] for a in ATTRS[:3]}
        for s in range(f.n):
            if s < f.n - 1:
                want.append((s, s, 0, 0.0))
                wm.append(-1)
                for a in at:
                    at[a].append(0)
            for i in f.out(s):
                want.append(f.arcs[i])
                wm.append(b + i)
                for a in at:
                    at[a].append(f.attrs[a][i])
        t.eq(g.arcs, want, "arcs")
        t.eq(m[k:k + len(g.arcs)], wm, "arc map")
        for a in at:
            t.eq(g.attrs[a], at[a], a)
        k += len(g.arcs)
        b += len(f.arcs)
    t.eq(k, len(m), "length of the arc map")
    t.eq(len(A.read_vec(k2.add_epsilon_self_loops(x))), len(fs), "without an arc map")


@group(P, 250)
def no_self_loops(t):
    """remove_epsilon_self_loops drops exactly the epsilon self-loops"""
    at = ATTRS[:3]
    fs, x, vec = make(t, False, attrs=at, eps=0.6)
    y = k2.remove_epsilon_self_loops(x)
    ra, m = _k2.remove_epsilon_self_loops(x.arcs, True)
    keep, b = [], 0
    gs = A.read_vec(y, at)
    t.eq(len(gs), len(fs), "members")
    for g, f in zip(gs, fs):
        ids = [i for i, a in enumerate(f.arcs) if not (a[0] == a[1] and a[2] == 0)]
        t.eq(g.n, f.n, "states")
        t.eq(g.arcs, [f.arcs[i] for i in ids], "arcs")
        for k in at:
            t.eq(g.attrs[k], [f.attrs[k][i] for i in ids], k)
        keep += [b + i for i in ids]
        b += len(f.arcs)
    t.eq(A.arc_map_list(m), keep, "arc map")


def det_ok(t, g, what):
    for s in range(g.n):
        ls = [g.arcs[i][2] for i in g.out(s)]
        t.eq(len(ls), len(set(ls)), f"{what}: labels leaving state {s} of {g}")


@group(P, 400)
def det(t):
    """determinize: deterministic, same best score for every label sequence; without pushing the derivations sum to it"""
    fs, x, vec = make(t, True, connected=True, eps=t.choice([0, 0, 0.3]), labels=2, max_arcs=10, empty_ok=False)
    p = t.choice(PUSH)
    t.note(pushing=str(p))
    ra, am = _k2.determinize(x.arcs, p)
    gs = A.read_vec(k2.Fsa(ra))
    t.eq(len(gs), len(fs), "members")
    ds = split(gs, fs, rows(am), t)
    for g, f, d in zip(gs, fs, ds):
        A.well_formed(t, g, "result")
        det_ok(t, g, "result")
        A.same_lang(t, det_lang(g), det_lang(f), "result")
        for a, r in zip(g.arcs, d):
            t.ok(all(0 <= j < len(f.arcs) for j in r), f"derivation {r} within the member")
        if p == DT.kNoWeightPushing:
            check_derivs(t, g, f, d, "result", any_label=True)
        for path, chain in paths_with_derivs(g, d):
            ls = tuple(f.arcs[j][2] for j in chain)
            t.eq(ls, A.path_labels(g, path), "the arcs a path derives from have its labels")
            q = 0
            for j in chain:
                t.eq(f.arcs[j][0], q, "the arcs a path derives from follow one another")
                q = f.arcs[j][1]
            t.eq(q, f.n - 1, "the arcs a path derives from end in the final state")
            t.close(A.path_score(g, path), sum(f.arcs[j][3] for j in chain), "score of the path", 1e-4)
    y = k2.determinize(x, p)
    if x.properties & k2.fsa_properties.ARC_SORTED_AND_DETERMINISTIC:
        A.same_vec(t, A.read_vec(y), fs, "a deterministic input is returned")
    else:
        A.same_vec(t, A.read_vec(y), gs, "Python result")


def paths_with_derivs(g, d):
    for p in (A.paths(g, None, 200) or []):
        yield p, [j for i in p for j in d[i]]


def det_lang(f, log=False):
    """epsilon counts as a symbol"""
    g = A.F(f.n, [(a, b, l + 1 if l >= 0 else l, w) for a, b, l, w in f.arcs])
    return A.lang(g, 12, log)


@group(P, 150)
def det_attributes(t):
    """attributes follow the derivation"""
    at = ["ids", "f_w"]
    fs, x, vec = make(t, True, connected=True, eps=0, labels=2, max_arcs=10, empty_ok=False, attrs=at)
    if x.properties & k2.fsa_properties.ARC_SORTED_AND_DETERMINISTIC:
        t.trivial = True
        return
    _, am = _k2.determinize(x.arcs, DT.kNoWeightPushing)
    y = k2.determinize(x)
    v, w = x.ids.tolist(), x.f_w.tolist()
    t.eq(y.ids.tolist(), [[v[j] for j in r if v[j] != 0] for r in rows(am)], "ids")
    t.close(y.f_w, [sum(w[j] for j in r) for r in rows(am)], "f_w", 1e-4)


@group(P, 250)
def host_log(t):
    """the host algorithms for the log semiring keep the log-sum over paths"""
    f = gen(t, True, max_states=6, max_arcs=9, eps=0.4, connected=True, empty_ok=False)
    log = t.bool(0.7)
    t.note(fsa=f, log=log)
    o = H("RmEpsLog" if log else "RmEpsMax", *A.harness_args([f], False), [bits(1e6)])
    g = A.harness_read(o)
    A.well_formed(t, g, "epsilon removal")
    eps_free(t, g, "epsilon removal")
    A.same_lang(t, A.lang(g, 6, log), A.lang(f, 6, log), "epsilon removal")
    f = A.rand_fsa(t, acyclic=True, max_states=6, max_arcs=9, eps=0, connected=True, empty_ok=False, labels=2)
    push, beam = t.int(0, 2), t.choice([-1.0, 1e6])
    t.note(fsa=f, push=push, beam=beam)
    o = H("DetLog" if log else "DetMax", *A.harness_args([f], False), [bits(beam)], [push])
    g = A.harness_read(o)
    A.well_formed(t, g, "determinisation")
    det_ok(t, g, "determinisation")
    A.same_lang(t, A.lang(g, 8, log), A.lang(f, 8, log), "determinisation")

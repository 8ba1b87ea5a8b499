"""C08: reported automaton properties."""
import _k2
import k2
import torch

from oracle import fsa as A
from oracle import vh
from oracle.core import group

P = "C08"
H = vh.Harness("C08")
VALID, NONEMPTY, TOPSORTED, ACYCLIC, ARCSORTED, DET, EPSFREE, ACC, COACC = (1 << i for i in range(9))


def flags(f):
    """the properties of one automaton by definition; returns (definitely on, definitely off)"""
    on = 0
    valid = top = acyclic = srt = det = eps = True
    ent, lea = {0}, {f.n - 1}
    for s in range(f.n):
        prev = None
        for i in f.out(s):
            src, d, l, _ = f.arcs[i]
            if not (0 <= d < f.n) or l < -1 or (l == -1) != (d == f.n - 1) or src != s:
                valid = False
            if d < src:
                top = False
            if d <= src:
                acyclic = False
            if l == 0:
                eps = False
            u = l % 2**32
            if prev is not None:
                if (u, d) < prev:
                    srt = False
                if u <= prev[0]:
                    det = False
            prev = (u, d)
            if d != src:
                ent.add(d)
                lea.add(src)
    for b, m in ((valid, VALID), (bool(f.arcs), NONEMPTY), (top, TOPSORTED), (acyclic, ACYCLIC), (srt, ARCSORTED),
                 (det, DET), (eps, EPSFREE), (ent >= set(range(f.n)), ACC), (lea >= set(range(f.n)), COACC)):
        on |= m if b else 0
    return on


def mess(t, f, kinds):
    """change one thing that may break validity"""
    arcs = list(f.arcs)
    if not arcs:
        return f
    i = t.int(0, len(arcs) - 1)
    s, d, l, w = arcs[i]
    k = t.choice(kinds)
    if k == "label":
        l = t.choice([-2, -1, 0, 1, 2, -2**31, 2**31 - 1, -7])
    elif k == "dest":
        d = t.choice([f.n, f.n + 1, -1, 0, f.n - 1, t.int(0, f.n - 1), 2**31 - 1, -2**31])
    else:
        # the source state recorded on the arc
        arcs[i] = (s, d, l, w)
        g = A.F(f.n, arcs)
        g._out = f._out if hasattr(f, "_out") else None
        f.out(0)
        o = f._out
        s2 = t.choice([s + 1, max(0, s - 1), -1, f.n - 1])
        arcs[i] = (s2, d, l, w)
        g = A.F(f.n, arcs)
        g._out = o
        g.rows = f.splits()
        return g
    arcs[i] = (s, d, l, w)
    return A.F(f.n, arcs)


def rand(t):
    f = A.rand_fsa(t, acyclic=t.bool(0.6), self_loops=t.bool(0.3), sorted_=t.bool(), eps=t.choice([0, 0, 0.2]),
                   shuffle_states=t.bool(0.3), connected=t.bool(0.4), labels=t.choice([2, 4, 8]), empty_ok=True)
    if t.bool(0.1):
        f = A.F(t.int(2, 4), [])
    return f


def odd(f):
    """one state, or no arcs: whether that is valid is not documented"""
    return f.n == 1


def splits(f):
    return getattr(f, "rows", None) or f.splits()


def raw(fs):
    s1, s2, arcs = [0], [0], []
    for f in fs:
        base = s2[-1]
        s1.append(s1[-1] + f.n)
        s2 += [base + y for y in splits(f)[1:]]
        arcs += f.arcs
    return s1, s2, arcs


@group(P, 500)
def one(t):
    """the flags of a single automaton are those its definition says"""
    f = rand(t)
    if t.bool(0.5):
        f = mess(t, f, ["label", "dest", "src"])
    t.note(fsa=f)
    if odd(f):
        t.trivial = True
        return
    ra = _k2.RaggedArc(A.shape2(splits(f)), A.arcs_tensor(f.arcs))
    want = flags(f)
    if want & VALID:
        t.eq(_k2.get_fsa_basic_properties(ra), want, "flags")
        x = k2.Fsa(ra)
        t.eq(x.properties, want, "Fsa.properties")
        names = x.properties_str.strip('"').split("|")
        t.eq(len(names), bin(want).count("1"), "number of names in properties_str")
        for n, m in (("Valid", VALID), ("Nonempty", NONEMPTY), ("TopSorted", TOPSORTED), ("TopSortedAndAcyclic", ACYCLIC),
                     ("ArcSorted", ARCSORTED), ("ArcSortedAndDeterministic", DET), ("EpsilonFree", EPSFREE),
                     ("MaybeAccessible", ACC), ("MaybeCoaccessible", COACC)):
            t.eq(n in names, bool(want & m), f"{n} in properties_str")
    else:
        if t.bool():
            t.raises(lambda: k2.Fsa(ra), "an invalid automaton")
        else:
            t.eq(_k2.get_fsa_basic_properties(ra) & VALID, 0, "validity")


@group(P, 500)
def vector(t):
    """the flags of a vector are those that hold for all its members; C++ also gives those of each member"""
    fs = [rand(t) for _ in range(t.upto(4))]
    if fs and t.bool(0.3):
        i = t.int(0, len(fs) - 1)
        fs[i] = mess(t, fs[i], ["label", "dest", "src"])
    t.note(fsas=fs)
    s1, s2, arcs = raw(fs)
    want = [flags(f) for f in fs]
    tot = 0x1FF
    for w in want:
        tot &= w
    if not fs:
        tot &= ~0
    if any(odd(f) for f in fs):
        t.trivial = True
        return
    sh = vh.Shape([s1, s2], [t.int(0, 3), t.int(0, 3)])
    o = H("VecProps", sh, [y for a in arcs for y in a[:3]])
    got = o.vec()
    if tot & VALID:
        t.eq(got, want, "flags of each member")
        t.eq([o.i(), o.i()], [tot, tot], "flags of the vector")
    else:
        t.eq([g & VALID for g in got], [w & VALID for w in want], "validity of each member")
        t.eq([o.i() & VALID, o.i() & VALID], [0, 0], "validity of the vector")
    ra = _k2.RaggedArc(A.shape2(s1).compose(A.shape2(s2)), A.arcs_tensor(arcs))
    if tot & VALID:
        x = k2.Fsa(ra)
        t.eq(x.properties, tot, "FsaVec.properties")
        for i in range(len(fs)):
            t.eq(x[i].properties, want[i], f"properties of member {i}")
    else:
        t.raises(lambda: k2.Fsa(ra), "an invalid vector")


@group(P, 250)
def truth(t):
    """for top-sorted automata the accessibility flags are exact; for others never true if a state has no entering arc"""
    f = rand(t)
    if f.n < 2:
        t.trivial = True
        return
    t.note(fsa=f)
    x = A.to_k2(f)
    p = x.properties
    if p & TOPSORTED:
        t.eq(bool(p & ACC), A.accessible(f) == set(range(f.n)), "accessible")
        t.eq(bool(p & COACC), A.coaccessible(f) == set(range(f.n)), "co-accessible")
    else:
        if A.accessible(f) == set(range(f.n)):
            t.ok(p & ACC, "accessible flag of an accessible automaton")
        if A.coaccessible(f) == set(range(f.n)):
            t.ok(p & COACC, "co-accessible flag of a co-accessible automaton")
    if p & ACYCLIC:
        t.ok(A.is_acyclic(f), "acyclic")


@group(P, 300)
def refreshed(t):
    """setting labels, inverting and renaming refresh the cached properties; in-place changes are noticed"""
    vec = t.bool()
    fs = [rand(t) for _ in range(t.int(1, 3) if vec else 1)]
    for f in fs:
        A.fill(t, f, ["aux_labels", "other"])
    if any(odd(f) for f in fs) or not any(f.arcs for f in fs):
        t.trivial = True
        return
    x = A.to_vec(fs) if vec else A.to_k2(fs[0])
    x.properties
    cur = [list(f.arcs) for f in fs]
    steps = []
    for _ in range(t.int(1, 3)):
        how = t.choice(["labels", "labels", "invert_", "scores", "bad", "inplace"])
        steps.append(how)
        t.note(fsas=fs, steps=list(steps))
        if how == "labels":
            lab = [t.choice([0, -1]) if a[1] == f.n - 1 else t.int(0, 4) for f in fs for a in f.arcs]
            x.labels = A.i32(lab)
            k = 0
            for q, f in enumerate(fs):
                for i, a in enumerate(cur[q]):
                    l = -1 if a[1] == f.n - 1 else lab[k]
                    cur[q][i] = (a[0], a[1], l, a[3])
                    k += 1
        elif how == "invert_":
            aux = x.aux_labels.tolist()
            lab = x.labels.tolist()
            x.invert_()
            t.eq(x.aux_labels.tolist(), lab, "aux_labels after invert_")
            k = 0
            for q, f in enumerate(fs):
                for i, a in enumerate(cur[q]):
                    cur[q][i] = (a[0], a[1], -1 if a[1] == f.n - 1 else aux[k], a[3])
                    k += 1
        elif how == "scores":
            x.scores = torch.tensor([A.score(t) for f in fs for _ in f.arcs], dtype=torch.float32)
        elif how == "bad":
            if x.num_arcs:
                lab = x.labels.clone()
                lab[t.int(0, x.num_arcs - 1)] = -5
                y = x.clone()

                def put():
                    y.labels = lab
                t.raises(put, "labels below -1")
        elif how == "inplace":
            y = x.clone()
            lab = y.labels
            lab[0] = lab[0].item()
            t.raises(lambda: y.properties, "properties after labels were changed in place")
            y.labels = lab
            t.eq(y.properties, x.properties, "properties after assigning the changed labels")
        want = 0x1FF
        for q, f in enumerate(fs):
            want &= flags(A.F(f.n, cur[q]))
        t.eq(x.properties, want, f"properties after {steps}")


@group(P, 250)
def final_labels(t):
    """assigned labels 0 on final arcs become -1, and -1 on other arcs become 0"""
    f = A.rand_fsa(t, acyclic=t.bool(), empty_ok=False)
    if not f.arcs:
        t.trivial = True
        return
    x = A.to_k2(f)
    lab = []
    for a in f.arcs:
        lab.append(t.choice([0, -1]) if a[1] == f.n - 1 else t.choice([0, -1, 1, 2, 3]))
    t.note(fsa=f, labels=lab)
    x.labels = A.i32(lab)
    want = [-1 if a[1] == f.n - 1 else max(l, 0) for a, l in zip(f.arcs, lab)]
    t.eq(x.labels.tolist(), want, "labels")
    t.eq(x.arcs.values()[:, 2].tolist(), want, "labels in the arcs")
    t.eq(x.properties, flags(A.F(f.n, [(a[0], a[1], l, a[3]) for a, l in zip(f.arcs, want)])), "properties")

"""Contracts for ragged_ops.cu: operations on axes of ragged shapes."""
import z3
from engine.contract import *
from engine.contract import contract, forall, imp, monotone, is_row_splits, is_row_ids
from engine import model
from engine.model import rs_of, ri_of, tot_size, num_axes, fresh_shape
from engine.vc import IT, DIV, MOD, Ptr, NullPtr, Arr, Obj, Rec, Vec, simp, conc, I, Unsupported, copyval
from z3 import And, Or, Not, If, Implies, Exists, ForAll
from contracts.shapes import valid_shape, same_arr
from contracts import renumber

RO = "k2/csrc/ragged_ops.cu"
P3 = ["C03", "C01", "C30"]
P2 = ["C02", "C01", "C30"]
I32 = ['int', 32, True]


def is_shape(t):
    while t[0] in ('ref', 'ptr'):
        t = t[1]
    return t[0] == 'rec' and t[1] == "k2::RaggedShape"


def any_shape(v, k, lo, hi):
    """a shape with lo..hi axes (one path each)"""
    s = v.shape(k, lo + v.ex.decide(hi - lo + 1) if v.verifying else None)
    n = num_axes(s)
    if not lo <= n <= hi:
        raise Unsupported(f"contract of {v.cname} covers {lo} to {hi} axes")
    return s


def any_ragged(v, k, lo, hi):
    s = v.ragged(k, lo + v.ex.decide(hi - lo + 1) if v.verifying else None)
    n = num_axes(s)
    if not lo <= n <= hi:
        raise Unsupported(f"contract of {v.cname} covers {lo} to {hi} axes")
    return s


def number(v, k, lo, hi):
    """a concrete integer parameter"""
    if v.verifying:
        n = lo + v.ex.decide(hi - lo + 1)
        v.args[k] = z3.IntVal(n)
        return n
    n = conc(simp(v.int(k)))
    if n is None:
        raise Unsupported(f"argument {k} of {v.cname} is not a constant")
    return n


def copy_layers(ls):
    return [x.copy() for x in ls]


def mk(layers):
    return Obj("shape", layers=Vec(['rec', 'layer'], layers))


def same_layer(v, x, y, what="layers are the same"):
    v.ensures(same_arr(x.f["row_splits"], y.f["row_splits"]) and same_arr(x.f["row_ids"], y.f["row_ids"]), what)
    v.ensures(And(x.f["cached_tot_size"] == y.f["cached_tot_size"], x.f["row_splits"].dim == y.f["row_splits"].dim), what)


def eq_splits(v, a, b, n, f, what):
    """a[i] == f(i) for i in [0, n]"""
    A = v.mem(a)
    v.ensures(And(a.dim == n + 1, forall(1, lambda i: imp(0 <= i, i <= n, A[i] == f(i)), lambda i: A[i])), what)


@contract("k2::ComposeRaggedShapes3", RO, P3)
def ComposeRaggedShapes3(v):
    a, b, c = any_shape(v, 0, 2, 3), any_shape(v, 1, 2, 3), any_shape(v, 2, 2, 3)
    v.requires(tot_size(a, num_axes(a) - 1) == tot_size(b, 0), "as many sublists of b as elements of a")
    v.requires(tot_size(b, num_axes(b) - 1) == tot_size(c, 0), "as many sublists of c as elements of b")
    ls = a.layers.items + b.layers.items + c.layers.items
    v.body(ret=lambda: mk(copy_layers(ls)))
    s = v.result
    v.ensures(len(s.layers.items) == len(ls), "number of axes")
    for x, y in zip(s.layers.items, ls):
        same_layer(v, x, y, "layers are those of a, b, c")
    valid_shape(v, s)


@contract("k2::EmptyRaggedShape", RO, P3)
def EmptyRaggedShape(v):
    v.ctx(0)
    n = number(v, 1, 2, 4)
    v.body(ret=lambda: fresh_shape(v.ex, n, "empty"))
    s = v.result
    v.ensures(num_axes(s) == n, "number of axes")
    for a in range(n):
        v.ensures(tot_size(s, a) == 0, "no elements")
    valid_shape(v, s)


@contract("k2::TrivialShape", RO, P3)
def TrivialShape(v):
    v.ctx(0)
    n = v.int(1)
    v.requires(n >= 0, "size")
    v.body(ret=lambda: fresh_shape(v.ex, 2, "trivial"))
    s = v.result
    v.ensures(And(num_axes(s) == 2, tot_size(s, 0) == 1, tot_size(s, 1) == n), "one list of everything")
    valid_shape(v, s)


@contract("k2::RegularRaggedShape", RO, P3)
def RegularRaggedShape(v):
    v.ctx(0)
    n, d = v.int(1), v.int(2)
    v.requires(And(n >= 0, d >= 0), "sizes")
    v.witness(lambda r, j: [(r, d, j - r * d, n), IT[2](r, j - r * d)])
    v.body(ret=lambda: fresh_shape(v.ex, 2, "regular"))
    s = v.result
    R, S = v.mem(rs_of(s, 1)), v.mem(ri_of(s, 1))
    v.ensures(And(num_axes(s) == 2, tot_size(s, 0) == n, tot_size(s, 1) == n * d), "sizes")
    v.ensures(forall(1, lambda i: imp(0 <= i, i <= n, R[i] == i * d), lambda i: R[i]), "every list has dim1 elements")
    valid_shape(v, s)


@contract("k2::GetLayer", RO, P3)
def GetLayer(v):
    s = any_shape(v, 0, 2, 4)
    k = number(v, 1, 0, num_axes(s) - 2)
    v.body(ret=lambda: mk(copy_layers([s.layers.items[k]])))
    t = v.result
    v.ensures(num_axes(t) == 2, "two axes")
    same_layer(v, t.layers.items[0], s.layers.items[k], "the layer asked for")
    valid_shape(v, t)


@contract("k2::DecomposeRaggedShape", RO, P3)
def DecomposeRaggedShape(v):
    s = any_shape(v, 0, 3, 4)
    k = number(v, 1, 1, num_axes(s) - 2)
    for i in (2, 3):
        v.out_param(i, lambda: mk([]))
    ls = s.layers.items
    v.body(outs={2: lambda: mk(copy_layers(ls[:k])), 3: lambda: mk(copy_layers(ls[k:]))})
    for i, want in ((2, ls[:k]), (3, ls[k:])):
        t = v.out(i)
        v.ensures(len(t.layers.items) == len(want), "number of axes")
        for x, y in zip(t.layers.items, want):
            same_layer(v, x, y, "layers before / from the axis")
        valid_shape(v, t, "top" if i == 2 else "bottom")


@contract("k2::Unsqueeze", RO, P3, ptypes={0: is_shape})
def Unsqueeze(v):
    s = any_shape(v, 0, 2, 3)
    na = num_axes(s)
    k = number(v, 1, 0, na - 1)
    n = tot_size(s, k)

    def ret():
        l = model.fresh_layer(v.ex, "unsqueezed", z3.IntVal(1) if k == 0 else n, n)
        ls = copy_layers(s.layers.items)
        return mk(ls[:k] + [l] + ls[k:])
    v.body(ret=ret)
    t = v.result
    v.ensures(num_axes(t) == na + 1, "one more axis")
    others = t.layers.items[:k] + t.layers.items[k + 1:]
    for x, y in zip(others, s.layers.items):
        same_layer(v, x, y, "the other layers are the same")
    l = t.layers.items[k]
    if k == 0:
        eq_splits(v, l.f["row_splits"], None, 1, lambda i: If(i == 0, 0, n), "one list of everything")
    else:
        eq_splits(v, l.f["row_splits"], None, n, lambda i: i, "lists of one element")
    v.ensures(l.f["cached_tot_size"] == n, "size")
    valid_shape(v, t)


@contract("k2::RemoveAxis", RO, P3, ptypes={0: is_shape})
def RemoveAxis(v):
    s = any_shape(v, 0, 3, 5)
    na = num_axes(s)
    k = number(v, 1, 0, na - 1)
    ls = s.layers.items

    def merged():
        return [model.fresh_layer(v.ex, "merged", ls[k - 1].f["row_splits"].dim - 1, ls[k].f["cached_tot_size"])]

    def ret():
        if k == 0:
            return mk(copy_layers(ls[1:]))
        if k == na - 1:
            return mk(copy_layers(ls[:-1]))
        return mk(copy_layers(ls[:k - 1]) + merged() + copy_layers(ls[k + 1:]))
    v.body(ret=ret)
    t = v.result
    v.ensures(num_axes(t) == na - 1, "one axis less")
    inner = 0 < k < na - 1
    keep = ls[1:] if k == 0 else ls[:-1] if k == na - 1 else ls[:k - 1] + [None] + ls[k + 1:]
    for x, y in zip(t.layers.items, keep):
        if y is not None:
            same_layer(v, x, y, "the other layers are the same")
    if inner:
        A, B = v.mem(ls[k - 1].f["row_splits"]), v.mem(ls[k].f["row_splits"])
        n = ls[k - 1].f["row_splits"].dim - 1
        eq_splits(v, t.layers.items[k - 1].f["row_splits"], None, n, lambda i: B[A[i]], "lists of lists are concatenated")
        v.ensures(t.layers.items[k - 1].f["cached_tot_size"] == ls[k].f["cached_tot_size"], "all elements stay")
    valid_shape(v, t)


@contract("k2::Prefix", RO, P2, ptypes={0: is_shape})
def Prefix(v):
    s = any_shape(v, 0, 2, 4)
    n = v.int(1)
    v.requires(And(0 <= n, n <= tot_size(s, 0)), "at most all lists")
    ls = s.layers.items
    ends = [n]
    for l in ls:
        ends.append(v.mem(l.f["row_splits"])[ends[-1]])

    def ret():
        out = []
        for k, l in enumerate(ls):
            x = l.copy()
            x.f["row_splits"] = Arr(l.f["row_splits"].ptr, simp(ends[k] + 1), I32)
            x.f["row_ids"] = Arr(l.f["row_ids"].ptr, simp(ends[k + 1]), I32)
            x.f["cached_tot_size"] = ends[k + 1]
            out.append(x)
        return mk(out)
    v.body(ret=ret)
    t = v.result
    v.ensures(num_axes(t) == num_axes(s), "number of axes")
    for k, (x, l) in enumerate(zip(t.layers.items, ls)):
        R = v.mem(l.f["row_splits"])
        eq_splits(v, x.f["row_splits"], None, ends[k], lambda i: R[i], "the first lists, unchanged")
        v.ensures(x.f["cached_tot_size"] == ends[k + 1], "sizes")
    valid_shape(v, t)


@contract("k2::ChangeSublistSizePinned", RO, P3)
def ChangeSublistSizePinned(v):
    s, d = any_shape(v, 0, 2, 3), v.int(1)
    na = num_axes(s)
    rs0 = rs_of(s, na - 1)
    n, R0 = rs0.dim - 1, v.mem(rs0)

    def ret():
        return mk(copy_layers(s.layers.items[:-1]) + [model.fresh_layer(v.ex, "changed", n, v.ex.fresh("tot"))])
    v.body(ret=ret)
    t = v.result
    v.ensures(num_axes(t) == na, "number of axes")
    for x, y in zip(t.layers.items[:-1], s.layers.items[:-1]):
        same_layer(v, x, y, "the other layers are the same")
    R = v.mem(rs_of(t, na - 1))

    def size(i):
        o = R0[i + 1] - R0[i]
        return R[i + 1] - R[i] == If(Or(o == 0, o + d <= 0), 0, o + d)
    v.ensures(rs_of(t, na - 1).dim == n + 1, "as many lists")
    v.ensures(forall(1, lambda i: imp(0 <= i, i < n, size(i)), lambda i: R[i]), "lists grow by size_delta, empty lists stay empty")
    valid_shape(v, t)


def _affix(v, suffix):
    a = any_ragged(v, 0, 2, 3)
    na = num_axes(a)
    x = v.arr(1)
    v.requires(x.dim == tot_size(a, na - 2), "one entry per list")
    v.body(ret=lambda: model.fresh_ragged(v.ex, na, I32, "ans"))
    b = v.result
    R0, R, J = v.mem(rs_of(a, na - 1)), v.mem(rs_of(b, na - 1)), v.mem(ri_of(b, na - 1))
    A, B, X = v.mem(a.values), v.mem(b.values), v.mem(x)
    n, m = tot_size(a, na - 2), tot_size(a, na - 1)
    v.ensures(And(num_axes(b) == na, tot_size(b, na - 1) == m + n, b.values.dim == m + n), "one more element per list")
    for p, q in zip(b.shape.layers.items[:-1], a.shape.layers.items[:-1]):
        if v.verifying:
            same_layer(v, p, q)
        else:
            P, Q = v.mem(p.f["row_splits"]), v.mem(q.f["row_splits"])
            v.ensures(And(p.f["row_splits"].dim == q.f["row_splits"].dim, forall(1, lambda i: P[i] == Q[i], lambda i: P[i])))
    v.ensures(forall(1, lambda i: imp(0 <= i, i <= n, R[i] == R0[i] + i), lambda i: R[i]), "every list has one more element")

    def val(j):
        r = J[j]
        k = j - R[r]
        new = j + 1 == R[r + 1] if suffix else k == 0
        return B[j] == If(new, X[r], A[R0[r] + k - (0 if suffix else 1)])
    v.ensures(forall(1, lambda j: imp(0 <= j, j < m + n, val(j)), lambda j: J[j]), "the list's elements and the new one")
    valid_shape(v, b.shape)


@contract("k2::AddSuffixToRagged", RO, P3)
def AddSuffixToRagged(v):
    _affix(v, True)


@contract("k2::AddPrefixToRagged", RO, P3)
def AddPrefixToRagged(v):
    _affix(v, False)


def renum_maps(v, r):
    return r.f["keep_"].dim, r.f["num_new_elems_"], v.mem(r.f["old2new_"]), v.mem(r.f["new2old_"])


def removed_lists(v, s, t, r, what):
    """t is s with the (empty) lists dropped that r does not keep"""
    n, m, O, N = renum_maps(v, r)
    R0, R = v.mem(rs_of(s, 1)), v.mem(rs_of(t, 1))
    v.ensures(And(rs_of(t, 1).dim == m + 1, tot_size(t, 1) == tot_size(s, 1)), what + ": sizes")
    v.ensures(forall(1, lambda i: imp(0 <= i, i < m, And(R[i] == R0[N[i]], R[i + 1] == R0[N[i] + 1])), lambda i: R[i]), what + ": lists kept are the same")
    for x, y in zip(t.layers.items[1:], s.layers.items[1:]):
        same_layer(v, x, y, what + ": the other layers are the same")


@contract("k2::RenumberAxis0Simple", RO, P2)
def RenumberAxis0Simple(v):
    s = any_shape(v, 0, 2, 3)
    r = renumber.param(v, 1)
    n, K = r.f["keep_"].dim, v.mem(r.f["keep_"])
    R0 = v.mem(rs_of(s, 1))
    v.requires(n == tot_size(s, 0), "one entry per list")
    v.requires(forall(1, lambda i: imp(0 <= i, i < n, K[i] == 0, R0[i] == R0[i + 1]), lambda i: K[i]), "only empty lists are removed")
    if v.verifying:
        def gaps():
            q = v.ex.load(v.args[1])
            _, m, O, N = renum_maps(v, q)
            # nothing lies between two kept neighbours
            v.pull("kept or empty", lambda k: imp(0 <= k, k < n, Or(And(K[k] == 1, O[k + 1] == O[k] + 1, O[k] >= 0, N[O[k]] == k), And(O[k + 1] == O[k], R0[k + 1] == R0[k]))), lambda k: [K[k], O[k]], lambda k: R0[k])
            v.induction("no elements between kept lists", lambda k: R0[k] == If(O[k] == 0, 0, R0[N[O[k] - 1] + 1]), 0, n + 1, pat=lambda k: R0[k])
            v.lemma(And(imp(m == 0, R0[n] == 0), imp(m > 0, R0[N[0]] == 0)), "nothing before the first list kept")
        v.at_shape(gaps)
        v.look(lambda: [IT[1](z3.IntVal(0)), R0[n]])
    v.body(ret=lambda: mk([model.fresh_layer(v.ex, "renumbered", v.ex.fresh("rows"), tot_size(s, 1))] + copy_layers(s.layers.items[1:])))
    t = v.result
    v.ensures(num_axes(t) == num_axes(s), "number of axes")
    removed_lists(v, s, t, renumber.computed(v, 1), "result")
    valid_shape(v, t)


@contract("k2::SubsetRaggedShape", RO, P2, nparams=3, ptypes={2: lambda t: t[0] == 'ref'})
def SubsetRaggedShape2(v):
    s = any_shape(v, 0, 3, 4)
    na = num_axes(s)
    r1, r2 = renumber.param(v, 1), renumber.param(v, 2)
    K1, K2 = v.mem(r1.f["keep_"]), v.mem(r2.f["keep_"])
    l1, l2 = s.layers.items[-2], s.layers.items[-1]
    n1, n2 = l1.f["cached_tot_size"], l2.f["cached_tot_size"]
    v.requires(And(r1.f["keep_"].dim == n1, r2.f["keep_"].dim == n2), "one entry per list / element")
    R1, R2, I2 = v.mem(l1.f["row_splits"]), v.mem(l2.f["row_splits"]), v.mem(l2.f["row_ids"])
    v.requires(forall(1, lambda j: imp(0 <= j, j < n2, K2[j] == 1, K1[I2[j]] == 1), lambda j: I2[j]), "elements are only kept in lists that are kept")
    if v.verifying:
        def gaps():
            _, m1, O1, N1 = renum_maps(v, v.ex.load(v.args[1]))
            _, m2, O2, N2 = renum_maps(v, v.ex.load(v.args[2]))
            v.induction("no element is kept in a list that is dropped", lambda j: imp(j < n2, K1[I2[j]] == 0, O2[j] == O2[R2[I2[j]]]), 0, n2, pat=lambda j: I2[j])
            v.pull("a list that is dropped counts nothing", lambda k: imp(0 <= k, k < n1, K1[k] == 0, O2[R2[k]] == O2[R2[k + 1]]),
                   lambda k: [I2[R2[k]], I2[R2[k + 1] - 1], O2[R2[k + 1] - 1]], lambda k: O2[R2[k]])
            v.induction("no elements between kept lists", lambda k: O2[R2[k]] == If(O1[k] == 0, 0, O2[R2[N1[O1[k] - 1] + 1]]), 0, n1 + 1, pat=lambda k: O2[R2[k]])
        v.at_shape(gaps)

    def ret():
        q1, q2 = renumber.computed(v, 1), renumber.computed(v, 2)
        a = model.fresh_layer(v.ex, "before_last", l1.f["row_splits"].dim - 1, q1.f["num_new_elems_"])
        b = model.fresh_layer(v.ex, "last", q1.f["num_new_elems_"], q2.f["num_new_elems_"])
        return mk(copy_layers(s.layers.items[:-2]) + [a, b])
    v.body(ret=ret)
    t = v.result
    q1, q2 = renumber.computed(v, 1), renumber.computed(v, 2)
    O1, N1, O2, N2 = [v.mem(q.f[f]) for q in (q1, q2) for f in ("old2new_", "new2old_")]
    m1, m2 = q1.f["num_new_elems_"], q2.f["num_new_elems_"]
    v.ensures(num_axes(t) == na, "number of axes")
    for x, y in zip(t.layers.items[:-2], s.layers.items[:-2]):
        same_layer(v, x, y)
    a, b = t.layers.items[-2], t.layers.items[-1]
    eq_splits(v, a.f["row_splits"], None, l1.f["row_splits"].dim - 1, lambda i: O1[R1[i]], "lists kept are counted")
    eq_splits(v, b.f["row_splits"], None, m1, lambda i: O2[R2[N1[i]]], "elements kept are counted")
    v.ensures(And(a.f["cached_tot_size"] == m1, b.f["cached_tot_size"] == m2), "sizes")
    I2n = v.mem(b.f["row_ids"])
    v.ensures(forall(1, lambda j: imp(0 <= j, j < m2, I2n[j] == O1[I2[N2[j]]]), lambda j: I2n[j]), "an element stays in its list")
    valid_shape(v, t)


@contract("k2::RemoveEmptyListsAxis0", RO, P2)
def RemoveEmptyListsAxis0(v):
    s = any_shape(v, 0, 2, 3)
    no = v.fork_null(1)
    if v.verifying and not no:
        v.out_param(1, lambda: renumber.raw(v))
    R0 = v.mem(rs_of(s, 1))
    n = tot_size(s, 0)

    def done():
        r = renumber.raw(v, fresh=True)
        v.ex.assume(r.f["keep_"].dim == n)
        K = v.mem(r.f["keep_"])
        v.ex.assume(forall(1, lambda i: imp(0 <= i, i < n, K[i] == If(R0[i] == R0[i + 1], 0, 1)), lambda i: K[i]))
        r.f["old2new_"] = v.new_arr(I32, simp(n + 1), "old2new")
        r.f["num_new_elems_"] = v.ex.fresh("num_new")
        for what, f in renumber.o2n_facts(v, r):
            v.ex.assume(f)
        renumber.longer_n2o(v, r)
        for what, f in renumber.n2o_facts(v, r):
            v.ex.assume(f)
        return r
    v.body(ret=lambda: mk([model.fresh_layer(v.ex, "nonempty", v.ex.fresh("rows"), tot_size(s, 1))] + copy_layers(s.layers.items[1:])),
           outs={} if no else {1: done})
    t = v.result
    v.ensures(num_axes(t) == num_axes(s), "number of axes")
    R = v.mem(rs_of(t, 1))
    v.ensures(forall(1, lambda i: imp(0 <= i, i < rs_of(t, 1).dim - 1, R[i] < R[i + 1]), lambda i: R[i]), "no list is empty")
    v.ensures(tot_size(t, 1) == tot_size(s, 1), "all elements stay")
    if not no:
        r = v.out(1)
        K = v.mem(r.f["keep_"])
        v.ensures(And(r.f["keep_"].dim == n, forall(1, lambda i: imp(0 <= i, i < n, K[i] == If(R0[i] == R0[i + 1], 0, 1)), lambda i: K[i])), "keeps the lists that are not empty")
        removed_lists(v, s, t, r, "result")
    valid_shape(v, t)

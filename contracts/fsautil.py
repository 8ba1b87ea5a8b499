"""Contracts for fsa_utils.cu: states, scores and posteriors of automata."""
import z3
from engine.contract import *
from engine.contract import contract, forall, imp
from engine import model
from engine.model import rs_of, ri_of, tot_size, num_axes
from engine.vc import IT, div_def, DIV, MOD, Ptr, NullPtr, Arr, Obj, Rec, Vec, simp, conc, I, INF
from z3 import And, Or, Not, If, Implies, Exists, ForAll
from contracts.shapes import valid_shape, same_arr
from contracts.graphs import arcs_of, fresh_fsa_vec, fresh_arr, need_fsa, good_fsa

FU = "k2/csrc/fsa_utils.cu"
I32 = ['int', 32, True]


def offsets(v, a):
    """row_splits1, row_splits2, row_ids1, row_ids2 of a 3-axis object"""
    return [v.mem(z) for z in (rs_of(a, 1), rs_of(a, 2), ri_of(a, 1), ri_of(a, 2))]


def each(v, n, f, pat, what):
    v.ensures(forall(1, lambda i: imp(0 <= i, i < n, f(i)), pat), what)


def src_ok(v, a, dest=True):
    """arcs are with their source states and lead to states of the same automaton"""
    S1, S2, I1, I2 = offsets(v, a)
    src, dst, lab, sc = arcs_of(v, a)
    m = tot_size(a, 2)
    v.requires(forall(1, lambda e: imp(0 <= e, e < m, src[e] == I2[e] - S1[I1[I2[e]]]), lambda e: I2[e]), "arcs are with their source states")
    if dest:
        v.requires(forall(1, lambda e: imp(0 <= e, e < m, And(0 <= dst[e], dst[e] < S1[I1[I2[e]] + 1] - S1[I1[I2[e]]])), lambda e: I2[e]), "arcs lead to existing states")


@contract("k2::GetDestStates", FU, ["C16", "C09", "C10", "C30"])
def GetDestStates(v):
    a, full = v.ragged(0, 3), v.int(1)
    S1, S2, I1, I2 = offsets(v, a)
    src, dst, lab, sc = arcs_of(v, a)
    m = tot_size(a, 2)
    src_ok(v, a, False)
    v.body(ret=lambda: v.new_arr(I32, m))
    r = v.result
    R = v.mem(r)
    v.ensures(r.dim == m, "one entry per arc")
    each(v, m, lambda e: R[e] == If(full, S1[I1[I2[e]]] + dst[e], dst[e]), lambda e: I2[e], "the state the arc leads to")


def score_arr(v, k, n):
    f = v.arr(k)
    v.requires(f.dim == n, "one score per state")
    return v.mem(f)


@contract("k2::GetTotScores", FU, ["C16", "C30"])
def GetTotScores(v):
    a = v.ragged(0, 3)
    S1, S2, I1, I2 = offsets(v, a)
    n = tot_size(a, 0)
    F = score_arr(v, 1, tot_size(a, 1))
    v.body(ret=lambda: v.new_arr(arr_elem(v.ret_type), n))
    R = v.mem(v.result)
    v.ensures(v.result.dim == n, "one score per automaton")
    each(v, n, lambda f: R[f] == If(S1[f] < S1[f + 1], F[S1[f + 1] - 1], -INF), lambda f: R[f], "forward score of the final state, -infinity if there is none")


@contract("k2::GetArcPost", FU, ["C16", "C17", "C18", "C30"])
def GetArcPost(v):
    a = v.ragged(0, 3)
    S1, S2, I1, I2 = offsets(v, a)
    src, dst, lab, sc = arcs_of(v, a)
    n, N, m = tot_size(a, 0), tot_size(a, 1), tot_size(a, 2)
    F, B = score_arr(v, 1, N), score_arr(v, 2, N)
    src_ok(v, a)
    v.body(ret=lambda: v.new_arr(arr_elem(v.ret_type), m))
    R = v.mem(v.result)
    v.ensures(v.result.dim == m, "one entry per arc")

    def post(e):
        f = I1[I2[e]]
        tot = (F[S1[f + 1] - 1] + B[S1[f]]) / 2
        return R[e] == sc[e] + F[S1[f] + src[e]] + B[S1[f] + dst[e]] + If(tot == -INF, -INF, -tot)
    each(v, m, post, lambda e: I2[e], "forward + score + backward - total")


@contract("k2::FixFinalLabels", FU, ["C08", "C14", "C30"])
def FixFinalLabels(v):
    naxes = 2 + v.ex.decide(2) if v.verifying else num_axes(v._obj(0))
    a = v.ragged(0, naxes)
    stride = v.int(2)
    v.requires(stride >= 1, "stride")
    m = tot_size(a, naxes - 1)
    M = v.multiples(stride)
    size = If(m > 0, M(m - 1) + 1, 0)
    L = v.ptr(1, size)
    src, dst, lab, sc = arcs_of(v, a)
    if naxes == 3:
        S1, S2, I1, I2 = offsets(v, a)
        J = I2
        fin = lambda e: S1[I1[I2[e]] + 1] - 1 - S1[I1[I2[e]]]
    else:
        J = v.mem(ri_of(a, 1))
        fin = lambda e: tot_size(a, 0) - 1
    X = v.mem(L)
    v.requires(forall(1, lambda e: imp(0 <= e, e < m, dst[e] == fin(e), Or(X[M(e)] == 0, X[M(e)] == -1)), lambda e: J[e]), "labels of final arcs are 0 or -1")
    v.body(modifies=[(L, 0, size)])
    Y, O = v.mem(L), v.old(L)
    each(v, m, lambda e: Y[M(e)] == If(dst[e] == fin(e), -1, If(O[M(e)] == -1, 0, O[M(e)])), lambda e: J[e], "-1 exactly on final arcs, 0 elsewhere instead of -1")


@contract("k2::GetStartStates", FU, ["C17", "C30"])
def GetStartStates(v):
    a = v.ragged(0, 3)
    n = tot_size(a, 0)
    S1 = v.mem(rs_of(a, 1))

    def sizes():
        D = v.mem(v.local("ans_row_splits"))
        v.mono(D, n + 1, "one or none")
    v.at_shape(sizes)
    v.body(ret=lambda: model.fresh_ragged(v.ex, 2, I32, "ans"))
    b = v.result
    S, J, X = v.mem(rs_of(b, 1)), v.mem(ri_of(b, 1)), v.mem(b.values)
    v.ensures(tot_size(b, 0) == n, "one list per automaton")
    each(v, n, lambda f: S[f + 1] - S[f] == If(S1[f + 1] > S1[f], 1, 0), lambda f: S[f], "one start state unless it is empty")
    each(v, tot_size(b, 1), lambda j: X[j] == S1[J[j]], lambda j: J[j], "the first state")
    valid_shape(v, b.shape)


def sums(v, name, at):
    """F(s, e) = at(s) + ... + at(e - 1)"""
    F = v.fresh_fn(name, I, I, z3.RealSort())
    v.define(forall(1, lambda s: F(s, s) == 0, lambda s: F(s, s)))
    v.define(forall(2, lambda s, j: imp(s <= j, F(s, j + 1) == at(j) + F(s, j)), lambda s, j: F(s, j)))
    return F


@contract("k2::BackpropGetArcPost", FU, ["C16", "C18", "C30"])
def BackpropGetArcPost(v):
    a, inc, p = v.ragged(0, 3), v.ragged(1, 3), v.arr(2)
    n, N, m = tot_size(a, 0), tot_size(a, 1), tot_size(a, 2)
    S1, S2, R, X, P = v.mem(rs_of(a, 1)), v.mem(rs_of(a, 2)), v.mem(rs_of(inc, 2)), v.mem(inc.values), v.mem(p)
    v.requires(And(tot_size(inc, 0) == n, tot_size(inc, 1) == N, tot_size(inc, 2) == m), "arcs of the same automata")
    v.requires(forall(1, lambda j: imp(0 <= j, j < m, And(0 <= X[j], X[j] < m)), lambda j: X[j]), "arcs exist")
    v.requires(p.dim == m, "one derivative per arc")
    for k in (3, 4):
        v.out_param(k, lambda: v.new_arr(p.ty, 0, "deriv"))
    lea, ent = sums(v, "of_arcs", lambda j: P[j]), sums(v, "of_entering", lambda j: P[X[j]])
    if v.verifying:
        at = []

        def reduced(cv):
            H = ent if len(at) == 1 else lea
            at.append(cv)
            if H is ent:
                Z = v.mem(v.local("incoming_arc_post_deriv"))
                v.pull("derivatives of entering arcs", lambda j: imp(0 <= j, j < m, Z[j] == P[X[j]]), lambda j: [j], lambda j: Z[j])
            s_, k = v.ex.fresh("s"), v.ex.fresh("k")
            same = lambda e: cv.F(s_, e) == H(s_, e)
            v.lemma(same(s_))
            v.ex.oblige("lemma", Implies(And(0 <= s_, s_ <= k, k < m, same(k)), same(k + 1)), f"the same sums: step {len(at)}")
            v.ex.assume(forall(2, lambda s, e: imp(0 <= s, s <= e, e <= m, cv.F(s, e) == H(s, e)), lambda s, e: cv.F(s, e)))
        v.after("k2::SegmentedReduce", reduced)
    mkarr = lambda: v.new_arr(p.ty, N, "deriv")
    v.body(outs={3: mkarr, 4: mkarr})
    fo, bo = v.out(3), v.out(4)
    FD, BD = v.mem(fo), v.mem(bo)
    I1 = v.mem(ri_of(a, 1))
    half = z3.RealVal("1/2")
    tot = lambda f: lea(S2[S1[f]], S2[S1[f + 1]])
    v.ensures(And(fo.dim == N, bo.dim == N), "one derivative per state")
    each(v, N, lambda i: FD[i] == If(i + 1 == S1[I1[i] + 1], -half * tot(I1[i]), lea(S2[i], S2[i + 1])), lambda i: I1[i],
         "forward score: arcs leaving the state; final state: minus half of all")
    each(v, N, lambda i: BD[i] == If(i == S1[I1[i]], -half * tot(I1[i]), ent(R[i], R[i + 1])), lambda i: I1[i],
         "backward score: arcs entering the state; start state: minus half of all")

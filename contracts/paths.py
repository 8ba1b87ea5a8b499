"""Contracts for fsa_utils.cu: automata made from selected arcs or states, and batches of arcs."""
import z3
from engine.contract import *
from engine.contract import contract, trusted, forall, imp, Fn
from engine import model
from engine.model import rs_of, ri_of, tot_size, num_axes
from engine.vc import IT, Ptr, NullPtr, Arr, Obj, Rec, Vec, simp, conc, I, LOG
from z3 import And, Or, Not, If, Implies, Exists, ForAll
from contracts.shapes import valid_shape, same_arr
from contracts.graphs import arcs_of, fresh_fsa_vec, fresh_arr, need_fsa, good_fsa
from contracts.fsautil import FU, I32, offsets, each, src_ok
from contracts.ragged import same_layer, copy_layers, mk, any_ragged

ARC = ['rec', 'k2::Arc']


@contract("k2::FsaVecFromArcIndexes", FU, ["C17", "C01", "C30"])
def FsaVecFromArcIndexes(v):
    a, b = v.ragged(0, 3), v.ragged(1, 2)
    n, m = tot_size(b, 0), tot_size(b, 1)
    B, J, X = v.mem(rs_of(b, 1)), v.mem(ri_of(b, 1)), v.mem(b.values)
    v.requires(tot_size(a, 0) == n, "one list of arcs per automaton")
    v.requires(forall(1, lambda j: imp(0 <= j, j < m, And(0 <= X[j], X[j] < tot_size(a, 2))), lambda j: X[j]), "arcs exist")
    _, _, lab0, sc0 = arcs_of(v, a)

    def states(cv):
        st = v.local("states_shape")
        S, K = v.mem(rs_of(st, 1)), v.mem(ri_of(st, 1))
        D, T = v.mem(v.local("row_splits2")), v.mem(v.local("row_ids2"))
        N = tot_size(st, 1)
        # the arc before state q, if it is not the first of its automaton, and the arc of state q
        G = v.seq("arc_of", lambda q: B[K[q]] + q - S[K[q]], 0, N, lambda q: K[q])
        v.lemma(forall(1, lambda q: imp(0 <= q, q < N, And(B[K[q]] <= G[q], G[q] <= B[K[q] + 1], B[K[q]] < B[K[q] + 1], B[K[q] + 1] <= m, 0 <= B[K[q]])),
                       lambda q: G[q]), "arc of a state")
        v.lemma(forall(1, lambda q: imp(0 <= q, q < N, G[q] < B[K[q] + 1], J[G[q]] == K[q]), lambda q: G[q]), "its list")
        v.induction("no states between equal offsets", lambda k: forall(["jj"], lambda j: imp(0 <= j, j <= k, B[j] == B[k], S[j] == S[k]), lambda j: B[j]),
                    0, n + 1, pat=lambda k: B[k])
        v.pull("arcs before a state", lambda q: imp(0 <= q, q < N, D[q] == G[q]), lambda q: [z3.IntVal(0), G[q], G[q] - 1, J[G[q] - 1], J[G[q]]], lambda q: G[q])
        v.pull("arcs in all", lambda x: imp(x == N, D[x] == m), lambda x: [m - 1, J[m - 1]], lambda x: D[x])
        v.lemma(forall(1, lambda e: imp(0 <= e, e < m, T[e] == S[J[e]] + e - B[J[e]]), lambda e: J[e]), "state of an arc")
        v.lemma(forall(1, lambda e: imp(0 <= e, e < m, And(K[T[e]] == J[e], G[T[e]] == e)), lambda e: J[e]), "arc of that state")
        v.lemma(forall(1, lambda q: imp(0 <= q, q + 1 < N, G[q + 1] == If(G[q] < B[K[q] + 1], G[q] + 1, G[q])), lambda q: G[q]), "arc of the next state")
        v.lemma(forall(1, lambda q: imp(0 <= q, q < N, D[q] == G[q]), lambda q: D[q]), "arcs before a state")
        v.mono(D, N + 1, "offsets of the arcs")
    v.before("k2::RaggedShape3", states)
    v.body(ret=lambda: fresh_fsa_vec(v))
    c = v.result
    S1, S2, I1, I2 = offsets(v, c)
    src, dst, lab, sc = arcs_of(v, c)
    v.ensures(And(tot_size(c, 0) == n, tot_size(c, 2) == m), "sizes")
    each(v, n, lambda f: S1[f + 1] - S1[f] == If(B[f + 1] > B[f], B[f + 1] - B[f] + 1, 0), lambda f: S1[f], "one more state than arcs, none without arcs")
    for what, f in (("an arc stays in its automaton", lambda e: I1[I2[e]] == J[e]),
                    ("source", lambda e: And(src[e] == e - B[J[e]], I2[e] == S1[J[e]] + src[e])),
                    ("destination is the next state", lambda e: dst[e] == e - B[J[e]] + 1),
                    ("label", lambda e: lab[e] == lab0[X[e]]),
                    ("score", lambda e: sc[e] == sc0[X[e]])):
        each(v, m, f, lambda e: I2[e], what)
    valid_shape(v, c.shape)


def _batches(v, a, rs, b, value):
    """a: automata; rs: row_splits of the lists of arcs of each state; b: batches of states"""
    N, m = tot_size(a, 1), tot_size(a, 2)
    R, B = v.mem(rs), v.mem(b.values)
    v.requires(b.values.dim == N, "as many entries as states")
    v.requires(forall(1, lambda j: imp(0 <= j, j < N, And(0 <= B[j], B[j] < N)), lambda j: B[j]), "states exist")
    # arcs of the states in batches before entry j
    G0 = v.fresh_fn("arcs_before", I, I)
    v.define(forall(1, lambda j: G0(j + 1) == G0(j) + R[B[j] + 1] - R[B[j]], lambda j: B[j]))
    v.define(G0(z3.IntVal(0)) == 0)
    v.requires(G0(N) == m, "the states in batches have all arcs between them")

    def sums():
        D = v.mem(v.local("ans_row_splits3"))
        v.induction("running sums", lambda j: D[j] == G0(j), 0, N + 1, pat=lambda j: D[j])
    v.before("k2::RowSplitsToRowIds", lambda cv: sums())
    v.at_shape(sums)

    def ret():
        ls = copy_layers(b.shape.layers.items) + [model.fresh_layer(v.ex, "arcs", N, m)]
        return Obj("ragged", shape=mk(ls), values=v.new_arr(I32, m, "arcs"))
    v.body(ret=ret)
    c = v.result
    v.ensures(num_axes(c) == 4, "number of axes")
    for x, y in zip(c.shape.layers.items, b.shape.layers.items):
        same_layer(v, x, y, "batches and automata stay")
    S, J, Y = v.mem(rs_of(c, 3)), v.mem(ri_of(c, 3)), v.mem(c.values)
    v.ensures(And(tot_size(c, 2) == N, tot_size(c, 3) == m, c.values.dim == m), "sizes")
    each(v, N, lambda j: S[j + 1] - S[j] == R[B[j] + 1] - R[B[j]], lambda j: B[j], "as many arcs as the state has")
    each(v, m, lambda q: Y[q] == value(R[B[J[q]]] + q - S[J[q]]), lambda q: J[q], "the arcs of the state, in order")
    valid_shape(v, c.shape)


@contract("k2::GetLeavingArcIndexBatches", FU, ["C16", "C17", "C30"])
def GetLeavingArcIndexBatches(v):
    a, b = v.ragged(0, 3), v.ragged(1, 3)
    _batches(v, a, rs_of(a, 2), b, lambda i: i)


@contract("k2::GetEnteringArcIndexBatches", FU, ["C16", "C17", "C30"])
def GetEnteringArcIndexBatches(v):
    a, inc, b = v.ragged(0, 3), v.ragged(1, 3), v.ragged(2, 3)
    X = v.mem(inc.values)
    v.requires(And(tot_size(inc, 0) == tot_size(a, 0), tot_size(inc, 1) == tot_size(a, 1), tot_size(inc, 2) == tot_size(a, 2)), "arcs of the same automata")
    _batches(v, a, rs_of(inc, 2), b, lambda i: X[i])


@contract("k2::RenumberFsaVec", FU, ["C09", "C10", "C12", "C18", "C30"])
def RenumberFsaVec(v):
    a, o = v.ragged(0, 3), v.arr(1)
    S1, S2, I1, I2 = offsets(v, a)
    src0, dst0, lab0, sc0 = arcs_of(v, a)
    n, N, m = tot_size(a, 0), tot_size(a, 1), tot_size(a, 2)
    k, O = o.dim, v.mem(o)
    src_ok(v, a)
    v.requires(k <= N, "at most all states")
    v.requires(forall(1, lambda i: imp(0 <= i, i < k, And(0 <= O[i], O[i] < N)), lambda i: O[i]), "states exist")
    # where a state is in order, -1 if it is not there
    V0 = v.fresh_fn("place", I, I)
    v.requires(forall(1, lambda i: imp(0 <= i, i < k, V0(O[i]) == i), lambda i: O[i]), "no state twice")
    v.requires(forall(1, lambda q: imp(0 <= q, q < N, Or(V0(q) == -1, And(0 <= V0(q), V0(q) < k, O[V0(q)] == q))), lambda q: V0(q)), "place of a state")
    v.requires(forall(1, lambda q: imp(k == N, 0 <= q, q < N, V0(q) >= 0), lambda q: V0(q)), "as many as there are: all")
    v.requires(forall(2, lambda i, j: imp(0 <= i, i <= j, j < k, I1[O[i]] <= I1[O[j]]), lambda i, j: (I1[O[i]], I1[O[j]])), "automata stay in order")
    v.requires(forall(1, lambda i: imp(k == N, 0 <= i, i < k, I1[O[i]] == I1[i]), lambda i: O[i]), "all states: they stay in their automaton")
    v.requires(forall(1, lambda e: imp(0 <= e, e < m, V0(I2[e]) >= 0, V0(S1[I1[I2[e]]] + dst0[e]) >= 0), lambda e: I2[e]),
               "kept states lead to kept states")
    none = v.fork_null(2)
    if v.verifying and not none:
        v.out_param(2, lambda: v.new_arr(I32, 0, "arc_map"))

    def shape(cv):
        T1, T2, K1, K2 = offsets(v, Obj("ragged", shape=cv.result, values=a.values))
        M = tot_size(cv.result, 2)
        W = v.W = v.mem(v.local("old2new_map"))
        v.pull("place of a state", lambda q: imp(0 <= q, q < N, W[q] == V0(q)), lambda q: [V0(q)], lambda q: V0(q))
        G = v.G = v.seq("old_arc", lambda e: S2[O[K2[e]]] + e - T2[K2[e]], 0, M, lambda e: K2[e])
        ok = lambda f, what: v.lemma(forall(1, lambda e: imp(0 <= e, e < M, f(e)), lambda e: K2[e]), what)
        ok(lambda e: And(S2[O[K2[e]]] <= G[e], G[e] < S2[O[K2[e]] + 1], 0 <= G[e], G[e] < m), "an arc of the old state")
        ok(lambda e: I2[G[e]] == O[K2[e]], "old state")
        ok(lambda e: K1[K2[e]] == I1[O[K2[e]]], "old automaton")
        ok(lambda e: And(V0(S1[I1[I2[G[e]]]] + dst0[G[e]]) >= 0, V0(I2[G[e]]) == K2[e]), "kept")
        ok(lambda e: And(W[S1[K1[K2[e]]] + dst0[G[e]]] == V0(S1[K1[K2[e]]] + dst0[G[e]]), W[S1[K1[K2[e]]] + src0[G[e]]] == K2[e]), "places")
    v.after("k2::RaggedShape3", shape)
    v.body(ret=lambda: fresh_fsa_vec(v), outs={} if none else {2: lambda: v.new_arr(I32, None, "arc_map")})
    c = v.result
    T1, T2, K1, K2 = offsets(v, c)
    src, dst, lab, sc = arcs_of(v, c)
    M = tot_size(c, 2)
    v.ensures(And(tot_size(c, 0) == n, tot_size(c, 1) == k), "sizes")
    each(v, k, lambda i: K1[i] == I1[O[i]], lambda i: O[i], "a state stays in its automaton")
    each(v, k, lambda i: T2[i + 1] - T2[i] == S2[O[i] + 1] - S2[O[i]], lambda i: O[i], "all its arcs are kept")
    at = (lambda e: v.G[e]) if hasattr(v, "G") else lambda e: S2[O[K2[e]]] + e - T2[K2[e]]
    if hasattr(v, "G"):
        v.lemma(forall(1, lambda e: imp(0 <= e, e < M, dst[e] == v.W[S1[K1[K2[e]]] + dst0[v.G[e]]] - T1[K1[K2[e]]]), lambda e: K2[e]), "destination: its new number")
    each(v, M, lambda e: at(e) == S2[O[K2[e]]] + e - T2[K2[e]], lambda e: K2[e], "which arc")
    for what, f in (("source", lambda e: src[e] == K2[e] - T1[K1[K2[e]]]),
                    ("destination", lambda e: dst[e] == V0(S1[K1[K2[e]]] + dst0[at(e)]) - T1[K1[K2[e]]]),
                    ("label", lambda e: lab[e] == lab0[at(e)]),
                    ("score", lambda e: sc[e] == sc0[at(e)])):
        each(v, M, f, lambda e: K2[e], what)
    if not none:
        W = v.mem(v.out(2))
        v.ensures(v.out(2).dim == M, "arc map: one entry per arc")
        each(v, M, lambda e: W[e] == at(e), lambda e: K2[e], "arc map")
    valid_shape(v, c.shape)


@contract("k2::ComposeArcMaps", FU, ["C18", "C11", "C30"])
def ComposeArcMaps(v):
    a, b = v.ragged(0, 2), v.ragged(1, 2)
    n, k = tot_size(a, 0), tot_size(b, 1)
    A, X, B, Y = v.mem(rs_of(a, 1)), v.mem(a.values), v.mem(rs_of(b, 1)), v.mem(b.values)
    v.requires(forall(1, lambda j: imp(0 <= j, j < k, And(-1 <= Y[j], Y[j] < n)), lambda j: Y[j]), "entries of the second map are arcs of the first, or -1")
    if v.verifying:
        def got(cv):
            v.inner, v.E = rs_of(cv.inner, 1), cv.E[1]
        v.after("k2::Index", got)
    v.body(ret=lambda: model.fresh_ragged(v.ex, 2, I32, "composed"))
    c = v.result
    C, J, Z = v.mem(rs_of(c, 1)), v.mem(ri_of(c, 1)), v.mem(c.values)
    m = tot_size(c, 1)
    if v.verifying:
        D, E = v.mem(v.inner), v.E
    else:
        D, E = v.mem(v.new_arr(I32, k + 1, "before")), v.fresh_fn("source", I, I)
        v.ex.assume(D[0] == 0)
    v.ensures(tot_size(c, 0) == tot_size(b, 0), "one list per list of the second map")
    # D[j]: how many arcs the entries before entry j of the second map stand for
    v.ensures(forall(1, lambda j: imp(0 <= j, j < k, D[j + 1] - D[j] == If(Y[j] == -1, 0, A[Y[j] + 1] - A[Y[j]])), lambda j: Y[j]), "an entry stands for the list it names")
    v.ensures(forall(1, lambda i: imp(0 <= i, i <= tot_size(b, 0), C[i] == D[B[i]]), lambda i: C[i]), "lists are appended")
    v.ensures(c.values.dim == m, "one value per element")
    v.ensures(forall(1, lambda q: imp(0 <= q, q < m, Z[q] == X[E(q)]), lambda q: Z[q]), "values are those of the first map")
    v.ensures(forall(2, lambda j, q: imp(0 <= j, j < k, D[j] <= q, q < D[j + 1], E(q) == A[Y[j]] + q - D[j]), lambda j, q: (Y[j], E(q))), "in order")
    valid_shape(v, c.shape)


@contract("k2::PruneOnArcPost", FU, ["C17", "C18", "C30"])
def PruneOnArcPost(v):
    a, p, thr = v.ragged(0, 3), v.arr(1), v.int(2)
    m = tot_size(a, 2)
    P = v.mem(p)
    src0, dst0, lab0, sc0 = arcs_of(v, a)
    S1, S2, I1, I2 = offsets(v, a)
    v.requires(And(0 < thr, thr < 1), "a probability")
    v.requires(p.dim == m, "one posterior per arc")
    none = v.fork_null(3)
    if v.verifying:
        if not none:
            v.out_param(3, lambda: v.new_arr(I32, 0, "arc_map"))

        def got(cv):
            v.n2o, v.o2n = cv.arr(2), v.local("renumber_lists").f["old2new_"]
        v.before("k2::Index", got)
    v.body(ret=lambda: fresh_fsa_vec(v), outs={} if none else {3: lambda: v.new_arr(I32, None, "arc_map")})
    c = v.result
    T1, T2, K1, K2 = offsets(v, c)
    src, dst, lab, sc = arcs_of(v, c)
    M = tot_size(c, 2)
    E = v.mem(v.n2o) if v.verifying else Fn(v.fresh_fn("kept", I, I))
    lim = LOG(thr)
    v.ensures(And(tot_size(c, 0) == tot_size(a, 0), tot_size(c, 1) == tot_size(a, 1)), "all automata and states stay")
    v.ensures(forall(1, lambda e: imp(0 <= e, e < M, And(0 <= E[e], E[e] < m, Not(P[E[e]] < lim))), lambda e: E[e]), "no arc below the threshold is kept")
    v.ensures(forall(2, lambda i, j: imp(0 <= i, i < j, j < M, E[i] < E[j]), lambda i, j: (E[i], E[j])), "in order")
    place = v.mem(v.o2n) if v.verifying else Fn(v.fresh_fn("place", I, I))
    each(v, m, lambda e: Or(P[e] < lim, And(0 <= place[e], place[e] < M, E[place[e]] == e)), lambda e: P[e], "every other arc is kept")
    each(v, M, lambda e: K2[e] == I2[E[e]], lambda e: K2[e], "arcs leave the same states")
    for what, x, y in (("source", src, src0), ("destination", dst, dst0), ("label", lab, lab0), ("score", sc, sc0)):
        each(v, M, lambda e: x[e] == y[E[e]], lambda e: K2[e], what)
    if not none:
        W = v.mem(v.out(3))
        v.ensures(v.out(3).dim == M, "arc map: one entry per arc")
        each(v, M, lambda e: W[e] == E[e], lambda e: W[e], "arc map")
    valid_shape(v, c.shape)


@trusted("k2::GetTransposeReordering", "a stable permutation that sorts the values (std::vector buckets on the host, radix sort on the device)")
def GetTransposeReordering(v):
    r = any_ragged(v, 0, 2, 3)
    cols = v.int(1)
    n, X = r.values.dim, v.mem(r.values)
    v.requires(forall(1, lambda i: imp(0 <= i, i < n, And(0 <= X[i], X[i] < cols)), lambda i: X[i]), "columns exist")
    v.body(ret=lambda: v.new_arr(I32, n, "order"))
    o, O = v.result, v.mem(v.result)
    v.place = v.fresh_fn("place", I, I)
    v.ensures(forall(1, lambda i: imp(0 <= i, i < n, And(0 <= O[i], O[i] < n, v.place(O[i]) == i)), lambda i: O[i]), "a permutation")
    v.ensures(forall(1, lambda j: imp(0 <= j, j < n, And(0 <= v.place(j), v.place(j) < n, O[v.place(j)] == j)), lambda j: v.place(j)), "of all")
    v.ensures(forall(2, lambda i, j: imp(0 <= i, i < j, j < n, Or(X[O[i]] < X[O[j]], And(X[O[i]] == X[O[j]], O[i] < O[j]))), lambda i, j: (O[i], O[j])), "sorted, stable")


def incoming(v, dest, Y, place, J2, m):
    """Y lists, for every state, the arcs that lead to it"""
    v.ensures(forall(1, lambda j: imp(0 <= j, j < m, And(0 <= Y[j], Y[j] < m, place(Y[j]) == j)), lambda j: Y[j]), "no arc twice")
    v.ensures(forall(1, lambda e: imp(0 <= e, e < m, And(0 <= place(e), place(e) < m, Y[place(e)] == e)), lambda e: place(e)), "every arc")
    each(v, m, lambda j: J2[j] == dest(Y[j]), lambda j: J2[j], "with the state it leads to")
    v.ensures(forall(2, lambda i, j: imp(0 <= i, i < j, j < m, J2[i] == J2[j], Y[i] < Y[j]), lambda i, j: (Y[i], Y[j])), "in order")


@contract("k2::GetIncomingArcs", FU, ["C16", "C18", "C30"])
def GetIncomingArcs(v):
    a, d = v.ragged(0, 3), v.arr(1)
    n, N, m = tot_size(a, 0), tot_size(a, 1), tot_size(a, 2)
    D = v.mem(d)
    v.requires(d.dim == m, "one entry per arc")
    v.requires(forall(1, lambda e: imp(0 <= e, e < m, And(0 <= D[e], D[e] < N)), lambda e: D[e]), "states exist")
    if v.verifying:
        def got(cv):
            v.place = cv.place
        v.after("k2::GetTransposeReordering", got)

    def ret():
        l = a.shape.layers.items[0].copy()
        return Obj("ragged", shape=mk([l, model.fresh_layer(v.ex, "incoming", N, m)]), values=v.new_arr(I32, m, "incoming"))
    v.body(ret=ret)
    if not v.verifying:
        v.place = v.fresh_fn("place", I, I)
    c = v.result
    same_layer(v, c.shape.layers.items[0], a.shape.layers.items[0], "the same automata and states")
    v.ensures(And(tot_size(c, 1) == N, tot_size(c, 2) == m, c.values.dim == m), "sizes")
    incoming(v, lambda e: D[e], v.mem(c.values), v.place, v.mem(ri_of(c, 2)), m)
    valid_shape(v, c.shape)


@contract("k2::GetIncomingFsaVec", FU, ["C16", "C18", "C30"])
def GetIncomingFsaVec(v):
    a = v.ragged(0, 3)
    S1, S2, I1, I2 = offsets(v, a)
    src0, dst0, lab0, sc0 = arcs_of(v, a)
    n, N, m = tot_size(a, 0), tot_size(a, 1), tot_size(a, 2)
    src_ok(v, a)
    if v.verifying:
        def got(cv):
            v.place, v.Y = cv.place, v.mem(cv.result.values)
        v.after("k2::GetIncomingArcs", got)
    v.body(ret=lambda: fresh_fsa_vec(v))
    c = v.result
    T1, T2, K1, K2 = offsets(v, c)
    src, dst, lab, sc = arcs_of(v, c)
    if not v.verifying:
        v.place, v.Y = v.fresh_fn("place", I, I), Fn(v.fresh_fn("arc", I, I))
    Y = v.Y
    v.ensures(And(tot_size(c, 0) == n, tot_size(c, 1) == N, tot_size(c, 2) == m), "sizes")
    each(v, n + 1, lambda f: T1[f] == S1[f], lambda f: T1[f], "the same automata and states")
    incoming(v, lambda e: S1[I1[I2[e]]] + dst0[e], Y, v.place, K2, m)
    for what, x, y in (("source", src, src0), ("destination", dst, dst0), ("label", lab, lab0), ("score", sc, sc0)):
        each(v, m, lambda j: x[j] == y[Y[j]], lambda j: Y[j], what)
    valid_shape(v, c.shape)

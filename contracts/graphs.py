"""Contracts for the graph builders of fsa_algo.cu."""
import z3
from engine.contract import *
from engine.contract import contract, forall, imp
from engine import model
from engine.model import rs_of, ri_of, tot_size, num_axes
from engine.vc import IT, div_def, DIV, MOD, Ptr, NullPtr, Arr, Obj, Rec, Vec, simp, conc, I
from z3 import And, Or, Not, If, Implies, Exists, ForAll
from contracts.shapes import valid_shape, same_arr

FA = "k2/csrc/fsa_algo.cu"
P20 = ["C19", "C20", "C01", "C30"]


def arcs_of(v, fsa):
    """(src, dest, label, score) views of the arcs of an FsaVec"""
    return [v.mem(fsa.values, f) for f in ("src_state", "dest_state", "label", "score")]


def fresh_fsa_vec(v, naxes=3, name="ans"):
    return model.fresh_ragged(v.ex, naxes, ['rec', 'k2::Arc'], name)


@contract("k2::LinearFsas", FA, P20)
def LinearFsas(v):
    x = v.ragged(0, 2)
    rs, ri = rs_of(x, 1), ri_of(x, 1)
    B, n, m = v.mem(rs), rs.dim - 1, tot_size(x, 1)
    sym = v.mem(x.values)
    st = lambda: v.local("states_shape")
    v.look(lambda: [v.mem(ri_of(st(), 1))[tot_size(st(), 1) - 1]])
    v.witness(lambda r, j: [v.mem(ri_of(st(), 1))[r]])
    v.body(ret=lambda: fresh_fsa_vec(v))
    a = v.result
    s1, s2 = rs_of(a, 1), rs_of(a, 2)
    S1, S2 = v.mem(s1), v.mem(s2)
    src, dst, lab, sc = arcs_of(v, a)
    v.ensures(And(tot_size(a, 0) == n, tot_size(a, 1) == m + 2 * n, tot_size(a, 2) == m + n), "sizes")
    v.ensures(forall(1, lambda f: imp(0 <= f, f <= n, S1[f] == B[f] + 2 * f), lambda f: S1[f]), "one automaton per sequence, with two more states than symbols")
    I1 = v.mem(ri_of(a, 1))
    # i runs over the states of all automata, f = I1[i] is the automaton, e = i - f its arc
    for what, g in (("its arc is number i - f, the last state has none", lambda i, f, e: S2[i] == e),
                    ("source", lambda i, f, e: Implies(i + 1 < S1[f + 1], src[e] == i - S1[f])),
                    ("destination is the next state", lambda i, f, e: Implies(i + 1 < S1[f + 1], dst[e] == i - S1[f] + 1)),
                    ("score 0", lambda i, f, e: Implies(i + 1 < S1[f + 1], sc[e] == 0)),
                    ("reads its symbol", lambda i, f, e: Implies(i + 2 < S1[f + 1], lab[e] == sym[i - 2 * f])),
                    ("the last arc reads -1", lambda i, f, e: Implies(i + 2 == S1[f + 1], lab[e] == -1))):
        v.ensures(forall(1, lambda i: imp(0 <= i, i < m + 2 * n, g(i, I1[i], i - I1[i])), lambda i: I1[i]), what)
    valid_shape(v, a.shape)


@contract("k2::LevenshteinGraphs", FA, ["C23", "C19", "C01", "C30"])
def LevenshteinGraphs(v):
    x, cost = v.ragged(0, 2), v.int(1)
    rs = rs_of(x, 1)
    B, n, m = v.mem(rs), rs.dim - 1, tot_size(x, 1)
    sym = v.mem(x.values)
    v.requires(forall(1, lambda j: imp(0 <= j, j < m, And(sym[j] != 0, sym[j] != -1)), lambda j: sym[j]), "no symbol is 0 or -1")
    no_aux, no_off = v.fork_null(2), v.fork_null(3)
    if v.verifying:
        if not no_aux:
            v.arr(2)
        if not no_off:
            v.arr(3)
    A_ = m * 3 + n * 2

    def count():
        fs, D = v.local("fsa_to_states"), v.mem(v.local("num_arcs_for"))
        J, S = v.mem(ri_of(fs, 1)), v.mem(rs_of(fs, 1))

        def P(i):
            f = J[i]
            k, l = i - S[f], B[f + 1] - B[f]
            return D[i] == 3 * B[f] + 2 * f + If(k <= l, 3 * k, 3 * l + 2)
        v.induction("arcs before state i", P, 0, m + 2 * n, pat=lambda i: J[i])
        v.lemma(Implies(n > 0, J[m + 2 * n - 1] == n - 1))
    v.at_shape(count)
    outs = {}
    if not no_aux:
        outs[2] = lambda: v.new_arr(['int', 32, True], A_, "aux")
    if not no_off:
        outs[3] = lambda: v.new_arr(['float', 32], A_, "off")
    v.body(ret=lambda: fresh_fsa_vec(v), outs=outs)
    a = v.result
    S1, S2, I1, I2 = [v.mem(z) for z in (rs_of(a, 1), rs_of(a, 2), ri_of(a, 1), ri_of(a, 2))]
    src, dst, lab, sc = arcs_of(v, a)
    half = z3.RealVal("1/2")
    v.ensures(And(tot_size(a, 0) == n, tot_size(a, 1) == m + 2 * n, tot_size(a, 2) == A_), "sizes")
    v.ensures(forall(1, lambda f: imp(0 <= f, f <= n, S1[f] == B[f] + 2 * f), lambda f: S1[f]), "two more states than symbols")
    v.ensures(forall(1, lambda i: imp(0 <= i, i < m + 2 * n, S2[i + 1] - S2[i] == If(i + 1 == S1[I1[i] + 1], 0, If(i + 2 == S1[I1[i] + 1], 2, 3))),
                     lambda i: S2[i]), "three arcs leave every state, two the last but one, none the last")

    def arc(what, g):
        def at(e):
            i = I2[e]
            f = I1[i]
            k = i - S1[f]
            last = i + 2 == S1[f + 1]
            return g(e, e - S2[i], k, last, sym[i - 2 * f])
        v.ensures(forall(1, lambda e: imp(0 <= e, e < A_, at(e)), lambda e: I2[e]), what)
    arc("source", lambda e, q, k, last, s: src[e] == k)
    arc("first arc: loop; others: to the next state", lambda e, q, k, last, s: And(0 <= q, q < 3, dst[e] == If(q == 0, k, k + 1)))
    arc("labels", lambda e, q, k, last, s: lab[e] == If(q == 0, 0, If(last, -1, If(q == 1, 0, s))))
    arc("costs: insertion, deletion, match or end", lambda e, q, k, last, s: sc[e] == If(q == 0, cost, If(And(q == 1, Not(last)), -half, 0)))
    if not no_aux:
        X = v.mem(v.out(2))
        arc("aux labels: the symbol passed over", lambda e, q, k, last, s: X[e] == If(q == 0, 0, If(last, -1, s)))
    if not no_off:
        O = v.mem(v.out(3))
        arc("offsets of the loops", lambda e, q, k, last, s: O[e] == If(q == 0, cost + half, 0))
    valid_shape(v, a.shape)


def aux_out(v, k, size):
    return {k: lambda: v.new_arr(['int', 32, True], size() if callable(size) else size, "aux")}


@contract("k2::CtcGraphs", FA, P20)
def CtcGraphs(v):
    x, mod = v.ragged(0, 2), v.int(1)
    rs = rs_of(x, 1)
    B, n, m = v.mem(rs), rs.dim - 1, tot_size(x, 1)
    sym = v.mem(x.values)
    v.requires(forall(1, lambda j: imp(0 <= j, j < m, sym[j] != -1), lambda j: sym[j]), "no symbol is -1")
    no_aux = v.fork_null(2)
    if v.verifying and not no_aux:
        v.arr(2)
    if v.verifying:
        def states():
            # offsets of the states: 2 B[f] + 2 f
            D = v.mem(v.local("num_states_for"))
            v.induction("states before automaton f", lambda f: D[f] == 2 * B[f] + 2 * f, 0, n + 1, pat=lambda f: D[f])
        v.at_shape(states)
    v.body(ret=lambda: fresh_fsa_vec(v), outs={} if no_aux else {2: lambda: v.new_arr(['int', 32, True], None, "aux")})
    a = v.result
    S1, S2, I1, I2 = [v.mem(z) for z in (rs_of(a, 1), rs_of(a, 2), ri_of(a, 1), ri_of(a, 2))]
    src, dst, lab, sc = arcs_of(v, a)
    A_ = tot_size(a, 2)
    v.ensures(And(tot_size(a, 0) == n, tot_size(a, 1) == 2 * m + 2 * n), "sizes")
    v.ensures(forall(1, lambda f: imp(0 <= f, f <= n, S1[f] == 2 * B[f] + 2 * f), lambda f: S1[f]), "two states per symbol and two more")

    def state(i):
        """automaton, state within it, symbol number, is it a symbol state, is it final, skips to the next symbol"""
        f = I1[i]
        k = i - S1[f]
        q = B[f] + k / 2
        odd = k % 2 == 1
        fin = i + 1 == S1[f + 1]
        last = q + 1 == B[f + 1]
        skip = Or(mod, last, sym[q] != sym[q + 1])
        return f, k, q, odd, fin, last, skip
    v.ensures(forall(1, lambda i: imp(0 <= i, i < 2 * m + 2 * n, (lambda f, k, q, odd, fin, last, skip:
              S2[i + 1] - S2[i] == If(fin, 0, If(And(odd, skip), 3, 2)))(*state(i))), lambda i: S2[i]), "number of arcs of a state")

    def arc(what, g):
        v.ensures(forall(1, lambda e: imp(0 <= e, e < A_, g(e, e - S2[I2[e]], *state(I2[e]))), lambda e: I2[e]), what)
    arc("source, score, arcs of a state", lambda e, p, f, k, q, odd, fin, last, skip: And(src[e] == k, sc[e] == 0, Not(fin), 0 <= p, p < If(And(odd, skip), 3, 2)))
    arc("blank state: loop on blank, then the symbol (or the end)", lambda e, p, f, k, q, odd, fin, last, skip: Implies(Not(odd), And(
        dst[e] == If(p == 0, k, k + 1), lab[e] == If(p == 0, 0, If(q == B[f + 1], -1, sym[q])))))
    arc("symbol state: blank, loop, next symbol unless it is the same", lambda e, p, f, k, q, odd, fin, last, skip: Implies(odd, And(
        dst[e] == If(p == 0, k + 1, If(p == 1, k, k + 2)), lab[e] == If(p == 0, 0, If(p == 1, sym[q], If(last, -1, sym[q + 1]))))))
    if not no_aux:
        ax = v.out(2)
        X = v.mem(ax)
        v.ensures(ax.dim == A_, "one aux label per arc")
        arc("aux labels: the symbol entered, once", lambda e, p, f, k, q, odd, fin, last, skip: X[e] == If(odd, If(p < 2, 0, If(last, -1, sym[q + 1])), If(p == 0, 0, If(q == B[f + 1], -1, sym[q]))))
    valid_shape(v, a.shape)


@contract("k2::CtcTopo", FA, P20)
def CtcTopo(v):
    T, mod = v.int(1), v.int(2)
    v.ctx(0)
    v.requires(T >= 0, "max_token is not negative")
    if v.verifying:
        v.arr(3)
    if v.verifying:
        d = T + 2
        M = v.multiples(d)

        def rows(cv):
            if v.ex.branch(mod):
                return
            arr = cv.arr(0)
            ri, m = v.mem(arr), arr.dim
            v.division(d)
            v.lemma(M(T + 1) == m)
            v.lemma(forall(1, lambda e: imp(0 <= e, e < m, And(M(DIV(e, d)) <= e, M(DIV(e, d)) + d > e, 0 <= DIV(e, d), DIV(e, d) <= T)), lambda e: DIV(e, d)), "quotients")
            v.pull("every arc is made", lambda e: imp(0 <= e, e < m, ri[e] == DIV(e, d)), lambda e: [IT[2](DIV(e, d), MOD(e, d))], lambda e: ri[e])
            sr = v.mem(v.local("arcs"), "src_state")
            v.pull("in its row", lambda e: imp(0 <= e, e < m, sr[e] == ri[e]), lambda e: [IT[2](DIV(e, d), MOD(e, d))], lambda e: ri[e])
            v.lemma(monotone(ri, m), "rows are sorted")
        v.before("k2::RowIdsToRowSplits", rows)
    v.body(ret=lambda: fresh_fsa_vec(v, 2), outs=aux_out(v, 3, None))
    a, ax = v.result, v.out(3)
    S, J, X = v.mem(rs_of(a, 1)), v.mem(ri_of(a, 1)), v.mem(ax)
    src, dst, lab, sc = arcs_of(v, a)
    N = T + 2
    A_ = tot_size(a, 1)
    v.ensures(And(tot_size(a, 0) == N, A_ == If(mod, 4 * T + 2, (T + 1) * (T + 2)), ax.dim == A_), "sizes")
    v.ensures(forall(1, lambda e: imp(0 <= e, e < A_, And(J[e] == src[e], src[e] >= 0, src[e] < N)), lambda e: J[e]), "every arc is with its source state")
    # modified: loops of state 0 on all labels, then arcs 0 -> s, then for every s a loop and an arc back
    v.ensures(Implies(mod, forall(1, lambda e: imp(0 <= e, e < A_, sc[e] == 0), lambda e: sc[e])), "modified: scores are 0")
    v.ensures(Implies(mod, forall(1, lambda e: imp(0 <= e, e < T + 1, And(src[e] == 0, dst[e] == 0, lab[e] == e, X[e] == e)), lambda e: lab[e])), "modified: loops of state 0")
    v.ensures(Implies(mod, forall(1, lambda e: imp(T + 1 <= e, e < 2 * T + 2, And(src[e] == 0, dst[e] == e - T, lab[e] == If(e == 2 * T + 1, -1, e - T), X[e] == lab[e])), lambda e: lab[e])), "modified: from state 0 to the token's state, or the end")
    v.ensures(Implies(mod, forall(1, lambda e: imp(2 * T + 2 <= e, e < 4 * T + 2, And(src[e] == (e - 2 * T - 2) / 2 + 1, dst[e] == If((e - 2 * T - 2) % 2 == 0, src[e], 0),
              lab[e] == src[e], X[e] == 0)), lambda e: lab[e])), "modified: loop of a token's state, and back to state 0")
    # standard: from every state s to every state d, reading d; aux label 0 on loops
    v.ensures(Implies(Not(mod), forall(2, lambda s, d: imp(0 <= s, s <= T, 0 <= d, d <= T + 1, (lambda e: And(
        src[e] == s, dst[e] == d, lab[e] == If(d == T + 1, -1, d), sc[e] == 0, X[e] == If(s == d, 0, lab[e])))(s * (T + 2) + d)),
        lambda s, d: src[s * (T + 2) + d])), "standard: one arc between any two states")
    valid_shape(v, a.shape)


@contract("k2::TrivialGraph", FA, P20)
def TrivialGraph(v):
    T = v.int(1)
    v.ctx(0)
    v.requires(T >= 0, "max_token is not negative")
    if v.verifying:
        v.arr(2)
    v.body(ret=lambda: fresh_fsa_vec(v, 2), outs=aux_out(v, 2, T + 1))
    a, ax = v.result, v.out(2)
    S, X = v.mem(rs_of(a, 1)), v.mem(ax)
    src, dst, lab, sc = arcs_of(v, a)
    v.ensures(And(tot_size(a, 0) == 2, tot_size(a, 1) == T + 1, ax.dim == T + 1, S[1] == T + 1), "two states, all arcs leave the first")
    v.ensures(forall(1, lambda e: imp(0 <= e, e < T, And(src[e] == 0, dst[e] == 0, lab[e] == e + 1, X[e] == e + 1, sc[e] == 0)), lambda e: lab[e]), "a loop on every token")
    v.ensures(And(src[T] == 0, dst[T] == 1, lab[T] == -1, X[T] == -1, sc[T] == 0), "the arc to the final state")
    valid_shape(v, a.shape)


ARC = ("src_state", "dest_state", "label", "score")


def fsa_inv(mem, a, parts=False):
    """a well-formed Fsa / FsaVec: arcs are with their source state, lead to states that exist;
    -1 is read exactly on the way into the last state.  [(name, formula)]"""
    src, dst, lab, sc = [mem(a.values, f) for f in ARC]
    m = a.values.dim
    if num_axes(a) == 2:
        J = mem(ri_of(a, 1))
        N = tot_size(a, 0)
        st, fin = (lambda e: J[e]), (lambda e: N - 1)
    else:
        I1, I2, S1 = mem(ri_of(a, 1)), mem(ri_of(a, 2)), mem(rs_of(a, 1))
        st, fin = (lambda e: I2[e] - S1[I1[I2[e]]]), (lambda e: S1[I1[I2[e]] + 1] - 1 - S1[I1[I2[e]]])
    J = mem(ri_of(a, num_axes(a) - 1))
    q = lambda f: (f, J, m) if parts else forall(1, lambda e: imp(0 <= e, e < m, f(e)), lambda e: J[e])
    return [("arcs are with their source state", q(lambda e: src[e] == st(e))),
            ("no arc leaves the final state", q(lambda e: src[e] < fin(e))),
            ("arcs lead to existing states", q(lambda e: And(0 <= dst[e], dst[e] <= fin(e)))),
            ("-1 is read exactly into the final state", q(lambda e: (lab[e] == -1) == (dst[e] == fin(e))))]


def need_fsa(v, a):
    for what, f in fsa_inv(v.mem, a):
        v.requires(f, what)


def good_fsa(v, a, terms=None, when=None):
    valid_shape(v, a.shape)
    if terms is not None and v.verifying:
        for what, (f, J, m) in fsa_inv(v.mem, a, True):
            g = (lambda e, f=f: imp(0 <= e, e < m, f(e))) if when is None else (lambda e, f=f: imp(when, 0 <= e, e < m, f(e)))
            v.pull("result: " + what, g, terms, lambda e: J[e])
        return
    for what, f in fsa_inv(v.mem, a):
        v.ensures(f if when is None else Implies(when, f), "result: " + what)


def fresh_arr(v, ty=['int', 32, True], name="out"):
    return lambda: v.new_arr(ty, None, name)


@contract("k2::Closure", FA, ["C15", "C18", "C08", "C30"])
def Closure(v):
    a = v.ragged(0, 2)
    need_fsa(v, a)
    no_map = v.fork_null(1)
    if v.verifying and not no_map:
        v.arr(1)
    N, m = tot_size(a, 0), tot_size(a, 1)
    S = v.mem(rs_of(a, 1))
    src, dst, lab, sc = arcs_of(v, a)
    v.requires(Or(N >= 2, N == 0), "no automaton with one state")
    if v.verifying:
        # position j of state r holds old arc j or j - 1, or is the new arc
        v.witness(lambda r, j: [[And(r == 0, j < S[1]), And(r == 0, j == S[1]), And(r != 0)], IT[1](j), IT[1](j - 1)])
    v.body(ret=lambda: fresh_fsa_vec(v, 2), outs={} if no_map else {1: fresh_arr(v)})
    b = v.result
    S2 = v.mem(rs_of(b, 1))
    src2, dst2, lab2, sc2 = arcs_of(v, b)
    v.ensures(Implies(N == 0, And(tot_size(b, 0) == 0, tot_size(b, 1) == 0)), "the empty automaton stays as it is")
    ok = N >= 2
    v.ensures(Implies(ok, And(tot_size(b, 0) == N, tot_size(b, 1) == m + 1)), "one more arc")
    new = S[1]
    v.ensures(Implies(ok, And(src2[new] == 0, dst2[new] == N - 1, lab2[new] == -1, sc2[new] == 0)), "the new arc goes from the start to the end, reads -1, scores 0")
    to = lambda e: If(src[e] > 0, e + 1, e)
    for what, g in (("source", lambda e, t: src2[t] == src[e]), ("score", lambda e, t: sc2[t] == sc[e]),
                    ("destination: the start instead of the end", lambda e, t: dst2[t] == If(dst[e] == N - 1, 0, dst[e])),
                    ("label: 0 instead of -1", lambda e, t: lab2[t] == If(dst[e] == N - 1, 0, lab[e]))):
        v.ensures(Implies(ok, forall(1, lambda e: imp(0 <= e, e < m, g(e, to(e))), lambda e: src[e])), what)
    if not no_map:
        mp = v.out(1)
        M = v.mem(mp)
        v.ensures(mp.dim == tot_size(b, 1), "arc map has one entry per arc")
        v.ensures(Implies(ok, And(M[new] == -1, forall(1, lambda e: imp(0 <= e, e < m, M[to(e)] == e), lambda e: src[e]))), "arc map")
    good_fsa(v, b, lambda e: [IT[1](e), IT[1](e - 1)], ok)


@contract("k2::Union", FA, ["C15", "C18", "C08", "C30"])
def Union(v):
    a = v.ragged(0, 3)
    need_fsa(v, a)
    no_map = v.fork_null(1)
    if v.verifying and not no_map:
        v.arr(1)
    n, N, m = tot_size(a, 0), tot_size(a, 1), tot_size(a, 2)
    S1, S2, I1, I2 = [v.mem(z) for z in (rs_of(a, 1), rs_of(a, 2), ri_of(a, 1), ri_of(a, 2))]
    src, dst, lab, sc = arcs_of(v, a)
    v.requires(forall(1, lambda f: imp(0 <= f, f < n, S1[f + 1] - S1[f] >= 2), lambda f: S1[f]), "every automaton has two states")
    if v.verifying:
        v.mono(v.seq("kept", lambda f: S1[f] - f, 0, n + 1, lambda f: S1[f]), n + 1, "states kept")
    v.body(ret=lambda: fresh_fsa_vec(v, 2), outs={} if no_map else {1: fresh_arr(v)})
    b = v.result
    J = v.mem(ri_of(b, 1))
    src2, dst2, lab2, sc2 = arcs_of(v, b)
    out = N + 2 - n
    v.ensures(And(tot_size(b, 0) == out, tot_size(b, 1) == m + n), "sizes")
    v.ensures(forall(1, lambda f: imp(0 <= f, f < n, And(src2[f] == 0, dst2[f] == S1[f] + 1 - f, lab2[f] == 0, sc2[f] == 0)), lambda f: S1[f]), "an arc from the new start to each old start")
    # old state s of automaton f (not its last) is new state s + 1 - f
    def arc(what, g):
        def at(e):
            s = I2[e]
            f = I1[s]
            return g(e, e + n, s + 1 - f, S1[f] + 1 - f, S1[f + 1] - 1 - S1[f])
        v.ensures(forall(1, lambda e: imp(0 <= e, e < m, at(e)), lambda e: I2[e]), what)
    arc("source", lambda e, t, s, base, fin: src2[t] == s)
    arc("destination: the common end, or the same state", lambda e, t, s, base, fin: dst2[t] == If(dst[e] == fin, out - 1, dst[e] + base))
    arc("label and score", lambda e, t, s, base, fin: And(lab2[t] == lab[e], sc2[t] == sc[e]))
    if not no_map:
        mp = v.out(1)
        M = v.mem(mp)
        v.ensures(mp.dim == m + n, "arc map has one entry per arc")
        v.ensures(And(forall(1, lambda f: imp(0 <= f, f < n, M[f] == -1), lambda f: M[f]), forall(1, lambda e: imp(0 <= e, e < m, M[e + n] == e), lambda e: M[e + n])), "arc map")
    good_fsa(v, b)

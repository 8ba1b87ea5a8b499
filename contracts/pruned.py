"""Contract for the lattice made from pruned ranges (pruned_ranges_to_lattice.cu)."""
import z3
from engine.contract import *
from engine.contract import contract, forall, imp
from engine import contract as ct, model, torchmodel as tm
from engine.model import rs_of, ri_of, tot_size
from engine.vc import DIV, MOD, div_def, conc
from z3 import And, Or, Not, If, Implies
from contracts.shapes import valid_shape
from contracts.graphs import arcs_of, fresh_fsa_vec

TU = "k2/python/csrc/torch/pruned_ranges_to_lattice.cu"


def states_lemma(v, s):
    """about the states x = t * s + k of a lattice with n frames: proved once for all numbers"""
    x, n, d = z3.Ints("pl_x pl_n pl_d")

    def about(x, n, d):
        q, m = DIV(x, d), MOD(x, d)
        return [("not after the last frame", Implies(And(0 <= x, x <= n * d), And(0 <= q, q <= n))),
                ("before the end", Implies(And(0 <= x, x < n * d), And(q < n, (q + 1) * d <= n * d))),
                ("the end", Implies(x == n * d, And(q == n, m == 0))),
                ("last of a frame", Implies(And(0 <= x, x < n * d - 1, m == d - 1), And(q + 1 < n, (q + 2) * d <= n * d))),
                ("next frame", Implies(And(0 <= x, q + 1 < n), (q + 2) * d <= n * d))]
    a, b = z3.Ints("pl_a pl_b")
    model.generic_lemma(v.ex, "product order", [("step", Implies(And(d >= 1, a <= b), a * d <= b * d))])
    grow = [Implies(And(d >= 1, y <= z), y * d <= z * d) for y, z in
            ((DIV(x, d) + 1, n), (n + 1, DIV(x, d)), (n, DIV(x, d)), (DIV(x, d), n), (DIV(x, d) + 2, n), (n, DIV(x, d) + 1))]
    model.generic_lemma(v.ex, "states of a frame", [(w, Implies(And(d >= 1, n >= 0, div_def(x, d), *grow), f)) for w, f in about(x, n, d)])
    v.division(s)
    return lambda x, n: And(*[f for _, f in about(x, n, s)])


@contract("k2::PrunedRangesToLattice", TU, ["C22", "C01", "C30"], cases=[("float",), ("double",)])
def PrunedRangesToLattice(v, case):
    ex = v.ex
    tm.axioms(ex)
    st = {"float": tm.FLOAT, "double": tm.DOUBLE}[case[0]]
    B, T, s, S, C = [ex.fresh(x) for x in ("B", "T", "s_range", "S", "C")]
    v.requires(And(B >= 0, T >= 0, s >= 1, S >= 0, C >= 1), "sizes")
    ts = [("ranges", [B, T, s], tm.INT), ("frames", [B], tm.INT), ("symbols", [B, S], tm.LONG), ("logits", [B, T, s, C], st)]
    for k, (nm, dims, ty) in enumerate(ts):
        v.args[k] = tm.tensor(ex, nm, dims, ty, fresh=False)
    v.arr(4)
    R, F, Y, L = [tm.at(v.mem, v.args[k]) for k in range(4)]
    z = z3.IntVal(0)
    v.requires(forall(1, lambda b: imp(0 <= b, b < B, And(0 <= F(b), F(b) <= T)), lambda b: F(b)), "number of frames")
    v.requires(forall(3, lambda b, t, k: imp(0 <= b, b < B, 0 <= t, t < F(b), 0 <= k, k < s, R(b, t, k) == R(b, t, z) + k), lambda b, t, k: R(b, t, k)), "ranges are consecutive")
    v.requires(forall(2, lambda b, t: imp(0 <= b, b < B, 0 <= t, t < F(b), And(0 <= R(b, t, z), R(b, t, z) + s - 1 <= S)), lambda b, t: R(b, t, z)), "ranges lie within the symbols")
    v.requires(forall(2, lambda b, t: imp(0 <= b, b < B, 0 <= t, t + 1 < F(b), And(R(b, t, z) <= R(b, t + 1, z), R(b, t + 1, z) <= R(b, t, z) + s - 1)), lambda b, t: R(b, t, z)), "ranges move on, and overlap")
    v.requires(forall(2, lambda b, j: imp(0 <= b, b < B, 0 <= j, j < S, And(0 <= Y(b, j), Y(b, j) < C)), lambda b, j: Y(b, j)), "symbols are classes")
    about = states_lemma(v, s)
    ex.assume(forall(2, lambda x, b: imp(0 <= b, b < B, about(x, F(b))), lambda x, b: (DIV(x, s), F(b))))
    ex.ghost["valid"] = z3.BoolVal(True)
    v.body(ret=lambda: fresh_fsa_vec(v), outs={4: lambda: v.new_arr(['int', 32, True], None, "arc_map")})
    a, mp = v.result, v.out(4)
    R, F, Y, L = [tm.at(v.mem, v.args[k]) for k in range(4)]
    S1, S2, I1, I2 = [v.mem(q) for q in (rs_of(a, 1), rs_of(a, 2), ri_of(a, 1), ri_of(a, 2))]
    src, dst, lab, sc = arcs_of(v, a)
    M = v.mem(mp)
    A = tot_size(a, 2)
    v.ensures(And(tot_size(a, 0) == B, mp.dim == A), "sizes")
    v.ensures(forall(1, lambda b: imp(0 <= b, b < B, S1[b + 1] - S1[b] == F(b) * s + 1), lambda b: S1[b]), "a state for every frame and position in its range, and a final state")

    def jump(b, t, k):
        return And(t + 1 < F(b), R(b, t, k) >= R(b, t + 1, z))

    def state(i):
        b = I1[i]
        x = i - S1[b]
        return b, x, DIV(x, s), MOD(x, s)

    def count(i):
        b, x, t, k = state(i)
        return If(x == F(b) * s, 0, If(And(k < s - 1, jump(b, t, k)), 2, 1))
    v.ensures(forall(1, lambda i: imp(0 <= i, i < tot_size(a, 1), S2[i + 1] - S2[i] == count(i)), lambda i: S2[i]), "number of arcs of a state")

    def arc(what, g):
        def f(e):
            b, x, t, k = state(I2[e])
            last = x == F(b) * s - 1
            up = And(Not(last), k < s - 1, e == S2[I2[e]])
            return g(e, b, x, t, k, last, up, Not(Or(last, up)))
        v.ensures(forall(1, lambda e: imp(0 <= e, e < A, f(e)), lambda e: I2[e]), what)
    arc("source", lambda e, b, x, t, k, last, up, right: And(src[e] == x, 0 <= k, k < s, 0 <= t, t < F(b)))
    arc("blank arcs leave only where the next range allows it", lambda e, b, x, t, k, last, up, right: Implies(right, jump(b, t, k)))
    arc("the last arc ends the lattice", lambda e, b, x, t, k, last, up, right: Implies(last, And(dst[e] == x + 1, lab[e] == -1, sc[e] == 0, M[e] == -1)))
    arc("symbol: label", lambda e, b, x, t, k, last, up, right: Implies(up, And(dst[e] == x + 1, lab[e] == Y(b, R(b, t, k)))))
    arc("symbol: score", lambda e, b, x, t, k, last, up, right: Implies(up, sc[e] == L(b, t, k, Y(b, R(b, t, k)))))
    arc("blank: to the same symbol of the next frame", lambda e, b, x, t, k, last, up, right: Implies(right, And(
        dst[e] == (t + 1) * s + R(b, t, k) - R(b, t + 1, z), lab[e] == 0)))
    arc("blank: score", lambda e, b, x, t, k, last, up, right: Implies(right, sc[e] == L(b, t, k, z)))
    q = tm.strides(ex, v.args[3])
    arc("arc map of symbols", lambda e, b, x, t, k, last, up, right: Implies(up, M[e] == b * q[0] + t * q[1] + k * q[2] + Y(b, R(b, t, k)) * q[3]))
    arc("arc map of blanks", lambda e, b, x, t, k, last, up, right: Implies(right, M[e] == b * q[0] + t * q[1] + k * q[2]))
    valid_shape(v, a.shape)

"""Contracts for ragged_ops_inl.h: reductions and normalisation of sublists."""
import z3
from engine.contract import *
from engine.contract import contract, forall, imp
from engine import model
from engine.model import rs_of, ri_of, tot_size, num_axes
from engine.vc import EXP, LOG1P, BAND, BOR, INF, Ptr, NullPtr, Arr, Obj, Rec, Vec, simp, conc, I, Unsupported
from z3 import And, Or, Not, If, Implies, Exists, ForAll
from contracts.shapes import valid_shape, same_arr
from contracts.ragged import any_ragged, RO

RI = "@tu/ragged_inst.cc"
P4 = ["C04", "C29", "C30"]
R = z3.RealSort()
LOGADD = z3.Function("log_add", R, R, R)


@contract("k2::LogAdd::operator()", RI, ["C04", "C16", "C21"])
def LogAdd(v):
    x, y = v.int(0), v.int(1)
    v.body(ret=lambda: LOGADD(x, y))
    hi, lo = If(x < y, y, x), If(x < y, x, y)
    r = v.result
    # beyond the cut-off the smaller one does not count; below it the sum is exact
    v.ensures(Or(r == hi + LOG1P(EXP(lo - hi)), And(r == hi, lo - hi < -15)), "log(exp x + exp y), the larger one if the other is negligible")


OPS = {"MaxOp": lambda a, b: If(a > b, a, b), "MinOp": lambda a, b: If(a > b, b, a), "PlusOp": lambda a, b: a + b,
       "BitAndOp": lambda a, b: BAND(a, b), "BitOrOp": lambda a, b: BOR(a, b), "LogAdd": lambda a, b: LOGADD(a, b)}


def op_of(v):
    """the reduction's operator, from its template argument"""
    t = " ".join(str(x) for x in v.fn["targs"])
    for k in OPS:
        if k in t:
            return k
    raise Unsupported(f"reduction {t}")


def fold(v, X, op, init):
    """F(s, e): init combined with X[s], ..., X[e - 1], in this order (a function of the
    memory's content, so that callers and callees speak about the same)"""
    srt = X[0].sort()
    a = X.view.mem[(X.p.region.id, X.path)]
    G = z3.Function(f"fold_{op}_{srt}", a.sort(), I, srt, I, srt)
    off = X.p.off
    F = lambda s, e: G(a, simp(s + off), init, simp(e + off))
    g = lambda s, e: G(a, s, init, e)
    v.define(forall(1, lambda s: g(s, s) == init, lambda s: g(s, s)))
    v.define(forall(2, lambda s, j: imp(s <= j, g(s, j + 1) == OPS[op](z3.Select(a, j), g(s, j))), lambda s, j: g(s, j)))
    return F


def _reduce_outer(s):
    v = s.v
    i, j = s.var("i"), s.var("j")
    D = s.now(v.dst)
    return [("index", And(0 <= i, i <= v.n, j == v.rs[i])),
            ("sublists reduced so far", forall(1, lambda k: imp(0 <= k, k < i, D[k] == v.F(v.rs[k], v.rs[k + 1])), lambda k: D[k]))]


def _reduce_inner(s):
    v = s.v
    i, j, val = s.var("i"), s.var("j"), s.var("val")
    return [("position", And(v.rs[i] <= j, j <= v.rs[i + 1])), ("value", val == v.F(v.rs[i], j))]


@contract("k2::SegmentedReduce", RI, P4, loops={0: _reduce_outer, 1: _reduce_inner})
def SegmentedReduce(v):
    r = any_ragged(v, 0, 2, 3)
    init = v.int(1)
    d = v.arr(2)
    k = num_axes(r) - 1
    n = tot_size(r, k - 1)
    v.requires(d.dim == n, "one result per sublist")
    v.rs, X, v.n, v.dst = v.mem(rs_of(r, k)), v.mem(r.values), n, d
    v.F = fold(v, X, op_of(v), init)
    v.body(modifies=[(d.ptr, 0, n)])
    D = v.mem(d)
    v.ensures(forall(1, lambda i: imp(0 <= i, i < n, D[i] == v.F(v.rs[i], v.rs[i + 1])), lambda i: D[i]), "each result is its sublist reduced")


def _arg_outer(s):
    v = s.v
    i, j = s.var("i"), s.var("j")
    D = s.now(v.dst)
    return [("index", And(0 <= i, i <= v.n, j == v.rs[i])),
            ("sublists so far", forall(1, lambda k: imp(0 <= k, k < i, v.is_best(k, D[k], v.rs[k + 1])), lambda k: D[k]))]


def _arg_inner(s):
    v = s.v
    i, j, val, idx = s.var("i"), s.var("j"), s.var("val"), s.var("idx")
    return [("position", And(v.rs[i] <= j, j <= v.rs[i + 1])),
            ("value", val == If(idx == -1, v.init, v.X[idx])),
            ("best so far", v.is_best(i, idx, j))]


@contract("k2::ArgMaxPerSublist", RI, P4, loops={0: _arg_outer, 1: _arg_inner})
def ArgMaxPerSublist(v):
    r = any_ragged(v, 0, 2, 3)
    v.init = init = v.int(1)
    d = v.arr(2)
    k = num_axes(r) - 1
    n = tot_size(r, k - 1)
    v.requires(d.dim == n, "one result per sublist")
    rs, X = v.mem(rs_of(r, k)), v.mem(r.values)
    v.rs, v.X, v.n, v.dst = rs, X, n, d

    def is_best(i, a, end):
        return And(Or(a == -1, And(rs[i] <= a, a < end, X[a] >= init)),
                   forall(["ab"], lambda j: imp(rs[i] <= j, j < end, If(a == -1, X[j] < init, And(X[j] <= X[a], imp(j > a, X[j] < X[a])))), lambda j: X[j]))
    v.is_best = is_best
    v.body(modifies=[(d.ptr, 0, n)])
    D = v.mem(d)
    v.ensures(forall(1, lambda i: imp(0 <= i, i < n, is_best(i, D[i], rs[i + 1])), lambda i: D[i]), "the last position of the largest element, -1 if all are below the initial value")


def _ses_outer(s):
    v = s.v
    i, D = s.var("i"), s.now(v.dst)
    return [("index", And(0 <= i, i <= v.n)),
            ("sublists so far", forall(1, lambda j: imp(0 <= j, j < v.rs[i], D[j] == v.F(v.rs[v.ids[j]], j)), lambda j: D[j]))]


def _ses_inner(s):
    v = s.v
    i, j, sm, D = s.var("i"), s.var("n"), s.var("sum"), s.now(v.dst)
    return [("position", And(v.rs[i] <= j, j <= v.rs[i + 1])), ("sum", sm == v.F(v.rs[i], j)),
            ("elements so far", forall(1, lambda q: imp(0 <= q, q < j, D[q] == v.F(v.rs[v.ids[q]], q)), lambda q: D[q]))]


@contract("k2::SegmentedExclusiveSum", RI, P4, nparams=2, loops={0: _ses_outer, 1: _ses_inner})
def SegmentedExclusiveSum(v):
    r = any_ragged(v, 0, 2, 3)
    d = v.arr(1)
    k = num_axes(r) - 1
    n, m = tot_size(r, k - 1), r.values.dim
    v.requires(d.dim == m, "one result per element")
    v.rs, v.ids, X, v.n, v.dst = v.mem(rs_of(r, k)), v.mem(ri_of(r, k)), v.mem(r.values), n, d
    zero = z3.RealVal(0) if X[0].sort() == R else z3.IntVal(0)
    v.F = fold(v, X, "PlusOp", zero)
    v.body(modifies=[(d.ptr, 0, m)])
    D = v.mem(d)
    v.ensures(forall(1, lambda j: imp(0 <= j, j < m, D[j] == v.F(v.rs[v.ids[j]], j)), lambda j: D[j]), "the sum of the elements before it in its sublist")


@contract("k2::AddPerSublist", RI, P4)
def AddPerSublist(v):
    r = any_ragged(v, 0, 2, 3)
    a = v.arr(1)
    alpha = v.int(2)
    k = num_axes(r) - 1
    m = r.values.dim
    v.requires(a.dim == tot_size(r, k - 1), "one value per sublist")
    A, X, ids = v.mem(a), v.mem(r.values), v.mem(ri_of(r, k))
    v.body(ret=lambda: Obj("ragged", shape=r.shape.copy(), values=v.new_arr(r.values.ty, m)))
    q = v.result
    Y = v.mem(q.values)
    v.ensures(q.values.dim == m, "one value per element")
    v.ensures(forall(1, lambda j: imp(0 <= j, j < m, Y[j] == X[j] + A[ids[j]] * alpha), lambda j: Y[j]), "its sublist's value is added")
    v.ensures(num_axes(q) == num_axes(r) and all(same_arr(x.f[f], y.f[f]) for x, y in zip(q.shape.layers.items, r.shape.layers.items) for f in ("row_splits", "row_ids")), "same shape")


def same_shape(v, q, r):
    v.ensures(num_axes(q) == num_axes(r) and all(same_arr(x.f[f], y.f[f]) for x, y in zip(q.shape.layers.items, r.shape.layers.items) for f in ("row_splits", "row_ids")), "same shape")


EPS = z3.Real("epsilon")


@contract("k2::NormalizePerSublist", RI, P4)
def NormalizePerSublist(v):
    r = any_ragged(v, 0, 2, 3)
    log = v.int(1)
    log = log if z3.is_bool(log) else log != 0
    k = num_axes(r) - 1
    m = r.values.dim
    X, ids, rs = v.mem(r.values), v.mem(ri_of(r, k)), v.mem(rs_of(r, k))
    v.body(ret=lambda: Obj("ragged", shape=r.shape.copy(), values=v.new_arr(r.values.ty, m)))
    q = v.result
    Y = v.mem(q.values)
    L, S = fold(v, X, "LogAdd", -INF), fold(v, X, "PlusOp", z3.RealVal(0))
    v.ensures(q.values.dim == m, "one value per element")
    v.ensures(forall(1, lambda j: imp(0 <= j, j < m, Y[j] == If(log, X[j] - L(rs[ids[j]], rs[ids[j] + 1]), X[j] / (S(rs[ids[j]], rs[ids[j] + 1]) + EPS))), lambda j: Y[j]),
              "minus its sublist's log-sum; divided by its sum")
    same_shape(v, q, r)

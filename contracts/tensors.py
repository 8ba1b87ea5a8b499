"""Contracts for tensor_ops.cu: gather and scatter-add along an index."""
import z3
from engine.contract import *
from engine.contract import contract, forall, imp
from engine.model import rs_of, ri_of
from engine.vc import Ptr, NullPtr, Arr, Obj, simp, conc, I
from z3 import And, Or, Not, If, Implies, Exists, ForAll

TO = "k2/csrc/tensor_ops.cu"
P = ["C05", "C29", "C30"]


def bool_(v, k):
    """a bool parameter"""
    b = v.int(k)
    return b if z3.is_bool(b) else b != 0


def strided(v, k, dim, stride, idx, n, lo):
    """a strided vector; the entries idx[0..n) >= 0 are positions in it"""
    p = v.ptr(k, If(dim > 0, (dim - 1) * stride + 1, 0))
    v.pull("positions are inside the vector", lambda i: imp(0 <= i, i < n, idx[i] >= 0, And(0 <= idx[i] * stride, idx[i] * stride <= (dim - 1) * stride)),
           lambda i: [idx[i]], lambda i: idx[i])
    return p


@contract("k2::Index1DImpl", TO, P)
def Index1DImpl(v):
    st, d, n = v.int(2), v.int(3), v.int(6)
    v.requires(And(st >= 1, d >= 0, n >= 0), "sizes and stride")
    ip = v.ptr(4, n)
    idx = v.mem(ip)
    allow = bool_(v, 5)
    dflt = v.int(8)
    if v.ptypes[7][1][0] != 'float':
        v.requires(z3.IsInt(dflt), "the default value is one of the type")
    v.requires(forall(1, lambda i: imp(0 <= i, i < n, And(idx[i] < d, Or(idx[i] >= 0, And(allow, idx[i] == -1)))), lambda i: idx[i]), "indexes are in range")
    src = strided(v, 1, d, st, idx, n, 0)
    ans = v.ptr(7, n)
    v.body(modifies=[(ans, 0, n)])
    S, A = v.mem(src), v.mem(ans)
    v.ensures(forall(1, lambda i: imp(0 <= i, i < n, idx[i] >= 0, A[i] == S[idx[i] * st]), lambda i: A[i]), "gathered")
    v.ensures(forall(1, lambda i: imp(0 <= i, i < n, idx[i] == -1, A[i] == dflt), lambda i: A[i]), "default value at -1")


@contract("k2::IndexAdd1DImpl", TO, P)
def IndexAdd1DImpl(v):
    n, sst, d, dst = v.int(2), v.int(3), v.int(6), v.int(7)
    v.requires(And(sst >= 1, dst >= 1, d >= 0, n >= 0), "sizes and strides")
    ip = v.ptr(4, n)
    idx = v.mem(ip)
    allow = bool_(v, 5)
    v.requires(forall(1, lambda i: imp(0 <= i, i < n, And(idx[i] < d, Or(idx[i] >= 0, And(allow, idx[i] == -1)))), lambda i: idx[i]), "indexes are in range")
    src = v.ptr(1, If(n > 0, (n - 1) * sst + 1, 0))
    v.pull("source positions", lambda i: imp(0 <= i, i < n, And(0 <= i * sst, i * sst <= (n - 1) * sst)), lambda i: [idx[i]], lambda i: idx[i])
    dest = strided(v, 8, d, dst, idx, n, 0)
    S = v.mem(src)
    # what is to be added to position x by the entries before k
    srt = z3.RealSort() if v.ptypes[8][1][0] == 'float' else I
    T = v.fresh_fn("to_add", I, I, srt)
    zero = z3.RealVal(0) if srt == z3.RealSort() else z3.IntVal(0)
    v.define(forall(1, lambda x: T(x, z3.IntVal(0)) == zero, lambda x: T(x, z3.IntVal(0))))
    v.define(forall(2, lambda x, k: imp(0 <= k, k < n, T(x, k + 1) == T(x, k) + If(And(idx[k] >= 0, idx[k] * dst == x), S[k * sst], zero)),
                    lambda x, k: T(x, k)))
    v.body(modifies=[(dest, 0, If(d > 0, (d - 1) * dst + 1, 0))])
    if v.verifying:
        for reg, acc, lo, hi in v.ex.ghost.get("adds", []):
            x = v.ex.fresh("pos")
            v.ex.oblige("lemma", T(x, z3.IntVal(0)) == acc(x, lo), "sums: base")
            k = v.ex.fresh("ind")
            v.ex.oblige("lemma", imp(0 <= k, k < n, T(x, k) == acc(x, k), T(x, k + 1) == acc(x, k + 1)), "sums: step")
            v.ex.assume(forall(1, lambda x: T(x, n) == acc(x, n), lambda x: acc(x, n)))
    D, D0 = v.mem(dest), v.old(dest)
    v.ensures(forall(1, lambda x: imp(0 <= x, x <= (d - 1) * dst, D[x] == D0[x] + T(x, n)), lambda x: D[x]), "each position gains the sum of the entries that name it")


@contract("k2::SimpleRaggedIndexSelect1DImpl", TO, P)
def SimpleRaggedIndexSelect1DImpl(v):
    st, d, n = v.int(2), v.int(3), v.int(5)
    r = v.ragged(4, 2)
    m = r.values.dim
    v.requires(And(st >= 1, d >= 0, n == rs_of(r, 1).dim - 1), "sizes and stride")
    X, I1, R1 = v.mem(r.values), v.mem(ri_of(r, 1)), v.mem(rs_of(r, 1))
    v.requires(forall(1, lambda j: imp(0 <= j, j < m, And(0 <= X[j], X[j] < d)), lambda j: X[j]), "indexes are in range")
    src = strided(v, 1, d, st, X, m, 0)
    S = v.mem(src)
    val = lambda j: S[X[j] * st]
    v.requires(forall(2, lambda i, j: imp(0 <= i, i < j, j < m, I1[i] == I1[j], Or(val(i) == 0, val(j) == 0)), lambda i, j: (I1[i], I1[j])),
               "at most one element of a list is not zero")
    ans = v.ptr(6, n)
    v.body(modifies=[(ans, 0, n)])
    S, A, I1, X = v.old(src), v.mem(ans), v.old(ri_of(r, 1)), v.old(r.values)
    v.ensures(forall(1, lambda j: imp(0 <= j, j < m, val(j) != 0, A[I1[j]] == val(j)), lambda j: X[j]), "the element that is not zero")
    z = z3.Const("xj", I)
    v.ensures(forall(1, lambda i: imp(0 <= i, i < n, A[i] != 0, z3.Exists([z], And(R1[i] <= z, z < R1[i + 1], val(z) == A[i]))), lambda i: A[i]), "zero if all are")

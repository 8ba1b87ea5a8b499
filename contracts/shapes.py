"""Contracts for ragged_ops.cu: building and transforming ragged shapes."""
import z3
from engine.contract import *
from engine.contract import contract, trusted, forall, imp, monotone, is_row_splits, is_row_ids
from engine import model
from engine.model import rs_of, ri_of, tot_size, num_axes, layer_inv, fresh_shape, cover
from engine.vc import DIV, MOD, Ptr, NullPtr, Arr, Obj, Rec, Vec, simp, conc, I
from z3 import And, Or, Not, If, Implies, Exists, ForAll

RO = "k2/csrc/ragged_ops.cu"
P1 = ["C01", "C30"]
P3 = ["C03", "C01", "C30"]
T32 = ['int', 32, True]


def same_arr(a, b):
    return a.ptr.region is b.ptr.region and conc(simp(a.ptr.off - b.ptr.off)) == 0


def valid_shape(v, s, name="result"):
    """postcondition: every layer of s is a partition, written both ways"""
    prev = None
    for k, l in enumerate(s.layers.items):
        for what, f in layer_inv(v.ex, l):
            v.ensures(f, f"{name}: {what} (axis {k + 1})")
        if prev is not None:
            v.ensures(l.f["row_splits"].dim - 1 == prev, f"{name}: rows of axis {k + 1}")
        prev = l.f["cached_tot_size"]


def layer_req(v, rs, ri, tot):
    """what a caller must give to make a layer"""
    R = v.mem(rs)
    n = rs.dim - 1
    if not v.verifying:
        who = f"of {v.cname}: "
        ex = v.ex
        ex.check("precondition", And(rs.dim >= 1, R[0] == 0), who + "offsets start at 0")
        ex.oblige("precondition", model.looked(ex, adjacent(R, n + 1)), who + "offsets are non-decreasing")
        model.adjacent_monotone(ex)
        ex.assume(monotone(R, n + 1))
        ex.oblige("precondition", model.looked(ex, R[n] == tot), who + "the last offset is the number of elements")
        ex.assume(R[n] == tot)
        if ri is not None:
            ex.check("precondition", ri.dim == tot, who + "as many row ids as elements")
            model.prove_row_ids(ex, R, v.mem(ri), n, tot, "precondition", who)
        return
    v.requires(And(rs.dim >= 1, R[0] == 0), "offsets start at 0")
    v.requires(monotone(R, n + 1), "offsets are non-decreasing")
    v.requires(R[n] == tot, "the last offset is the number of elements")
    if ri is not None:
        v.requires(ri.dim == tot, "as many row ids as elements")
        v.requires(is_row_ids(R, v.mem(ri), n, tot), "element numbers name their sublist")


def given_ids(v, rs, tot):
    """row_ids made from row_splits"""
    T = T32
    reg = v.ex.new_region("row_ids", T, tot)
    ri = Arr(Ptr(reg, z3.IntVal(0), T), tot, T)
    v.ex.assume(is_row_ids(v.mem(rs), v.mem(ri), rs.dim - 1, tot))
    return ri


def sorted_ids(v, ri, n=None):
    R = v.mem(ri)
    m = ri.dim
    v.requires(And(m >= 0, Implies(m > 0, R[0] >= 0)), "row ids are not negative")
    v.requires(monotone(R, m) if v.verifying else adjacent(R, m), "row ids are sorted")
    if not v.verifying:
        v.ex.assume(monotone(R, m))
    if n is not None:
        v.requires(Implies(m > 0, R[m - 1] < n), "row ids name rows")


def given_splits(v, ri, n):
    reg = v.ex.new_region("row_splits", T32, simp(n + 1))
    rs = Arr(Ptr(reg, z3.IntVal(0), T32), simp(n + 1), T32)
    R, S = v.mem(rs), v.mem(ri)
    m = ri.dim
    v.ex.assume(And(R[0] == 0, R[n] == m, monotone(R, n + 1)))
    v.ex.assume(is_row_ids(R, S, n, m))
    return rs


def _layer(v, krs, kri, ktot, rows=None):
    """one layer from arguments (row_splits*, row_ids*, cached_tot_size)"""
    no_rs, no_ri = v.fork_null(krs), v.fork_null(kri)
    if no_rs and no_ri:
        if v.verifying:
            from engine.vc import PathEnd
            raise PathEnd()          # refused by a K2_CHECK
        v.requires(False, "row_splits or row_ids are given")
    tot = v.int(ktot)
    rs = None if no_rs else v.arr(krs)
    ri = None if no_ri else v.arr(kri)
    if rs is not None:
        m = v.mem(rs)[rs.dim - 1]
        f = Or(tot == -1, tot == m)
        v.requires(f if v.verifying else model.looked(v.ex, f), "cached_tot_size is -1 or the number of elements")
        if not v.verifying:
            v.ex.assume(f)
        layer_req(v, rs, ri, m)
    else:
        v.requires(Or(tot == -1, tot == ri.dim), "cached_tot_size is -1 or the number of elements")
        sorted_ids(v, ri, rows)
        m = ri.dim
    return rs, ri, m


def _mk(v, rs, ri, m, rows=None):
    if rs is None:
        R = v.mem(ri)
        n = rows if rows is not None else If(m == 0, 0, R[m - 1] + 1)
        rs = given_splits(v, ri, n)
    elif ri is None:
        ri = given_ids(v, rs, m)
    return Rec("layer", dict(row_splits=rs, row_ids=ri, cached_tot_size=m))


def _post_layer(v, l, rs, ri, m, rows=None):
    if rs is not None:
        v.ensures(same_arr(l.f["row_splits"], rs), "row_splits are the given ones")
        v.ensures(l.f["row_splits"].dim == rs.dim)
    elif rows is None:
        R = v.old(ri)
        v.ensures(l.f["row_splits"].dim - 1 == If(m == 0, 0, R[m - 1] + 1), "rows up to the last one named")
    else:
        v.ensures(l.f["row_splits"].dim - 1 == rows, "one row per element of the axis before")
    if ri is not None:
        v.ensures(same_arr(l.f["row_ids"], ri), "row_ids are the given ones")
        v.ensures(l.f["row_ids"].dim == ri.dim)
    v.ensures(l.f["cached_tot_size"] == m, "number of elements")


@contract("k2::RaggedShape2", RO, P1)
def RaggedShape2(v):
    rs, ri, m = _layer(v, 0, 1, 2)
    v.body(ret=lambda: Obj("shape", layers=Vec(['rec', 'layer'], [_mk(v, rs, ri, m)])))
    s = v.result
    valid_shape(v, s)
    _post_layer(v, s.layers.items[0], rs, ri, m)


@contract("k2::ComposeRaggedShapes", RO, P3)
def ComposeRaggedShapes(v):
    na, nb = 2, 2
    if v.verifying:
        na = 2 + v.ex.decide(2)
        nb = 2 + v.ex.decide(2)
    a, b = v.shape(0, na), v.shape(1, nb)
    v.requires(tot_size(a, num_axes(a) - 1) == tot_size(b, 0), "as many sublists as elements")
    v.body(ret=lambda: Obj("shape", layers=Vec(['rec', 'layer'], [x.copy() for x in a.layers.items + b.layers.items])))
    s = v.result
    v.ensures(len(s.layers.items) == len(a.layers.items) + len(b.layers.items), "number of axes")
    for x, y in zip(s.layers.items, a.layers.items + b.layers.items):
        v.ensures(same_arr(x.f["row_splits"], y.f["row_splits"]) and same_arr(x.f["row_ids"], y.f["row_ids"]), "layers are those of a, then of b")
        v.ensures(x.f["cached_tot_size"] == y.f["cached_tot_size"])
    valid_shape(v, s)


@contract("k2::RaggedShape3", RO, P1)
def RaggedShape3(v):
    rs1, ri1, m1 = _layer(v, 0, 1, 2)
    rows = None
    rs2, ri2, m2 = _layer(v, 3, 4, 5, m1)
    if rs2 is not None:
        v.requires(rs2.dim - 1 == m1, "one row of axis 2 per element of axis 1")
    v.body(ret=lambda: Obj("shape", layers=Vec(['rec', 'layer'], [_mk(v, rs1, ri1, m1), _mk(v, rs2, ri2, m2, m1)])))
    s = v.result
    v.ensures(len(s.layers.items) == 2)
    valid_shape(v, s)
    _post_layer(v, s.layers.items[0], rs1, ri1, m1)
    _post_layer(v, s.layers.items[1], rs2, ri2, m2, m1)


@contract("k2::ChangeSublistSize", RO, P3)
def ChangeSublistSize(v):
    na = 2 + v.ex.decide(2) if v.verifying else None
    s, d = v.shape(0, na), v.int(1)
    na = num_axes(s)
    rs0, ri0 = rs_of(s, na - 1), ri_of(s, na - 1)
    n = rs0.dim - 1
    R0 = v.mem(rs0)
    v.requires(forall(1, lambda i: imp(0 <= i, i < n, R0[i + 1] - R0[i] + d >= 0), lambda i: R0[i]), "no sublist becomes shorter than empty")
    if v.verifying:
        G = v.seq("new_split", lambda i: R0[i] + d * i, 0, n + 1, lambda i: R0[i])
        v.mono(G, n + 1, "new offsets")
        S0 = v.mem(ri0)
        # position j of new sublist r holds old element j - G[r] of it, or is new from its end
        def witness(r, j):
            old = j - G[r] < R0[r + 1] - R0[r]
            return [[old, Not(old)], S0[R0[r] + j - G[r]], (r, d, G[r + 1] - 1 - j, n)]
        v.witness(witness)

    def ret():
        m = tot_size(s, na - 1) + d * n
        l = model.fresh_layer(v.ex, "changed", n, m)
        return Obj("shape", layers=Vec(['rec', 'layer'], [x.copy() for x in s.layers.items[:-1]] + [l]))
    v.body(ret=ret)
    t = v.result
    v.ensures(len(t.layers.items) == na - 1, "number of axes")
    for x, y in zip(t.layers.items[:-1], s.layers.items[:-1]):
        v.ensures(same_arr(x.f["row_splits"], y.f["row_splits"]), "the other layers are the same")
        v.ensures(x.f["cached_tot_size"] == y.f["cached_tot_size"])
    rs = rs_of(t, na - 1)
    R = v.mem(rs)
    v.ensures(forall(1, lambda i: imp(0 <= i, i <= n, R[i] == R0[i] + d * i), lambda i: R[i]), "every sublist has size_delta more elements")
    v.ensures(And(tot_size(t, na - 1) == tot_size(s, na - 1) + d * n, rs.dim == n + 1), "sizes")
    valid_shape(v, t)

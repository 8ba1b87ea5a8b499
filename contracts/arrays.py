"""Contracts for utils.cu, utils_inl.h, array_ops.cu, array_ops_inl.h."""
import z3
from engine.contract import *
from engine.contract import contract, trusted, forall, imp, monotone, is_row_splits, is_row_ids
from z3 import And, Or, Not, If, Implies, Exists, ForAll
from engine.vc import Ptr, NullPtr, Arr

U = "k2/csrc/utils.cu"
AO = "k2/csrc/array_ops.cu"
TI = "@tu/arrays_inst.cc"
P1 = ["C01", "C30"]


def is_intptr(t):
    return t[0] == 'ptr' and t[1][0] in ('int', 'float')


def is_ptr(t):
    return t[0] == 'ptr'


def is_arr_t(t):
    while t[0] in ('ref', 'ptr'):
        t = t[1]
    return t[0] == 'rec' and t[1].startswith("k2::Array1<")


# ------------------------------------------------ RowSplitsToRowIds (pointers)
def _inv_rs2ri(s):
    v = s.v
    n, rs, m, ri = v.int(1), s.old(v.rs), v.int(3), s.now(v.ri)
    row, cur = s.var("row"), s.var("cur_row_start")
    return [("row in range", And(0 <= row, row <= n)),
            ("cursor", And(cur == rs[row], cur <= m)),
            ("filled so far", forall(1, lambda j: imp(0 <= j, j < cur, And(
                0 <= ri[j], ri[j] < row, rs[ri[j]] <= j, j < rs[ri[j] + 1])), lambda j: ri[j]))]


def _inv_rs2ri_inner(s):
    v = s.v
    rs, ri = s.old(v.rs), s.now(v.ri)
    row, cur = s.var("row"), s.var("cur_row_start")
    return [("cursor", And(cur >= rs[row], cur <= rs[row + 1])),
            ("filled so far", forall(1, lambda j: imp(0 <= j, j < cur, And(
                0 <= ri[j], ri[j] <= row, rs[ri[j]] <= j, j < rs[ri[j] + 1])), lambda j: ri[j]))]


@contract("k2::RowSplitsToRowIds", U, P1, nparams=5, loops={0: _inv_rs2ri, 1: _inv_rs2ri_inner})
def RowSplitsToRowIds(v):
    n, m = v.int(1), v.int(3)
    v.requires(And(n >= 0, m >= 0), "sizes are not negative")
    v.rs, v.ri = v.ptr(2, n + 1), v.ptr(4, m)
    rs = v.mem(v.rs)
    v.requires(is_row_splits(rs, n), "row_splits are offsets")
    v.requires(rs[n] == m, "last offset is num_elems")
    v.body(modifies=[(v.ri, 0, m)])
    v.ensures(is_row_ids(v.old(v.rs), v.mem(v.ri), n, m), "row_ids[j] is the row holding j")


# ------------------------------------------------ RowIdsToRowSplits (pointers)
def _rs_upto(rs, ri, cur, i):
    """rs[0..cur] = first position (of the first i) whose row id is >= k"""
    return forall(1, lambda k: imp(0 <= k, k <= cur, And(
        0 <= rs[k], rs[k] <= i,
        forall(["b"], lambda b: imp(0 <= b, b < i, (ri[b] < k) == (b < rs[k])), lambda b: ri[b]))),
        lambda k: rs[k])


def _inv_ri2rs_0(s):
    v = s.v
    i, cur = s.var("i"), s.var("cur_row")
    rs, ri = s.now(v.rs), s.old(v.ri)
    return [("index", And(0 <= i, i <= v.int(1))),
            ("row", And(cur >= -1, cur < v.int(4), If(i > 0, cur == ri[i - 1], cur == -1))),
            ("offsets so far", _rs_upto(rs, ri, cur, i))]


def _inv_ri2rs_1(s):
    v = s.v
    i, cur = s.var("i"), s.var("cur_row")
    rs, ri = s.now(v.rs), s.old(v.ri)
    return [("row", And(cur >= -1, cur <= ri[i], If(i > 0, cur >= ri[i - 1], True))),
            ("offsets so far", _rs_upto(rs, ri, cur, i))]


def _inv_ri2rs_2(s):
    v = s.v
    cur = s.var("cur_row")
    rs, ri = s.now(v.rs), s.old(v.ri)
    m = v.int(1)
    return [("row", And(cur >= ri[m - 1], cur <= v.int(4))),
            ("offsets so far", _rs_upto(rs, ri, cur, m))]


@contract("k2::RowIdsToRowSplits", U, P1, nparams=6,
          loops={0: _inv_ri2rs_0, 1: _inv_ri2rs_1, 2: _inv_ri2rs_2})
def RowIdsToRowSplits(v):
    m, n = v.int(1), v.int(4)
    v.int(3)
    v.requires(And(n >= 0, m >= 0), "sizes are not negative")
    v.ri, v.rs = v.ptr(2, m), v.ptr(5, n + 1)
    ri = v.mem(v.ri)
    v.requires(And(monotone(ri, m), Implies(m > 0, And(ri[0] >= 0, ri[m - 1] < n))),
               "row_ids are sorted rows")
    v.body(modifies=[(v.rs, 0, n + 1)])
    ri, rs = v.old(v.ri), v.mem(v.rs)
    v.ensures(rs[0] == 0, "offsets start at 0")
    v.ensures(rs[n] == m, "last offset is the number of elements")
    v.ensures(forall(1, lambda k: imp(0 <= k, k <= n, And(0 <= rs[k], rs[k] <= m)), lambda k: rs[k]),
              "offsets in range")
    v.ensures(forall(2, lambda k, b: imp(0 <= k, k <= n, 0 <= b, b < m, (ri[b] < k) == (b < rs[k])),
                     lambda k, b: (rs[k], ri[b])), "rs[k] separates rows below k")
    v.ensures(monotone(rs, n + 1), "offsets are non-decreasing")
    v.ensures(is_row_ids(rs, ri, n, m), "row_ids and row_splits agree")


# ------------------------------------------------ sums
def sum_step(d, s, n):
    """d[i+1] == d[i] + s[i] for i+1 < n"""
    return forall(1, lambda i: imp(0 <= i, i + 1 < n, d[i + 1] == d[i] + s[i]), lambda i: d[i])


def _inv_excl(s):
    v = s.v
    i, sm = s.var("i"), s.var("sum")
    n, src, d, now = v.int(1), s.old(v.src), s.now(v.dest), s.now(v.src)
    r = [("index", And(0 <= i, i <= n)),
         ("prefix", And(Implies(i > 0, And(d[0] == 0, sm == d[i - 1] + src[i - 1])),
                        Implies(i == 0, sm == 0))),
         ("recurrence", sum_step(d, src, i)),
         ("monotone if no negative term", Implies(v.nonneg, And(
             monotone(d, i), forall(1, lambda k: imp(0 <= k, k < i, And(0 <= d[k], Implies(i < n, d[k] <= sm))),
                                    lambda k: d[k]), Implies(i < n, sm >= 0))))]
    if v.aliased:
        r.append(("source not yet read is untouched",
                  forall(1, lambda k: imp(i <= k, k < n, now[k] == src[k]), lambda k: now[k])))
    return r


def _excl_sum(v):
    n = v.int(1)
    v.requires(n >= 0, "n is not negative")
    if v.verifying:
        v.src = v.ptr(2, n)
        v.aliased = v.src.ty == v.elem(3) and v.ex.decide(2) == 1
        if v.aliased:
            v.args[3] = v.src
        v.dest = v.ptr(3, n)
    else:
        v.src, v.dest = v.ptr(2, n), v.ptr(3, n)
        if v.src.region is v.dest.region:
            v.requires(v.src.off == v.dest.off, "same array or distinct arrays")
    src = v.mem(v.src)
    v.nonneg = forall(1, lambda k: imp(0 <= k, k < n - 1, src[k] >= 0), lambda k: src[k])
    v.body(modifies=[(v.dest, 0, n)])
    d, src = v.mem(v.dest), v.old(v.src)
    v.ensures(Implies(n > 0, d[0] == 0), "first offset is 0")
    v.ensures(sum_step(d, src, n), "dest[i+1] == dest[i] + src[i]")


@contract("k2::ExclusiveSum", TI, P1, nparams=4, ptypes={2: is_intptr, 3: is_intptr},
          loops={0: _inv_excl})
def ExclusiveSum(v):
    _excl_sum(v)
    n = v.int(1)
    d, src = v.mem(v.dest), v.old(v.src)
    v.ensures(Implies(v.nonneg, monotone(d, n)), "monotone when no term (the last does not count) is negative")


def _inv_incl(s):
    v = s.v
    i, sm = s.var("i"), s.var("sum")
    n, src, d, now = v.int(1), s.old(v.src), s.now(v.dest), s.now(v.src)
    r = [("index", And(0 <= i, i <= n)),
         ("prefix", If(i > 0, And(d[0] == src[0], sm == d[i - 1]), sm == 0)),
         ("recurrence", forall(1, lambda k: imp(0 <= k, k + 1 < i, d[k + 1] == d[k] + src[k + 1]),
                               lambda k: d[k]))]
    if v.aliased:
        r.append(("source not yet read is untouched",
                  forall(1, lambda k: imp(i <= k, k < n, now[k] == src[k]), lambda k: now[k])))
    return r


@contract("k2::InclusiveSum", TI, P1, nparams=4, ptypes={2: is_intptr, 3: is_intptr}, loops={0: _inv_incl})
def InclusiveSum(v):
    n = v.int(1)
    v.requires(n >= 0, "n is not negative")
    v.src = v.ptr(2, n)
    v.aliased = False
    if v.verifying:
        v.aliased = v.src.ty == v.elem(3) and v.ex.decide(2) == 1
        if v.aliased:
            v.args[3] = v.src
    v.dest = v.ptr(3, n)
    v.body(modifies=[(v.dest, 0, n)])
    d, src = v.mem(v.dest), v.old(v.src)
    v.ensures(Implies(n > 0, d[0] == src[0]), "first sum")
    v.ensures(forall(1, lambda k: imp(0 <= k, k + 1 < n, d[k + 1] == d[k] + src[k + 1]),
                     lambda k: d[k]), "dest[i+1] == dest[i] + src[i+1]")


def _inv_max(s):
    v = s.v
    i, r, t, n = s.var("i"), s.var("result"), s.old(v.t), v.int(1)
    return [("index", And(0 <= i, Or(i <= n, i == 0))),
            ("upper bound", forall(1, lambda k: imp(0 <= k, k < i, t[k] <= r), lambda k: t[k])),
            ("attained", And(r >= 0, Or(r == 0, Exists([z3.Int("e")], And(
                0 <= z3.Int("e"), z3.Int("e") < i, t[z3.Int("e")] == r)))))]


@contract("k2::MaxValue", TI, P1, nparams=3, loops={0: _inv_max})
def MaxValue(v):
    n = v.int(1)
    v.requires(n >= 0, "n is not negative")
    v.t = v.ptr(2, n)
    v.body(ret=lambda: v.fresh("maxv", z3.RealSort() if v.elem(2)[0] == 'float' else z3.IntSort()))
    r, t, e = v.result, v.old(v.t), z3.Int("e")
    v.ensures(And(r >= 0, forall(1, lambda k: imp(0 <= k, k < n, t[k] <= r), lambda k: t[k])), "upper bound")
    v.ensures(Or(r == 0, Exists([e], And(0 <= e, e < n, t[e] == r))), "is 0 or an element")


# ------------------------------------------------ validation
def _temp(v, k):
    if v.verifying:
        if v.ex.decide(2) == 0:
            v.null(k)
        else:
            v.arr(k)


def _maybe_temp(v, k):
    """optional scratch array; returns the modifies clause"""
    if v.verifying:
        if v.ex.decide(2) == 0:
            v.null(k)
            return []
        a = v.arr(k)
        return [(a, 0, a.dim)]
    if v.is_null(k):
        return []
    a = v.out(k)
    return [(a, 0, a.dim)]


def bool_ret(v):
    return v.fresh("ok", z3.BoolSort())


@contract("k2::ValidateRowIds", AO, P1, nparams=2)
def ValidateRowIds(v):
    a = v.arr(0)
    mods = _maybe_temp(v, 1)
    v.body(modifies=mods, ret=lambda: bool_ret(v))
    d = v.old(a)
    v.ensures(v.result == And(Implies(a.dim > 0, d[0] >= 0), adjacent(d, a.dim)),
              "true exactly for sorted non-negative row ids")


@contract("k2::ValidateRowSplits", AO, P1, nparams=2)
def ValidateRowSplits(v):
    a = v.arr(0)
    mods = _maybe_temp(v, 1)
    v.body(modifies=mods, ret=lambda: bool_ret(v))
    d = v.old(a)
    v.ensures(v.result == And(a.dim > 0, d[0] == 0, adjacent(d, a.dim)),
              "true exactly for offsets starting at 0")


@contract("k2::ValidateRowSplitsAndIds", AO, P1, nparams=3)
def ValidateRowSplitsAndIds(v):
    a, b = v.arr(0), v.arr(1)
    mods = _maybe_temp(v, 2)
    v.body(modifies=mods, ret=lambda: bool_ret(v))
    rs, ri = v.old(a), v.old(b)
    n, m = a.dim - 1, b.dim
    v.ensures(v.result == And(
        n >= 0, rs[0] == 0, rs[n] == m, adjacent(rs, n + 1), adjacent(ri, m),
        forall(1, lambda j: imp(0 <= j, j < m, And(0 <= ri[j], ri[j] < n, rs[ri[j]] <= j,
                                                   j < rs[ri[j] + 1])), lambda j: ri[j])),
        "true exactly when offsets and row ids describe the same grouping")


# ------------------------------------------------ array versions
@contract("k2::RowSplitsToRowIds", AO, P1, nparams=2)
def RowSplitsToRowIdsArray(v):
    a, b = v.arr(0), v.arr(1)
    rs = v.mem(a)
    v.requires(And(a.dim >= 1, is_row_splits(rs, a.dim - 1), rs[a.dim - 1] == b.dim), "valid row_splits")
    v.lemma(Implies(a.dim == 1, b.dim == 0))
    v.body(modifies=[(b, 0, b.dim)])
    v.ensures(is_row_ids(v.old(a), v.mem(b), a.dim - 1, b.dim), "row_ids[j] is the row holding j")


@contract("k2::RowIdsToRowSplits", AO, P1, nparams=2)
def RowIdsToRowSplitsArray(v):
    a, b = v.arr(0), v.arr(1)
    ri = v.mem(a)
    m, n = a.dim, b.dim - 1
    v.requires(And(n >= 0, monotone(ri, m), Implies(m > 0, And(ri[0] >= 0, ri[m - 1] < n))),
               "row_ids are sorted rows")
    v.body(modifies=[(b, 0, b.dim)])
    ri, rs = v.old(a), v.mem(b)
    v.ensures(And(rs[0] == 0, rs[n] == m, monotone(rs, n + 1)), "valid row_splits")
    v.ensures(forall(2, lambda k, j: imp(0 <= k, k <= n, 0 <= j, j < m, (ri[j] < k) == (j < rs[k])),
                     lambda k, j: (rs[k], ri[j])), "rs[k] separates rows below k")
    v.ensures(is_row_ids(rs, ri, n, m), "row_ids and row_splits agree")


@contract("k2::RowSplitsToRowIdsOffset", AO, P1, nparams=2)
def RowSplitsToRowIdsOffset(v):
    a, b = v.arr(0), v.arr(1)
    rs = v.mem(a)
    n = a.dim - 1
    v.requires(And(n >= 0, monotone(rs, n + 1), rs[n] - rs[0] == b.dim), "a slice of valid row_splits")
    v.body(modifies=[(b, 0, b.dim)])
    rs, ri = v.old(a), v.mem(b)
    v.ensures(forall(1, lambda j: imp(0 <= j, j < b.dim, And(
        0 <= ri[j], ri[j] < n, rs[ri[j]] - rs[0] <= j, j < rs[ri[j] + 1] - rs[0])), lambda j: ri[j]),
        "row_ids relative to the slice")


@contract("k2::RowSplitsToSizes", AO, P1)
def RowSplitsToSizes(v):
    a = v.arr(0)
    v.requires(a.dim >= 1, "row_splits is not empty")
    v.body(ret=lambda: v.new_arr(a.ty))
    r, rs, sz = v.result, v.old(a), v.mem(v.result)
    v.ensures(r.dim == a.dim - 1, "one size per row")
    v.ensures(forall(1, lambda i: imp(0 <= i, i < r.dim, sz[i] == rs[i + 1] - rs[i]), lambda i: sz[i]),
              "size is the difference of offsets")


# ------------------------------------------------ counts
def count_fn(v, src, n):
    """cnt(x, k) = #{ j < k : src[j] == x }: definition by recursion"""
    cnt = v.fresh_fn("cnt", z3.IntSort(), z3.IntSort(), z3.IntSort())
    v.define(forall(["x"], lambda x: cnt(x, 0) == 0, lambda x: cnt(x, 0)))
    v.define(forall(["x", "k", "k1"], lambda x, k, k1: imp(
        k1 == k + 1, 0 <= k, cnt(x, k1) == cnt(x, k) + If(src[k] == x, 1, 0)),
        lambda x, k, k1: (cnt(x, k), cnt(x, k1))))
    return cnt


def _inv_counts(s):
    v = s.v
    i, a = s.var("i"), s.now(s.var("ans"))
    v.step_cnt(i)
    return [("index", And(0 <= i, i <= v.int(2))),
            ("counts so far", forall(1, lambda x: imp(0 <= x, x < v.int(3), a[x] == v.cnt(x, i)),
                                     lambda x: a[x]))]


@contract("k2::GetCounts", AO, P1, nparams=4, loops={0: _inv_counts})
def GetCounts(v):
    m, n = v.int(2), v.int(3)
    v.requires(And(m >= 0, n >= 0), "sizes are not negative")
    v.src = v.ptr(1, m)
    src = v.mem(v.src)
    v.requires(forall(1, lambda j: imp(0 <= j, j < m, And(0 <= src[j], src[j] < n)), lambda j: src[j]),
               "values lie in [0, n)")
    v.lemma(Implies(n == 0, Not(m > 0)) if False else z3.BoolVal(True))
    v.cnt = count_fn(v, src, m)
    v.step_cnt = lambda i: v.define(forall(["x"], lambda x: v.cnt(x, i + 1) == v.cnt(x, i) + If(src[i] == x, 1, 0), None))
    if v.verifying:
        # instance of "values lie in [0, n)" at index 0
        v.lemma(Implies(n == 0, Or(m == 0, And(0 <= src[0], src[0] < n))))
    v.body(ret=lambda: v.new_arr(['int', 32, True]))
    r, a = v.result, v.mem(v.result)
    v.ensures(r.dim == n, "one count per value")
    v.ensures(forall(1, lambda x: imp(0 <= x, x < n, a[x] == v.cnt(x, m)), lambda x: a[x]),
              "ans[x] is the number of elements equal to x")


def _inv_mdub(s):
    v = s.v
    i, mv, d, src = s.var("i"), s.var("max_value"), s.now(v.d), s.old(v.s)
    now = s.now(v.s)
    n = v.s.dim
    j, e = z3.Int("j"), z3.Int("e")
    out = [("index", And(i >= -1, i < n)),
           ("running maximum", And(
               forall(1, lambda k: imp(i < k, k < n, src[k] <= mv), lambda k: src[k]),
               mv >= v.lowest,
               If(i < n - 1, mv == d[i + 1], mv == v.lowest),
               forall(1, lambda k: imp(i < k, k < n, d[k] <= mv), lambda k: d[k]))),
           ("attained", forall(1, lambda k: imp(i < k, k < n, Or(d[k] == v.lowest, Exists([e], And(
               k <= e, e < n, d[k] == src[e])))), lambda k: d[k])),
           ("non-increasing", forall(2, lambda a, b: imp(i < a, a <= b, b < n, d[a] >= d[b]),
                                     lambda a, b: (d[a], d[b]))),
           ("suffix maxima", forall(2, lambda a, b: imp(i < a, a <= b, b < n, d[a] >= src[b]),
                                    lambda a, b: (d[a], src[b]))),
           ("recurrence", forall(1, lambda a: imp(i < a, a < n, d[a] == If(
               a + 1 < n, If(src[a] >= d[a + 1], src[a], d[a + 1]),
               If(src[a] >= v.lowest, src[a], v.lowest))), lambda a: d[a]))]
    if v.aliased:
        out.append(("source not yet read is untouched",
                    forall(1, lambda k: imp(0 <= k, k <= i, now[k] == src[k]), lambda k: now[k])))
    return out


INTMIN = z3.IntVal(-2 ** 31)


@contract("k2::MonotonicDecreasingUpperBound", TI, P1, nparams=2, loops={0: _inv_mdub},
          targs=lambda t: [x.strip() for x in t] == ["int", "int"])
def MonotonicDecreasingUpperBound(v):
    v.s = v.arr(0)
    v.aliased = False
    if v.verifying:
        v.aliased = v.ex.decide(2) == 1
        if v.aliased:
            v.args[1] = obj(v.ex.new_cell(v.s.copy()))
    v.d = v.arr(1)
    v.lowest = INTMIN
    src = v.mem(v.s)
    v.requires(v.d.dim == v.s.dim, "same size")
    v.requires(forall(1, lambda k: imp(0 <= k, k < v.s.dim, src[k] >= INTMIN), lambda k: src[k]), "32-bit values")
    v.body(modifies=[(v.d, 0, v.d.dim)])
    src, d, n = v.old(v.s), v.mem(v.d), v.s.dim
    v.ensures(forall(1, lambda a: imp(0 <= a, a < n, d[a] == If(
        And(a + 1 < n, d[a + 1] > src[a]), d[a + 1], src[a])), lambda a: d[a]),
        "d[i] = max(src[i], d[i+1])")
    v.ensures(forall(2, lambda a, b: imp(0 <= a, a <= b, b < n, d[a] >= d[b]), lambda a, b: (d[a], d[b])),
              "non-increasing")
    v.ensures(forall(2, lambda a, b: imp(0 <= a, a <= b, b < n, d[a] >= src[b]), lambda a, b: (d[a], src[b])),
              "upper bound of the suffix")
    e = z3.Int("e")
    v.ensures(forall(1, lambda k: imp(0 <= k, k < n, Exists([e], And(k <= e, e < n, d[k] == src[e]))),
                     lambda k: d[k]), "attained in the suffix")


@contract("k2::InvertMonotonicDecreasing", AO, P1)
def InvertMonotonicDecreasing(v):
    a = v.arr(0)
    s, n = v.mem(a), a.dim
    v.requires(forall(1, lambda i: imp(0 <= i, i < n, s[i] > 0), lambda i: s[i]), "values are positive")
    v.requires(forall(2, lambda i, j: imp(0 <= i, i <= j, j < n, s[i] >= s[j]), lambda i, j: (s[i], s[j])),
               "non-increasing")
    v.body(ret=lambda: v.new_arr(a.ty))
    r, t, s = v.result, v.mem(v.result), v.old(a)
    e = z3.Int("e")
    v.induction("each value has a last occurrence", lambda k: Exists([e], And(
        k <= e, e < n, s[e] == s[k], Or(e + 1 == n, s[e + 1] < s[e]))), 0, n, down=True, pat=lambda k: s[k])
    v.ensures(r.dim == If(n > 0, s[0], 0), "one entry per value below src[0]")
    v.ensures(forall(1, lambda i: imp(0 <= i, i < r.dim, And(0 <= t[i], t[i] <= n)), lambda i: t[i]), "in range")
    v.ensures(forall(1, lambda i: imp(0 <= i, i < r.dim, Implies(t[i] < n, s[t[i]] <= i)), lambda i: t[i]),
              "src[ans[i]] <= i")
    v.ensures(forall(1, lambda i: imp(0 <= i, i < r.dim, Implies(t[i] > 0, s[t[i] - 1] > i)), lambda i: t[i]),
              "src[ans[i]-1] > i")


@contract("k2::InvertPermutation", AO, P1)
def InvertPermutation(v):
    a = v.arr(0)
    n = a.dim
    s = v.mem(a)
    v.requires(forall(1, lambda i: imp(0 <= i, i < n, And(0 <= s[i], s[i] < n)), lambda i: s[i]), "values in range")
    v.requires(forall(2, lambda i, j: imp(0 <= i, i < j, j < n, s[i] != s[j]), lambda i, j: (s[i], s[j])),
               "values are distinct")
    v.body(ret=lambda: v.new_arr(a.ty))
    r, t, s = v.result, v.mem(v.result), v.old(a)
    v.ensures(r.dim == n, "same size")
    v.ensures(forall(1, lambda i: imp(0 <= i, i < n, t[s[i]] == i), lambda i: s[i]), "ans[src[i]] == i")


@contract("k2::IsPermutation", AO, P1)
def IsPermutation(v):
    a = v.arr(0)
    v.body(ret=lambda: bool_ret(v))
    s, n = v.old(a), a.dim
    e = z3.Int("e")
    v.ensures(v.result == forall(["x"], lambda x: imp(0 <= x, x < n, Exists([e], And(0 <= e, e < n, s[e] == x)))),
              "true exactly when every value in [0, dim) occurs")


def _inv_equal_val(s):
    v = s.v
    a = s.old(v.a)
    i = s.var("i")
    return [("index", And(0 <= i, i <= v.a.dim)),
            ("equal so far", forall(1, lambda k: imp(0 <= k, k < i, a[k] == v.int(1)), lambda k: a[k]))]


@contract("k2::Equal", TI, P1, nparams=2, ptypes={0: is_arr_t, 1: lambda t: t[0] in ('int', 'float')},
          loops={0: _inv_equal_val})
def EqualValue(v):
    v.a = v.arr(0)
    b = v.int(1)
    v.body(ret=lambda: bool_ret(v))
    a = v.old(v.a)
    v.ensures(v.result == forall(1, lambda k: imp(0 <= k, k < v.a.dim, a[k] == b), lambda k: a[k]),
              "true exactly when all elements equal the value")


def _inv_mono(s):
    v = s.v
    a, i = s.old(v.a), s.var("i")
    op = (lambda x, y: x <= y) if v.inc else (lambda x, y: x >= y)
    return [("index", 0 <= i),
            ("ordered so far", forall(1, lambda k: imp(0 <= k, k < i, op(a[k], a[k + 1])), lambda k: a[k]))]


def _mono(v, inc):
    v.a, v.inc = v.arr(0), inc
    v.body(ret=lambda: bool_ret(v))
    a = v.old(v.a)
    op = (lambda x, y: x <= y) if inc else (lambda x, y: x >= y)
    v.ensures(v.result == forall(1, lambda k: imp(0 <= k, k + 1 < v.a.dim, op(a[k], a[k + 1])), lambda k: a[k]),
              "true exactly when neighbours are in order")


@contract("k2::IsMonotonic", TI, P1, loops={0: _inv_mono})
def IsMonotonic(v):
    _mono(v, True)


@contract("k2::IsMonotonicDecreasing", TI, P1, loops={0: _inv_mono})
def IsMonotonicDecreasing(v):
    _mono(v, False)


@contract("k2::Plus", TI, P1, nparams=2, ptypes={0: is_arr_t})
def Plus(v):
    a, t = v.arr(0), v.int(1)
    v.body(ret=lambda: v.new_arr(a.ty))
    r, s, d = v.result, v.old(a), v.mem(v.result)
    v.ensures(r.dim == a.dim, "same size")
    v.ensures(forall(1, lambda k: imp(0 <= k, k < a.dim, d[k] == s[k] + t), lambda k: d[k]), "adds the value")


@contract("k2::Range", TI, P1, nparams=4)
def RangeFn(v):
    n, f, inc = v.int(1), v.int(2), v.int(3)
    v.requires(n >= 0, "size is not negative")
    v.body(ret=lambda: v.new_arr(v.ptypes[2]))
    r, d = v.result, v.mem(v.result)
    v.ensures(r.dim == n, "dim elements")
    v.ensures(forall(1, lambda k: imp(0 <= k, k < n, d[k] == f + k * inc), lambda k: d[k]), "arithmetic sequence")


# ------------------------------------------------ indexing one array with another
def is_ix(t):
    return t[0] == 'ref' and is_arr_t(t)


def gather(v, a, ix, ans_dim_known=None):
    """r[i] == a[ix[i]]"""
    X = v.mem(ix)
    end = a.ptr.region.size - a.ptr.off
    v.requires(forall(1, lambda i: imp(0 <= i, i < ix.dim, And(0 <= X[i], X[i] < end)), lambda i: X[i]), "indexes within the memory of the array")
    return X


@contract("k2::Array1::Index", TI, P1, nparams=2)
def Array1Index(v):
    a, ix, r = v.this_arr(), v.arr(0), v.arr(1)
    X = gather(v, a, ix)
    v.requires(r.dim == ix.dim, "the output has as many elements as there are indexes")
    if not v.verifying and (r.ptr.region is a.ptr.region or r.ptr.region is ix.ptr.region):
        raise Unsupported("Array1::Index in place")
    v.body(modifies=[(r, 0, r.dim)])
    for p in v.paths(r):
        A, R = v.mem(a, p), v.mem(r, p)
        v.ensures(forall(1, lambda i: imp(0 <= i, i < ix.dim, R[i] == A[X[i]]), lambda i: R[i]), "element " + ".".join(p))


@contract("k2::Array1::operator[]", TI, P1, nparams=1, ptypes={0: is_ix})
def Array1AtArray(v):
    a, ix = v.this_arr(), v.arr(0)
    X = gather(v, a, ix)
    v.body(ret=lambda: v.new_arr(a.ty, ix.dim))
    r = v.result
    v.ensures(r.dim == ix.dim, "as many elements as indexes")
    for p in v.paths(r):
        A, R = v.mem(a, p), v.mem(r, p)
        v.ensures(forall(1, lambda i: imp(0 <= i, i < ix.dim, R[i] == A[X[i]]), lambda i: R[i]), "element " + ".".join(p))


def _inv_index(s):
    v = s.v
    i, n = s.var("i"), v.out(1).dim
    a, X, R = v.out(0), s.now(v.out(1)), s.now(s.var("ans"))
    A = s.now(a)
    minus, d = v.int(2), v.int(3)
    return [("filled so far", And(0 <= i, i <= n, forall(1, lambda k: imp(0 <= k, k < i, R[k] == If(And(minus, X[k] < 0), d, A[X[k]])), lambda k: R[k])))]


@contract("k2::Index", TI, P1, nparams=4, ptypes={0: is_arr_t, 1: is_arr_t}, loops={0: _inv_index, 1: _inv_index})
def IndexArray1(v):
    a, ix, minus, d = v.arr(0), v.arr(1), v.int(2), v.int(3)
    X = v.mem(ix)
    v.requires(forall(1, lambda i: imp(0 <= i, i < ix.dim, And(Or(minus, 0 <= X[i]), X[i] < a.dim)), lambda i: X[i]), "indexes within the array")
    v.body(ret=lambda: v.new_arr(a.ty, ix.dim))
    r = v.result
    A, R = v.mem(a), v.mem(r)
    v.ensures(r.dim == ix.dim, "as many elements as indexes")
    v.ensures(forall(1, lambda i: imp(0 <= i, i < ix.dim, R[i] == If(And(minus, X[i] < 0), d, A[X[i]])), lambda i: R[i]), "the element named, or the default for -1")

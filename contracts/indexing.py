"""Contracts for ragged_ops.cu: selecting sublists of a ragged shape (IndexAxis0 and what is built on it)."""
import z3
from engine.contract import *
from engine.contract import contract, forall, imp, monotone, is_row_splits, is_row_ids, MemView
from engine import model
from engine.model import rs_of, ri_of, tot_size, num_axes, fresh_shape
from engine.vc import IT, Ptr, NullPtr, Arr, Obj, Rec, Vec, simp, conc, I, Unsupported
from z3 import And, Or, Not, If, Implies, Exists, ForAll
from contracts.ragged import any_shape, any_ragged, number, mk, RO, P2, I32, same_arr, is_shape, copy_layers, same_layer, removed_lists
from contracts.shapes import valid_shape
from contracts import renumber

P = ["C02", "C01", "C30"]


@contract("k2::RaggedShapeFromTotSizes", RO, P, nparams=3)
def RaggedShapeFromTotSizes(v):
    v.ctx(0)
    n = number(v, 1, 2, 4)
    p = v.ptr(2, n)
    T = v.mem(p)
    v.requires(And(*[T[k] >= 0 for k in range(n)]), "sizes")
    t = [T[k] for k in range(n)]

    def ret():
        ls = []
        for a in range(n - 1):
            l = model.fresh_layer(v.ex, f"new_{a}", t[a], t[a + 1])
            ls.append(l)
        s = mk(ls)
        s.raw = True
        return s
    v.body(ret=ret)
    s = v.result
    arrs = []
    for a in range(n - 1):
        l = s.layers.items[a]
        arrs += [l.f["row_splits"], l.f["row_ids"]]
        v.ensures(And(l.f["row_splits"].dim == t[a] + 1, l.f["row_ids"].dim == t[a + 1], l.f["cached_tot_size"] == t[a + 1]),
                  "sizes of the arrays")
    if v.verifying:
        for x in range(len(arrs)):
            v.ensures(And(arrs[x].ptr.off >= 0, arrs[x].ptr.off + arrs[x].dim <= arrs[x].ptr.region.size), "within the memory")
            for y in range(x):
                if arrs[x].ptr.region is arrs[y].ptr.region:
                    v.ensures(Or(arrs[y].ptr.off + arrs[y].dim <= arrs[x].ptr.off, arrs[x].ptr.off + arrs[x].dim <= arrs[y].ptr.off),
                              "arrays do not overlap")


# ------------------------------------------------ offsets of the selected sublists
def end_of(v, s, N, a, i):
    """where the sublist selected by i ends, on axis a"""
    e = N[i] + 1
    for b in range(1, a + 1):
        e = v.mem(rs_of(s, b))[e]
    return e


def begin_of(v, s, N, a, i):
    e = If(N[i] == -1, 0, N[i])
    for b in range(1, a + 1):
        e = v.mem(rs_of(s, b))[e]
    return e


def offset_facts(v, s, n2o, old, new):
    N, n, na = v.mem(n2o), n2o.dim, num_axes(s)
    r = []
    for a in range(na):
        OO, NO = v.mem(old.rows[a]), v.mem(new.rows[a])
        tot = tot_size(s, a)
        k = lambda f: forall(1, lambda i: imp(0 <= i, i < n, f(i)), lambda i: OO[i])
        k2 = lambda f: forall(1, lambda i: imp(0 <= i, i < n, f(i)), lambda i: NO[i])
        prev = v.mem(old.rows[a - 1]) if a else None
        R = v.mem(rs_of(s, a)) if a else None
        r += [(f"axis {a}: sizes", And(old.rows[a].dim == n, new.rows[a].dim == n + 1)),
              (f"axis {a}: old offsets", k(lambda i: OO[i] == (If(N[i] == -1, 0, N[i]) if a == 0 else R[prev[i]]))),
              (f"axis {a}: old ranges", k(lambda i: And(0 <= OO[i], OO[i] <= end_of(v, s, N, a, i), end_of(v, s, N, a, i) <= tot))),
              (f"axis {a}: new offsets start at 0", NO[0] == 0)]
        if a == 0:
            r += [("axis 0: new offsets", forall(1, lambda i: imp(0 <= i, i <= n, NO[i] == i), lambda i: NO[i]))]
        else:
            r += [(f"axis {a}: new sizes", k2(lambda i: NO[i + 1] == NO[i] + end_of(v, s, N, a, i) - OO[i])),
                  (f"axis {a}: new offsets are monotone", monotone(NO, n + 1))]
    return r


@contract("k2::GetOldAndNewOffsets", RO, P)
def GetOldAndNewOffsets(v):
    s = any_shape(v, 0, 2, 4)
    na = num_axes(s)
    n2o = v.arr(1)
    N, n = v.mem(n2o), n2o.dim
    v.requires(forall(1, lambda i: imp(0 <= i, i < n, And(-1 <= N[i], N[i] < tot_size(s, 0))), lambda i: N[i]), "indexes")
    if v.verifying:
        for k in (2, 3):
            v.out_param(k, lambda: Obj("array2", rows=[], dim1=z3.IntVal(0), ty=I32))

        def sums(cv):
            # after each row's sum
            NO = v.mem(cv.dest)
            v.lemma(forall(1, lambda i: imp(0 <= i, i < n, NO[i + 1] >= NO[i]), lambda i: NO[i]), "no size is negative")
        a2 = lambda rows, d: None
    mk2 = lambda d: Obj("array2", rows=[v.new_arr(I32, d, "offsets") for _ in range(na)], dim1=d, ty=I32)
    v.body(outs={2: lambda: mk2(n), 3: lambda: mk2(simp(n + 1))})
    old, new = v.out(2), v.out(3)
    if v.verifying:
        Z = v.mem(new.rows[0])
        v.induction("ones add up", lambda i: Z[i] == i, 0, n + 1, pat=lambda i: Z[i])
    for what, f in offset_facts(v, s, n2o, old, new):
        v.ensures(f, what)


# ------------------------------------------------ IndexAxis0
def index_facts(v, s, ans, n2o, elems, E):
    """ans is s indexed by n2o: E[a](q) is the element of axis a of s that element q of ans comes from"""
    N, na = v.mem(n2o), num_axes(s)
    r = []
    for a in range(1, na):
        R, I0 = v.mem(rs_of(s, a)), v.mem(ri_of(s, a))
        R1, I1 = v.mem(rs_of(ans, a)), v.mem(ri_of(ans, a))
        rows, tot = tot_size(ans, a - 1), tot_size(ans, a)
        prev = (lambda p: N[p]) if a == 1 else E[a - 1]
        el = lambda f: forall(1, lambda q: imp(0 <= q, q < tot, f(q)), lambda q: I1[q])
        size = lambda p: R[prev(p) + 1] - R[prev(p)]
        if a == 1:
            r += [("axis 1: sizes", forall(1, lambda p: imp(0 <= p, p < rows, R1[p + 1] - R1[p] == If(N[p] == -1, 0, size(p))),
                                           lambda p: N[p])),
                  ("axis 1: an empty list has no elements", el(lambda q: N[I1[q]] >= 0))]
        else:
            r += [(f"axis {a}: sizes", forall(1, lambda p: imp(0 <= p, p < rows, R1[p + 1] - R1[p] == size(p)), lambda p: prev(p)))]
        r += [(f"axis {a}: which element", el(lambda q: E[a](q) == R[prev(I1[q])] + q - R1[I1[q]])),
              (f"axis {a}: in the selected sublist", el(lambda q: I0[E[a](q)] == prev(I1[q]))),
              (f"axis {a}: an element of src", el(lambda q: And(0 <= E[a](q), E[a](q) < tot_size(s, a))))]
    if elems is not None:
        W = v.mem(elems)
        r.append(("elem_indexes: size", elems.dim == tot_size(ans, na - 1)))
        r.append(("elem_indexes", forall(1, lambda q: imp(0 <= q, q < elems.dim, W[q] == E[na - 1](q)), lambda q: W[q])))
    return r


def index_lemmas(v, s, ans, n2o):
    na, n, tot = num_axes(s), v.n, v.tot
    N = v.mem(n2o)
    OO, NO = [v.mem(x) for x in v.oo], [v.mem(x) for x in v.no]
    R = [None] + [v.mem(rs_of(s, a)) for a in range(1, na)]
    I0 = [None] + [v.mem(ri_of(s, a)) for a in range(1, na)]
    R1 = [None] + [v.mem(rs_of(ans, a)) for a in range(1, na)]
    I1 = [None] + [v.mem(ri_of(ans, a)) for a in range(1, na)]
    C = v.C
    E = [None]
    for a in range(1, na):
        G = v.seq(f"source_{a}", lambda q: OO[a][C[a][q]] + q - NO[a][C[a][q]], 0, tot[a], lambda q: C[a][q])
        E.append(lambda q, G=G: G[q])
    for a in range(2, na):
        v.induction(f"axis {a}: no element between equal offsets", lambda k: forall(["jj"], lambda j: imp(
            0 <= j, j <= k, NO[a - 1][j] == NO[a - 1][k], NO[a][j] == NO[a][k]), lambda j: NO[a][j]), 0, n + 1, pat=lambda k: NO[a][k])
        q_ok = lambda f: forall(1, lambda q: imp(0 <= q, q < tot[a], f(q)), lambda q: I1[a][q])
        c = lambda q: C[a][q]
        v.lemma(q_ok(lambda q: And(0 <= E[a](q), E[a](q) < tot_size(s, a), OO[a][c(q)] <= E[a](q),
                                   E[a](q) < end_of(v, s, N, a, c(q)))), f"axis {a}: source element")
        v.lemma(q_ok(lambda q: And(OO[a - 1][c(q)] <= I0[a][E[a](q)], I0[a][E[a](q)] < end_of(v, s, N, a - 1, c(q)))),
                f"axis {a}: row of the source element")
        v.lemma(q_ok(lambda q: And(NO[a - 1][c(q)] <= I1[a][q], I1[a][q] < NO[a - 1][c(q) + 1])), f"axis {a}: new row")
        v.lemma(q_ok(lambda q: And(0 <= I1[a][q], I1[a][q] < tot[a - 1])), f"axis {a}: new row exists")
        v.lemma(q_ok(lambda q: C[a - 1][I1[a][q]] == c(q)) if a > 2 else
                q_ok(lambda q: I1[1][I1[a][q]] == c(q)), f"axis {a}: same selected sublist")
        v.lemma(q_ok(lambda q: E[a - 1](I1[a][q]) == I0[a][E[a](q)]), f"axis {a}: source of the new row")
    return E


@contract("k2::IndexAxis0", RO, P)
def IndexAxis0(v):
    s = any_shape(v, 0, 2, 4)
    na = num_axes(s)
    n2o = v.arr(1)
    N, n = v.mem(n2o), n2o.dim
    v.requires(forall(1, lambda i: imp(0 <= i, i < n, And(-1 <= N[i], N[i] < tot_size(s, 0))), lambda i: N[i]), "indexes")
    none = v.fork_null(2)
    v.src, v.n, v.C = s, n, [None] * na
    if v.verifying:
        if not none:
            v.out_param(2, lambda: v.new_arr(I32, 0, "elem_indexes"))
        v.elems = None if none else True
        at = []

        def offsets(cv):
            v.oo, v.no = cv.out(2).rows, cv.out(3).rows
            v.tot = [simp(v.mem(x)[n]) for x in v.no]

        def composed(cv):
            at.append(cv)
            v.ri, v.rs = getattr(v, "ri", {}), getattr(v, "rs", {})
            a = len(at)
            if a >= na:
                return
            v.ri[a] = cv.out(1)
            v.C[a] = MemView(v.ex, dict(v.ex.st.mem))(v.ri[a])
            if a > 1:
                pass

        def shape(cv):
            v.rs = {a: rs_of(cv.result, a) for a in range(1, na)}
        v.after("k2::GetOldAndNewOffsets", offsets)
        v.after("k2::RaggedShapeFromTotSizes", shape)
        v.after("k2::RowSplitsToRowIds", composed)

    def ret():
        t = [n] + [v.fresh(f"tot{a}") for a in range(1, na)]
        return mk([model.fresh_layer(v.ex, f"index_{a}", t[a], t[a + 1]) for a in range(na - 1)])
    v.body(ret=ret, outs={} if none else {2: lambda: v.new_arr(I32, None, "elem_indexes")})
    ans = v.result
    elems = None if none else v.out(2)
    v.ensures(len(ans.layers.items) == na - 1, "number of axes")
    v.ensures(tot_size(ans, 0) == n, "one sublist per index")
    if v.verifying:
        if hasattr(v, "no"):
            E = index_lemmas(v, s, ans, n2o)
        else:
            E = [None] + [(lambda q, F=v.fresh_fn("source", I, I): F(q))] * (na - 1)
    else:
        E = [None]
        for a in range(1, na):
            F = v.fresh_fn(f"source_{a}", I, I)
            E.append(lambda q, F=F: F(q))
        v.E = ans.E = E
    valid_shape(v, ans)
    for what, f in index_facts(v, s, ans, n2o, elems, E):
        v.ensures(f, what)


# ------------------------------------------------ Index, SubsetRaggedShape, ...
def index_requires(v, s, k, n2o, n=None):
    N, n = v.mem(n2o), n2o.dim if n is None else n
    lo = -1 if k == 0 else 0
    v.requires(forall(1, lambda i: imp(0 <= i, i < n, And(lo <= N[i], N[i] < tot_size(s, k))), lambda i: N[i]), "indexes")
    if k:
        R = v.mem(ri_of(s, k))
        f = lambda i, j: imp(0 <= i, i <= j, j < n, R[N[i]] <= R[N[j]])
        v.requires(forall(2, f, lambda i, j: (N[i], N[j])), "the lists on the axes above keep their order")


def index_new(v, s, k, n, name="indexed"):
    """call mode: the shape that Index makes"""
    na = num_axes(s)
    ls = copy_layers(s.layers.items[:max(k - 1, 0)])
    if k:
        ls.append(model.fresh_layer(v.ex, f"{name}_{k - 1}", tot_size(s, k - 1), n))
    t = {k: n}
    for a in range(k + 1, na):
        t[a] = v.fresh(f"{name}_tot{a}")
        v.ex.assume(t[a] >= 0)
        ls.append(model.fresh_layer(v.ex, f"{name}_{a}", t[a - 1], t[a]))
    return mk(ls)


def index_post(v, s, k, n2o, ans, elems, E, n=None):
    """ans is s with the elements of axis k selected by n2o"""
    na, N = num_axes(s), v.mem(n2o)
    n = n2o.dim if n is None else n
    v.ensures(num_axes(ans) == na, "number of axes")
    v.ensures(tot_size(ans, k) == n, "one element per index")
    for x, y in zip(ans.layers.items[:max(k - 1, 0)], s.layers.items):
        same_layer(v, x, y, "axes above are the same")
    if k:
        R, R1 = v.mem(ri_of(s, k)), v.mem(ri_of(ans, k))
        v.ensures(tot_size(ans, k - 1) == tot_size(s, k - 1), "as many lists")
        v.ensures(forall(1, lambda i: imp(0 <= i, i < n, R1[i] == R[N[i]]), lambda i: R1[i]), "a selected element stays in its list")
    valid_shape(v, ans)
    if k < na - 1:
        for what, f in index_facts(v, mk(s.layers.items[k:]), mk(ans.layers.items[k:]), n2o, elems, E):
            v.ensures(f, what)
    elif elems is not None:
        W = v.mem(elems)
        v.ensures(elems.dim == n, "elem_indexes: size")
        v.ensures(forall(1, lambda q: imp(0 <= q, q < n, W[q] == N[q]), lambda q: W[q]), "elem_indexes")


def sources(v, na, k):
    E = [None]
    for a in range(k + 1, na):
        F = v.fresh_fn(f"source_{a}", I, I)
        E.append(lambda q, F=F: F(q))
    return E


def ghosts(v, q):
    """the source functions of the callee that made the lower axes"""
    def got(cv):
        v.E = cv.E
    v.after(q, got)


@contract("k2::Index", RO, P, nparams=4, ptypes={0: is_shape})
def IndexShape(v):
    s = any_shape(v, 0, 2, 4)
    na = num_axes(s)
    k = number(v, 1, 0, na - 1)
    n2o = v.arr(2)
    index_requires(v, s, k, n2o)
    none = v.fork_null(3)
    v.E = None
    if v.verifying:
        if not none:
            v.out_param(3, lambda: v.new_arr(I32, 0, "elem_indexes"))
        ghosts(v, "k2::IndexAxis0")
    v.body(ret=lambda: index_new(v, s, k, n2o.dim), outs={} if none else {3: lambda: v.new_arr(I32, None, "elem_indexes")})
    if v.E is None:
        v.E = sources(v, na, k)
    index_post(v, s, k, n2o, v.result, None if none else v.out(3), v.E)


@contract("k2::SubsetRaggedShape", RO, P, nparams=4)
def SubsetRaggedShape(v):
    s = any_shape(v, 0, 2, 4)
    na = num_axes(s)
    r = renumber.param(v, 1)
    a = number(v, 2, -na, na - 1)
    k = a + na if a < 0 else a
    v.requires(r.f["keep_"].dim == tot_size(s, k), "one entry per element of the axis")
    none = v.fork_null(3)
    v.E = None
    if v.verifying:
        if not none:
            v.out_param(3, lambda: v.new_arr(I32, 0, "elem_indexes"))
        ghosts(v, "k2::Index")
    q = {}

    def ret():
        q["r"] = renumber.computed(v, 1)
        return index_new(v, s, k, q["r"].f["num_new_elems_"], "subset")
    v.body(ret=ret, outs={} if none else {3: lambda: v.new_arr(I32, None, "elem_indexes")})
    r = q.get("r") or renumber.computed(v, 1)
    if v.E is None:
        v.E = sources(v, na, k)
    index_post(v, s, k, r.f["new2old_"], v.result, None if none else v.out(3), v.E, n=r.f["num_new_elems_"])


def done(v, n, K_of):
    """call mode: a Renumbering with its maps, keep_[i] == K_of(i)"""
    r = renumber.raw(v, fresh=True)
    K = v.mem(r.f["keep_"])
    v.ex.assume(And(r.f["keep_"].dim == n, forall(1, lambda i: imp(0 <= i, i < n, K[i] == K_of(i)), lambda i: K[i])))
    r.f["old2new_"] = v.new_arr(I32, simp(n + 1), "old2new")
    r.f["num_new_elems_"] = v.ex.fresh("num_new")
    for what, f in renumber.o2n_facts(v, r):
        v.ex.assume(f)
    renumber.longer_n2o(v, r)
    for what, f in renumber.n2o_facts(v, r):
        v.ex.assume(f)
    return r


def without_lists(v, s, k, t, r):
    """t is s without the lists on axis k that r drops (which are empty)"""
    na = num_axes(s)
    v.ensures(num_axes(t) == na, "number of axes")
    for x, y in zip(t.layers.items[:max(k - 1, 0)], s.layers.items):
        same_layer(v, x, y, "axes above are the same")
    m, N = r.f["num_new_elems_"], v.mem(r.f["new2old_"])
    v.ensures(tot_size(t, k) == m, "as many lists as are kept")
    if k:
        R, R1 = v.mem(ri_of(s, k)), v.mem(ri_of(t, k))
        v.ensures(tot_size(t, k - 1) == tot_size(s, k - 1), "as many lists above")
        v.ensures(forall(1, lambda i: imp(0 <= i, i < m, R1[i] == R[N[i]]), lambda i: R1[i]), "a list stays in its list")
    removed_lists(v, mk(s.layers.items[k:]), mk(t.layers.items[k:]), r, "result")
    valid_shape(v, t)


def without_new(v, s, k, m):
    ls = copy_layers(s.layers.items[:max(k - 1, 0)])
    if k:
        ls.append(model.fresh_layer(v.ex, "above", tot_size(s, k - 1), m))
    ls.append(model.fresh_layer(v.ex, "nonempty", m, tot_size(s, k + 1)))
    return mk(ls + copy_layers(s.layers.items[k + 1:]))


@contract("k2::RemoveSomeEmptyLists", RO, P)
def RemoveSomeEmptyLists(v):
    s = any_shape(v, 0, 2, 4)
    na = num_axes(s)
    k = number(v, 1, max(0, na - 3), na - 2)
    r = renumber.param(v, 2)
    n, K = r.f["keep_"].dim, v.mem(r.f["keep_"])
    R0 = v.mem(rs_of(s, k + 1))
    v.requires(n == tot_size(s, k), "one entry per list")
    v.requires(forall(1, lambda i: imp(0 <= i, i < n, K[i] == 0, R0[i] == R0[i + 1]), lambda i: K[i]), "only empty lists are removed")
    q = {}

    def ret():
        q["r"] = renumber.computed(v, 2)
        return without_new(v, s, k, q["r"].f["num_new_elems_"])
    v.body(ret=ret)
    without_lists(v, s, k, v.result, q.get("r") or renumber.computed(v, 2))


@contract("k2::RemoveEmptyLists", RO, P, nparams=3, ptypes={0: is_shape})
def RemoveEmptyLists(v):
    s = any_shape(v, 0, 2, 4)
    na = num_axes(s)
    k = number(v, 1, max(0, na - 3), na - 2)
    none = v.fork_null(2)
    R0, n = v.mem(rs_of(s, k + 1)), tot_size(s, k)
    if v.verifying:
        if not none:
            v.out_param(2, lambda: renumber.raw(v))

        def got(cv):
            v.r = None if cv.is_null(1) else cv.out(1)
            v.t = cv.result
        v.after("k2::RemoveEmptyListsAxis0", got)

    def out():
        v.r = done(v, n, lambda i: If(R0[i] == R0[i + 1], 0, 1))
        return v.r

    def ret():
        r = v.r if hasattr(v, "r") else out()
        return without_new(v, s, k, r.f["num_new_elems_"])
    v.body(ret=ret, outs={} if none else {2: lambda: v.r if hasattr(v, "r") else out()})
    t = v.result
    r = v.r if none else v.out(2)
    R1 = v.mem(rs_of(t, k + 1))
    v.ensures(forall(1, lambda i: imp(0 <= i, i < tot_size(t, k), R1[i] < R1[i + 1]), lambda i: R1[i]), "no list is empty")
    v.ensures(tot_size(t, k + 1) == tot_size(s, k + 1), "all elements stay")
    if r is not None:
        K = v.mem(r.f["keep_"])
        v.ensures(And(r.f["keep_"].dim == n, forall(1, lambda i: imp(0 <= i, i < n, K[i] == If(R0[i] == R0[i + 1], 0, 1)), lambda i: K[i])), "drops the empty lists")
        without_lists(v, s, k, t, r)
    else:
        valid_shape(v, t)


# ------------------------------------------------ ragged tensors
RI = "@tu/ragged_inst.cc"


def is_ragged(t):
    while t[0] in ('ref', 'ptr'):
        t = t[1]
    return t[0] == 'rec' and t[1].startswith("k2::Ragged<")


def is_int(t):
    return t[0] == 'int'


def same_values(v, t, src, n, f, what="values"):
    v.ensures(t.values.dim == n, what + ": one per element")
    for p in v.paths(src):
        A, B = v.mem(src, p), v.mem(t.values, p)
        v.ensures(forall(1, lambda q: imp(0 <= q, q < n, B[q] == A[f(q)]), lambda q: B[q]), " ".join([what, *p]))


def new_values(v, r, n):
    return v.new_arr(r.values.ty, n, "values")


def ragged_of(v, shape, values):
    return Obj("ragged", shape=shape, values=values)


def which(k, na, N, E):
    return (lambda q: N[q]) if k == na - 1 else E[na - 1 - k]


@contract("k2::Index", RI, P, nparams=4, ptypes={0: is_ragged})
def IndexRagged(v):
    r = any_ragged(v, 0, 2, 4)
    s = r.shape
    na = num_axes(s)
    k = number(v, 1, 0, na - 1)
    n2o = v.arr(2)
    index_requires(v, s, k, n2o)
    none = v.fork_null(3)
    v.E = None
    if v.verifying:
        if not none:
            v.out_param(3, lambda: v.new_arr(I32, 0, "value_indexes"))
        ghosts(v, "k2::Index")

    def ret():
        t = index_new(v, s, k, n2o.dim)
        return ragged_of(v, t, new_values(v, r, tot_size(t, na - 1)))
    v.body(ret=ret, outs={} if none else {3: lambda: v.new_arr(I32, None, "value_indexes")})
    if v.E is None:
        v.E = sources(v, na, k)
    t = v.result
    index_post(v, s, k, n2o, t.shape, None if none else v.out(3), v.E)
    same_values(v, t, r.values, tot_size(t.shape, na - 1), which(k, na, v.mem(n2o), v.E))


@contract("k2::Index", RI, P, nparams=3, ptypes={0: is_ragged, 1: is_ragged})
def IndexRaggedRagged(v):
    r, ix = any_ragged(v, 0, 2, 3), any_ragged(v, 1, 2, 3)
    na, ni = num_axes(r), num_axes(ix)
    index_requires(v, r.shape, 0, ix.values)
    N = v.mem(ix.values)
    rm = v.int(2)
    if v.verifying:
        rm = z3.BoolVal(bool(v.ex.decide(2)))
        v.args[2] = rm
        ghosts(v, "k2::Index")
    rm = z3.simplify(rm)
    if not (z3.is_true(rm) or z3.is_false(rm)):
        raise Unsupported("remove_axis is not a constant")
    rm = z3.is_true(rm)
    n = ix.values.dim

    def ret():
        t = index_new(v, r.shape, 0, n)
        ls = copy_layers(ix.shape.layers.items) + t.layers.items
        if rm:
            ls = ls[:-2] + [model.fresh_layer(v.ex, "appended", ls[-2].f["row_splits"].dim - 1, ls[-1].f["cached_tot_size"])]
        v.inner = t
        return ragged_of(v, mk(ls), new_values(v, r, tot_size(t, na - 1)))
    if v.verifying:
        def got(cv):
            v.inner = cv.result.shape
            v.E = cv.E
        v.ex.after.pop("k2::Index", None)
        v.after("k2::Index", got)
    v.body(ret=ret)
    if not v.verifying:
        v.E = sources(v, na, 0)
    t, inner = v.result, v.inner
    if not v.verifying:
        valid_shape(v, inner)
    for what, f in index_facts(v, r.shape, inner, ix.values, None, v.E):
        v.ensures(f, what)
    ls, li, ln = t.shape.layers.items, ix.shape.layers.items, inner.layers.items
    v.ensures(num_axes(t) == na + ni - 1 - (1 if rm else 0), "number of axes")
    if rm:        # the last axis but one
        full = li + ln
        for x, y in zip(ls, full[:-2]):
            same_layer(v, x, y, "axes of the indexes, then of the elements")
        A, B = v.mem(full[-2].f["row_splits"]), v.mem(full[-1].f["row_splits"])
        m = full[-2].f["row_splits"].dim - 1
        C = v.mem(ls[-1].f["row_splits"])
        v.ensures(And(ls[-1].f["row_splits"].dim == m + 1,
                      forall(1, lambda i: imp(0 <= i, i <= m, C[i] == B[A[i]]), lambda i: C[i])), "the lists selected are appended")
    else:
        for x, y in zip(ls, li + ln):
            same_layer(v, x, y, "axes of the indexes, then of the elements")
    valid_shape(v, t.shape)
    same_values(v, t, r.values, tot_size(inner, na - 1), v.E[na - 1])


@contract("k2::Index", RI, P, nparams=2, ptypes={1: is_ragged})
def IndexArrayRagged(v):
    a, ix = v.arr(0), any_ragged(v, 1, 2, 3)
    N = v.mem(ix.values)
    n = ix.values.dim
    v.requires(forall(1, lambda i: imp(0 <= i, i < n, And(0 <= N[i], N[i] < a.dim)), lambda i: N[i]), "indexes")
    v.body(ret=lambda: ragged_of(v, mk(copy_layers(ix.shape.layers.items)), v.new_arr(a.ty, n)))
    t = v.result
    v.ensures(num_axes(t) == num_axes(ix), "shape of the indexes")
    for x, y in zip(t.shape.layers.items, ix.shape.layers.items):
        same_layer(v, x, y, "shape of the indexes")
    same_values(v, t, a, n, lambda q: N[q])


@contract("k2::Index", RI, P, nparams=3, ptypes={1: is_ragged, 2: lambda t: t[0] in ('int', 'float')})
def IndexArrayRaggedDefault(v):
    a, ix, d = v.arr(0), any_ragged(v, 1, 2, 3), v.int(2)
    N = v.mem(ix.values)
    n = ix.values.dim
    v.requires(forall(1, lambda i: imp(0 <= i, i < n, And(-1 <= N[i], N[i] < a.dim)), lambda i: N[i]), "indexes")
    v.body(ret=lambda: ragged_of(v, mk(copy_layers(ix.shape.layers.items)), v.new_arr(a.ty, n)))
    t = v.result
    v.ensures(num_axes(t) == num_axes(ix), "shape of the indexes")
    for x, y in zip(t.shape.layers.items, ix.shape.layers.items):
        same_layer(v, x, y, "shape of the indexes")
    A, B = v.mem(a), v.mem(t.values)
    v.ensures(t.values.dim == n, "one value per index")
    v.ensures(forall(1, lambda q: imp(0 <= q, q < n, B[q] == If(N[q] < 0, d, A[N[q]])), lambda q: B[q]), "the value named, or the default")


@contract("k2::SubsetRagged", RI, P)
def SubsetRagged(v):
    r = any_ragged(v, 0, 2, 4)
    s = r.shape
    na = num_axes(s)
    q = renumber.param(v, 1)
    a = number(v, 2, -na, na - 1)
    k = a + na if a < 0 else a
    v.requires(q.f["keep_"].dim == tot_size(s, k), "one entry per element of the axis")
    none = v.fork_null(3)
    v.E = None
    if v.verifying:
        if not none:
            v.out_param(3, lambda: v.new_arr(I32, 0, "elem_indexes"))
        ghosts(v, "k2::SubsetRaggedShape")
    c = {}

    def ret():
        c["r"] = renumber.computed(v, 1)
        t = index_new(v, s, k, c["r"].f["num_new_elems_"], "subset")
        return ragged_of(v, t, new_values(v, r, tot_size(t, na - 1)))
    v.body(ret=ret, outs={} if none else {3: lambda: v.new_arr(I32, None, "elem_indexes")})
    q = c.get("r") or renumber.computed(v, 1)
    if v.E is None:
        v.E = sources(v, na, k)
    t = v.result
    index_post(v, s, k, q.f["new2old_"], t.shape, None if none else v.out(3), v.E, n=q.f["num_new_elems_"])
    same_values(v, t, r.values, tot_size(t.shape, na - 1), which(k, na, v.mem(q.f["new2old_"]), v.E))


def _filter(v, keep):
    r = any_ragged(v, 0, 2, 4)
    s = r.shape
    na = num_axes(s)
    x = v.int(1)
    V, n = v.mem(r.values), r.values.dim
    v.requires(n == tot_size(s, na - 1), "one value per element")
    if v.verifying:
        def got(cv):
            v.r = cv.out(1)
        v.after("k2::SubsetRagged", got)

    def ret():
        v.r = done(v, n, lambda i: If(keep(V[i], x), 1, 0))
        t = index_new(v, s, na - 1, v.r.f["num_new_elems_"], "kept")
        return ragged_of(v, t, new_values(v, r, v.r.f["num_new_elems_"]))
    v.body(ret=ret)
    K = v.mem(v.r.f["keep_"])
    v.ensures(And(v.r.f["keep_"].dim == n, forall(1, lambda i: imp(0 <= i, i < n, K[i] == If(keep(V[i], x), 1, 0)), lambda i: K[i])), "which values are kept")
    for what, f in renumber.n2o_facts(v, v.r):
        v.ensures(f, what)
    m, N = v.r.f["num_new_elems_"], v.mem(v.r.f["new2old_"])
    t = v.result
    index_post(v, s, na - 1, v.r.f["new2old_"], t.shape, None, [None], n=m)
    same_values(v, t, r.values, m, lambda q: N[q])
    B = v.mem(t.values)
    v.ensures(forall(1, lambda q: imp(0 <= q, q < m, keep(B[q], x)), lambda q: B[q]), "only values that are to be kept")


@contract("k2::RemoveValuesLeq", RI, P)
def RemoveValuesLeq(v):
    _filter(v, lambda a, x: a > x)


@contract("k2::RemoveValuesEq", RI, P)
def RemoveValuesEq(v):
    _filter(v, lambda a, x: a != x)


@contract("k2::Unsqueeze", RI, ["C03", "C01", "C30"], ptypes={0: is_ragged})
def UnsqueezeRagged(v):
    r = any_ragged(v, 0, 2, 3)
    na = num_axes(r)
    k = number(v, 1, 0, na - 1)
    n = tot_size(r.shape, k)

    def ret():
        l = model.fresh_layer(v.ex, "unsqueezed", z3.IntVal(1) if k == 0 else n, n)
        ls = copy_layers(r.shape.layers.items)
        return ragged_of(v, mk(ls[:k] + [l] + ls[k:]), r.values)
    v.body(ret=ret)
    t = v.result
    v.ensures(num_axes(t) == na + 1, "one more axis")
    for x, y in zip(t.shape.layers.items[:k] + t.shape.layers.items[k + 1:], r.shape.layers.items):
        same_layer(v, x, y, "the other layers are the same")
    l = t.shape.layers.items[k]
    R = v.mem(l.f["row_splits"])
    v.ensures(l.f["cached_tot_size"] == n, "all elements")
    if k == 0:
        v.ensures(And(R[0] == 0, R[1] == n, l.f["row_splits"].dim == 2), "one list holding everything")
    else:
        v.ensures(And(l.f["row_splits"].dim == n + 1, forall(1, lambda i: imp(0 <= i, i <= n, R[i] == i), lambda i: R[i])), "one list per element")
    valid_shape(v, t.shape)
    v.ensures(same_arr(t.values, r.values), "values are the same")

"""Contracts for algorithms.h/.cu: class Renumbering."""
import z3
from engine.contract import *
from engine.contract import contract, forall, imp
from engine import model
from engine.vc import IT, Ptr, NullPtr, Arr, Obj, Rec, Vec, simp, conc, I
from z3 import And, Or, Not, If, Implies, Exists, ForAll

AL = "k2/csrc/algorithms.cu"
PR = ["C01", "C02", "C09", "C12", "C30"]
I32 = ['int', 32, True]
CHAR = ['int', 8, True]
CLS = "k2::Renumbering"


def raw(v, name="renumbering", fresh=False):
    """a Renumbering whose Keep() array is filled, nothing computed yet"""
    n = v.ex.fresh(name + "_old")
    v.ex.assume(n >= 0)
    reg = v.ex.new_region(name + "_keep", CHAR, simp(n + 1), fresh=fresh)
    r = Rec(CLS)
    r.f = dict(keep_=Arr(Ptr(reg, z3.IntVal(0), CHAR), n, CHAR), num_new_elems_=v.ex.fresh("uninit"))
    for f in ("old2new_", "new2old_"):
        r.f[f] = model.default_ctor(v.ex, ['rec', 'k2::Array1<int>'])
    return r


def valid(a):
    return not getattr(a, "invalid", False)


def keep_ok(v, r):
    K, n = v.mem(r.f["keep_"]), r.f["keep_"].dim
    return forall(1, lambda i: imp(0 <= i, i < n, Or(K[i] == 0, K[i] == 1)), lambda i: K[i])


def o2n_facts(v, r):
    """old2new_ counts the elements kept before each"""
    K, n, o = v.mem(r.f["keep_"]), r.f["keep_"].dim, r.f["old2new_"]
    O = v.mem(o)
    return [("one entry per old element, and one more", o.dim == n + 1),
            ("starts at 0", O[0] == 0),
            ("counts the kept elements", forall(1, lambda i: imp(0 <= i, i < n, O[i + 1] == O[i] + K[i]), lambda i: O[i])),
            ("non-decreasing", monotone(O, n + 1)),
            ("number of kept elements", And(r.f["num_new_elems_"] == O[n], 0 <= O[n], O[n] <= n))]


def n2o_facts(v, r):
    n, o, w = r.f["keep_"].dim, r.f["old2new_"], r.f["new2old_"]
    K, O, N = v.mem(r.f["keep_"]), v.mem(o), v.mem(w)
    m = r.f["num_new_elems_"]
    k = lambda f: forall(1, lambda j: imp(0 <= j, j < m, f(j)), lambda j: N[j])
    return [("one entry per kept element", w.dim == m),
            ("the extra element", N[m] == n),
            ("old elements", k(lambda j: And(0 <= N[j], N[j] < n))),
            ("inverse of old2new", k(lambda j: And(O[N[j]] == j, O[N[j] + 1] == j + 1))),
            ("kept", k(lambda j: K[N[j]] == 1)),
            ("every kept element is there", forall(1, lambda i: imp(0 <= i, i < n, K[i] == 1, N[O[i]] == i), lambda i: O[i])),
            ("increasing", forall(2, lambda i, j: imp(0 <= i, i < j, j <= m, N[i] < N[j]), lambda i, j: (N[i], N[j])))]


def longer_n2o(v, r):
    """new2old_ with its extra element"""
    m = r.f["num_new_elems_"]
    reg = v.ex.new_region("new2old", I32, simp(m + 1))
    r.f["new2old_"] = Arr(Ptr(reg, z3.IntVal(0), I32), m, I32)


@contract("k2::Renumbering::ComputeOld2New", AL, PR)
def ComputeOld2New(v):
    r = v.this_rec(lambda: raw(v))
    v.requires(keep_ok(v, r), "Keep() holds 0s and 1s")
    if v.verifying:
        n = r.f["keep_"].dim

        def count(cv):
            O = v.mem(cv.dest)
            v.induction("at most all are kept", lambda i: And(0 <= O[i], O[i] <= i), 0, n + 1, pat=lambda i: O[i])
        v.after("k2::ExclusiveSum", count)
    v.body()
    r = v.ex.load(v.this_loc).copy()
    if not v.verifying:
        r.f["old2new_"] = v.new_arr(I32, simp(r.f["keep_"].dim + 1), "old2new")
        r.f["num_new_elems_"] = v.ex.fresh("num_new")
        v.ex.store(v.this_loc, r)
    for what, f in o2n_facts(v, r):
        v.ensures(f, what)


@contract("k2::Renumbering::ComputeNew2Old", AL, PR)
def ComputeNew2Old(v):
    def mk():
        r = raw(v)
        if v.ex.decide(2):
            r.f["old2new_"] = v.new_arr(I32, simp(r.f["keep_"].dim + 1), "old2new")
            for what, f in o2n_facts(v, r):
                v.ex.assume(f)
        return r
    r = v.this_rec(mk)
    v.requires(keep_ok(v, r), "Keep() holds 0s and 1s")
    v.body()
    r = v.ex.load(v.this_loc).copy()
    if not v.verifying:
        if not valid(r.f["old2new_"]):
            r.f["old2new_"] = v.new_arr(I32, simp(r.f["keep_"].dim + 1), "old2new")
            r.f["num_new_elems_"] = v.ex.fresh("num_new")
            for what, f in o2n_facts(v, r):
                v.ex.assume(f)
        longer_n2o(v, r)
        v.ex.store(v.this_loc, r)
    else:
        R = model.cover(v.ex, v.mem(r.f["old2new_"]), r.f["keep_"].dim)
        N, O = v.mem(r.f["new2old_"]), v.mem(r.f["old2new_"])
        m = r.f["num_new_elems_"]
        v.pull("every new element was written", lambda j: imp(0 <= j, j < m, N[j] == R(j)), lambda j: [IT[1](R(j)), O[R(j)]], lambda j: N[j])
        for what, f in o2n_facts(v, r):
            v.ensures(f, what)
    for what, f in n2o_facts(v, r):
        v.ensures(f, what)


def param(v, k, computed=None):
    """a Renumbering parameter: Keep() filled; the maps not yet / already computed"""
    if v.args[k] is None:
        r = raw(v, v.pnames[k])
        v.ex.assume(keep_ok(v, r))
        c = v.ex.decide(2) if computed is None else computed
        if c:
            r.f["old2new_"] = v.new_arr(I32, simp(r.f["keep_"].dim + 1), "old2new", fresh=False)
            r.f["num_new_elems_"] = v.ex.fresh("num_new")
            for what, f in o2n_facts(v, r):
                v.ex.assume(f)
            longer_n2o(v, r)
            for what, f in n2o_facts(v, r):
                v.ex.assume(f)
        v.args[k] = v.ex.new_cell(r) if v.ptypes[k][0] != 'ptr' else Obj("addr", loc=v.ex.new_cell(r))
        return r
    return v._obj(k)


def computed(v, k, store=True):
    """its maps (call mode: computed now if they were not)"""
    r = v._obj(k)
    if not v.verifying:
        r = r.copy()
        v.requires(keep_ok(v, r), "Keep() holds 0s and 1s")
        if not valid(r.f["old2new_"]):
            r.f["old2new_"] = v.new_arr(I32, simp(r.f["keep_"].dim + 1), "old2new")
            r.f["num_new_elems_"] = v.ex.fresh("num_new")
            for what, f in o2n_facts(v, r):
                v.ex.assume(f)
        if not valid(r.f["new2old_"]):
            longer_n2o(v, r)
            for what, f in n2o_facts(v, r):
                v.ex.assume(f)
        v.set_out(k, r)
    return r

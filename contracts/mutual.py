"""Contracts for the mutual-information (RNN-T lattice) recursions on the CPU."""
import z3
from engine.contract import *
from engine.contract import contract, forall, imp
from engine import contract as ct, model, torchmodel as tm
from engine.vc import EXP, INF, RMUL, I, Obj, simp, Unsupported
from z3 import And, Or, Not, If, Implies, Exists, ForAll
from contracts.sublists import LOGADD

TU = "k2/python/csrc/torch/mutual_information_cpu.cu"
MARK = {n: z3.Function(f"mark{n}", *([I] * (n + 1))) for n in (1, 2, 3)}


def marks(v):
    a, b = z3.Reals("ra rb")
    v.ex.assume(ForAll([a, b], RMUL(a, b) == RMUL(b, a), patterns=[RMUL(a, b)]))
    for n in MARK:
        v.ex.assume(forall(n, lambda *x: MARK[n](*x) == 0, lambda *x: MARK[n](*x)))


def every(n, body):
    """forall x: body(x), instantiated only where the goal speaks about the same x"""
    return forall(n, lambda *x: imp(MARK[n](*x) == 0, body(*x)), lambda *x: MARK[n](*x))


CASES = [(a, b) for a in ("float", "double") for b in ("boundary", "whole")]


def params(v, case, names):
    ex = v.ex
    tm.axioms(ex)
    marks(v)
    v.st = {"float": tm.FLOAT, "double": tm.DOUBLE}[case[0]]
    v.t = {}
    for k, (nm, nd, st) in names.items():
        dims = [ex.fresh(f"{nm}_d{j}") for j in range(nd)]
        for d in dims:
            ex.assume(d >= 0)
        v.t[nm] = tm.tensor(ex, nm, dims, st or v.st, fresh=False)
        v.args[k] = v.t[nm]
    v.given = case[1] == "boundary"
    dims = [ex.fresh("bd0"), ex.fresh("bd1")]
    v.bd = tm.tensor(ex, "boundary", dims, tm.LONG, fresh=False)
    v.args[2] = Obj("opt", val=v.bd if v.given else None)
    px, py, p = [v.t[n].dims for n in ("px", "py", "p")]
    v.B, v.S, v.T = px[0], px[1], py[2]
    v.mod = px[2] == py[2]
    v.o = If(v.mod, z3.IntVal(-1), z3.IntVal(0))
    ok = [py[0] == v.B, py[1] == v.S + 1, Or(v.mod, px[2] == v.T + 1),
          p[0] == v.B, p[1] == v.S + 1, p[2] == v.T + 1]
    if v.given:
        ok += [dims[0] == v.B, dims[1] == 4]
    bd = tm.at(ct.MemView(ex, ex.st.mem), v.bd)
    if v.given:
        v.box = lambda b: [bd(b, z3.IntVal(k)) for k in range(4)]
    else:
        v.box = lambda b: [z3.IntVal(0), z3.IntVal(0), v.S, v.T]

    def inside(b):
        sb, tb, se, te = v.box(b)
        return And(0 <= sb, sb <= se, se <= v.S, 0 <= tb, tb <= te, te <= v.T)
    if v.given:
        v.requires(every(1, lambda b: imp(And(0 <= b, b < v.B), inside(b))), "boundaries lie within the lattice")
    return ok


def cur(s):
    """terms for the current b and its corner points, if the loop over b is entered"""
    b = s.var("b")
    return (b,) + tuple(s.var(n) for n in ("s_begin", "t_begin", "s_end", "t_end"))


def fwd_rows(v, mem, b, upto, what="all"):
    """what the recursion says about sequence b' for all b' in upto"""
    P, X, Y = [tm.at(mem, v.t[n]) for n in ("p", "px", "py")]
    o = v.o
    out = []
    g = lambda c, f: every(3, lambda q, s, t: imp(upto(q), (lambda sb, tb, se, te: imp(c(s, t, sb, tb, se, te), f(q, s, t, sb, tb)))(*v.box(q))))
    out.append(("start is log 1", every(1, lambda q: imp(upto(q), P(q, v.box(q)[0], v.box(q)[1]) == 0))))
    out.append(("first column", g(lambda s, t, sb, tb, se, te: And(sb < s, s <= se, t == tb),
                                  lambda q, s, t, sb, tb: P(q, s, t) == If(v.mod, -INF, P(q, s - 1, t) + X(q, s - 1, t)))))
    out.append(("first row", g(lambda s, t, sb, tb, se, te: And(s == sb, tb < t, t <= te),
                               lambda q, s, t, sb, tb: P(q, s, t) == P(q, s, t - 1) + Y(q, s, t - 1))))
    out.append(("recursion", g(lambda s, t, sb, tb, se, te: And(sb < s, s <= se, tb < t, t <= te),
                               lambda q, s, t, sb, tb: P(q, s, t) == LOGADD(P(q, s - 1, t + o) + X(q, s - 1, t + o), P(q, s, t - 1) + Y(q, s, t - 1)))))
    return out


def fwd_part(s, lim):
    """the same for the sequence being processed, for the cells given by lim(kind, s, t)"""
    v = s.v
    b = s.var("b")
    sb, tb, se, te = v.box(b)
    P, X, Y = [tm.at(s.now, v.t[n]) for n in ("p", "px", "py")]
    o = v.o
    return [("corner", And(*[s.var(n) == x for n, x in zip(("s_begin", "t_begin", "s_end", "t_end"), (sb, tb, se, te))])),
            ("start", P(b, sb, tb) == 0),
            ("column so far", every(3, lambda q, x, t: imp(And(q == b, sb < x, x <= se, t == tb, lim("col", x, t)),
                                                           P(q, x, t) == If(v.mod, -INF, P(q, x - 1, t) + X(q, x - 1, t))))),
            ("row so far", every(3, lambda q, x, t: imp(And(q == b, x == sb, tb < t, t <= te, lim("row", x, t)),
                                                        P(q, x, t) == P(q, x, t - 1) + Y(q, x, t - 1)))),
            ("inside so far", every(3, lambda q, x, t: imp(And(q == b, sb < x, x <= se, tb < t, t <= te, lim("in", x, t)),
                                                           P(q, x, t) == LOGADD(P(q, x - 1, t + o) + X(q, x - 1, t + o), P(q, x, t - 1) + Y(q, x, t - 1)))))]


def fwd_common(s, upto):
    v = s.v
    ans = s.var("ans")
    P, A = tm.at(s.now, v.t["p"]), tm.at(s.now, ans)
    b = s.var("b")
    return [("sequence", And(0 <= b, b <= v.B))] + fwd_rows(v, s.now, b, upto) + \
        [("results so far", every(1, lambda q: imp(upto(q), A(q) == P(q, v.box(q)[2], v.box(q)[3]))))]


def f_b(s):
    b = s.var("b")
    return fwd_common(s, lambda q: And(0 <= q, q < b))


def f_in(var, lim):
    def inv(s):
        b = s.var("b")
        sb, tb, se, te = s.v.box(b)
        x = s.var(var)
        lo, hi = (sb, se) if var == "s" else (tb, te)
        return [("b", And(b < s.v.B, x == x))] + fwd_common(s, lambda q: And(0 <= q, q < b)) + \
            [("index", And(lo < x, x <= hi + 1))] + fwd_part(s, lim(s, sb, tb, se, te))
    return inv


def lim_col(s, *_):
    x = s.var("s")
    return lambda kind, a, t: a < x if kind == "col" else z3.BoolVal(False)


def lim_row(s, *_):
    x = s.var("t")
    return lambda kind, a, t: {"col": z3.BoolVal(True), "row": t < x, "in": z3.BoolVal(False)}[kind]


def lim_s(s, *_):
    x = s.var("s")
    return lambda kind, a, t: a < x if kind == "in" else z3.BoolVal(True)


def f_t(s):
    v = s.v
    b = s.var("b")
    sb, tb, se, te = v.box(b)
    x, y = s.var("s"), s.var("t")
    P = tm.at(s.now, v.t["p"])
    lim = lambda kind, a, t: Or(a < x, And(a == x, t < y)) if kind == "in" else z3.BoolVal(True)
    return [("b", b < v.B)] + fwd_common(s, lambda q: And(0 <= q, q < b)) + \
        [("index", And(sb < x, x <= se, tb < y, y <= te + 1)),
         ("register", s.var("p_s_t1") == P(b, x, y - 1))] + fwd_part(s, lim)


FWD = {0: f_b, 1: f_in("s", lim_col), 2: f_in("t", lim_row), 3: f_in("s", lim_s), 4: f_t, 5: f_in("s", lim_col)}


@contract("k2::MutualInformationCpu", TU, ["C21"], loops=FWD, cases=CASES)
def MutualInformationCpu(v, case):
    ok = params(v, case, {0: ("px", 3, None), 1: ("py", 3, None), 3: ("p", 3, None)})
    v.ex.ghost["valid"] = And(*ok)
    v.body(modifies=[v.t["p"]])
    r = v.result
    B = v.B
    v.ensures(And(z3.BoolVal(len(r.dims) == 1), r.dims[0] == B), "one number per sequence")
    mem = ct.MemView(v.ex, v.ex.st.mem)
    A, P = tm.at(mem, r), tm.at(mem, v.t["p"])
    for nm, f in fwd_rows(v, mem, None, lambda q: And(0 <= q, q < B)):
        v.ensures(f, nm)
    v.ensures(every(1, lambda q: imp(And(0 <= q, q < B), A(q) == P(q, v.box(q)[2], v.box(q)[3]))), "the result is p at the last position")


# ---- backward -------------------------------------------------------------
def deriv(v, mem, q, s, t):
    """derivative of log_add(a, b) with respect to a, at the cell (s, t)"""
    P, X = tm.at(mem, v.t["p"]), tm.at(mem, v.t["px"])
    return EXP((P(q, s - 1, t + v.o) + X(q, s - 1, t + v.o)) - P(q, s, t))


def grads(s):
    return [tm.at(s.now, s.var(n)) for n in ("p_grad", "px_grad", "py_grad")]


def b_final(v, mem, GXY, upto):
    """the gradients of all sequences q with upto(q): every cell's gradient is the sum of what
    flows back along its two outgoing edges; every edge's gradient is the cell's times the
    derivative of log_add"""
    G, X, Y = GXY
    D = tm.at(mem, v.t["ans_grad"])
    o = v.o
    out = []
    g = lambda c, f: every(3, lambda q, s, t: imp(upto(q), (lambda sb, tb, se, te: imp(
        And(sb <= s, s <= se, tb <= t, t <= te, c(s, t, sb, tb, se, te)), f(q, s, t, sb, tb, se, te)))(*v.box(q))))
    up = lambda s, t, se, te: And(s < se, t - o <= te)
    right = lambda t, te: t < te
    out.append(("cells", g(lambda *a: z3.BoolVal(True), lambda q, s, t, sb, tb, se, te: G(q, s, t) ==
                           If(And(s == se, t == te), D(q), 0) + If(up(s, t, se, te), X(q, s, t), 0) + If(right(t, te), Y(q, s, t), 0))))
    out.append(("edges to s + 1", g(lambda s, t, sb, tb, se, te: And(up(s, t, se, te), t - o > tb),
                                    lambda q, s, t, sb, tb, se, te: X(q, s, t) == RMUL(deriv(v, mem, q, s + 1, t - o), G(q, s + 1, t - o)))))
    out.append(("edges to s + 1 in the first column", g(lambda s, t, sb, tb, se, te: And(up(s, t, se, te), t - o <= tb),
                                                        lambda q, s, t, sb, tb, se, te: X(q, s, t) == G(q, s + 1, tb))))
    out.append(("edges to t + 1", g(lambda s, t, sb, tb, se, te: And(right(t, te), s > sb),
                                    lambda q, s, t, sb, tb, se, te: Y(q, s, t) == RMUL(1 - deriv(v, mem, q, s, t + 1), G(q, s, t + 1)))))
    out.append(("edges to t + 1 in the first row", g(lambda s, t, sb, tb, se, te: And(right(t, te), s <= sb),
                                                     lambda q, s, t, sb, tb, se, te: Y(q, s, t) == G(q, sb, t + 1))))
    if v.given:
        out.append(("px outside", every(3, lambda q, s, t: imp(upto(q), (lambda sb, tb, se, te: imp(
            Not(And(sb <= s, tb <= t, up(s, t, se, te))), X(q, s, t) == 0))(*v.box(q))))))
        out.append(("py outside", every(3, lambda q, s, t: imp(upto(q), (lambda sb, tb, se, te: imp(
            Not(And(sb <= s, s <= se, tb <= t, t < te)), Y(q, s, t) == 0))(*v.box(q))))))
    return out


def b_common(s):
    v = s.v
    b = s.var("b")
    G, X, Y = grads(s)
    out = [("sequence", And(0 <= b, b <= v.B))]
    out += b_final(v, s.now, (G, X, Y), lambda q: And(0 <= q, q < b))
    out.append(("later sequences: cells", every(3, lambda q, x, t: imp(q > b, G(q, x, t) == 0))))
    if v.given:
        out.append(("later sequences: px", every(3, lambda q, x, t: imp(q > b, X(q, x, t) == 0))))
        out.append(("later sequences: py", every(3, lambda q, x, t: imp(q > b, Y(q, x, t) == 0))))
    return out


def b_b(s):
    b = s.var("b")
    s.v.p_grad = s.var("p_grad")
    G, X, Y = grads(s)
    out = b_common(s)
    out.append(("this sequence: cells", every(3, lambda q, x, t: imp(q == b, G(q, x, t) == 0))))
    if s.v.given:
        out.append(("this sequence: px", every(3, lambda q, x, t: imp(q == b, X(q, x, t) == 0))))
        out.append(("this sequence: py", every(3, lambda q, x, t: imp(q == b, Y(q, x, t) == 0))))
    return out


def b_part(s, inner, row, col):
    """the sequence being processed; inner(s, t): the cells strictly inside that have been dealt
    with, row(t), col(s): those of the first row, column"""
    v = s.v
    o = v.o
    b = s.var("b")
    sb, tb, se, te = v.box(b)
    G, X, Y = grads(s)
    D = tm.at(s.now, v.t["ans_grad"])
    ins = lambda x, t: And(sb < x, x <= se, tb < t, t <= te, inner(x, t))
    rw = lambda t: And(tb < t, t <= te, row(t))
    cl = lambda x: And(Not(v.mod), sb < x, x <= se, col(x))
    up = lambda x, t: Or(ins(x + 1, t - o), And(t == tb, cl(x + 1)))
    right = lambda x, t: Or(ins(x, t + 1), And(x == sb, rw(t + 1)))
    g = lambda c, f: every(3, lambda q, x, t: imp(And(q == b, sb <= x, x <= se, tb <= t, t <= te, c(x, t)), f(x, t)))
    out = [("corner", And(*[s.var(n) == x for n, x in zip(("s_begin", "t_begin", "s_end", "t_end"), (sb, tb, se, te))], b < v.B)),
           ("cells so far", g(lambda x, t: z3.BoolVal(True), lambda x, t: G(b, x, t) ==
                              If(And(x == se, t == te), D(b), 0) + If(up(x, t), X(b, x, t), 0) + If(right(x, t), Y(b, x, t), 0))),
           ("inner edges to s + 1", g(lambda x, t: ins(x + 1, t - o), lambda x, t: X(b, x, t) == RMUL(deriv(v, s.now, b, x + 1, t - o), G(b, x + 1, t - o)))),
           ("inner edges to t + 1", g(lambda x, t: ins(x, t + 1), lambda x, t: Y(b, x, t) == RMUL(1 - deriv(v, s.now, b, x, t + 1), G(b, x, t + 1)))),
           ("first row", g(lambda x, t: And(x == sb, rw(t + 1)), lambda x, t: Y(b, x, t) == G(b, sb, t + 1))),
           ("first column", g(lambda x, t: And(t == tb, cl(x + 1)), lambda x, t: X(b, x, t) == G(b, x + 1, tb)))]
    if v.given:
        out += [("px elsewhere", every(3, lambda q, x, t: imp(And(q == b, Not(And(sb <= x, x < se, tb <= t, t <= te, up(x, t)))), X(q, x, t) == 0))),
                ("py elsewhere", every(3, lambda q, x, t: imp(And(q == b, Not(And(sb <= x, x <= se, tb <= t, t < te, right(x, t)))), Y(q, x, t) == 0)))]
    return out


NO = lambda *a: z3.BoolVal(False)
YES = lambda *a: z3.BoolVal(True)


def b_s(s):
    x = s.var("s")
    sb, tb, se, te = s.v.box(s.var("b"))
    return b_common(s) + [("index", And(sb <= x, x <= se))] + b_part(s, lambda a, t: a > x, NO, NO)


def b_t(s):
    x, y = s.var("s"), s.var("t")
    sb, tb, se, te = s.v.box(s.var("b"))
    return b_common(s) + [("index", And(sb < x, x <= se, tb <= y, y <= te))] + \
        b_part(s, lambda a, t: Or(a > x, And(a == x, t > y)), NO, NO)


def b_row(s):
    y = s.var("t")
    sb, tb, se, te = s.v.box(s.var("b"))
    return b_common(s) + [("index", And(tb <= y, y <= te))] + b_part(s, YES, lambda t: t > y, NO)


def b_col(s):
    x = s.var("s")
    sb, tb, se, te = s.v.box(s.var("b"))
    return b_common(s) + [("index", And(sb <= x, x <= se))] + b_part(s, YES, YES, lambda a: a > x)


@contract("k2::MutualInformationBackwardCpu", TU, ["C21"], loops={0: b_b, 1: b_s, 2: b_t, 3: b_row, 4: b_col}, cases=CASES, opts={"opaque_mul": True})
def MutualInformationBackwardCpu(v, case):
    ok = params(v, case, {0: ("px", 3, None), 1: ("py", 3, None), 3: ("p", 3, None), 4: ("ans_grad", 1, None)})
    v.requires(v.t["ans_grad"].dims[0] == v.B, "one output gradient per sequence")
    v.ex.ghost["valid"] = And(*ok)
    v.body()
    gx, gy = v.result.items
    mem = ct.MemView(v.ex, v.ex.st.mem)
    px, py = v.t["px"].dims, v.t["py"].dims
    v.ensures(And(z3.BoolVal(len(gx.dims) == 3 and len(gy.dims) == 3), *[a == b for a, b in zip(gx.dims + gy.dims, px + py)]), "gradients have the inputs' shapes")
    G = tm.at(mem, v.p_grad)     # the gradients of the cells (a local tensor of the function)
    for nm, f in b_final(v, mem, (G, tm.at(mem, gx), tm.at(mem, gy)), lambda q: And(0 <= q, q < v.B)):
        v.ensures(f, nm)

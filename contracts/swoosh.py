"""Contracts for the swoosh activations."""
import struct
from fractions import Fraction

import z3
from engine.contract import *
from engine.contract import contract, forall, imp
from engine import contract as ct, torchmodel as tm
from engine.vc import EXP, LOG, LOG1P, Obj, Ptr, Vec, simp, Unsupported
from z3 import And, Or, Not, If, Implies, Exists, ForAll

TU = "k2/python/csrc/torch/v2/autograd/swoosh.cu"


def F(x):
    """the float nearest to x"""
    return z3.RealVal(str(Fraction(struct.unpack("f", struct.pack("f", x))[0])))


KIND = {"SwooshLConstants": (F(4), F(0.08), F(0.035)), "SwooshRConstants": (F(1), F(0.08), F(0.313261687))}


def facts(v):
    x = z3.Real("rx")
    v.define(ForAll([x], EXP(x) > 0, patterns=[EXP(x)]))
    v.define(ForAll([x], imp(x > -1, LOG1P(x) == LOG(1 + x)), patterns=[LOG1P(x)]))
    v.define(EXP(z3.RealVal(0)) == 1)


def consts(v):
    t = str(v.fn.get("targs")) + str(v.fn.get("cls"))
    for k, c in KIND.items():
        if k in t:
            return c
    raise Unsupported(f"swoosh constants {t}")


def data(v, t):
    return ct.MemView(v.ex, v.ex.st.mem)(Ptr(t.region, z3.IntVal(0), t.ty))


def swoosh(c, x, y):
    """log(1 + exp(x - shift)) - coeff x - offset; x - shift for the logarithm where that overflows"""
    shift, coeff, offset = c
    l = LOG(1 + EXP(x - shift))
    return Or(y == l - coeff * x - offset, And(tm.ISINF(l), y == (x - shift) - coeff * x - offset))


def near(a, b):
    """equal up to the rounding of the constants"""
    e = z3.RealVal("1/1000000")
    return And(a - b <= e, b - a <= e)


def tensor_in(v, k, name):
    n = v.ex.fresh("n")
    v.ex.assume(n >= 0)
    t = tm.flat(v.ex, name, n, tm.FLOAT, fresh=False)
    v.args[k] = t
    v.requires(n < 2 ** 31, "number of elements fits an int32")
    return t


@contract("k2::SwooshForward", TU, ["C26", "C30"])
def SwooshForward(v):
    facts(v)
    x = tensor_in(v, 0, "x")
    c = consts(v)
    v.body()
    y = v.result
    v.ensures(And(y.n == x.n, y.shape == x.shape), "shape of the input")
    X, Y = data(v, x), data(v, y)
    v.ensures(forall(1, lambda i: imp(And(0 <= i, i < x.n), swoosh(c, X[i], Y[i])), lambda i: Y[i]), "formula")


@contract("k2::SwooshForwardAndDeriv", TU, ["C26", "C30"])
def SwooshForwardAndDeriv(v):
    facts(v)
    x = tensor_in(v, 0, "x")
    c = consts(v)
    v.body()
    y, d = v.result.first, v.result.second
    v.ensures(And(y.n == x.n, y.shape == x.shape, d.n == x.n, d.shape == x.shape), "shape of the input")
    X, Y, D = data(v, x), data(v, y), data(v, d)
    v.ensures(forall(1, lambda i: imp(And(0 <= i, i < x.n), swoosh(c, X[i], Y[i])), lambda i: Y[i]), "formula")
    v.ensures(forall(1, lambda i: imp(And(0 <= i, i < x.n), near(D[i], (1 - c[1]) - 1 / (1 + EXP(X[i] - c[0])))), lambda i: D[i]), "derivative")


STEP = z3.simplify(F(1.005) / 255)


@contract("k2::SwooshFunction::forward", TU, ["C26", "C30"])
def SwooshFunctionForward(v):
    facts(v)
    ex = v.ex
    v.args[0] = Obj("addr", loc=ex.new_cell(Obj("actx", saved_data=Obj("kv", dropout_prob=None))))
    x = tensor_in(v, 1, "x")
    grad = ex.decide(2) == 0
    x.requires_grad = z3.BoolVal(grad)
    p = v.int(2)
    v.requires(And(0 <= p, p < 1), "a probability below 1")
    shift, coeff, offset = c = consts(v)
    v.body()
    y = v.result
    v.ensures(And(y.n == x.n, y.shape == x.shape), "shape of the input")
    X, Y = data(v, x), data(v, y)
    if not grad:
        v.ensures(forall(1, lambda i: imp(And(0 <= i, i < x.n), swoosh(c, X[i], Y[i])), lambda i: Y[i]), "formula")
        return
    g = ex.ghost["saved"].items[0]
    v.ensures(And(g.n == x.n, g.shape == x.shape), "one byte of derivative per element")
    G = data(v, g)
    d = lambda i: 1 - 1 / (1 + EXP(X[i] - shift))     # derivative plus coeff
    step = lambda i, e: And(z3.ToReal(G[i]) * STEP - e <= STEP, e - z3.ToReal(G[i]) * STEP <= STEP)
    v.ensures(forall(1, lambda i: imp(And(0 <= i, i < x.n), And(0 <= G[i], G[i] <= 255)), lambda i: G[i]), "the byte does not overflow")
    v.ensures(forall(1, lambda i: imp(And(0 <= i, i < x.n), Or(And(step(i, d(i)), Or(p == 0, swoosh(c, X[i], Y[i] * (1 - p)))), And(p > 0, Y[i] == 0, step(i, coeff)))), lambda i: G[i]),
              "the byte is the derivative to within one step, zero derivative for a dropped element")
    v.ensures(forall(1, lambda i: imp(And(0 <= i, i < x.n), Or(And(p > 0, Y[i] == 0), swoosh(c, X[i], Y[i] * (1 - p)))), lambda i: Y[i]),
              "formula times 1/(1-p), or zero for a dropped element")


@contract("k2::SwooshFunction::backward", TU, ["C26", "C30"])
def SwooshFunctionBackward(v):
    ex = v.ex
    p = ex.fresh("dropout", z3.RealSort())
    v.requires(And(0 <= p, p < 1), "a probability below 1")
    n, shape = ex.fresh("n"), ex.fresh("shape")
    v.requires(And(0 <= n, n < 2 ** 31), "number of elements fits an int32")
    g = tm.flat(ex, "g", n, tm.BYTE, shape, fresh=False, bounds=(0, 256))
    og = tm.flat(ex, "y_grad", n, tm.FLOAT, shape, fresh=False)
    v.args[0] = Obj("addr", loc=ex.new_cell(Obj("actx", saved_data=Obj("kv", dropout_prob=p), vars=Vec(['rec', 'at::Tensor'], [g]))))
    v.args[1] = Vec(['rec', 'at::Tensor'], [og])
    shift, coeff, offset = consts(v)
    v.body()
    r = v.result.items[0]
    v.ensures(And(r.n == n, r.shape == shape), "shape of the input")
    G, O, D = data(v, g), data(v, og), data(v, r)
    v.ensures(forall(1, lambda i: imp(And(0 <= i, i < n), D[i] == O[i] * ((z3.ToReal(G[i]) * STEP - coeff) / (1 - p))), lambda i: D[i]),
              "output gradient times the decoded derivative")

"""C26: swoosh_l and swoosh_r: value and derivative, in training and in inference."""
import math

import k2
import torch

from oracle.core import group

P = "C26"
CONST = {"l": (4.0, 0.035), "r": (1.0, 0.313261687)}
Q = 1.005 / 255          # step of the 8-bit derivatives


def value(k, x):
    s, o = CONST[k]
    y = torch.logaddexp(torch.zeros_like(x), x - s)
    return y - 0.08 * x - o


def deriv(k, x):
    return torch.sigmoid(x - CONST[k][0]) - 0.08


def rand_shape(t):
    return t.choice([(), (0,), (1,), (t.int(1, 40),), (t.int(1, 9), 1), (1, t.int(1, 9)), (t.int(0, 5), t.int(1, 6)),
                     (t.int(1, 4), t.int(1, 4), t.int(1, 4)), (1, 1, t.int(1, 5), 1), (t.int(1, 3), t.int(0, 3), 1, 2)])


def rand_x(t, shape):
    """a float tensor of the shape, in a random memory layout"""
    n = math.prod(shape)
    spread = t.choice([0.5, 3, 20, 200])
    v = [t.choice([t.rng.uniform(-spread, spread), t.rng.gauss(0, 1), t.rng.uniform(3.9, 4.1), t.rng.uniform(80, 110),
                   t.choice([0.0, -0.0, 4.0, 1.0, 1e-30, 30.0, 88.7, 92.72, 92.8, 100.0, -100.0, 1e4, -1e4, 1e6])])
         for _ in range(n)]
    dt = t.choice([torch.float32] * 6 + [torch.float64, torch.float16])
    x = torch.tensor(v, dtype=torch.float32).clamp(-6e4, 6e4).to(dt).reshape(shape)
    return layout(t, x), dt


def layout(t, x):
    k = t.int(0, 4)
    if x.dim() == 0:
        return x
    if k == 0:                                   # every second element of something larger
        big = torch.full(x.shape[:-1] + (2 * x.shape[-1] + 1,), 7.0, dtype=x.dtype)
        y = big[..., 1::2]
        y.copy_(x)
        return y
    if k == 1:                                   # permuted memory
        d = list(range(x.dim()))
        t.rng.shuffle(d)
        inv = [d.index(i) for i in range(len(d))]
        return x.permute(d).contiguous().permute(inv)
    if k == 2:                                   # dimensions of size one with odd strides
        y = x.contiguous().clone(memory_format=torch.contiguous_format)
        st = [s if n != 1 else t.int(1, 9) for n, s in zip(y.shape, y.stride())]
        return y.as_strided(y.shape, st)
    return x


def tol_of(x, y):
    return 2e-6 + 4e-7 * (x.abs() + y.abs())


def near(t, got, want, tol, what, x):
    t.eq(tuple(got.shape), tuple(want.shape), f"{what}: shape")
    bad = ~((got.double() - want.double()).abs() <= tol)
    if bool(bad.any()):
        i = bad.flatten().nonzero()[0].item()
        t.ok(False, f"{what}: at x={x.flatten()[i].item()!r} got {got.flatten()[i].item()!r}, "
                    f"expected {want.flatten()[i].item()!r}")


@group(P, 400, thorough=6000)
def forward(t):
    k = t.choice("lr")
    x, dt = rand_x(t, rand_shape(t))
    t.note(kind=k, x=x.tolist(), dtype=str(dt), strides=x.stride())
    before = x.clone()
    xd = x.double()
    want = value(k, xd)
    tol = tol_of(xd, want)
    outs = [("swoosh (inference)", getattr(k2, "swoosh_" + k)(x)),
            ("swoosh (inference, dropout)", getattr(k2, "swoosh_" + k)(x, t.choice([0.0, 0.5]))),
            ("forward", getattr(k2, f"swoosh_{k}_forward")(x))]
    y, d = getattr(k2, f"swoosh_{k}_forward_and_deriv")(x)
    outs.append(("forward_and_deriv", y))
    for what, y in outs:
        t.eq(y.dtype, torch.float32, f"{what}: dtype")
        near(t, y, want, tol, what, x)
    near(t, d, deriv(k, xd), 1e-6 + 0 * xd, "derivative", x)
    t.ok(torch.equal(x, before), "input")


@group(P, 400, thorough=6000)
def training(t):
    """value and stored derivative under autograd"""
    k = t.choice("lr")
    shape = rand_shape(t)
    x, dt = rand_x(t, shape)
    p = t.choice([0.0, 0.0, 0.25, 0.5])
    w, _ = rand_x(t, shape)
    w = w.float().clamp(-3, 3)
    how = t.choice(["direct", "transposed", "sum", "strided"])
    t.note(kind=k, x=x.tolist(), dtype=str(dt), strides=x.stride(), dropout=p, grad=w.tolist(), how=how)
    leaf = x.detach()
    leaf.requires_grad_(True)
    before = leaf.detach().clone()
    torch.manual_seed(t.int(0, 10 ** 6))
    y = getattr(k2, "swoosh_" + k)(leaf, p) if t.bool() or p else getattr(k2, "swoosh_" + k)(leaf)
    t.eq(y.dtype, torch.float32, "dtype")
    xd = before.double()
    want = value(k, xd)
    got = y.detach()
    t.eq(tuple(got.shape), tuple(shape), "shape")
    dropped = torch.zeros(shape, dtype=torch.bool)
    if p:
        dropped = (got == 0) & ((want / (1 - p)).abs() > 1e-3)
        want = torch.where(dropped, torch.zeros_like(want), want / (1 - p))
        got = torch.where((want.abs() <= 2e-3) & (got == 0), want, got.double())
    near(t, got, want, tol_of(xd, want) * 2, "value", before)
    if how == "sum":
        w = torch.ones(shape)
        y.sum().backward()
    elif how == "transposed" and len(shape) >= 2:
        wt = w.transpose(-1, 0).contiguous()
        (y.transpose(-1, 0) * wt).sum().backward()
    elif how == "strided":
        y.backward(layout(t, w.clone()))
    else:
        (y * w.clone()).sum().backward()
    d = torch.where(dropped, torch.zeros_like(xd), deriv(k, xd) / (1 - p))
    if p:                                      # an output of zero leaves open whether it was dropped
        amb = (want.abs() <= 1e-3) & ~dropped
    else:
        amb = torch.zeros(shape, dtype=torch.bool)
    tol = w.double().abs() * (Q * 1.01 / (1 - p) + 1e-5) + 1e-6
    if dt == torch.float16:
        tol = tol * 1.2 + 5e-3
    g = leaf.grad
    t.eq(tuple(g.shape), tuple(shape), "shape of the gradient")
    near(t, torch.where(amb, torch.zeros_like(xd), g.double()), torch.where(amb, torch.zeros_like(xd), w.double() * d), tol,
         "gradient", before)
    t.ok(torch.equal(leaf.detach(), before), "input")


@group(P, 12, thorough=60)
def averages(t):
    """the 8-bit derivatives are unbiased; dropout keeps the asked fraction and the mean"""
    k = t.choice("lr")
    v = t.choice([-5.0, -1.0, 0.0, 0.7, 1.3, 2.0, 4.0, 4.9, 9.0])
    n = 20000
    p = t.choice([0.0, 0.3, 0.6])
    t.note(kind=k, x=v, dropout=p)
    torch.manual_seed(t.int(0, 10 ** 6))
    x = torch.full((n,), v, requires_grad=True)
    y = getattr(k2, "swoosh_" + k)(x, p)
    y.sum().backward()
    z = torch.full((1,), v, dtype=torch.float64)
    sd = 6 / n ** 0.5
    want, d = float(value(k, z)), float(deriv(k, z))
    if p and abs(want) > 1e-3:
        frac = float((y == 0).double().mean())
        t.ok(abs(frac - p) < sd, f"fraction of dropped elements {frac}, asked {p}")
    t.ok(abs(float(y.double().mean()) - want) < 1e-5 + (abs(want) * sd * (p / (1 - p)) ** 0.5 if p else 0), "mean of the values")
    t.ok(abs(float(x.grad.double().mean()) - d) < 1e-6 + sd * (Q / 2 / (1 - p) + abs(d) * ((p / (1 - p)) ** 0.5)), "mean of the gradients")

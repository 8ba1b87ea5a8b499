"""C21: transducer recursion and losses."""
import k2
import torch

from oracle import rnnt as R
from oracle.core import group, short

P = "C21"
INF = float("inf")
NAN = float("nan")
TYPES = ["regular", "modified", "constrained"]


def say(*a):
    return " ".join(x if isinstance(x, str) else short(x) for x in a)


def rnd(t, *shape, scale=2.0):
    g = torch.Generator().manual_seed(t.int(0, 1 << 30))
    return torch.randn(*shape, generator=g, dtype=torch.float64) * scale


def grad_ok(t, name, got, want, inside, tol=2e-4):
    """gradients: equal the reference ones (None = never used = 0); outside the boundary exactly nothing"""
    got = got.to(torch.float64)
    want = torch.zeros_like(got) if want is None else want
    t.ok(bool(torch.isfinite(got).all()), say(name, "has NaN or inf", got))
    t.ok(bool(((got - want).abs() <= tol * (1 + want.abs())).all()), say(name, got, "expected", want))


@group(P, 160, thorough=2000, name="recursion")
def recursion(t):
    modified = t.bool()
    dt = t.choice([torch.float32, torch.float64])
    B, S, T = t.int(1, 4), t.int(0, 5), t.int(1, 6)
    if t.bool(0.1):
        S, T = t.int(0, 20), t.int(1, 25)
    px, py = rnd(t, B, S, T if modified else T + 1, scale=t.choice([0.5, 3.0, 20.0])), rnd(t, B, S + 1, T)
    if t.bool(0.3):  # some impossible arcs
        g = torch.Generator().manual_seed(t.int(0, 1 << 30))
        for x in (px, py):
            x[torch.rand(x.shape, generator=g) < 0.15] = -INF
    px, py = px.to(dt).double(), py.to(dt).double()
    use_b = t.bool(0.6)
    bnd = R.rand_boundary(t, B, S, T, modified) if use_b else [[0, 0, S, T]] * B
    if modified and not use_b and S > T:
        return
    t.note(modified=modified, dtype=str(dt), B=B, S=S, T=T, boundary=bnd if use_b else None)
    kx, ky = px.clone(), py.clone()
    # whatever lies outside the boundary must not matter
    if use_b and t.bool(0.7):
        for b, (s0, t0, s1, t1) in enumerate(bnd):
            for s in range(S):
                for u in range(kx.shape[2]):
                    if not (s0 <= s < s1 and t0 <= u <= t1):
                        kx[b, s, u] = t.choice([50.0, -INF, 7.0])
            for s in range(S + 1):
                for u in range(T):
                    if not (s0 <= s <= s1 and t0 <= u < t1):
                        ky[b, s, u] = t.choice([50.0, -INF, 7.0])
    kx, ky = kx.to(dt), ky.to(dt)
    if t.bool(0.3):  # not contiguous
        kx = kx.transpose(0, 2).contiguous().transpose(0, 2)
        ky = torch.stack([ky, ky], -1)[..., 0]
    kx.requires_grad_(True)
    ky.requires_grad_(True)
    b = torch.tensor(bnd, dtype=torch.int64) if use_b else None
    rg = t.bool(0.4)
    got = k2.mutual_information_recursion(kx, ky, b, rg)
    if rg:
        got, (gx, gy) = got
    px.requires_grad_(True)
    py.requires_grad_(True)
    want = [R.total(lambda s, u: px[i, s, u], lambda s, u: py[i, s, u], bnd[i], modified) for i in range(B)]
    tol = 1e-5 if dt == torch.float64 else 2e-4
    t.eq(list(got.shape), [B], "shape or type")
    t.eq(got.dtype, dt, "shape or type")
    live = [w is not None for w in want]
    for i in range(B):
        w = float(want[i].detach()) if live[i] else -INF
        t.ok(R.close(float(got[i].detach()), w, tol), say("score", i, float(got[i].detach()), "expected", w))
    if all(live):
        ws = rnd(t, B)
        ref = torch.stack(want)
        ex = torch.autograd.grad(ref.sum(), [px, py], retain_graph=True, allow_unused=True) if ref.requires_grad else (None, None)
        if rg:
            grad_ok(t, "px_grad", gx, ex[0], None, 10 * tol)
            grad_ok(t, "py_grad", gy, ex[1], None, 10 * tol)
        ew = torch.autograd.grad((ref * ws).sum(), [px, py], allow_unused=True) if ref.requires_grad else (None, None)
        (got * ws.to(dt)).sum().backward()
        grad_ok(t, "grad of px", kx.grad, ew[0], None, 10 * tol)
        grad_ok(t, "grad of py", ky.grad, ew[1], None, 10 * tol)


@group(P, 60, thorough=800, name="enumerated")
def enumerated(t):
    """the score against an explicit list of the alignments"""
    modified = t.bool()
    S, T = t.int(0, 3), t.int(1, 5)
    if modified:
        S = min(S, T)
    px, py = rnd(t, 1, S, T if modified else T + 1), rnd(t, 1, S + 1, T)
    bnd = R.rand_boundary(t, 1, S, T, modified)[0] if t.bool() else [0, 0, S, T]
    t.note(modified=modified, S=S, T=T, boundary=bnd)
    sc = [sum(float(px[0, s, u] if k == "x" else py[0, s, u]) for k, s, u in p) for p in R.paths(bnd, modified)]
    want = float(torch.logsumexp(torch.tensor(sc, dtype=torch.float64), 0)) if sc else -INF
    got = k2.mutual_information_recursion(px, py, torch.tensor([bnd]))
    t.close(float(got[0]), want, "value", 1e-6, 1e-6)


@group(P, 40, thorough=500, name="joint")
def joint(t):
    modified = t.bool()
    N, B, S, T = t.int(1, 3), t.int(1, 3), t.int(0, 4), t.int(1, 5)
    if modified:
        S = min(S, T)
    dt = t.choice([torch.float32, torch.float64])
    px = [rnd(t, B, S, T if modified else T + 1).to(dt) for _ in range(N)]
    py = [rnd(t, B, S + 1, T).to(dt) for _ in range(N)]
    use_b = t.bool()
    bnd = R.rand_boundary(t, B, S, T, modified) if use_b else [[0, 0, S, T]] * B
    t.note(N=N, modified=modified, B=B, S=S, T=T, boundary=bnd)
    rx, ry = [x.double().requires_grad_(True) for x in px], [x.double().requires_grad_(True) for x in py]
    kx, ky = [x.detach().clone().requires_grad_(True) for x in px], [x.detach().clone().requires_grad_(True) for x in py]
    got = k2.joint_mutual_information_recursion(kx, ky, torch.tensor(bnd) if use_b else None)
    sx, sy = sum(rx), sum(ry)
    tot = [R.total(lambda s, u: sx[i, s, u], lambda s, u: sy[i, s, u], bnd[i], modified) for i in range(B)]
    if any(w is None for w in tot):
        return
    tot = torch.stack(tot)
    if not tot.requires_grad:
        t.ok(bool((got.abs() < 1e-4).all()), say("empty", got))
        return
    ox, oy = torch.autograd.grad(tot.sum(), [sx, sy], allow_unused=True)
    ox = torch.zeros_like(sx) if ox is None else ox
    oy = torch.zeros_like(sy) if oy is None else oy
    t.eq(list(got.shape), [N, B], "shape or type")
    g = got.detach().double()
    for i in range(B):
        t.close(float(g[:, i].sum()), float(tot[i]), "value", 3e-4, 3e-4)
        for n in range(1, N):
            w = float((ox[i] * rx[n][i]).sum() + (oy[i] * ry[n][i]).sum())
            t.close(float(g[n, i]), w, "value", 3e-4, 3e-4)
    got.sum().backward()
    for n in range(N):
        grad_ok(t, "px[%d]" % n, kx[n].grad, ox, None, 1e-3)
        grad_ok(t, "py[%d]" % n, ky[n].grad, oy, None, 1e-3)


def ref_logprobs(lm, am, ls=0.0, as_=0.0):
    """log-probabilities (B, S+1, T, C) of the simple joiner, smoothed as documented"""
    x = torch.log_softmax(lm.unsqueeze(2) + am.unsqueeze(1), -1)
    if ls or as_:
        uni = torch.softmax(lm, -1).mean((0, 1)).log()
        lo = torch.log_softmax(lm, -1).unsqueeze(2)
        ao = torch.log_softmax(am + uni, -1).unsqueeze(1)
        x = (1 - ls - as_) * x + ls * lo + as_ * ao
    return x


def ref_loss(lp, sym, term, bnd, kind, pen, given):
    """per-sequence log-likelihoods from lp(b, s, t, c) (torch double, (B, S+1, T, C))"""
    B = len(sym)
    T = lp.shape[2]
    out = []
    for b in range(B):
        t1 = bnd[b][3]

        def px(s, u):
            if u >= (t1 if kind == "regular" else T):
                return None
            w = lp[b, s, u, int(sym[b, s])]
            if kind == "constrained":
                w = w + lp[b, s + 1, u, term]
            if pen > 0:
                w = w + pen * (((t1 if given else T) - 1) / 2 - u)
            return w
        out.append(R.total(px, lambda s, u: lp[b, s, u, term], bnd[b], kind != "regular"))
    return out


def loss_setup(t):
    kind = t.choice(TYPES)
    B, S, T, C = t.int(1, 3), t.int(0, 4), t.int(1, 6), t.int(2, 5)
    if t.bool(0.05):
        B, S, T, C = 2, t.int(5, 15), t.int(5, 20), 6
    mod = kind != "regular"
    if mod:
        S = min(S, T)
    term = t.int(0, C - 1)
    sym = torch.tensor([[t.int(0, C - 1) for _ in range(S)] for _ in range(B)], dtype=torch.int64).reshape(B, S)
    given = t.bool(0.6)
    bnd = R.rand_boundary(t, B, S, T, mod) if given else [[0, 0, S, T]] * B
    pen = t.choice([0.0, 0.0, 0.3, 2.0])
    dt = t.choice([torch.float32, torch.float64])
    red = t.choice(["none", "mean", "sum"])
    t.note(kind=kind, B=B, S=S, T=T, C=C, term=term, symbols=sym.tolist(), boundary=bnd if given else None, pen=pen, dtype=str(dt), reduction=red)
    return kind, B, S, T, C, term, sym, given, bnd, pen, dt, red


def compare(t, ll, loss, red, inputs, refs, dt, grads=None, pxy=None):
    tol = 5e-4 if dt == torch.float32 else 1e-5
    inf = [w is None for w in ll]
    vals = [INF if w is None else -float(w.detach()) for w in ll]
    if red == "none":
        t.eq(list(loss.shape), [len(ll)], "shape or type")
        for i, v in enumerate(vals):
            t.ok(R.close(float(loss[i].detach()), v, tol), say("loss", i, float(loss[i].detach()), "expected", v))
    else:
        v = sum(vals) / (len(vals) if red == "mean" else 1)
        t.eq(list(loss.shape), [], "shape or type")
        t.ok(R.close(float(loss.detach()), v, tol), say(red, float(loss.detach()), "expected", v))
    if any(inf):
        return
    tot = -torch.stack(ll)
    tot = tot.mean() if red == "mean" else tot.sum()
    if not tot.requires_grad:
        return
    want = torch.autograd.grad(tot, refs, allow_unused=True)
    got = torch.autograd.grad(loss.sum() if red == "none" else loss, inputs)
    for i, (g, w) in enumerate(zip(got, want)):
        grad_ok(t, "grad of input %d" % i, g, w, None, 10 * tol)


@group(P, 120, thorough=1500, name="simple")
def simple(t):
    kind, B, S, T, C, term, sym, given, bnd, pen, dt, red = loss_setup(t)
    lm, am = rnd(t, B, S + 1, C).to(dt).double(), rnd(t, B, T, C).to(dt).double()
    smooth = t.bool(0.5)
    ls, as_ = (t.choice([0.0, 0.1, 0.5]), t.choice([0.0, 0.1, 0.25])) if smooth else (0.0, 0.0)
    t.note(smoothed=smooth, lm_scale=ls, am_scale=as_)
    klm, kam = lm.to(dt).requires_grad_(True), am.to(dt).requires_grad_(True)
    lm.requires_grad_(True)
    am.requires_grad_(True)
    b = torch.tensor(bnd, dtype=torch.int64) if given else None
    rg = t.bool(0.3)
    kw = dict(lm=klm, am=kam, symbols=sym, termination_symbol=term, boundary=b, rnnt_type=kind, delay_penalty=pen, reduction=red, return_grad=rg)
    if smooth:
        got = k2.rnnt_loss_smoothed(lm_only_scale=ls, am_only_scale=as_, **kw)
    else:
        got = k2.rnnt_loss_simple(**kw)
    if rg:
        got, (gx, gy) = got
        t.eq(list(gx.shape), [B, S, T + (kind == "regular")], "shape or type")
        t.eq(list(gy.shape), [B, S + 1, T], "shape or type")
    lp = ref_logprobs(lm, am, ls, as_)
    ll = ref_loss(lp, sym, term, bnd, kind, pen, given)
    if rg and all(w is not None for w in ll):
        # occupation probabilities: symbol arcs total one per symbol, next-frame arcs one per frame left over
        for i, (s0, t0, s1, t1) in enumerate(bnd):
            ny = t1 - t0 - (0 if kind == "regular" else s1 - s0)
            t.close(float(gx[i].double().sum()), s1 - s0, "value", 1e-3, 1e-3)
            t.close(float(gy[i].double().sum()), ny, "value", 1e-3, 1e-3)
    compare(t, ll, got, red, [klm, kam], [lm, am], dt)


@group(P, 80, thorough=1000, name="joiner")
def joiner(t):
    kind, B, S, T, C, term, sym, given, bnd, pen, dt, red = loss_setup(t)
    lg = rnd(t, B, T, S + 1, C).to(dt).double()
    k = lg.to(dt).requires_grad_(True)
    lg.requires_grad_(True)
    b = torch.tensor(bnd, dtype=torch.int64) if given else None
    got = k2.rnnt_loss(logits=k, symbols=sym, termination_symbol=term, boundary=b, rnnt_type=kind, delay_penalty=pen, reduction=red)
    lp = torch.log_softmax(lg, -1).permute(0, 2, 1, 3)
    compare(t, ref_loss(lp, sym, term, bnd, kind, pen, given), got, red, [k], [lg], dt)


@group(P, 30, thorough=300, name="batch")
def batch(t):
    """each sequence of a batch gets what it gets alone; padding does not matter"""
    kind, B, S, T, C, term, sym, given, bnd, pen, dt, red = loss_setup(t)
    lg = rnd(t, B, T, S + 1, C).to(dt)
    kw = dict(termination_symbol=term, rnnt_type=kind, delay_penalty=pen, reduction="none")
    rows = [[0, 0, r[2], r[3]] for r in bnd]
    if kind != "regular" and any(r[2] > r[3] for r in rows):
        return
    got = k2.rnnt_loss(logits=lg, symbols=sym, boundary=torch.tensor(rows), **kw)
    for i, (_, _, s1, t1) in enumerate(rows):
        if t1 == 0:
            continue
        one = k2.rnnt_loss(logits=lg[i:i + 1, :t1, :s1 + 1], symbols=sym[i:i + 1, :s1], **kw)
        t.ok(R.close(float(got[i]), float(one[0]), 5e-4), say(i, float(got[i]), "alone", float(one[0])))


@group(P, 20, thorough=100, name="refusals")
def refusals(t):
    S = t.int(1, 4)
    T = t.int(1, S)
    lm, am, sym = rnd(t, 1, S + 1, 3), rnd(t, 1, T, 3), torch.zeros(1, S, dtype=torch.int64)
    if T < S:
        for kind in ("modified", "constrained"):
            t.raises(lambda: k2.rnnt_loss_simple(lm, am, sym, 0, None, kind), "refused")
    px, py = rnd(t, 1, S, T + 1), rnd(t, 1, S + 1, T)
    bad = t.choice([[1, 0, 0, T], [0, 0, S + 1, T], [0, 0, S, T + 1], [0, T + 1, S, T], [-1, 0, S, T], [0, -1, S, T]])
    t.note(S=S, T=T, bad=bad)
    t.raises(lambda: k2.mutual_information_recursion(px, py, torch.tensor([bad])), "refused")
    t.raises(lambda: k2.mutual_information_recursion(px, py, torch.tensor([[0, 0, S, T]], dtype=torch.int32)), "refused")
    t.raises(lambda: k2.mutual_information_recursion(px, py.float()), "refused")
    t.raises(lambda: k2.rnnt_loss_simple(lm, am, sym, 0, None, "regular", reduction="avg"), "refused")
    t.raises(lambda: k2.rnnt_loss_simple(lm, am, sym, 0, None, "other"), "refused")

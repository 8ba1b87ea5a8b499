"""C22: pruned transducer loss."""
import contextlib
import io

import k2
import torch

from oracle import rnnt as R
from oracle.c21 import INF, TYPES, grad_ok, rnd, say
from oracle.core import group

P = "C22"


def quiet(fn, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **kw)


def dims(t, big=False):
    kind = t.choice(TYPES)
    reg = kind == "regular"
    B, S, T, C = t.int(1, 3), t.int(1, 12 if big else 6), t.int(1, 14 if big else 7), t.int(2, 5)
    if not reg:
        S = min(S, T)
    rows = []
    for b in range(B):
        t1 = T if b == 0 else t.int(1, T)
        s1 = S if b == 0 else t.int(0, S)
        rows.append([0, 0, s1 if reg else min(s1, t1), t1])
    if t.bool(0.3):
        rows = [[0, 0, S, T]] * B
    t.rng.shuffle(rows)
    r = t.int(2 if reg else 1, S + 2)
    t.note(kind=kind, B=B, S=S, T=T, C=C, boundary=rows, s_range=r)
    return kind, reg, B, S, T, C, rows, r


def bands_ok(t, ranges, rows, kind, S, T, asked):
    """the requirements on the bands"""
    reg = kind == "regular"
    B = len(rows)
    t.eq(list(ranges.shape[:2]), [B, T], "shape of the ranges")
    r = ranges.shape[2]
    need = max((-(-s1 // t1) + 1 for _, _, s1, t1 in rows)) if reg else 1
    t.ok(r >= min(asked, S + 1) and r <= max(S + 1, 1), say("width", r, "asked", asked))
    if asked >= need and asked <= S:
        t.eq(r, asked, "width of the bands")
    R_ = ranges.tolist()
    for b in range(B):
        _, _, s1, t1 = rows[b]
        beg = [row[0] for row in R_[b]]
        for u in range(T):
            t.eq(R_[b][u], list(range(beg[u], beg[u] + r)), say("band", b, u, "is not an interval"))
            t.ok(0 <= beg[u] and beg[u] + r - 1 <= S, say("band", b, u, R_[b][u], "leaves the symbols 0..", S))
        t.eq(beg[0], 0, "first band begins at")
        last = R_[b][t1 - 1]
        if reg:
            t.ok(last[0] <= s1 <= last[-1], say("sequence", b, "last band", last, "does not hold", s1))
        else:
            t.ok(last[0] <= s1 <= last[-1] + 1, say("sequence", b, "last band", last, "does not reach", s1))
        if s1 - r + 1 >= 0:
            t.ok(last[-1] <= s1, say("sequence", b, "last band", last, "beyond", s1))
        for u in range(t1 - 1):
            d = beg[u + 1] - beg[u]
            t.ok(0 <= d <= (r - 1 if reg else 1) or r == 1 and d in (0, 1), say("bands", b, u, "advance by", d))
    return R_, r


def ranges_from_grads(t, kind, reg, B, S, T, rows, r, grads):
    bt = torch.tensor(rows, dtype=torch.int64)
    if grads == "real":
        px, py = rnd(t, B, S, T + 1 if reg else T, scale=3.0), rnd(t, B, S + 1, T, scale=3.0)
        if reg:
            for b, row in enumerate(rows):
                px[b, :, row[3]] = -INF
        _, (gx, gy) = k2.mutual_information_recursion(px, py, bt, True)
    elif grads == "noise":
        gx, gy = rnd(t, B, S, T + 1 if reg else T).abs(), rnd(t, B, S + 1, T).abs()
    else:
        gx, gy = torch.zeros(B, S, T + 1 if reg else T), torch.zeros(B, S + 1, T)
    return quiet(k2.get_rnnt_prune_ranges, px_grad=gx, py_grad=gy, boundary=bt, s_range=r), gx, gy


@group(P, 200, thorough=3000, name="ranges")
def ranges(t):
    kind, reg, B, S, T, C, rows, r = dims(t, big=True)
    grads = t.choice(["real", "real", "noise", "zero"])
    t.note(grads=grads)
    got, gx, gy = ranges_from_grads(t, kind, reg, B, S, T, rows, r, grads)
    R_, w = bands_ok(t, got, rows, kind, S, T, r)
    if S + 1 == w:
        t.ok(all(x == list(range(w)) for b in R_ for x in b), "bands covering every symbol")


@group(P, 60, thorough=600, name="best_band")
def best_band(t):
    """where the constraints do not bind, the band with the largest retained probability is the one chosen"""
    T, S, r = t.int(3, 10), t.int(2, 6), 2
    r = t.int(2, S)
    # one dominant alignment: bands must be able to hold it, so the loss inside the bands keeps it
    emit = sorted(t.int(0, T - 1) for _ in range(S))
    if any(emit.count(u) > r - 1 for u in emit):
        return
    px, py = torch.full((1, S, T + 1), -30.0), torch.full((1, S + 1, T), -30.0)
    s = 0
    for u in range(T):
        while s < S and emit[s] == u:
            px[0, s, u] = 0.0
            s += 1
        py[0, s, u] = 0.0
    px[:, :, T] = -INF
    bt = torch.tensor([[0, 0, S, T]])
    _, (gx, gy) = k2.mutual_information_recursion(px, py, bt, True)
    ra = quiet(k2.get_rnnt_prune_ranges, gx, gy, bt, r)
    R_, w = bands_ok(t, ra, [[0, 0, S, T]], "regular", S, T, r)
    t.note(emit=emit, S=S, T=T, r=r, bands=R_)
    s = 0
    free = True
    for u in range(T):
        n = emit.count(u)
        if w <= n:
            free = False
        s += n
    if free and w > max(emit.count(u) for u in range(T)):
        # the nodes visited in one frame fit into one band; the chosen band of each inner frame holds the frame's blank
        s = 0
        for u in range(T - 1):
            s += emit.count(u)
            t.ok(R_[0][u][0] <= s <= R_[0][u][-1], say("frame", u, "band", R_[0][u], "misses symbol", s))


@group(P, 60, thorough=600, name="gather")
def gather(t):
    """do_rnnt_pruning takes exactly the entries of the bands"""
    B, T, S, r = t.int(1, 3), t.int(1, 6), t.int(0, 6), t.int(1, 4)
    r = min(r, S + 1)
    D, E = t.int(1, 3), t.int(1, 3)
    am, lm = rnd(t, B, T, D), rnd(t, B, S + 1, E)
    beg = torch.tensor([[t.int(0, S + 1 - r) for _ in range(T)] for _ in range(B)])
    ra = beg.unsqueeze(-1) + torch.arange(r)
    t.note(B=B, T=T, S=S, ranges=ra.tolist())
    a, l = k2.do_rnnt_pruning(am=am, lm=lm, ranges=ra)
    t.eq([list(a.shape), list(l.shape)], [[B, T, r, D], [B, T, r, E]], "shapes")
    for b in range(B):
        for u in range(T):
            for k in range(r):
                t.ok(torch.equal(a[b, u, k], am[b, u]), say("am", b, u, k))
                t.ok(torch.equal(l[b, u, k], lm[b, beg[b, u] + k]), say("lm", b, u, k))


def rand_bands(t, kind, rows, S, T):
    """valid bands for every sequence of the batch"""
    reg = kind == "regular"
    need = max(-(-s1 // t1) + 1 for _, _, s1, t1 in rows) if reg else 1
    r = t.int(min(need, S + 1), S + 1)
    out = []
    for _, _, s1, t1 in rows:
        step = (r - 1) if reg else 1
        end = max(s1 - r + 1, 0)
        b = [0]
        for u in range(1, T):
            if u >= t1:
                b.append(b[-1])
                continue
            left = t1 - 1 - u
            lo = max(b[-1], end - step * left)
            hi = min(end, b[-1] + step)
            b.append(t.int(min(lo, hi), hi))
        out.append(b)
    return torch.tensor(out).unsqueeze(-1) + torch.arange(r), out, r


def hat_logprobs(lg):
    blank = lg[..., :1]
    return torch.cat([-torch.nn.functional.softplus(-blank), -torch.nn.functional.softplus(blank) + torch.log_softmax(lg[..., 1:], -1)], -1)


def ref_pruned(lp, sym, beg, r, term, rows, kind, pen, given, T):
    """lp: (B, T, r, C) log-probabilities of the entries inside the bands"""
    out = []
    for b, row in enumerate(rows):
        t1 = row[3]

        def at(s, u, c):
            k = s - beg[b][u]
            return lp[b, u, k, c] if 0 <= k < r else None

        def px(s, u):
            if u >= (t1 if kind == "regular" else T):
                return None
            w = at(s, u, int(sym[b, s]))
            if kind == "constrained":
                v = at(s + 1, u, term)
                if w is None or v is None:
                    return None
                w = w + v
            if w is not None and pen > 0:
                w = w + pen * (((t1 if given else T) - 1) / 2 - u)
            return w
        out.append(R.total(px, lambda s, u: at(s, u, term), row, kind != "regular"))
    return out


@group(P, 160, thorough=2500, name="loss")
def loss(t):
    kind, reg, B, S, T, C, rows, r = dims(t)
    given = t.bool(0.7)
    if not given:
        rows = [[0, 0, S, T]] * B
    own = t.bool(0.5)
    if own:
        ra, beg, r = rand_bands(t, kind, rows, S, T)
    else:
        ra, _, _ = ranges_from_grads(t, kind, reg, B, S, T, rows, r, "real")
        beg = ra[:, :, 0].tolist()
        r = ra.shape[2]
    hat = t.bool(0.35)
    term = 0 if hat else t.int(0, C - 1)
    dt = t.choice([torch.float32, torch.float64])
    sym = torch.tensor([[t.int(1 if hat else 0, C - 1) for _ in range(S)] for _ in range(B)], dtype=torch.int64)
    pen = t.choice([0.0, 0.0, 0.5])
    red = t.choice(["none", "sum", "mean"])
    lg = rnd(t, B, T, r, C).to(dt).double()
    t.note(ranges=beg, width=r, hat=hat, term=term, symbols=sym.tolist(), pen=pen, dtype=str(dt), reduction=red, boundary_given=given)
    k = lg.to(dt).clone().requires_grad_(True)
    lg.requires_grad_(True)
    got = k2.rnnt_loss_pruned(logits=k, symbols=sym, ranges=ra, termination_symbol=term, boundary=torch.tensor(rows) if given else None,
                              rnnt_type=kind, delay_penalty=pen, reduction=red, use_hat_loss=hat)
    lp = hat_logprobs(lg) if hat else torch.log_softmax(lg, -1)
    ll = ref_pruned(lp, sym, beg, r, term, rows, kind, pen, given, T)
    tol = 5e-4 if dt == torch.float32 else 1e-5
    vals = [INF if w is None else -float(w.detach()) for w in ll]
    if not own and kind != "constrained":
        t.ok(all(v < INF for v in vals), say("no alignment survives in the chosen bands", vals))
    if red == "none":
        for i, v in enumerate(vals):
            t.ok(R.close(float(got[i].detach()), v, tol), say("loss", i, float(got[i].detach()), "expected", v))
    else:
        v = sum(vals) / (B if red == "mean" else 1)
        t.ok(R.close(float(got.detach()), v, tol), say(red, float(got.detach()), "expected", v))
    if any(w is None for w in ll):
        return
    tot = -torch.stack(ll)
    tot = tot.mean() if red == "mean" else tot.sum()
    if not tot.requires_grad:
        return
    w, = torch.autograd.grad(tot, [lg])
    g, = torch.autograd.grad(got.sum(), [k])
    grad_ok(t, "grad of the logits", g, w, None, 10 * tol)


@group(P, 60, thorough=800, name="full_band")
def full_band(t):
    """bands covering every symbol give the unpruned loss"""
    kind, reg, B, S, T, C, rows, r = dims(t)
    term = t.int(0, C - 1)
    sym = torch.tensor([[t.int(0, C - 1) for _ in range(S)] for _ in range(B)], dtype=torch.int64)
    lm, am = rnd(t, B, S + 1, C), rnd(t, B, T, C)
    bt = torch.tensor(rows)
    kw = dict(symbols=sym, termination_symbol=term, boundary=bt, rnnt_type=kind, reduction="none")
    full, (gx, gy) = k2.rnnt_loss_simple(lm=lm, am=am, return_grad=True, **kw)
    ra = quiet(k2.get_rnnt_prune_ranges, px_grad=gx, py_grad=gy, boundary=bt, s_range=S + 1)
    t.eq(ra.tolist(), [[list(range(S + 1))] * T] * B, "bands")
    a, l = k2.do_rnnt_pruning(am=am, lm=lm, ranges=ra)
    got = k2.rnnt_loss_pruned(logits=a + l, ranges=ra, **kw)
    t.close(got.tolist(), full.tolist(), "pruned and full loss", 1e-5, 1e-5)
    # a narrower band never gives a smaller loss
    ra = quiet(k2.get_rnnt_prune_ranges, px_grad=gx, py_grad=gy, boundary=bt, s_range=r)
    a, l = k2.do_rnnt_pruning(am=am, lm=lm, ranges=ra)
    got = k2.rnnt_loss_pruned(logits=a + l, ranges=ra, **kw)
    for i in range(B):
        t.ok(float(got[i]) >= float(full[i]) - 1e-5, say("pruned", float(got[i]), "below full", float(full[i])))


@group(P, 80, thorough=1000, name="lattice")
def lattice(t):
    """the lattice of the pruned scores has one path per alignment inside the bands (its score: that alignment's logits,
    the last next-frame step excepted, which the final arc stands for)"""
    B, S, T, C = t.int(1, 3), t.int(1, 4), t.int(1, 4), t.int(2, 6)
    rows = [[0, 0, S, T if b == 0 else t.int(1, T)] for b in range(B)]
    if any(-(-S // row[3]) + 1 > S + 1 for row in rows):
        return
    ra, beg, r = rand_bands(t, "regular", rows, S, T)
    sym = torch.tensor([[t.int(1, C - 1) for _ in range(S)] for _ in range(B)], dtype=torch.int64)
    dt = t.choice([torch.float32, torch.float64, torch.float16])
    lg = rnd(t, B, T, r, C).to(dt)
    # the band of the last frame ends at S, as for ranges from get_rnnt_prune_ranges
    t.note(B=B, S=S, T=T, C=C, frames=[x[3] for x in rows], ranges=beg, width=r, symbols=sym.tolist(), dtype=str(dt))
    fv, am = k2.pruned_ranges_to_lattice(ra.to(torch.int32), torch.tensor([x[3] for x in rows], dtype=torch.int32), sym, lg)
    x = k2.Fsa(fv)
    t.eq(x.shape[0], B, "number of lattices")
    flat = lg.reshape(-1).double().tolist()
    arcs, off = [], 0
    amap = am.tolist()
    sc = x.scores.tolist()
    t.eq(len(amap), len(sc), "size of the arc map")
    for i, m in enumerate(amap):
        t.ok(abs(sc[i] - (0.0 if m < 0 else flat[m])) < 1e-3, say("arc", i, "score", sc[i], "entry", m))
    for b in range(B):
        t1 = rows[b][3]
        fs = x[b]
        v = fs.arcs.values()[:, :3].tolist()
        n = fs.shape[0]
        m = [amap[off + i] for i in range(len(v))]
        w = [sc[off + i] for i in range(len(v))]
        off += len(v)
        out = {}
        for i, (s, d, lb) in enumerate(v):
            out.setdefault(s, []).append((d, lb, i))
        got = []
        stack = [(0, [])]
        while stack:
            s, p = stack.pop()
            for d, lb, i in out.get(s, []):
                if lb == -1:
                    t.eq(d, n - 1, "final arc goes to")
                    got.append(p + [i])
                else:
                    stack.append((d, p + [i]))
        want = []
        for p in R.paths([0, 0, S, t1], False):
            if any(kd == "x" and u >= t1 for kd, s, u in p):
                continue
            if not all(0 <= s - beg[b][u] < r for kd, s, u in p):
                continue
            e = []
            for kd, s, u in p[:-1]:
                c = int(sym[b, s]) if kd == "x" else 0
                e.append((c, ((b * T + u) * r + s - beg[b][u]) * C + c))
            want.append(tuple(e) + ((-1, -1),))
        g = sorted(tuple((v[i][2], m[i]) for i in p) for p in got)
        t.eq(g, sorted(want), say("alignments of sequence", b, "(label, entry) lists"))

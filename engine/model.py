"""Models of library classes (std, Array1, Context, RaggedShape ...) used by the
symbolic executor.  Each is an assumption and is reported in the trusted base
when a proof uses it."""
import z3
from . import contract as ct
from .vc import (Ptr, Arr, Rec, Obj, Vec, NULL, CTX, VOID, Region, NullPtr, CellLoc, MemLoc,
                 FieldLoc, ItemLoc, Tmp, Unsupported, PathEnd, I, simp, conc, copyval, Closure,
                 logger_level, FATAL, mentions, INF, EXP, LOG, LOG1P, div_def, DIV, MOD)
from .contract import strip_targs, parse_type, tmpl_arg

PURE = {"std::max", "std::min", "std::abs"}
PURE_METHODS = {"Dim", "Back", "Data", "size", "empty", "Dim0", "NumAxes", "NumElements", "TotSize"}


def is_pure_call(e):
    q = strip_targs(e[1]["q"])
    if q in PURE:
        return True
    cls = e[1].get("cls", "")
    last = q.rsplit("::", 1)[-1]
    if is_arr(cls) and last in ("Dim", "Back", "Data", "operator[]"):
        return True
    if cls.startswith("std::vector<") and last in ("size", "operator[]", "empty"):
        return True
    if q in ("k2::Context::GetDeviceType", "c10::Device::is_cpu"):
        return True
    if cls in ("at::TensorBase", "at::Tensor") and last in ("dim", "size", "device", "dtype", "scalar_type", "is_cuda", "numel"):
        return True
    if q in ("c10::operator==", "__builtin_expect"):
        return True
    if "__shared_ptr_access" in q:
        return True
    return False


def is_arr(cls):
    return cls.startswith("k2::Array1<")


def is_ctxptr(t):
    return t[0] == 'rec' and t[1] == "std::shared_ptr<k2::Context>"


# ------------------------------------------------------------------ shapes
def fresh_layer(ex, name, nrows, tot):
    """one layer: row_splits (dim nrows+1), row_ids (dim tot)"""
    T = ['int', 32, True]
    rs = ex.new_region(name + "_row_splits", T, simp(nrows + 1), fresh=False)
    ri = ex.new_region(name + "_row_ids", T, tot, fresh=False)
    return Rec("layer", dict(row_splits=Arr(Ptr(rs, z3.IntVal(0), T), simp(nrows + 1), T),
                             row_ids=Arr(Ptr(ri, z3.IntVal(0), T), tot, T), cached_tot_size=tot))


def layer_inv(ex, layer, mem=None):
    """representation invariant of one layer"""
    mv = ct.MemView(ex, mem if mem is not None else ex.st.mem)
    rs, ri, tot = mv(layer.f["row_splits"]), mv(layer.f["row_ids"]), layer.f["cached_tot_size"]
    n = layer.f["row_splits"].dim - 1
    return [("offsets start at 0", rs[0] == 0),
            ("offsets are non-decreasing", ct.monotone(rs, n + 1)),
            ("last offset is the number of elements", rs[n] == tot),
            ("element numbers name their sublist", ct.is_row_ids(rs, ri, n, tot))]


def fresh_shape(ex, naxes, name):
    dims = [ex.fresh(f"{name}_tot{a}") for a in range(naxes)]
    for d in dims:
        ex.assume(d >= 0)
    layers = [fresh_layer(ex, f"{name}_{a}", dims[a], dims[a + 1]) for a in range(naxes - 1)]
    s = Obj("shape", layers=Vec(['rec', 'layer'], layers))
    for l in layers:
        for _, f in layer_inv(ex, l):
            ex.assume(f)
    return s


def fresh_ragged(ex, naxes, ty, name):
    s = fresh_shape(ex, naxes, name)
    tot = s.layers.items[-1].f["cached_tot_size"]
    r = ex.new_region(name + "_values", ty, tot, fresh=False)
    return Obj("ragged", shape=s, values=Arr(Ptr(r, z3.IntVal(0), ty), tot, ty))


def shape_of(ex, v):
    if isinstance(v, Obj) and v.kind == 'ragged':
        return v.shape
    return v


def num_axes(s):
    s = shape_of(None, s)
    return len(s.layers.items) + 1


def tot_size(s, a):
    s = shape_of(None, s)
    if a == 0:
        return simp(s.layers.items[0].f["row_splits"].dim - 1)
    return s.layers.items[a - 1].f["cached_tot_size"]


def rs_of(s, a):
    return shape_of(None, s).layers.items[a - 1].f["row_splits"]


def ri_of(s, a):
    return shape_of(None, s).layers.items[a - 1].f["row_ids"]


def shape_at(ex, loc):
    v = ex.load(loc)
    if isinstance(v, Obj) and v.kind == 'ragged':
        v = v.shape
    if not (isinstance(v, Obj) and v.kind == 'shape'):
        raise Unsupported(f"RaggedShape expected, got {v}")
    return v


ACC = "RaggedShape: NumAxes, Dim0, TotSize, NumElements, RowSplits, RowIds, Layers are the stored arrays (row_ids made from row_splits when first asked for)"


def s_axis(ex, args, s, lo):
    a = conc(ex.ev(args[0]))
    if a is None:
        raise Unsupported("symbolic axis")
    ex.trusted.add(ACC)
    if not lo <= a < num_axes(s):
        ex.oblige("precondition", z3.BoolVal(False), f"axis {a} of a shape with {num_axes(s)} axes")
        raise PathEnd()
    return a


def s_numaxes(ex, loc, ref, args, t):
    return z3.IntVal(num_axes(shape_at(ex, loc)))


def s_dim0(ex, loc, ref, args, t):
    return tot_size(shape_at(ex, loc), 0)


def s_tot(ex, loc, ref, args, t):
    s = shape_at(ex, loc)
    return tot_size(s, s_axis(ex, args, s, 0))


def s_nelem(ex, loc, ref, args, t):
    s = shape_at(ex, loc)
    ex.trusted.add(ACC)
    return tot_size(s, num_axes(s) - 1)


def s_rs(ex, loc, ref, args, t):
    s = shape_at(ex, loc)
    return ("loc", Tmp(rs_of(s, s_axis(ex, args, s, 1))))


def s_ri(ex, loc, ref, args, t):
    s = shape_at(ex, loc)
    return ("loc", Tmp(ri_of(s, s_axis(ex, args, s, 1))))


def s_layers(ex, loc, ref, args, t):
    ex.trusted.add(ACC)
    s = shape_at(ex, loc)
    if isinstance(loc, (CellLoc, FieldLoc, ItemLoc)) and ex.load(loc) is s:
        return ("loc", FieldLoc(loc, "layers"))
    return ("loc", Tmp(s.layers))


def s_maxsize(ex, loc, ref, args, t):
    s = shape_at(ex, loc)
    a = s_axis(ex, args, s, 1)
    rs, n = ct.MemView(ex, ex.st.mem)(rs_of(s, a)), tot_size(s, a - 1)
    m, w = ex.fresh("maxsize"), ex.fresh("longest")
    ex.trusted.add("RaggedShape::MaxSize is the largest sublist size")
    ex.assume(z3.And(m >= 0, ct.forall(1, lambda i: ct.imp(0 <= i, i < n, rs[i + 1] - rs[i] <= m), lambda i: rs[i])))
    ex.assume(z3.Or(z3.And(m == 0), z3.And(0 <= w, w < n, rs[w + 1] - rs[w] == m)))
    return m


def s_assign(ex, loc, ref, args, t):
    ex.store(loc, copyval(ex.ev(args[0])))
    return ("loc", loc)


def s_same(ex, loc, ref, args, t):
    return copyval(ex.load(loc))


SHAPE = {"Populate": lambda *a: VOID, "NumAxes": s_numaxes, "NumLayers": lambda *a: simp(s_numaxes(*a) - 1), "Dim0": s_dim0, "TotSize": s_tot, "NumElements": s_nelem,
         "RowSplits": s_rs, "RowIds": s_ri, "Layers": s_layers, "MaxSize": s_maxsize,
         "Context": lambda *a: ("loc", Tmp(CTX)), "operator=": s_assign, "To": s_same, "Check": lambda *a: VOID}


def check_layer(ex, l, first):
    """a layer of a shape under construction: prove the partition, make row_ids if missing"""
    rs, ri, tot = l.f["row_splits"], l.f["row_ids"], l.f["cached_tot_size"]
    mv = ct.MemView(ex, ex.st.mem)
    n = rs.dim - 1
    ex.check("shape", rs.dim >= 1, "a layer has row_splits")
    R = mv(rs)
    ex.oblige("shape", looked(ex, R[0] == 0), "offsets start at 0")
    ex.assume(R[0] == 0)
    if tot is None or conc(tot) == -1:
        tot = R[n]
        l.f["cached_tot_size"] = tot
    ex.oblige("shape", looked(ex, R[n] == tot), "the last offset is the number of elements")
    ex.assume(R[n] == tot)
    ex.oblige("shape", looked(ex, ct.adjacent(R, n + 1)), "offsets are non-decreasing")
    adjacent_monotone(ex)
    ex.assume(ct.monotone(R, n + 1))
    if getattr(ri, "invalid", False):
        ex.trusted.add(ACC)
        T = ['int', 32, True]
        reg = ex.new_region("row_ids", T, tot)
        ri = l.f["row_ids"] = Arr(Ptr(reg, z3.IntVal(0), T), tot, T)
        mv = ct.MemView(ex, ex.st.mem)
        ex.assume(ct.is_row_ids(mv(rs), mv(ri), n, tot))
    else:
        ex.check("shape", ri.dim == tot, "as many row ids as elements")
        prove_row_ids(ex, R, mv(ri), n, tot)


def prove_row_ids(ex, R, S, n, tot, kind="shape", note=""):
    """stated for an arbitrary position j in its sublist r, so that the terms a contract names as
    witnesses are there; `touch` is an arbitrary predicate, it restricts nothing"""
    W = cover(ex, R, n)
    j = ex.fresh("pos")
    r = W(j)
    here = [z3.And(0 <= j, j < tot, 0 <= r, r < n, R[r] <= j, j < R[r + 1])]
    cases = []
    for f in getattr(ex, "row_witness", []):
        for x in f(r, j):
            if isinstance(x, list):
                cases += x
            elif z3.is_bool(x):
                ex.oblige("lemma", z3.Implies(z3.And(*here), x), "at position j of sublist r")
                here.append(x)
            elif isinstance(x, tuple):
                here.append(div_at(ex, *x))
            else:
                here.append(touch(x))
    goal = z3.And(0 <= S[j], S[j] < n, R[S[j]] <= j, j < R[S[j] + 1])
    for c in cases or [z3.BoolVal(True)]:
        ex.oblige(kind, z3.Implies(z3.And(*here, c), goal), note + "element numbers name their sublist")
    if cases:
        ex.oblige(kind, z3.Implies(z3.And(*here), z3.Or(*cases)), note + "cases")
    ex.assume(ct.is_row_ids(R, S, n, tot))


def looked(ex, f):
    """f, with the terms the contract wants seen (touch is arbitrary)"""
    ts = [touch(t) for g in getattr(ex, "shape_look", []) for t in g()]
    return z3.Implies(z3.And(*ts), f) if ts else f


touch = z3.Function("touch", I, z3.BoolSort())


def generic_lemma(ex, name, obligs):
    """obligations about arbitrary functions, without hypotheses; once per function verified"""
    if ex.ghost.get(name):
        return
    ex.ghost[name] = True
    pc, cond = ex.st.pc, ex.st.cond
    try:
        ex.st.pc, ex.st.cond = [], []
        for what, f in obligs:
            ex.oblige("lemma", f, f"{name} ({what})")
    finally:
        ex.st.pc, ex.st.cond = pc, cond


def adjacent_monotone(ex):
    """a[k] <= a[k+1] for all k gives a[i] <= a[j] for all i <= j"""
    F = z3.Function("any_seq", I, I)
    i, k, n = z3.Ints("am_i am_k am_n")
    adj = ct.forall(["ak"], lambda q: ct.imp(0 <= q, q + 1 < n, F(q) <= F(q + 1)), lambda q: F(q))
    P = lambda k: ct.imp(0 <= i, i <= k, k < n, F(i) <= F(k))
    generic_lemma(ex, "adjacent_monotone", [("base", P(i)), ("step", z3.Implies(z3.And(adj, i <= k, P(k)), P(k + 1)))])


def multiples(ex, d):
    """M with M(x) == x * d, increasing in steps of at least d (d > 0)"""
    a, b, D = z3.Ints("mu_a mu_b mu_d")
    generic_lemma(ex, "multiples", [("step", z3.Implies(z3.And(D > 0, a < b), b * D >= a * D + D))])
    M = ex.fresh_fn("times", I, I)
    ex.assume(ct.forall(["mu"], lambda x: M(x) == x * d, lambda x: M(x)))
    ex.assume(z3.Implies(d > 0, ct.forall(2, lambda x, y: ct.imp(x < y, M(y) >= M(x) + d), lambda x, y: (M(x), M(y)))))
    return M


def div_at(ex, q, d, m, n):
    """for 0 <= m < d, 0 <= q < n: (q*d + m) / d == q, % == m, and q*d + m < n*d"""
    Q, D, M, N = z3.Ints("dv_q dv_d dv_m dv_n")
    x = Q * D + M
    c = z3.And(D > 0, 0 <= M, M < D, 0 <= Q)
    generic_lemma(ex, "div_mod", [
        ("quotient", z3.Implies(z3.And(c, div_def(x, D)), DIV(x, D) == Q)),
        ("remainder", z3.Implies(z3.And(c, div_def(x, D), DIV(x, D) == Q), MOD(x, D) == M)),
        ("range", z3.Implies(z3.And(c, Q < N), z3.And(0 <= x, x < N * D)))])
    i = q * d + m
    return z3.Implies(z3.And(d > 0, 0 <= m, m < d, 0 <= q, q < n),
                      z3.And(DIV(i, d) == q, MOD(i, d) == m, 0 <= i, i < n * d))


def cover(ex, rs, n):
    """a Skolem function: the sublist that holds position j.  Its existence for
    offsets 0 = rs[0] <= ... <= rs[n] is proved by induction (lemma row_of)."""
    R = ex.fresh_fn("row_of", I, I)
    k = ex.fresh("cov_k")
    F = z3.Function(f"any_offsets", I, I)
    j = ex.fresh("cov_j")
    cr = z3.Int("cr")
    P = lambda m: ct.imp(0 <= j, j < F(m), z3.Exists([cr], z3.And(
        0 <= cr, cr < m, F(cr) <= j, j < F(cr + 1)), patterns=[F(cr)]))
    generic_lemma(ex, "row_of", [("base", z3.Implies(F(0) == 0, P(z3.IntVal(0)))),
                                 ("step", z3.Implies(z3.And(k >= 0, P(k)), P(k + 1)))])
    ex.assume(z3.Implies(z3.And(n >= 0, rs[0] == 0), ct.forall(["cj"], lambda j: ct.imp(
        0 <= j, j < rs[n], z3.And(0 <= R(j), R(j) < n, rs[R(j)] <= j, j < rs[R(j) + 1])), lambda j: R(j))))
    return R


def shape_ctor(ex, ref, args, t):
    if not args:
        return default_ctor(ex, t)
    v = ex.ev(args[0])
    if isinstance(v, Obj) and v.kind == 'shape':
        return copyval(v)
    if not isinstance(v, Vec):
        raise Unsupported("RaggedShape constructor")
    if len(args) > 1 and z3.is_false(z3.simplify(ex.ev(args[1]))):
        rss = [l.f["row_splits"] for l in v.items]
        if any(isinstance(x, Arr) and isinstance(x.ptr, Ptr) and getattr(x.ptr.region, "blank", False) and x.ptr.region.id not in ex.written for x in rss):
            if any(l.f["cached_tot_size"] is None for l in v.items):
                raise Unsupported("RaggedShape without sizes")
            # offsets nobody has written yet: a shape to be filled in, not a partition so far
            return Obj("shape", layers=Vec(['rec', 'layer'], [copyval(l) for l in v.items]), raw=True)
    ls = []
    for l in v.items:
        l = copyval(l)
        check_layer(ex, l, not ls)
        if ls:
            ex.check("shape", l.f["row_splits"].dim - 1 == ls[-1].f["cached_tot_size"], "a layer has as many rows as the one before has elements")
        ls.append(l)
    return Obj("shape", layers=Vec(['rec', 'layer'], ls))


def ragged_ctor(ex, ref, args, t):
    if not args:
        return default_ctor(ex, t)
    vals = [ex.ev(a) for a in args]
    ty = parse_type(tmpl_arg(ref["cls"]))
    if isinstance(vals[0], Obj) and vals[0].kind == 'ragged':
        return copyval(vals[0])
    s = vals[0]
    if not (isinstance(s, Obj) and s.kind == 'shape'):
        raise Unsupported("Ragged constructor")
    n = tot_size(s, num_axes(s) - 1)
    if len(vals) > 1 and isinstance(vals[1], Arr):
        ex.check("shape", vals[1].dim == n, "as many values as elements of the shape")
        return Obj("ragged", shape=copyval(s), values=vals[1].copy())
    if len(vals) == 1:
        return Obj("ragged", shape=copyval(s), values=empty_arr(ex, ty, n, "values"))
    raise Unsupported("Ragged constructor")


# ------------------------------------------------------------------ construct
def default_ctor(ex, t):
    if t[0] != 'rec':
        return None
    n = t[1]
    if is_arr(n):
        ty = parse_type(tmpl_arg(n))
        a = empty_arr(ex, ty, z3.IntVal(0), "empty")
        a.invalid = True
        return a
    if n == "k2::RaggedShapeLayer":
        r = Rec(n)
        for f in ("row_splits", "row_ids"):
            r.f[f] = empty_arr(ex, ['int', 32, True], z3.IntVal(0), "empty")
            r.f[f].invalid = True
        r.f["cached_tot_size"] = None
        return r
    if n.startswith("std::vector<"):
        return Vec(parse_type(tmpl_arg(n)))
    if n == "k2::RaggedShape":
        return Obj("shape", layers=Vec(['rec', 'layer']))
    if n.startswith("k2::Ragged<"):
        ty = parse_type(tmpl_arg(n))
        return Obj("ragged", shape=Obj("shape", layers=Vec(['rec', 'layer'])),
                   values=empty_arr(ex, ty, z3.IntVal(0), "empty"))
    if is_ctxptr(t):
        return CTX
    return None


def empty_arr(ex, ty, dim, name):
    r = ex.new_region(name, ty, dim)
    r.blank = True
    return Arr(Ptr(r, z3.IntVal(0), ty), dim, ty)


def fill(ex, a, v):
    """every element of Array1 a becomes v"""
    ex.trusted.add("Array1: fill (operator=)")
    for path, lt in ex.prog.leaves(a.ptr.region.ty):
        key = (a.ptr.region.id, path)
        x = v
        for p in path:
            x = x.f[p]
        m0 = ex.st.mem[key]
        m1 = ex.fresh("F_" + a.ptr.region.name, m0.sort())
        i = z3.Const("x", I)
        ex.assume(z3.ForAll([i], z3.Select(m1, i) == z3.If(
            z3.And(i >= a.ptr.off, i < a.ptr.off + a.dim), ex.coerce(x, lt), z3.Select(m0, i)),
            patterns=[z3.Select(m1, i)]))
        if ex.shared(key):
            raise Unsupported("array fill inside a parallel loop")
        ex.st.mem[key] = m1
    ex.written[a.ptr.region.id] = a.ptr.region


def construct(ex, e):
    ref, args, t, line, is_copy = e[1], e[2], e[3], e[4], e[5]
    q = strip_targs(ref["q"])
    cls = ref.get("cls", "")
    ex.line = line
    if is_copy or (len(args) == 1 and q.startswith("std::shared_ptr")):
        v = ex.ev(args[0])
        return copyval(v)
    if cls == "std::shared_ptr<k2::Context>":
        return CTX
    if cls.startswith("k2::NvtxRange") or "Logger" in cls or "Voidifier" in cls:
        return Obj("misc")
    if is_arr(cls):
        ty = parse_type(tmpl_arg(cls))
        ex.trusted.add("Array1: constructors, Dim, Data, operator[], Range, Arange, Back (array.h)")
        if not args:
            return default_ctor(ex, ['rec', cls])
        pt = ref["pt"]
        vals = [ex.ev(a) for a in args]
        vals = [v for v, p in zip(vals, pt) if not (p[0] == 'enum')]
        if is_ctxptr(unref(pt[0])):
            if len(vals) >= 2 and z3.is_expr(vals[1]):
                n = vals[1]
                ex.check("precondition", n >= 0, "Array1 size is not negative")
                a = empty_arr(ex, ty, n, "array")
                if len(vals) == 3:
                    fill(ex, a, ex.conv(vals[2], ty))
                return a
            if len(vals) == 2 and isinstance(vals[1], Vec):
                v = vals[1]
                a = empty_arr(ex, ty, z3.IntVal(len(v.items)), "array")
                for k, x in enumerate(v.items):
                    ex.store(MemLoc(Ptr(a.ptr.region, z3.IntVal(k), ty)), x)
                return a
            if len(vals) == 2 and isinstance(vals[1], Arr):     # from symbolic vector
                return clone_arr(ex, vals[1])
        if len(vals) == 1 and isinstance(vals[0], Obj) and vals[0].kind == "column":
            a = empty_arr(ex, ty, z3.IntVal(len(vals[0].vals)), "column")
            for k, x in enumerate(vals[0].vals):
                ex.store(MemLoc(Ptr(a.ptr.region, z3.IntVal(k), ty)), x)
            return a
        raise Unsupported("Array1 constructor with " + str(pt))
    if cls.startswith("std::vector<"):
        ty = parse_type(tmpl_arg(cls))
        vals = [ex.ev(a) for a, p in zip(args, ref["pt"]) if not (unref(p)[0] == 'rec' and unref(p)[1].startswith("std::allocator"))]
        if not vals:
            return Vec(ty)
        if isinstance(vals[0], Vec):
            return vals[0]
        if z3.is_expr(vals[0]):
            n = conc(vals[0])
            init = vals[1] if len(vals) > 1 and (z3.is_expr(vals[1]) or isinstance(vals[1], (Arr, Rec))) else None
            if n is None:
                ex.check("precondition", vals[0] >= 0, "vector size is not negative")
                a = empty_arr(ex, ty, vals[0], "vector")
                if ty[0] in ('int', 'float', 'bool', 'rec'):
                    fill(ex, a, init if init is not None else ex.default(ty))
                return a
            if init is not None:
                return Vec(ty, [copyval(init) for _ in range(n)])
            d = default_ctor(ex, ty)
            return Vec(ty, [copyval(d) if d is not None else ex.default(ty) for _ in range(n)])
        raise Unsupported("vector constructor")
    h = CTORS.get(q)
    if h:
        return h(ex, ref, args, t)
    fn = ex.prog.fns.get(ref["fn"])
    if fn is not None and ("body" in fn or "inits" in fn):
        vals = eval_args(ex, ref, args)
        base = ex.prog.records.get(cls)
        r = Rec(cls)
        if base:
            for f in base["fields"]:
                r.f[f["name"]] = uninit(ex, f)
        loc = ex.new_cell(r)
        c = ct.find(ref["q"], ref["pt"])
        ex.inline(fn, vals, loc)
        ex.inlined.add(fn["q"])
        return ex.load(loc)
    if not args:
        d = default_ctor(ex, t)
        if d is not None:
            return d
        return ex.default(t)
    raise Unsupported(f"constructor {ref['q']}")


def uninit(ex, f):
    t = f["type"]
    try:
        return ex.havoc_val(f["name"], t)
    except Unsupported:
        if t[0] == 'ptr':
            return NULL
        d = default_ctor(ex, t)
        if d is not None:
            return d
        if t[0] == 'arr':
            return Vec(t[1], [None] * t[2])
        return Obj("uninit")


def unref(t):
    while t[0] == 'ref':
        t = t[1]
    return t


def clone_arr(ex, a):
    ex.trusted.add("Array1: Clone/To copy contents")
    b = empty_arr(ex, a.ty, a.dim, "clone")
    for path, lt in ex.prog.leaves(a.ptr.region.ty):
        x = z3.Const("x", I)
        m0, m1 = ex.st.mem[(a.ptr.region.id, path)], ex.st.mem[(b.ptr.region.id, path)]
        if isinstance(m0, dict):
            raise Unsupported("clone of pointer array")
        ex.assume(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < a.dim),
                                            z3.Select(m1, x) == z3.Select(m0, a.ptr.off + x)),
                            patterns=[z3.Select(m1, x)]))
    return b


def eval_args(ex, ref, args):
    out = []
    for a, pt in zip(args, ref["pt"]):
        if pt[0] == 'ref':
            out.append(ex.lval(a))
        else:
            out.append(copyval(ex.ev(a)))
    for a in args[len(ref["pt"]):]:
        out.append(ex.ev(a))
    return out


# ------------------------------------------------------------------ calls
def call(ex, e):
    k = e[0]
    if k == 'icall':
        f = ex.ev(e[1])
        if isinstance(f, Closure):
            return ex.call_closure(f, [ex.ev(a) for a in e[2]])
        raise Unsupported("indirect call")
    ref = e[1]
    q = strip_targs(ref["q"])
    if k == 'mcall':
        objx, arrow, args, t, line = e[2], e[3], e[4], e[5], e[6]
    else:
        args, t, line = e[2], e[3], e[4]
        objx = None
    ex.line = line
    # logging
    if k == 'opcall' and q.endswith("operator<<") and mentions(e, "Logger"):
        if logger_level(e) == FATAL:
            if ex.opts.get("checks") == "throw":
                from .vc import Ret
                ex.ghost["thrown"] = True
                raise Ret(Obj("thrown"))
            ex.oblige("no exception", z3.BoolVal(False), "K2_LOG(FATAL) reached")
            raise PathEnd()
        return VOID
    is_method = k == 'mcall' or (k == 'opcall' and "cls" in ref and not ref.get("static"))
    if k == 'opcall' and is_method:
        objx, args, arrow = args[0], args[1:], False

    # lambda call
    if is_method and "lam" in ref:
        f = ex.ev(objx)
        if not isinstance(f, Closure):
            raise Unsupported("lambda object")
        return ex.call_closure(f, eval_args(ex, ref, args))

    # contract?
    fn = ex.prog.fns.get(ref["fn"])
    targs = fn.get("targs") if fn else None
    c = ct.find(ref["q"], ref["pt"], targs)
    if c is not None and not (ex.no_contract and c.q in ex.no_contract):
        this = None
        if is_method:
            this = obj_loc(ex, objx, arrow)
        vals = eval_args(ex, ref, args)
        ex.line = line
        v = ct.View(ex, 'call', ref["pt"], vals, fn=fn, this=this, ret_type=t, cname=q)
        v.targs = targs
        for f in getattr(ex, "before", {}).get(c.q, []):
            f(v)
        before = dict(ex.st.mem)
        c.fn(v)
        for f in getattr(ex, "after", {}).get(c.q, []):
            f(v)
        if ex.log is not None:
            for key, m in before.items():
                if not isinstance(m, dict):
                    ex.log.append(("rrange", ex.regions[key[0]], key[1], None, None, None, []))
        ex.verified_calls.add(c.q)
        if c.trusted:
            ex.trusted.add(f"{c.q}: {c.trusted}")
        return v.result

    h = FUNCS.get(q)
    if h is not None and not is_method:
        return h(ex, ref, args, t)
    if is_method:
        cls = ref.get("cls", "")
        last = q.rsplit("::", 1)[-1]
        for pred, table in METHODS:
            if pred(cls):
                m = table.get(last)
                if m is not None:
                    loc = obj_loc(ex, objx, arrow)
                    return m(ex, loc, ref, args, t)
    if fn is not None and "body" in fn:
        this = obj_loc(ex, objx, arrow) if is_method else None
        vals = eval_args(ex, ref, args)
        ex.inlined.add(fn["q"])
        return ex.inline(fn, vals, this)
    if is_method and q.endswith("operator=") and len(args) == 1:
        # implicit copy/move assignment
        v = copyval(ex.ev(args[0]))
        loc = obj_loc(ex, objx, arrow)
        ex.store(loc, v)
        return ("loc", loc)
    raise Unsupported(f"call to {ref['q']}")


def obj_loc(ex, objx, arrow):
    if arrow:
        v = ex.ev(objx)
        return ex.deref(v)
    return ex.lval(objx)


def f_max(ex, ref, args, t):
    a, b = [ex.ev(x) for x in args]
    if z3.is_real(a) != z3.is_real(b):
        raise Unsupported("std::max types")
    return z3.If(a >= b, a, b)


def f_min(ex, ref, args, t):
    a, b = [ex.ev(x) for x in args]
    return z3.If(a <= b, a, b)


def f_abs(ex, ref, args, t):
    a = ex.ev(args[0])
    return z3.If(a >= 0, a, -a)


def f_ctx(ex, ref, args, t):
    return CTX


def f_true(ex, ref, args, t):
    return z3.BoolVal(True)


def f_swap(ex, ref, args, t):
    l1, l2 = ex.lval(args[0]), ex.lval(args[1])
    a, b = copyval(ex.load(l1)), copyval(ex.load(l2))
    ex.store(l1, b)
    ex.store(l2, a)
    return VOID


def f_move(ex, ref, args, t):
    return ("loc", ex.lval(args[0]))


def f_inf(ex, ref, args, t):
    from .vc import INF
    ex.trusted.add("infinity is an arbitrary real constant")
    return INF


def f_atomic_cas(ex, ref, args, t):
    """one atomic step; just before it other threads may have changed the table (contracts/hashes.py)"""
    h = ex.ghost.get("table")
    p, c, w = [ex.ev(a) for a in args]
    if h is None or not isinstance(p, Ptr) or p.region is not h.region:
        raise Unsupported("AtomicCAS outside a hash table")
    ex.trusted.add("AtomicCAS: an atomic compare-and-swap")
    if not ex.dry:
        if h.others:
            h.interfere()
        ex.ghost["cas"] = h.snapshot()
    cur = ex.load(MemLoc(p))
    if ex.branch(cur == c):
        ex.store(MemLoc(p), w)
    return cur


def f_atomic_add(ex, ref, args, t):
    p, v = [ex.ev(a) for a in args]
    from .vc import MemLoc
    if ex.log is None:
        ex.store(MemLoc(p), ex.load(MemLoc(p)) + ex.conv(v, p.ty))
        return VOID
    if isinstance(p, NullPtr):
        ex.bounds(p, "")
    ex.bounds(p, "addition to " + (p.region.name if p.region else ""))
    if not ex.shared((p.region.id, ())):
        raise Unsupported("atomic addition to local memory")
    ex.log.append(("add", p.region, (), p.off, None, ex.conv(v, p.ty), []))
    ex.trusted.add("AtomicAdd: additions of parallel iterations add up, in whatever order")
    return VOID


def real_fn(F):
    def f(ex, ref, args, t):
        a = ex.ev(args[0])
        ex.trusted.add("exp, log, log1p are functions of their argument (uninterpreted)")
        return F(z3.ToReal(a) if z3.is_int(a) else a)
    return f


def f_eps(ex, ref, args, t):
    ex.trusted.add("epsilon is an arbitrary real constant")
    return z3.Real("epsilon")


def f_limit(ex, ref, args, t):
    if t[0] == 'int':
        bits, signed = t[1], t[2]
        if ref["q"].endswith("max"):
            return z3.IntVal(2 ** (bits - 1) - 1 if signed else 2 ** bits - 1)
        return z3.IntVal(-2 ** (bits - 1) if signed else 0)
    raise Unsupported("numeric_limits")


FUNCS = {
    "std::numeric_limits::infinity": f_inf, "std::numeric_limits::max": f_limit, "std::numeric_limits::min": f_limit,
    "std::numeric_limits::lowest": f_limit, "std::numeric_limits::epsilon": f_eps,
    "std::max": f_max, "std::min": f_min, "std::abs": f_abs, "abs": f_abs,
    "k2::GetContext": f_ctx, "k2::GetCpuContext": f_ctx, "k2::IsCompatible": f_true,
    "k2::AtomicAdd": f_atomic_add,
    "k2::AtomicCAS": f_atomic_cas,
    "std::exp": real_fn(EXP), "exp": real_fn(EXP), "expf": real_fn(EXP), "std::log": real_fn(LOG), "log": real_fn(LOG),
    "logf": real_fn(LOG), "log1p": real_fn(LOG1P), "log1pf": real_fn(LOG1P), "std::log1p": real_fn(LOG1P),
    "std::swap": f_swap, "std::move": f_move, "std::forward": f_move,
    "std::operator==": None,
}
FUNCS = {k: v for k, v in FUNCS.items() if v}
CTORS = {"k2::RaggedShape::RaggedShape": shape_ctor, "k2::Ragged::Ragged": ragged_ctor,
         "k2::RaggedShapeLayer::RaggedShapeLayer": lambda ex, ref, args, t: default_ctor(ex, t),
         "k2::With::With": lambda *a: Obj("misc"), "k2::ParallelRunnerActive::ParallelRunnerActive": lambda *a: Obj("misc"),
         "k2::ParallelRunnerDummy::ParallelRunnerDummy": lambda *a: Obj("misc")}


# ---- Array1 -------------------------------------------------------------
def arr_at(ex, loc):
    v = ex.load(loc)
    if not isinstance(v, Arr):
        raise Unsupported(f"Array1 expected, got {v}")
    return v


def a_dim(ex, loc, ref, args, t):
    return arr_at(ex, loc).dim


def a_data(ex, loc, ref, args, t):
    return arr_at(ex, loc).ptr


def a_ctx(ex, loc, ref, args, t):
    return ("loc", Tmp(CTX)) if t[0] != 'ref' else ("loc", Tmp(CTX))


def a_idx(ex, loc, ref, args, t):
    a = arr_at(ex, loc)
    i = ex.ev(args[0])
    ex.check("bounds", z3.And(i >= 0, i < a.dim), "Array1 index")
    return ("loc", MemLoc(a.ptr.add(i)))


def a_back(ex, loc, ref, args, t):
    a = arr_at(ex, loc)
    ex.check("bounds", a.dim > 0, "Array1::Back of an empty array")
    return ("loc", MemLoc(a.ptr.add(a.dim - 1)))


def a_range(ex, loc, ref, args, t):
    a = arr_at(ex, loc)
    vals = [ex.ev(x) for x in args]
    s, n = vals[0], vals[1]
    if len(vals) > 2 and conc(vals[2]) != 1:
        raise Unsupported("Array1::Range with increment")
    ex.check("precondition", z3.And(s >= 0, n >= 0, s + n <= a.dim), "Array1::Range within the array")
    return Arr(a.ptr.add(s), n, a.ty)


def a_arange(ex, loc, ref, args, t):
    a = arr_at(ex, loc)
    b, e = [ex.ev(x) for x in args]
    ex.check("precondition", z3.And(b >= 0, b <= e, e <= a.dim), "Array1::Arange within the array")
    return Arr(a.ptr.add(b), simp(e - b), a.ty)


def a_assign(ex, loc, ref, args, t):
    v = ex.ev(args[0])
    if isinstance(v, Arr):
        ex.store(loc, v.copy())
    else:
        a = arr_at(ex, loc)
        fill(ex, a, ex.conv(v, a.ty))
    return ("loc", loc)


def a_to(ex, loc, ref, args, t):
    ex.trusted.add("Array1::To on the same device returns an array sharing the data")
    return arr_at(ex, loc)


def a_clone(ex, loc, ref, args, t):
    return clone_arr(ex, arr_at(ex, loc))


def a_valid(ex, loc, ref, args, t):
    return z3.BoolVal(not getattr(arr_at(ex, loc), "invalid", False))


def a_acc(ex, loc, ref, args, t):
    return Obj("acc", ptr=arr_at(ex, loc).ptr)


ARR = {"Dim": a_dim, "Data": a_data, "Context": a_ctx, "operator[]": a_idx, "Back": a_back,
       "Range": a_range, "Arange": a_arange, "operator=": a_assign, "To": a_to, "Clone": a_clone,
       "IsValid": a_valid, "Accessor": a_acc}


def sizeof(ex, t):
    if t[0] in ('int', 'float'):
        return t[1] // 8
    return sum(sizeof(ex, lt) for _, lt in ex.prog.leaves(t))


def a_region(ex, loc, ref, args, t):
    a = arr_at(ex, loc)
    if getattr(a, "invalid", False) or a.ptr.region.size is None:
        raise Unsupported("GetRegion of an array without memory")
    return Rec("k2::Region", dict(num_bytes=a.ptr.region.size * sizeof(ex, a.ty)))


def a_offset(ex, loc, ref, args, t):
    a = arr_at(ex, loc)
    return a.ptr.off * sizeof(ex, a.ty)


ARR.update({"GetRegion": a_region, "ByteOffset": a_offset,
            "ElementSize": lambda ex, loc, *a: z3.IntVal(sizeof(ex, arr_at(ex, loc).ty))})


# ---- Context ------------------------------------------------------------
def c_cpu(ex, loc, ref, args, t):
    ex.trusted.add("the device is the CPU (GetDeviceType() == kCpu); CUDA branches are not verified")
    return z3.IntVal(2)


CTXM = {"GetDeviceType": c_cpu, "IsCompatible": lambda *a: z3.BoolVal(True),
        "operator->": lambda *a: CTX, "operator*": lambda *a: ("loc", Tmp(CTX)),
        "get": lambda *a: CTX, "operator bool": lambda *a: z3.BoolVal(True),
        "operator=": lambda ex, loc, *a: ("loc", loc)}


# ---- vector -------------------------------------------------------------
def v_size(ex, loc, ref, args, t):
    v = ex.load(loc)
    if isinstance(v, Arr):
        return v.dim
    return z3.IntVal(len(v.items))


def v_at(ex, loc, ref, args, t):
    v = ex.load(loc)
    i = ex.ev(args[0])
    if isinstance(v, Arr):
        ex.check("bounds", z3.And(i >= 0, i < v.dim), "vector index")
        return ("loc", MemLoc(v.ptr.add(i)))
    return ("loc", ItemLoc(loc, i))


def v_push(ex, loc, ref, args, t):
    v = ex.load(loc)
    if not isinstance(v, Vec):
        raise Unsupported("push_back on a symbolic vector")
    x = copyval(ex.ev(args[0]))
    v2 = v.copy()
    v2.items.append(x)
    ex.store(loc, v2)
    return VOID


def v_back(ex, loc, ref, args, t):
    v = ex.load(loc)
    if isinstance(v, Arr):
        ex.check("bounds", v.dim > 0, "vector::back")
        return ("loc", MemLoc(v.ptr.add(v.dim - 1)))
    if not v.items:
        ex.oblige("bounds", z3.BoolVal(False), "back() of an empty vector")
        raise PathEnd()
    return ("loc", ItemLoc(loc, z3.IntVal(len(v.items) - 1)))


def v_front(ex, loc, ref, args, t):
    return ("loc", ItemLoc(loc, z3.IntVal(0)))


def v_resize(ex, loc, ref, args, t):
    v = ex.load(loc)
    n = conc(ex.ev(args[0]))
    if n is None or not isinstance(v, Vec):
        raise Unsupported("resize to symbolic size")
    v2 = v.copy()
    while len(v2.items) < n:
        d = default_ctor(ex, v.ty)
        v2.items.append(d if d is not None else ex.default(v.ty))
    del v2.items[n:]
    ex.store(loc, v2)
    return VOID


def v_data(ex, loc, ref, args, t):
    v = ex.load(loc)
    if isinstance(v, Arr):
        return v.ptr
    return Obj("addr", loc=ItemLoc(loc, z3.IntVal(0)))


def v_empty(ex, loc, ref, args, t):
    v = ex.load(loc)
    if isinstance(v, Arr):
        return v.dim == 0
    return z3.BoolVal(len(v.items) == 0)


VECM = {"size": v_size, "operator[]": v_at, "push_back": v_push, "emplace_back": v_push,
        "back": v_back, "front": v_front, "resize": v_resize, "data": v_data, "empty": v_empty,
        "at": v_at, "reserve": lambda *a: VOID}

# ---- Array2 -------------------------------------------------------------
A2 = "Array2: constructor (c, rows, columns), Row, Col, Accessor; rows do not overlap (array.h)"


def array2_ctor(ex, ref, args, t):
    cls = ref["cls"]
    ty = parse_type(tmpl_arg(cls))
    vals = [v for v, p in zip([ex.ev(a) for a in args], ref["pt"]) if unref(p)[0] != 'enum' and unref(p) != ['rec', 'k2::Dtype']]
    if not vals:
        return Obj("array2", rows=[], dim1=z3.IntVal(0), ty=ty)
    if len(vals) == 1 and isinstance(vals[0], Obj) and vals[0].kind == "array2":
        return vals[0]
    if len(vals) != 3 or not is_ctxptr(unref(ref["pt"][0])):
        raise Unsupported("Array2 constructor")
    n = conc(vals[1])
    if n is None:
        raise Unsupported("Array2 with a symbolic number of rows")
    ex.trusted.add(A2)
    ex.check("precondition", vals[2] >= 0, "Array2 size is not negative")
    return Obj("array2", rows=[empty_arr(ex, ty, vals[2], f"row{k}") for k in range(n)], dim1=vals[2], ty=ty)


def array2_at(ex, loc):
    v = ex.load(loc)
    if not isinstance(v, Obj) or v.kind not in ("array2", "acc2"):
        raise Unsupported("Array2 expected")
    return v


def row_of(ex, a, i):
    k = conc(simp(i))
    if k is None:
        raise Unsupported("symbolic row of an Array2")
    if not 0 <= k < len(a.rows):
        ex.oblige("bounds", z3.BoolVal(False), "row of an Array2")
        raise PathEnd()
    return a.rows[k]


def a2_elem(ex, loc, ref, args, t):
    a = array2_at(ex, loc)
    r = row_of(ex, a, ex.ev(args[0]))
    i = ex.ev(args[1])
    ex.check("bounds", z3.And(i >= 0, i < r.dim), "column of an Array2")
    return ("loc", MemLoc(r.ptr.add(i)))


def a2_col(ex, loc, ref, args, t):
    a = array2_at(ex, loc)
    i = ex.ev(args[0])
    ex.check("precondition", z3.And(i >= 0, i < a.dim1), "Array2::Col")
    return Obj("column", vals=[ex.load(MemLoc(r.ptr.add(i))) for r in a.rows], ty=a.ty)


def a2_assign(ex, loc, ref, args, t):
    v = ex.ev(args[0])
    if not (isinstance(v, Obj) and v.kind == "array2"):
        raise Unsupported("Array2::operator= with a number")
    ex.store(loc, v)
    return ("loc", loc)


ARR2 = {"operator=": a2_assign, "Dim0": lambda ex, loc, *a: z3.IntVal(len(array2_at(ex, loc).rows)), "Dim1": lambda ex, loc, *a: array2_at(ex, loc).dim1,
        "Accessor": lambda ex, loc, *a: Obj("acc2", **{k: getattr(array2_at(ex, loc), k) for k in ("rows", "dim1", "ty")}),
        "Row": lambda ex, loc, ref, args, t: row_of(ex, array2_at(ex, loc), ex.ev(args[0])).copy(), "Col": a2_col,
        "Context": a_ctx}
ACC2 = {"operator()": a2_elem, "Row": lambda ex, loc, ref, args, t: row_of(ex, array2_at(ex, loc), ex.ev(args[0])).ptr}
CTORS["k2::Array2::Array2"] = array2_ctor

METHODS = [
    (is_arr, ARR),
    (lambda c: c.startswith("k2::Array2<"), ARR2),
    (lambda c: c.startswith("k2::Array2Accessor<") or c.startswith("k2::ConstArray2Accessor<"), ACC2),
    (lambda c: "__shared_ptr" in c and "k2::Region" in c, {
        "operator->": lambda ex, loc, *a: Obj("addr", loc=loc)}),
    (lambda c: c == "k2::Context" or c.startswith("std::shared_ptr<k2::Context>") or "__shared_ptr" in c, CTXM),
    (lambda c: c.startswith("std::vector<"), VECM),
    (lambda c: c == "k2::RaggedShape" or c.startswith("k2::Ragged<"), SHAPE),
    (lambda c: c.startswith("k2::ParallelRunner"), {"NewStream": lambda *a: NULL, "Finish": lambda *a: VOID}),
]

from . import torchmodel as _tm      # noqa: E402
for _k, _v in _tm.FUNCS.items():
    FUNCS.setdefault(_k, _v)
CTORS.update(_tm.CTORS)
METHODS += _tm.METHODS
FUNCS["fabs"] = FUNCS["fabsf"] = FUNCS["std::fabs"] = f_abs

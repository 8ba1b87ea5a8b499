"""Models of the parts of the torch C++ API that k2's kernels for the CPU use.

A tensor is a number of dimensions, their sizes (terms), a scalar type and a
memory region.  The element with indexes (i, j, k) is at position cell(i, j, k)
of the region, with cell an injective function: neither strides nor the layout
are modelled, which is what accessor<> offers too."""
import re
import z3
from . import contract as ct
from .vc import Ptr, Obj, Vec, Tmp, MemLoc, Unsupported, PathEnd, I, simp, conc, VOID, EXP, LOG

CELL = {n: z3.Function(f"cell{n}", *([I] * (n + 1))) for n in (2, 3, 4)}
BACK = {(n, k): z3.Function(f"cell{n}_index{k}", I, I) for n in (2, 3, 4) for k in range(n)}
FLOAT, DOUBLE, LONG, INT = 6, 7, 4, 3
BYTE = 0
SCALAR = {BYTE: ['int', 8, False], FLOAT: ['float', 32], DOUBLE: ['float', 64], LONG: ['int', 64, True], INT: ['int', 32, True]}


class Throw(PathEnd):
    pass


def cell(ex, idx):
    n = len(idx)
    if n == 1:
        return idx[0]
    if ("cells", n) not in ex.ghost.setdefault("torch", {}):
        ex.ghost["torch"][("cells", n)] = True
    return CELL[n](*idx)


def axioms(ex):
    ex.trusted.add("torch tensors: dim, size, accessor, empty, zeros, tensor, reshape, expand (engine/torchmodel.py); "
                   "different indexes are different elements, different tensors do not overlap")
    for n in CELL:
        ex.assume(ct.forall(n, lambda *x: z3.And(*[BACK[(n, k)](CELL[n](*x)) == x[k] for k in range(n)]), lambda *x: CELL[n](*x)))


def tensor(ex, name, dims, st, fresh=True, init=None):
    ty = SCALAR[st]
    r = ex.new_region(name, ty, None, init=init, fresh=fresh)
    o = Obj("tensor", dims=[simp(d) for d in dims], st=z3.IntVal(st), region=r, ty=ty)
    o.copy = lambda: o
    return o


def at(mem, t):
    """element of a tensor in a memory view"""
    sel = mem(Ptr(t.region, z3.IntVal(0), t.ty))
    return lambda *idx: sel[idx[0] if len(idx) == 1 else CELL[len(idx)](*idx)]


def flat(ex, name, n, st, shape=None, fresh=True, bounds=(None, None)):
    """a contiguous tensor of any shape: element i in row-major order is at position i.
    Conversion to a contiguous tensor keeps this order, so it is the identity here."""
    st = st if isinstance(st, int) else conc(st)
    ty = SCALAR[st]
    r = ex.new_region(name, ty, simp(n), fresh=fresh)
    o = Obj("tensor", dims=None, n=simp(n), st=z3.IntVal(st), region=r, ty=ty,
            shape=shape if shape is not None else ex.fresh("shape"), requires_grad=z3.BoolVal(False))
    o.copy = lambda: o
    if bounds[0] is not None:
        m = ct.MemView(ex, ex.st.mem)(Ptr(r, z3.IntVal(0), ty))
        ex.assume(ct.forall(1, lambda i: z3.And(bounds[0] <= m[i], m[i] < bounds[1]), lambda i: m[i]))
    return o


def flat_of(ex, loc_or_val):
    v = loc_or_val if isinstance(loc_or_val, Obj) else ex.load(loc_or_val)
    if not (isinstance(v, Obj) and v.kind == "tensor" and v.dims is None):
        raise Unsupported("contiguous tensor expected")
    return v


def is_flat(v):
    return isinstance(v, Obj) and v.kind == "tensor" and v.dims is None


def t_to(ex, loc, ref, args, t):
    o, st = flat_of(ex, loc), conc(ex.ev(args[0]))
    if conc(o.st) == st:
        return o
    if SCALAR[st][0] != 'float' or o.ty[0] != 'float':
        raise Unsupported("conversion of a tensor")
    r = flat(ex, o.region.name + "_converted", o.n, st, o.shape)
    ex.st.mem[(r.region.id, ())] = ex.st.mem[(o.region.id, ())]
    r.requires_grad = o.requires_grad
    return r


def t_data_ptr(ex, loc, ref, args, t):
    o = of(ex, loc)
    if o.dims is not None and len(o.dims) != 1:
        raise Unsupported("data_ptr of a tensor with strides")
    want = t[1]
    ex.check("precondition", z3.BoolVal(want == o.ty), "data_ptr<T> fits the tensor")
    return Ptr(o.region, z3.IntVal(0), o.ty)


def elementwise(ex, name, xs, f):
    """a new tensor with f of the elements of the tensors / numbers xs"""
    ts = [x for x in xs if is_flat(x)]
    big = [x for x in ts if not getattr(x, "scalar", False)]
    o = big[0]
    for x in big[1:]:
        ex.check("precondition", x.shape == o.shape, "tensors of one shape")
        ex.assume(x.n == o.n)
    big = o
    r = flat(ex, name, big.n, big.st, big.shape)
    mem = ct.MemView(ex, ex.st.mem)
    el = lambda x, i: mem(Ptr(x.region, z3.IntVal(0), x.ty))[z3.IntVal(0) if getattr(x, "scalar", False) else i] if is_flat(x) else ex.conv(x, ['float', 32])
    ex.assume(ct.forall(1, lambda i: ct.imp(z3.And(0 <= i, i < big.n), el(r, i) == f(*[el(x, i) for x in xs])), lambda i: el(r, i)))
    return r


def f_elementwise(name, f):
    def g(ex, ref, args, t):
        xs = [ex.ev(a) for a in args[:2]]
        if not any(is_flat(x) for x in xs):
            raise Unsupported("tensor arithmetic")
        return elementwise(ex, name, xs, f)
    return g


def f_like(bounds):
    def f(ex, ref, args, t):
        o = flat_of(ex, ex.ev(args[0]))
        return flat(ex, "new", o.n, o.st, o.shape, bounds=bounds)
    return f


def f_rand(ex, ref, args, t):
    n = ints(ex, args[0])
    o = ex.ev(args[1])
    ex.trusted.add("torch::rand gives numbers in [0, 1)")
    return flat(ex, "random", n[0], o.st, bounds=(0, 1))


def f_isinf(ex, ref, args, t):
    ex.trusted.add("isinf is some predicate of its argument")
    return ISINF(ex.ev(args[0]))


ISINF = z3.Function("isinf", z3.RealSort(), z3.BoolSort())


def literal(e):
    """the text of the string literal in the expression e"""
    if isinstance(e, list):
        if e and e[0] == 'str' and len(e) > 1:
            return e[1]
        for x in e:
            r = literal(x)
            if r is not None:
                return r
    return None


def kv_at(ex, loc, ref, args, t):
    k = literal(args[0])
    o = ex.load(loc)
    if k is None:
        raise Unsupported("key of saved_data")
    if not hasattr(o, k):
        raise Unsupported(f"key {k} of saved_data")
    from .vc import FieldLoc
    return ("loc", FieldLoc(loc, k))


def save_vars(ex, loc, ref, args, t):
    ex.ghost["saved"] = ex.ev(args[0])
    return VOID


def iv_assign(ex, loc, ref, args, t):
    ex.store(loc, ex.ev(args[0]))
    return ("loc", loc)


def of(ex, loc):
    v = ex.load(loc)
    if not (isinstance(v, Obj) and v.kind == "tensor"):
        raise Unsupported(f"tensor expected, got {v}")
    return v


def t_size(ex, loc, ref, args, t):
    o = of(ex, loc)
    k = conc(ex.ev(args[0]))
    if k is None or not -len(o.dims) <= k < len(o.dims):
        raise Unsupported("size of an unknown dimension")
    return o.dims[k]


def strides(ex, o):
    """the strides of a tensor: unknown numbers (the model's layout does not depend on them)"""
    if not hasattr(o, "strides"):
        o.strides = [ex.fresh(f"{o.region.name}_stride{k}") for k in range(len(o.dims))]
    return o.strides


def t_stride(ex, loc, ref, args, t):
    o = of(ex, loc)
    k = conc(ex.ev(args[0]))
    if k is None or not -len(o.dims) <= k < len(o.dims):
        raise Unsupported("stride of an unknown dimension")
    return strides(ex, o)[k]


def t_accessor(ex, loc, ref, args, t):
    o = of(ex, loc)
    m = re.match(r"at::TensorAccessor<(.*), (\d+), ", t[1])
    want = {"float": FLOAT, "double": DOUBLE, "long": LONG, "int": INT}.get(m.group(1))
    ex.check("precondition", z3.And(o.st == want, z3.BoolVal(len(o.dims) == int(m.group(2)))),
             f"accessor<{m.group(1)}, {m.group(2)}> fits the tensor")
    return Obj("taccess", t=o, idx=[])


def acc_at(ex, loc, ref, args, t):
    a = ex.load(loc)
    i = ex.ev(args[0])
    if not (isinstance(a, Obj) and a.kind == "taccess"):
        raise Unsupported("tensor accessor expected")
    d = a.t.dims[len(a.idx)]
    ex.check("bounds", z3.And(i >= 0, i < d), f"index {len(a.idx)} of tensor {a.t.region.name}")
    o = Obj("taccess", t=a.t, idx=a.idx + [i])
    if len(o.idx) < len(a.t.dims):
        return o
    return ("loc", MemLoc(Ptr(a.t.region, cell(ex, o.idx), a.t.ty)))


def acc_size(ex, loc, ref, args, t):
    a = ex.load(loc)
    return a.t.dims[len(a.idx) + (conc(ex.ev(args[0])) or 0)]


LONGTY = ['int', 64, True]


def ints(ex, e):
    v = e.v if isinstance(e, Obj) else ex.ev(e)
    while isinstance(v, Obj) and v.kind == "intlist":
        v = v.v
    if isinstance(v, Vec):
        return list(v.items)
    if z3.is_expr(v):
        return [v]
    raise Unsupported(f"list of sizes {v}")


def t_reshape(ex, loc, ref, args, t):
    o, n = of(ex, loc), ints(ex, args[0])
    if len(o.dims) == 1 and len(n) == 2 and conc(n[0]) == 1:
        ex.check("precondition", n[1] == o.dims[0], "reshape keeps the number of elements")
        r = tensor(ex, "reshaped", n, conc(o.st))
        old, new = at(ct.MemView(ex, ex.st.mem), o), at(ct.MemView(ex, ex.st.mem), r)
        ex.assume(ct.forall(1, lambda i: ct.imp(0 <= i, i < n[1], new(z3.IntVal(0), i) == old(i)), lambda i: CELL[2](0, i)))
        return r
    raise Unsupported("reshape")


def t_expand(ex, loc, ref, args, t):
    o, n = of(ex, loc), ints(ex, args[0])
    if len(o.dims) == 2 and len(n) == 2 and conc(o.dims[0]) == 1:
        ex.check("precondition", n[1] == o.dims[1], "expand keeps the other dimensions")
        r = tensor(ex, "expanded", n, conc(o.st))
        old, new = at(ct.MemView(ex, ex.st.mem), o), at(ct.MemView(ex, ex.st.mem), r)
        ex.assume(ct.forall(2, lambda b, i: new(b, i) == old(z3.IntVal(0), i), lambda b, i: CELL[2](b, i)))
        return r
    raise Unsupported("expand")


def f_make(zero):
    def f(ex, ref, args, t):
        n = ex.ev(args[0])
        o = ex.ev(args[1])
        st = conc(o.st)
        if isinstance(n, Obj) and n.kind == "sizes":
            return flat(ex, "new", n.n, st, n.shape)
        n = ints(ex, Obj("value", v=n))
        if not n:       # a tensor with one element
            r = flat(ex, "scalar", z3.IntVal(1), st)
            r.scalar = True
            if zero:
                ex.assume(ex.st.mem[(r.region.id, ())][0] == 0)
            return r
        if st is None:
            raise Unsupported("tensor of unknown type")
        for d in n:
            ex.check("precondition", d >= 0, "size of the new tensor is not negative")
        init = None
        if zero:
            init = z3.RealVal(0) if SCALAR[st][0] == 'float' else z3.IntVal(0)
        return tensor(ex, "zeros" if zero else "empty", n, st, init=init)
    return f


def f_tensor(ex, ref, args, t):
    xs = ints(ex, args[0])
    o = ex.ev(args[1])
    r = tensor(ex, "literal", [z3.IntVal(len(xs))], conc(o.st))
    for k, x in enumerate(xs):
        ex.store(MemLoc(Ptr(r.region, z3.IntVal(k), r.ty)), ex.conv(x, r.ty))
    return r


def o_dtype(ex, loc, ref, args, t):
    v = ex.ev(args[0])
    return Obj("topts", st=v if z3.is_expr(v) else v.v)


def refused(ex, ref, args, t):
    """a TORCH_CHECK fails: an exception leaves the function"""
    valid = ex.ghost.get("valid")
    if valid is not None:
        ex.oblige("no exception", z3.Not(valid), "arguments that are in order are accepted")
    raise PathEnd()


def ident(ex, ref, args, t):
    return ex.ev(args[0])


FUNCS = {
    "__builtin_expect": ident, "c10::detail::torchCheckFail": refused, "c10::detail::torchInternalAssertFail": refused,
    "c10::detail::torchCheckMsgImpl": lambda *a: Obj("str"), "c10::str": lambda *a: Obj("str"),
    "c10::detail::deprecated_AT_ERROR": lambda *a: VOID, "c10::detail::deprecated_AT_DISPATCH": lambda *a: VOID,
    "c10::toString": lambda *a: Obj("str"), "detail::scalar_type": ident, "c10::typeMetaToScalarType": ident,
    "c10::dtype": lambda ex, ref, args, t: Obj("topts", st=ex.ev(args[0])),
    "c10::device": lambda ex, ref, args, t: Obj("topts", st=z3.IntVal(FLOAT)),
    "c10::operator==": lambda ex, ref, args, t: ex.ev(args[0]) == ex.ev(args[1]),
    "torch::empty_like": f_like((None, None)), "torch::rand_like": f_like((0, 1)), "torch::rand": f_rand,
    "std::isinf": f_isinf, "isinf": f_isinf,
    "at::operator-": f_elementwise("difference", lambda a, b: a - b), "at::operator+": f_elementwise("sum", lambda a, b: a + b),
    "at::operator*": f_elementwise("product", lambda a, b: a * b),
    "at::logaddexp": f_elementwise("logaddexp", lambda a, b: LOG(EXP(a) + EXP(b))),
    "torch::logaddexp": f_elementwise("logaddexp", lambda a, b: LOG(EXP(a) + EXP(b))),
    "torch::empty": f_make(False), "torch::zeros": f_make(True), "torch::tensor": f_tensor,
}


def _value_or(ex, loc, ref, args, t):
    o = ex.load(loc)
    d = ex.ev(args[0])
    return o.val if o.val is not None else d


METHODS = [
    (lambda c: c in ("at::TensorBase", "at::Tensor"), {
        "dim": lambda ex, loc, *a: z3.IntVal(len(of(ex, loc).dims)), "size": t_size, "stride": t_stride, "get_device": lambda *a: z3.IntVal(-1),
        "scalar_type": lambda ex, loc, *a: of(ex, loc).st, "dtype": lambda ex, loc, *a: of(ex, loc).st,
        "device": lambda *a: Obj("device"), "accessor": t_accessor, "reshape": t_reshape, "expand": t_expand,
        "is_cuda": lambda *a: z3.BoolVal(False), "is_contiguous": lambda *a: z3.BoolVal(True),
        "contiguous": lambda ex, loc, *a: of(ex, loc),
        "to": t_to, "data_ptr": t_data_ptr, "options": lambda ex, loc, *a: Obj("topts", st=of(ex, loc).st),
        "sizes": lambda ex, loc, *a: Obj("sizes", n=flat_of(ex, loc).n, shape=flat_of(ex, loc).shape),
        "requires_grad": lambda ex, loc, *a: flat_of(ex, loc).requires_grad,
        "numel": lambda ex, loc, *a: of(ex, loc).n if of(ex, loc).dims is None else simp(z3.Product(*of(ex, loc).dims)) if len(of(ex, loc).dims) > 1 else of(ex, loc).dims[0]}),
    (lambda c: c.startswith("at::TensorAccessor"), {"operator[]": acc_at, "size": acc_size}),
    (lambda c: c == "c10::Device", {"is_cpu": lambda ex, *a: (ex.trusted.add("the device is the CPU (GetDeviceType() == kCpu); CUDA branches are not verified"), z3.BoolVal(True))[1],
                                    "type": lambda *a: z3.IntVal(0)}),
    (lambda c: c == "c10::TensorOptions", {"dtype": o_dtype, "device": lambda ex, loc, *a: ex.load(loc)}),
    (lambda c: c.startswith("ska::flat_hash_map"), {"operator[]": kv_at}),
    (lambda c: c == "c10::IValue", {"operator=": iv_assign, "toDouble": lambda ex, loc, *a: ex.load(loc)}),
    (lambda c: c == "torch::autograd::AutogradContext", {
        "save_for_backward": save_vars, "get_saved_variables": lambda ex, loc, *a: ex.load(loc).vars}),
    (lambda c: c == "std::optional<at::Tensor>", {
        "has_value": lambda ex, loc, *a: z3.BoolVal(ex.load(loc).val is not None), "value_or": _value_or,
        "value": lambda ex, loc, *a: ex.load(loc).val, "operator*": lambda ex, loc, *a: ("loc", Tmp(ex.load(loc).val)),
        "operator bool": lambda ex, loc, *a: z3.BoolVal(ex.load(loc).val is not None)}),
]


def ctor_first(ex, ref, args, t):
    return ex.ev(args[0]) if args else Obj("undefined")


def pair_ctor(ex, ref, args, t):
    a, b = [ex.ev(x) for x in args[:2]]
    return Obj("pair", first=a, second=b)


def options_ctor(ex, ref, args, t):
    if not args:
        return Obj("topts", st=z3.IntVal(FLOAT))
    v = ex.ev(args[0])
    if isinstance(v, Obj) and v.kind == "topts":
        return v
    return Obj("topts", st=v if z3.is_expr(v) and z3.is_int(v) else z3.IntVal(FLOAT))


CTORS = {
    "at::Tensor::Tensor": ctor_first, "c10::Scalar::Scalar": ctor_first, "c10::IValue::IValue": ctor_first,
    "k2::DeviceGuard::DeviceGuard": lambda *a: Obj("misc"), "std::pair::pair": pair_ctor,
    "std::basic_string::basic_string": lambda *a: Obj("str"), "c10::ArrayRef::ArrayRef": lambda ex, ref, args, t: ex.ev(args[0]) if args else Vec(LONGTY, []), "c10::Device::Device": lambda *a: Obj("device"),
    "torch::detail::TensorDataContainer::TensorDataContainer": ctor_first, "c10::TensorOptions::TensorOptions": options_ctor,
    "std::nullopt_t::nullopt_t": lambda *a: Obj("misc"), "std::optional::optional": lambda ex, ref, args, t: ex.ev(args[0]) if args else Obj("misc"),
    "std::allocator::allocator": lambda *a: Obj("misc"),
}

"""Contracts: registration, verification of a body against its contract, and
use of the contract at call sites."""
import z3
from . import vc
from .vc import (Ptr, Arr, Rec, Obj, Vec, NULL, CTX, VOID, Region, NullPtr, CellLoc,
                 MemLoc, FieldLoc, ItemLoc, Tmp, Unsupported, PathEnd, I, simp)

REG = []          # all contracts


class Contract:
    def __init__(self, q, fn, tu, props, nparams=None, targs=None, ptypes=None, loops=None,
                 opts=None, bounded=None, inst=None, label=None, optional_inst=False):
        self.q, self.fn, self.tu, self.props = q, fn, tu, props
        self.nparams, self.targs, self.ptypes = nparams, targs, ptypes
        self.loops = loops or {}
        self.opts = opts or {}
        self.bounded = bounded      # text of a bound, if the contract is only for bounded shapes
        self.label = label or fn.__name__
        self.only_call = False
        self.trusted = None

    def matches(self, q, ptypes, targs=None):
        if q != self.q:
            return False
        if self.nparams is not None and len(ptypes) != self.nparams:
            return False
        if self.ptypes is not None:
            for k, want in self.ptypes.items():
                if k >= len(ptypes) or not want(ptypes[k]):
                    return False
        if self.targs is not None and targs is not None and not self.targs(targs):
            return False
        return True


def contract(q, tu, props, cases=None, **kw):
    """cases: the contract is verified once per case (fn(view, case)), in parallel"""
    def deco(fn):
        for x in cases or ():
            name = x if isinstance(x, str) else ", ".join(x)
            REG.append(Contract(q, lambda v, x=x: fn(v, x), tu, props, label=f"{fn.__name__}[{name}]", **kw))
        if cases:
            return fn
        c = Contract(q, fn, tu, props, **kw)
        REG.append(c)
        return fn
    return deco


def trusted(q, reason, **kw):
    """contract assumed without proof (listed in the trusted base)"""
    def deco(fn):
        c = Contract(q, fn, None, [], **kw)
        c.only_call = True
        c.trusted = reason
        REG.append(c)
        return fn
    return deco


class MemView:
    """a memory snapshot: view(ptr_or_arr)[i] -> term"""

    def __init__(self, ex, mem):
        self.ex, self.mem = ex, mem

    def __call__(self, p, path=()):
        if isinstance(path, str):
            path = (path,)
        if isinstance(p, Arr):
            p = p.ptr
        return Sel(self, p, tuple(path))


class Sel:
    def __init__(self, view, p, path):
        self.view, self.p, self.path = view, p, path

    def __getitem__(self, i):
        if isinstance(i, int):
            i = z3.IntVal(i)
        if isinstance(self.p, NullPtr):
            raise Unsupported("contract reads a null pointer")
        key = (self.p.region.id, self.path)
        a = self.view.mem[key]
        off = i if vc.conc(self.p.off) == 0 else self.p.off + i
        ou = getattr(self.p.region, "outer", None)
        if ou is not None:
            return z3.Select(z3.Select(a, ou), off)
        return z3.Select(a, off)


class LoopView:
    """what a loop invariant may speak about"""

    def __init__(self, ex, frame, entry):
        self.ex, self.frame, self.entry_state = ex, frame, entry
        self.now = MemView(ex, ex.st.mem)
        self.entry = MemView(ex, entry.mem)
        self.variant = None
        self.v = ex.view

    @property
    def old(self):
        return self.v.old_view

    def var(self, name, default=None):
        if name in self.frame.names:
            return self.ex.load(self.frame.names[name])
        for fr in reversed(self.ex.stack):
            if name in fr.names:
                return self.ex.load(fr.names[name])
        if default is not None:
            return default
        raise Unsupported(f"loop invariant speaks about '{name}', which no longer exists")

    def entry_var(self, name):
        loc = self.frame.names[name]
        return self.entry_state.cells[loc.cell]


def obj(loc):
    return Obj("addr", loc=loc)


class View:
    """the argument of a contract function, in both modes"""

    def __init__(self, ex, mode, ptypes, args=None, fn=None, this=None, ret_type=None, cname=""):
        self.ex, self.mode, self.ptypes = ex, mode, ptypes
        self.args = list(args) if args is not None else [None] * len(ptypes)
        self.fn, self.ret_type = fn, ret_type
        self.this_loc = this
        self.result = None
        self.old_view = None
        self.cname = cname
        self.pnames = [p["name"] or f"arg{i}" for i, p in enumerate(fn["params"])] if fn else \
            [f"arg{i}" for i in range(len(ptypes))]

    @property
    def verifying(self):
        return self.mode == 'verify'

    # ---- arguments -------------------------------------------------
    def _raw(self, k):
        a = self.args[k]
        if isinstance(a, (CellLoc, MemLoc, FieldLoc, ItemLoc, Tmp)) and True:
            return self.ex.load(a)
        return a

    def int(self, k):
        """value of an integer/float/bool parameter (by value or const ref)"""
        if self.args[k] is None:
            t = self.ptypes[k]
            if t[0] == 'ref':
                t = t[1]
            self.args[k] = self.ex.havoc_val(self.pnames[k], t)
        return self._raw(k)

    val = int

    def ctx(self, k):
        if self.args[k] is None:
            self.args[k] = CTX
        return CTX

    def elem(self, k):
        t = self.ptypes[k]
        while t[0] in ('ref', 'ptr'):
            t = t[1]
        return t

    def this_arr(self):
        """the Array1 a member function is called on"""
        if self.this_loc is None:
            a = self.new_arr(arr_elem(['rec', self.fn["cls"]]), None, "this", fresh=False)
            self.ex.assume(a.dim >= 0)
            self.longer(a)
            self.this_loc = self.ex.new_cell(a)
            return a
        return self.ex.load(self.this_loc)

    def longer(self, a):
        """the memory behind an array may be longer than the array"""
        n = self.ex.fresh("extent")
        self.ex.assume(n >= a.dim)
        a.ptr.region.size = n

    def this_rec(self, make):
        """the object a member function is called on"""
        if self.this_loc is None:
            self.this_loc = self.ex.new_cell(make())
        return self.ex.load(self.this_loc)

    def paths(self, a):
        """the fields of the elements of an array"""
        rid = (a.ptr if isinstance(a, Arr) else a).region.id
        return [path for r, path in self.ex.st.mem if r == rid]

    def ptr(self, k, size, null=False):
        """pointer to at least `size` elements"""
        if isinstance(size, int):
            size = z3.IntVal(size)
        if self.args[k] is None:
            if null:
                self.args[k] = NULL
            else:
                t = self.ptypes[k]
                while t[0] in ('ref',):
                    t = t[1]
                r = self.ex.new_region(self.pnames[k], t[1], size, fresh=False)
                self.args[k] = Ptr(r, z3.IntVal(0), t[1])
            return self.args[k]
        p = self._raw(k)
        if self.mode == 'call' and not null:
            self.extent(p, size, f"argument {k} of {self.cname}")
        return p

    def extent(self, p, size, note):
        if isinstance(p, NullPtr):
            self.ex.check("precondition", size <= 0, note + " is not null")
        elif isinstance(p, Ptr) and p.region.size is not None:
            self.ex.check("precondition",
                          z3.Or(size <= 0, z3.And(p.off >= 0, p.off + size <= p.region.size)),
                          note + " has enough elements")

    def arr(self, k, dim=None, ty=None):
        """Array1<T> passed by value, (const) reference or non-null pointer"""
        if self.args[k] is None:
            t = self.elem(k)
            ty = ty or arr_elem(t)
            a = self.new_arr(ty, dim if dim is not None else None, self.pnames[k], fresh=False)
            if dim is None:
                self.ex.assume(a.dim >= 0)
            pt = self.ptypes[k]
            if pt[0] == 'ptr':
                loc = self.ex.new_cell(a)
                self.args[k] = obj(loc)
            elif pt[0] == 'ref':
                self.args[k] = self.ex.new_cell(a)
            else:
                self.args[k] = a
            return a
        return self._obj(k)

    def shape(self, k, naxes):
        """RaggedShape parameter with a given number of axes (by value, reference or pointer)"""
        if self.args[k] is None:
            from . import model
            s = model.fresh_shape(self.ex, naxes, self.pnames[k])
            pt = self.ptypes[k]
            if pt[0] == 'ptr':
                self.args[k] = obj(self.ex.new_cell(s))
            elif pt[0] == 'ref':
                self.args[k] = self.ex.new_cell(s)
            else:
                self.args[k] = s
            return s
        s = self._obj(k)
        if getattr(s, "raw", False):
            raise Unsupported("a shape whose contents are not shown yet is passed on")
        return s

    def ragged(self, k, naxes, ty=None):
        if self.args[k] is None:
            from . import model
            t = self.elem(k)
            ty = ty or ragged_elem(t)
            s = model.fresh_ragged(self.ex, naxes, ty, self.pnames[k])
            pt = self.ptypes[k]
            if pt[0] == 'ptr':
                self.args[k] = obj(self.ex.new_cell(s))
            elif pt[0] == 'ref':
                self.args[k] = self.ex.new_cell(s)
            else:
                self.args[k] = s
            return s
        return self._obj(k)

    def _obj(self, k):
        a = self._raw(k)
        if isinstance(a, Obj) and a.kind == 'addr':
            a = self.ex.load(a.loc)
        if isinstance(a, Ptr):
            a = self.ex.load(MemLoc(a))
        return a

    def out(self, k):
        """current object behind a pointer/reference parameter"""
        return self._obj(k)

    def out_param(self, k, make):
        """pure output parameter: pointer to object that the function sets"""
        if self.args[k] is None:
            loc = self.ex.new_cell(make())
            self.args[k] = obj(loc) if self.ptypes[k][0] == 'ptr' else loc
        return self.args[k]

    def null(self, k):
        if self.args[k] is None:
            self.args[k] = NULL
        return isinstance(self._raw(k), NullPtr)

    def is_null(self, k):
        return isinstance(self._raw(k), NullPtr)

    def fork_null(self, k):
        """verify mode: explore both NULL and non-NULL; call mode: the fact"""
        if self.verifying and self.args[k] is None:
            if self.ex.decide(2) == 0:
                self.args[k] = NULL
                return True
            return False
        return self.is_null(k)

    def set_out(self, k, v):
        """call mode: assign the object behind an output parameter"""
        a = self.args[k]
        if isinstance(a, (CellLoc, FieldLoc, ItemLoc, MemLoc)):
            x = None
            try:
                x = self.ex.load(a) if self.ptypes[k][0] == 'ptr' else None
            except Unsupported:
                x = None
            if isinstance(x, Obj) and x.kind == 'addr':
                a = x.loc
            self.ex.store(a, v)
        elif isinstance(a, Obj) and a.kind == 'addr':
            self.ex.store(a.loc, v)
        elif isinstance(a, Ptr):
            self.ex.store(MemLoc(a), v)
        elif isinstance(a, NullPtr):
            pass
        else:
            raise Unsupported(f"output parameter {a}")

    def new_arr(self, ty, dim=None, name="ans", fresh=True):
        ex = self.ex
        if dim is None:
            dim = ex.fresh(name + "_dim")
        if isinstance(dim, int):
            dim = z3.IntVal(dim)
        r = ex.new_region(name, ty, dim, fresh=fresh)
        return Arr(Ptr(r, z3.IntVal(0), ty), dim, ty)

    # ---- logic -----------------------------------------------------
    def requires(self, f, name=""):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if self.verifying:
            self.ex.assume(f)
        else:
            self.ex.check("precondition", f, f"of {self.cname}: {name}")

    def fresh(self, name, sort=I):
        return self.ex.fresh(name, sort)

    def fresh_fn(self, name, *sorts):
        return self.ex.fresh_fn(name, *sorts)

    def mem(self, p, path=()):
        """memory now"""
        return MemView(self.ex, self.ex.st.mem)(p, path)

    def old(self, p, path=()):
        return self.old_view(p, path)

    def body(self, modifies=(), ret=None, outs=None):
        """run (verify) or abstract (call) the body.

        modifies: list of (ptr|arr, lo, hi[, paths]) ranges the function may write.
        ret: call mode - function making the result value.
        outs: call mode - {param index: function making the new object}"""
        ex = self.ex
        self.old_view = MemView(ex, dict(ex.st.mem))
        mods = []
        for m in modifies:
            if isinstance(m, Obj):      # a tensor: any element
                m = (Ptr(m.region, z3.IntVal(0), m.ty), None, None)
            p, lo, hi = m[0], m[1], m[2]
            paths = m[3] if len(m) > 3 else None
            if isinstance(p, Arr):
                p = p.ptr
            mods.append((p, lo, hi, paths))
        if self.verifying:
            ex.written = {}
            pre = dict(ex.st.mem)
            prereg = set(r for r, _ in pre)
            ex.reach.append((f"{ex.fname}: precondition satisfiable", list(ex.st.pc)))
            self.result = ex.run_function(self.fn, self.args, self.this_loc)
            # frame
            for rid, reg in list(ex.written.items()):
                if rid not in prereg:
                    continue
                for (r2, path), a0 in pre.items():
                    if r2 != rid or isinstance(a0, dict):
                        continue
                    a1 = ex.st.mem[(rid, path)]
                    if a1 is a0 or a1.eq(a0):
                        continue
                    x = z3.Const("fx", I)
                    allowed = []
                    for p, lo, hi, paths in mods:
                        if isinstance(p, Ptr) and p.region is reg and (paths is None or path in [tuple(q) if not isinstance(q, str) else (q,) for q in paths]):
                            allowed.append(z3.BoolVal(True) if lo is None else z3.And(x >= p.off + lo, x < p.off + hi))
                    if any(z3.is_true(a) for a in allowed):
                        continue
                    if reg.size is not None:
                        inside = z3.And(0 <= x, x < reg.size)
                        if any(z3.is_true(z3.simplify(z3.simplify(a) == z3.simplify(inside))) or z3.simplify(a).eq(z3.simplify(z3.And(x >= 0, x < reg.size))) for a in allowed):
                            ex.oblige("frame", z3.BoolVal(True), f"nothing else of {reg.name} changes")
                            continue
                    else:
                        inside = z3.BoolVal(True)
                    ex.oblige("frame", z3.ForAll([x], z3.Implies(
                        z3.And(inside, z3.Not(z3.Or(*allowed))) if allowed else inside,
                        z3.Select(a1, x) == z3.Select(a0, x))),
                        f"nothing else of {reg.name} changes")
        else:
            for p, lo, hi, paths in mods:
                if isinstance(p, Ptr) and any(ex.shared(k) for k in ex.st.mem if k[0] == p.region.id):
                    raise Unsupported("writing call inside a parallel loop")
            for p, lo, hi, paths in mods:
                if isinstance(p, NullPtr) or p is None:
                    continue
                for (rid, path) in list(ex.st.mem):
                    if rid != p.region.id:
                        continue
                    if paths is not None and path not in [tuple(q) if not isinstance(q, str) else (q,) for q in paths]:
                        continue
                    a0 = ex.st.mem[(rid, path)]
                    if isinstance(a0, dict):
                        continue
                    a1 = ex.fresh("C_" + p.region.name, a0.sort())
                    x = z3.Const("fx", I)
                    whole = vc.conc(p.off) == 0 and p.region.size is not None and \
                        z3.is_true(z3.simplify(z3.And(lo <= 0, hi >= p.region.size) if not isinstance(lo, int) or not isinstance(hi, int) else z3.BoolVal(False)))
                    if not whole:
                        ex.assume(z3.ForAll([x], z3.Implies(
                            z3.Not(z3.And(x >= p.off + lo, x < p.off + hi)),
                            z3.Select(a1, x) == z3.Select(a0, x)), patterns=[z3.Select(a1, x)]))
                    ex.st.mem[(rid, path)] = a1
                    ex.written[rid] = p.region
            for k, mk in (outs or {}).items():
                self.set_out(k, mk())
            self.result = ret() if ret is not None else VOID

    def ensures(self, f, name=""):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if self.verifying:
            self.ex.oblige("postcondition", f, name)
        else:
            self.ex.assume(f)

    def lemma(self, f, name=""):
        """verify mode: prove f here, then use it; call mode: nothing"""
        if self.verifying:
            self.ex.check("lemma", f, name)

    def pull(self, name, f, terms, pats, n=1):
        """verify mode: prove forall x: f(x) while looking at terms(x) (touch is an arbitrary
        predicate, so nothing is assumed), then use it"""
        if not self.verifying:
            return
        from . import model
        xs = [self.ex.fresh("pull") for _ in range(n)]
        self.ex.oblige("lemma", z3.Implies(z3.And(*[model.touch(t) for t in terms(*xs)]), f(*xs)), name)
        self.ex.assume(forall(n, f, pats))

    def induction(self, name, P, lo, hi, down=False, pat=None):
        """verify mode: prove P(k) for lo <= k < hi by induction (two
        obligations), then use it"""
        if not self.verifying:
            return
        k = self.ex.fresh("ind")
        if down:
            self.ex.oblige("lemma", z3.Implies(lo < hi, P(hi - 1)), name + " (base)")
            self.ex.oblige("lemma", z3.Implies(z3.And(lo <= k, k + 1 < hi, P(k + 1)), P(k)), name + " (step)")
        else:
            self.ex.oblige("lemma", z3.Implies(lo < hi, P(lo if z3.is_expr(lo) else z3.IntVal(lo))), name + " (base)")
            self.ex.oblige("lemma", z3.Implies(z3.And(lo <= k, k + 1 < hi, P(k)), P(k + 1)), name + " (step)")
        self.ex.assume(forall(["ki"], lambda j: imp(lo <= j, j < hi, P(j)), pat))

    def mono(self, G, n, name, nonneg=False):
        """verify mode: G[0..n) (a sequence with __getitem__) is non-decreasing,
        from its neighbours"""
        if not self.verifying:
            return
        from . import model
        self.ex.check("lemma", adjacent(G, n), name + ": neighbours")
        model.adjacent_monotone(self.ex)
        self.ex.assume(monotone(G, n))

    def seq(self, name, f, lo, hi, pat):
        """a ghost sequence G with G[i] == f(i) for lo <= i < hi"""
        F = self.ex.fresh_fn(name, I, I)
        self.ex.assume(forall(["gi"], lambda i: imp(lo <= i, i < hi, F(i) == f(i)), pat))
        self.ex.assume(forall(["gi"], lambda i: imp(lo <= i, i < hi, F(i) == f(i)), lambda i: F(i)))
        return Fn(F)

    def local(self, name):
        """verify mode: a local variable of the function being executed"""
        for fr in reversed(self.ex.stack):
            if name in fr.names:
                return self.ex.load(fr.names[name])
        raise Unsupported(f"the contract speaks about local '{name}', which no longer exists")

    def witness(self, f):
        """verify mode: f(r, j) gives terms worth looking at when it is shown
        that the row ids of a new shape name the sublist r that holds j"""
        if self.verifying:
            self.ex.row_witness = getattr(self.ex, "row_witness", []) + [f]

    def look(self, f):
        """verify mode: f() gives terms worth looking at when a shape is made"""
        if self.verifying:
            self.ex.shape_look = getattr(self.ex, "shape_look", []) + [f]

    def at_shape(self, f):
        """verify mode: run f() (lemmas) once, when the first shape is about to be made in this path"""
        if self.verifying:
            done = []

            def once():
                if not done:
                    done.append(1)
                    f()
                return []
            self.look(once)

    def before(self, q, f):
        """verify mode: f(call view) (lemmas) whenever a function under contract is about to be called"""
        if self.verifying:
            self.ex.before.setdefault(q, []).append(lambda cv: f(cv))

    def after(self, q, f):
        """verify mode: f(call view) (lemmas) whenever a function under contract was called"""
        if self.verifying:
            self.ex.after.setdefault(q, []).append(lambda cv: f(cv))

    def division(self, d):
        """definition of quotient and remainder by d, wherever one is mentioned"""
        self.ex.assume(forall(["dv"], lambda e: vc.div_def(e, d), lambda e: vc.DIV(e, d)))

    def multiples(self, d):
        from . import model
        return model.multiples(self.ex, d)

    def define(self, f):
        """defining equation of a ghost (spec) function: assumed in both modes"""
        self.ex.assume(f)

    def hint(self, f):
        """verify mode only: an axiom instance justified by induction (see
        lemmas.py, each proved by base+step there)"""
        if self.verifying:
            self.ex.assume(f)


class Fn:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, i):
        return self.f(i if not isinstance(i, int) else z3.IntVal(i))


def parse_type(s):
    s = s.strip()
    if s.endswith("*"):
        return ['ptr', parse_type(s[:-1])]
    if s.startswith("const "):
        return parse_type(s[6:])
    if s.endswith(" const"):
        return parse_type(s[:-6])
    m = {"int": ['int', 32, True], "unsigned int": ['int', 32, False], "float": ['float', 32],
         "double": ['float', 64], "bool": ['bool'], "long": ['int', 64, True],
         "unsigned long": ['int', 64, False], "short": ['int', 16, True], "char": ['int', 8, True],
         "signed char": ['int', 8, True], "unsigned char": ['int', 8, False],
         "unsigned short": ['int', 16, False], "unsigned long long": ['int', 64, False],
         "long long": ['int', 64, True], "void": ['void']}
    if s in m:
        return m[s]
    return ['rec', s]


def tmpl_arg(s, n=0):
    """n-th template argument of 'A<x, y>'"""
    i = s.index("<")
    depth, cur, out = 0, "", []
    for ch in s[i + 1:]:
        if ch == "<":
            depth += 1
        if ch == ">":
            if depth == 0:
                break
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
            continue
        cur += ch
    out.append(cur)
    return out[n].strip()


def arr_elem(t):
    return parse_type(tmpl_arg(t[1]))


ragged_elem = arr_elem


def strip_targs(q):
    out, depth = "", 0
    i = 0
    while i < len(q):
        ch = q[i]
        if ch == "<" and not q[:i].endswith("operator") and not q[:i].endswith("operator<"):
            depth += 1
        elif ch == ">" and depth > 0:
            depth -= 1
        elif depth == 0:
            out += ch
        i += 1
    return out


def find(q, ptypes, targs=None):
    q = strip_targs(q)
    for c in REG:
        if c.matches(q, ptypes, targs):
            return c
    return None


# ---- common predicates -------------------------------------------------
def forall(n, f, pats=None):
    xs = [z3.Int(f"q{i}") for i in range(n)] if isinstance(n, int) else [z3.Int(s) for s in n]
    b = f(*xs)
    p = [pats(*xs)] if pats else []
    if p and isinstance(p[0], (list, tuple)):
        if not all(pattern_ok(t) for t in p[0]):
            p = []
        else:
            p = [z3.MultiPattern(*p[0])] if len(p[0]) > 1 else list(p[0])
    elif p and not pattern_ok(p[0]):
        p = []
    return z3.ForAll(xs, b, patterns=p)


def pattern_ok(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        if z3.is_app(x):
            k = x.decl().kind()
            if k in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE,
                     z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
                return False
            todo += x.children()
    return True



def imp(*a):
    return z3.Implies(z3.And(*a[:-1]), a[-1])


And, Or, Not, If, Implies, Exists, ForAll = z3.And, z3.Or, z3.Not, z3.If, z3.Implies, z3.Exists, z3.ForAll


def monotone(a, n):
    """a[0..n) is non-decreasing (pairwise form)"""
    return forall(2, lambda i, j: imp(0 <= i, i <= j, j < n, a[i] <= a[j]),
                  lambda i, j: (a[i], a[j]))


def adjacent(a, n):
    return forall(1, lambda i: imp(0 <= i, i + 1 < n, a[i] <= a[i + 1]), lambda i: a[i])


def is_row_splits(rs, n):
    """rs[0..n] are offsets of n sublists"""
    return z3.And(rs[0] == 0, monotone(rs, n + 1))


def is_row_ids(rs, ri, n, m):
    return forall(1, lambda j: imp(0 <= j, j < m, z3.And(
        0 <= ri[j], ri[j] < n, rs[ri[j]] <= j, j < rs[ri[j] + 1])), lambda j: ri[j])


def zmax(a, b):
    return z3.If(a >= b, a, b)


def zmin(a, b):
    return z3.If(a <= b, a, b)

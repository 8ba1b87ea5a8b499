"""Verification-condition generator for k2's C++ code.

Input: the records written by k2extract (typed statements/expressions of the
real function bodies, taken from /repo's current source on every run).
Output: a list of proof obligations (z3 formulas), one per assertion: callee
preconditions, K2_CHECKs, array bounds, loop-invariant initiation/preservation,
race freedom of parallel loops, frame conditions and postconditions.

Method: forward symbolic execution (strongest postconditions), paths enumerated
by re-execution; loops are cut by invariants or by the parallel-for rule;
calls to functions under contract use the contract; other calls into /repo are
executed in place (inlined).

Machine integers are treated as mathematical integers, floats as reals (both
listed as assumptions in the evidence).
"""
import itertools
import z3

I = z3.IntSort()
R = z3.RealSort()


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """The current path is finished (loop body checked, infeasible, throw)."""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


# ---------------------------------------------------------------- values
class Region:
    """A block of memory holding `size` elements of scalar/struct type."""
    _n = itertools.count()

    def __init__(self, name, ty, size):
        self.name, self.ty, self.size = name, ty, size
        self.id = next(Region._n)
        self.fresh = False

    def __repr__(self):
        return f"<{self.name}>"


class Ptr:
    def __init__(self, region, off, ty):
        self.region, self.off, self.ty = region, off, ty

    def add(self, k):
        return Ptr(self.region, simp(self.off + k), self.ty)

    def __repr__(self):
        return f"Ptr({self.region},{self.off})"


class NullPtr:
    region = None


NULL = NullPtr()


class MaybeNull:
    """A pointer parameter which is either NULL or valid (decided by fork)."""


class Rec:
    """A struct value."""

    def __init__(self, ty, f=None):
        self.ty, self.f = ty, dict(f or {})

    def copy(self):
        return Rec(self.ty, {k: copyval(v) for k, v in self.f.items()})

    def __repr__(self):
        return f"Rec({self.ty},{self.f})"


class Arr:
    """k2::Array1<T>: shares its region when copied (model of array.h)."""

    def __init__(self, ptr, dim, ty):
        self.ptr, self.dim, self.ty = ptr, dim, ty
        self.invalid = False

    def copy(self):
        a = Arr(self.ptr, self.dim, self.ty)
        a.invalid = self.invalid
        return a

    def __repr__(self):
        return f"Arr({self.ptr},{self.dim})"


class Vec:
    """std::vector with concretely many elements."""

    def __init__(self, ty, items=()):
        self.ty, self.items = ty, list(items)

    def copy(self):
        return Vec(self.ty, [copyval(x) for x in self.items])


class Obj:
    """Opaque modelled object: kind + python attributes."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def copy(self):
        o = Obj(self.kind)
        o.__dict__.update({k: copyval(v) for k, v in self.__dict__.items() if k != 'kind'})
        return o

    def __repr__(self):
        return f"Obj({self.kind})"


class Closure:
    def __init__(self, op, env, lam):
        self.op, self.env, self.lam = op, env, lam

    def copy(self):
        return self


CTX = Obj("ctx")
CTX.copy = lambda: CTX
VOID = Obj("void")


def copyval(v):
    return v.copy() if hasattr(v, "copy") and not isinstance(v, (z3.AstRef, dict, list)) else v


# ---------------------------------------------------------------- lvalues
class CellLoc:
    def __init__(self, cell):
        self.cell = cell


class MemLoc:
    """element at ptr (struct element: whole struct), or one field path of it."""

    def __init__(self, ptr, path=()):
        self.ptr, self.path = ptr, tuple(path)


class FieldLoc:
    """field of a Rec/Obj stored at an outer location (a cell)."""

    def __init__(self, base, name):
        self.base, self.name = base, name


class ItemLoc:
    """element of a Vec / fixed C array stored at an outer location."""

    def __init__(self, base, idx):
        self.base, self.idx = base, idx


class Tmp:
    """temporary value used as an lvalue (e.g. member of an rvalue)."""

    def __init__(self, v):
        self.v = v


def simp(e):
    if isinstance(e, (int, bool)):
        return z3.IntVal(e) if not isinstance(e, bool) else z3.BoolVal(e)
    return z3.simplify(e)


def conc(e):
    """python int if the term is a numeral, else None"""
    if isinstance(e, int):
        return e
    if z3.is_expr(e):
        s = z3.simplify(e)
        if z3.is_int_value(s):
            return s.as_long()
    return None


def tstr(t):
    if t[0] == 'rec':
        return t[1]
    return str(t)


class Cell:
    __slots__ = ()


class State:
    def __init__(self):
        self.mem = {}      # (region.id, path) -> z3 array
        self.cells = {}    # cell id -> value
        self.pc = []       # assumptions
        self.cond = []     # parallel to pc: True for branch conditions
        self.ncell = 0

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.cells = {k: copyval(v) for k, v in self.cells.items()}
        s.pc = list(self.pc)
        s.cond = list(self.cond)
        s.ncell = self.ncell
        return s


class Obligation:
    def __init__(self, name, kind, hyps, goal, fn, line):
        self.name, self.kind, self.hyps, self.goal = name, kind, hyps, goal
        self.fn, self.line = fn, line


def sort_of(t):
    if t[0] in ('int', 'enum'):
        return I
    if t[0] == 'bool':
        return z3.BoolSort()
    if t[0] == 'float':
        return R
    raise Unsupported(f"sort of {t}")


class Program:
    """Functions and records of one translation unit."""

    def __init__(self, data):
        self.fns = {f["id"]: f for f in data["fns"]}
        self.roots = data["roots"]
        self.records = data["records"]
        self.by_q = {}
        for f in data["fns"]:
            self.by_q.setdefault(f["q"], []).append(f)

    def leaves(self, t, path=()):
        """scalar leaf paths of a memory element type"""
        if t[0] in ('int', 'enum', 'bool', 'float'):
            return [(path, t)]
        if t[0] == 'rec' and t[1] in self.records:
            out = []
            for b in self.records[t[1]]["bases"]:
                out += self.leaves(b, path)
            for f in self.records[t[1]]["fields"]:
                out += self.leaves(f["type"], path + (f["name"],))
            return out
        if t[0] == 'ptr':
            return [(path, t)]
        raise Unsupported(f"memory element type {t}")


class Frame:
    def __init__(self, fn, this=None):
        self.fn, self.this = fn, this
        self.vars = {}     # decl id -> location
        self.names = {}    # name -> location


class Exec:
    def __init__(self, prog, contracts, name, loops=None, opts=None):
        self.prog, self.contracts, self.fname = prog, contracts, name
        self.loops = loops or {}
        self.opts = opts or {}
        self.obligs = []
        self.oblig_keys = set()
        self.st = State()
        self.trace, self.pos = [], 0
        self.counter = 0
        self.stack = []
        self.log = None          # access log for the parallel-for rule
        self.loop_ids = {}       # node id -> ordinal
        self.line = 0
        self.depth = 0
        self.verified_calls = set()
        self.inlined = set()
        self.trusted = set()
        self.written = {}        # region id -> region, for the frame check
        self.regions = {}
        self.pathno = 0
        self.ghost = {}
        self.par_npc = []
        self.par_keys = []
        self.reach = []
        self.no_contract = set()
        self.view = None
        self.dry = False         # computing what a loop writes

    # ------------------------------------------------ utilities
    def fresh(self, base, sort=I):
        self.counter += 1
        return z3.Const(f"{base}!{self.counter}", sort)

    def fresh_fn(self, base, *sorts):
        self.counter += 1
        return z3.Function(f"{base}!{self.counter}", *sorts)

    def assume(self, f, cond=False):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f):
            return
        self.st.pc.append(f)
        self.st.cond.append(cond)

    def oblige(self, kind, goal, note="", name=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        fn = self.stack[-1].fn["q"] if self.stack and self.stack[-1].fn else self.fname
        nm = name or f"{self.fname} [{kind}] {note} @line {self.line}"
        g = z3.simplify(goal)
        key = (nm, goal.get_id(), tuple(h.get_id() for h in self.st.pc))
        if key in self.oblig_keys:
            return
        self.oblig_keys.add(key)
        # keep asts alive so ids stay unique
        self.obligs.append(Obligation(nm, kind, list(self.st.pc),
                                      g if z3.is_true(g) else goal, fn, self.line))

    def check(self, kind, goal, note=""):
        """obligation, then assumed"""
        self.oblige(kind, goal, note)
        self.assume(goal)

    def branch(self, cond):
        """decide a symbolic condition; explores both outcomes over re-runs"""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        # already known?
        for h in self.st.pc:
            if h.eq(c) or h.eq(cond):
                return True
        nc = z3.simplify(z3.Not(c))
        for h in self.st.pc:
            if h.eq(nc):
                return False
        d = self.decide(2)
        if d == 0:
            self.assume(c, True)
            return True
        self.assume(nc, True)
        return False

    def decide(self, n):
        if self.pos < len(self.trace):
            d = self.trace[self.pos][0]
        else:
            d = 0
            self.trace.append([0, n])
        self.pos += 1
        return d

    def explore(self, thunk, limit=400):
        """run thunk() once per decision vector; returns [(state, result)] of
        the paths that reach its end"""
        base, st0 = (self.trace, self.pos), self.st
        results = []
        trace = []
        cnt = 0
        c0 = self.counter
        maxc = c0
        stack0 = list(self.stack)
        frames = [(f, dict(f.vars), dict(f.names)) for f in self.stack]
        while True:
            cnt += 1
            if cnt > limit:
                raise Unsupported("too many paths")
            self.trace, self.pos = trace, 0
            self.st = st0.fork()
            self.stack = list(stack0)
            self.counter = c0
            for f, v, n in frames:
                f.vars, f.names = dict(v), dict(n)
            try:
                r = thunk()
                results.append((self.st, r))
            except PathEnd:
                pass
            maxc = max(maxc, self.counter)
            trace = self.trace[:self.pos]
            while trace and trace[-1][0] + 1 >= trace[-1][1]:
                trace.pop()
            if not trace:
                break
            trace[-1][0] += 1
        self.counter = maxc
        self.trace, self.pos = base
        self.st = st0
        self.stack = stack0
        for f, v, n in frames:
            f.vars, f.names = v, n
        return results

    # ------------------------------------------------ memory
    def new_region(self, name, ty, size, init=None, fresh=True):
        r = Region(name, ty, size)
        self.counter += 1
        r.id = self.counter
        r.fresh = fresh
        self.regions[r.id] = r
        for path, lt in self.prog.leaves(ty):
            key = (r.id, path)
            if lt[0] == 'ptr':
                self.st.mem[key] = {}
                continue
            if init is not None:
                v = init
                for p in path:
                    v = v.f[p]
                self.st.mem[key] = z3.K(I, v)
            else:
                self.st.mem[key] = self.fresh("M_" + "_".join((name,) + path),
                                              z3.ArraySort(I, sort_of(lt)))
        return r

    def arr_of(self, region, path=()):
        return self.st.mem[(region.id, path)]

    def bounds(self, ptr, note):
        if ptr.region is None:
            self.oblige("bounds", z3.BoolVal(False), "null pointer access " + note)
            raise PathEnd()
        if ptr.region.size is not None:
            self.oblige("bounds", z3.And(ptr.off >= 0, ptr.off < ptr.region.size),
                        f"{note or ptr.region.name}")
            self.assume(z3.And(ptr.off >= 0, ptr.off < ptr.region.size))

    def load(self, loc):
        if isinstance(loc, CellLoc):
            v = self.st.cells.get(loc.cell)
            if v is None:
                raise Unsupported("read of uninitialised local")
            return v
        if isinstance(loc, Tmp):
            return loc.v
        if isinstance(loc, FieldLoc):
            b = self.load(loc.base)
            if isinstance(b, Rec):
                if loc.name not in b.f:
                    raise Unsupported(f"field {loc.name} of {b}")
                return b.f[loc.name]
            if isinstance(b, Obj):
                return getattr(b, loc.name)
            raise Unsupported(f"field {loc.name} of {type(b).__name__}")
        if isinstance(loc, ItemLoc):
            b = self.load(loc.base)
            return self.vec_get(b, loc.idx)
        if isinstance(loc, MemLoc):
            return self.load_mem(loc)
        raise Unsupported(f"load {loc}")

    def vec_get(self, v, idx):
        k = conc(idx)
        if k is not None:
            if not 0 <= k < len(v.items):
                self.oblige("bounds", z3.BoolVal(False), "vector index")
                raise PathEnd()
            if v.items[k] is None:
                raise Unsupported("read of uninitialised array element")
            return v.items[k]
        n = len(v.items)
        self.check("bounds", z3.And(idx >= 0, idx < n), "vector index")
        if n == 0:
            raise PathEnd()
        if all(z3.is_expr(x) for x in v.items):
            r = v.items[-1]
            for j in range(n - 2, -1, -1):
                r = z3.If(idx == j, v.items[j], r)
            return r
        for j in range(n - 1):
            if self.branch(idx == j):
                return v.items[j]
        self.assume(idx == n - 1)
        return v.items[n - 1]

    def load_mem(self, loc):
        p = loc.ptr
        if isinstance(p, NullPtr):
            self.bounds(p, "")
        self.bounds(p, "read of " + (p.region.name if p.region else ""))
        ty = p.ty
        out = None
        for path, lt in self.prog.leaves(p.region.ty):
            if path[:len(loc.path)] != loc.path:
                continue
            if lt[0] == 'ptr':
                tab = self.st.mem[(p.region.id, path)]
                v = self.ptr_get(p, tab)
            else:
                if self.log is not None:
                    self.log.append(("r", p.region, path, p.off, None, None, []))
                v = z3.Select(self.st.mem[(p.region.id, path)], p.off)
            rel = path[len(loc.path):]
            if not rel:
                return v
            if out is None:
                out = Rec(None)
            cur = out
            for q in rel[:-1]:
                cur = cur.f.setdefault(q, Rec(None))
            cur.f[rel[-1]] = v
        if out is None:
            raise Unsupported("empty struct load")
        out.ty = tstr(ty)
        return out

    def ptr_get(self, p, tab):
        if callable(tab):
            return tab(p.off)
        k = conc(p.off)
        if k is not None and k in tab:
            return tab[k]
        if not tab:
            raise Unsupported("read of uninitialised pointer array")
        ks = sorted(tab)
        for j in ks[:-1]:
            if self.branch(p.off == j):
                return tab[j]
        self.assume(p.off == ks[-1])
        return tab[ks[-1]]

    def store(self, loc, v):
        if isinstance(loc, CellLoc):
            if self.cell_guard is not None and loc.cell <= self.cell_guard:
                raise Unsupported("loop body assigns an outer local; needs an invariant")
            self.st.cells[loc.cell] = copyval(v)
            return
        if isinstance(loc, Tmp):
            loc.v = v
            return
        if isinstance(loc, FieldLoc):
            b = self.load(loc.base)
            if isinstance(b, Rec):
                b2 = Rec(b.ty, b.f)
                b2.f[loc.name] = copyval(v)
            else:
                b2 = b.copy()
                setattr(b2, loc.name, v)
            self.store(loc.base, b2)
            return
        if isinstance(loc, ItemLoc):
            b = self.load(loc.base).copy()
            k = conc(loc.idx)
            if k is None:
                self.check("bounds", z3.And(loc.idx >= 0, loc.idx < len(b.items)), "vector store")
                for j in range(len(b.items)):
                    if self.branch(loc.idx == j):
                        k = j
                        break
                else:
                    raise PathEnd()
            if not 0 <= k < len(b.items):
                self.oblige("bounds", z3.BoolVal(False), "vector store")
                raise PathEnd()
            b.items[k] = copyval(v)
            self.store(loc.base, b)
            return
        if isinstance(loc, MemLoc):
            p = loc.ptr
            if isinstance(p, NullPtr):
                self.bounds(p, "")
            self.bounds(p, "write of " + (p.region.name if p.region else ""))
            self.written[p.region.id] = p.region
            for path, lt in self.prog.leaves(p.region.ty):
                if path[:len(loc.path)] != loc.path:
                    continue
                x = v
                for q in path[len(loc.path):]:
                    x = x.f[q]
                key = (p.region.id, path)
                if lt[0] == 'ptr':
                    if self.shared(key):
                        raise Unsupported("pointer store in a parallel loop")
                    k = conc(p.off)
                    if k is None:
                        raise Unsupported("pointer store at symbolic index")
                    t = dict(self.st.mem[key])
                    t[k] = x
                    self.st.mem[key] = t
                    continue
                if self.log is not None:
                    self.log.append(("w", p.region, path, p.off, None, x, []))
                self.st.mem[key] = z3.Store(self.st.mem[key], p.off, self.coerce(x, lt))
            return
        raise Unsupported(f"store {loc}")

    cell_guard = None

    def shared(self, key):
        """is this memory visible to other iterations of an enclosing parallel loop?"""
        return any(key in ks for ks in self.par_keys)

    def new_cell(self, v):
        self.st.ncell += 1
        c = self.st.ncell
        self.st.cells[c] = v
        return CellLoc(c)

    def coerce(self, v, t):
        if t[0] in ('int', 'enum') and z3.is_expr(v) and z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if t[0] == 'bool' and z3.is_expr(v) and not z3.is_bool(v):
            return v != 0
        if t[0] == 'float' and z3.is_expr(v) and z3.is_int(v):
            return z3.ToReal(v)
        if t[0] in ('int', 'enum') and z3.is_expr(v) and z3.is_real(v):
            # C truncation toward zero
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        return v

    def default(self, t):
        k = t[0]
        if k in ('int', 'enum'):
            return z3.IntVal(0)
        if k == 'bool':
            return z3.BoolVal(False)
        if k == 'float':
            return z3.RealVal(0)
        if k == 'ptr':
            return NULL
        if k == 'rec' and t[1] in self.prog.records:
            r = Rec(t[1])
            for b in self.prog.records[t[1]]["bases"]:
                r.f.update(self.default(b).f)
            for f in self.prog.records[t[1]]["fields"]:
                r.f[f["name"]] = self.default(f["type"])
            return r
        if k == 'arr':
            return Vec(t[1], [self.default(t[1]) for _ in range(t[2])])
        raise Unsupported(f"default of {t}")

    def havoc_val(self, name, t):
        k = t[0]
        if k in ('int', 'enum'):
            return self.fresh(name)
        if k == 'bool':
            return self.fresh(name, z3.BoolSort())
        if k == 'float':
            return self.fresh(name, R)
        if k == 'rec' and t[1] in self.prog.records:
            r = Rec(t[1])
            for b in self.prog.records[t[1]]["bases"]:
                r.f.update(self.havoc_val(name, b).f)
            for f in self.prog.records[t[1]]["fields"]:
                r.f[f["name"]] = self.havoc_val(name + "_" + f["name"], f["type"])
            return r
        raise Unsupported(f"havoc of {t}")

    # ------------------------------------------------ statements
    def run_body(self, s):
        """execute a statement; control flow through exceptions"""
        if s is None:
            return
        k = s[0]
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Unsupported(f"statement {k} {s[1] if len(s) > 1 and isinstance(s[1], str) else ''}")
        m(s)

    def s_block(self, s):
        for x in s[1]:
            self.run_body(x)

    def s_once(self, s):
        try:
            self.run_body(s[1])
        except Brk:
            pass

    def s_unsupported(self, s):
        raise Unsupported(f"statement {s[1]} line {s[2]}")

    def s_decl(self, s):
        self.line = s[2]
        for v in s[1]:
            self.declare(v)

    def declare(self, v):
        fr = self.stack[-1]
        t = v["type"]
        if v.get("static"):
            raise Unsupported("static local")
        if t[0] == 'ref':
            if "init" not in v:
                raise Unsupported("reference without initialiser")
            loc = self.lval(v["init"])
        else:
            if "init" in v:
                val = self.ev(v["init"])
                val = copyval(self.conv(val, t))
            elif t[0] == 'arr':
                val = Vec(t[1], [None] * t[2])
            elif t[0] in ('int', 'enum', 'bool', 'float'):
                val = self.havoc_val(v["name"] + "_uninit", t)
            elif t[0] == 'ptr':
                val = NULL
            elif t[0] == 'rec':
                val = self.models_default(t)
            else:
                raise Unsupported(f"uninitialised {t}")
            loc = self.new_cell(val)
        fr.vars[v["id"]] = loc
        fr.names[v["name"]] = loc

    def models_default(self, t):
        from . import model
        v = model.default_ctor(self, t)
        if v is not None:
            return v
        return self.default(t)

    def conv(self, v, t):
        if t[0] in ('int', 'enum', 'bool', 'float'):
            return self.coerce(v, t)
        return v

    def s_expr(self, s):
        self.line = s[2]
        self.ev(s[1])

    def s_if(self, s):
        self.line = s[4]
        c = self.truth(self.ev(s[1]))
        if self.branch(c):
            self.run_body(s[2])
        else:
            self.run_body(s[3])

    def s_return(self, s):
        self.line = s[2]
        fr = self.stack[-1]
        if s[1] is None:
            raise Ret(VOID)
        rt = fr.fn["ret"] if fr.fn else ['void']
        if rt[0] == 'ref':
            raise Ret(("loc", self.lval(s[1])))
        v = self.ev(s[1])
        raise Ret(copyval(self.conv(v, rt)))

    def s_break(self, s):
        raise Brk()

    def s_continue(self, s):
        raise Cont()

    def s_switch(self, s):
        v = self.ev(s[1])
        body = s[2][1] if s[2][0] == 'block' else [s[2]]
        # flatten case labels
        items = []

        def flat(x):
            if x[0] == 'case':
                items.append(('case', x[1]))
                flat(x[2])
            elif x[0] == 'default':
                items.append(('default', None))
                flat(x[1])
            else:
                items.append(('stmt', x))
        for x in body:
            flat(x)
        start = None
        for i, (k, e) in enumerate(items):
            if k == 'case':
                if self.branch(v == self.ev(e)):
                    start = i
                    break
        if start is None:
            for i, (k, e) in enumerate(items):
                if k == 'default':
                    start = i
        if start is None:
            return
        try:
            for k, e in items[start:]:
                if k == 'stmt':
                    self.run_body(e)
        except Brk:
            pass

    def s_rangefor(self, s):
        _, rng, var, body, line = s
        v = self.load(self.lval(rng))
        if not isinstance(v, Vec):
            raise Unsupported("range-for over " + type(v).__name__)
        base = self.lval(rng)
        for i in range(len(v.items)):
            fr = self.stack[-1]
            if var["type"][0] == 'ref':
                loc = ItemLoc(base, z3.IntVal(i))
            else:
                loc = self.new_cell(copyval(v.items[i]))
            fr.vars[var["id"]] = loc
            fr.names[var["name"]] = loc
            try:
                self.run_body(body)
            except Brk:
                break
            except Cont:
                pass

    # ------------------------------------------------ loops
    def s_while(self, s):
        self.loop(s, None, s[1], None, s[2], s[3])

    def s_dowhile(self, s):
        # do B while(C)  ==  B; while(C) B     (break/continue inside B only at
        # the loop level are handled by the loop rule on the second copy)
        try:
            self.run_body(s[2])
        except Brk:
            return
        except Cont:
            pass
        self.loop(s, None, s[1], None, s[2], s[3])

    def s_for(self, s):
        if s[1] is not None:
            self.run_body(s[1])
        self.loop(s, s[1], s[2], s[3], s[4], s[5])

    def loop(self, node, init, cond, inc, body, line):
        self.line = line
        nid = id(node)
        # 1. concrete unrolling
        if self.try_unroll(cond, inc, body):
            return
        if nid not in self.loop_ids:
            self.loop_ids[nid] = None
        inv = self.find_invariant(node, nid, init, cond, inc, body)
        if inv is None:
            pf = self.parallel_form(init, cond, inc, body)
            if pf is not None:
                self.parallel_for(node, pf, body, line)
                return
            raise Unsupported(f"loop at line {line} has no invariant")
        self.cut_loop(inv, cond, inc, body, line)

    def find_invariant(self, node, nid, init, cond, inc, body):
        """invariants are looked up by ordinal of the loops other than K2_EVAL,
        in order of first execution"""
        if self.loop_ids[nid] is not None:
            return self.loops.get(self.loop_ids[nid])
        if self.is_k2_eval(cond, body):
            return None
        used = [x for x in self.loop_ids.values() if x is not None]
        n = len(used)
        self.loop_ids[nid] = n
        return self.loops.get(n)

    def try_unroll(self, cond, inc, body):
        """only if the condition evaluates to a constant each time"""
        if cond is None:
            if self.loops:
                return False
            cond = ['bool', True]
        lit = cond
        while lit[0] == 'cast':
            lit = lit[3]
        if lit[0] in ('int', 'bool') and self.loops:
            return False
        if cond[0] == 'bin' and cond[1] in ('!=', '<') and self.is_k2_eval(cond, body):
            b = self.ev(cond[3])
            if z3.is_expr(b) and conc(b) is None:
                return False
        n = 0
        first = True
        while True:
            sv = len(self.obligs), len(self.st.pc), self.pos
            c = z3.simplify(self.truth(self.ev(cond)))
            if z3.is_false(c):
                return True
            if not z3.is_true(c):
                if first:
                    return False
                raise Unsupported("loop condition became symbolic while unrolling")
            first = False
            n += 1
            if n > 64:
                raise Unsupported("unrolling limit")
            try:
                self.run_body(body)
            except Brk:
                return True
            except Cont:
                pass
            if inc is not None:
                self.ev(inc)

    def assigned(self, node, acc):
        """decl ids of locals syntactically assigned in a statement"""
        if isinstance(node, list) and node:
            if node[0] == 'assign':
                self.assigned_base(node[2], acc)
            elif node[0] == 'un' and node[1] in ('++', '--'):
                self.assigned_base(node[3], acc)
            elif node[0] == 'opcall' and node[1]["q"].endswith(("operator=", "operator+=", "operator++", "operator--")):
                self.assigned_base(node[2][0], acc)
            elif node[0] == 'mcall':
                # non-const methods of modelled objects (push_back ...)
                self.assigned_base(node[2], acc)
            elif node[0] in ('call',):
                for a, pt in zip(node[2], node[1].get("pt", [])):
                    if pt[0] in ('ref', 'ptr'):
                        self.assigned_base(a, acc)
            for x in node:
                self.assigned(x, acc)
        elif isinstance(node, dict):
            for x in node.values():
                self.assigned(x, acc)

    def assigned_base(self, e, acc):
        if not isinstance(e, list) or not e:
            return
        if e[0] == 'var':
            acc[e[1]] = e
        elif e[0] in ('mem',):
            if not e[2]:
                self.assigned_base(e[1], acc)
        elif e[0] == 'sub':
            if isinstance(e[1], list) and e[1][0] == 'cast' and e[1][1] == 'ArrayToPointerDecay':
                self.assigned_base(e[1][3], acc)
        elif e[0] == 'cast':
            self.assigned_base(e[3], acc)
        elif e[0] == 'un' and e[1] == '&':
            self.assigned_base(e[3], acc)
        elif e[0] == 'opcall':
            self.assigned_base(e[2][0], acc)
        elif e[0] in ('method', 'mcall'):
            self.assigned_base(e[2], acc)

    def cut_loop(self, inv, cond, inc, body, line):
        """inv: function(view) -> list of (name, formula)"""
        from .contract import LoopView
        acc = {}
        self.assigned([cond, inc, body], acc)
        fr = self.stack[-1]
        entry = self.st.fork()
        if not self.dry:
            view = LoopView(self, fr, entry)
            view.iteration = z3.IntVal(0)
            for nm, f in inv(view):
                self.line = line
                self.oblige("loop invariant holds initially", f, nm)
        # havoc: assigned scalars and every region the body may write
        d = self.decide(2) if not self.dry else 1
        havocked = []
        for vid, e in acc.items():
            if vid in fr.vars:
                loc = fr.vars[vid]
                while isinstance(loc, (FieldLoc, ItemLoc)):
                    loc = loc.base
                if isinstance(loc, CellLoc):
                    old = self.st.cells[loc.cell]
                    if isinstance(old, Ptr):
                        self.st.cells[loc.cell] = Ptr(old.region, self.fresh("off"), old.ty)
                    elif z3.is_expr(old):
                        self.st.cells[loc.cell] = self.fresh(e[2], old.sort())
                    elif isinstance(old, Rec):
                        self.st.cells[loc.cell] = self.havoc_like(old, e[2])
                    elif isinstance(old, (Arr, Obj, Closure, NullPtr)):
                        pass
                    elif isinstance(old, Vec):
                        old = old.copy()
                        old.items = [self.havoc_like(x, e[2]) if x is not None else None
                                     for x in old.items]
                        if any(x is None for x in old.items):
                            old.items = [self.havoc_val(e[2], old.ty) for x in old.items]
                        self.st.cells[loc.cell] = old
                    else:
                        raise Unsupported(f"havoc of {old}")
        guard0 = self.cell_guard
        regs = self.loop_writes(cond, inc, body)
        for (rid, path) in regs:
            a = self.st.mem[(rid, path)]
            self.st.mem[(rid, path)] = self.fresh("L_" + self.regions[rid].name, a.sort())
        if self.dry:
            # only the set of written regions matters (see loop_writes)
            if not self.has_break(body) and cond is not None:
                self.assume(z3.Not(self.truth(self.ev(cond))))
            return
        view = LoopView(self, fr, entry)
        view.iteration = self.ghost["iteration"] = self.fresh("iteration")
        self.assume(view.iteration >= 0)
        for nm, f in inv(view):
            self.assume(f)
        c = self.truth(self.ev(cond)) if cond is not None else z3.BoolVal(True)
        early = self.fresh("early_exit", z3.BoolSort())
        if d == 0:
            self.assume(c)
            var0 = view.variant() if view.variant else None
            broke = False
            try:
                self.run_body(body)
            except Cont:
                pass
            except Brk:
                broke = True
            except Ret:
                self.assume(early, True)
                raise
            if broke:
                self.assume(early, True)
                return   # continues after the loop on this path
            if inc is not None:
                self.ev(inc)
            view2 = LoopView(self, fr, entry)
            view2.iteration = view.iteration + 1
            for nm, f in inv(view2):
                self.line = line
                self.oblige("loop invariant preserved", f, nm)
            if view2.variant:
                v1 = view2.variant()
                self.oblige("loop terminates", z3.And(v1 < var0, var0 >= 0), "variant decreases")
            raise PathEnd()
        if self.has_break(body):
            self.assume(z3.Not(early), True)
        if z3.is_true(z3.simplify(c)):
            raise PathEnd()     # for ever, or left by break, return
        self.assume(z3.Not(c))

    def havoc_like(self, v, name):
        if z3.is_expr(v):
            return self.fresh(name, v.sort())
        if isinstance(v, Rec):
            return Rec(v.ty, {k: self.havoc_like(x, name) for k, x in v.f.items()})
        if isinstance(v, Ptr):
            return Ptr(v.region, self.fresh("off"), v.ty)
        return v

    def loop_writes(self, cond, inc, body):
        """regions (with field path) written by one symbolic run of the body"""
        sv_obl, sv_keys = list(self.obligs), set(self.oblig_keys)
        sv_w = dict(self.written)
        sv_log = self.log
        sv_ids = dict(self.loop_ids)
        self.log = []
        sv_dry, self.dry = self.dry, True
        before = {k: v for k, v in self.st.mem.items()}
        out = set()

        def thunk():
            try:
                if cond is not None:
                    self.assume(self.truth(self.ev(cond)))
                self.run_body(body)
            except (Cont, Brk):
                pass
            except Ret:
                pass
            for k, v in self.st.mem.items():
                if k in before and not isinstance(v, dict) and not (v is before[k] or v.eq(before[k])):
                    out.add(k)
        try:
            self.explore(thunk)
        finally:
            self.obligs, self.oblig_keys = sv_obl, sv_keys
            self.written = sv_w
            self.log = sv_log
            self.dry = sv_dry
        for rid, _ in out:
            self.written[rid] = self.regions[rid]
        if any(self.shared(k) for k in out):
            raise Unsupported("serial loop that writes memory inside a parallel loop")
        # nested loops logged their writes too
        return out

    def is_k2_eval(self, cond, body):
        """expansion of K2_EVAL / K2_EVAL2: the body only calls a lambda"""
        while isinstance(body, list) and body and body[0] == 'for':
            body = body[4]
        return (isinstance(body, list) and body and body[0] == 'expr' and body[1][0] == 'opcall'
                and "lam" in body[1][1])

    def is_parallel_shape(self, init, cond, inc, body):
        return self.parallel_form(init, cond, inc, body, dry=True) is not None

    def parallel_form(self, init, cond, inc, body, dry=False):
        """for (int i = a; i < b | i != b; ++i) without break, whose body assigns no outer local"""
        if init is None or init[0] != 'decl' or len(init[1]) != 1:
            return None
        v = init[1][0]
        if v["type"][0] != 'int':
            return None
        if cond is None or cond[0] != 'bin' or cond[1] not in ('<', '!=', '<='):
            return None
        l = cond[2]
        while l[0] == 'cast':
            l = l[3]
        if l[0] != 'var' or l[1] != v["id"]:
            return None
        if inc is None or inc[0] != 'un' or inc[1] != '++':
            return None
        if inc[3][0] != 'var' or inc[3][1] != v["id"]:
            return None
        acc = {}
        self.assigned(body, acc)
        decl = set()
        self.declared(body, decl)
        outer = [x for x in acc if x not in decl and x in self.stack[-1].vars]
        for x in outer:
            loc = self.stack[-1].vars[x]
            val = self.st.cells.get(loc.cell) if isinstance(loc, CellLoc) else None
            e = acc[x]
            if isinstance(val, (Arr, Obj, Closure, Ptr)) and not self.directly_assigned(body, x):
                continue
            return None
        if self.has_break(body):
            return None
        return (v["id"], v["name"], cond[1], cond[3])

    def directly_assigned(self, node, vid):
        """is the variable itself the target of =, ++ ...?"""
        if isinstance(node, list) and node:
            if node[0] == 'assign':
                t = node[2]
                if t[0] == 'var' and t[1] == vid:
                    return True
            if node[0] == 'un' and node[1] in ('++', '--') and node[3][0] == 'var' and node[3][1] == vid:
                return True
            if node[0] == 'opcall' and node[1]["q"].endswith("operator=") and node[2][0][0] == 'var' and node[2][0][1] == vid:
                return True
            return any(self.directly_assigned(x, vid) for x in node)
        if isinstance(node, dict):
            return any(self.directly_assigned(x, vid) for x in node.values())
        return False

    def declared(self, node, acc):
        if isinstance(node, list):
            if node and node[0] == 'decl':
                for v in node[1]:
                    acc.add(v["id"])
            for x in node:
                self.declared(x, acc)
        elif isinstance(node, dict):
            for x in node.values():
                self.declared(x, acc)

    def has_break(self, node):
        if isinstance(node, list) and node:
            if node[0] in ('break', 'return'):
                return True
            if node[0] in ('for', 'while', 'dowhile', 'switch'):
                return any(self.has_return(x) for x in node)
            return any(self.has_break(x) for x in node)
        return False

    def has_return(self, node):
        if isinstance(node, list) and node:
            return node[0] == 'return' or any(self.has_return(x) for x in node)
        return False

    def parallel_for(self, node, form, body, line):
        """The parallel-for rule.  One iteration is executed symbolically for a
        fresh index from the pre-loop memory.  Obligations: within bounds, no two
        iterations write different values to one location, none reads what
        another writes.  The post-memory is described by the writes."""
        vid, vname, op, bexpr = form
        lo = self.load(self.stack[-1].vars[vid])
        hi = self.ev(bexpr)
        if op == '<=':
            hi = simp(hi + 1)
        if op == '!=':
            self.line = line
            self.check("loop bound", lo <= hi, "iteration count is not negative")
        pre = self.st
        i = self.fresh("it_" + vname)
        mark = self.counter
        guard = z3.And(lo <= i, i < hi)
        outer_log = self.log
        npc = len(pre.pc)
        frv = self.stack[-1].vars
        saved_loc = frv[vid]
        cg = self.cell_guard
        partial = []

        def thunk():
            self.log = []
            loc = self.new_cell(i)
            self.stack[-1].vars[vid] = loc
            self.stack[-1].names[vname] = loc
            self.cell_guard = loc.cell
            self.assume(guard, True)
            self.par_npc.append(npc)
            self.par_keys.append(set(pre.mem))
            try:
                self.run_body(body)
            except Cont:
                pass
            except PathEnd:
                # a loop-invariant check inside the iteration: its reads count
                partial.append((self.st, self.log))
                raise
            finally:
                self.par_npc.pop()
                self.par_keys.pop()
            return self.log
        try:
            res = self.explore(thunk)
        finally:
            self.log = outer_log
            self.cell_guard = cg
        self.stack[-1].vars[vid] = saved_loc
        prekeys = set(pre.mem)
        # accesses: (region, path, off, val, facts=[(f, cond)], idxs)
        reads, writes, adds = [], [], []
        derived = []
        for st, log in res:
            facts = list(zip(st.pc[npc:], st.cond[npc:]))
            derived.append(facts)
            own = {}
            nested = {}
            for ent in log:
                k, reg, path, off, fc, val, idxs = ent
                key = (reg.id, path)
                if key not in prekeys:
                    continue          # allocated inside the iteration
                if fc is not None:    # from a nested parallel loop: own facts
                    fs = facts[:0] + fc
                else:
                    fs = facts
                if k == 'add':
                    if idxs:
                        raise Unsupported("atomic add in a nested parallel loop")
                    adds.append((reg, path, off, val, fs))
                elif k == 'rrange':
                    reads.append((reg, path, None, None, fs, [i]))
                elif k == 'r':
                    if any(z3.is_true(z3.simplify(off == o)) for o in own.get(key, [])):
                        continue
                    reads.append((reg, path, off, None, fs, [i] + idxs))
                else:
                    own.setdefault(key, []).append(off)
                    if idxs:
                        nested.setdefault(key, []).append((off, val, fs, idxs))
            for key in own:
                reg = self.regions[key[0]]
                nest = nested.get(key, [])
                plain = [o for o in own[key] if not any(o is n[0] for n in nest)]
                seen = []
                for off in reversed(plain):
                    if any(off.eq(o) for o in seen):
                        continue
                    seen.append(off)
                    val = z3.simplify(z3.Select(st.mem[key], off))
                    writes.append((reg, key[1], off, val, facts, [i]))
                alone = len(nest) == 1 and not plain
                for off, val, fs, idxs in nest:
                    v = val if alone else z3.Select(st.mem[key], off)
                    writes.append((reg, key[1], off, v, fs + ([] if alone else facts), [i] + idxs))
        for st, log in partial:
            facts = list(zip(st.pc[npc:], st.cond[npc:]))
            for k, reg, path, off, fc, val, idxs in log:
                if (reg.id, path) not in prekeys:
                    continue
                if k != 'r':
                    continue
                reads.append((reg, path, off, None, fc if fc is not None else facts, [i] + idxs))
        # --- substitution of iteration-local constants by functions of the indexes
        fncache = {}

        def at(e, idxs, new):
            """e with index constants replaced and locals skolemised"""
            subs = list(zip(idxs, new))
            idn = {str(x): n for x, n in zip(idxs, new)}
            num = {str(x): int(str(x).rsplit("!", 1)[1]) for x in idxs}
            for c in self.locals_in(e, mark):
                nm = c.decl().name()
                if nm in idn:
                    continue
                cn = int(nm.rsplit("!", 1)[1])
                deps = [x for x in idxs if num[str(x)] < cn]
                kf = (nm, tuple(str(d) for d in deps), c.sort().sexpr())
                if kf not in fncache:
                    fncache[kf] = z3.Function(nm + "_of", *([I] * len(deps)), c.sort())
                subs.append((c, fncache[kf](*[idn[str(d)] for d in deps])))
            return z3.substitute(e, *subs)

        def fresh_idx(idxs, tag):
            return [self.fresh(tag + str(x).rsplit("!", 1)[0]) for x in idxs]

        bykey = {}
        for w in writes:
            bykey.setdefault((w[0].id, w[1]), []).append(w)
        sv, svc = self.st.pc, self.st.cond
        for key, ws in bykey.items():
            reg = ws[0][0]
            fld = ('.' + '.'.join(key[1])) if key[1] else ''
            for a in range(len(ws)):
                for b in range(a, len(ws)):
                    wa, wb = ws[a], ws[b]
                    ia, ib = fresh_idx(wa[5], "a_"), fresh_idx(wb[5], "b_")
                    self.st.pc = (sv + [at(f, wa[5], ia) for f, _ in wa[4]] +
                                  [at(f, wb[5], ib) for f, _ in wb[4]] + [ia[0] != ib[0]])
                    self.st.cond = [False] * len(self.st.pc)
                    self.line = line
                    self.oblige("race freedom",
                                z3.Or(at(wa[2], wa[5], ia) != at(wb[2], wb[5], ib),
                                      at(wa[3], wa[5], ia) == at(wb[3], wb[5], ib)),
                                f"write/write {reg.name}{fld}")
            for rd in reads:
                if (rd[0].id, rd[1]) != key:
                    continue
                if rd[2] is None:
                    raise Unsupported("call reads an array the parallel loop writes")
                for wb in ws:
                    ia, ib = fresh_idx(rd[5], "a_"), fresh_idx(wb[5], "b_")
                    self.st.pc = (sv + [at(f, rd[5], ia) for f, _ in rd[4]] +
                                  [at(f, wb[5], ib) for f, _ in wb[4]] + [ia[0] != ib[0]])
                    self.st.cond = [False] * len(self.st.pc)
                    self.line = line
                    self.oblige("race freedom",
                                at(rd[2], rd[5], ia) != at(wb[2], wb[5], ib),
                                f"read/write {reg.name}{fld}")
        self.st.pc, self.st.cond = sv, svc
        # --- facts about iteration-local values
        done = set()

        def export(facts, idxs):
            conds = []
            for f, isc in facts:
                if isc:
                    conds.append(f)
                    continue
                if not any(c.decl().name() not in [str(x) for x in idxs]
                           for c in self.locals_in(f, mark)) and not has_div(f):
                    continue
                k = [z3.Const(f"k{n}", I) for n in range(len(idxs))]
                body_e = at(z3.Implies(z3.And(*conds), f), idxs, k)
                s = body_e.sexpr()
                if s in done:
                    continue
                done.add(s)
                if z3.is_quantifier(f):
                    pass
                self.assume(z3.ForAll(k, body_e))
        for facts in derived:
            export(facts, [i])
        for w in writes:
            if len(w[5]) > 1:
                export(w[4], w[5])
        # --- post memory
        for key, ws in bykey.items():
            reg = self.regions[key[0]]
            self.written[reg.id] = reg
            m0 = pre.mem[key]
            m1 = self.fresh("P_" + reg.name, m0.sort())
            x = z3.Const("x", I)
            simple = self.simple_writes(i, ws, mark)
            if simple is not None:
                body_e = z3.Select(m0, x)
                for (c, val, facts) in reversed(simple):
                    k = simp(x - c)
                    g = z3.And(*[at(f, [i], [k]) for f, isc in facts if isc])
                    body_e = z3.If(g, at(val, [i], [k]), body_e)
                self.assume(z3.ForAll([x], z3.Select(m1, x) == body_e,
                                      patterns=[z3.Select(m1, x)]))
            else:
                alts = []
                for w in ws:
                    conds = [f for f, isc in w[4] if isc]
                    k = [z3.Const(f"k{n}", I) for n in range(len(w[5]))]
                    g = z3.And(*[at(f, w[5], k) for f in conds])
                    off, val = at(w[2], w[5], k), at(w[3], w[5], k)
                    fw = z3.Implies(g, z3.Select(m1, off) == val)
                    self.assume(z3.ForAll(k, fw))
                    # once more, with a trigger that a contract can pull
                    self.assume(z3.ForAll(k, fw, patterns=[IT[len(k)](*k)]))
                    kk = [self.fresh_fn("wr_" + reg.name, I, I)(x) for _ in w[5]]
                    alts.append(z3.And(*[at(f, w[5], kk) for f in conds], at(w[2], w[5], kk) == x,
                                       z3.Select(m1, x) == at(w[3], w[5], kk)))
                self.assume(z3.ForAll([x], z3.Or(z3.Select(m1, x) == z3.Select(m0, x), *alts),
                                      patterns=[z3.Select(m1, x)]))
            self.st.mem[key] = m1
        self.atomic_adds(i, lo, hi, adds, reads, writes, at)
        if adds and outer_log is not None:
            raise Unsupported("atomic add in a nested parallel loop")
        if outer_log is not None:
            for w in writes:
                outer_log.append(("w", w[0], w[1], w[2], self.outer_facts(pre, w[4]), w[3], w[5]))
            for r in reads:
                outer_log.append(("r" if r[2] is not None else "rrange", r[0], r[1], r[2],
                                  self.outer_facts(pre, r[4]), None, r[5]))

    def atomic_adds(self, i, lo, hi, adds, reads, writes, at):
        """additions commute: whatever the order, a location ends as its old value plus the sum, over
        the iterations, of what they add to it.  ACC(x, k) is that sum over the iterations before k."""
        bykey = {}
        for a in adds:
            bykey.setdefault((a[0].id, a[1]), []).append(a)
        for key, as_ in bykey.items():
            if any((r[0].id, r[1]) == key for r in reads + writes):
                raise Unsupported("atomic additions mixed with other accesses")
            reg = as_[0][0]
            self.written[reg.id] = reg
            m0 = self.st.mem[key]
            m1 = self.fresh("A_" + reg.name, m0.sort())
            es = m0.sort().range()
            acc = z3.Function(self.fresh("acc_" + reg.name).decl().name(), I, I, es)
            x, k = z3.Ints("x k0")
            zero = z3.RealVal(0) if es == z3.RealSort() else z3.IntVal(0)
            step = acc(x, k)
            for _, _, off, val, facts in as_:
                g = [at(f, [i], [k]) for f, isc in facts if isc]
                step = step + z3.If(z3.And(*g, at(off, [i], [k]) == x), at(val, [i], [k]), zero)
            self.assume(z3.ForAll([x], acc(x, lo) == zero, patterns=[acc(x, lo)]))
            self.assume(z3.ForAll([x, k], z3.Implies(z3.And(lo <= k, k < hi), acc(x, k + 1) == step), patterns=[acc(x, k)]))
            self.assume(z3.ForAll([x], z3.Select(m1, x) == z3.Select(m0, x) + acc(x, hi), patterns=[z3.Select(m1, x)]))
            self.st.mem[key] = m1
            self.ghost.setdefault("adds", []).append((reg.id, acc, lo, hi))

    def outer_facts(self, pre, facts):
        """facts of a nested iteration, preceded by those of the enclosing one"""
        return list(zip(pre.pc, pre.cond))[self.par_base():] + facts

    def par_base(self):
        return self.par_npc[-1] if self.par_npc else 0

    def locals_in(self, e, mark):
        """constants created after `mark` (during the symbolic iteration)"""
        key = (e.get_id(), mark)
        seen, out, names, todo = set(), [], set(), [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
            elif z3.is_app(x):
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    n = x.decl().name()
                    if "!" in n and n not in names:
                        q = n.rsplit("!", 1)[1]
                        if q.isdigit() and int(q) >= mark:
                            names.add(n)
                            out.append(x)
                else:
                    todo += x.children()
        return out

    def simple_writes(self, i, ws, mark):
        """all writes at offset i + c with one common c -> [(c, val, facts)]"""
        cs = []
        for w in ws:
            if len(w[5]) != 1:
                return None
            c = z3.simplify(w[2] - i)
            if self.locals_in(c, mark):
                return None
            if cs and not z3.simplify(cs[0][0] - c).eq(z3.IntVal(0)):
                return None
            cs.append((c, w[3], w[4]))
        return cs

    def consts(self, e):
        seen, out, todo = set(), set(), [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
            elif z3.is_app(x):
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                todo += x.children()
        return out

    def depends(self, e, i):
        return i.decl().name() in self.consts(e)

    # ------------------------------------------------ expressions
    def truth(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if z3.is_expr(v):
            if z3.is_bool(v):
                return v
            return v != 0
        if isinstance(v, NullPtr):
            return z3.BoolVal(False)
        if isinstance(v, (Ptr, Closure)):
            return z3.BoolVal(True)
        if isinstance(v, Obj):
            if hasattr(v, "nonnull"):
                return v.nonnull
            return z3.BoolVal(True)
        raise Unsupported(f"truth of {v}")

    def ev(self, e):
        k = e[0]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported(f"expression {k}")
        return m(e)

    def lval(self, e):
        k = e[0]
        if k == 'var':
            fr = self.stack[-1]
            if e[1] in fr.vars:
                return fr.vars[e[1]]
            raise Unsupported(f"unbound variable {e[2]}")
        if k == 'un' and e[1] == '*':
            v = self.ev(e[3])
            return self.deref(v)
        if k == 'un' and e[1] in ('++', '--') and not e[2]:
            self.ev(e)
            return self.lval(e[3])
        if k == 'assign':
            self.ev(e)
            return self.lval(e[2])
        if k == 'sub':
            return self.subscript(e)
        if k == 'mem':
            return self.member(e)
        if k == 'cast':
            if e[1] in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ArrayToPointerDecay'):
                return self.lval(e[3])
            return Tmp(self.ev(e))
        if k == 'this':
            return self.stack[-1].this
        if k == 'cond':
            c = self.truth(self.ev(e[1]))
            return self.lval(e[2] if self.branch(c) else e[3])
        if k in ('opcall', 'mcall', 'call', 'icall'):
            r = self.call_any(e, want_loc=True)
            if isinstance(r, tuple) and r and r[0] == 'loc':
                return r[1]
            return self.new_cell_tmp(r)
        return self.new_cell_tmp(self.ev(e))

    def new_cell_tmp(self, v):
        return self.new_cell(v)

    def deref(self, v):
        if isinstance(v, Ptr):
            return MemLoc(v)
        if isinstance(v, NullPtr):
            self.oblige("bounds", z3.BoolVal(False), "dereference of null pointer")
            raise PathEnd()
        if isinstance(v, Obj) and v.kind == 'addr':
            return v.loc
        if v is CTX:
            return Tmp(CTX)
        raise Unsupported(f"dereference of {v}")

    def subscript(self, e):
        b, idx = e[1], e[2]
        self.line = e[4]
        if b[0] == 'cast' and b[1] == 'ArrayToPointerDecay':
            return ItemLoc(self.lval(b[3]), self.ev(idx))
        p = self.ev(b)
        i = self.ev(idx)
        self.line = e[4]
        if isinstance(p, Ptr):
            return MemLoc(p.add(i))
        if isinstance(p, NullPtr):
            self.oblige("bounds", z3.BoolVal(False), "subscript of null pointer")
            raise PathEnd()
        if isinstance(p, Obj) and p.kind == 'addr':
            # pointer to a local / element of a Vec
            if isinstance(p.loc, ItemLoc):
                return ItemLoc(p.loc.base, simp(p.loc.idx + i))
            if conc(i) == 0:
                return p.loc
        raise Unsupported(f"subscript of {p}")

    def member(self, e):
        base, arrow, name = e[1], e[2], e[3]
        if arrow:
            v = self.ev(base)
            loc = self.deref(v)
        else:
            loc = self.lval(base)
        return self.field(loc, name)

    def field(self, loc, name):
        if isinstance(loc, MemLoc):
            return MemLoc(loc.ptr, loc.path + (name,))
        return FieldLoc(loc, name)

    def e_int(self, e):
        return z3.IntVal(e[1])

    def e_bool(self, e):
        return z3.BoolVal(e[1])

    def e_flt(self, e):
        s = e[1]
        if s.lower() in ('inf', '+inf', 'infinity'):
            return INF
        if s.lower() in ('-inf',):
            return -INF
        from fractions import Fraction
        f = Fraction(s)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")

    def e_str(self, e):
        return Obj("str")

    def e_null(self, e):
        return NULL

    def e_zero(self, e):
        return self.default(e[1])

    def e_this(self, e):
        return Obj("addr", loc=self.stack[-1].this)

    def e_var(self, e):
        return self.load(self.lval(e))

    def e_unsupported(self, e):
        raise Unsupported(f"expression {e[1]} line {e[2]}")

    def e_throw(self, e):
        self.oblige("no exception", z3.BoolVal(False), "throw reached")
        raise PathEnd()

    def e_sub(self, e):
        return self.load(self.subscript(e))

    def e_mem(self, e):
        return self.load(self.member(e))

    def e_fnref(self, e):
        return Obj("fn", ref=e[1])

    def e_cast(self, e):
        kind, t, sub = e[1], e[2], e[3]
        if kind == 'ArrayToPointerDecay':
            if sub[0] == 'str':
                return Obj("str")
            loc = self.lval(sub)
            return Obj("addr", loc=ItemLoc(loc, z3.IntVal(0)))
        if kind == 'ToVoid':
            self.ev(sub)
            return VOID
        if kind == 'NullToPointer':
            return NULL
        v = self.ev(sub)
        if kind in ('LValueToRValue', 'NoOp', 'ConstructorConversion', 'UserDefinedConversion',
                    'DerivedToBase', 'UncheckedDerivedToBase', 'FunctionToPointerDecay'):
            return v
        if kind == 'IntegralCast':
            v = self.coerce(v, t)
            return self.int_cast(v, t, e[4])
        if kind in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.truth(v)
        if kind == 'IntegralToFloating':
            return self.coerce(self.coerce(v, ['int', 32, True]), t)
        if kind == 'FloatingToIntegral':
            return self.coerce(v, t)
        if kind == 'FloatingCast':
            return v
        if kind == 'BitCast':
            return self.bitcast(v, t, e[4])
        raise Unsupported(f"cast {kind}")

    def bitcast(self, v, t, ft):
        if isinstance(v, Ptr) and t[0] == 'ptr':
            if t[1] == v.ty or t[1][0] == 'void':
                return Ptr(v.region, v.off, v.ty)
            hook = self.opts.get("bitcast")
            if hook:
                r = hook(self, v, t)
                if r is not None:
                    return r
        raise Unsupported(f"reinterpret_cast {ft} -> {t}")

    def int_cast(self, v, t, ft):
        if t[0] == 'int' and not t[2]:
            # to unsigned: negative values wrap
            k = conc(v)
            if k is not None:
                return z3.IntVal(k % (1 << t[1]))
            if ft[0] == 'int' and (ft[2] is False) and ft[1] <= t[1]:
                return v
            if ft[0] == 'bool':
                return v
            if z3.is_app(simp(v + 1)) and simp(v + 1).decl().eq(POW2):
                return v        # 2^n - 1
            if ft[0] == 'int' and ft[1] > t[1]:
                return v % z3.IntVal(1 << t[1])
            if ft[0] == 'int':
                self.assume(z3.And(v >= -(1 << (ft[1] - 1)), v < (1 << (ft[1] - 1))))
            return z3.If(v >= 0, v, v + z3.IntVal(1 << t[1]))
        if t[0] == 'int' and t[2]:
            k = conc(v)
            if k is not None:
                m = k % (1 << t[1])
                if m >= 1 << (t[1] - 1):
                    m -= 1 << t[1]
                return z3.IntVal(m)
        return v

    def e_un(self, e):
        op, post, sub, t, line = e[1], e[2], e[3], e[4], e[5]
        if op == '&':
            if sub[0] == 'fnref':
                return self.ev(sub)
            loc = self.lval(sub)
            self.line = line
            if isinstance(loc, MemLoc) and not loc.path:
                return loc.ptr
            return Obj("addr", loc=loc)
        if op == '*':
            return self.load(self.lval(e))
        if op in ('++', '--'):
            loc = self.lval(sub)
            v = self.load(loc)
            d = 1 if op == '++' else -1
            if isinstance(v, Ptr):
                nv = v.add(d)
            else:
                nv = simp(v + d)
            self.store(loc, nv)
            return v if post else nv
        v = self.ev(sub)
        if op == '-':
            return -self.coerce(v, ['int', 32, True]) if z3.is_bool(v) else -v
        if op == '+':
            return v
        if op == '!':
            return z3.Not(self.truth(v))
        if op == '~':
            k = conc(v)
            if t[0] == 'int' and t[2]:
                return simp(-v - 1)
            if t[0] == 'int':
                return simp(z3.IntVal((1 << t[1]) - 1) - v)
        raise Unsupported(f"unary {op}")

    def is_pure(self, e):
        if isinstance(e, list):
            if e and isinstance(e[0], str):
                if e[0] in ('assign', 'icall', 'lambda', 'throw', 'ctor', 'init'):
                    return False
                if e[0] == 'un' and e[1] in ('++', '--'):
                    return False
                if e[0] in ('call', 'mcall', 'opcall'):
                    from . import model
                    if not model.is_pure_call(e):
                        return False
            return all(self.is_pure(x) for x in e)
        if isinstance(e, dict):
            return True
        return True

    def guarded(self, g, thunk):
        """evaluate under an extra assumption that does not survive"""
        n = len(self.st.pc)
        self.st.pc.append(g)
        self.st.cond.append(True)
        pos0 = self.pos
        v = thunk()
        if self.pos != pos0:
            raise Unsupported("path split inside a guarded expression")
        extra = self.st.pc[n + 1:]
        del self.st.pc[n:]
        del self.st.cond[n:]
        for f in extra:
            self.assume(z3.Implies(g, f))
        return v

    def e_bin(self, e):
        op, l, r, t, lt, line = e[1], e[2], e[3], e[4], e[5], e[6]
        if op in ('&&', '||'):
            a = self.truth(self.ev(l))
            sa = z3.simplify(a)
            if op == '&&' and z3.is_false(sa):
                return sa
            if op == '||' and z3.is_true(sa):
                return sa
            if z3.is_true(sa) or z3.is_false(sa):
                return self.truth(self.ev(r))
            if self.is_pure(r):
                b = self.guarded(a if op == '&&' else z3.Not(a), lambda: self.truth(self.ev(r)))
                return z3.And(a, b) if op == '&&' else z3.Or(a, b)
            if self.branch(a):
                return z3.BoolVal(True) if op == '||' else self.truth(self.ev(r))
            return z3.BoolVal(False) if op == '&&' else self.truth(self.ev(r))
        if op == ',':
            self.ev(l)
            return self.ev(r)
        a, b = self.ev(l), self.ev(r)
        self.line = line
        return self.binop(op, a, b, t)

    def binop(self, op, a, b, t):
        if isinstance(a, (Ptr, NullPtr, Obj, MaybeNull, Closure)) or isinstance(b, (Ptr, NullPtr, Obj)):
            return self.ptrop(op, a, b)
        if op in ('==', '!='):
            if z3.is_bool(a) != z3.is_bool(b):
                a, b = self.coerce(a, ['int', 32, True]), self.coerce(b, ['int', 32, True])
            if z3.is_real(a) != z3.is_real(b):
                a, b = self.coerce(a, ['float']), self.coerce(b, ['float'])
            return a == b if op == '==' else a != b
        if z3.is_bool(a) and op in ('&', '|', '^') and z3.is_bool(b):
            return {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](a, b)
        if z3.is_bool(a):
            a = self.coerce(a, ['int', 32, True])
        if z3.is_bool(b):
            b = self.coerce(b, ['int', 32, True])
        if z3.is_real(a) != z3.is_real(b):
            a, b = self.coerce(a, ['float']), self.coerce(b, ['float'])
        if op == '+':
            return simp(a + b)
        if op == '-':
            return simp(a - b)
        if op == '*':
            if self.opts.get("opaque_mul") and z3.is_real(a) and not z3.is_rational_value(simp(a)) and not z3.is_rational_value(simp(b)):
                return RMUL(a, b)
            return simp(a * b)
        if op == '<':
            return a < b
        if op == '<=':
            return a <= b
        if op == '>':
            return a > b
        if op == '>=':
            return a >= b
        if op == '/':
            if z3.is_real(a):
                return a / b
            self.check("division", b != 0, "divisor is not zero")
            return self.sdiv(a, b)[0]
        if op == '%':
            self.check("division", b != 0, "divisor is not zero")
            return self.sdiv(a, b)[1]
        if op == '<<':
            k = conc(b)
            if k is not None:
                return simp(a * (1 << k))
            return POW2(b) * a
        if op == '>>':
            k = conc(b)
            if k is not None:
                return a / (1 << k)
            return SHR(a, b)
        if op in ('&', '|', '^'):
            ka, kb = conc(a), conc(b)
            if ka is not None and kb is not None:
                return z3.IntVal({'&': ka & kb, '|': ka | kb, '^': ka ^ kb}[op])
            if op == '&' and (kb == 1 or ka == 1):
                return (a if kb == 1 else b) % 2
            if op == '&':
                for x, k in ((a, kb), (b, ka)):
                    if k is not None and k > 0 and k & (k + 1) == 0:
                        return x % z3.IntVal(k + 1)
            return bits(op, a, b)
        raise Unsupported(f"binary {op}")

    def sdiv(self, a, b):
        """C division; by a variable: uninterpreted quotient and remainder with
        the equation that defines them"""
        if conc(b) is not None:
            q = cdiv(a, b)
            return q, a - q * b
        q, m = DIV(a, b), MOD(a, b)
        self.assume(div_def(a, b))
        return q, m

    def ptrop(self, op, a, b):
        if op in ('==', '!='):
            eq = None
            if isinstance(a, NullPtr) or isinstance(b, NullPtr):
                eq = z3.BoolVal(isinstance(a, NullPtr) and isinstance(b, NullPtr))
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.region is not b.region:
                    eq = z3.BoolVal(False)
                else:
                    eq = a.off == b.off
            elif a is CTX and b is CTX:
                eq = z3.BoolVal(True)
            if eq is None:
                raise Unsupported(f"comparison of {a} and {b}")
            return eq if op == '==' else z3.Not(eq)
        if isinstance(a, Ptr) and z3.is_expr(b):
            if op == '+':
                return a.add(b)
            if op == '-':
                return a.add(-b)
        if isinstance(b, Ptr) and z3.is_expr(a) and op == '+':
            return b.add(a)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.region is b.region:
            if op == '-':
                return simp(a.off - b.off)
            if op in ('<', '<=', '>', '>='):
                return self.binop(op, a.off, b.off, None)
        raise Unsupported(f"pointer {op} on {a} {b}")

    def e_assign(self, e):
        op, l, r, t, cty, line = e[1], e[2], e[3], e[4], e[5], e[6]
        if op == '=':
            v = self.ev(r)
            loc = self.lval(l)
            self.line = line
            v = self.conv(v, t)
            self.store(loc, copyval(v))
            return v
        loc = self.lval(l)
        a = self.load(loc)
        b = self.ev(r)
        self.line = line
        v = self.binop(op[:-1], a, b, t)
        v = self.conv(v, t)
        self.store(loc, v)
        return v

    def e_cond(self, e):
        c, a, b, t, line = e[1], e[2], e[3], e[4], e[5]
        self.line = line
        cv = self.truth(self.ev(c))
        self.line = line
        if t[0] == 'void':
            # K2_CHECK: (x) ? (void)0 : Voidifier() & Logger(...)
            if is_log_fatal(b):
                self.k2_check(cv)
                return VOID
            if is_log_any(b) or is_log_any(a):
                # K2_LOG(INFO/WARNING) and disabled debug checks: no effect
                return VOID
        sc = z3.simplify(cv)
        if z3.is_true(sc):
            return self.ev(a)
        if z3.is_false(sc):
            return self.ev(b)
        if t[0] in ('int', 'bool', 'float', 'enum') and self.is_pure(a) and self.is_pure(b):
            x = self.guarded(cv, lambda: self.ev(a))
            y = self.guarded(z3.Not(cv), lambda: self.ev(b))
            x, y = self.conv(x, t), self.conv(y, t)
            return z3.If(cv, x, y)
        return self.ev(a) if self.branch(cv) else self.ev(b)

    def k2_check(self, cv):
        if self.opts.get("checks") == "throw":
            # contract speaks about rejection: the path ends with an exception
            if self.branch(cv):
                return
            self.ghost["thrown"] = True
            raise Ret(Obj("thrown"))
        self.check("K2_CHECK", cv, "check cannot fail")

    def e_lambda(self, e):
        o = e[1]
        env = {}
        for vid, name, byref, init in o["caps"]:
            if name == 'this':
                continue
            if byref:
                env[vid] = self.stack[-1].vars[vid]
            else:
                v = copyval(self.load(self.stack[-1].vars[vid]))
                env[vid] = self.new_cell(v)
        c = Closure(o.get("op"), env, o["lam"])
        c.this = self.stack[-1].this
        return c

    def e_init(self, e):
        items, t = e[1], e[2]
        if t[0] == 'arr':
            return Vec(t[1], [copyval(self.ev(x)) for x in items] +
                       [self.default(t[1]) for _ in range(t[2] - len(items))])
        if t[0] == 'rec' and t[1] in self.prog.records:
            r = Rec(t[1])
            fs = self.prog.records[t[1]]["fields"]
            for f, x in zip(fs, items):
                r.f[f["name"]] = copyval(self.conv(self.ev(x), f["type"]))
            return r
        if len(items) == 1:
            return self.ev(items[0])
        if not items:
            return self.default(t)
        raise Unsupported(f"init list of {t}")

    def e_stdinit(self, e):
        return self.ev(e[1])

    def e_ctor(self, e):
        from . import model
        return model.construct(self, e)

    def e_call(self, e):
        return self.unloc(self.call_any(e))

    e_mcall = e_call
    e_opcall = e_call
    e_icall = e_call

    def unloc(self, r):
        if isinstance(r, tuple) and r and r[0] == 'loc':
            return self.load(r[1])
        return r

    def call_any(self, e, want_loc=False):
        from . import model
        return model.call(self, e)

    # ------------------------------------------------ inlining
    def inline(self, fn, args, this=None, argexprs=None):
        """execute a function body in place.  args: values, or locations for
        reference parameters"""
        self.depth += 1
        if self.depth > 40:
            raise Unsupported("inlining depth")
        fr = Frame(fn, this)
        for p, a in zip(fn["params"], args):
            if p["type"][0] == 'ref':
                loc = a if isinstance(a, (CellLoc, MemLoc, FieldLoc, ItemLoc, Tmp)) else self.new_cell(a)
            else:
                loc = self.new_cell(copyval(self.conv(a, p["type"])))
            fr.vars[p["id"]] = loc
            fr.names[p["name"]] = loc
        self.stack.append(fr)
        line = self.line
        try:
            if "inits" in fn:
                obj = self.load(this)
                for name, t, init in fn["inits"]:
                    if name is None:
                        v = self.ev(init)
                        if isinstance(v, Rec):
                            o2 = self.load(this).copy()
                            o2.f.update(v.f)
                            self.store(this, o2)
                        continue
                    if t[0] == 'ref':
                        # reference member: keep the location
                        v = Obj("refmem", loc=self.lval(init))
                    else:
                        v = self.conv(self.ev(init), t)
                    self.store(self.field(this, name), copyval(v))
            try:
                self.run_body(fn.get("body"))
                r = VOID
            except Ret as x:
                r = x.v
        finally:
            self.stack.pop()
            self.depth -= 1
        self.line = line
        return r

    def call_closure(self, c, args):
        fn = self.prog.fns.get(c.op)
        if fn is None:
            raise Unsupported("lambda without body")
        self.depth += 1
        fr = Frame(fn, getattr(c, "this", None))
        fr.vars.update(c.env)
        # names of captured variables, for invariants
        for p, a in zip(fn["params"], args):
            if p["type"][0] == 'ref':
                loc = a if isinstance(a, (CellLoc, MemLoc, FieldLoc, ItemLoc, Tmp)) else self.new_cell(a)
            else:
                loc = self.new_cell(copyval(self.conv(a, p["type"])))
            fr.vars[p["id"]] = loc
            fr.names[p["name"]] = loc
        self.stack.append(fr)
        line = self.line
        try:
            try:
                self.run_body(fn["body"])
                r = VOID
            except Ret as x:
                r = x.v
        finally:
            self.stack.pop()
            self.depth -= 1
        self.line = line
        return r


INF = z3.Real("k2_inf")
POW2 = z3.Function("pow2", I, I)
RMUL = z3.Function("product", z3.RealSort(), z3.RealSort(), z3.RealSort())   # a * b; only its symmetry is used
R = z3.RealSort()
EXP, LOG, LOG1P = [z3.Function(n, R, R) for n in ("exp", "log", "log1p")]
BAND = z3.Function("bitand", I, I, I)
BOR = z3.Function("bitor", I, I, I)
BXOR = z3.Function("bitxor", I, I, I)


SHR = z3.Function("shift_right", I, I, I)


def bits(op, a, b):
    """an uninterpreted symmetric bit operation: arguments in a fixed order"""
    f = {'&': BAND, '|': BOR, '^': BXOR}[op]
    return f(a, b) if op == '&' or a.sexpr() <= b.sexpr() else f(b, a)


DIV = z3.Function("c_div", z3.IntSort(), z3.IntSort(), z3.IntSort())
MOD = z3.Function("c_mod", z3.IntSort(), z3.IntSort(), z3.IntSort())


IT = {n: z3.Function(f"iteration{n}", *([z3.IntSort()] * (n + 1))) for n in (1, 2, 3)}


def has_div(f):
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().name() in ("c_div", "c_mod"):
                return True
            todo += x.children()
    return False


def div_def(a, b):
    q, m = DIV(a, b), MOD(a, b)
    return z3.And(a == q * b + m,
                  z3.Implies(z3.And(a >= 0, b > 0), z3.And(0 <= m, m < b, q >= 0)),
                  z3.Implies(z3.And(a <= 0, b > 0), z3.And(0 >= m, -m < b, q <= 0)),
                  z3.Implies(z3.And(a >= 0, b < 0), z3.And(0 <= m, m < -b, q <= 0)),
                  z3.Implies(z3.And(a <= 0, b < 0), z3.And(0 >= m, m > b, q >= 0)))


def cdiv(a, b):
    ka, kb = conc(a), conc(b)
    if ka is not None and kb:
        q = abs(ka) // abs(kb)
        return z3.IntVal(q if (ka >= 0) == (kb > 0) else -q)
    if kb is not None and kb > 0:
        return z3.If(a >= 0, a / b, -((-a) / b))
    return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -((-a) / b), (-a) / (-b)))


def mentions(e, word):
    if isinstance(e, list):
        return any(mentions(x, word) for x in e)
    if isinstance(e, dict):
        return any(mentions(x, word) for x in e.values())
    return isinstance(e, str) and word in e


def logger_level(e):
    """level argument of the Logger constructor in a logging expression"""
    if isinstance(e, list):
        if e and e[0] == 'ctor' and e[1]["q"].endswith("Logger::Logger"):
            for a in e[2]:
                s = a
                while isinstance(s, list) and s and s[0] == 'cast':
                    s = s[3]
                if isinstance(s, list) and s and s[0] == 'int' and s[2][0] == 'enum':
                    return int(s[1])
        for x in e:
            r = logger_level(x)
            if r is not None:
                return r
    elif isinstance(e, dict):
        for x in e.values():
            r = logger_level(x)
            if r is not None:
                return r
    return None


FATAL = 5


def is_log_fatal(e):
    return mentions(e, "Voidifier") and logger_level(e) == FATAL


def is_log_any(e):
    return mentions(e, "Voidifier") or mentions(e, "Logger")


def run_function(self, fn, args, this):
    vals = []
    for p, a in zip(fn["params"], args):
        if a is None:
            t = p["type"]
            if t[0] == 'rec' and "Context>" in t[1]:
                a = CTX
            elif t[0] == 'ref' and t[1][0] == 'rec' and "Context>" in t[1][1]:
                a = Tmp(CTX)
            else:
                raise Unsupported(f"contract does not speak about parameter {p['name']}")
        if p["type"][0] == 'ref' and not isinstance(a, (CellLoc, MemLoc, FieldLoc, ItemLoc, Tmp)):
            a = self.new_cell(a)
        vals.append(a)
    return self.unloc(self.inline(fn, vals, this))


Exec.run_function = run_function

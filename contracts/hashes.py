"""Contracts for the hash tables (k2/csrc/hash.h).

Every accessor is specified against one abstract table: a cell is free or holds
a key; INV says that a held key stands on its own probe sequence
PR(key, 0), PR(key, 1), ... and that all cells before it on that sequence are
held by other keys.  So a key is in at most one cell, and reaching a free cell
on the sequence of a key shows that the key is absent.

Other threads: between two steps of Insert and Find the table may change as the
same operations of other threads allow (a held cell keeps its key, INV stays)."""
import z3
from engine.contract import *
from engine.contract import contract, forall, imp
from engine import contract as ct, vc
from engine.vc import Obj, Ptr, Rec, Unsupported, BAND, SHR, POW2, bits, I, NULL
from z3 import And, Or, Not, If, Implies, ForAll

TU = "@tu/hash_inst.cc"
U64 = ['int', 64, False]
EMPTY = (1 << 64) - 1
simp = vc.simp
PR = z3.Function("probe", I, I, I)
P = ["C27", "C30"]


class Table:
    """the memory of a hash as seen through one accessor"""
    step = 1                # words per bucket

    def __init__(self, v, fields=()):
        ex = self.ex = v.ex
        self.v = v
        self.nb, self.bits = ex.fresh("num_buckets"), ex.fresh("buckets_num_bitsm1")
        self.mask = simp(self.nb - 1)
        v.requires(And(1 <= self.nb, self.nb <= 1 << 32, self.bits >= 0), "number of buckets")
        self.region = ex.new_region("data", U64, simp(self.step * self.nb), fresh=False)
        self.data = Ptr(self.region, z3.IntVal(0), U64)
        f = dict(data_=self.data, num_buckets_mask_=self.mask, buckets_num_bitsm1_=self.bits)
        self.fields(f)
        v.this_rec(lambda: Rec(['rec', v.fn["cls"]], f))
        x = z3.Int("bx")
        # & with a mask 2^n - 1 below 2^32
        v.define(ForAll([x], And(0 <= BAND(x, self.mask), BAND(x, self.mask) < self.nb), patterns=[BAND(x, self.mask)]))
        v.define(ForAll([x], BAND(self.mask, x) == BAND(x, self.mask), patterns=[BAND(self.mask, x)]))
        k, n = z3.Ints("bk bn")
        v.define(ForAll([k, n], And(0 <= PR(k, n), PR(k, n) < self.nb), patterns=[PR(k, n)]))
        ex.ghost["table"] = self
        ex.ghost["cas"] = None
        self.G, self.others, self.old_ptr, self.pos = None, False, None, None

    def fields(self, f):
        pass

    def elem(self, D, p):
        return D[self.step * p]

    def now(self):
        return ct.MemView(self.ex, self.ex.st.mem)(self.data)

    def snapshot(self):
        k = (self.region.id, ())
        a = self.ex.st.mem[k]
        if not z3.is_const(a):          # a name for the memory, for patterns
            self.ex.st.mem[k] = self.ex.fresh("T_data", a.sort())
            self.ex.assume(self.ex.st.mem[k] == a)
        return ct.MemView(self.ex, dict(self.ex.st.mem))(self.data)

    def free(self, D, p):
        return self.elem(D, p) == EMPTY

    def held(self, D, p):
        return Not(self.free(D, p))

    def inside(self, p):
        return And(0 <= p, p < self.nb)

    def range(self, D):
        i = z3.Int("ri")
        return ForAll([i], And(0 <= D[i], D[i] <= EMPTY), patterns=[D[i]])

    def inv(self, D, G):
        p, m = z3.Ints("ip im")
        K = self.key(D, p)
        return [("a key stands on its probe sequence",
                 ForAll([p], imp(And(self.inside(p), self.held(D, p)), And(0 <= G(p), PR(K, G(p)) == p)), patterns=[self.elem(D, p)])),
                ("cells before it are held by other keys",
                 ForAll([p, m], imp(And(self.inside(p), self.held(D, p), 0 <= m, m < G(p)),
                                    And(self.held(D, PR(K, m)), self.key(D, PR(K, m)) != K)),
                        patterns=[z3.MultiPattern(self.elem(D, p), PR(K, m))]))]

    def assume_inv(self, D):
        self.G = self.ex.fresh_fn("depth", I, I)
        for _, f in self.inv(D, self.G) + [("", self.range(D))]:
            self.ex.assume(f)

    def kept(self, A, B):
        """what other threads may do: from memory A to memory B"""
        p = z3.Int("kp")
        f = lambda pat: ForAll([p], imp(And(self.inside(p), self.held(A, p)), And(self.held(B, p), self.key(B, p) == self.key(A, p))), patterns=[pat])
        return And(f(self.elem(A, p)), f(self.elem(B, p)))

    def interfere(self):
        A = self.snapshot()
        self.havoc()
        B = self.snapshot()
        self.ex.assume(self.kept(A, B))
        self.assume_inv(B)

    def havoc(self):
        key = (self.region.id, ())
        self.ex.st.mem[key] = self.ex.fresh("T_data", self.ex.st.mem[key].sort())

    # ---- probing -----------------------------------------------------
    def start(self, key):
        """hash.h: bucket_index == key % num_buckets"""
        self.v.define(BAND(key % z3.IntVal(1 << 32), self.mask) == BAND(key, self.mask))
        self.v.define(PR(key, z3.IntVal(0)) == BAND(key, self.mask))
        self.k = key
        self.inc = self.increment(key)

    def increment(self, key):
        """hash.h: bucket_inc = 1 | (((key * 2) / num_buckets) ^ key)"""
        return bits('|', z3.IntVal(1), bits('^', SHR(key, self.bits), key)) % z3.IntVal(1 << 32)

    def here(self, n):
        """the probe sequence of the key, around position n"""
        self.v.define(imp(n >= 0, PR(self.k, n + 1) == BAND(PR(self.k, n) + self.inc, self.mask)))

    def passed(self, D, n, held=True):
        """the first n cells of the sequence are held by other keys"""
        m = z3.Int("pm")
        c = PR(self.k, m)
        return ForAll([m], imp(And(0 <= m, m < n), And(self.held(D, c), self.key(D, c) != self.k) if held else
                               Not(And(self.held(D, c), self.key(D, c) == self.k))), patterns=[c])

    def loop(self, n):
        """more loop invariants"""
        return []

    def at(self, D, p, key):
        pass

    def absent(self, D):
        p = z3.Int("ap")
        return ForAll([p], imp(And(self.inside(p), self.held(D, p)), self.key(D, p) != self.k), patterns=[self.elem(D, p)])


def bv_lemma(v, name, n, f):
    """a fact of 64-bit machine words, proved over bit vectors, without hypotheses"""
    if v.verifying:
        pc, v.ex.st.pc = v.ex.st.pc, []
        xs = [v.ex.fresh("w", z3.BitVecSort(64)) for _ in range(n)]
        v.ex.oblige("lemma", f(*xs), name)
        v.ex.st.pc = pc


ONE = z3.BitVecVal(1, 64)
B = lambda n: z3.BitVecVal(n, 64)
LOW32 = B((1 << 32) - 1)


class Fixed(Table):
    """Accessor<N>"""

    def fields(self, f):
        n = int(ct.tmpl_arg(self.v.fn["cls"]))
        self.two, self.rest = z3.IntVal(1 << n), z3.IntVal(1 << (64 - n))
        bv_lemma(self.v, "a pair of key and value as a sum", 2, lambda k, w: imp(And(z3.ULT(k, B(1 << n)), z3.ULT(w, B(1 << (64 - n)))), (w << n) | k == (w << n) + k))

    def key(self, D, p):
        return self.elem(D, p) % self.two

    def value(self, D, p):
        return self.elem(D, p) / self.two

    def fits(self, key, value=None):
        self.v.requires(And(0 <= key, key < self.two), "the key fits its bits")
        if value is not None:
            self.v.requires(And(0 <= value, value < self.rest), "the value fits its bits")
            e = value * self.two
            self.v.define(bits('|', simp(e), key) == e + key)
            self.v.requires(e + key != EMPTY, "not all bits of key and value are set")


class Generic(Table):
    """GenericAccessor: the number of key bits is a variable"""

    def fields(self, f):
        v = self.v
        self.n = n = self.ex.fresh("num_key_bits")
        f["num_key_bits_"] = n
        v.requires(And(0 < n, n < 64), "number of key bits")
        v.define(And(POW2(n) >= 2, POW2(64 - n) >= 2))
        self.low = simp(POW2(n) - 1)
        bv_lemma(v, "a pair of key and value: its parts", 3, lambda k, w, n: imp(
            And(z3.ULT(n, B(64)), n != 0, z3.ULT(k, ONE << n), z3.ULT(w, ONE << (B(64) - n))),
            And(((w << n) | k) & ((ONE << n) - 1) == k, z3.LShR((w << n) | k, n) == w)))
        bv_lemma(v, "key of a pair: its range", 2, lambda e, n: imp(And(z3.ULT(n, B(64)), n != 0), z3.ULT(e & ((ONE << n) - 1), ONE << n)))
        x = z3.Int("gx")
        v.define(ForAll([x], And(0 <= BAND(x, self.low), BAND(x, self.low) < POW2(n)), patterns=[BAND(x, self.low)]))

    def key(self, D, p):
        return BAND(self.elem(D, p), self.low)

    def value(self, D, p):
        return SHR(self.elem(D, p), self.n)

    def pair(self, key, value):
        return bits('|', simp(POW2(self.n) * value), key)

    def fits(self, key, value=None):
        v = self.v
        v.requires(And(0 <= key, key < POW2(self.n)), "the key fits its bits")
        if value is not None:
            v.requires(And(0 <= value, value < POW2(64 - self.n)), "the value fits its bits")
            e = self.pair(key, value)
            v.define(And(BAND(e, self.low) == key, SHR(e, self.n) == value, 0 <= e, e <= EMPTY))
            v.requires(e != EMPTY, "not all bits of key and value are set")


KEYOF = z3.Function("packed_key", I, I, I)


class Packed(Table):
    """PackedAccessor: the lowest bits of the key are those of the bucket"""

    def fields(self, f):
        v = self.v
        self.n, self.i = n, i = self.ex.fresh("num_kept_key_bits"), self.ex.fresh("num_implicit_key_bits")
        f.update(num_kept_key_bits_=n, num_implicit_key_bits_=i, num_key_bits_=simp(n + i))
        v.requires(And(0 < n, n < 64, 0 <= i, i <= 32, n + i <= 64), "number of key bits")
        v.define(And(POW2(n) >= 2, POW2(64 - n) >= 2, POW2(i) >= 1))
        self.low, self.group = simp(POW2(n) - 1), simp(POW2(i) - 1)
        bv_lemma(v, "a pair of kept key and value: its parts", 3, lambda k, w, n: imp(
            And(z3.ULT(n, B(64)), n != 0, z3.ULT(k, ONE << n), z3.ULT(w, ONE << (B(64) - n))),
            And(((w << n) | k) & ((ONE << n) - 1) == k, z3.LShR((w << n) | k, n) == w)))
        gr = lambda i: (ONE << i) - 1
        bv_lemma(v, "kept key and bucket make the key", 5, lambda e, p, k, n, i: imp(
            And(n != 0, z3.ULE(i, B(32)), z3.ULT(n + i, B(64)), z3.ULE(n, B(64)), z3.ULT(k, ONE << (n + i)), p & gr(i) == k & gr(i)),
            (e & gr(n) == z3.LShR(k, i)) == (((e & gr(n)) << i) | (p & gr(i)) == k)))
        bv_lemma(v, "kept key and bucket are the key", 5, lambda e, p, k, n, i: imp(
            And(n != 0, z3.ULE(i, B(32)), z3.ULE(n + i, B(64)), z3.ULE(n, B(64)), ((e & gr(n)) << i) | (p & gr(i)) == k),
            And(p & gr(i) == k & gr(i), z3.Or(n + i == B(64), e & gr(n) == z3.LShR(k, i)))))
        bv_lemma(v, "probing stays in the group", 4, lambda x, b, i, t: imp(
            And(z3.ULE(i, t), z3.ULE(t, B(32))),
            And(((x & LOW32) + ((b << i) & LOW32)) & gr(t) & gr(i) == x & gr(i), x & gr(t) & gr(i) == x & gr(i), (x & LOW32) & gr(t) == x & gr(t))))
        x = z3.Int("gx")
        v.define(ForAll([x], And(0 <= BAND(x, self.low), BAND(x, self.low) < POW2(n)), patterns=[BAND(x, self.low)]))
        v.define(ForAll([x], 0 <= BAND(x, self.group), patterns=[BAND(x, self.group)]))

    def key(self, D, p):
        return KEYOF(self.elem(D, p), p)

    def value(self, D, p):
        return SHR(self.elem(D, p), self.n)

    def increment(self, key):
        return simp(POW2(self.i) * bits('|', z3.IntVal(1), bits('^', SHR(key, self.bits), key))) % z3.IntVal(1 << 32)

    def start(self, key):
        super().start(key)
        self.v.define(BAND(PR(key, z3.IntVal(0)), self.group) == BAND(key, self.group))
        self.matching(key)

    def matching(self, key):
        e, p = z3.Ints("me mp")
        self.v.define(ForAll([e, p], imp(BAND(p, self.group) == BAND(key, self.group),
                                         (BAND(e, self.low) == SHR(key, self.i)) == (KEYOF(e, p) == key)), patterns=[KEYOF(e, p)]))

    def at(self, D, p, key):
        """the key in bucket p"""
        self.matching(key)
        self.v.define(imp(KEYOF(D[p], p) == key, And(BAND(p, self.group) == BAND(key, self.group), BAND(D[p], self.low) == SHR(key, self.i))))
        self.v.define(KEYOF(D[p], p) == bits('|', simp(POW2(self.i) * BAND(D[p], self.low)), BAND(p, self.group)))

    def here(self, n):
        super().here(n)
        self.v.define(imp(n >= 0, BAND(PR(self.k, n + 1), self.group) == BAND(PR(self.k, n), self.group)))

    def loop(self, n):
        return [("group of buckets", BAND(PR(self.k, n), self.group) == BAND(self.k, self.group))]

    def fits(self, key, value=None):
        v = self.v
        v.requires(And(0 <= key, key < POW2(simp(self.n + self.i))), "the key fits its bits")
        if value is not None:
            v.requires(And(0 <= value, value < POW2(64 - self.n)), "the value fits its bits")
            e = bits('|', simp(POW2(self.n) * value), SHR(key, self.i))
            v.define(And(BAND(e, self.low) == SHR(key, self.i), SHR(e, self.n) == value, 0 <= e, e <= EMPTY))
            v.requires(e != EMPTY, "not all bits of key and value are set")


class Wide(Table):
    """Hash64: key and value in two words"""
    step = 2

    def key(self, D, p):
        return D[2 * p]

    def value(self, D, p):
        return D[2 * p + 1]

    def fits(self, key, value=None):
        self.v.requires(And(0 <= key, key < EMPTY), "not all bits of the key are set")
        if value is not None:
            self.v.requires(And(0 <= value, value < EMPTY), "not all bits of the value are set")

    def increment(self, key):
        return bits('|', z3.IntVal(1), bits('^', SHR(key, self.bits), key))

    def inv(self, D, G):
        p = z3.Int("ip")
        more = [] if self.others else [
            ("a value stands beside each key", ForAll([p], imp(And(self.inside(p), self.held(D, p)), self.value(D, p) != EMPTY), patterns=[self.elem(D, p)]))]
        return super().inv(D, G) + more


def setup(v, T, others, reach, value=True, inv=True):
    h = T(v)
    key = v.int(0)
    h.others = others
    h.fits(key, v.int(1) if value else None)
    if inv:
        h.assume_inv(h.snapshot())
    else:                    # while keys are deleted there are gaps in the sequences
        v.ex.assume(h.range(h.snapshot()))
    h.start(key)
    if not others:
        h.reach = v.ex.fresh("reach")
        v.requires(And(h.reach >= 0, reach(h)), "the table is not full")
    return h, key


def same(h, D, E, but=None):
    i = z3.Int("ei")
    c = [0 <= i, i < h.step * h.nb]
    if but is not None:
        c.append(Or(i < h.step * but, i >= h.step * (but + 1)))
    return ForAll([i], imp(And(*c), D[i] == E[i]), patterns=[D[i]])


def probing(held=True, writes=False):
    def inv(s):
        h = s.ex.ghost["table"]
        n = s.iteration
        if not s.ex.dry:
            if n.decl().kind() == z3.Z3_OP_UNINTERPRETED:    # an arbitrary iteration begins
                h.G, h.pos = s.ex.fresh_fn("depth", I, I), n
                if h.others:
                    h.havoc()
            elif h.others:
                h.interfere()
        h.here(n)
        D = h.snapshot()
        out = [("bucket", s.var("cur_bucket") == PR(h.k, n)), ("increment", s.var("bucket_inc") == h.inc),
               ("cells passed", h.passed(D, n, held))] + h.loop(n)
        if held:
            out += h.inv(D, h.G) + [("words", h.range(D))]
        if not h.others:
            out += [("nothing changed yet", same(h, D, h.D0)), ("before the end of the sequence", n <= h.reach)]
            s.variant = lambda: h.reach - n
        if h.old_ptr is not None:
            out.append(("no old value yet", s.now(h.old_ptr)[0] == s.old(h.old_ptr)[0]))
        return out
    return inv


def waiting(s):
    """Hash64: the value of a key that is there is on its way"""
    h, n = s.ex.ghost["table"], s.iteration
    if not s.ex.dry and h.others:
        h.interfere()
    D, p = h.snapshot(), PR(h.k, h.pos)
    out = [("the pair", And(h.held(D, p), h.key(D, p) == h.k))]
    if not h.others:
        out.append(("its value", s.var("old_value") == h.value(D, p)))
        s.variant = lambda: z3.IntVal(0)
    return out


def location(v, h, k, p):
    if isinstance(v.args[k], Obj):
        loc = v.ex.load(v.args[k].loc)
        v.ensures(loc.off == h.step * p if isinstance(loc, Ptr) and loc.region is h.region else False,
                  "location of the pair")


def location_arg(v, k):
    if not v.fork_null(k):
        v.args[k] = Obj("addr", loc=v.ex.new_cell(NULL))


ALONE, OTHERS = "alone", "other threads"


def insert(v, T, case):
    ex = v.ex
    h, key = setup(v, T, case == OTHERS, lambda h: h.free(h.snapshot(), PR(v.int(0), h.reach)))
    value = v.int(1)
    old = not v.fork_null(2)
    if old:
        h.old_ptr = v.ptr(2, 1)
    location_arg(v, 3)
    D0 = h.D0 = h.snapshot()
    v.body(modifies=[(h.data, 0, simp(h.step * h.nb))] + ([(v.args[2], 0, 1)] if old else []))
    D, n = h.snapshot(), h.pos
    p = PR(key, n)
    if ex.branch(v.result):
        A, G = ex.ghost["cas"], h.G           # just before the cell is taken
        if A is None:
            v.ensures(False, "a free cell is taken")
            return
        v.ensures(And(h.free(A, p), h.held(D, p), h.key(D, p) == key, h.value(D, p) == value), "a free cell now holds the pair")
        v.ensures(h.absent(A), "the key was absent")
        v.ensures(same(h, D, A, p), "no other cell changes")
        for nm, f in h.inv(D, lambda x: If(x == p, n, G(x))):
            v.ensures(f, nm)
        if old:
            v.ensures(v.mem(v.args[2])[0] == v.old(v.args[2])[0], "no old value")
    else:
        v.ensures(And(h.held(D, p), h.key(D, p) == key), "the key was present")
        for nm, f in h.inv(D, h.G):
            v.ensures(f, nm)
        if not h.others:
            v.ensures(same(h, D, D0), "nothing changes")
        if old and not (h.others and T is Wide):
            v.ensures(v.mem(v.args[2])[0] == h.value(D, p), "the old value")
    location(v, h, 3, p)


def find(v, T, case):
    ex = v.ex
    h, key = setup(v, T, case == OTHERS, lambda h: h.free(h.snapshot(), PR(v.int(0), h.reach)), value=False)
    v.ptr(1, 1)
    location_arg(v, 2)
    h.D0 = h.snapshot()
    v.body(modifies=[(v.args[1], 0, 1)])
    D, n = h.snapshot(), h.pos
    p = PR(key, n)
    if ex.branch(v.result):
        v.ensures(And(h.held(D, p), h.key(D, p) == key), "the key is present")
        v.ensures(v.mem(v.args[1])[0] == h.value(D, p) if T is not Wide or not h.others else v.mem(v.args[1])[0] != EMPTY, "its value")
        location(v, h, 2, p)
    else:
        v.ensures(h.absent(D), "the key is absent")


def delete(v, T):
    h, key = setup(v, T, False, lambda h: And(h.held(h.snapshot(), PR(v.int(0), h.reach)), h.key(h.snapshot(), PR(v.int(0), h.reach)) == v.int(0)), value=False, inv=False)
    h.D0 = D0 = h.snapshot()
    v.body(modifies=[(h.data, 0, simp(h.step * h.nb))])
    D, n = h.snapshot(), h.pos
    p = PR(key, n)
    v.ensures(And(h.held(D0, p), h.key(D0, p) == key, h.free(D, p)), "the cell of the key becomes free")
    if T is Wide:
        v.ensures(D[2 * p + 1] == EMPTY, "its value too")
    v.ensures(same(h, D, D0, p), "no other cell changes")


def set_value(v, T, with_key):
    h = T(v)
    ex = v.ex
    p = ex.fresh("p")
    D0 = h.snapshot()
    h.assume_inv(D0)
    v.requires(And(h.inside(p), h.held(D0, p)), "location of a pair")
    v.args[0] = Ptr(h.region, simp(h.step * p), U64)
    key = v.int(1) if with_key else h.key(D0, p)
    value = v.int(2 if with_key else 1)
    v.requires(h.key(D0, p) == key, "the key at this location")
    h.fits(key, value)
    h.k = key
    h.at(D0, p, key)
    v.body(modifies=[(h.data, simp(h.step * p), simp(h.step * (p + 1)))])
    D = h.snapshot()
    v.ensures(And(h.held(D, p), h.key(D, p) == key, h.value(D, p) == value), "the pair now has this value")
    for nm, f in h.inv(D, h.G):
        v.ensures(f, nm)
    if not with_key and T is not Wide:
        v.ensures(v.result == key, "the key")


for Q, T in (("k2::Hash::Accessor", Fixed), ("k2::Hash::GenericAccessor", Generic), ("k2::Hash::PackedAccessor", Packed), ("k2::Hash64::Accessor", Wide)):
    name = {Fixed: "HashAccessor", Generic: "HashGeneric", Packed: "HashPacked", Wide: "Hash64"}[T]

    def reg(f, q, suffix, **kw):
        f.__name__ = name + suffix
        contract(Q + q, TU, P, **kw)(f)

    reg(lambda v, case, T=T: insert(v, T, case), "::Insert", "Insert", cases=[ALONE, OTHERS], loops={0: probing()})
    reg(lambda v, case, T=T: find(v, T, case), "::Find", "Find", cases=[ALONE, OTHERS], loops={0: probing(), 1: waiting})
    reg(lambda v, T=T: delete(v, T), "::Delete", "Delete", loops={0: probing(held=False)})
    if T is not Wide:
        reg(lambda v, T=T: set_value(v, T, True), "::SetValue", "SetPair", nparams=3)
    reg(lambda v, T=T: set_value(v, T, False), "::SetValue", "SetValue", nparams=2)

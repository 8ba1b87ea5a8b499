"""C27: the hash tables behave as maps, for each layout of bits, through growth, under collisions."""
from oracle import vh
from oracle.core import group

P = "C27"
H = vh.Harness(P)
M64 = (1 << 64) - 1


def sgn(v):
    return v - (1 << 64) if v >> 63 else v


def uns(v):
    return v & M64


class Script:
    """operations, and what a map answers"""

    def __init__(self, t, kind, buckets, kb, vb):
        self.t, self.kind, self.buckets, self.kb, self.vb = t, kind, buckets, kb, vb
        self.ops, self.want, self.what, self.m = [], [], [], {}
        self.start = (buckets, kb, vb)

    def op(self, *a):
        self.ops += [sgn(v) for v in (list(a) + [0, 0, 0])[:4]]

    def expect(self, what, *v):
        for k, x in enumerate(v):
            self.want.append(x)
            self.what.append(f"{what} [{k}]")

    @property
    def wide(self):
        return self.kind == "Wide"

    @property
    def implicit(self):
        return 0 if self.wide else self.kb + self.vb - 64

    def room(self, key):
        """may one more key of this group be inserted (one bucket stays free)?"""
        g = self.implicit
        low = key & ((1 << g) - 1)
        n = sum(1 for k in self.m if k & ((1 << g) - 1) == low)
        return key in self.m or n + 1 < self.buckets >> g

    def legal(self, key, value):
        if self.wide:
            return key != M64 and value != M64
        if key >> self.kb or value >> self.vb or key == (1 << self.kb) - 1:
            return False
        kept = 64 - self.vb
        return not (key >> self.implicit == (1 << kept) - 1 and value == (1 << self.vb) - 1)

    def insert(self, key, value):
        if not self.legal(key, value) or not self.room(key):
            return
        how = self.t.int(0, 3)
        self.op(0, key, value, how)
        new = key not in self.m
        self.expect(f"Insert({key:#x}, {value:#x}): inserted, old value, location", int(new),
                    self.m[key] if not new and how & 1 else 0, 1)
        self.m.setdefault(key, value)

    def find(self, key):
        self.op(1, key)
        self.expect(f"Find({key:#x}): found, value", int(key in self.m), self.m.get(key, 0))

    def update(self, key, value):
        if not self.legal(key, value):
            return
        self.op(self.t.choice([2, 3]), key, value)
        self.expect(f"SetValue({key:#x}, {value:#x}): found, value before, key", int(key in self.m), self.m.get(key, 0),
                    key if key in self.m else 0)
        if key in self.m:
            self.m[key] = value

    def resize(self, buckets, kb, vb):
        old = self.buckets, self.kb, self.vb
        self.buckets, self.kb, self.vb = buckets, kb, vb
        g = self.implicit
        cnt = {}
        for k in self.m:
            cnt[k & ((1 << g) - 1)] = cnt.get(k & ((1 << g) - 1), 0) + 1
        if (cnt and max(cnt.values()) >= buckets >> g) or not all(self.legal(k, v) for k, v in self.m.items()):
            self.buckets, self.kb, self.vb = old
            return
        self.op(4, buckets, kb, vb)
        self.expect("Resize: buckets", buckets)
        self.all()

    def all(self):
        for k in sorted(self.m):
            self.find(k)

    def delete_all(self):
        ks = list(self.m)
        self.t.rng.shuffle(ks)
        for k in ks:
            self.op(5, k)
        self.m.clear()
        self.op(7)
        self.expect("buckets occupied after all keys were deleted", 0)

    def check(self):
        t = self.t
        got = H(self.kind, self.start[0], self.start[1], self.start[2], self.ops).vec()
        t.eq(len(got), len(self.want), "number of answers")
        for g, w, what in zip(got, self.want, self.what):
            if uns(g) != uns(w):
                t.ok(False, f"{what}: got {uns(g):#x}, expected {uns(w):#x}")
        t.checks += len(got)


def make(t, kind=None):
    kind = kind or t.choice(["Generic", "Generic", "Packed", "Packed", "Packed", "Acc8", "Acc20", "Acc32", "Acc40",
                             "Acc61", "Wide", "Wide"])
    buckets = t.choice([128, 128, 256, 512])
    if kind.startswith("Acc"):
        kb = int(kind[3:])
        vb = 64 - kb
    elif kind == "Packed":
        kb, vb = packed_bits(t, buckets)
    else:
        kb = t.choice([t.int(1, 63), t.int(7, 40)])
        vb = 64 - kb
    return Script(t, kind, buckets, kb, vb)


def packed_bits(t, buckets):
    g = t.int(0, buckets.bit_length() - 1 - 5)
    while True:
        kb = t.choice([t.int(1, 63), t.int(8, 40)])
        vb = 64 + g - kb
        if 0 < vb < 64 and kb > g:
            return kb, vb


def keys(t, s, n):
    """keys that like to collide"""
    if s.wide:
        top = 64
    else:
        top = s.kb
    full = (1 << top) - 1
    lowb = s.buckets.bit_length() - 1
    base = t.rng.getrandbits(top)
    r = []
    for _ in range(n):
        c = t.int(0, 7)
        if c <= 2:                                   # same bucket
            k = (t.rng.getrandbits(max(1, top - lowb)) << lowb) | (base & (s.buckets - 1))
        elif c == 3:
            k = full - t.int(0, 40)
        elif c == 4:
            k = t.int(0, 40)
        elif c == 5:
            k = base ^ (1 << t.int(0, top - 1))
        elif c == 6:
            k = base + t.int(-5, 5)
        else:
            k = t.rng.getrandbits(top)
        r.append(k & full)
    return r


def value(t, s):
    full = M64 if s.wide else (1 << s.vb) - 1
    return t.choice([0, full, full - 1, 1, t.rng.getrandbits(64) & full, t.rng.getrandbits(64) & full])


def grow(t, s):
    b = t.choice([s.buckets, s.buckets * 2, s.buckets * 2, s.buckets * 4, max(128, s.buckets // 2)])
    if b > 4096:
        b = 4096
    if s.wide or s.kind.startswith("Acc"):
        s.resize(b, s.kb, s.vb)
        return
    kb, vb = s.kb, s.vb
    if t.bool():
        if s.kind == "Packed":
            kb, vb = packed_bits(t, b)
            if t.bool(0.8):
                d = t.int(0, 3)
                kb = min(63, s.kb + d)
                g = t.int(0, b.bit_length() - 1 - 5)
                vb = 64 + g - kb
                if not (0 < vb < 64 and kb > g):
                    return
        else:
            kb = min(63, max(1, s.kb + t.int(-1, 4)))
            vb = 64 - kb
    if s.kind == "Packed" and (b >> (kb + vb - 64)) < 32:
        return
    s.resize(b, kb, vb)


@group(P, 500, thorough=8000)
def sequences(t):
    """random sequences of inserts, look-ups, updates, growth and bulk deletion"""
    s = make(t)
    t.note(kind=s.kind, buckets=s.buckets, key_bits=s.kb, value_bits=s.vb)
    pool = keys(t, s, t.int(2, 60))
    for _ in range(t.int(5, 150)):
        c = t.int(0, 99)
        k = t.choice(pool)
        if not s.legal(k, 0) and not s.legal(k, 1):
            continue
        if c < 45:
            s.insert(k, value(t, s))
        elif c < 70:
            s.find(k)
        elif c < 88:
            s.update(k, value(t, s))
        elif c < 92:
            grow(t, s)
            pool += keys(t, s, 3)
            pool = [k for k in pool if s.wide or not k >> s.kb]
        elif c < 94:
            s.op(6)
        elif c < 96:
            s.all()
            s.delete_all()
            for k in pool[:10]:
                s.find(k)
    s.all()
    t.note(ops=s.ops[:400])
    s.delete_all()
    s.check()


@group(P, 120, thorough=1200)
def full(t):
    """fill up to one free bucket (per group of the packed layout), look everything up, grow, look up again"""
    s = make(t)
    s.buckets = 128
    s.start = (128, s.kb, s.vb)
    if s.kind == "Packed":
        s.kb, s.vb = packed_bits(t, 128)
        s.start = (128, s.kb, s.vb)
    t.note(kind=s.kind, key_bits=s.kb, value_bits=s.vb)
    pool = list(dict.fromkeys(keys(t, s, 400)))
    for k in pool:
        s.insert(k, value(t, s))
    s.all()
    for k in pool[-30:]:
        if s.legal(k, 0):
            s.find(k)
    for k in list(s.m)[:20]:
        s.update(k, value(t, s))
    grow(t, s)
    s.all()
    s.delete_all()
    for k in pool[:20]:
        s.insert(k, value(t, s))
    s.all()
    s.delete_all()
    t.note(ops=s.ops[:200])
    s.check()


@group(P, 60, thorough=600)
def reserved(t):
    """a key of all ones may be stored with any value but the one of all ones; keys next to it likewise"""
    s = make(t, t.choice(["Generic", "Packed", "Acc8", "Acc20", "Acc32", "Acc61"]))
    t.note(kind=s.kind, key_bits=s.kb, value_bits=s.vb)
    s.legal = lambda k, v: not (k >> s.kb or v >> s.vb) and not (
        k >> s.implicit == (1 << (64 - s.vb)) - 1 and v == (1 << s.vb) - 1)
    top = (1 << s.kb) - 1
    pool = [k for k in (top, top - 1, top - s.buckets, top - 2 * s.buckets, top >> 1, 0, 1) if k >= 0]
    for _ in range(20):
        k = t.choice(pool)
        t.choice([s.insert, s.insert, s.update, lambda k, v: s.find(k)])(k, value(t, s))
    s.all()
    grow(t, s)
    s.all()
    s.delete_all()
    for k in pool:
        s.find(k)
    t.note(ops=s.ops)
    s.check()


@group(P, 40, thorough=400)
def bits(t):
    """NumBitsNeededFor(n): enough bits for n, and none spare"""
    v = [max(1, (1 << t.int(0, 61)) + t.int(-2, 2)) for _ in range(20)]
    t.note(v=v)
    t.eq(H("Bits", v).vec(), [x.bit_length() for x in v], "bits")


@group(P, 20, thorough=100)
def refused(t):
    for b in (64, 100, 129, 0, -4):
        t.raises(lambda: H("Generic", b, 32, 32, []), f"a hash of {b} buckets")
    t.raises(lambda: H("Packed", 128, 40, 27, []), "too many implicit bits")
    t.raises(lambda: H("Generic", 128, 40, 25, []), "generic accessor of a packed hash")
    t.raises(lambda: H("Acc20", 128, 21, 43, []), "accessor of another number of bits")
    t.raises(lambda: H("Generic", 128, 30, 30, []), "fewer than 64 bits")
    t.raises(lambda: H("Generic", 128, 30, 34, [4, 0, 30, 34]), "resize to no buckets")
    t.raises(lambda: H("Generic", 128, 30, 34, [4, 200, 30, 34]), "resize to no power of two")

"""Python side of the C++ harness, and nested-list models of ragged shapes."""
import ctypes
import os
import struct

import numpy as np
import torch  # noqa: F401  (loads the libraries k2 needs)

LIBS = "/opt/k2-build/lib"


class Err(Exception):
    pass


class Harness:
    def __init__(self, pid):
        self.pid, self.lib = pid, None

    def load(self):
        import k2  # noqa: F401
        for n in ("libk2_log.so", "libk2context.so", "libk2fsa.so"):
            p = os.path.join(LIBS, n)
            if os.path.exists(p):
                ctypes.CDLL(p, mode=ctypes.RTLD_GLOBAL)
        self.lib = ctypes.CDLL(os.path.join(os.environ.get("VH_DIR", "/verif/.cache"), f"vh_{self.pid.lower()}.so"))
        self.lib.vh_call.restype = ctypes.POINTER(ctypes.c_int64)
        self.lib.vh_call.argtypes = [ctypes.c_char_p, ctypes.c_void_p, ctypes.POINTER(ctypes.c_char_p)]

    def __call__(self, op, *args):
        """args: ints, floats, lists of ints or of floats, Shape (nested)"""
        if self.lib is None:
            self.load()
        vecs = []
        for a in args:
            put(vecs, a)
        flat = [len(vecs)]
        for v in vecs:
            flat.append(len(v))
            flat.extend(v)
        buf = np.array(flat, dtype=np.int64)
        err = ctypes.c_char_p()
        r = self.lib.vh_call(op.encode(), buf.ctypes.data, ctypes.byref(err))
        if err.value is not None:
            m = err.value.decode(errors="replace")
            if m.startswith("harness"):
                raise RuntimeError(m)
            raise Err(m)
        return Out(r)


class Out:
    def __init__(self, r):
        n = r[0]
        self.v, k = [], 1
        for _ in range(n):
            m = r[k]
            self.v.append([r[k + 1 + j] for j in range(m)])
            k += 1 + m
        self.pos = 0

    def vec(self):
        self.pos += 1
        return self.v[self.pos - 1]

    def i(self):
        return self.vec()[0]

    def vecd(self):
        return [struct.unpack("<d", struct.pack("<q", x))[0] for x in self.vec()]

    def d(self):
        return self.vecd()[0]

    def layers(self):
        """[(row_splits, row_ids, tot_size)]"""
        return [(self.vec(), self.vec(), self.i()) for _ in range(self.i())]

    def done(self):
        return self.pos == len(self.v)


def put(vecs, a):
    if isinstance(a, bool):
        vecs.append([int(a)])
    elif isinstance(a, int):
        vecs.append([a])
    elif isinstance(a, float):
        vecs.append([bits(a)])
    elif isinstance(a, Shape):
        a.put(vecs)
    elif isinstance(a, Rag):
        a.shape.put(vecs)
        vecs.append(list(a.values))
    else:
        vecs.append([bits(x) if isinstance(x, float) else int(x) for x in a])


def bits(x):
    return struct.unpack("<q", struct.pack("<d", x))[0]


class Shape:
    """a ragged shape as its row_splits per layer; flags say which redundant members are supplied"""

    def __init__(self, splits, flags=None):
        self.splits = [list(s) for s in splits]
        self.flags = list(flags) if flags else [0] * len(splits)

    def put(self, vecs):
        vecs.append([len(self.splits)])
        for s, f in zip(self.splits, self.flags):
            vecs.append(s)
            vecs.append([f])

    def __repr__(self):
        return f"Shape({self.splits})"

    def num_axes(self):
        return len(self.splits) + 1

    def dim0(self):
        return len(self.splits[0]) - 1

    def tot(self, axis):
        return len(self.splits[0]) - 1 if axis == 0 else self.splits[axis - 1][-1]

    def nested(self, values=None):
        """nested list; leaves are `values` (default: their positions)"""
        cur = list(range(self.splits[-1][-1])) if values is None else list(values)
        for s in reversed(self.splits):
            cur = [cur[s[i]:s[i + 1]] for i in range(len(s) - 1)]
        return cur


class Rag:
    def __init__(self, shape, values):
        self.shape, self.values = shape, list(values)

    def __repr__(self):
        return f"Rag({self.shape.splits}, {self.values})"

    def nested(self):
        return self.shape.nested(self.values)


def from_nested(x, num_axes):
    """(splits per layer, leaves)"""
    splits, cur = [], x
    for _ in range(num_axes - 1):
        s, nxt = [0], []
        for sub in cur:
            nxt.extend(sub)
            s.append(len(nxt))
        splits.append(s)
        cur = nxt
    return splits, cur


def row_ids(splits):
    return [i for i in range(len(splits) - 1) for _ in range(splits[i + 1] - splits[i])]


def check_layers(t, layers, splits, what):
    """the layers returned by k2 are well formed and equal to the given row_splits"""
    t.eq(len(layers), len(splits), what + ": number of layers")
    for k, ((rs, ri, tot), want) in enumerate(zip(layers, splits)):
        t.eq(rs, want, f"{what}: row_splits of axis {k + 1}")
        t.eq(ri, row_ids(want), f"{what}: row_ids of axis {k + 1}")
        t.eq(tot, want[-1], f"{what}: total size of axis {k + 1}")


def rand_splits(t, rows, maxlen, p_empty=0.25):
    s = [0]
    style = t.int(0, 5)
    for _ in range(rows):
        if style == 0:
            n = 0
        elif style == 1 and rows:
            n = 0 if t.bool(0.85) else t.int(1, 3 * maxlen + 1)
        elif style == 2:
            n = t.int(1, max(1, maxlen))
        else:
            n = 0 if t.bool(p_empty) else t.int(0, max(1, maxlen))
        s.append(s[-1] + n)
    return s


def rand_shape(t, num_axes=None, dim0=None, maxlen=4, maxdim=5, max_axes=4, flags=True):
    na = num_axes or t.int(2, max_axes)
    rows = dim0 if dim0 is not None else (0 if t.bool(0.07) else t.upto(maxdim))
    splits = []
    for _ in range(na - 1):
        s = rand_splits(t, rows, maxlen)
        if s[-1] > 400:
            s = [min(x, 400) for x in s]
        splits.append(s)
        rows = s[-1]
    return Shape(splits, [t.int(0, 3) for _ in splits] if flags else None)


def rand_rag(t, lo=0, hi=9, **kw):
    s = rand_shape(t, **kw)
    return Rag(s, [t.int(lo, hi) for _ in range(s.splits[-1][-1])])


def k2_text(x):
    """a nested list in k2's text form"""
    return "[ " + " ".join(k2_text(y) if isinstance(y, list) else str(y) for y in x) + " ]"


def items(x, axis):
    """the flat list of the items on `axis` of a nested list"""
    for _ in range(axis):
        x = [z for y in x for z in y]
    return x


def leaves(x, num_axes):
    return items(x, num_axes - 1)


def map_at(x, axis, f):
    """apply f to every list on `axis` (f gets the list whose items are on axis `axis`)"""
    if axis == 0:
        return f(x)
    return [map_at(y, axis - 1, f) for y in x]


def check_nested(t, o, nested, num_axes, what, values=True):
    """harness output (a Ragged or a RaggedShape) equals the nested list"""
    splits, lv = from_nested(nested, num_axes)
    check_layers(t, o.layers(), splits, what)
    if values:
        t.eq(o.vec(), lv, what + ": values")

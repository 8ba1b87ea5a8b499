"""C28: symbol tables: one-to-one, inverse look-ups, text and files, merging."""
import os
import shutil
import subprocess
import sys
import tempfile

import k2

from oracle.core import group

P = "C28"
ALPHA = ["a", "b", "c", "aa", "A", "<s>", "#0", "1", "-1", "0", "é", "中文", "ß", "a_b", "\u00e9t\u00e9", "x=y", "'", "\\", "🙂", "%s"]


def sym(t):
    return t.choice(ALPHA) + (t.choice(["", "", str(t.int(0, 9)), t.choice(ALPHA)]))


def consistent(t, s, m, what, eps="<eps>"):
    """table s is the map m: id -> symbol"""
    t.eq(len(s), len(m), f"{what}: size")
    t.eq(s.ids, sorted(m), f"{what}: ids")
    t.eq(s.symbols, sorted(m.values()), f"{what}: symbols")
    for i, v in m.items():
        t.eq(s[i], v, f"{what}: symbol of {i}")
        t.eq(s.get(i), v, f"{what}: get({i})")
        t.eq(s[v], i, f"{what}: id of {v!r}")
        t.eq(s.get(v), i, f"{what}: get({v!r})")
        t.ok(i in s and v in s, f"{what}: {i} and {v!r} are members")
    t.eq(s.eps, eps, f"{what}: eps")
    t.eq(s[0], eps, f"{what}: symbol of 0")
    for i in (-1, max(m) + 1, max(m) + 7):
        if i not in m:
            t.ok(i not in s, f"{what}: {i} is no member")
            t.raises(lambda: s[i], f"{what}: look-up of the unknown id {i}")
    for v in ("nope!", ""):
        t.ok(v not in s, f"{what}: {v!r} is no member")
        t.raises(lambda: s[v], f"{what}: look-up of the unknown symbol {v!r}")


def grow(t, s, m, n):
    """n additions; m follows"""
    for _ in range(n):
        v = sym(t) if t.bool(0.85) or not m else t.choice(list(m.values()))
        i = None if t.bool(0.5) else t.choice([t.int(0, 12), t.int(0, 100), 10 ** 6])
        inv = {w: j for j, w in m.items()}
        if i is not None and t.bool(0.05) and v not in inv:
            t.raises(lambda: s.add(v, -i - 1), "adding under a negative id")
        if v in inv:
            t.eq(s.add(v, i), inv[v], "id of a symbol added again")
        elif i is None:
            r = s.add(v)
            t.ok(r not in m and isinstance(r, int) and r > 0, f"the id {r} given to a new symbol is free")
            m[r] = v
        elif i in m:
            t.raises(lambda: s.add(v, i), f"adding a new symbol under the id {i} in use")
        else:
            t.eq(s.add(v, i), i, "id asked for")
            m[i] = v


def make(t):
    k = t.int(0, 2)
    eps = t.choice(["<eps>", "<eps>", "EPS", "ε"])
    if k == 0:
        s, m = k2.SymbolTable(eps=eps), {0: eps}
    elif k == 1:
        ids = t.rng.sample(range(1, 40), t.upto(6))
        vs = list(dict.fromkeys(sym(t) for _ in range(20)))
        m = {i: v for i, v in zip(ids, vs)}
        if t.bool():
            m[0] = eps
        s = k2.SymbolTable(_id2sym=dict(m), _sym2id={v: i for i, v in m.items()}, eps=eps)
        m[0] = eps
    else:
        ids = t.rng.sample(range(1, 40), t.upto(6))
        vs = list(dict.fromkeys(sym(t) for _ in range(20)))
        m = {i: v for i, v in zip(ids, vs)}
        with0 = t.bool()
        if with0:
            m[0] = eps
        else:
            eps = "<eps>"
        lines = [f"{v}{t.choice([' ', chr(9), '   '])}{i}" for i, v in m.items()]
        t.rng.shuffle(lines)
        s = k2.SymbolTable.from_str(t.choice(["\n", "\n\n", " \n"]).join(lines))
        m[0] = eps
    return s, m, eps


@group(P, 300, thorough=4000)
def history(t):
    """a table after any sequence of additions"""
    s, m, eps = make(t)
    t.note(start=dict(m))
    consistent(t, s, m, "new table", eps)
    grow(t, s, m, t.upto(25))
    t.note(m=m)
    consistent(t, s, m, "table", eps)
    txt = s.to_str()
    t.eq(sorted(txt.split("\n")), sorted([f"{v} {i}" for i, v in m.items()] + [""]), "text")
    r = k2.SymbolTable.from_str(txt)
    consistent(t, r, m, "from text", eps)
    t.ok(r == s and s == r, "equal to the table read back")
    d = tempfile.mkdtemp(prefix="c28-")
    try:
        f = os.path.join(d, "t.txt")
        s.to_file(f)
        r2 = k2.SymbolTable.from_file(f)
    finally:
        shutil.rmtree(d)
    consistent(t, r2, m, "from file", eps)
    t.ok(r2 == s, "equal to the table read from a file")
    grow(t, r, m, 5)
    consistent(t, r, m, "table read back and grown", eps)


@group(P, 300, thorough=4000)
def merging(t):
    a, ma, ea = make(t)
    b, mb, eb = make(t)
    if t.bool(0.6):
        # make them agree on more
        for i, v in ma.items():
            if t.bool() and i and i not in mb and v not in mb.values():
                b.add(v, i)
                mb[i] = v
    ok = ea == eb
    for i, v in ma.items():
        ok = ok and mb.get(i, v) == v and {w: j for j, w in mb.items()}.get(v, i) == i
    t.note(a=ma, b=mb, compatible=ok)
    ca, cb = dict(ma), dict(mb)
    if ok:
        c = a.merge(b)
        consistent(t, c, {**ma, **mb}, "union", ea)
        t.ok((a == b) == (ma == mb), "equality")
        mc = {**ma, **mb}
        grow(t, c, mc, 6)
        consistent(t, c, mc, "union, grown", ea)
    else:
        t.raises(lambda: a.merge(b), "merging of tables in conflict")
        t.ok(not a == b, "unequal")
    consistent(t, a, ca, "first table", ea)
    consistent(t, b, cb, "second table", eb)


@group(P, 2, thorough=4)
def locale(t):
    """files do not depend on the locale"""
    code = """
import importlib.util, sys
spec = importlib.util.spec_from_file_location("st", sys.argv[1])
st = importlib.util.module_from_spec(spec)
sys.modules["st"] = st
spec.loader.exec_module(st)
s = st.SymbolTable()
for w in ("\\u00e9", "\\u4e2d", "a"):
    s.add(w)
s.to_file(sys.argv[2])
r = st.SymbolTable.from_file(sys.argv[2])
assert r == s and r["\\u4e2d"] == 2, "tables differ"
"""
    import k2.symbol_table as m
    d = tempfile.mkdtemp(prefix="c28-")
    try:
        env = dict(os.environ, PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", LC_ALL=t.choice(["C", "POSIX"]), LANG="C")
        env.pop("PYTHONIOENCODING", None)
        r = subprocess.run([sys.executable, "-c", code, m.__file__, os.path.join(d, "x")], env=env, capture_output=True)
        t.eq(r.returncode, 0, "writing and reading a table in the C locale: " + r.stderr.decode()[-200:])
    finally:
        shutil.rmtree(d)


@group(P, 150, thorough=1500)
def equality(t):
    """equal just if the pairs are equal"""
    a, ma, ea = make(t)
    b = k2.SymbolTable.from_str(a.to_str())
    t.ok(a == b, "equal")
    v, i = sym(t) + "+", max(ma) + t.int(1, 3)
    b.add(v, i)
    t.ok(not a == b and not b == a, "one pair more")
    a.add(v, i + 1)
    t.note(m=ma, v=v, i=i)
    t.ok(not a == b and not b == a, "another id of a symbol")
    c = k2.SymbolTable.from_str(b.to_str().replace(v, v + "'"))
    t.ok(not c == b and not b == c, "another symbol of an id")


@group(P, 150, thorough=1500)
def rejected(t):
    """text that does not describe a one-to-one table is refused"""
    s, m, eps = make(t)
    lines = [f"{v} {i}" for i, v in m.items()]
    k = t.int(0, 9)
    i, v = t.choice(list(m.items()))
    if k == 0:
        lines.append(f"{v} {max(m) + 1}")                  # a symbol twice
    elif k == 1:
        lines.append(f"fresh! {i}")                        # an id twice
    elif k == 2:
        lines.append(f"{v} {i}")                           # a line twice
    elif k == 3:
        lines.append("alone!")
    elif k == 4:
        lines.append(f"three! fields {max(m) + 1}")
    elif k == 5:
        lines.append("word! x")
    elif k == 6:
        lines.append(f"minus! {-t.int(1, 5)}")
    elif k == 7:
        lines.append(f"word! {max(m) + 1}.5")
    elif k == 8:
        lines.append(f"{max(m) + 1} word!")
    else:
        lines = [x for x in lines if not x.endswith(" 0")] + [f"<eps> {max(m) + 1}"]   # eps under another id
    t.rng.shuffle(lines)
    t.note(kind=k, lines=lines)
    t.raises(lambda: k2.SymbolTable.from_str("\n".join(lines)), "malformed or conflicting text")
    d = tempfile.mkdtemp(prefix="c28-")
    try:
        f = os.path.join(d, "t.txt")
        with open(f, "w", encoding="utf-8") as o:
            o.write("\n".join(lines))
        t.raises(lambda: k2.SymbolTable.from_file(f), "malformed or conflicting file")
    finally:
        shutil.rmtree(d)
    good = {j: w for j, w in m.items() if j}
    bad = dict(good)
    inv = {w: j for j, w in bad.items()}
    c = t.int(0, 3)
    if c == 0 and len(bad) > 1:
        a, b = t.rng.sample(sorted(bad), 2)
        bad[a] = bad[b]                                    # two ids of one symbol
    elif c == 1:
        bad[-3] = "neg"
        inv["neg"] = -3
    elif c == 2:
        inv["lonely"] = max(m) + 1                         # a symbol whose id does not know it
    else:
        bad[max(m) + 1] = "lonely"
    t.note(id2sym=bad, sym2id=inv)
    t.raises(lambda: k2.SymbolTable(_id2sym=bad, _sym2id=inv, eps=eps), "maps that are not inverse")

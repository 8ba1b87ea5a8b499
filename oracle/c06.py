"""C06: automata as text."""
import k2
import torch

from oracle import fsa as A
from oracle.core import group

P = "C06"


def num(w):
    s = ("%g" % w)
    return s


def rand_case(t, connected=False):
    kinds = ["acceptor", "transducer", "many", "ragged"]
    kind = t.choice(kinds)
    aux, ragged = [], []
    if kind == "transducer":
        aux = ["aux_labels"]
    elif kind == "many":
        aux = ["aux_labels"] + ["aux_labels%d" % i for i in range(2, t.int(2, 4))]
    elif kind == "ragged":
        aux = ["aux_labels"] if t.bool() else []
        ragged = ["r_a", "r_b"][:t.int(1, 2)]
    f = A.rand_fsa(t, acyclic=t.bool(), self_loops=t.bool(), connected=connected, attrs=aux + ragged)
    return f, aux, ragged


def arc_text(t, f, i, aux, ragged, sign=1, drop_zero=True):
    s, d, l, w = f.arcs[i]
    cells = [str(s), str(d), str(l)] + [str(f.attrs[k][i]) for k in aux]
    for k in ragged:
        r = f.attrs[k][i]
        if t.bool():
            cells.append("[ " + "".join(f"{x} " for x in r) + "]")
        else:
            cells.append("[" + " ".join(map(str, r)) + "]")
    if w or not drop_zero or t.bool():
        cells.append(num(sign * w))
    return cells


def join(t, rows):
    """rows of cells as lines with varying white space"""
    out = []
    for cells in rows:
        if t.bool(0.1):
            out.append(t.choice(["", "  ", "\t"]))
        sep = t.choice([" ", "  ", "\t", " \t "])
        out.append(t.choice(["", "", " "]) + sep.join(cells) + t.choice(["", "", " ", "\t"]))
    return "\n".join(out) + t.choice(["", "\n", "\n\n", "\n   "])


def how(t, aux, ragged):
    kw = {}
    if ragged:
        kw["ragged_label_names"] = ragged
    if aux == ["aux_labels"] and t.bool():
        kw["acceptor"] = False
    elif not aux and t.bool():
        if t.bool():
            kw["acceptor"] = True
    elif all(k == "aux_labels" + ("" if i == 0 else str(i + 1)) for i, k in enumerate(aux)) and t.bool():
        kw["num_aux_labels"] = len(aux)
    else:
        kw["aux_label_names"] = aux
    return kw


def same(t, x, f, aux, ragged, what):
    g = A.read(x, aux + ragged)
    A.same_arcs(t, g, f, what)
    for k in aux + ragged:
        t.eq(g.attrs[k], f.attrs[k], f"{what}: {k}")
        t.eq(type(getattr(x, k)) is torch.Tensor, k not in ragged, f"{what}: kind of {k}")


@group(P, 300)
def k2_text(t):
    "the k2 convention: read, write, read again"
    f, aux, ragged = rand_case(t)
    if not f.arcs:
        t.trivial = True
        f = A.F(0, [], {k: [] for k in f.attrs})
    rows = [arc_text(t, f, i, aux, ragged) for i in range(len(f.arcs))]
    if f.n:
        rows.append([str(f.n - 1)])
    s = join(t, rows)
    t.note(fsa=f, text=s)
    x = k2.Fsa.from_str(s, **how(t, aux, ragged))
    same(t, x, f, aux, ragged, "read")
    w = k2.to_str(x)
    lines = []
    for i, a in enumerate(f.arcs):
        c = [str(a[0]), str(a[1]), str(a[2])] + [str(f.attrs[k][i]) for k in aux]
        c += ["[ " + "".join(f"{v} " for v in f.attrs[k][i]) + "]" for k in ragged]
        lines.append((c, a[3]))
    got = [y for y in w.split("\n") if y.strip()]
    t.eq(len(got), len(lines) + (1 if f.arcs else 0), "number of lines written")
    for y, (c, v) in zip(got, lines):
        y = y.split()
        t.eq(y[:-1], " ".join(c).split(), "fields written")
        t.close(float(y[-1]), v, "score written")
    if f.arcs:
        t.eq(got[-1].split(), [str(f.n - 1)], "final state written")
    z = k2.Fsa.from_str(w, aux_label_names=aux, ragged_label_names=ragged)
    same(t, z, f, aux, ragged, "read again")
    t.eq(k2.to_str(z), w, "written again")
    if f.arcs and not ragged and len(aux) < 2:
        t.eq(k2.to_str_simple(x), w, "to_str_simple")


@group(P, 300)
def openfst_read(t):
    "the OpenFst convention: costs, several final states, any start state, any order of lines"
    f, aux, ragged = rand_case(t)
    n = max(1, f.n - 1)         # states of the OpenFst form; f's arcs to its final state become final weights
    lines, finals, arcs = [], [], []
    perm = list(range(n))
    if t.bool(0.4):
        t.rng.shuffle(perm)
    for i, a in enumerate(f.arcs):
        if a[2] == -1:
            finals.append((perm[a[0]], a[3]))
        else:
            arcs.append((perm[a[0]], perm[a[1]], a[2], a[3], i))
    order = t.choice(["state", "mixed"])
    body = [("a", a) for a in arcs] + [("f", x) for x in finals]
    if order == "mixed":
        t.rng.shuffle(body)
    if not body:
        t.trivial = True
        x = k2.Fsa.from_str(t.choice(["", "\n", "  \n"]), openfst=True, aux_label_names=aux, ragged_label_names=ragged)
        A.same_arcs(t, A.read(x), A.F(0, []), "empty text")
        return
    rows = []
    for kind, a in body:
        if kind == "a":
            g = A.F(n + 1, [a[:4]], {k: [f.attrs[k][a[4]]] for k in f.attrs})
            c = arc_text(t, g, 0, aux, ragged, sign=-1)
            rows.append(c)
        else:
            rows.append([str(a[0])] + ([num(-a[1])] if a[1] or t.bool() else []))
    if t.bool(0.1):
        rows.append([str(t.int(0, n - 1)), "Inf"])      # not final
    s = join(t, rows)
    # the definition
    start = body[0][1][0]
    mx = max([x for k, a in body for x in ([a[0], a[1]] if k == "a" else [a[0]])] + [int(r[0]) for r in rows if r[-1] == "Inf"])
    sup = max(mx + 1, 1)
    per = {q: [] for q in range(sup + 1)}
    for kind, a in body:
        if kind == "a":
            per[a[0]].append((a[1], a[2], a[3], {k: f.attrs[k][a[4]] for k in f.attrs}))
    for kind, a in body:
        if kind == "f":
            per[a[0]].append((sup, -1, a[1], {k: ([] if k in ragged else -1) for k in f.attrs}))
    sw = {0: start, start: 0}
    out, attrs = [], {k: [] for k in f.attrs}
    for q in range(sup + (1 if finals else 0)):
        for d, l, w, at in per[sw.get(q, q)]:
            out.append((q, sw.get(d, d), l, w))
            for k in at:
                attrs[k].append(at[k])
    t.note(text=s)
    if not finals:
        # without a final state the largest state would be the final one: only valid if nothing enters it
        t.trivial = True
        return
    want = A.F(sup + 1, out, attrs)
    fn = k2.Fsa.from_openfst if t.bool() else (lambda *a, **kw: k2.Fsa.from_str(*a, openfst=True, **kw))
    x = fn(s, **how(t, aux, ragged))
    same(t, x, want, aux, ragged, "read from OpenFst text")


@group(P, 200)
def openfst_write(t):
    "written in the OpenFst convention and read back"
    f, aux, ragged = rand_case(t, connected=True)
    if not f.arcs:
        t.trivial = True
        return
    t.note(fsa=f)
    x = A.to_k2(f)
    w = k2.to_str(x, openfst=True)
    t.note(text=w)
    got = [y.split() for y in w.split("\n") if y.strip()]
    t.eq(len(got), len(f.arcs), "one line per arc")
    for y, i in zip(got, range(len(f.arcs))):
        s, d, l, v = f.arcs[i]
        if l == -1:
            t.eq(y[:-1], [str(s)], "final state line")
        else:
            c = [str(s), str(d), str(l)] + [str(f.attrs[k][i]) for k in aux]
            for k in ragged:
                c += ["["] + [str(z) for z in f.attrs[k][i]] + ["]"]
            t.eq(y[:-1], c, "fields")
        t.close(float(y[-1]), -v, "cost")
    z = k2.Fsa.from_str(w, openfst=True, aux_label_names=aux, ragged_label_names=ragged)
    # final arcs of a state come after its other arcs
    idx = sorted(range(len(f.arcs)), key=lambda i: (f.arcs[i][0], f.arcs[i][2] == -1, i))
    want = A.F(f.n, [f.arcs[i] for i in idx], {k: [f.attrs[k][i] for i in idx] for k in f.attrs})
    for k in f.attrs:
        want.attrs[k] = [([] if k in ragged else -1) if a[2] == -1 else v for a, v in zip(want.arcs, want.attrs[k])]
    if f.arcs[0][0] == 0 and f.arcs[0][2] is not None:
        same(t, z, want, aux, ragged, "read back")


@group(P, 300)
def malformed(t):
    "text that describes no automaton is refused with an error"
    f = A.rand_fsa(t, acyclic=t.bool(), empty_ok=False, max_states=5)
    aux = t.int(0, 2)
    rows = [[str(a[0]), str(a[1]), str(a[2])] + [str(-1 if a[2] == -1 else 3)] * aux + [num(a[3])] for a in f.arcs]
    fin = [str(f.n - 1)]
    if not rows:
        rows = [["0", str(f.n - 1), "-1"] + ["-1"] * aux + ["0.5"]]
    kind = t.choice(["few", "many", "two", "unsorted", "nofinal", "twofinal", "after", "biglabel", "smallfinal", "neg",
                     "negfinal", "garbage", "notfinal", "enterfinal", "openfst_few", "openfst_many", "openfst_garbage",
                     "openfst_neg", "openfst_two", "ragged", "real_aux"])
    i = t.int(0, len(rows) - 1)
    openfst = kind.startswith("openfst")
    ragged = []
    if kind == "few":
        # drop fields; with the score gone a label can look like a score, so drop one more
        rows[i] = rows[i][:t.int(1, 2 + aux)] if t.bool() else rows[i][:2]
        if len(rows[i]) == 1:
            rows[i].append("0")
    elif kind == "many":
        rows[i].append(t.choice(["1", "0.5", "x"]))
    elif kind == "two":
        rows[i] = rows[i][:2]
    elif kind == "unsorted":
        src = [int(r[0]) for r in rows]
        if len(set(src)) < 2:
            t.trivial = True
            return
        rows.reverse()
    elif kind == "nofinal":
        fin = None
    elif kind == "twofinal":
        rows.insert(i, [str(f.n - 1)])
    elif kind == "after":
        rows.append(fin)
        fin = ["0", str(f.n - 1), "-1"] + ["-1"] * aux + ["0.5"] if t.bool() else fin
    elif kind == "biglabel":
        rows[i][2] = "99999999999"
    elif kind == "smallfinal":
        fin = [str(f.n - 2)] if max(max(int(r[0]), int(r[1])) for r in rows) == f.n - 1 else ["0"]
    elif kind == "neg":
        rows[i][t.int(0, 1)] = "-1"
    elif kind == "negfinal":
        fin = [t.choice(["-1", "-3", "x", "1x", "-", "+"])]
    elif kind == "garbage":
        rows[i][t.int(0, len(rows[i]) - 1)] = t.choice(["x", "--1", "1a", "[", "0x1", "", "e"]) or "?"
    elif kind == "notfinal":        # -1 on an arc that does not enter the final state
        j = next((j for j, a in enumerate(f.arcs) if a[1] != f.n - 1), None)
        if j is None:
            t.trivial = True
            return
        rows[j][2] = t.choice(["-1", "-2", "-3"])
    elif kind == "enterfinal":
        j = next((j for j, a in enumerate(f.arcs) if a[1] == f.n - 1), None)
        if j is None:
            t.trivial = True
            return
        rows[j][2] = str(t.choice([0, 1, 7, -2]))
    elif kind == "openfst_few":
        rows[i] = rows[i][:2 + aux] if aux else rows[i][:2] + ["x"]
        if len(rows[i]) == 2:
            rows[i] += ["x"]
    elif kind == "openfst_many":
        rows[i].append(t.choice(["1", "x"]))
    elif kind == "openfst_garbage":
        rows[i][t.int(0, 1)] = t.choice(["x", "--1", "-", "1.5"])
    elif kind == "openfst_neg":
        rows[i][t.int(0, 1)] = "-2"
    elif kind == "openfst_two":
        rows.append([t.choice(["-", "+", "x", "-1", "99999999999", "0.5.5", "1 Inff", "1 2 x y"])])
    elif kind == "ragged":
        ragged = ["r"]
        rows = [r[:-1] + ["[ 1 2 ]"] + r[-1:] for r in rows]
        rows[i][-2] = t.choice(["[ 1 2", "1 2 ]", "", "[ 1 x ]", "[ 1 ] ]", "( 1 )"])
    elif kind == "real_aux":
        if not aux:
            t.trivial = True
            return
        rows[i][3] = "1.5"
    if openfst:
        fin = [str(max(0, f.n - 2))]
    s = "\n".join(" ".join(r) for r in rows + ([fin] if fin else []))
    t.note(kind=kind, text=s, num_aux_labels=aux)
    t.raises(lambda: k2.Fsa.from_str(s, num_aux_labels=aux, openfst=openfst, ragged_label_names=ragged),
             f"malformed text ({kind}) was accepted")

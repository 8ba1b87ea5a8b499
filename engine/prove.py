"""Driver: extract functions, generate obligations, discharge them."""
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import select
import subprocess
import sys
import tempfile
import time
import traceback

import z3
from . import vc, contract as ct

HERE = os.path.dirname(os.path.abspath(__file__))
TORCH = "/opt/venv/lib/python3.12/site-packages/torch"
FLAGS = ["-x", "c++", "-DCUB_WRAPPED_NAMESPACE=k2", "-DK2_TORCH_VERSION_MAJOR=2",
         "-DK2_TORCH_VERSION_MINOR=4", "-DK2_USE_PYTORCH", "-DTHRUST_NS_QUALIFIER=thrust",
         "-D_GLIBCXX_USE_CXX11_ABI=0", "-DNDEBUG", "-std=c++17", "-fPIC",
         f"-I{TORCH}/include/torch/csrc/api/include", f"-I{TORCH}/include", "-I{repo}",
         "-I/usr/include/python3.12"]


def repo():
    return os.environ.get("VERIF_REPO", "/repo")


def build_plugin(outdir):
    src = os.path.join(HERE, "k2extract.cc")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    so = os.path.join(outdir, f"k2extract-{h}.so")
    if not os.path.exists(so):
        os.makedirs(outdir, exist_ok=True)
        tmp = so + f".{os.getpid()}.tmp"
        subprocess.run(["clang++", "-O0", "-fno-rtti", "-fPIC", "-shared", "-std=c++17", "-w",
                        "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
                        "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp], check=True)
        os.replace(tmp, so)
    return so


def pybind_include():
    return [f"-I{TORCH}/include/pybind11"]


def extract(so, tu, fns, stop=()):
    """run clang with the plugin on one translation unit"""
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, "o.json")
        P = "-fplugin-arg-k2extract-"
        cmd = ["clang++"] + [f.format(repo=repo()) for f in FLAGS] + \
            ["-fsyntax-only", "-w", f"-fplugin={so}", f"{P}out={out}", f"{P}root={repo()}/"] + \
            [f"{P}fn={f}" for f in sorted(fns)] + [f"{P}stop={f}" for f in stop]
        cmd.append(os.path.join(os.path.dirname(HERE), tu[1:]) if tu.startswith('@') else os.path.join(repo(), tu))
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
        if r.returncode != 0 or not os.path.exists(out):
            raise RuntimeError("extraction of %s failed:\n%s" % (tu, r.stderr[-3000:]))
        return vc.Program(json.load(open(out)))


# ---------------------------------------------------------------- solving
def run_z3(text, cfg, tmo):
    ctx = z3.Context()
    s = z3.Solver(ctx=ctx)
    s.set("timeout", int(tmo * 1000))
    for k, v in cfg.items():
        try:
            s.set(k, v)
        except z3.Z3Exception:
            pass
    s.from_string(text)
    r = s.check()
    if r == z3.unsat:
        return "unsat", ""
    if r == z3.sat:
        return "sat", model_text(s.model())
    return "unknown", s.reason_unknown()


def forked(fn, limit):
    """fn() in a child process with a hard time limit (z3 does not always keep its own)"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                r = fn()
            except BaseException as e:      # noqa
                r = ("unknown", f"{type(e).__name__}: {e}")
            with os.fdopen(wr, "w") as f:
                json.dump(r, f)
        finally:
            os._exit(0)
    os.close(wr)
    buf, end = b"", time.time() + limit
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([rd], [], [], left)[0]:
            os.kill(pid, 9)
            break
        c = os.read(rd, 65536)
        if not c:
            break
        buf += c
    os.close(rd)
    os.waitpid(pid, 0)
    try:
        return tuple(json.loads(buf))
    except ValueError:
        return "unknown", "time limit"


def solve_smt2(job):
    """one obligation as SMT-LIB text: proved iff unsat"""
    name, text, timeout = job[:3]
    end = job[3] if len(job) > 3 else None
    t0 = time.time()
    if end and t0 > end:
        return name, "skipped", "none", 0.0, "time budget of the check used up"
    last = ""
    nombqi = {"smt.mbqi": False, "smt.auto_config": False}
    eager = {"smt.random_seed": 7, "smt.qi.eager_threshold": 50.0}
    first = [("z3", {}, 2), ("Z3-4.8", {}, 2), ("z3-nombqi", nombqi, 2)]
    if "mark3" in text:      # facts instantiated by marks: model construction does not help
        first = [("Z3-4.8", {}, 3), ("z3-nombqi", nombqi, 3), ("z3", {}, 2)]
    for solver, cfg, tmo in (*first, ("z3-seed7", eager, 6),
                             ("z3", {}, min(8, timeout)), ("Z3-4.8", {}, min(8, timeout)), ("z3-nombqi", nombqi, min(8, timeout)),
                             ("cvc5", {}, timeout), ("z3-seed7", eager, timeout)):
        if solver.startswith("z3"):
            r, detail = forked(lambda: run_z3(text, cfg, tmo), tmo + 4)
            if r == "unsat":
                return name, "proved", solver, time.time() - t0, ""
            if r == "sat":
                return name, "refuted", solver, time.time() - t0, detail
            last = f"{solver}: unknown ({detail})"
        else:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(("(set-logic ALL)\n" if solver == "cvc5" else "") + text + "\n(check-sat)\n")
                fn = f.name
            cmd = ["cvc5", f"--tlimit={int(tmo * 1000)}", fn] if solver == "cvc5" else \
                ["/usr/bin/z3", "smt.mbqi=false", "smt.auto_config=false", f"-T:{int(tmo)}", fn]
            try:
                p = subprocess.run(cmd, capture_output=True, text=True, timeout=tmo + 10)
                o = p.stdout.strip().split("\n")[0] if p.stdout else ""
                if o == "unsat":
                    return name, "proved", solver, time.time() - t0, ""
                last += f"; {solver}: {o or p.stderr[:100]}"
            except subprocess.TimeoutExpired:
                last += f"; {solver}: timeout"
            finally:
                os.unlink(fn)
    return name, "unknown", "all", time.time() - t0, last


def model_text(m):
    out = []
    for d in m.decls():
        n = d.name()
        s = str(m[d]).replace("\n", " ")
        if len(s) < 300:
            out.append(f"{n} = {s}")
    return "; ".join(sorted(out))[:3000]


def to_text(ob):
    s = z3.Solver()
    for h in ob.hyps:
        s.add(h)
    s.add(z3.Not(ob.goal))
    return s.to_smt2().replace("(check-sat)", "")


class FnResult:
    def __init__(self, label, q):
        self.label, self.q = label, q
        self.obligs = []       # (name, kind, status, solver, secs, detail)
        self.error = None
        self.insts = 0
        self.trusted, self.inlined, self.calls = set(), set(), set()
        self.bounded = None

    def ok(self):
        return self.error is None and self.obligs and all(o[2] == "proved" for o in self.obligs)


def gen_contract(c, prog):
    """obligations of every instantiation of the contract's function in prog"""
    out = []
    fns = [prog.fns[i] for i in prog.roots if ct.strip_targs(prog.fns[i]["q"]) == c.q]
    for fn in fns:
        pts = [p["type"] for p in fn["params"]]
        if not c.matches(ct.strip_targs(fn["q"]), pts, fn.get("targs")):
            continue
        out.append((fn, pts))
    return out


def run_contract(c, prog, fn, pts, label):
    ex = vc.Exec(prog, None, label, loops=c.loops, opts=c.opts)
    all_ob = []

    def thunk():
        this = None
        v = ct.View(ex, 'verify', pts, fn=fn, cname=c.q)
        v.targs = fn.get("targs")
        ex.row_witness, ex.shape_look, ex.before, ex.after = [], [], {}, {}
        ex.view = v
        ex.line = fn["line"]
        c.fn(v)
        return None
    ex.explore(thunk)
    return ex


_INSTS = []          # (contract, program, fn, parameter types, label): filled before the workers are forked


def gen_worker(k):
    """symbolic execution of one function; everything it returns can be pickled"""
    c, prog, fn, pts, label = _INSTS[k]
    out = {"error": None, "trusted": set(), "inlined": set(), "calls": set(), "trivial": [], "obs": [],
           "reach": None, "tb": ""}
    try:
        ex = run_contract(c, prog, fn, pts, label)
    except vc.Unsupported as e:
        out["error"] = f"outside the verifier's subset: {e}"
        return out
    except (KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception, ValueError) as e:
        out["error"] = f"outside the verifier's subset: {type(e).__name__}: {e}"
        out["tb"] = traceback.format_exc()
        return out
    out["trusted"], out["inlined"], out["calls"] = set(ex.trusted), set(ex.inlined), set(ex.verified_calls)
    for ob in ex.obligs:
        if z3.is_true(ob.goal):
            out["trivial"].append((ob.name, ob.kind, "proved", "simplifier", 0.0, ""))
        else:
            out["obs"].append((ob.name, ob.kind, to_text(ob)))
    for nm, hyps in ex.reach[:1]:
        s = z3.Solver()
        for h in hyps:
            s.add(h)
        out["reach"] = s.to_smt2().replace("(check-sat)", "")
    return out


MAX_FAILED = 6         # of one function; its remaining obligations are not attempted then


def verify(contracts, so, jobs=8, timeout=30, verbose=False, budget=None):
    """verify a list of contracts; returns [FnResult]"""
    by_tu = {}
    for c in contracts:
        by_tu.setdefault(c.tu, []).append(c)
    results, progs = [], {}
    with cf.ThreadPoolExecutor(jobs) as tp:
        futs = {tu: tp.submit(extract, so, tu, {c.q for c in cs}) for tu, cs in by_tu.items()}
        for tu, f in futs.items():
            try:
                progs[tu] = f.result()
            except Exception as e:
                progs[tu] = e
    del _INSTS[:]
    owner = []
    for tu, cs in by_tu.items():
        prog = progs[tu]
        for c in cs:
            insts = [] if isinstance(prog, Exception) else gen_contract(c, prog)
            if not insts:
                r = FnResult(c.label, c.q)
                r.error = str(prog) if isinstance(prog, Exception) else f"function {c.q} not found in {tu}"
                results.append(r)
                continue
            for fn, pts in insts:
                ta = ",".join(fn["targs"]) if fn.get("targs") else fn.get("cls", "")
                ta = ta[ta.index("<") + 1:ta.rindex(">")] if "<" in ta and not fn.get("targs") else ta if fn.get("targs") else ""
                label = c.label + (f"<{ta}>" if ta else "")
                r = FnResult(label, c.q)
                r.bounded = c.bounded
                results.append(r)
                owner.append(r)
                _INSTS.append((c, prog, fn, pts, label))
    end = time.time() + budget if budget else None
    work = []            # (result, name, kind, text); kind None: is the precondition satisfiable?
    fork = mp.get_context("fork")
    # the largest functions first
    order = sorted(range(len(_INSTS)), key=lambda k: -len(json.dumps(_INSTS[k][2])))
    with cf.ProcessPoolExecutor(jobs, mp_context=fork) as sp:
        # the solver processes start while the parent is small
        list(sp.map(abs, range(jobs)))
        pend, jobs_of = {}, {}

        def submit(job, what):
            try:
                f = sp.submit(solve_any, job)
            except cf.process.BrokenProcessPool as x:
                f = cf.Future()
                f.set_exception(x)
            pend[f], jobs_of[f] = what, job

        with cf.ProcessPoolExecutor(jobs, mp_context=fork) as gp:
            gens = {gp.submit(gen_worker, k): k for k in order}
            for f in cf.as_completed(gens):
                r = owner[gens[f]]
                g = outcome(f, gen_worker, gens[f]) or dict(error="the generator crashed", tb="")
                if g["error"]:
                    r.error = g["error"]
                    if verbose and g["tb"]:
                        print(g["tb"], file=sys.stderr)
                    continue
                r.trusted, r.inlined, r.calls = g["trusted"], g["inlined"], g["calls"]
                r.obligs += g["trivial"]
                for name, kind, text in g["obs"]:
                    submit((("", text, timeout, end), False), (r, name, kind))
                if g["reach"] is not None:
                    submit((("", g["reach"], 2), True), (r, None, None))
        of = {}
        for f, (r, _, _) in pend.items():
            of.setdefault(id(r), []).append(f)
        lost = {}
        for f in cf.as_completed(pend):
            r, name, kind = pend[f]
            if f.cancelled():
                if name is not None:
                    r.obligs.append((name, kind, "skipped", "none", 0.0, "other obligations of this function failed"))
                continue
            _, st, solver, secs, detail = outcome(f, solve_any, jobs_of[f]) or ("", "skipped", "none", 0.0, "the solver crashed")
            if name is None:
                if st == "proved":
                    r.error = "vacuous: the precondition is contradictory"
                continue
            r.obligs.append((name, kind, st, solver, secs, detail))
            if st not in ("proved", "skipped"):
                lost[id(r)] = lost.get(id(r), 0) + 1
                if lost[id(r)] == MAX_FAILED:
                    for g in of[id(r)]:
                        g.cancel()
    for r in results:
        r.obligs.sort(key=lambda o: o[0])
        if r.error is None and not r.obligs:
            r.error = "no obligations generated"
    return results


def outcome(f, fn, arg):
    """the result of a job; of a second run in a process of its own when the pool broke (a native crash
    in one job ends the whole pool); None if that one crashes too"""
    try:
        return f.result()
    except cf.process.BrokenProcessPool:
        pass
    try:
        with cf.ProcessPoolExecutor(1, mp_context=mp.get_context("fork")) as p:
            return p.submit(fn, arg).result()
    except cf.process.BrokenProcessPool:
        return None


def solve_any(a):
    job, reach = a
    if reach:
        ctx = z3.Context()
        s = z3.Solver(ctx=ctx)
        s.set("timeout", 2000)
        s.from_string(job[1])
        r = s.check()
        return job[0], "proved" if r == z3.unsat else "reachable", "z3", 0.0, ""
    return solve_smt2(job)

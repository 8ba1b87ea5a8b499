#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current working tree.

1. builds k2 from /repo and the extractor;
2. extracts the functions under contract from the current source, generates
   their proof obligations and discharges them;
3. runs the bounded runtime-contract checks of the functions outside the
   verifier's reach (also the search for a failing input when an obligation
   fails).
Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Exit 3: no answer.
"""
import argparse
import importlib
import json
import os
import pkgutil
import shutil
import signal
import subprocess
import sys
import threading
import time

VT = "/opt/veriftools/pyvenv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/veriftools/pyvenv"):
    os.execv(VT, [VT] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
CACHE = os.path.join(HERE, ".cache")
EVID = os.path.join(HERE, "evidence")
KPY = "/opt/venv/bin/python"
KENV = dict(os.environ, PYTHONPATH="/repo/k2/python:/opt/k2-build/lib", OMP_NUM_THREADS="1",
            MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", CUDA_VISIBLE_DEVICES="",
            K2_DISABLE_CHECKS="", K2_SYNC_KERNELS="", VH_DIR=CACHE)
KENV.pop("K2_DISABLE_CHECKS")
KENV.pop("K2_SYNC_KERNELS")
JOBS = os.cpu_count() or 8


def say(*a):
    print(*a, flush=True)


def build_k2(res):
    t = time.time()
    p = subprocess.run(["bash", "/opt/vp/build.sh"], env=dict(os.environ, K2_NATIVE_ONLY="1"),
                       capture_output=True, text=True)
    res["secs"] = time.time() - t
    if p.returncode != 0:
        res["error"] = (p.stdout + p.stderr)[-4000:]


def build_harness(pid, res):
    """C++ harness (reaches functions that have no Python binding), only where used"""
    src = os.path.join(HERE, "oracle", "harness", f"{pid.lower()}.cc")
    if not os.path.exists(src):
        return
    from engine import prove
    os.makedirs(CACHE, exist_ok=True)
    obj = os.path.join(CACHE, f"vh_{pid.lower()}.so")
    cmd = ["g++", "-O1", "-w"] + [f.format(repo="/repo") for f in prove.FLAGS] + \
        ["-shared", src, "-o", obj, "-Wl,--unresolved-symbols=ignore-all"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        res["error"] = "harness: " + p.stderr[-4000:]


def load_contracts(pid):
    import contracts
    from engine import contract as ct
    for m in pkgutil.iter_modules(contracts.__path__):
        importlib.import_module("contracts." + m.name)
    return [c for c in ct.REG if not c.only_call and pid in c.props]


def run_oracle(pid, seed, tier, limit, hang=150):
    """run the bounded checks in worker processes; returns records and failures"""
    work = os.path.join(CACHE, f"oracle-{pid}-{os.getpid()}-{tier}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    procs = []
    for k in range(JOBS):
        out = os.path.join(work, f"{k}.jsonl")
        err = open(os.path.join(work, f"{k}.err"), "w")
        p = subprocess.Popen([KPY, os.path.join(HERE, "oracle", "run.py"), pid, "--seed", seed, "--tier", tier,
                              "--slice", f"{k}/{JOBS}", "--out", out], env=KENV, stdout=err, stderr=err,
                             cwd="/", start_new_session=True)
        procs.append(dict(p=p, out=out, size=0, t=time.time(), err=err, state="run"))
    t0 = time.time()
    while any(x["state"] == "run" for x in procs):
        time.sleep(0.1)
        for x in procs:
            if x["state"] != "run":
                continue
            if x["p"].poll() is not None:
                x["state"] = "exit"
                continue
            sz = os.path.getsize(x["out"]) if os.path.exists(x["out"]) else 0
            if sz != x["size"]:
                x["size"], x["t"] = sz, time.time()
            elif time.time() - x["t"] > hang:
                os.killpg(x["p"].pid, signal.SIGKILL)
                x["p"].wait()
                x["state"] = "hang"
            if time.time() - t0 > limit and x["state"] == "run":
                os.killpg(x["p"].pid, signal.SIGKILL)
                x["p"].wait()
                x["state"] = "limit"
    evals, checks, hashes, fails, samples, groups, known, incomplete = 0, 0, set(), [], [], {}, {}, 0
    for x in procs:
        last, ended = None, False
        if os.path.exists(x["out"]):
            for ln in open(x["out"]):
                try:
                    r = json.loads(ln)
                except ValueError:
                    continue
                if r[0] == "start":
                    last = r
                elif r[0] == "end":
                    ended = True
                elif r[0] == "done":
                    last = None
                    _, g, i, ok, nc, h, triv, kn = r[:8]
                    evals += 1
                    checks += nc
                    groups[g] = groups.get(g, 0) + 1
                    if not triv and nc:
                        hashes.add((g, h))
                    known.update(kn)
                    if not ok:
                        fails.append(dict(group=g, index=i, message=r[8], inputs=r[9]))
                    elif len(r) > 9 and len(samples) < 6 and r[9]:
                        samples.append(f"{g}#{i}: " + "; ".join(f"{a}={b}" for a, b in r[9])[:500])
        if not ended and x["state"] != "limit":
            if last is None:
                errtxt = open(x["err"].name).read()[-3000:]
                return dict(error="worker did not run: " + errtxt)
            why = "does not return" if x["state"] == "hang" else \
                f"the process was killed (exit status {x['p'].returncode})"
            fails.append(dict(group=last[1], index=last[2], message=why, inputs=[]))
        if x["state"] == "limit":
            incomplete += 1
    shutil.rmtree(work, ignore_errors=True)
    fails.sort(key=lambda f: f["index"])
    return dict(evals=evals, checks=checks, distinct=len(hashes), fails=fails, samples=samples, groups=groups,
                known=known, incomplete=incomplete)


def read_known(pid):
    out = {}
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for ln in open(f):
            if ln.startswith(f"KNOWN property={pid} "):
                rest = ln.split(" ", 2)[2].strip()
                out[rest.split(" ", 1)[0].split("=", 1)[1]] = rest.split(" ", 1)[1]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--setup", action="store_true", help="check that the extractor builds")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-build", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--no-oracle", action="store_true")
    a = ap.parse_args()
    if a.setup:
        from engine import prove
        say(prove.build_plugin(CACHE))
        return 0
    pid, tier, seed = a.pid, a.tier, os.environ.get("VERIF_SEED", "1")
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    evfile = os.path.join(EVID, f"{pid}.json")
    if os.path.exists(evfile):
        os.unlink(evfile)
    from engine import prove
    from engine import contract as ct
    cs = [] if a.no_proof else load_contracts(pid)
    has_oracle = os.path.exists(os.path.join(HERE, "oracle", pid.lower() + ".py")) and not a.no_oracle
    bres, hres, so = {}, {}, {}
    ths = []
    if has_oracle and not a.no_build:
        ths.append(threading.Thread(target=build_k2, args=(bres,)))
    if has_oracle:
        ths.append(threading.Thread(target=build_harness, args=(pid, hres)))
    for t in ths:
        t.start()

    def mk():
        try:
            so["path"] = prove.build_plugin(CACHE)
        except Exception as e:
            so["error"] = str(e)
    if cs:
        mk()
    # ---- oracle in the background while the proofs run
    orc = {}

    def oracle():
        for t in ths:
            t.join()
        if "error" in bres or "error" in hres:
            return
        orc.update(run_oracle(pid, seed, tier, 600 if tier == "quick" else 7200))
    ot = threading.Thread(target=oracle)
    if has_oracle:
        ot.start()
    results = []
    if cs:
        if "error" in so:
            say("the extractor does not build:", so["error"])
            return 3
        results = prove.verify(cs, so["path"], jobs=JOBS, timeout=40 if tier == "quick" else 300,
                               budget=420 if tier == "quick" else 3600)
    if has_oracle:
        ot.join()
        for r in (bres, hres):
            if "error" in r:
                say(f"{pid}: build failed\n" + r["error"])
                return 3
        if "error" in orc:
            say(f"{pid}: {orc['error']}")
            return 3
    # ---- verdict
    failed, undecided = [], []
    nob = ndis = 0
    secs = {}
    kinds = {}
    for r in results:
        for name, kind, st, solver, s, detail in r.obligs:
            nob += 1
            secs[solver] = secs.get(solver, 0) + s
            kinds[kind] = kinds.get(kind, 0) + 1
            if st == "proved":
                ndis += 1
            elif st != "skipped":
                failed.append(dict(function=r.q, contract=r.label, obligation=name, kind=kind, status=st,
                                   solver=solver, detail=detail))
        skip = [o for o in r.obligs if o[2] == "skipped"]
        if skip:
            undecided.append(dict(function=r.q, contract=r.label, reason=f"{len(skip)} obligations not attempted: {skip[0][5]}"))
        if r.error:
            undecided.append(dict(function=r.q, contract=r.label, reason=r.error.strip()[:600]))
    for u in undecided:
        say(f"UNDECIDED {u['contract']}: {u['reason'][:300]} (the bounded checks decide on this tree)")
    fails = list(orc.get("fails", []))
    searched = 0
    if failed and has_oracle and not fails and tier == "quick":
        # look harder for an input that shows the failed obligation
        left = 780 - (time.time() - t0)
        if left > 30:
            deep = run_oracle(pid, seed + "-search", "thorough", min(left, 240))
            fails = deep.get("fails", [])
            searched = deep.get("evals", 0)
    known = read_known(pid)
    for k, what in known.items():
        if orc.get("known", {}).get(k):
            say(f"KNOWN-FINDING: property={pid} {what}")
    rc = 0
    rdir = os.path.join(EVID, "replay")
    nviol = 0
    if fails or failed:
        rc = 1
        os.makedirs(rdir, exist_ok=True)
    if fails:
        seen = set()
        for f in fails:
            if f["group"] in seen:
                continue
            seen.add(f["group"])
            nviol += 1
            path = os.path.join(rdir, f"{pid}-{f['group']}.json")
            sd = seed if not searched else seed + "-search"
            tr = tier if not searched else "thorough"
            f["replay"] = f"PYTHONPATH={KENV['PYTHONPATH']} VH_DIR={CACHE} {KPY} {HERE}/oracle/run.py {pid} " \
                          f"--seed {sd} --tier {tr} --only {f['group']}:{f['index']}"
            json.dump(dict(property=pid, **f, failed_obligations=failed), open(path, "w"), indent=1)
            say(f"  {f['group']}#{f['index']}: {f['message'][:600]}")
            for kv in f["inputs"][:12]:
                say(f"    {kv[0]} = {str(kv[1])[:300]}")
            for o in failed[:5]:
                say(f"    failed obligation: {o['obligation']} ({o['status']})")
            say(f"VIOLATION property={pid} replay={path}")
            if nviol >= 5:
                break
    elif failed:
        nviol = 1
        path = os.path.join(rdir, f"{pid}-obligations.json")
        json.dump(dict(property=pid, failed_obligations=failed, searched_inputs=orc.get("evals", 0) + searched),
                  open(path, "w"), indent=1)
        for o in failed[:10]:
            say(f"  failed obligation: {o['obligation']} ({o['status']}, {o['solver']}) {o['detail'][:300]}")
        say(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    # ---- evidence
    level = "proof" if cs and not has_oracle else ("other" if cs else "exploration")
    man = os.path.join(HERE, "MANIFEST.json")
    if os.path.exists(man):
        for c in json.load(open(man))["checks"]:
            if c["property"] == pid:
                level = c["level"]
    trusted = sorted(set().union(*[r.trusted for r in results])) if results else []
    cov = {}
    if cs:
        cov.update(
            obligations=nob, discharged=ndis,
            checker_cmd=f"cd {HERE} && {sys.argv[0]} {pid} --no-oracle",
            trusted_base=["the extractor and the VC generator in /verif/engine", "clang 18 AST", "z3, cvc5"] + trusted,
            functions_under_contract=sorted({r.label for r in results}),
            functions_proved=sorted({r.label for r in results if r.ok() and not r.bounded}),
            bounded_contracts={r.label: r.bounded for r in results if r.bounded},
            undecided=undecided, obligations_by_kind=kinds,
            solver_seconds={k: round(v, 2) for k, v in secs.items()},
            inlined_functions=sorted(set().union(*[r.inlined for r in results])),
            callees_by_contract=sorted(set().union(*[r.calls for r in results])))
    if has_oracle:
        cov.update(
            evaluations=orc.get("evals", 0), distinct_nontrivial=orc.get("distinct", 0),
            rule="bounded stand-in: runtime contracts of the functions outside the verifier's reach, on inputs drawn "
                 "from VERIF_SEED with sizes growing from empty; a case is non-trivial if at least one contract clause "
                 "was evaluated on an input not seen before",
            contract_clauses_evaluated=orc.get("checks", 0), bounded_groups=orc.get("groups", {}),
            samples=orc.get("samples", []) or ["none"])
    cov["explanation"] = (
        "Deductive part: every obligation of the listed functions is generated from /repo's current source and "
        "discharged for all inputs. Bounded part (never counted as proved): runtime contracts of the remaining "
        "operations on generated inputs." if cs else
        "Bounded stand-in only: the functions of this property are outside the verifier's subset; their contracts are "
        "evaluated at run time on generated inputs.")
    assumptions = ["machine integers are treated as mathematical integers and floats as reals in proofs",
                   "only the CPU branches are verified"] if cs else []
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick",
              seed=int(seed) if seed.isdigit() else 1, level=level, coverage=cov, assumptions=assumptions + trusted,
              wall_s=round(time.time() - t0, 1), violations=nviol)
    json.dump(ev, open(evfile, "w"), indent=1)
    say(f"{pid}: {'held' if rc == 0 else 'BROKEN'}; {ndis}/{nob} obligations, {orc.get('evals', 0)} bounded cases "
        f"({orc.get('checks', 0)} clauses), {time.time() - t0:.0f} s")
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(3)

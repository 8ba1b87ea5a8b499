"""Worker: runs a slice of the cases of one property; prints JSON lines."""
import argparse
import faulthandler
import hashlib
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path = [p for p in sys.path if os.path.abspath(p or ".") != HERE]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--slice", default="0/1")
    ap.add_argument("--out")
    ap.add_argument("--only", help="group:index")
    ap.add_argument("--group")
    a = ap.parse_args()
    os.environ["OMP_NUM_THREADS"] = "1"
    import torch
    torch.set_num_threads(1)
    from oracle import core
    importlib.import_module("oracle." + a.pid.lower())
    groups = core.GROUPS.get(a.pid, [])
    if a.only:
        name, idx = a.only.rsplit(":", 1)
        g = next(x for x in groups if x.name == name)
        faulthandler.enable()
        n = g.n if a.tier == "quick" else g.thorough
        ok, t, msg = core.run_case(a.seed, g, int(idx), n)
        print("contract:", (g.fn.__doc__ or g.name).strip())
        for k, v in t.notes:
            print(f"  {k} = {v}")
        print("HOLDS" if ok else "BROKEN: " + msg)
        sys.exit(0 if ok else 1)
    k, m = map(int, a.slice.split("/"))
    out = open(a.out, "w") if a.out else sys.stdout
    jobs = []
    for g in groups:
        if a.group and g.name != a.group:
            continue
        n = g.n if a.tier == "quick" else g.thorough
        jobs += [(g, i, n) for i in range(n)]
    jobs = jobs[k::m]
    nfail = {}
    for g, i, n in jobs:
        if nfail.get(g.name, 0) >= 3:
            continue
        out.write(json.dumps(["start", g.name, i]) + "\n")
        out.flush()
        ok, t, msg = core.run_case(a.seed, g, i, n)
        h = hashlib.md5(repr(t.notes).encode()).hexdigest()
        rec = ["done", g.name, i, ok, t.checks, h, t.trivial, t.known]
        if not ok:
            nfail[g.name] = nfail.get(g.name, 0) + 1
            rec += [msg, [[k, core.short(v)] for k, v in t.notes]]
        elif i < 2:
            rec += ["", [[k, core.short(v)] for k, v in t.notes]]
        out.write(json.dumps(rec) + "\n")
        out.flush()
    out.write(json.dumps(["end"]) + "\n")
    out.flush()
    os._exit(0)     # skip destructors of a possibly corrupted heap


main()

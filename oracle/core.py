"""Bounded runtime-contract checks of the real, built k2.

Each group is a postcondition of a public operation, evaluated on generated
inputs against an independent definition (nested lists, path enumeration,
textbook recursions).  Cases are determined by (VERIF_SEED, group, index) only.
"""
import math
import os
import random
import sys
import traceback

GROUPS = {}     # property -> list of Group


class Fail(Exception):
    pass


class Group:
    def __init__(self, pid, name, fn, n, thorough):
        self.pid, self.name, self.fn, self.n, self.thorough = pid, name, fn, n, thorough


def group(pid, n=150, thorough=None, name=None):
    """register a check; n cases in the quick tier, `thorough` (default 8n) in the thorough one"""
    def deco(fn):
        for q in (pid if isinstance(pid, (list, tuple)) else [pid]):
            GROUPS.setdefault(q, []).append(Group(q, name or fn.__name__, fn, n, thorough or 8 * n))
        return fn
    return deco


class T:
    """one test case"""

    def __init__(self, seed, g, idx, n):
        self.rng = random.Random(f"{seed}/{g.name}/{idx}")
        self.idx, self.n = idx, n
        self.size = min(1.0, 0.15 + 1.3 * (idx % max(n // 3, 1)) / max(n // 3, 1))   # small cases first
        self.notes = []
        self.trivial = False
        self.checks = 0
        self.known = {}

    # -- generation helpers
    def int(self, a, b):
        return self.rng.randint(a, b)

    def upto(self, m):
        """0..m, scaled by size"""
        return self.rng.randint(0, max(1, round(m * self.size)))

    def bool(self, p=0.5):
        return self.rng.random() < p

    def choice(self, xs):
        return self.rng.choice(xs)

    def note(self, **kw):
        for k, v in kw.items():
            self.notes.append((k, v))
            if os.environ.get("ORACLE_TRACE"):     # for inputs that kill the process
                print(f"  {k} = {v}", file=sys.stderr, flush=True)

    def log(self, v):
        self.notes.append(("step", v))

    # -- contracts
    def ok(self, cond, what):
        self.checks += 1
        if not cond:
            raise Fail(what)

    def eq(self, got, want, what):
        self.checks += 1
        if got != want:
            raise Fail(f"{what}: got {short(got)}, expected {short(want)}")

    def close(self, got, want, what, tol=1e-4, abs_tol=None):
        """numbers or (nested) sequences; infinities must match"""
        self.checks += 1
        if not close(got, want, tol, tol if abs_tol is None else abs_tol):
            raise Fail(f"{what}: got {short(got)}, expected {short(want)}")

    def raises(self, fn, what):
        self.checks += 1
        try:
            fn()
        except Exception:
            return
        raise Fail(f"{what}: no error was raised")


def close(a, b, tol, at):
    if hasattr(a, "tolist"):
        a = a.tolist()
    if hasattr(b, "tolist"):
        b = b.tolist()
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y, tol, at) for x, y in zip(a, b))
    if isinstance(a, (list, tuple)) != isinstance(b, (list, tuple)):
        return False
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= at + tol * max(abs(a), abs(b))


def short(x):
    s = repr(x)
    return s if len(s) < 600 else s[:600] + "..."


def run_case(seed, g, idx, n):
    """returns (ok, T, message)"""
    t = T(seed, g, idx, n)
    try:
        g.fn(t)
        return True, t, ""
    except Fail as e:
        return False, t, str(e)
    except Exception as e:     # an error from k2 on a valid input is a failure
        tb = traceback.extract_tb(e.__traceback__)
        if os.environ.get("ORACLE_TRACE"):
            traceback.print_exc()
        where = next((f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno}" for f in reversed(tb) if "/oracle/" in f.filename), "")
        return False, t, f"unexpected {type(e).__name__} at {where}: {str(e).strip()[:1500]}"

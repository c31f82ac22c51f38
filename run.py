"""Run the check of one property: python3 run.py C01 [...]. Tier and seed come from the environment."""
from __future__ import annotations

import ctypes
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sa.ctx import REPO, Ctx  # noqa: E402
from sa.interp import AnalysisBroken  # noqa: E402
from sa.report import Report  # noqa: E402

EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
# With VERIF_STRICT=1, obligations that could not be decided make the check fail (exit status 2) instead of being listed.
STRICT = os.environ.get("VERIF_STRICT") == "1"
BUDGET = float(os.environ.get("VERIF_BUDGET", "480"))  # seconds per property; what is left then is undecided
CLOCK = {"thread": None, "deadline": None}
SHARED = {}  # analysis runs, when several properties are checked together
TRUSTED = [
    "abstract semantics of the Python subset and of the standard library calls in sa/ (interp.py, models.py, calls.py)",
    "ctypes layout rules of LP64 little endian platforms",
    "frozen tables in spec/ (cross-validated against the sample logs when they were made)",
]


class OutOfTime(BaseException):
    """The time for one property is used up."""


def again(ctx, rep, check, tier):
    """The check repeated for calls that come after an earlier one, on another file, which left something behind."""
    for k in range(3):
        second = Report(rep.prop)
        second.ctx = ctx
        ctx.second = k
        try:
            check(ctx, second, tier)
        finally:
            ctx.second = None
        rep.cover("obligations for a later call", second.total())
        for rule, construct, where, text in second.violations:
            rep.bad(rule, construct, where, text + ", in a call after " + EARLIER[k])
        for u in second.undecided:
            if u not in rep.undecided:
                rep.unk(*u)
        if rep.violations:
            return


EARLIER = ("an equal one on another file", "one on a log of another version", "one that checked less")
ALONE = ("C17",)  # is about this very thing


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line.startswith(f"property={prop} "):
                    out.append(line.split(" ", 1)[1])
    return out


def run(prop, tier):
    t0 = time.time()
    rep = Report(prop)
    broken = gave_up = None
    ctx = None
    try:
        check = importlib.import_module(f"sa.checks.{prop.lower()}").check
        try:
            CLOCK["deadline"] = time.time() + BUDGET
            ctx = SHARED.get(REPO) or Ctx(REPO)
            if os.environ.get("VERIF_SHARE") == "1":
                SHARED[REPO] = ctx
            rep.ctx = ctx
            check(ctx, rep, tier)
            if ctx.writes and not rep.violations and prop not in ALONE:
                again(ctx, rep, check, tier)
            CLOCK["deadline"] = None
        except AnalysisBroken:
            raise
        except (Exception, OutOfTime):  # pylint: disable=broad-except
            # The analysis met code it cannot follow: that is no verdict about the property.
            CLOCK["deadline"] = None
            gave_up = traceback.format_exc()
            rep.unk("analysis", "the rest of the check", REPO, "the analysis cannot follow this code: " + gave_up.strip().splitlines()[-1])
        if not rep.total():
            broken = "no obligation was generated"
    except AnalysisBroken as e:
        broken = str(e)
    except Exception:  # pylint: disable=broad-except
        broken = traceback.format_exc()
    known = known_findings(prop)
    new, old = [], []
    for v in rep.violations:
        (old if any(k == f"{v[0]}: {v[1]}" for k in known) else new).append(v)
    if STRICT and not broken and rep.undecided:
        broken = f"only {rep.discharged} of {rep.total()} obligations could be decided; first undecided: {rep.undecided[0]}"
    cov = {
        "obligations": rep.total(), "discharged": rep.discharged, "undecided": len(rep.undecided),
        "explanation": "Static value-flow analysis of the sources in " + REPO + "/atoparser (nothing is executed). Rules applied and number of "
                       "obligations each: " + "; ".join(f"{k} ({n})" for k, n in rep.rules.items()) + ". Undecided obligations raise no alarm.",
        "analysed": rep.covered, "samples": rep.samples,
        "checker_cmd": f"python3 run.py {prop}", "trusted_base": TRUSTED,
    }
    if ctx is not None:
        cov["modules_analysed"] = len(ctx.i.trees)
        cov["entry_point_runs"] = ctx.n_runs
        cov["functions_entered"] = sorted(ctx.i.entered)[:80]
        if ctx.i.gaps:
            cov["no_model_for"] = sorted(ctx.i.gaps)[:20]
            if os.environ.get("VERIF_GAPS"):
                print(f"GAPS {prop} {sorted(ctx.i.gaps)}")
        if ctx.i.problems:
            cov["unsupported"] = [str(p)[:200] for p in ctx.i.problems[:20]]
    if rep.undecided:
        cov["undecided_list"] = [" | ".join(map(str, u))[:400] for u in rep.undecided[:20]]
    if new:
        cov["violation_list"] = [" | ".join(map(str, u))[:600] for u in new[:20]]
    if broken:
        cov["broken"] = broken
    if gave_up:
        cov["gave_up"] = gave_up
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
          "assumptions": TRUSTED, "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, f"{prop}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    for v in old:
        print(f"KNOWN-FINDING: property={prop} {v[0]}: {v[1]} ({v[2]}) {v[3]}"[:700])
    for v in new[:12]:
        print(f"{v[2]}: [{v[0]}] {v[1]}: {v[3]}"[:900])
    for u in rep.undecided[:8]:
        print(f"undecided: {u[2]}: [{u[0]}] {u[1]}: {u[3]}"[:500])
    print(f"{prop}: {rep.total()} obligations, {rep.discharged} discharged, {len(rep.undecided)} undecided, {len(new)} violated; "
          f"{json.dumps(rep.covered)}; {ev['wall_s']} s")
    if new:
        print(f"VIOLATION property={prop} replay=evidence/{prop}.json")
        return 1
    if broken:
        print(f"ANALYSIS-BROKEN property={prop}: {broken}"[:3000])
        return 2
    return 0


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    rc = 0
    for p in sys.argv[1:]:
        rc = max(rc, run(p, tier))
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(20000)
    t = threading.Thread(target=main)
    t.start()
    while t.is_alive():
        t.join(1)
        d = CLOCK["deadline"]
        if d is not None and time.time() > d:
            CLOCK["deadline"] = None
            SHARED.clear()
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(OutOfTime))

"""Try the checks against variants of the package: mutants that break a property and refactorings that break none.

python3 tools/variants.py [-t] [-j N] [name ...]     (-t: also run the repository's tests on each variant)
A variant is made in a scratch directory; /repo is only read.
"""
import concurrent.futures
import importlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
ALL = [f"C{n:02}" for n in range(1, 40) if os.path.exists(os.path.join(HERE, "sa", "checks", f"c{n:02}.py"))]


def load():
    out = []
    for f in sorted(os.listdir(os.path.join(HERE, "tools", "variants_data"))):
        if f.endswith(".py") and f != "__init__.py":
            m = importlib.import_module(f"variants_data.{f[:-3]}")
            out += m.VARIANTS
    return out


def apply(v, root):
    for f, old, new in v["edits"]:
        path = os.path.join(root, f)
        s = open(path).read() if os.path.exists(path) else ""
        if old is None:
            s = new
        elif isinstance(old, re.Pattern):
            s, n = old.subn(new, s)
            if not n:
                raise SystemExit(f"{v['name']}: pattern not found in {f}: {old.pattern[:80]}")
        else:
            if s.count(old) != 1:
                raise SystemExit(f"{v['name']}: found {s.count(old)} times in {f}: {old[:80]}")
            s = s.replace(old, new)
        with open(path, "w") as g:
            g.write(s)


def one(v, tests):
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="variant.")
    try:
        shutil.copytree("/repo/atoparser", d + "/atoparser", ignore=shutil.ignore_patterns("__pycache__"))
        for f in ("pyproject.toml", "conftest.py"):
            shutil.copy("/repo/" + f, d)
        try:
            apply(v, d)
        except SystemExit as e:
            return v, "ERROR", str(e), 0
        note = ""
        if tests:
            r = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-n", "0", "-p", "no:cacheprovider", "--timeout=100"], cwd=d, capture_output=True, text=True)
            if r.returncode:
                note = " TESTS FAIL " + " ".join(x for x in r.stdout.splitlines() if x.startswith(("FAILED", "ERROR")))[:300]
        props = v.get("check") or ALL
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev", VERIF_SHARE="1", VERIF_TIER="quick")
        try:
            r = subprocess.run([sys.executable, "run.py"] + props, cwd=HERE, capture_output=True, text=True, env=env, timeout=240)
        except subprocess.TimeoutExpired as e:
            return v, "TIMEOUT" + note, (e.stdout or b"").decode(), time.time() - t0
        hit = re.findall(r"VIOLATION property=(\w+)", r.stdout)
        broken = re.findall(r"ANALYSIS-BROKEN property=(\w+)", r.stdout)
        und = re.findall(r"^(C\d\d): \d+ obligations, \d+ discharged, ([1-9]\d*) undecided", r.stdout, re.M)
        if len(re.findall(r"^C\d\d: \d+ obl", r.stdout, re.M)) != len(props):
            broken.append("crash")
        if broken:
            res = "BROKEN " + " ".join(broken)
        elif v["prop"] is None:
            res = "quiet" if not hit else "ALARM " + " ".join(hit)
        else:
            res = "caught" if v["prop"] in hit else "MISSED"
            if [h for h in hit if h != v["prop"]]:
                res += " also " + " ".join(h for h in hit if h != v["prop"])
        if und:
            res += " undecided " + " ".join(f"{a}:{b}" for a, b in und)
        return v, res + note, r.stdout + r.stderr[-2000:], time.time() - t0
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]
    tests = "-t" in args
    verbose = "-v" in args
    jobs = int(args[args.index("-j") + 1]) if "-j" in args else 8
    names = [a for i, a in enumerate(args) if not a.startswith("-") and (i == 0 or args[i - 1] != "-j")]
    vs = [v for v in load() if not names or any(re.fullmatch(n, v["name"]) for n in names)]
    seen = set()
    for v in vs:
        assert v["name"] not in seen, v["name"]
        seen.add(v["name"])
    tally = {}
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for fut in concurrent.futures.as_completed([ex.submit(one, v, tests) for v in vs]):
            v, res, out, dt = fut.result()
            tally[res.split()[0]] = tally.get(res.split()[0], 0) + 1
            print(f"{v['name']:40} {v['prop'] or 'refactoring':12} {res}  ({dt:.0f} s)", flush=True)
            if verbose or res.startswith(("ALARM", "BROKEN", "ERROR")):
                print("    " + "\n    ".join(x for x in out.splitlines() if verbose or not re.match(r"C\d\d: \d+ obl", x))[:3500], flush=True)
    print(tally)


if __name__ == "__main__":
    main()

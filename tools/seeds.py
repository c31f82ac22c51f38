"""Makes the planted bugs of /verif/seeded from tools/seed_data/*.py and confirms each one.

python3 tools/seeds.py [-c] [name-regex ...]    (-c: also run all checks on each and print which report it)
Each bug is confirmed in a scratch copy of /repo: the patch applies, the package's tests pass, and the demonstration
passes without the change and fails with it.
"""
import concurrent.futures
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"
BASE = "af73b89"
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$here/demo.py"
'''


def load():
    out = []
    for f in sorted(os.listdir(os.path.join(HERE, "tools", "seed_data"))):
        if f.startswith("seeds") and f.endswith(".py"):
            out += importlib.import_module(f"seed_data.{f[:-3]}").SEEDS
    return out


def original(path, old):
    """The replaced text is that of the original repository."""
    s = subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{path}"], capture_output=True, text=True).stdout
    return old in s


def one(sd, checks):
    name = sd["id"]
    d = tempfile.mkdtemp(prefix="seed.")
    try:
        repo = d + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        out = os.path.join(HERE, "seeded", name)
        os.makedirs(out, exist_ok=True)
        for f, old, new in sd["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                return name, f"BAD EDIT found {n} times: {old[:60]!r}", ""
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
        gone = [x[1:] for x in diff.splitlines() if x.startswith("-") and not x.startswith("---") and x[1:].strip()]
        base = "\n".join(subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{f}"], capture_output=True, text=True).stdout for f in {e[0] for e in sd["edits"]}).splitlines()
        mine = [x for x in gone if x not in base]
        note = f" (changes repaired lines: {mine[0].strip()[:50]})" if mine else ""
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(sd["demo"].lstrip("\n"))
        shutil.copy(os.path.join(HERE, "tools/seed_data/synth.py"), out)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        json.dump({"property": sd["property"], "needs": sd["needs"], "what_it_breaks": sd["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        r0 = subprocess.run(["bash", out + "/demo.sh"], cwd=repo, capture_output=True, text=True, timeout=300)
        subprocess.run(["git", "-C", repo, "apply", out + "/patch.diff"], check=True)
        r1 = subprocess.run(["bash", out + "/demo.sh"], cwd=repo, capture_output=True, text=True, timeout=300)
        t = subprocess.run([PY, "-B", "-m", "pytest", "-q", "-n", "0", "-p", "no:cacheprovider", "--timeout=100"], cwd=repo, capture_output=True, text=True)
        res = "ok" if r0.returncode == 0 and r1.returncode and t.returncode == 0 else "NOT CONFIRMED"
        if r0.returncode:
            res += " demo fails on the unchanged tree: " + r0.stderr[-300:]
        if not r1.returncode:
            res += " demo passes with the change"
        if t.returncode:
            res += " tests fail: " + " ".join(x for x in t.stdout.splitlines() if x.startswith("FAILED"))[:200]
        hit = ""
        if checks and r1.returncode:
            props = [f"C{n:02}" for n in range(1, 60) if os.path.exists(os.path.join(HERE, f"sa/checks/c{n:02}.py"))]
            env = dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=d + "/ev", VERIF_SHARE="1", VERIF_TIER="quick")
            c = subprocess.run([sys.executable, "run.py"] + props, cwd=HERE, capture_output=True, text=True, env=env)
            v = re.findall(r"VIOLATION property=(\w+)", c.stdout)
            b = re.findall(r"ANALYSIS-BROKEN property=(\w+)", c.stdout)
            hit = ("caught" if sd["property"] in v else "MISSED") + f" [{sd['property']}] by {' '.join(v) or '-'}" + (f" broken {' '.join(b)}" if b else "")
        last = r1.stderr.strip().splitlines()[-1:] or [""]
        return name, res + note + (f" [{last[0][:90]}]" if res == "ok" else ""), hit
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    checks = "-c" in a
    pats = [x for x in a if not x.startswith("-")]
    sds = [s for s in load() if not pats or any(re.fullmatch(p, s["id"]) for p in pats)]
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        for r in ex.map(lambda s: one(s, checks), sds):
            print(*r, sep=" | ", flush=True)


if __name__ == "__main__":
    main()

"""Mutation sweep: small systematic edits of the package that the repository's tests do not notice, and which checks see them.

python3 tools/mutate.py [-j N] [-n MAX] [-s SEED] file ...      (files relative to /repo; prints the mutants that no check sees)
"""
import ast
import concurrent.futures
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = [f"C{n:02}" for n in range(1, 22)]
CMP = {"Lt": ("<=", "!="), "LtE": ("<", "=="), "Gt": (">=", "!="), "GtE": (">", "=="), "Eq": ("!=", ">="), "NotEq": ("==", ">"), "In": ("not in",), "NotIn": ("in",), "Is": ("is not",),
       "IsNot": ("is",)}
OPS = {"<": "Lt", "<=": "LtE", ">": "Gt", ">=": "GtE", "==": "Eq", "!=": "NotEq", "in": "In", "not in": "NotIn", "is": "Is", "is not": "IsNot"}
BIN = {"Add": ("+", "-"), "Sub": ("-", "+"), "Mult": ("*", "+"), "BitAnd": ("&", "|"), "RShift": (">>", "<<"), "LShift": ("<<", ">>"), "FloorDiv": ("//", "%"), "Mod": ("%", "//"), "Div": ("/", "//"),
       "BitOr": ("|", "&")}


def mutants(src):
    """(line, description, new source) of every mutant."""
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()
    at = lambda line, col: starts[line - 1] + col
    seg = lambda n: raw[at(n.lineno, n.col_offset):at(n.end_lineno, n.end_col_offset)].decode()

    def put(n, text):
        a, b = at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset)
        return (raw[:a] + text.encode() + raw[b:]).decode()

    docs = {id(n.body[0].value) for n in ast.walk(tree) if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr)}
    notes = {id(y) for n in ast.walk(tree) for x in (getattr(n, "annotation", None), getattr(n, "returns", None)) if x is not None for y in ast.walk(x)}
    helps = {id(y) for n in ast.walk(tree) if isinstance(n, ast.keyword) and n.arg in ("help", "metavar") for y in ast.walk(n.value)}
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef):
            attrs = {}
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    attrs.setdefault(ast.dump(n.value), {}).setdefault(n.attr, n)
            for group in attrs.values():
                names = list(group)
                for i, x in enumerate(names):
                    if len(names) > 1:
                        n = group[x]
                        new = names[(i + 1) % len(names)]
                        yield n.lineno, f"{seg(n)} -> .{new}", put(n, seg(n)[:-len(x)] + new)
    for n in ast.walk(tree):
        if id(n) in docs or id(n) in notes or id(n) in helps:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = seg(n.left), seg(n.comparators[0])
            for op in CMP.get(type(n.ops[0]).__name__, ()):
                yield n.lineno, f"{seg(n)} -> {op}", put(n, f"{l} {op} {r}")
        elif isinstance(n, ast.BinOp) and type(n.op).__name__ in BIN:
            yield n.lineno, f"{seg(n)} -> {BIN[type(n.op).__name__][1]}", put(n, f"({seg(n.left)} {BIN[type(n.op).__name__][1]} {seg(n.right)})")
        elif isinstance(n, ast.Constant):
            if type(n.value) is int:
                for d in (n.value + 1, n.value - 1):
                    yield n.lineno, f"{n.value} -> {d}", put(n, str(d))
            elif type(n.value) is bool:
                yield n.lineno, f"{n.value} -> not", put(n, str(not n.value))
            elif type(n.value) is str and n.value and not n.value.isspace() and raw[at(n.lineno, n.col_offset):][:1] in (b'"', b"'"):
                yield n.lineno, f"{n.value[:20]!r} -> other", put(n, repr(n.value + "x"))
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            yield n.lineno, f"{seg(n)} ->{op}", put(n, "(" + op.join(seg(v) for v in n.values) + ")")
            yield n.lineno, f"{seg(n)} -> first", put(n, seg(n.values[0]))
            yield n.lineno, f"{seg(n)} -> last", put(n, seg(n.values[-1]))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n.lineno, f"{seg(n)} -> no not", put(n, seg(n.operand))
        elif isinstance(n, (ast.If, ast.IfExp)):
            yield n.lineno, f"if {seg(n.test)[:40]} -> negated", put(n.test, f"(not ({seg(n.test)}))")
            yield n.lineno, f"if {seg(n.test)[:40]} -> always", put(n.test, "True")
            yield n.lineno, f"if {seg(n.test)[:40]} -> never", put(n.test, "False")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Continue)) or isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Attribute)):
            if isinstance(n, (ast.Assign, ast.AugAssign)) and n.col_offset == 0:
                continue
            yield n.lineno, f"{seg(n)[:50]} -> pass", put(n, "pass")
            if isinstance(n, ast.Break):
                yield n.lineno, "break -> continue", put(n, "continue")
            if isinstance(n, ast.AugAssign):
                yield n.lineno, f"{seg(n)[:50]} -> =", put(n, f"{seg(n.target)} = {seg(n.value)}")
        elif isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    parts = [seg(a) for a in n.args] + [f"{y.arg}={seg(y.value)}" if y.arg else "**" + seg(y.value) for j, y in enumerate(n.keywords) if j != i]
                    yield n.lineno, f"{seg(n.func)} without {k.arg}", put(n, f"{seg(n.func)}({', '.join(parts)})")
            if len(n.args) >= 2 and not any(isinstance(a, (ast.Starred, ast.GeneratorExp)) for a in n.args):
                parts = [seg(n.args[1]), seg(n.args[0])] + [seg(a) for a in n.args[2:]] + [f"{y.arg}={seg(y.value)}" if y.arg else "**" + seg(y.value) for y in n.keywords]
                yield n.lineno, f"{seg(n)[:50]} swapped", put(n, f"{seg(n.func)}({', '.join(parts)})")
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name):
                yield n.lineno, f"{seg(n)[:50]} -> argument", put(n, f"({seg(n.args[0])})")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            lo, hi = n.slice.lower, n.slice.upper
            if lo is not None:
                yield n.lineno, f"{seg(n)[:50]} without start", put(n.slice, ":" + (seg(hi) if hi else ""))
            if hi is not None:
                yield n.lineno, f"{seg(n)[:50]} without end", put(n.slice, (seg(lo) if lo else "") + ":")
        elif isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) >= 2 and n.col_offset:
            yield n.lineno, f"{seg(n)[:50]} swapped", put(n, ("(" if seg(n)[0] == "(" else "") + ", ".join(seg(e) for e in [n.elts[1], n.elts[0], *n.elts[2:]]) + (")" if seg(n)[0] == "(" else ""))
        elif isinstance(n, ast.List) and len(n.elts) >= 2:
            for i in {0, len(n.elts) // 2, len(n.elts) - 1}:
                if not isinstance(n.elts[i], ast.Tuple):
                    yield n.lineno, f"list without {seg(n.elts[i])[:30]}", put(n, "[" + ", ".join(seg(e) for j, e in enumerate(n.elts) if j != i) + "]")
        elif isinstance(n, ast.Return) and n.value is not None:
            yield n.lineno, "return nothing", put(n, "return None")


def one(m):
    f, line, what, new = m
    try:
        compile(new, f, "exec")
    except (SyntaxError, ValueError):
        return m, "invalid", ""
    d = tempfile.mkdtemp(prefix="mutant.")
    try:
        shutil.copytree("/repo/atoparser", d + "/atoparser", ignore=shutil.ignore_patterns("__pycache__"))
        for x in ("pyproject.toml", "conftest.py"):
            shutil.copy("/repo/" + x, d)
        with open(os.path.join(d, f), "w") as g:
            g.write(new)
        try:
            r = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-x", "-q", "-n", "0", "-p", "no:cacheprovider", "--timeout=60"], cwd=d, capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired:
            return m, "killed", ""
        if r.returncode:
            return m, "killed", ""
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev", VERIF_SHARE="1", VERIF_TIER="quick")
        try:
            r = subprocess.run([sys.executable, "run.py"] + ALL, cwd=HERE, capture_output=True, text=True, env=env, timeout=240)
        except subprocess.TimeoutExpired:
            return m, "timeout", ""
        hit = sorted(set(re.findall(r"VIOLATION property=(\w+)", r.stdout)))
        und = re.findall(r"^(C\d\d): \d+ obligations, \d+ discharged, ([1-9]\d*) undecided", r.stdout, re.M)
        return m, "caught" if hit else "MISSED", " ".join(hit) + "".join(f" {a}:{b}" for a, b in und)
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]

    def opt(name, default):
        if name in args:
            i = args.index(name)
            v = int(args[i + 1])
            del args[i:i + 2]
            return v
        return default
    jobs, most, seed = opt("-j", 8), opt("-n", 10 ** 9), opt("-s", 1)
    ms, seen = [], set()
    for f in args:
        src = open("/repo/" + f).read()
        for line, what, new in mutants(src):
            if new not in seen and new != src:
                seen.add(new)
                ms.append((f, line, what, new))
    random.Random(seed).shuffle(ms)
    ms = ms[:most]
    print(f"{len(ms)} mutants", flush=True)
    tally = {}
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for fut in concurrent.futures.as_completed([ex.submit(one, m) for m in ms]):
            (f, line, what, _), res, note = fut.result()
            tally[res] = tally.get(res, 0) + 1
            if res in ("MISSED", "timeout", "caught"):
                print(f"{res} {f}:{line} {what!r} {note}", flush=True)
    print(tally)


if __name__ == "__main__":
    main()

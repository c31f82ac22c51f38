"""C18: the library is self-contained and only ever reads."""
from __future__ import annotations

import ast
import os

from sa.checks.c17 import all_runs
from sa.compare import sh
from sa.effects import PATH_METHODS, Module, kind_of, stdlib
from sa.interp import AnalysisBroken
from sa.terms import Term, cval, is_const

IMPORT = "imports resolve to the standard library or the package"
CALL = "no effectful library function is referred to"
OPEN = "files are opened for reading only"
WRITE = "no stream is written"
PRINT = "only parse_file prints, and only the requested document"
SELF = """
import os as _o, importlib
from subprocess import run as r
import requests
try:
    import orjson
except ImportError:
    pass
f = _o.remove
def a(x, mode):
    r(x); f(x); eval(x); getattr(_o, "system")(x); __import__("socket").socket(); open(x, "w"); open(x, mode)
    _o.path.join(x); open(x); x.replace("a", "b")
"""


def check(ctx, rep, tier):
    self_test()
    mods = {}
    todo = list(ctx.i.trees)
    while todo:
        name = todo.pop()
        if name in mods:
            continue
        tree = ctx.i.trees.get(name)
        path, pkg = ctx.i.find_module(name)
        if tree is None:
            if path is None:
                continue
            with open(path, encoding="utf-8") as f:
                tree = ast.parse(f.read(), path)
        m = mods[name] = Module(name, tree, pkg)
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom) and n.module and n.module.startswith("atoparser") and not n.level:
                todo += [n.module] + [f"{n.module}.{a.name}" for a in n.names]
            elif isinstance(n, ast.Import):
                todo += [a.name for a in n.names if a.name.startswith("atoparser")]
    modes = open_modes(ctx, rep, tier)
    for name, m in sorted(mods.items()):
        where = lambda n, m=m: f"{ctx.i.paths.get(m.name, m.name)}:{n.lineno} in {m.scope(n)}"  # noqa: E731
        rep.cover("modules")
        imports(ctx, rep, m, where)
        refs = list(m.references())
        for n, d, why in refs:
            if constant_code(m, n, d):
                rep.unk(CALL, d, where(n), "constant code is compiled")
            else:
                rep.bad(CALL, f"{d} in {name}.{m.scope(n)}", where(n), f"{d} {why}")
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                rep.cover("calls")
                if isinstance(n.func, ast.Attribute) and n.func.attr in PATH_METHODS and m.uses("pathlib") and n.func.attr not in m.bound:
                    rep.bad(CALL, f"{n.func.attr} in {name}.{m.scope(n)}", where(n), f"{ast.unparse(n.func)[:80]} changes the disk")
        if not refs:
            rep.ok(CALL, name)
        for n, d, mode in m.opens():
            con = f"{d} in {name}.{m.scope(n)}"
            if mode is None:
                seen = modes.get(n)
                if not seen:
                    rep.unk(OPEN, con, where(n), "the mode was not determined")
                    continue
            else:
                seen = {mode}
            for x in seen:
                if x is None:
                    rep.unk(OPEN, con, where(n), "the mode was not determined")
                elif set(x) & set("wax+"):
                    rep.bad(OPEN, con, where(n), f"opened with mode {x!r}")
                else:
                    rep.ok(OPEN, f"{con}: {x}")
    events(ctx, rep, tier)


def self_test():
    m = Module("x", ast.parse(SELF))
    got = sorted(d for _, d, _ in m.references())
    want = sorted(["os.remove", "os.remove", "subprocess.run", "builtins.eval", "os.system", "socket.socket"])
    outside = [x for _, x in m.imports() if x and not stdlib(x)]
    if got != want or outside != ["requests", "orjson"] or sorted(str(x) for _, _, x in m.opens()) != ["None", "r", "w"]:
        raise AnalysisBroken(f"the rules of C18 do not recognise their own examples: {got} {outside} {[x for _, _, x in m.opens()]}")


def constant_code(m, n, d):
    p = m.parents.get(n)
    return d in ("builtins.eval", "builtins.exec", "builtins.compile") and isinstance(p, ast.Call) and p.func is n and p.args and isinstance(p.args[0], ast.Constant)


def imports(ctx, rep, m, where):
    for n, name in m.imports():
        if m.type_only(n):
            continue
        rep.cover("imports")
        if name is None:
            rep.unk(IMPORT, f"{m.name}.{m.scope(n)}", where(n), "the module that is imported was not determined")
        elif name == "atoparser" or name.startswith("atoparser."):
            rep.ok(IMPORT)
        elif stdlib(name) or name == "__future__":
            rep.ok(IMPORT, f"{m.name} imports {name}")
        elif os.path.exists(os.path.join(ctx.i.repo, *name.split("."))) or os.path.exists(os.path.join(ctx.i.repo, *name.split(".")) + ".py"):
            rep.unk(IMPORT, name, where(n), "outside the package")
        elif m.optional(n):
            rep.ok(IMPORT, f"{m.name} uses {name} only when it is there")
        else:
            rep.bad(IMPORT, f"{name} in {m.name}", where(n), f"{name} is not in the standard library")


def choices(x):
    """The values a term may take."""
    if isinstance(x, Term) and x.op == "ite":
        return choices(x.args[1]) + choices(x.args[2])
    return [x]


def mode_of(rep, name, e):
    x = e.args[1] if len(e.args) > 1 else e.data["kwargs"].get("mode")
    for c in [] if x is None else choices(x):
        if not is_const(c, str):
            rep.unk(OPEN, name, e.where, f"the mode was not determined: {sh(c)}")
        elif set(cval(c)) & set("wax+"):
            rep.bad(OPEN, f"{name}: {e.func}", e.where, f"opened with mode {cval(c)!r}")
            return False
    rep.ok(OPEN, name)
    return True


def runs(ctx, rep, tier):
    return ctx.cached("c18 runs", lambda: list(all_runs(ctx, rep, tier)))


def open_modes(ctx, rep, tier):
    """Modes found by the analysis of the entry points: {call node: {mode or None}}."""
    out = {}
    for _, r in runs(ctx, rep, tier):
        for e in r.of("open"):
            x = e.args[1] if len(e.args) > 1 else e.data["kwargs"].get("mode")
            for c in choices(x):
                out.setdefault(e.node, set()).add("r" if c is None else cval(c) if isinstance(c, Term) and is_const(c, str) else None)
    return out


def events(ctx, rep, tier):
    module = [("import", e) for e in ctx.i.module_events]
    for name, evs in [("import of the package", [e for _, e in module])] + [(n, r.events) for n, r in runs(ctx, rep, tier)]:
        bad = 0
        for e in evs:
            if e.kind == "open":
                bad += not mode_of(rep, name.split(" on ")[0], e)
            elif e.kind == "streamwrite":
                rep.bad(WRITE, name.split(" on ")[0], e.where, f"{e.data['what']} on {e.data['stream']}")
                bad += 1
            elif e.kind == "extcall" and kind_of(e.data["name"]):
                rep.bad(CALL, f"{e.data['name']} in {e.func}", e.where, f"{e.data['name']} {kind_of(e.data['name'])}")
                bad += 1
            elif e.kind == "print" and not name.startswith("parse_file"):
                f = e.data["kwargs"].get("file")
                if f is not None and "stderr" in sh(f):
                    continue
                if f is not None and f != Term("const", "NoneType", None) and "stdout" not in sh(f):
                    rep.unk(PRINT, name.split(" on ")[0], e.where, f"prints to {sh(f)}")
                else:
                    rep.bad(PRINT, f"{name.split(' on ')[0]}: {e.func}", e.where, f"prints {', '.join(sh(a, 60) for a in e.args)}")
                bad += 1
        rep.cover("entry point runs")
        if not bad:
            rep.ok(PRINT, name)

"""C17: results depend only on the file being read."""
from __future__ import annotations

import ast
import re

from sa import terms as T
from sa.compare import sh
from sa.convert import conversions
from sa.ctx import UNLISTED, VERSIONS, word
from sa.again import Base
from sa.convert import one_run
from sa.expect import Layouts
from sa.fileproc import file_run, main_run
from sa.parse import MODULE, Columns
from sa.parse import one as parse_run
from sa.parse import parses
from sa.terms import TRUE, Term, is_const
from sa.values import BufObj, ClassObj, ClassV, DictObj, GenObj, InstObj, IterObj, ListObj, Ref, StructObj

STATE = "nothing read or derived is kept where another call sees it"
MEMO = "remembered results are shared by no two calls"
PARAM = "the header passed in is only read"
OUTSIDE = "no result depends on time, environment or chance"
DATA = {"load", "bytes", "decomp", "decompobj", "stream", "sym", "elem", "iter", "phi", "loopout", "niter", "item", "nread", "todict", "row", "opaque", "rows"}
CHANCE = ("time.", "datetime.", "random.", "os.environ", "os.getenv", "os.getpid", "os.urandom", "uuid.", "secrets.", "locale.", "socket.", "platform.", "getpass.", "os.getcwd",
          "os.stat", "os.path.exists", "os.path.isfile", "os.path.getsize", "os.path.getmtime", "os.listdir", "os.times", "os.cpu_count", "threading.", "gc.", "resource.")


def all_runs(ctx, rep, tier):
    """(name, run) for every entry point analysed."""
    for v in VERSIONS:
        for compat in (None, False):
            yield f"get_header on {v}", ctx.header_run(word(v), compat)
        for given in (False, True):
            yield f"generate_statistics on {v}", ctx.gen_run(word(v), given)
    for v in UNLISTED[:4] if tier == "quick" else UNLISTED:
        yield f"get_header on {v}", ctx.header_run(word(v), False)
        yield f"generate_statistics on {v}", ctx.gen_run(word(v), "loose")
    for c in conversions(ctx, rep, STATE):
        yield f"struct_to_dict of {c.name}", c.run
    for c in parses(ctx, rep, STATE):
        yield f"parse_{c.name}", c.run
    for v in VERSIONS:
        for p, f in ((None, True), ("?", False)):
            r = file_run(ctx, v, p, f, f)
            if r is not None:
                yield f"parse_file on {v}", r
    for v in UNLISTED[:2]:
        r = file_run(ctx, v, "?", w=word(v))
        if r is not None:
            yield f"parse_file on {v}", r
    yield "main", main_run(ctx)


def check(ctx, rep, tier):
    kept = {}  # (target, key) -> {value: (run, event)}
    funcs = set()
    for name, r in all_runs(ctx, rep, tier):
        rep.cover("entry point runs")
        before = len(rep.violations)
        for e in r.of("gmut"):
            write(ctx, rep, name, r, e, kept)
        for e in r.of("cached"):
            memo(rep, name, r, e)
        for e in r.of("memomut"):
            rep.bad(MEMO, f"{e.data['func']}", e.where, f"a remembered result is written ({e.data['what']})")
        if "generate_statistics" in name:
            param(rep, name, r)
        chance(rep, name, r)
        if len(rep.violations) == before:
            rep.ok(STATE, f"{name}: {len(r.events)} effects")
        funcs |= {e.func for e in r.events}
    for (target, key), vals in kept.items():
        if len(vals) > 1:
            _, n, e = list(vals.values())[1]
            rep.bad(STATE, f"{target}{key}", e.where, f"holds {', '.join(sh(x, 60) for x in list(vals)[:3])} depending on what was read")
        else:
            r, n, e = list(vals.values())[0]
            ds = differs(ctx, r, n)
            if ds:
                rep.bad(STATE, f"{target}{key}", e.where, f"after {n}, {ds}")
            elif ds == "":
                rep.ok(STATE, f"{target}{key} makes no difference later")
            else:
                rep.unk(STATE, f"{target}{key}", e.where, "a module level value is computed on first use")
    rep.cover("functions entered", len(ctx.i.entered))


def readers(ctx, name):
    """(what, call) for calls that may come after the one of the given name."""
    if name.startswith("struct_to_dict of "):
        v, top = name[len("struct_to_dict of "):].rsplit(".", 1)
        cls = ctx.classes(v).get(top)
        if isinstance(cls, ClassV):
            yield "struct_to_dict", lambda: one_run(ctx, Layouts(ctx.layout), v, top, cls).run
    elif name.startswith("parse_") and not name.startswith("parse_file"):
        C, n = Columns(ctx), name[len("parse_"):]
        f = ctx.i.get_path(MODULE + name)
        if f is not None:
            yield name, lambda: parse_run(ctx, C, ctx.classes(C.v), n, f).run
    if not name.startswith(("parse_file on", "get_header on", "generate_statistics on")):
        return
    v = name.rsplit(" ", 1)[-1]
    w = word(v) if v not in VERSIONS else None
    if name.startswith("parse_file"):
        for p in (None, "?"):
            for f in (True, False):
                yield f"parse_file(parseables={'any' if p else None}, tstats={f})", lambda p=p, f=f: file_run(ctx, v, p, f, f, w=w)
    elif name.startswith("get_header"):
        for c in (True, False):
            yield f"get_header(check_compatibility={c})", lambda c=c: ctx.header_run(word(v), c)
    elif name.startswith("generate_statistics"):
        yield "generate_statistics", lambda: ctx.gen_run(word(v), False)


def seen(r):
    """What a caller sees of a run, as text; None when it is not fully known."""
    out = []
    for e in r.of("read", "yield", "print", "json", "api", "raise"):
        d = e.data
        if e.kind == "raise" and not r.escapes(e) or e.kind == "raise" and d.get("how") == "language":
            continue
        val = {"read": ("stream", "pos", "n"), "yield": ("value",), "print": ("args",), "json": ("value",), "api": ("name",), "raise": ("exc",)}[e.kind]
        xs = tuple(d.get(k) for k in val)
        if any(t.op == 'opaque' for t in T.walk((e.full_guard(), xs))):
            return None
        out.append(f"{e.kind} {xs} if {T.show(e.full_guard())}")
    if r.alive and r.value is not None:
        x = r.interp.snap(r.st, r.value)
        if not isinstance(x, (Term, tuple)) or any(t.op == "opaque" for t in T.walk((x,))):
            return None
        out.append(f"returns {x}")
    return renumbered("\n".join(sorted(set(out))))


def renumbered(text):
    m = {}
    return re.sub(r"#\d+|oid=\d+|opaque\(\d+|\(pos, \d+\)", lambda x: m.setdefault(x.group(0), f"#{len(m)}"), text)


def differs(ctx, r, name):
    """How a later call is told apart from a first one; "" when it is not even on another file, None when that was not determined."""
    if not r.alive:
        return None
    same = set()
    for base in (r, Base(r)):
        for what, call in readers(ctx, name):
            first = call()
            ctx.base = base
            try:
                second = call()
            finally:
                ctx.base = None
            a, b = (None, None) if first is None or second is None else (seen(first), seen(second))
            same.add(a is not None and a == b)
            if a is not None and b is not None and a != b and base is r:
                la, lb = set(a.splitlines()), set(b.splitlines())
                return f"{what} of the same version behaves differently: {sorted(lb - la)[:1]} instead of {sorted(la - lb)[:1]}"[:600]
    return "" if same == {True} else None


def is_data(x):
    return any(t.op in DATA for t in T.walk((x,)))


def write(ctx, rep, name, r, e, kept):
    target, what, old, new = e.data["target"], e.data["what"], e.data["old"], e.data["new"]
    snap = lambda v: ctx.i.snap(r.st, v) if not isinstance(v, Term) else v
    con = f"{target} written by {e.func}"
    if isinstance(new, DictObj) or isinstance(new, (ClassObj, InstObj)):
        if isinstance(new, DictObj):
            was = {k: (g, v) for k, g, v in old.entries} if isinstance(old, DictObj) else {}
            ch = [(k, v) for k, g, v in new.entries if k not in was or was[k] != (g, v)]
            gone = [k for k in was if k not in {x[0] for x in new.entries}]
            if gone and not ch:
                rep.bad(STATE, con, e.where, f"entries are removed ({what})")
                return
        else:
            was = dict(old.attrs) if isinstance(old, (ClassObj, InstObj)) else {}
            ch = [(T.const(k), v) for k, v in new.attrs if was.get(k) != v]
        if not ch:
            if new == old:
                return
            if not used(ctx, target, e):
                return
            rep.unk(STATE, con, e.where, f"changed in a way that was not determined ({what})")
        for k, v in ch:
            s = snap(v)
            ks = snap(k) if not isinstance(k, Term) else k
            rest = holed(s, ks if isinstance(k, (Term, tuple)) else tuple(T._sub(k)) or ks)
            if is_data(rest):
                if used(ctx, target, e):
                    rep.bad(STATE, con, e.where, f"{sh(ks, 80)} is kept as {sh(s)}")
            else:
                kept.setdefault((target, f"[{sh(ks, 80)}]"), {}).setdefault(plain(rest), (r, name, e))
        return
    if isinstance(new, (BufObj, GenObj, IterObj)) or isinstance(old, (GenObj, IterObj)) or what in ("readinto", "consume generator"):
        rep.bad(STATE, con, e.where, f"an object that exists once for all calls is changed ({what})")
        return
    if isinstance(new, ListObj):
        if new != old and used(ctx, target, e):
            rep.bad(STATE, con, e.where, f"a list that exists once for all calls is changed ({what})")
        return
    if not used(ctx, target, e):
        return
    s = snap(new) if new is not None else T.NONE
    if is_data(s):
        rep.bad(STATE, con, e.where, f"kept as {sh(s)}")
    elif isinstance(old, Term) and isinstance(new, Term) and is_const(old) and is_const(new) and counter(e.node):
        rep.bad(STATE, con, e.where, f"changes from {sh(old)} to {sh(new)} with every call")
    else:
        kept.setdefault((target, ""), {}).setdefault(plain(s), (r, name, e))


def plain(x):
    """A hashable picture of a value."""
    return x if isinstance(x, (Term, tuple)) else repr(x)


def counter(node):
    return isinstance(node, ast.AugAssign) or any(isinstance(n, ast.AugAssign) for n in ast.walk(node)) if isinstance(node, ast.AST) else False


def holed(v, k):
    """The value with the key it is stored under taken out."""
    if isinstance(k, Term) and not is_const(k):
        return T.subst(v, {k: T.const("<key>")}) if isinstance(v, (Term, tuple)) else v
    if isinstance(k, tuple) and isinstance(v, (Term, tuple)):
        m = {t: T.const("<key>") for t in T._sub(k) if not is_const(t)}
        return T.subst(v, m) if m else v
    return v


def used(ctx, target, e):
    """Whether the variable is read by any function in a way that can matter."""
    name = target.rsplit(".", 1)[-1].split(" ")[-1]
    if " " in target:
        return True
    reads = 0
    for tree in ctx.i.trees.values():
        skip = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute):
                skip |= {id(x) for x in ast.walk(n.value.func)}
            if isinstance(n, ast.AugAssign):
                skip.add(id(n.target))
        for f in ast.walk(tree):
            if isinstance(f, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                for n in ast.walk(f):
                    if id(n) in skip:
                        continue
                    if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) or isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Load):
                        reads += 1
    return reads > 0


def memo(rep, name, r, e):
    con = e.data["func"]
    out = set()
    for y in r.of("yield"):
        out |= set(y.data["refs"])
    if r.value is not None and r.alive:
        out |= r.interp.reach(r.st, r.value)
    if e.data["reads"]:
        rep.bad(MEMO, con, e.where, "remembers what it read from a stream")
    elif set(e.data["mutable"]) & out:
        rep.bad(MEMO, con, e.where, "hands out a remembered object, which callers may change")
    elif e.data["byref"] and is_data(e.data["result"]):
        rep.unk(MEMO, con, e.where, "remembers what it derived from an object that may change")
    else:
        rep.ok(MEMO, con)


def param(rep, name, r):
    for e in r.of("structwrite"):
        if e.data.get("buf") in r.param_oids:
            rep.bad(PARAM, f"{name} {e.func}", e.where, f"writes {sh(e.data['value'])} into the header")
    for e in r.of("pmut"):
        if e.data.get("oid") not in r.param_oids or e.data["oid"] == r.stream.oid:
            continue
        old, new = e.data["old"], e.data["new"]
        if isinstance(new, (StructObj, InstObj)) and isinstance(old, (StructObj, InstObj)):
            was = dict(old.attrs)
            for k, v in new.attrs:
                if was.get(k) == v:
                    continue
                s = v if isinstance(v, Term) else r.interp.snap(r.st, v)
                bad = [t for t in T.walk((s,)) if t.op in DATA - {"load", "stream"} or t.op == "load" and not is_const(t.args[1])]
                if bad:
                    rep.bad(PARAM, f"{e.func} {k}", e.where, f"the header keeps {k} = {sh(s)}")
        elif isinstance(new, (ListObj, DictObj)):
            rep.bad(PARAM, f"{e.func}", e.where, f"an object of the header is changed ({e.data['what']})")
    rep.ok(PARAM, name)


def chance(rep, name, r):
    outs = []
    for e in r.of("yield"):
        outs.append((e, (e.data["value"], e.full_guard())))
    for e in r.of("json", "print"):
        outs.append((e, (e.data.get("value"), tuple(e.data.get("args", ())), e.full_guard())))
    if r.alive and r.value is not None:
        outs.append((None, (r.interp.snap(r.st, r.value),)))
    for e, xs in outs:
        for t in T.walk(tuple(x for x in xs if isinstance(x, (Term, tuple)))):
            src = None
            if t.op == "opaque" and str(t.args[1]).startswith("result of "):
                src = str(t.args[1])[len("result of "):].split(" ")[0]
            elif t.op == "call" and isinstance(t.args[0], str):
                src = t.args[0]
            if src and any(src.startswith(c) for c in CHANCE):
                rep.bad(OUTSIDE, f"{name.split(' on ')[0]} {src}", e.where if e else name, f"the result depends on {src}")
    rep.ok(OUTSIDE, name)

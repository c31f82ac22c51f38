"""C21: converted structures and rows are made of JSON types only."""
from __future__ import annotations

from sa import terms as T
from sa.compare import sh
from sa.convert import conversions
from sa.parse import parses
from sa.terms import TRUE, Term, is_const

RULE = "values have JSON types"
GOOD = {"int", "str", "float"}


def judge(v, path="", guard=TRUE):
    """(path, verdict, text) of every leaf."""
    if isinstance(v, Term):
        t = leaf(v)
        yield path, t, v
        return
    if not isinstance(v, tuple) or not v:
        yield path, None, v
        return
    if v[0] == "dict":
        if v[2] or v[3] is not None:
            yield path, None, "keys added in a loop"
        for k, g, x in v[1]:
            kt = T.ty(k) if isinstance(k, Term) else None
            kk = T.cval(k) if isinstance(k, Term) and is_const(k) else (T.show(k) if isinstance(k, Term) else str(k))
            p = f"{path}.{kk}" if path else str(kk)
            if kt is None:
                yield p + "<key>", None, kk
            elif kt != "str":
                yield p + "<key>", f"a key that is {kt}", kk
            else:
                yield p + "<key>", "", kk
            if g != T.FALSE:
                yield from judge(x, p)
        return
    if v[0] in ("list", "tuple"):
        for s in v[1]:
            if v[0] == "tuple":
                yield from judge(s, path + "[]")
            else:
                yield from seg(s, path)
        return
    if v[0] == "ite":
        yield from judge(v[2], path)
        yield from judge(v[3], path)
        return
    if v[0] in ("struct", "inst", "deque", "set", "buffer", "stream", "func", "class", "generator"):
        yield path, {"struct": f"a {str(v[1]).rsplit('.', 1)[-1]} object", "inst": f"a {v[1]} object", "func": "a function", "class": "a class",
                     "generator": "a generator", "buffer": "a buffer", "stream": "a file"}.get(v[0], f"a {v[0]}"), v
        return
    yield path, None, v


def seg(s, path):
    if s[0] == "item":
        yield from judge(s[2], path + "[]")
    elif s[0] == "loop":
        for x in s[3]:
            yield from seg(x, path)
    else:
        yield path, None, s


def leaf(v):
    """'' for a JSON type, a description for another type, None when not known."""
    if v.op == "ite":
        a, b = leaf(v.args[1]) if isinstance(v.args[1], Term) else None, leaf(v.args[2]) if isinstance(v.args[2], Term) else None
        return a or b if (a or b) else (None if a is None or b is None else "")
    if v.op == "cobject":
        return "a C data object"
    t = T.ty(v)
    if t in GOOD:
        return ""
    if t is None:
        return None
    return {"bytes": "bytes", "NoneType": "None", "bool": "a truth value", "complex": "a complex number"}.get(t, t)


def check(ctx, rep, tier):
    for c in list(conversions(ctx, rep, RULE)) + list(parses(ctx, rep, RULE)):
        rep.cover("conversions")
        if not c.run.alive:
            rep.unk(RULE, c.name, c.where, "never returns")
            continue
        top = c.got[0] if isinstance(c.got, tuple) else None
        if top != c.want[0]:
            rep.unk(RULE, c.name, c.where, f"result not determined: {sh(c.got)}") if not top else None
        for path, verdict, v in judge(c.got):
            name = f"{c.name}.{path}"
            if verdict == "":
                rep.ok(RULE, name)
            elif verdict is None:
                rep.unk(RULE, name, c.where, f"type not determined: {sh(v)}")
            else:
                rep.bad(RULE, name, c.where, f"holds {verdict}: {sh(v)}")

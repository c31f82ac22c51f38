"""The rows of every parseable format, derived and required."""
from __future__ import annotations

from sa import terms as T
from sa.ctx import Run, fn_where, spec
from sa.convert import Conv
from sa.expect import Layouts, text
from sa.interp import Dead
from sa.terms import TRUE, ZERO, Term, const
from sa.values import ClassV, ExtV, ParamSeq

ROOTS = {"H": Term("sym", "H", "bytes"), "R": Term("sym", "R", "bytes"), "S": Term("sym", "S", "bytes")}
TOP = {"H": "Header", "R": "Record", "S": "SStat", "T": "TStat"}
K = Term("iter", "#0")
TASK = Term("elem", const("tstats"), K)
MODULE = "atoparser.parsers.atop_1_26."


class Columns:
    def __init__(self, ctx):
        self.doc = spec("columns.json")
        self.v = self.doc["version"]
        self.formats = self.doc["formats"]
        self.L = Layouts(ctx.layout)

    def load(self, ref):
        root, path = ref.split(".", 1)
        return self.L.load(self.v, TOP[root], path, TASK if root == "T" else ROOTS[root], ZERO, [K] * path.count("[]"))

    def value(self, e):
        if e == "index":
            return K
        if e.startswith("'"):
            return const(e.strip("'"))
        w = e.split()
        if w[0] == "text":
            return text(self.load(w[1]))
        if w[0] == "byte":
            x = self.load(w[1])
            return Term("load", x.args[0], x.args[1], "u1")
        if w[0] == "kib":
            return T.mul(const(1024), self.load(w[1]))
        if w[0] == "flag":
            return T.ite(T.eq0(Term("bin", "&", const(int(w[1])), self.load(w[2]), "int")), const("n"), const("y"))
        out = ZERO
        for p in e.split(" + "):
            out = T.add(out, self.load(p))
        return out

    def row(self, name):
        return ("dict", tuple((const(k), TRUE, self.value(e)) for k, e in self.formats[name]["columns"].items()), "", None)

    def segs(self, name, row):
        """The required list of rows."""
        w = self.formats[name]["rows"].split()
        if w[0] == "one":
            return ("list", (("item", TRUE, row),))
        if w[0] == "tasks":
            return ("list", (("loop", TRUE, Term("len", Term("seq", "tstats")), (("item", TRUE, row),), ()),))
        path = (w[1] if w[0] == "unnamed" else w[3] + "[]").split(".", 1)[1]
        n = self.array_len(path)
        if w[0] == "count":
            return ("list", (("loop", TRUE, T.tmin([const(n), self.load(w[1])]), (("item", TRUE, row),), ()),))
        empty = T.eq0(T.length(self.load(w[1])))
        return ("list", (("loop", TRUE, const(n), (("item", T.neg(empty), row),), (empty,)),))

    def array_len(self, path):
        sh = self.L.top(self.v, "SStat")
        for p in path.split("."):
            e = self.L.field(sh, p[:-2] if p.endswith("[]") else p)
            if p.endswith("[]"):
                return e["type"]["n"]
            sh = self.L.shapes[e["type"]]


def parses(ctx, rep, rule):
    """Every documented format, run on an unknown sample."""
    def go():
        C = Columns(ctx)
        cl = ctx.classes(C.v)
        out, missing = [], []
        for name in C.formats:
            f = ctx.i.get_path(MODULE + "parse_" + name)
            if f is None:
                f = mapped(ctx, C.v, name)
            if f is None:
                missing.append((name, "the implementation was not found"))
                continue
            if any(not isinstance(cl.get(t), ClassV) for t in TOP.values()):
                missing.append((name, "the classes of a decoded sample were not determined"))
                continue
            out.append(ctx.cached(("parse", name), lambda name=name, f=f: one(ctx, C, cl, name, f)))
        return out, missing
    out, missing = ctx.cached("parses", go)
    for name, why in missing:
        rep.unk(rule, name, MODULE + "parse_" + name, why)
    return out


def one(ctx, C, cl, name, f):
    i = ctx.i
    st = ctx.start(param_elem=lambda interp, st, seq, k: interp.new_struct(st, cl["TStat"], Term("elem", const("tstats"), k), ZERO, None))
    args = [ctx.struct_param(st, cl[TOP[r]], ROOTS[r]) for r in "HRS"] + [ParamSeq("tstats")]
    qual = getattr(getattr(f, "info", None), "qualname", MODULE + "parse_" + name)
    where = fn_where(ctx, qual)
    try:
        g = i.call(st, f, args, {}, None)
        lst = i.call(st, ExtV("list"), [g], {}, None)
        alive, got = True, i.snap(st, lst)
    except Dead:
        alive, got, lst = False, None, None
    run = Run(i, st, alive, lst)
    run.param = set().union(*[i.reach(st, a) for a in args])
    c = Conv(name, run, got, C.segs(name, C.row(name)), where)
    c.st = st
    return c


def mapped(ctx, version, name):
    m = ctx.i.get_path("atoparser.reader.PARSEABLE_MAP")
    o = ctx.i.obj(ctx.i.mstate, m) if m is not None else None
    e = o.get(const(version)) if o is not None and hasattr(o, "get") else None
    o = ctx.i.obj(ctx.i.mstate, e[1]) if e else None
    e = o.get(const(name)) if o is not None and hasattr(o, "get") else None
    return e[1] if e else None

"""struct_to_dict specialised to every structure a decoded log can hold."""
from __future__ import annotations

from sa import terms as T
from sa.ctx import H, TOPS, VERSIONS, Run, fn_where, has_cgroups
from sa.expect import Layouts
from sa.interp import Dead
from sa.terms import TRUE, ZERO, Term, const
from sa.values import ArrayCT, ClassV, SimpleCT

S = Term("sym", "S", "bytes")
P = Term("sym", "P", "bytes")


class Conv:
    """One specialisation: the derived dictionary and the required one."""

    def __init__(self, name, run, got, want, where):
        self.name, self.run, self.got, self.want, self.where = name, run, got, want, where


def proclist_want(n):
    el = Term("load", P, T.mul(const(4), Term("iter", "#0")), "i4")
    return ("list", (("loop", TRUE, T.tmin([n, ZERO], "max"), (("item", TRUE, el),), ()),))


def conversions(ctx, rep, rule):
    """All specialisations; the ones that cannot be made are reported as undecided."""
    def go():
        L = Layouts(ctx.layout)
        out, missing = [], []
        for v in VERSIONS:
            cl = ctx.classes(v)
            for top in TOPS + ["CGChainer"]:
                if top in ("CStat", "CGChainer") and not has_cgroups(v):
                    continue
                if top == "CGChainer":
                    c = chainer(ctx, L, v, cl)
                else:
                    c = one(ctx, L, v, top, cl.get(top))
                (out if isinstance(c, Conv) else missing).append(c if isinstance(c, Conv) else (f"{v}.{top}", c))
        return out, missing
    out, missing = ctx.cached("conversions", go)
    for name, why in missing:
        rep.unk(rule, name, fn_where(ctx, H + "struct_to_dict"), why)
    return out


def one(ctx, L, v, top, cls):
    if not isinstance(cls, ClassV):
        return "the class used to decode it was not determined"
    return ctx.cached(("conversion", v, top), lambda: one_run(ctx, L, v, top, cls))


def one_run(ctx, L, v, top, cls):
    st = ctx.start()
    obj = ctx.struct_param(st, cls, S)
    alive, r = ctx.i.analyse(st, ctx.public(H + "struct_to_dict"), [obj])
    run = Run(ctx.i, st, alive, r)
    run.param = ctx.i.reach(st, obj)
    got = ctx.i.snap(st, r) if alive else None
    return Conv(f"{v}.{top}", run, got, L.dictionary(L.top(v, top), S, ZERO), fn_where(ctx, H + "struct_to_dict"))


def chainer(ctx, L, v, cl):
    hdr, cst = cl.get("Header"), cl.get("CStat")
    if not isinstance(hdr, ClassV) or not isinstance(cst, ClassV):
        return "the classes used to decode it were not determined"
    st = ctx.start()
    i = ctx.i
    try:
        make = i.class_attr(st, hdr, "CGChainer")
        old, i.phase = i.phase, "param"
        c = ctx.struct_param(st, cst, S)
        n = L.load(v, "CStat", "gen.nprocs", S)
        p = i.new_struct(st, ArrayCT(SimpleCT("i4"), n), P, ZERO, None)
        obj = i.call(st, make, [c, p], {}, None)
        i.phase = old
    except Dead:
        return "the cgroup container cannot be constructed"
    i.events, i.exits = [], []
    st.pc = TRUE
    alive, r = i.analyse(st, ctx.public(H + "struct_to_dict"), [obj])
    run = Run(i, st, alive, r)
    run.param = i.reach(st, obj)
    got = i.snap(st, r) if alive else None
    want = ("dict", ((const("cstat"), TRUE, L.dictionary(L.top(v, "CStat"), S, ZERO)), (const("proclist"), TRUE, proclist_want(n))), "", None)
    return Conv(f"{v}.CGChainer", run, got, want, fn_where(ctx, H + "struct_to_dict"))


def is_decode(x):
    return isinstance(x, Term) and x.op == "decode"


def entries(d):
    from sa.compare import key
    return {key(k): (g, v) for k, g, v in d[1]}


def limited(want):
    """A required list whose length is a recorded count."""
    return isinstance(want, tuple) and want[0] == "list" and len(want[1]) == 1 and want[1][0][0] == "loop" and not T.is_const(want[1][0][2])


def walk_lists(got, want, path=""):
    """Pairs of (path, got, want) for all required lists that are found in got at the same place."""
    if not isinstance(want, tuple) or not want:
        return
    if want[0] == "dict":
        a = entries(got) if isinstance(got, tuple) and got and got[0] == "dict" else {}
        for k, (g, v) in entries(want).items():
            p = f"{path}.{k}" if path else str(k)
            if limited(v):
                yield p, a.get(k, (None, None))[1], v
            yield from walk_lists(a.get(k, (None, None))[1], v, p)
    elif want[0] == "list" and want[1][0][0] == "loop":
        sub = want[1][0][3][0][2]
        gsub = None
        if isinstance(got, tuple) and got and got[0] == "list":
            its = [s for s in got[1] if s[0] == "loop"]
            if its and its[0][3] and its[0][3][0][0] == "item":
                gsub = its[0][3][0][2]
        yield from walk_lists(gsub, sub, path + "[]")


def relax(got, want):
    """got with the lengths of limited lists and the decoding modes replaced by the required ones."""
    if is_decode(got) and is_decode(want):
        return Term("decode", got.args[0], *want.args[1:])
    if not isinstance(got, tuple) or not isinstance(want, tuple) or not got or not want or got[0] != want[0]:
        return got
    if got[0] == "dict":
        b = entries(want)
        from sa.compare import key
        return ("dict", tuple((k, g, relax(x, b[key(k)][1]) if key(k) in b else x) for k, g, x in got[1])) + tuple(got[2:])
    if got[0] == "list" and len(got[1]) == len(want[1]) == 1 and got[1][0][0] == want[1][0][0] == "loop":
        g, w = prefix(got[1][0]), want[1][0]
        items = g[3]
        if len(items) == len(w[3]) == 1 and items[0][0] == "item":
            it = relax(items[0][2], w[3][0][2])
            if limited(want):
                return ("list", (("loop", w[1], w[2], (("item", w[3][0][1], it),), w[4]),))
            return ("list", (("loop", g[1], g[2], (("item", items[0][1], it),), g[4]),))
    return got


def prefix(seg):
    """A loop whose only item is kept while the index is below a bound, as a shorter loop."""
    if seg[0] != "loop" or len(seg[3]) != 1 or seg[3][0][0] != "item":
        return seg
    g = seg[3][0][1]
    gs = list(g.args[0]) if g.op == "and" else ([] if g == TRUE else [g])
    ks = {x for c in gs for x in T.walk((c,)) if x.op == "iter" and str(x.args[0]).startswith("#")}
    if len(ks) != 1 or seg[2] is None:
        return seg
    k = ks.pop()
    trip, rest = seg[2], []
    for c in gs:
        n = T.bound_of(T.neg(c), k)
        if n is not None:
            trip = T.tmin([trip, T.tmin([ZERO, n], "max")])
        else:
            rest.append(c)
    return ("loop", seg[1], trip, (("item", T.conj(rest), seg[3][0][2]),), seg[4])

"""C01: layout of every named field."""
from __future__ import annotations

from sa import terms as T
from sa.ctx import TOPS, VERSIONS, has_cgroups, word
from sa.expect import Layouts
from sa.interp import Dead
from sa.terms import ONE, ZERO, Term, const
from sa.values import ClassV, SimpleCT, ViewV

RULE = "field place, width, kind and count"


def where_cls(ctx, cls):
    i = ctx.i
    return f"{i.paths.get(cls.info.module, cls.info.module)}:{getattr(cls.info.node, 'lineno', 0)} in class {cls.info.name}"


def walk(ctx, st, obj, path):
    """Abstract value of a dotted path; each [] uses one symbolic index. Gives (value, [array lengths], owner class)."""
    v, trips, owner, n = obj, [], None, 0
    for p in path.split("."):
        arr = p.endswith("[]")
        c = ctx.i.cdata(st, v)
        if c is not None and isinstance(c[0], ClassV):
            owner = c[0]
        v = ctx.i.getattr(st, v, p[:-2] if arr else p, None)
        if arr:
            ix = ctx.i.as_indexed(st, v)
            if ix is None:
                return None, trips, owner
            trips.append(ix.trip)
            v = ix.get(Term("iter", f"#{n}"))
            n += 1
    return v, trips, owner


def spec_trips(L, v, t, path):
    out, sh = [], L.top(v, t)
    for p in path.split("."):
        arr = p.endswith("[]")
        ty = L.field(sh, p[:-2] if arr else p)["type"]
        if arr:
            out.append(const(ty["n"]))
            ty = ty["of"]
        if ty in L.shapes:
            sh = L.shapes[ty]
    return out


def check(ctx, rep, tier):
    L = Layouts(ctx.layout)
    for v in VERSIONS:
        classes = ctx.classes(v)
        for t in TOPS:
            if L.top(v, t) is None:
                continue
            cls = classes.get(t)
            paths = L.paths(v, t)
            rep.cover("structures")
            if cls is None:
                rep.unk(RULE, f"{v}.{t}", "atoparser/utils.py", "the class used to decode it was not determined")
                continue
            st = ctx.start()
            root = Term("sym", "S", "bytes")
            obj = ctx.struct_param(st, cls, root)
            for p in paths:
                rep.cover("fields")
                name = f"{v}.{t}.{p}"
                want = L.load(v, t, p, root, ZERO, [Term("iter", f"#{n}") for n in range(p.count("[]"))])
                owner = cls
                try:
                    x = st.clone()
                    ex = len(ctx.i.exits)
                    got, trips, o2 = walk(ctx, x, obj, p)
                    del ctx.i.exits[ex:]
                    owner = o2 or cls
                except Dead:
                    del ctx.i.exits[ex:]
                    rep.bad(RULE, name, where_cls(ctx, cls), "no such field: reading it raises")
                    continue
                got = ctx.i.snap(x, got) if got is not None else T.opaque("element of an unknown array")
                if not rep.eq(RULE, name, where_cls(ctx, owner), got, want):
                    continue
                for a, b in zip(trips, spec_trips(L, v, t, p)):
                    if a != b:
                        rep.eq(RULE, name + "<count>", where_cls(ctx, owner), a if a is not None else T.opaque("unbounded"), b)
        # The structures themselves start where their data starts.
        r = ctx.header_run(word(v))
        if r.alive:
            s = ctx.i.snap(r.st, r.value)
            base(ctx, rep, f"{v} header", s, Term("stream", "raw_file"), ZERO, "atoparser/utils.py in get_header")
        r = ctx.gen_run(word(v))
        for e in r.of("yield"):
            p = e.data["value"]
            if isinstance(p, tuple) and p[0] == "tuple" and len(p[1]) == 4 and isinstance(p[1][1], tuple) and p[1][1][0] == "struct":
                rep.cover("decoded parts")
                base(ctx, rep, f"{v} system data", p[1][1], None, ZERO, e.where)


def base(ctx, rep, name, s, root, off, where):
    if isinstance(s, tuple) and s and s[0] == "struct":
        rep.eq("data starts at the first byte", name, where, s[3], off)
        if root is not None:
            rep.eq("data comes from its source", name, where, s[2], root)
        if len(s) > 5:
            rep.bad("fields are not overwritten", name, where, f"overwritten after decoding: {s[5]}"[:200])

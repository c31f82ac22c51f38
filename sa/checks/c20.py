"""C20: a version's published structure types are the ones its samples contain."""
from __future__ import annotations

from sa.compare import sh
from sa.ctx import TOPS, VERSIONS, has_cgroups
from sa.values import ArrayCT, ClassV

PUB = "published type is the type found in decoded data"
TOP = "the header refers to its own module's structures"


def check(ctx, rep, tier):
    for v in VERSIONS:
        mod = "atoparser.structs.atop_" + v.replace(".", "_")
        fid = ctx.i.modules.get(mod)
        where = ctx.i.paths.get(mod, mod)
        if fid is None:
            rep.unk(PUB, v, mod, "the version has no module")
            continue
        pub = ctx.i.mstate.frames[fid]
        cl = ctx.classes(v)
        rep.cover("version modules")
        seen = {}
        for top in TOPS:
            c = cl.get(top)
            if top == "CStat" and not has_cgroups(v):
                continue
            if not isinstance(c, ClassV):
                rep.unk(TOP, f"{v}.{top}", where, "the decoded type was not determined")
                continue
            one(ctx, rep, TOP, f"{v}.{top}", top, c, pub, where)
            inside(ctx, c, f"{v}.{top}", seen)
        hdr = cl.get("Header")
        if isinstance(hdr, ClassV):
            for top in TOPS[1:] + ["CGChainer"]:
                a = ctx.i.class_attr(ctx.i.mstate, hdr, top)
                if isinstance(a, ClassV):
                    one(ctx, rep, TOP, f"{v}.Header.{top}", top, a, pub, where)
                elif top in ("CStat", "CGChainer") and not has_cgroups(v):
                    continue
                elif a is None:
                    rep.bad(TOP, f"{v}.Header.{top}", where, "the header names no such structure")
                else:
                    rep.unk(TOP, f"{v}.Header.{top}", where, f"not determined: {sh(a)}")
        ch = cl.get("CGChainer")
        if has_cgroups(v) and isinstance(ch, tuple) and ch[0] == "inst":
            c = pub.get("CGChainer")
            if isinstance(c, ClassV):
                if c.info.qualname == ch[1]:
                    rep.ok(TOP, f"{v} cgroup container")
                else:
                    rep.bad(TOP, f"{v}.CGChainer", where, f"cgroups are {ch[1]}, published is {c.info.qualname}")
        for (name, q), (c, path) in sorted(seen.items()):
            one(ctx, rep, PUB, path, name, c, pub, where)


def one(ctx, rep, rule, construct, name, c, pub, where):
    x = pub.get(name)
    if x is None:
        return
    if not isinstance(x, ClassV):
        return
    rep.cover("types compared")
    if x.info.qualname == c.info.qualname:
        rep.ok(rule, f"{construct} is {name}")
    else:
        rep.bad(rule, construct, where, f"decoded as {c.info.qualname}, but {name} is published as {x.info.qualname}")


def inside(ctx, cls, path, seen):
    """Every structure type nested in a structure."""
    lay = ctx.i.layout(cls)
    for f in lay.fields:
        t = f.ct
        p = f"{path}.{f.name}"
        while isinstance(t, ArrayCT):
            t, p = t.elem, p + "[]"
        if isinstance(t, ClassV):
            seen.setdefault((t.info.name, t.info.qualname), (t, p))
            inside(ctx, t, p, seen)

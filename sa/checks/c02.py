"""C02: the version word selects the layouts."""
from __future__ import annotations

from sa import terms as T
from sa.ctx import NEWEST, TOPS, UNLISTED, VERSIONS, Ctx, fn_where, has_cgroups, split, word
from sa.expect import Layouts
from sa.interp import Dead
from sa.terms import ZERO, Term, const, is_const
from sa.values import ArrayCT, ClassV, SimpleCT

RULE = "version word selects the version's structures"


def type_diff(ctx, L, ct, ty, path=""):
    """First difference between a C type of the sources and a frozen type, or None."""
    i = ctx.i
    if isinstance(ty, dict):
        if not isinstance(ct, ArrayCT) or ct.n != const(ty["n"]):
            return f"{path}: not an array of {ty['n']}"
        if i.ct_size(ct.elem) != ty["stride"]:
            return f"{path}: elements of {i.ct_size(ct.elem)} bytes, required {ty['stride']}"
        return type_diff(ctx, L, ct.elem, ty["of"], path + "[]")
    if ty in L.shapes:
        if not isinstance(ct, ClassV) or not i.is_struct(ct):
            return f"{path}: not a structure"
        return struct_diff(ctx, L, ct, L.shapes[ty], path)
    if ty.startswith("c["):
        if isinstance(ct, ArrayCT) and ct.elem == SimpleCT("c1") and f"c[{T.cval(ct.n)}]" == ty:
            return None
        return f"{path}: not {ty}"
    return None if ct == SimpleCT(ty) else f"{path}: {getattr(ct, 'kind', ct)} instead of {ty}"


def struct_diff(ctx, L, cls, shape, path=""):
    lay = ctx.i.layout(cls)
    if lay.size != shape["size"]:
        return f"{path or cls.info.name}: {lay.size} bytes, required {shape['size']}"
    for e in shape["fields"]:
        f = lay.names.get(e["name"])
        p = f"{path}.{e['name']}" if path else e["name"]
        if f is None:
            return f"{p}: no such field"
        if f.off != e["off"]:
            return f"{p}: at {f.off}, required {e['off']}"
        d = type_diff(ctx, L, f.ct, e["type"], p)
        if d:
            return d
    return None


def judge(ctx, rep, L, v, w, name, tops=None):
    """Everything decoded for version word w has the layouts of version v."""
    r = ctx.header_run(w)
    where = fn_where(ctx, "atoparser.utils.get_header")
    if not r.alive:
        rep.bad(RULE, f"{name} header", where, f"a log with version word {w:#06x} is never accepted")
        return
    snap = ctx.i.snap(r.st, r.value)
    ok = one(ctx, rep, L, v, "Header", snap, f"{name} header", where)
    if not ok:
        return
    g = ctx.gen_run(w)
    ys = g.of("yield")
    gw = fn_where(ctx, "atoparser.utils.generate_statistics")
    if not ys:
        if g.alive or g.exits:
            rep.bad(RULE, f"{name} samples", gw, f"nothing is ever yielded for version word {w:#06x}")
        return
    from sa.ctx import find_structs, leaf_items
    for e in ys:
        val = e.data["value"]
        if not (isinstance(val, tuple) and val[0] == "tuple" and len(val[1]) == 4):
            rep.unk(RULE, f"{name} samples", e.where, "the yielded group is not a known 4-tuple")
            continue
        rec, ss, ts, cg = val[1]
        one(ctx, rep, L, v, "Record", rec, f"{name} record", e.where)
        one(ctx, rep, L, v, "SStat", ss, f"{name} system data", e.where)
        tl = leaf_items(ts)
        if not tl:
            rep.unk(RULE, f"{name} task data", e.where, "task list elements not determined")
        for s in tl:
            one(ctx, rep, L, v, "TStat", s, f"{name} task data", e.where)
        if split(name.split()[0]) >= (2, 11):
            cl = find_structs(tuple(leaf_items(cg)))
            if not cl:
                rep.unk(RULE, f"{name} cgroup data", e.where, "cgroup list elements not determined")
            for s in cl:
                one(ctx, rep, L, v, "CStat", s, f"{name} cgroup data", e.where)


def one(ctx, rep, L, v, top, snap, name, where):
    if not (isinstance(snap, tuple) and snap and snap[0] == "struct"):
        rep.unk(RULE, name, where, f"structure not determined: {str(snap)[:120]}")
        return False
    cls = ctx.i.classes.get(snap[1])
    if cls is None:
        rep.unk(RULE, name, where, f"class {snap[1]} not determined")
        return False
    cls = cls if isinstance(cls, ClassV) else ClassV(cls)
    key = (cls.info.qualname, v, top)
    if key not in ctx.runs:
        ctx.runs[key] = struct_diff(ctx, L, cls, L.top(v, top)) or ""
    d = ctx.runs[key]
    if d:
        rep.bad(RULE, name, where, f"decoded with {cls.info.qualname}, which is not the {v} layout of {top} ({d})")
        return False
    rep.ok(RULE, f"{name} -> {cls.info.qualname}")
    return True


def version_terms(ctx, rep):
    """major/minor/semantic version derived from the header word, evaluated over every word."""
    rule = "version numbers derived from the header word"
    seen, alone = {}, {}
    for v in VERSIONS:
        cls = ctx.classes(v).get("Header")
        if cls is None:
            rep.unk(rule, v, "atoparser/structs", "header class not determined")
            continue
        S = Term("sym", "S", "bytes")
        for n in ("major_version", "minor_version", "semantic_version"):
            # Each may be the first thing that is asked of a header.
            st = ctx.start()
            o = ctx.struct_param(st, cls, S)
            try:
                alone.setdefault(v, []).append(ctx.i.snap(st, ctx.i.getattr(st, o, n, None)))
            except Dead:
                rep.bad(rule, f"{v}.{n} asked first", fn_where(ctx, "atoparser.structs.shared.HeaderMixin.semantic_version"), "asking for it raises an error")
                alone.setdefault(v, []).append(None)
        st = ctx.start()
        o = ctx.struct_param(st, cls, S)
        got = [ctx.i.snap(st, ctx.i.getattr(st, o, n, None)) for n in ("major_version", "minor_version", "semantic_version")]
        x = Term("load", S, const(4), "u2")
        key = tuple(got)
        where = fn_where(ctx, "atoparser.structs.shared.HeaderMixin.semantic_version")
        if key not in seen:
            seen[key] = sweep(got, x)
        bad = seen[key]
        if alone[v] != got:
            k2 = tuple(alone[v])
            if k2 not in seen:
                seen[k2] = sweep(alone[v], x)
            bad = [a if a is not None and z is not None and b is None else b for a, b, z in zip(seen[k2], bad, alone[v])]
        for n, b in zip(("major_version", "minor_version", "semantic_version"), bad):
            rep.cover("words evaluated", 0 if isinstance(b, str) else 65536)
            if b is None:
                rep.ok(rule, f"{v}.{n}: all 65536 words")
            elif isinstance(b, str):
                rep.unk(rule, f"{v}.{n}", where, b)
            else:
                rep.bad(rule, f"{v}.{n}", where, f"word {b[0]:#06x} gives {b[1]!r}, required {b[2]!r}")


def sweep(got, x):
    out = []
    for k, t in enumerate(got):
        res = None
        for w in range(65536):
            want = (w >> 8 & 0x7F, w & 0xFF)
            want = (want[0], want[1], f"{want[0]}.{want[1]}")[k]
            try:
                r = T.ev(t, {x: w}) if isinstance(t, Term) else None
                if r is None and not isinstance(t, Term):
                    res = f"not determined: {str(t)[:100]}"
                    break
            except T.Undecided as e:
                res = f"not determined: {e}"
                break
            if r != want:
                res = (w, r, want)
                break
        out.append(res)
    return out


def check(ctx, rep, tier):
    L = Layouts(ctx.layout)
    for v in VERSIONS:
        for flag in (True, False):
            rep.cover("listed words")
            judge(ctx, rep, L, v, word(v, flag), f"{v} flag {int(flag)}")
    words = list(UNLISTED)
    if tier == "thorough":
        words += [f"{a}.{b}" for a in (0, 1, 2, 3, 4, 12, 21, 64, 127) for b in range(256)]
    for u in dict.fromkeys(words):
        if u in VERSIONS:
            continue
        for flag in (True, False) if tier == "quick" or u in UNLISTED else (True,):
            rep.cover("unlisted words")
            judge(ctx, rep, L, NEWEST, word(u, flag), f"{u} flag {int(flag)}")
            ctx.runs.pop(("header", word(u, flag), None), None)
            ctx.runs.pop(("gen", word(u, flag), False, True), None)
    fallback(ctx, rep, tier)
    version_terms(ctx, rep)


def fallback(ctx, rep, tier):
    """Every word of an unlisted version selects the very header class of the newest one."""
    rule = "unlisted versions use the newest header class"
    newest = ctx.classes(NEWEST).get("Header")
    where = fn_where(ctx, "atoparser.utils.get_header")
    if newest is None:
        rep.unk(rule, NEWEST, where, "header class not determined")
        return
    minors = sorted({split(v)[1] for v in VERSIONS} | {0, 1, 2, 13, 110, 255})
    words = {(2, b) for b in range(256)} | {(a, b) for a in (0, 1, 3, 4, 10, 12, 20, 21, 22, 32, 64, 66, 127) for b in minors}
    if tier == "thorough":
        words = {(a, b) for a in range(128) for b in range(256)}
    classes = {v: ctx.classes(v).get("Header") for v in VERSIONS}
    for a, b in sorted(words):
        n = f"{a}.{b}"
        w = word(n)
        had = ("header", w, None) in ctx.runs
        r = ctx.header_run(w)
        if not had:
            ctx.runs.pop(("header", w, None), None)
        rep.cover("words whose header class was derived")
        want = classes[n] if n in VERSIONS else newest
        if not r.alive:
            rep.bad(rule, n, where, f"a log with version word {w:#06x} is never accepted")
            continue
        got = ctx.i.snap(r.st, r.value)
        if not (isinstance(got, tuple) and got and got[0] == "struct"):
            rep.unk(rule, n, where, f"structure not determined: {str(got)[:120]}")
        elif want is None or got[1] == want.info.qualname:
            rep.ok(rule, f"{n} -> {got[1]}")
        else:
            rep.bad(rule, n, where, f"the header of a log of version {n} is a {got[1]}, required {want.info.qualname}")

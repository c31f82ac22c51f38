"""C03: a header is accepted only if complete, genuine and compatible."""
from __future__ import annotations

from sa import terms as T
from sa.compare import cmp_term, sh, vague
from sa.ctx import NEWEST, RAW, UNLISTED, VERSIONS, fn_where, has_cgroups, split, word
from sa.expect import Layouts
from sa.terms import FALSE, TRUE, ZERO, Term, conj, const, neg

ACCEPT = "accepted exactly when complete, genuine and compatible"
KIND = "every rejection is a ValueError"
MAGIC = 0xFEEDBEEF
SIZE = 480


def lengths(L, v, cgroups):
    """(name, condition) of every declared structure length that must match."""
    hdr = [e["name"] for e in L.top(v, "Header")["fields"]]
    want = [("rawheadlen", "Header"), ("rawreclen", "Record"), ("sstatlen", "SStat"), ("tstatlen" if "tstatlen" in hdr else "pstatlen", "TStat")]
    if cgroups:
        want.append(("cstatlen", "CStat"))
    return [(n, T.eq0(T.sub(L.load(v, "Header", n, RAW), const(L.size(v, t))))) for n, t in want]


def header_read(r):
    """The number of header bytes present, as the source measures it."""
    for e in r.of("read"):
        if e.data["stream"] == "raw_file" and e.data["pos"] == ZERO:
            n = e.data["n"]
            if n is not None and T.is_int_const(n):
                return T.cval(n)
    return None


def is_value_error(ctx, name):
    return ctx.i.exc_caught(name, ["ValueError"])


def accept(r):
    """Condition under which get_header returns."""
    out = [r.st.pc]
    for e in r.of("mayraise"):
        if r.escapes(e):
            out.append(neg(conj([e.full_guard(), e.fails])))
    return conj(out)


def check(ctx, rep, tier):
    L = Layouts(ctx.layout)
    cases = [(v, v, word(v, f), f"{v} flag {int(f)}") for v in VERSIONS for f in (True, False)]
    words = list(UNLISTED)
    if tier == "thorough":
        words += [f"{a}.{b}" for a in (0, 1, 2, 3, 4, 12, 21, 64, 127) for b in range(0, 256, 3)]
    cases += [(NEWEST, u, word(u), u) for u in dict.fromkeys(words) if u not in VERSIONS]
    where = fn_where(ctx, "atoparser.utils.get_header")
    for v, own, w, name in cases:
        for compat in (None, True, False):
            tag = name if compat is None else f"{name} check_compatibility={compat}"
            if compat is not None and "flag 0" in name:
                continue
            r = ctx.header_run(w, compat)
            rep.cover("header readings")
            ctx.runs.pop(("header", w, compat), None)
            if not r.alive:
                rep.bad(ACCEPT, tag, where, f"no header with version word {w:#06x} is ever accepted")
                continue
            n = header_read(r)
            if n is None:
                rep.unk(ACCEPT, tag, where, "the header read was not found")
                continue
            count = Term("nread", RAW, ZERO, const(n))
            parts = [("magic number", T.eq0(T.sub(L.load(v, "Header", "magic", RAW), const(MAGIC)))),
                     ("complete", neg(T.lt0(T.sub(count, const(SIZE)))))]
            if compat is not False:
                parts += lengths(L, v, has_cgroups(own))
            want = conj([c for _, c in parts])
            given = T.neg(T.lt0(T.sub(const(n), count)))
            got = accept(r)
            ds = cmp_term(got, want, "", given)
            if ds and ds[0].kind == "ne":
                explain(rep, tag, r, got, parts, want, given, where)
            else:
                rep.diffs(ACCEPT, tag, where, ds)
            kinds(ctx, rep, tag, r)


def explain(rep, tag, r, got, parts, want, given, where):
    """Name the requirement that is not enforced, or the unwanted one."""
    for n, c in parts:
        try:
            # Some header without c is accepted.
            if T.differ(conj([got, given, neg(c)]), FALSE) is not None:
                rep.bad(ACCEPT, f"{tag}: {n}", where, f"a header is accepted although not {T.show(c)}")
                return
        except (T.Undecided, RecursionError):
            pass
    culprit = [e for e in r.of("raise", "mayraise")]
    for e in culprit:
        g = conj([e.full_guard()] + ([e.fails] if e.kind == "mayraise" else []))
        try:
            if T.differ(conj([g, want, given]), FALSE) is not None:
                rep.bad(ACCEPT, tag, e.where, f"rejects a valid header: raises when {T.show(g)[:300]}")
                return
        except (T.Undecided, RecursionError):
            pass
    rep.bad(ACCEPT, tag, where, f"accepted when {sh(got, 400)}, required {sh(want, 400)}")


def kinds(ctx, rep, tag, r):
    for e in r.of("raise", "mayraise"):
        names = e.exc if isinstance(e.exc, tuple) else (e.exc,)
        g = e.full_guard()
        if e.kind == "mayraise":
            g = conj([g, e.fails])
        if g == FALSE or not r.escapes(e):
            continue
        for x in names:
            if is_value_error(ctx, x):
                rep.ok(KIND, f"{tag} at {e.where}")
            elif vague((g,)) or x in ("?", "OSError"):
                rep.unk(KIND, tag, e.where, f"may raise {x}")
            else:
                rep.bad(KIND, tag, e.where, f"raises {x} when {T.show(g)[:200]}")
    for e in r.of("reraise"):
        bad = [x for x in e.exc if not is_value_error(ctx, x)]
        if bad:
            rep.unk(KIND, tag, e.where, f"re-raises {bad}")

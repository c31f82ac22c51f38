"""C19: each input file is opened once, always closed, and printed as one document."""
from __future__ import annotations

from sa import terms as T
from sa.compare import sh, vague
from sa.ctx import VERSIONS, fn_where
from sa.fileproc import FILE, alive, cases, file_run, main_run, ok_path, printed, under
from sa.terms import FALSE, TRUE, Term, conj, const, is_const

ONCE = "opened exactly once"
HOW = "gzip exactly for .gz names"
MODE = "opened for reading bytes"
CLOSE = "closed on every path"
PRINT = "exactly one document is printed"
LAST = "nothing is printed when processing fails"
ERRORS = ("ValueError", "EOFError", "OSError", "zlib.error")


def check(ctx, rep, tier):
    runs = [("1.26", None, True), ("1.26", ["CPU", "PRC"], False), ("2.12", None, True), ("2.12", "?", False), ("2.3", None, False)]
    if tier == "thorough":
        runs += [(v, p, f) for v in VERSIONS for p in (None, ["CPU"]) for f in (False, True)]
    where = fn_where(ctx, "atoparser.reader.parse_file")
    for v, p, f in runs:
        r = file_run(ctx, v, p, f, f)
        name = f"{v} parseables={p}"
        if r is None:
            rep.unk(ONCE, name, where, "the classes of a decoded sample were not determined")
            continue
        rep.cover("runs")
        for names, m in cases(r):
            m = dict(m)
            if p == "?":
                n = Term("len", Term("seq", "parseables"))
                m.update({T.eq0(n): FALSE, T.lt0(T.sub(T.ZERO, n)): TRUE})
            rep.cover("kinds of file names")
            opened(rep, r, names, m, name, where)
            document(rep, r, names, m, name, where)
        failing(rep, r, name)
    outside(ctx, rep)


def outside(ctx, rep):
    """The program prints nothing besides the documents."""
    r = main_run(ctx)
    where = fn_where(ctx, "atoparser.reader.main")
    n = 0
    for e in r.of("print"):
        if e.full_guard() == FALSE or stderr(e.data["kwargs"].get("file")):
            continue
        if blank(e):
            continue
        n += 1
        g = T.subst(e.full_guard(), {t: FALSE for t in T.walk((e.full_guard(),)) if t.op == "fails"})
        handled = any(p.startswith("handler") for _, p in e.tries)
        text = f"prints {', '.join(sh(a, 60) for a in e.args)} " + ("for a file whose processing failed" if handled or g == FALSE else "besides the documents")
        (rep.unk if vague((e.full_guard(),)) else rep.bad)(LAST if handled else PRINT, "main", e.where, text)
    if not n:
        (rep.unk if r.of("unsupported") else rep.ok)(*((PRINT, "main", where, "not determined") if r.of("unsupported") else (PRINT, "main prints nothing itself")))


def opened(rep, r, names, m, name, where):
    what = f"{name} ({names[0]!r})"
    live = [(e, ok_path(e.full_guard(), m)) for e in r.of("open")]
    unsure = [x for x in live if x[1] not in (TRUE, FALSE)]
    live0 = live
    live = [e for e, g in live if g != FALSE]
    other = [e for e in r.of("extcall") if e.data["name"].endswith(".open") and e.data["name"] != "gzip.open" and ok_path(e.full_guard(), m) != FALSE]
    if other:
        rep.unk(ONCE, what, other[0].where, f"{other[0].data['name']} is used")
        return
    if unsure:
        sure = [e for e, g in live0 if g == TRUE]
        more = [(e, g) for e, g in unsure if all(e is not x for x in sure)]
        if sure and (certain(T.disj([g for _, g in more])) or any(by_data(g) for _, g in more)):
            rep.bad(ONCE, what, more[0][0].where, f"opened again when {sh(more[0][1])}")
            return
        rep.unk(ONCE, what, unsure[0][0].where, f"opened when {sh(unsure[0][1])}")
        return
    if len(live) != 1 or live[0].loops:
        (rep.unk if r.of("unsupported") else rep.bad)(ONCE, what, live[0].where if live else where, f"opened {len(live)} times" if not (live and live[0].loops) else "opened in a loop")
    else:
        rep.ok(ONCE, what)
    for e in live:
        f = e.args[0] if e.args else e.data["kwargs"].get("file", e.data["kwargs"].get("filename"))
        if f != FILE:
            if isinstance(f, Term) and (vague((f,)) or f.op == "call") or not isinstance(f, Term):
                rep.unk(ONCE, what, e.where, f"opens {sh(f)}")
            else:
                rep.bad(ONCE, what, e.where, f"opens {sh(f)}")
        gz = [n for n in names if n.endswith(".gz")]
        plain = [n for n in names if ".gz" not in n]
        zipped = e.data["fn"] == "gzip.open"
        if gz and not zipped:
            rep.bad(HOW, f"{name} {gz[0]!r}", e.where, f"{gz[0]!r} is opened with {e.data['fn']}")
        elif plain and zipped:
            rep.bad(HOW, f"{name} {plain[0]!r}", e.where, f"{plain[0]!r} is opened with {e.data['fn']}")
        elif gz or plain:
            rep.ok(HOW, f"{', '.join(map(repr, (gz + plain)[:3]))} with {e.data['fn']}")
        mode(rep, what, e, zipped, m)
        closed(rep, r, m, what, e)


def certain(g):
    """Whether one of several alternatives always applies."""
    try:
        return T.differ(g, TRUE) is None
    except (T.Undecided, RecursionError):
        return False


def by_data(g):
    """Whether the condition only asks about what was read, and is met for some files."""
    if not isinstance(g, Term) or not any(t.op == "load" for t in T.walk((g,))) or any(t.op not in ("load", "const", "poly", "cmp", "eq", "not", "and", "or", "sym", "bin", "lt0", "eq0") for t in T.walk((g,))):
        return False
    try:
        return T.differ(g, FALSE) is not None
    except (T.Undecided, RecursionError):
        return False


def mode(rep, what, e, zipped, m):
    x = e.args[1] if len(e.args) > 1 else e.data["kwargs"].get("mode", const("rb" if zipped else "r"))
    x = T.subst(x, m) if isinstance(x, Term) else x
    if not (isinstance(x, Term) and is_const(x, str)):
        rep.unk(MODE, what, e.where, f"mode {sh(x)}")
    elif set(T.cval(x)) == {"r", "b"} or zipped and T.cval(x) == "r":
        rep.ok(MODE, f"{what}: {T.cval(x)}")
    else:
        rep.bad(MODE, what, e.where, f"mode {T.cval(x)!r}")


def closed(rep, r, m, what, o):
    oid = o.data["oid"]
    withs = [e for e in r.of("with") if getattr(e.data["obj"], "oid", None) == oid]
    closes = [e for e in r.of("close") if e.data["how"] == "close" and getattr(e.data["obj"], "oid", None) == oid]
    later = [e for e in r.of("mayraise", "raise") if e.idx > o.idx and T.subst(e.full_guard(), m) != FALSE
             and not (e.kind == "mayraise" and isinstance(e.data["fails"], Term) and e.data["fails"].args[:1] == ("open",) and e.idx == o.idx + 1)]
    if withs:
        w = withs[0]
        gap = [e for e in later if e.idx < w.idx]
        if gap:
            rep.bad(CLOSE, what, gap[0].where, "may fail between opening the file and the statement that closes it")
        elif ok_path(w.full_guard(), m) not in (TRUE,):
            rep.unk(CLOSE, what, w.where, f"closed when {sh(ok_path(w.full_guard(), m))}")
        else:
            rep.ok(CLOSE, what)
        return
    finals = [c for c in closes if c.tries and c.tries[-1][1] == "final"]
    for c in finals:
        tid = c.tries[-1][0]
        bad = [e for e in later if e.idx < c.idx and (tid, "body") not in e.tries and not any(t == tid for t, _ in e.tries)]
        g = ok_path(c.full_guard(), m)
        if bad:
            rep.bad(CLOSE, what, bad[0].where, "may fail between opening the file and the try statement that closes it")
        elif g == TRUE:
            rep.ok(CLOSE, what)
        else:
            (rep.unk if vague((g,)) else rep.bad)(CLOSE, what, c.where, f"closed only when {sh(g)}")
        return
    if not closes:
        (rep.unk if r.of("unsupported") else rep.bad)(CLOSE, what, o.where, "never closed")
        return
    if any("handler" in part for c in closes for _, part in c.tries):
        places = {p for c in closes for p in c.tries}
        for x in later:
            hs = [h for h in r.catchers(x)]
            if r.escapes(x) and not any((h.tryid, h.part) in places or (h.tryid, "final") in places for h in hs):
                rep.bad(CLOSE, what, x.where, "left open when this fails")
                return
        rep.unk(CLOSE, what, closes[0].where, "closed in an exception handler")
        return
    bad = [e for e in later if e.idx < closes[0].idx]
    if bad:
        rep.bad(CLOSE, what, bad[0].where, "left open when this fails")
    else:
        rep.unk(CLOSE, what, closes[0].where, "closed without protection")


def text_parts(x, t):
    """The other constant parts printed with a document, or None."""
    if x == t:
        return []
    if isinstance(x, Term) and x.op == "strcat" and sum(1 for y in x.args[0] if y == t) == 1:
        rest = [y for y in x.args[0] if y != t]
        return [T.cval(y) for y in rest] if all(is_const(y, str) for y in rest) else None
    return None


def document(rep, r, names, m, name, where):
    what = f"{name} ({names[0]!r})"
    if not r.alive:
        rep.bad(PRINT, what, where, "never completes")
        return
    ps = [(e, j) for e, j in printed(r, m) if ok_path(e.full_guard(), m) != FALSE]
    docs = [(e, j) for e, j in ps if j is not None]
    rest = [e for e, j in ps if j is None]
    for e in rest:
        f = e.data["kwargs"].get("file")
        if stderr(f):
            continue
        if f is not None and f != T.NONE and sh(f) != "ext(sys.stdout)" and "stdout" not in sh(f):
            rep.unk(PRINT, what, e.where, f"prints to {sh(f)}")
        elif blank(e):
            pass
        elif any(vague((a,)) for a in e.args):
            rep.unk(PRINT, what, e.where, "what is printed was not determined")
        else:
            rep.bad(PRINT, what, e.where, f"prints {', '.join(sh(a, 60) for a in e.args)} besides the document")
    if len(docs) != 1:
        (rep.unk if any(vague((a,)) for e, _ in ps for a in e.args) or r.of("unsupported") else rep.bad)(
            PRINT, what, docs[1][0].where if len(docs) > 1 else where, f"{len(docs)} documents are printed")
        return
    e, j = docs[0]
    if e.loops:
        rep.bad(PRINT, what, e.where, "documents are printed in a loop")
        return
    g = ok_path(e.full_guard(), m)
    if g != TRUE:
        (rep.unk if vague((g,)) else rep.bad)(PRINT, what, e.where, f"printed only when {sh(g)}")
    f = e.data["kwargs"].get("file")
    if stderr(f):
        rep.bad(PRINT, what, e.where, "printed to standard error")
    term, args = under(j.term, m), [under(a, m) for a in e.args]
    texts = [text_parts(a, term) for a in args]
    if len([a for a in args if a == term or isinstance(a, Term) and T.contains(a, term)]) != 1:
        rep.bad(PRINT, what, e.where, "the document is printed more than once")
    flat = [x for t in texts if t for x in t]
    consts = [T.cval(a) for a in args if isinstance(a, Term) and is_const(a)]
    if any(str(x).strip() for x in flat + consts):
        rep.bad(PRINT, what, e.where, f"prints {[x for x in flat + consts if str(x).strip()][0]!r} with the document")
    elif any(t is None and not (isinstance(a, Term) and is_const(a)) for a, t in zip(args, texts)):
        rep.unk(PRINT, what, e.where, "what is printed with the document was not determined")
    elif not blank_kw(e):
        rep.bad(PRINT, what, e.where, "prints text after the document")
    else:
        val = under(j.data["value"], m)
        if isinstance(val, tuple) and val and val[0] in ("list", "tuple"):
            rep.ok(PRINT, what)
        else:
            (rep.unk if vague((val,)) else rep.bad)(PRINT, what, j.where, f"the document is not an array but {sh(val)}")
    # Nothing may fail once it is printed, and it must not be printed after a failure.
    after = [x for x in r.of("mayraise", "raise") if x.idx > e.idx and T.subst(x.full_guard(), m) != FALSE and ok_path(x.full_guard(), m) != FALSE
             and not (x.kind == "mayraise" and x.data.get("exc") == "TypeError" and "json" in str(x.data.get("fails")))]
    if after:
        rep.bad(LAST, what, after[0].where, "may fail after the document was printed")
    elif any(p.startswith("handler") or p == "final" for _, p in e.tries):
        rep.bad(LAST, what, e.where, "printed while an error is handled")
    else:
        rep.ok(LAST, what)


def stderr(f):
    return f is not None and "stderr" in sh(f)


def blank_kw(e):
    for k in ("end", "sep"):
        x = e.data["kwargs"].get(k)
        if isinstance(x, Term) and is_const(x, str) and T.cval(x).strip():
            return False
    return True


def blank(e):
    """Whether nothing but space is printed."""
    return all(isinstance(a, Term) and is_const(a, str) and not T.cval(a).strip() for a in e.args) and blank_kw(e)


def failing(rep, r, name):
    """A failure while the file is processed must not be followed by a document."""
    docs = [e for e, j in printed(r, {}) if j is not None]
    for e in r.of("print"):
        g = e.full_guard()
        if g != FALSE and ok_path(g, {}) == FALSE and not stderr(e.data["kwargs"].get("file")) and not blank(e):
            (rep.unk if vague((g,)) else rep.bad)(LAST, name, e.where, f"prints {', '.join(sh(a, 60) for a in e.args)} when {sh(g)}")
    for x in r.of("mayraise"):
        what = x.data["fails"].args[0] if isinstance(x.data["fails"], Term) and x.data["fails"].op == "fails" else None
        if what not in ("header", "samples", "open", "gzip", "conversion") or T.subst(x.full_guard(), {}) == FALSE:
            continue
        rep.cover("ways to fail")
        bad = None
        for h in r.catchers(x):
            if h.completes == FALSE:
                continue
            for d in docs:
                if d.idx > h.idx and not contradicts(d, x):
                    bad = (h, d)
        if bad:
            h, d = bad
            (rep.unk if vague((h.completes,)) else rep.bad)(LAST, f"{name} {what} {x.exc}", h.where, f"{x.exc} is caught and a document is printed all the same")
        else:
            rep.ok(LAST)


def contradicts(d, x):
    f = x.data["fails"]
    return T.subst(d.full_guard(), {f: TRUE}) == FALSE

"""C15: every offered parseable is backed by its own parser, or refused cleanly."""
from __future__ import annotations

from sa import terms as T
from sa.compare import sh, vague
from sa.checks.c14 import options
from sa.ctx import UNLISTED, VERSIONS, fn_where, leaf_items, word
from sa.fileproc import FILE, alive, cases, file_run, main_run, ok_path, printed, sev, under
from sa.parse import MODULE, Columns
from sa.terms import FALSE, TRUE, ZERO, Term, const, is_const
from sa.values import FuncV

NAMES = "the offered names are the implemented formats"
OWN = "each name runs its own implementation"
REFUSE = "exactly one error entry naming version and file"
UNREAD = "no statistics are read for versions without parseables"


def check(ctx, rep, tier):
    C = Columns(ctx)
    where = fn_where(ctx, "atoparser.reader.parse_args")
    want = set(C.formats) | extra(ctx)
    offered = names(ctx, rep, want, where)
    for n in sorted((offered or set()) | set(C.formats)):
        own(ctx, rep, C, n)
    ws = [(v, None) for v in VERSIONS if v != "1.26"] + [(v, word(v)) for v in UNLISTED]
    lists = ["?", ["CPU"]] + ([["PRC", "CPU", "PRC"]] if tier == "thorough" else [])
    for v, w in ws:
        for p in lists:
            for flags in ((False, False), (True, True)) if p == "?" or tier == "thorough" else ((False, False),):
                refuse(ctx, rep, v, p, flags, w)
    for v, w in [x for x in ws if x[0] in ("2.3", "2.12")] + [x for x in ws if x[1] is not None][-1:]:
        for p in [[n] for n in C.formats] + [list(C.formats), list(C.formats)[::-1]]:
            refuse(ctx, rep, v, p, (False, False), w)


def extra(ctx):
    """Further implementations: functions of the parser module called like the known ones."""
    out = set()
    fid = ctx.i.modules.get(MODULE[:-1])
    for n, v in (ctx.i.mstate.frames[fid] if fid is not None else {}).items():
        if n.startswith("parse_") and isinstance(v, FuncV):
            a = v.info.node.args
            if [x.arg for x in a.posonlyargs + a.args] == ["header", "record", "sstat", "tstats"] and v.info.is_gen:
                out.add(n[len("parse_"):])
    return out


def names(ctx, rep, want, where):
    r = main_run(ctx)
    opt = [o for o in options(r) if "--parseables" in o.flags]
    if not opt:
        rep.unk(NAMES, "--parseables", where, "the option was not found")
        return None
    ch = opt[0].kw.get("choices")
    if ch is None:
        rep.bad(NAMES, "--parseables", opt[0].e.where, "any name is accepted")
        return None
    got = listed(ch)
    if got is None:
        rep.unk(NAMES, "--parseables", opt[0].e.where, f"choices not determined: {sh(ch)}")
        return None
    for n in sorted(want - set(got)):
        rep.bad(NAMES, n, opt[0].e.where, f"{n} is implemented but not accepted")
    for n in sorted(set(got) - want):
        rep.bad(NAMES, n, opt[0].e.where, f"{n} is accepted but not implemented")
    for n in sorted(set(got) & want):
        rep.ok(NAMES, n)
    pub = ctx.i.get_path("atoparser.reader.PARSEABLES")
    if pub is not None:
        p = listed(ctx.i.snap(ctx.i.mstate, pub))
        if p is None:
            rep.unk(NAMES, "PARSEABLES", where, "not determined")
        else:
            for n in sorted(set(got) ^ set(p)):
                rep.bad(NAMES, f"PARSEABLES {n}", where, f"{n} is {'listed but not accepted' if n in p else 'accepted but not listed'}")
            dup = sorted({n for n in p if p.count(n) > 1})
            for n in dup:
                rep.bad(NAMES, f"PARSEABLES {n}", where, f"{n} is listed more than once")
            rep.ok(NAMES, "PARSEABLES")
    return set(got)


def listed(x):
    """The names of a constant collection."""
    if isinstance(x, tuple) and x and x[0] == "tuple":
        xs = list(x[1])
    elif isinstance(x, tuple) and x and x[0] in ("list", "set", "deque"):
        if any(s[0] != "item" or s[1] != TRUE for s in x[1]):
            return None
        xs = [s[2] for s in x[1]]
    elif isinstance(x, tuple) and x and x[0] == "dict" and not x[2] and x[3] is None:
        xs = [k for k, g, _ in x[1]]
    else:
        return None
    return [T.cval(y) for y in xs] if all(isinstance(y, Term) and is_const(y, str) for y in xs) else None


def own(ctx, rep, C, n):
    where = fn_where(ctx, "atoparser.reader.parse_file")
    r = file_run(ctx, "1.26", [n])
    if r is None:
        rep.unk(OWN, n, where, "the classes of a decoded sample were not determined")
        return
    rep.cover("names")
    if not r.alive:
        rep.bad(OWN, n, where, "asking for it never completes")
        return
    for e in r.of("raise"):
        if r.escapes(e) and e.how == "language" and (set(e.exc) & {"KeyError", "AttributeError", "NameError", "TypeError"}):
            rep.bad(OWN, n, e.where, f"raises {'/'.join(e.exc)}")
    ran = [e for e in r.of("api") if e.data["name"].startswith("atoparser.parsers.")]
    if not ran:
        if r.of("selcall", "unsupported"):
            rep.unk(OWN, n, where, "the implementation that runs was not determined")
            return
        doc = [j for e, j in printed(r, {}) if j]
        (rep.unk if not doc or vague(tuple(j.data["value"] for j in doc)) or True else rep.bad)(OWN, n, where, "no implementation of a parseable is called")
        return
    for q in sorted({e.data["name"] for e in ran}):
        got = q.rsplit(".", 1)[-1]
        if got == "parse_" + n:
            rep.ok(OWN, n)
        elif got[len("parse_"):] in C.formats:
            rep.bad(OWN, n, ran[0].where, f"runs {got}")
        else:
            rep.unk(OWN, n, ran[0].where, f"runs {got}")


def refuse(ctx, rep, v, p, flags, w):
    r = file_run(ctx, v, p, *flags, w=w)
    where = fn_where(ctx, "atoparser.reader.parse_file")
    name = f"{v} parseables={'any' if p == '?' else p}" + (" with task and cgroup data" if flags[0] else "")
    if r is None:
        rep.unk(REFUSE, name, where, "the classes of a decoded sample were not determined")
        return
    rep.cover("versions without parseables")
    if not r.alive:
        rep.bad(REFUSE, name, where, "never completes")
        return
    n = Term("len", Term("seq", "parseables"))
    for names_, m in cases(r):
        m = dict(m)
        if p == "?":
            m.update({T.eq0(n): FALSE, T.lt0(T.sub(ZERO, n)): TRUE})
        for e in r.of("api", "selcall"):
            if not alive(e, m):
                continue
            if e.kind == "selcall" or e.data["name"].startswith("atoparser.parsers.") or e.data["name"] == "generate_statistics":
                g = T.subst(e.full_guard(), m)
                what = "another version's parser" if e.kind == "selcall" else e.data["name"].rsplit(".", 1)[-1]
                (rep.unk if vague((g,)) else rep.bad)(UNREAD, f"{name}: {what}", e.where, f"{what} runs")
                break
        else:
            rep.ok(UNREAD, name)
        docs = [j for e, j in printed(r, m) if j is not None and ok_path(e.full_guard(), m) != FALSE]
        if len(docs) != 1:
            (rep.unk if docs else rep.bad)(REFUSE, name, where, f"{len(docs)} documents are printed")
            continue
        val = under(docs[0].data["value"], m)
        if not (isinstance(val, tuple) and val and val[0] in ("list", "tuple")):
            (rep.unk if vague((val,)) else rep.bad)(REFUSE, name, docs[0].where, f"prints {sh(val)}")
            continue
        segs = val[1] if val[0] == "list" else tuple(("item", TRUE, x) for x in val[1])
        if len(segs) == 1 and segs[0][0] == "item" and segs[0][1] == TRUE and isinstance(segs[0][2], tuple) and segs[0][2][0] == "dict":
            entry(rep, name, v, segs[0][2], docs[0], names_)
        else:
            (rep.unk if vague(tuple(segs)) else rep.bad)(REFUSE, name, docs[0].where, f"prints {sh(val)}")


def entry(rep, name, v, d, j, names):
    ents = {T.cval(k): (g, x) for k, g, x in d[1] if isinstance(k, Term) and is_const(k)}
    if "error" not in ents or ents["error"][0] != TRUE:
        (rep.unk if d[2] or d[3] is not None else rep.bad)(REFUSE, name, j.where, f"the entry {sh(d)} has no error text")
        return
    texts = [x for g, x in ents.values() if g == TRUE]
    said = [T.cval(y) for x in texts if isinstance(x, Term) for y in T.walk((x,)) if is_const(y, str)]
    if any(mentions(s, v) for s in said):
        rep.ok(REFUSE, f"{name} names the version")
    else:
        (rep.unk if vague(tuple(texts)) else rep.bad)(REFUSE, f"{name} version", j.where, f"the entry {sh(d)} does not name version {v}")
    lost = unnamed(texts, names)
    if lost is not None:
        rep.bad(REFUSE, f"{name} file", j.where, f"the entry {sh(d)} does not name the file {lost!r}")
    elif any(isinstance(x, Term) and (x == FILE or x.op in ("strcat", "call") and T.contains(x, FILE)) for x in texts):
        rep.ok(REFUSE, f"{name} names the file")
    else:
        (rep.unk if vague(tuple(texts)) else rep.bad)(REFUSE, f"{name} file", j.where, f"the entry {sh(d)} does not name the file")


def unnamed(texts, names):
    """A file name that appears in none of the texts; None when there is none or the texts cannot be worked out."""
    for n in names:
        try:
            said = [sev(x, n) for x in texts if isinstance(x, Term)]
        except T.Undecided:
            return None
        if n and not any(n in s for s in said if isinstance(s, str)):
            return n
    return None


def mentions(s, v):
    import re
    return re.search(r"(?<![\d.])" + re.escape(v) + r"(?![\d])", s) is not None

"""C14: command line options control exactly the output they describe."""
from __future__ import annotations

import itertools

from sa import terms as T
from sa.compare import cmp_segs, cmp_term, sh, vague
from sa.ctx import H, VERSIONS, fn_where, spec
from sa.fileproc import HROOT, PRETTY, SAMPLES, cases, converted_entries, file_run, main_run, ok_path, printed, row_entries, under
from sa.report import Report
from sa.values import IteV
from sa.terms import FALSE, NONE, TRUE, ZERO, Term, const, is_const

DOC = "the document holds exactly what the options ask for"
ROWS = "parseable rows in the requested order, each labelled with its own name"
INDENT = "indented exactly when asked"
READS = "the samples are all those of the opened file"
MAIN = "every file with the options of the command line"
OPTION = "each option sets its own value"
K0, K1 = Term("iter", "#0"), Term("iter", "#1")


def check(ctx, rep, tier):
    where = fn_where(ctx, "atoparser.reader.parse_file")
    for v in VERSIONS:
        for ts in (False, True):
            for cs in (False, True):
                for p in (None, []) if v in ("1.26", "2.12") or tier == "thorough" else (None,):
                    document(ctx, rep, v, p, ts, cs, where)
    for p in (["CPU"], ["PRC", "CPU"], ["CPU", "PRC", "CPU"], list(spec("columns.json")["formats"])):
        for ts, cs in ((False, False), (True, True)):
            document(ctx, rep, "1.26", p, ts, cs, where)
    for v in VERSIONS:
        r = file_run(ctx, v, ["PRC", "CPU"])
        if r is not None and not r.kept:
            rep.bad(MAIN, f"{v} options", where, "the list of parseables is changed, so the next file gets another one", r)
    labels(ctx, rep, where)
    command_line(ctx, rep)


def converted(ctx, v, ts, cs):
    cl = ctx.classes(v)

    def d(root, top):
        return ("dict", (), "", Term("todict", Term("of", root, ZERO, cl[top].info.qualname)))

    def many(seq, top):
        return ("list", (("loop", TRUE, Term("len", Term("seq", Term(seq, K0))), (("item", TRUE, d(Term("elem", Term(seq, K0), K1), top)),), ()),))
    es = [(const("header"), TRUE, d(HROOT, "Header")), (const("record"), TRUE, d(Term("elem", "record", K0), "Record")),
          (const("sstat"), TRUE, d(Term("elem", "sstat", K0), "SStat"))]
    if ts:
        es.append((const("tstat"), TRUE, many("tasks", "TStat")))
    if cs:
        es.append((const("cgroup"), TRUE, many("groups", "CStat" if cl.get("CStat") else "TStat")))
    return ("dict", tuple(es), "", None)


def rows_of(ctx, v, name):
    cl = ctx.classes(v)
    qual = const("atoparser.parsers.atop_1_26.parse_" + name)
    args = (Term("of", HROOT, ZERO, cl["Header"].info.qualname), Term("of", Term("elem", "record", K0), ZERO, cl["Record"].info.qualname),
            Term("of", Term("elem", "sstat", K0), ZERO, cl["SStat"].info.qualname), Term("seqof", Term("tasks", K0)))
    seq = Term("rows", qual, args)
    row = ("dict", ((const("parseable"), TRUE, const(name)),), "", Term("row", seq, K1))
    return ("loop", TRUE, Term("len", Term("seq", seq)), (("item", TRUE, row),), ())


def wanted(ctx, v, p, ts, cs):
    items = tuple(rows_of(ctx, v, n) for n in p) if p else (("item", TRUE, converted(ctx, v, ts, cs)),)
    return ("list", (("loop", TRUE, Term("len", Term("seq", SAMPLES)), items, ()),))


def finite(ctx, v, x, n):
    """A required document for a log of n samples with two tasks and two cgroups each and two rows of every kind."""
    def segs(ss, m, depth):
        out = []
        for s in ss:
            if s[0] == "item":
                out.append(("item", TRUE, expand(s[2], m, depth)))
            else:
                for k in range(n if depth == 0 else 2):
                    out += segs(s[3], {**m, Term("iter", f"#{depth}"): const(k)}, depth + 1)
        return tuple(out)

    def expand(v, m, depth):
        if isinstance(v, Term):
            return T.subst(v, m)
        if isinstance(v, tuple) and v and v[0] == "list":
            return ("list", segs(v[1], m, depth))
        if isinstance(v, tuple) and v and v[0] == "dict" and isinstance(v[3], Term):
            t = T.subst(v[3], m)
            es = converted_entries(ctx, version, ctx.classes(version), t) if t.op == "todict" else row_entries(ctx, t.args[0], t.args[1])
            return v if es is None else ("dict", tuple(es) + v[1], "", None)
        return tuple(expand(y, m, depth) if isinstance(y, (Term, tuple)) else y for y in v)
    version = v
    return expand(x, {}, 0)


def document(ctx, rep, v, p, ts, cs, where):
    name = f"{v} parseables={p} tstats={ts} cstats={cs}"
    r = file_run(ctx, v, p, ts, cs)
    if r is None:
        rep.unk(DOC, name, where, "the classes of a decoded sample were not determined")
        return
    rep.cover("option combinations")
    if not r.alive:
        rep.bad(DOC, name, where, "never completes")
        return
    rule = ROWS if p else DOC
    if p and not r.kept:
        rep.bad(MAIN, f"{name} options", where, "the list of parseables is changed, so the next file gets another one", r)
    want = wanted(ctx, v, p, ts, cs)
    for names, m in cases(r):
        reads(ctx, rep, r, m, f"{name} ({names[0]!r})")
        u = len(rep.undecided)
        judge(rep, rule, r, m, names, name, want, where, p)
        # What it comes to for logs with few samples.
        for n in (0, 1, 2, 3) if len(rep.undecided) > u else (2,):
            small = file_run(ctx, v, p, ts, cs, size=n)
            if small is None or not small.alive:
                continue
            one = Report(rep.prop)
            for nn, mm in cases(small):
                if mm.get(PRETTY) == m.get(PRETTY) and set(nn) & set(names):
                    judge(one, rule, small, mm, nn, f"{name}, {n} samples", finite(ctx, v, want, n), where, p, small=True)
            rep.cover("documents of few samples", one.total())
            for b in one.violations:
                rep.bad(*b)
            for _ in range(one.discharged):
                rep.ok(rule)
            if one.violations:
                break


def judge(rep, rule, r, m, names, name, want, where, p, small=False):
    """Whether the printed document is the required one under an assignment of the conditions on the file name and indentation."""
    apis = {e.data["name"] for e in r.of("api")}
    got = [(e, j) for e, j in printed(r, m) if ok_path(e.full_guard(), m) != FALSE]
    docs = [(e, j) for e, j in got if j is not None]
    if len(docs) != 1:
        (rep.unk if docs or any(vague((a,)) for e, _ in got for a in e.args) or r.of("unsupported") else rep.bad)(
            rule, f"{name} ({names[0]!r})", where, f"{len(docs)} documents are printed")
        return
    j = docs[0][1]
    val = under(j.data["value"], m)
    rep.cover("documents")
    usual = ("struct_to_dict" in apis) if not p else any(a.startswith("atoparser.parsers.") for a in apis)
    if small:
        usual = True
    else:
        indent(rep, name, j, m)
    if not usual and val != want:
        rep.unk(rule, f"{name} ({names[0]!r})", j.where, "the library's own conversions are not called directly")
    elif isinstance(val, tuple) and val and val[0] in ("list", "tuple", "deque"):
        segs = val[1] if val[0] != "tuple" else tuple(("item", TRUE, x) for x in val[1])
        rep.diffs(rule, f"{name} ({names[0]!r})", j.where, cmp_segs(segs, want[1], "", None, False, True))
    else:
        (rep.unk if vague((val,)) else rep.bad)(rule, f"{name} ({names[0]!r})", j.where, f"prints {sh(val)}")


def indent(rep, name, j, m):
    got = under(j.data["kwargs"].get("indent", NONE), m)
    what = "pretty" if m[PRETTY] == const(True) else "plain"
    good = lambda c: (c is None) if what == "plain" else (isinstance(c, str) and c != "" or isinstance(c, int) and c is not False and c > 0)
    if not (isinstance(got, Term) and is_const(got)):
        sizes = {t for t in T.walk((got,)) if t.op == "len" and getattr(t.args[0], "op", None) == "list"}
        for n in (1, 2, 60, 3599) if len(sizes) == 1 else ():
            x = T.subst(got, {t: const(n) for t in sizes})
            if isinstance(x, Term) and is_const(x) and not good(T.cval(x)):
                rep.bad(INDENT, f"{name} {what}", j.where, f"indent={T.cval(x)!r} with {n} samples")
                return
        rep.unk(INDENT, f"{name} {what}", j.where, f"not determined: {sh(got)}")
        return
    c = T.cval(got)
    if good(c):
        rep.ok(INDENT, f"{name} {what}: indent={c!r}")
    else:
        rep.bad(INDENT, f"{name} {what}", j.where, f"indent={c!r}")


def reads(ctx, rep, r, m, name):
    calls = [e for e in r.of("api") if e.data["name"] == "generate_statistics" and T.subst(e.full_guard(), m) != FALSE]
    heads = [e for e in r.of("api") if e.data["name"] == "get_header" and T.subst(e.full_guard(), m) != FALSE]
    opens = {e.data["oid"] for e in r.of("open")}
    for e in calls:
        env, snaps = e.data["env"], e.data["snaps"]
        raw = env.get("raw_file")
        files = leaves(raw, m)
        if files and all(getattr(x, "oid", None) in opens for x in files):
            rep.ok(READS)
        else:
            (rep.unk if vague((snaps.get("raw_file"),)) else rep.bad)(READS, f"{name} file", e.where, f"reads {sh(snaps.get('raw_file'))}")
        h = env.get("header")
        if any(x.data["result"] == h for x in heads):
            rep.ok(READS)
        elif isinstance(snaps.get("header"), tuple) and snaps["header"][:4] == ("struct", ctx.classes(r.version)["Header"].info.qualname, HROOT, ZERO):
            rep.ok(READS)
        else:
            (rep.unk if vague((snaps.get("header"),)) else rep.bad)(READS, f"{name} header", e.where, f"header {sh(snaps.get('header'))}, which is not the one read before")
        t = snaps.get("raise_on_truncation")
        if isinstance(t, Term) and is_const(t):
            if T.cval(t):
                rep.bad(READS, f"{name} truncation", e.where, "the samples before a truncated one are lost")
            else:
                rep.ok(READS)
        else:
            rep.unk(READS, f"{name} truncation", e.where, f"not determined: {sh(t)}")
        n = snaps.get("max_samples")
        d = default(ctx, H + "generate_statistics", "max_samples")
        if n == d or isinstance(n, Term) and is_const(n, int) and T.cval(n) >= 86400:
            rep.ok(READS)
        elif isinstance(n, Term) and is_const(n, int):
            rep.bad(READS, f"{name} limit", e.where, f"at most {T.cval(n)} samples appear")
        elif n is not None:
            rep.unk(READS, f"{name} limit", e.where, f"not determined: {sh(n)}")


def leaves(v, m):
    """The values v may be under the assignment m."""
    if isinstance(v, IteV):
        c = T.subst(v.cond, m)
        return ([] if c == FALSE else leaves(v.a, m)) + ([] if c == TRUE else leaves(v.b, m))
    return [v]


def default(ctx, qual, param):
    f = ctx.i.functions.get(qual)
    if f is None:
        return None
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if param in names and len(f.defaults) >= len(names) - names.index(param):
        return f.defaults[names.index(param) - len(names)]
    return (f.kwdefaults or {}).get(param) if isinstance(f.kwdefaults, dict) else None


def labels(ctx, rep, where):
    """Any list of names: one block of rows per name, in order, labelled with that very name."""
    r = file_run(ctx, "1.26", "?")
    if r is None:
        return
    given = T.lt0(T.sub(ZERO, Term("len", Term("seq", "parseables"))))
    nope = {T.eq0(Term("len", Term("seq", "parseables"))): FALSE, given: TRUE}
    for names, m in cases(r):
        m = dict(m)
        m.update(nope)
        for e, j in printed(r, m):
            if j is None or ok_path(e.full_guard(), m) == FALSE:
                continue
            val = under(j.data["value"], m)
            rep.cover("documents")
            ok = False
            if isinstance(val, tuple) and val[0] == "list" and len(val[1]) == 1 and val[1][0][0] == "loop" and len(val[1][0][3]) == 1:
                s = val[1][0]
                inner = s[3][0]
                if inner[0] == "loop" and inner[2] == Term("len", Term("seq", "parseables")) and inner[1] == TRUE and not inner[4] and len(inner[3]) == 1:
                    block = inner[3][0]
                    if block[0] == "loop" and len(block[3]) == 1 and block[3][0][0] == "item":
                        ok = True
                        row = block[3][0][2]
                        ent = {k: x for k, g, x in row[1]} if isinstance(row, tuple) and row[0] == "dict" else {}
                        lab = ent.get(const("parseable"))
                        want = Term("sym", Term("elem", "parseables", K1), "str")
                        if lab is None:
                            (rep.unk if not (isinstance(row, tuple) and row[0] == "dict") or vague((row,)) else rep.bad)(ROWS, "any names", j.where, "rows carry no label")
                        else:
                            rep.eq(ROWS, "any names: label", j.where, lab, want)
                        base = row[3] if isinstance(row, tuple) and len(row) > 3 else None
                        if isinstance(base, Term) and base.op == "row" and isinstance(base.args[0], Term) and base.args[0].op == "rows":
                            rep.eq(ROWS, "any names: parser", j.where, base.args[0].args[0], want)
            if not ok:
                (rep.unk if True else rep.bad)(ROWS, "any names", j.where, f"rows not determined: {sh(val)}")


# ------------------------------------------------------------------------------------------------ the command line
class Option:
    def __init__(self, e):
        self.e = e
        self.flags = [T.cval(a) for a in e.args if isinstance(a, Term) and is_const(a, str)]
        kw = e.kwargs
        self.kw = kw
        self.action, self.nargs = self.text("action"), self.text("nargs")
        longs = [f for f in self.flags if f.startswith("--")]
        self.dest = self.text("dest")
        if self.dest is None and self.flags:
            n = longs[0][2:] if longs else self.flags[0].lstrip("-")
            self.dest = n.replace("-", "_") if self.flags[0].startswith("-") else n

    def text(self, k):
        x = self.kw.get(k)
        return T.cval(x) if isinstance(x, Term) and is_const(x) else None

    @property
    def positional(self):
        return bool(self.flags) and not self.flags[0].startswith("-")


def options(r):
    return [Option(e) for e in r.of("addarg") if e.data["method"] == "add_argument"]


WANTED = [("parseables", ("-P", "--parseables")), ("pretty_print", ("-p", "--pretty-print")), ("show_tstats", ("--tstats",)), ("show_cstats", ("--cstats",))]


def command_line(ctx, rep):
    r = main_run(ctx)
    where = fn_where(ctx, "atoparser.reader.main")
    opts = options(r)
    calls = [e for e in r.of("api") if e.data["name"] == "parse_file"]
    rep.cover("command line options", len(opts))
    failed = [e for e in r.of("raise") if e.data["how"] == "language" and e.full_guard() == TRUE]
    if not r.alive and not calls and failed and not r.of("unsupported"):
        rep.bad(MAIN, "main", failed[-1].where, f"raises {failed[-1].data['exc'][0]} before any file is processed")
        return
    if not opts or not calls:
        (rep.unk if r.of("unsupported") or not opts else rep.bad)(MAIN, "main", where, "no options or no call of parse_file found")
        return
    if r.of("addarg") and any(e.data["method"] == "set_defaults" for e in r.of("addarg")):
        rep.unk(OPTION, "defaults", where, "set_defaults is used")
    dest = {}
    for param, flags in WANTED:
        hits = [o for o in opts if any(f in o.flags for f in flags)]
        if len(hits) != 1 or any(f not in hits[0].flags for f in flags):
            rep.bad(OPTION, "/".join(flags), where, f"{len(hits)} options are named {'/'.join(flags)}" if len(hits) != 1 else
                    f"the option is only named {'/'.join(hits[0].flags)}")
            continue
        o = hits[0]
        dest[param] = o.dest
        loc = o.e.where
        if param == "parseables":
            good = o.nargs == "+" and o.action in (None, "store", "extend")
            if o.action == "extend" and good:
                d = o.kw.get("default")
                good = d is None or d == NONE
            elif good and o.kw.get("default") not in (None, NONE):
                good = False
            rep.diffs(OPTION, "/".join(flags), loc, []) if good else (rep.unk if "action" in o.kw and o.action is None else rep.bad)(
                OPTION, "/".join(flags), loc, f"nargs={o.nargs!r} action={o.action!r} default={sh(o.kw.get('default'))}")
        else:
            d = o.kw.get("default")
            if o.action == "store_true" and (d is None or isinstance(d, Term) and is_const(d) and not T.cval(d)):
                rep.ok(OPTION, "/".join(flags))
            elif o.action is None and "action" in o.kw:
                rep.unk(OPTION, "/".join(flags), loc, f"action {sh(o.kw['action'])}")
            elif o.action == "store_const" and o.text("const") is True and (d is None or isinstance(d, Term) and is_const(d) and not T.cval(d)):
                rep.ok(OPTION, "/".join(flags))
            else:
                rep.bad(OPTION, "/".join(flags), loc, f"action={o.action!r} default={sh(d) if d is not None else None}")
    for o in opts:
        same = [x for x in opts if x.dest == o.dest and x is not o]
        for x in same:
            rep.bad(OPTION, "/".join(o.flags), o.e.where, f"shares its value with {'/'.join(x.flags)}")
        if any(k in o.kw for k in ("type",)) and not (o.text("type") is None and o.kw["type"] == NONE):
            t = o.kw["type"]
            if "str" not in sh(t):
                rep.unk(OPTION, "/".join(o.flags), o.e.where, f"type {sh(t)}")
    pos = [o for o in opts if o.positional]
    if len(pos) != 1:
        rep.bad(OPTION, "files", where, f"{len(pos)} positional arguments")
        return
    files = pos[0]
    if files.nargs == "+":
        rep.ok(OPTION, "files")
    else:
        rep.bad(OPTION, "files", files.e.where, f"nargs={files.nargs!r}")
    # The calls.
    if len(calls) != 1:
        rep.unk(MAIN, "main", calls[1].where, f"{len(calls)} places call parse_file")
        return
    c = calls[0]
    kept = {o.dest for o in opts}
    if not any(e.data["method"] in ("set_defaults", "add_subparsers", "add_mutually_exclusive_group") for e in r.of("addarg")):
        for t in dict.fromkeys(T.walk((c.full_guard(),) + tuple(x for x in c.data["snaps"].values()))):
            n = str(t.args[0])[5:] if t.op == "sym" and str(t.args[0]).startswith("args.") else ""
            if n.isidentifier() and not n.startswith("_") and n not in kept:
                rep.bad(MAIN, f"option value {n}", c.where, f"the arguments hold no {n!r}, only {sorted(kept)}")
                return
    g = T.subst(c.full_guard(), {t: FALSE for t in T.walk((c.full_guard(),)) if t.op == "fails"})
    if g == TRUE:
        rep.ok(MAIN, "every file")
    else:
        (rep.unk if vague((g,), (c.data["snaps"].get("file"),)) else rep.bad)(MAIN, "every file", c.where, f"only when {sh(g)}")
    seq = Term("sym", "args." + str(files.dest), None)
    it = Term("iter", r.loops[c.loops[-1]].space if c.loops[-1] in r.loops else c.loops[-1]) if c.loops else None
    f = c.data["snaps"].get("file")
    if len(c.loops) != 1:
        (rep.bad if not c.loops else rep.unk)(MAIN, "every file", c.where, f"called in {len(c.loops)} loops")
    elif f == Term("item", seq, it):
        rep.ok(MAIN, "in order")
        info = r.loops[c.loops[0]]
        brk = T.disj([x[0] for x in info.breaks])
        brk = T.subst(brk, {t: FALSE for t in T.walk((brk,)) if t.op == "fails"})
        if brk == FALSE:
            rep.ok(MAIN, "all of them")
        else:
            (rep.unk if vague((brk,)) else rep.bad)(MAIN, "all of them", info.where if isinstance(info.where, str) else where, f"stops when {sh(brk)}")
        trip = info.trip
        if trip is not None and trip != Term("len", seq) and T.contains(trip, Term("len", seq)):
            rep.diffs(MAIN, "all of them", c.where, cmp_term(trip, Term("len", seq), "", None, False, True))
        elif trip is None or trip != Term("len", seq) and not (isinstance(trip, Term) and trip.op == "len" and T.contains(trip, seq)):
            rep.unk(MAIN, "all of them", c.where, f"repeated {sh(trip)} times")
        else:
            rep.ok(MAIN, "all of them")
    else:
        ordered(rep, c, f, seq, it)
    for param, _ in WANTED:
        x = c.data["snaps"].get(param)
        if param not in dest:
            continue
        want = Term("sym", "args." + str(dest[param]), None)
        if x == want or x == T.truthy(want):
            rep.ok(MAIN, f"{param} from {dest[param]}")
        elif isinstance(x, Term) and not vague((x,)):
            rep.bad(MAIN, param, c.where, f"gets {sh(x)}, required the value of the option {dest[param]}")
        else:
            rep.unk(MAIN, param, c.where, f"not determined: {sh(x)}")


    lines(ctx, rep, str(files.dest), dest)


LINES = [["a.log"], ["b.log.gz", "a.log", "b.log.gz"], ["x/b.log", "y/b.log", "a.log"]]


def lines(ctx, rep, files, dest):
    """What is processed for given command lines."""
    if set(dest) != {p for p, _ in WANTED}:
        return
    for names in LINES:
        for p in (None, ["PRC", "CPU"], ["CPU", "PRC", "CPU"], ["CPU", "PRC", "PRC"]) if names is LINES[1] else (None, ["PRC", "CPU"]):
            for pretty, ts, cs in itertools.product((False, True), repeat=3):
                vals = {"parseables": p, "pretty_print": pretty, "show_tstats": ts, "show_cstats": cs}
                r = main_run(ctx, {files: names, **{dest[k]: x for k, x in vals.items()}})
                shown = " ".join(names) + "".join(f" {k}={x}" for k, x in vals.items() if x)
                calls = [e for e in r.of("api") if e.data["name"] == "parse_file"]
                guards = [T.subst(e.full_guard(), {t: FALSE for t in T.walk((e.full_guard(),)) if t.op == "fails"}) for e in calls]
                live = [(e, g) for e, g in zip(calls, guards) if g != FALSE]
                if r.of("unsupported") or any(e.loops for e, _ in live):
                    continue
                rep.cover("command lines")
                for e, g in live:
                    if g != TRUE and not vague((g,)):
                        rep.bad(MAIN, shown, e.where, f"{sh(e.data['snaps'].get('file'))} is processed only when {sh(g)}", r)
                if any(g != TRUE for _, g in live):
                    continue
                got = [e.data["snaps"].get("file") for e, _ in live]
                if got != [const(n) for n in names]:
                    if not vague((tuple(got),)):
                        rep.bad(MAIN, shown, live[0][0].where if live else fn_where(ctx, "atoparser.reader.main"), f"processes {', '.join(map(sh, got)) or 'nothing'}", r)
                    continue
                rep.ok(MAIN, shown)
                for e, _ in live:
                    for k, x in vals.items():
                        want = ("list", tuple(("item", TRUE, const(y)) for y in x)) if isinstance(x, list) else const(x)
                        y = e.data["snaps"].get(k)
                        if y is None:
                            y = default(ctx, "atoparser.reader.parse_file", k)
                        same = y == want or not x and isinstance(y, Term) and is_const(y) and not T.cval(y) or y == ("list", ()) and x is None
                        if isinstance(y, tuple) and y and y[0] == "tuple" and isinstance(x, list):
                            same = y[1] == tuple(const(z) for z in x)
                        if same:
                            rep.ok(MAIN)
                        elif y is not None and not vague((y,)):
                            rep.bad(MAIN, f"{shown}: {k}", e.where, f"gets {sh(y)}", r)


def ordered(rep, c, f, seq, it):
    t = sh(f)
    if isinstance(f, Term) and f.op == "item" and f.args[0] == seq and not vague((f.args[1],)):
        rep.bad(MAIN, "in order", c.where, f"processes {t}")
    elif isinstance(f, Term) and any(x.op == "call" and x.args[0] in ("sorted", "set", "reversed", "frozenset", "sortidx") for x in T.walk((f,))):
        rep.bad(MAIN, "in order", c.where, f"processes {t}")
    elif isinstance(f, Term) and not vague((f,)) and not T.contains(f, seq):
        rep.bad(MAIN, "in order", c.where, f"processes {t}")
    else:
        rep.unk(MAIN, "in order", c.where, f"not determined: {t}")

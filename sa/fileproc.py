"""parse_file and main, with the library calls they make left symbolic."""
from __future__ import annotations

import os

from sa import terms as T
from sa import texts
from sa.ctx import H, NEWEST, VERSIONS, Run, fn_where, has_cgroups, spec, word
from sa.expect import Layouts
from sa.interp import Dead, Event
from sa.terms import FALSE, NONE, TRUE, ZERO, Term, const, cval
from sa.values import *  # noqa: F401,F403

FILE = Term("sym", "file", "str")
HROOT = Term("sym", "H", "bytes")
PRETTY = Term("sym", "pretty_print", "bool")
READER = "atoparser.reader."
SAMPLES = "samples"


def struct_id(i, st, v):
    """A term naming the structure that is converted."""
    s = i.snap(st, v)
    return freeze(s)


def freeze(s):
    if isinstance(s, tuple) and s and s[0] == "struct":
        return Term("of", s[2], s[3], str(s[1]))
    if isinstance(s, tuple) and s and s[0] == "inst":
        return Term("inst", s[1], *[freeze(x) for _, x in s[2]])
    if isinstance(s, tuple) and s and s[0] == "ite":
        return Term("pick", s[1], freeze(s[2]), freeze(s[3]))
    return s if isinstance(s, Term) else Term("value", str(s))


def argument(s):
    """A term naming an argument of a parser; a list copied from a sequence counts as that sequence."""
    if isinstance(s, tuple) and s and s[0] == "seq":
        return Term("seqof", s[1])
    if isinstance(s, tuple) and s and s[0] == "list" and len(s[1]) == 1 and s[1][0][0] == "loop":
        _, g, trip, items, brk = s[1][0]
        if g == TRUE and not brk and len(items) == 1 and items[0][0] == "item" and items[0][1] == TRUE and isinstance(trip, Term) and trip.op == "len" \
                and trip.args[0].op == "seq":
            x, name = items[0][2], trip.args[0].args[0]
            if isinstance(x, tuple) and x[0] == "struct" and x[2].op == "elem" and x[2].args[0] == name and x[2].args[1].op == "iter":
                return Term("seqof", name)
    if isinstance(s, tuple) and s and s[0] == "list" and len(s[1]) == 2:
        es = [x[2] for x in s[1] if x[0] == "item" and x[1] == TRUE and isinstance(x[2], tuple) and x[2][0] == "struct" and x[2][2].op == "elem"]
        if len(es) == 2 and [x[2].args[1] for x in es] == [const(0), const(1)] and es[0][2].args[0] == es[1][2].args[0]:
            return Term("seqof", es[0][2].args[0])
    return freeze(s)


def fails(i, st, node, what):
    """Reading may fail in every way a damaged file can make it fail."""
    for exc in ("ValueError", "EOFError", "OSError", "zlib.error"):
        i.may_raise(st, node, exc, Term("fails", what, exc))


def stubs(ctx, cl, version, size=None):
    """The library's functions as parse_file sees them. With a size, a log of that many samples with two tasks and two cgroups each,
    from which every parser makes two rows; otherwise the numbers are unknown."""
    el = element(cl, size is not None)

    def finite(i, st, seq, n, node):
        if seq.kind == "rows":
            vs = []
            for k in range(n):
                es = row_entries(ctx, seq.name, const(k))
                vs.append(el(i, st, seq, const(k)) if es is None else i.new(st, DictObj(tuple(es)), node))
        else:
            vs = [el(i, st, seq, const(k)) for k in range(n)]
        return i.new(st, IterObj(TupleV(tuple(vs)), ZERO), node)

    def get_header(i, st, env, node):
        h = i.new_struct(st, cl["Header"], HROOT, ZERO, node)
        i.emit("api", st, node, name="get_header", env=dict(env), result=h)
        fails(i, st, node, "header")
        return h

    def generate(i, st, env, node):
        i.emit("api", st, node, name="generate_statistics", env=dict(env), snaps={k: i.snap(st, v) for k, v in env.items()})
        if size is not None:
            return finite(i, st, ParamSeq(SAMPLES), size, node)
        return ParamSeq(SAMPLES)

    def todict(i, st, env, node):
        arg = list(env.values())[0]
        t = Term("todict", struct_id(i, st, arg))
        i.emit("api", st, node, name="struct_to_dict", env=dict(env))
        i.may_raise(st, node, "ValueError", Term("fails", "conversion"))
        if size is not None:
            es = converted_entries(ctx, version, cl, t)
            if es is not None:
                return i.new(st, DictObj(tuple(es)), node)
        return i.new(st, DictObj((), "", "dict", t), node)

    def row(qual):
        def f(i, st, env, node):
            args = tuple(argument(i.snap(st, v)) for v in env.values())
            i.emit("api", st, node, name=qual, env=dict(env), args=args)
            if size is not None:
                return finite(i, st, ParamSeq(Term("rows", const(qual), args), "rows"), 2, node)
            return ParamSeq(Term("rows", const(qual), args), "rows")
        return f

    out = {H + "get_header": get_header, H + "generate_statistics": generate, H + "struct_to_dict": todict}
    for q in ctx.i.functions:
        if q.startswith("atoparser.parsers.") and q.rsplit(".", 1)[-1].startswith("parse_"):
            out[q] = row(q)
    return out


def converted_entries(ctx, version, cl, t):
    """What a whole structure of a sample is converted to, each entry a value of its own."""
    of = t.args[0]
    tops = [n for n, c in cl.items() if isinstance(c, ClassV) and c.info.qualname == of.args[2]] if isinstance(of, Term) and of.op == "of" else []
    if len(tops) != 1:
        return None
    L = Layouts(ctx.layout)
    d = L.dictionary(L.top(version if version in VERSIONS else NEWEST, tops[0]), of.args[0], of.args[1])
    return [(k, TRUE, v if isinstance(v, Term) else Term("sym", Term("field", t, k), None)) for k, _, v in d[1]]


def row_entries(ctx, seq, k):
    """The columns of a row of a documented format, each a value of its own."""
    name = cval(seq.args[0]).rsplit("parse_", 1)[-1]
    cols = spec("columns.json")["formats"].get(name)
    if cols is None:
        return None
    return [(const(c), TRUE, const(e.strip("'")) if e.startswith("'") else Term("sym", Term("field", Term("row", seq, k), const(c)), None))
            for c, e in cols["columns"].items()]


def element(cl, finite=False):
    """Makes the elements of the input sequences; when finite, the lists of a sample have two elements."""
    def many(i, st, name):
        if not finite:
            return ParamSeq(name)
        old, i.phase = i.phase, "param"
        r = i.new(st, ListObj(tuple(Item(TRUE, f(i, st, ParamSeq(name), const(k))) for k in range(2))), None)
        i.phase = old
        return r

    def f(i, st, seq, k):
        n = seq.name
        if n == SAMPLES:
            fails(i, st, None, "samples")
            rec = i.new_struct(st, cl["Record"], Term("elem", "record", k), ZERO, None)
            ss = i.new_struct(st, cl["SStat"], Term("elem", "sstat", k), ZERO, None)
            return TupleV((rec, ss, many(i, st, Term("tasks", k)), many(i, st, Term("groups", k))))
        if n == "parseables":
            return Term("sym", Term("elem", "parseables", k), "str")
        if isinstance(n, Term) and n.op == "tasks":
            return i.new_struct(st, cl["TStat"], Term("elem", n, k), ZERO, None)
        if isinstance(n, Term) and n.op == "groups":
            return i.new_struct(st, cl.get("CStat") or cl["TStat"], Term("elem", n, k), ZERO, None)
        if isinstance(n, Term) and n.op == "rows":
            return i.new(st, DictObj((), "", "dict", Term("row", n, k)), None)
        if n == "files":
            return Term("sym", Term("elem", "files", k), "str")
        return i.unknown(st, None, f"element of {n}")
    return f


def file_run(ctx, version, parseables=None, tstats=False, cstats=False, w=None, size=None):
    """parse_file on a log of a version. parseables: None, a list of names, or '?' for any non-empty list. size: the number of
    samples in the log, or None for any number."""
    key = ("file", version, tuple(parseables) if isinstance(parseables, list) else parseables, tstats, cstats, w, size)

    def go():
        layout = version if version in VERSIONS else NEWEST
        cl = dict(ctx.classes(layout))
        for t in ("Header", "Record", "SStat", "TStat"):
            if not isinstance(cl.get(t), ClassV):
                return None
        i = ctx.i
        ww = w if w is not None else word(version)
        st = ctx.start({(HROOT, const(4), "u2"): const(ww)}, stubs(ctx, cl, version, size), element(cl))
        i.phase = "param"
        if parseables is None:
            p = NONE
        elif parseables == "?":
            p = ParamSeq("parseables")
            st.pc = T.conj([st.pc, T.lt0(T.sub(ZERO, p.length))])
        else:
            p = i.new(st, ListObj(tuple(Item(TRUE, const(x)) for x in parseables)), None)
        before = st.heap.get(p.oid) if isinstance(p, Ref) else None
        i.phase = "run"
        f = ctx.public(READER + "parse_file")
        kw = {"parseables": p, "pretty_print": PRETTY, "show_tstats": const(tstats), "show_cstats": const(cstats)}
        alive, v = i.analyse(st, f, [FILE], kw)
        r = Run(i, st, alive, v)
        i.stubs, i.param_elem = {}, None
        r.version = version
        r.kept = before is None or r.st.heap.get(p.oid) == before
        return r
    return ctx.cached(key, go)


def main_run(ctx, given=None):
    """main, with parse_file left symbolic. given: the values of the options, by the names they are stored under."""
    def go():
        i = ctx.i

        def parse_file(i, st, env, node):
            i.emit("api", st, node, name="parse_file", env=dict(env), snaps={k: i.snap(st, v) for k, v in env.items()})
            i.may_raise(st, node, "ValueError", Term("fails", "parse_file"))
            return NONE
        st = ctx.start({}, {READER + "parse_file": parse_file}, element({}))
        i.phase = "param"
        i.given = {k: i.new(st, ListObj(tuple(Item(TRUE, const(y)) for y in x)), None) if isinstance(x, list) else const(x) for k, x in (given or {}).items()}
        i.phase = "run"
        alive, v = i.analyse(st, ctx.public(READER + "main"), [])
        r = Run(i, st, alive, v)
        i.stubs, i.param_elem, i.given = {}, None, {}
        return r
    return ctx.cached(("main", repr(given)), go)


NAMES = ["atop_20240101", "atop_20240101.gz", "logs.gz/atop", "a.log", "a.log.gz", "a.GZ", "a.gz.1", "a.tar.gz", "-", "gz", "a.gzip", ".gz", "dir/a b.gz", "a.log.xz", "a.bz2", "/dev/stdin", ""]


def truth_atoms(*xs):
    """The indivisible conditions on the file name that occur in some values."""
    out = []
    for t in T.walk(tuple(xs)):
        if t.op in ("cmp", "bool", "lt0", "eq0") and T.contains(t, FILE) and t not in out:
            out.append(t)
    return out


def sev(t, name):
    """Value of a term about the file name for a given name."""
    return texts.value(t, {FILE: name})


def name_cases(atoms):
    """Assignments of the conditions on the file name, each realised by some file name: [(names, {atom: TRUE/FALSE})]."""
    names = list(NAMES)
    for a in atoms:
        for x in T.walk((a,)):
            if T.is_const(x, str):
                for n in (T.cval(x), "x" + T.cval(x), T.cval(x) + "x", "x" + T.cval(x) + "x"):
                    if n not in names:
                        names.append(n)
    out = []
    for n in names:
        m = {}
        for a in atoms:
            try:
                m[a] = TRUE if sev(a, n) else FALSE
            except T.Undecided:
                pass
        for e in out:
            if e[1] == m:
                e[0].append(n)
                break
        else:
            out.append(([n], m))
    return out


def under(x, m):
    """A snapshot under the assignment m of conditions: impossible parts are dropped."""
    if isinstance(x, Term):
        return T.subst(x, m) if m else x
    if not isinstance(x, tuple) or not x:
        return x
    if x[0] == "ite":
        c = under(x[1], m)
        if c == TRUE:
            return under(x[2], m)
        if c == FALSE:
            return under(x[3], m)
        a, b = under(x[2], m), under(x[3], m)
        return a if a == b else ("ite", c, a, b)
    if x[0] in ("list", "deque", "set") and len(x) == 2 and isinstance(x[1], tuple):
        return (x[0], tuple(y for y in (under(s, m) for s in x[1]) if y[0] not in ("item", "loop") or y[1] != FALSE))
    if x[0] == "loop":
        return ("loop", under(x[1], m), under(x[2], m) if x[2] is not None else None, tuple(y for y in (under(s, m) for s in x[3]) if y[0] == "prev" or y[1] != FALSE),
                tuple(under(b, m) for b in x[4]))
    if x[0] == "dict":
        es = [(under(k, m), under(g, m), under(v, m)) for k, g, v in x[1]]
        return ("dict", tuple(e for e in es if e[1] != FALSE)) + tuple(under(y, m) if isinstance(y, (Term, tuple)) else y for y in x[2:])
    return tuple(under(y, m) if isinstance(y, (Term, tuple)) else y for y in x)


PLAIN = {PRETTY: const(False), T.truthy(PRETTY): FALSE}
INDENTED = {PRETTY: const(True), T.truthy(PRETTY): TRUE}


def cases(r):
    """The distinct ways parse_file may go depending on the file name and on whether indented output is asked for:
    [(names, condition assignment)]."""
    xs = []
    for e in r.events:
        xs += [e.guard] + list(e.outer)
        if e.kind == "json":
            xs += [e.data["value"], tuple(e.data["kwargs"].items())]
    return [(names, {**m, **p}) for names, m in name_cases(truth_atoms(*xs)) for p in (PLAIN, INDENTED)]


def alive(e, m):
    """Whether an event can happen under an assignment."""
    return T.subst(e.full_guard(), m) != FALSE


def appears(a, t, m):
    """Whether the text t is (part of) the printed value a."""
    if a == t:
        return True
    a, t = under(a, m), under(t, m)
    return a == t or isinstance(a, Term) and T.contains(a, t)


def ok_path(g, m):
    """A guard on the path where nothing fails."""
    g = T.subst(g, m)
    f = {t: FALSE for t in T.walk((g,)) if t.op == "fails"}
    return T.subst(g, f) if f else g


def choice(c, a, b):
    """A snapshot that is a or b; a list with conditional parts when both are lists."""
    if a == b:
        return a
    if all(isinstance(x, tuple) and x and x[0] == "list" for x in (a, b)):
        return ("list", tuple((s[0], T.conj([g, s[1]])) + tuple(s[2:]) for x, g in ((a, c), (b, T.neg(c))) for s in x[1]))
    if isinstance(a, Term) and isinstance(b, Term):
        return T.ite(c, a, b)
    return ("ite", c, a, b)


def with_data(e, **changes):
    """A copy of an event with some of its data replaced."""
    return Event(e.kind, e.guard, e.outer, e.line, e.path, e.func, e.loops, e.tries, {**e.data, **changes}, e.idx, e.node)


def printed(r, m):
    """(print event, json event or None) for every print that may happen under the assignment m; texts made in several places of which
    one is printed count as one document with alternatives."""
    js = r.of("json")
    out = []
    for p in r.of("print"):
        if not alive(p, m):
            continue
        hits = [j for j in js if alive(j, m) and any(appears(a, j.term, m) for a in p.args)]
        if len(hits) < 2 or any(h.loops != hits[0].loops for h in hits):
            out.append((p, hits[-1] if hits else None))
            continue
        j = with_data(hits[-1])
        for h in reversed(hits[:-1]):
            g = T.subst(h.full_guard(), m)
            j.data["value"] = choice(g, under(h.data["value"], m), under(j.data["value"], m))
            ks = set(h.data["kwargs"]) | set(j.data["kwargs"])
            j.data["kwargs"] = {k: choice(g, h.data["kwargs"].get(k, NONE), j.data["kwargs"].get(k, NONE)) for k in ks}
        same = {under(h.term, m): j.term for h in hits} | {h.term: j.term for h in hits}
        out.append((with_data(p, args=[T.subst(under(a, m), same) if isinstance(a, Term) else a for a in p.args]), j))
    return out

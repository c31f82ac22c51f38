"""Analysis runs shared by the checks: entry points of the package under each header version."""
from __future__ import annotations

import json
import os

from sa import terms as T
from sa.again import Base
from sa.interp import AnalysisBroken, Interp
from sa.terms import NONE, TRUE, ZERO, Term, const
from sa.values import *  # noqa: F401,F403

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VERSIONS = ["1.26", "2.3", "2.4", "2.5", "2.6", "2.7", "2.8", "2.9", "2.10", "2.11", "2.12"]
UNLISTED = ["2.13", "3.0", "1.27", "2.2", "1.25", "0.0", "2.1", "127.255", "3.11", "1.11", "12.2"]
NEWEST = "2.12"
TOPS = ["Header", "Record", "SStat", "TStat", "CStat"]
RAW = Term("stream", "raw_file")
H = "atoparser.utils."


def split(v):
    a, b = v.split(".")
    return int(a), int(b)


def word(v, flag=True):
    a, b = split(v)
    return (0x8000 if flag else 0) | a << 8 | b


def has_cgroups(v):
    return split(v) >= (2, 11)


def spec(name):
    with open(os.path.join(VERIF, "spec", name), encoding="utf-8") as f:
        return json.load(f)


class Run:
    """Everything observed while one entry point was analysed."""

    def __init__(self, i, st, alive, value):
        self.st, self.alive, self.value = st, alive, value
        self.events, self.exits, self.loops = list(i.events), list(i.exits), dict(i.loopinfo)
        self.alloc = i.alloc
        self.interp = i

    def of(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    def catchers(self, e):
        """Handler events that catch what the raise or may-raise event e throws."""
        body = {t for t, part in e.tries if part == "body"}
        names = e.exc if isinstance(e.exc, tuple) else (e.exc,)
        return [h for h in self.of("handler") if h.tryid in body and any(c[1] is e.node and c[0] in names for c in h.caught)]

    def escapes(self, e):
        """Whether the exception of e may leave the entry point."""
        return self._escapes(e, 0)

    def _escapes(self, e, depth):
        hs = self.catchers(e)
        if not hs or depth > 8:
            return True
        return any(r.tryid == h.tryid and (h.tryid, h.part) in r.tries and self._escapes(r, depth + 1) for h in hs for r in self.of("reraise"))

    def last_catchers(self, e):
        """The handlers that decide what becomes of e: those that only pass it on to a handler further out are left out."""
        out, todo, seen = [], list(self.catchers(e)), []
        while todo:
            h = todo.pop(0)
            if h in seen:
                continue
            seen.append(h)
            inside = [x for x in self.events if x.kind in ("raise", "reraise") and (h.tryid, h.part) in x.tries]
            outer = [self.catchers(x) for x in inside]
            if h.completes == FALSE and all(k == "raise" for k, g, i in h.exits) and inside and all(outer):
                todo += [y for ys in outer for y in ys]
            else:
                out.append(h)
        return out


def wrote(r):
    """Whether a run left something behind where a later call finds it."""
    r = getattr(r, "run", r)
    return isinstance(r, Run) and any(e.kind == "gmut" for e in r.events)


class Ctx:
    def __init__(self, repo=REPO):
        self.i = Interp(repo)
        self.i.load_package()
        self.lost0 = list(self.i.lost)
        self.layout = spec("layout.json") if os.path.exists(os.path.join(VERIF, "spec", "layout.json")) else None
        self.runs = {}
        self.base = None
        self.second = None  # the number of the kind of earlier call, while calls that come second are analysed
        self.writes = False  # whether anything outlives a call
        self.n_runs = 0

    # ------------------------------------------------------------------------------------------ helpers
    def public(self, dotted):
        v = self.i.get_path(dotted)
        if v is None:
            raise AnalysisBroken(f"public entry point {dotted} no longer exists")
        return v

    def start(self, assume=None, stubs=None, param_elem=None):
        st = self.i.start()
        if self.base is not None:
            # A later call, in the state an earlier one left behind.
            st = self.base.st.clone()
            st.pc, st.outer = TRUE, ()
        self.i.assume = assume or {}
        self.i.stubs = stubs or {}
        self.i.param_elem = param_elem
        self.i.loopinfo = {}
        self.n_runs += 1
        return st

    def struct_param(self, st, cls, root):
        old, self.i.phase = self.i.phase, "param"
        v = self.i.new_struct(st, cls, root, ZERO, None)
        self.i.phase = old
        return v

    def stream_param(self, st):
        old, self.i.phase = self.i.phase, "param"
        f = self.i.new(st, StreamObj("raw_file", ZERO))
        self.i.phase = old
        return f

    def cached(self, key, f):
        if self.base is not None and self.second is None:
            return f()
        if self.second is not None:
            return self.cached_second(key, f)
        if key not in self.runs:
            self.runs[key] = f()
            self.writes = self.writes or wrote(self.runs[key])
        return self.runs[key]

    def cached_second(self, key, f):
        """The result for a call that comes after an earlier one on another file."""
        k, base = self.second, self.base
        if base is not None or (k, key) not in self.runs:
            self.second = self.base = None
            try:
                first = self.cached(key, f)
                if base is not None:
                    return first
                own = getattr(first, "run", first)
                before = own
                if isinstance(own, Run):
                    before = self.before(k, key, f)
                    if before is None or not wrote(before) or not before.alive:
                        self.runs[(k, key)] = first
                        return first
                    self.base = Base(before)
                elif key == "c18 runs" or first is None:
                    return first
                self.second = k
                self.runs[(k, key)] = f()
            finally:
                self.second, self.base = k, base
        return self.runs[(k, key)]

    def before(self, k, key, f):
        """The earlier call: the same one, one on a log of another version, or one that checked less."""
        if k == 0:
            r = self.cached(key, f)
            return getattr(r, "run", r)
        if key[0] in ("header", "gen") and k == 1:
            w = next(x for x in (word("1.26"), word("2.12")) if x != key[1])
            return self.header_run(w, *key[2:]) if key[0] == "header" else self.gen_run(w, *key[2:])
        if key[0] in ("header", "gen") and k == 2 and key[1] is not None:
            return self.header_run(key[1], False) if key[0] == "header" else self.gen_run(key[1], "loose", *key[3:])
        return None

    # ------------------------------------------------------------------------------------------ runs
    def header_run(self, w, compat=None):
        """get_header on a stream whose version word is w (None: unknown)."""
        def go():
            st = self.start({} if w is None else {(RAW, const(4), "u2"): const(w)})
            f = self.stream_param(st)
            kw = {} if compat is None else {"check_compatibility": const(compat)}
            alive, v = self.i.analyse(st, self.public(H + "get_header"), [f], kw)
            r = Run(self.i, st, alive, v)
            r.stream = f
            return r
        return self.cached(("header", w, compat), go)

    def gen_run(self, w, given=False, flags=True):
        """generate_statistics; the header is read by it (False), was read before (True), or was read before without
        checking the declared lengths ("loose"). Without flags, the optional arguments are left to their defaults."""
        def go():
            st = self.start({(RAW, const(4), "u2"): const(w)})
            f = self.stream_param(st)
            args = [f]
            before = set()
            if given:
                kw = {"check_compatibility": const(False)} if given == "loose" else {}
                alive, h = self.i.analyse(st, self.public(H + "get_header"), [f], kw)
                if not alive:
                    raise AnalysisBroken(f"get_header never returns for version word {w:#x}")
                args.append(h)
                before = self.i.reach(st, h)
                for o in before:
                    if self.i.alloc[o].phase != "module":
                        self.i.alloc[o].phase = "param"
                self.i.events, self.i.exits, self.i.loopinfo = [], [], {}
            kw = {"raise_on_truncation": Term("sym", "raise_on_truncation", "bool"), "max_samples": Term("sym", "max_samples", "int")} if flags else {}
            alive, v = self.i.analyse(st, self.public(H + "generate_statistics"), args, kw)
            r = Run(self.i, st, alive, v)
            r.stream, r.param_oids = f, before | {f.oid}
            return r
        return self.cached(("gen", w, given, flags), go)

    def yielded(self, v):
        """The one yield of generate_statistics for a supported version, as its raw value and run."""
        r = self.gen_run(word(v))
        ys = r.of("yield")
        return r, ys

    def classes(self, v):
        """The classes actually used to decode a log of version v: {top: ClassV} (None when not determined)."""
        def go():
            out = {}
            r = self.header_run(word(v))
            if r.alive:
                c = self.i.cdata(r.st, r.value)
                out["Header"] = c[0] if c else None
            hdr = out.get("Header")
            r = self.gen_run(word(v))
            for e in r.of("yield"):
                p = e.data["value"]
                if isinstance(p, tuple) and p[0] == "tuple" and len(p[1]) == 4:
                    rec, ss, ts, cg = p[1]
                    self._cls(out, "Record", rec)
                    self._cls(out, "SStat", ss)
                    for s in leaf_items(ts):
                        self._cls(out, "TStat", s)
                    for s in leaf_items(cg):
                        if isinstance(s, tuple) and s[0] in ("inst", "struct", "tuple"):
                            out.setdefault("CGChainer", s)
                            for n in find_structs(s):
                                self._cls(out, "CStat", n)
                                break
            for top in ("Record", "SStat", "TStat", "CStat"):
                if top not in out and hdr is not None and (top != "CStat" or has_cgroups(v)):
                    a = self.i.class_attr(self.i.mstate, hdr, top)
                    if isinstance(a, ClassV):
                        out[top] = a
            return out
        return self.cached(("classes", v), go)

    def _cls(self, out, top, s):
        if top not in out and isinstance(s, tuple) and s[0] == "struct" and s[1] != "array":
            c = self.i.classes.get(s[1])
            if c is not None:
                out[top] = c if isinstance(c, ClassV) else ClassV(c)


def leaf_items(lst):
    """Values of the items of a list snapshot."""
    out = []
    if isinstance(lst, tuple) and lst and lst[0] in ("list", "deque"):
        todo = list(lst[1])
        while todo:
            s = todo.pop(0)
            if s[0] == "item":
                out.append(s[2])
            elif s[0] == "loop":
                todo.extend(s[3])
    elif isinstance(lst, tuple) and lst and lst[0] == "ite":
        out = leaf_items(lst[2]) + leaf_items(lst[3])
    return out


def find_structs(s):
    out = []
    if isinstance(s, tuple):
        if s and s[0] == "struct" and s[1] != "array":
            out.append(s)
        else:
            for x in s:
                out.extend(find_structs(x))
    return out


def fn_where(ctx, qual):
    f = ctx.i.functions.get(qual)
    if f is None:
        return qual
    return f"{ctx.i.paths.get(f.module, f.module)}:{f.node.lineno} in {qual.rsplit('.', 1)[-1]}"


def equalities(pc):
    """Loads that a path condition fixes to constants."""
    m = {}
    for c in conjuncts(pc):
        if c.op == "eq0":
            p = dict(T._poly(c.args[0]))
            ls = [k for k in p if k != ()]
            if len(ls) == 1 and len(ls[0]) == 1 and ls[0][0].op == "load" and abs(p[ls[0]]) == 1:
                m[ls[0][0]] = const(-p.get((), 0) * p[ls[0]])
    return m

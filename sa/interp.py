"""Abstract interpreter: value-flow analysis of the package's source (nothing of it is ever executed)."""
from __future__ import annotations

import ast
import os
import sys
from dataclasses import replace

from sa import terms as T
from sa.calls import Calls
from sa.models import Models
from sa.terms import FALSE, NONE, ONE, TRUE, ZERO, Term, cval, conj, const, disj, is_const, neg, opaque
from sa.values import *  # noqa: F401,F403
from sa.values import UNDEF, aget, aset


# Constructs without a model that may read the file, change objects or yield.
EFFECTFUL = ("next()", "generator.", "recursion too deep", "result of an unknown function", "yield outside", "unknown decorator", "type()", "super()",
             "unsupported", "stream.", "readinto", "class made by", "instance made by __new__", "overwritten buffer")


class Dead(Exception):
    """The rest of the statement is unreachable."""


class GaveUp(Exception):
    """The code is outside what the analysis can follow: no verdict."""


class AnalysisBroken(Exception):
    """An anchor of a check no longer exists, or the sources cannot be analysed."""


class PyRaise(Exception):
    pass


class Exit:
    __slots__ = ("kind", "target", "state", "value", "node", "where", "implicit", "nev")

    def __init__(self, kind, target, state, value, node, where, implicit=False, nev=0):
        self.kind, self.target, self.state, self.value, self.node, self.where = kind, target, state, value, node, where
        self.implicit, self.nev = implicit, nev


class Event:
    __slots__ = ("kind", "guard", "outer", "line", "path", "func", "loops", "tries", "data", "idx", "node")

    def __init__(self, kind, guard, outer, line, path, func, loops, tries, data, idx, node=None):
        self.kind, self.guard, self.outer, self.line, self.path, self.func = kind, guard, outer, line, path, func
        self.loops, self.tries, self.data, self.idx, self.node = loops, tries, data, idx, node

    def full_guard(self):
        return conj(list(self.outer) + [self.guard])

    @property
    def where(self):
        return f"{self.path}:{self.line} in {self.func}"

    def __getattr__(self, n):
        try:
            return self.data[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return f"<{self.kind} {self.where} if {T.show(self.guard)} {self.data}>"


class LoopInfo:
    def __init__(self, lid, node, where):
        self.id, self.node, self.where = lid, node, where
        self.space = lid
        self.trip = None
        self.guard = TRUE
        self.outer = ()
        self.loops = ()
        self.breaks = []  # (guard, kind, Exit)
        self.phis = {}  # phi term -> (init, next)
        self.scalars = {}  # the same for values of any type
        self.closed = {}
        self.dropped = []
        self.leave = None   # the return statement that ends the turns
        self.carried = {}  # slot -> (objects, terms) handed to the next iteration

    def __repr__(self):
        return f"<loop {self.id} trip={T.show(self.trip) if self.trip is not None else 'inf'} breaks={[T.show(b[0]) for b in self.breaks]}>"


class Alloc:
    __slots__ = ("phase", "line", "path", "func", "loops", "view_of")

    def __init__(self, phase, line, path, func, loops):
        self.phase, self.line, self.path, self.func, self.loops = phase, line, path, func, loops


class FrameInfo:
    def __init__(self, module, qualname, closure, phase, kind):
        self.module, self.qualname, self.closure, self.phase, self.kind = module, qualname, closure, phase, kind
        self.globals, self.nonlocals = set(), set()
        self.keep = False
        self.fn = None
        self.defcls = None


PKG = "atoparser"


class Hook(ast.stmt):
    """A statement of the engine's own."""
    _fields = ()

    def __init__(self, fn):
        super().__init__()
        self.fn = fn


class Given(ast.expr):
    """An expression whose value is known."""
    _fields = ()

    def __init__(self, value):
        super().__init__()
        self.value = value


class Interp(Calls, Models):
    MAX_DEPTH = 60
    UNROLL = 4096

    def __init__(self, repo="/repo"):
        self.given = {}  # values of command line options, when they are fixed
        sys.setrecursionlimit(20000)
        self.repo = repo
        self.modules = {}  # name -> fid
        self.trees = {}
        self.paths = {}
        self.phase = "module"
        self.alloc = {}
        self.finfo = {}
        self._oid = self._fid = self._lid = self._tid = 0
        self.desugared = {}
        self.events = []
        self.exits = []
        self.loops = ()
        self.tries = ()
        self.twin = {}
        self.orders = {}
        self.loopinfo = {}
        self.where = []  # (path, func qualname)
        self.assume = {}
        self.stubs = {}
        self.yield_handlers = {}
        self.cur_exc = []
        self.handling = {}
        self.caught_by = {}
        self.stack_regs = {}
        self.depth = 0
        self.mstate = State()
        self.problems = []
        self.gaps = {}  # what had no model, with the phase it was met in
        self.lost = []  # those of them that may have had effects, so that what follows is not known either
        self.functions = {}  # qualname -> FuncInfo
        self.classes = {}
        self.entered = {}  # qualname -> number of contexts analysed
        self.param_elem = None
        self._nodeline = 0
        self.steps = 0
        self.dep_loops = {}
        self.rounds = {}  # loop being solved -> (state before it, state at the end of a turn)
        self.spaces = {}  # loop -> name of its iteration variable
        self.handed, self.memo = set(), {}

    # ------------------------------------------------------------------------------------------ bookkeeping
    def new(self, st, obj, node=None, like=None):
        self._oid += 1
        path, func = self.where[-1] if self.where else ("?", "?")
        self.alloc[self._oid] = Alloc(self.phase, getattr(node, "lineno", self._nodeline), path, func, self.loops)
        st.heap[self._oid] = obj
        if isinstance(obj, ExtObj) and obj.kind == "exc":
            self.exc_objs[self._oid] = obj.data[0]
        return Ref(self._oid)

    def new_frame(self, st, module, qualname, closure, kind, names=None):
        self._fid += 1
        fid = self._fid
        self.finfo[fid] = FrameInfo(module, qualname, closure, self.phase, kind)
        st.frames[fid] = dict(names or {})
        return fid

    def emit(self, kind, st, node, **data):
        path, func = self.where[-1] if self.where else ("?", "?")
        ev = Event(kind, st.pc, st.outer, getattr(node, "lineno", self._nodeline), path, func, self.loops, self.tries, data, len(self.events), node)
        self.events.append(ev)
        return ev

    def obj(self, st, v):
        return st.heap.get(v.oid) if isinstance(v, Ref) else None

    def mutate(self, st, ref, obj, node, what):
        """Replace a heap object; writes to objects that outlive the call are events."""
        a = self.alloc[ref.oid]
        if a.phase == "module" and self.phase != "module":
            self.emit("gmut", st, node, target=self.describe(ref, st), what=what, old=st.heap.get(ref.oid), new=obj, oid=ref.oid)
        elif a.phase == "param" and self.phase != "module":
            self.emit("pmut", st, node, target=self.describe(ref, st), what=what, old=st.heap.get(ref.oid), new=obj, oid=ref.oid)
        if ref.oid in self.handed:
            self.emit("ymut", st, node, target=self.describe(ref, st), what=what)
        if ref.oid in self.memo:
            self.emit("memomut", st, node, target=self.describe(ref, st), what=what, func=self.memo[ref.oid])
        st.heap[ref.oid] = obj
        if ref.oid in self.twin:
            # An element reached through another index: which element of the sequence changes is not tracked.
            st.heap[self.twin[ref.oid]] = ExtObj("unknown", (opaque("element changed through an index"),))

    def describe(self, ref, st):
        a = self.alloc[ref.oid]
        o = st.heap.get(ref.oid)
        if isinstance(o, ClassObj):
            for c in self.classes.values():
                if c.oid == ref.oid:
                    return f"class {c.qualname}"
        for name, fid in self.modules.items():
            for n, v in st.frames.get(fid, {}).items():
                if v == ref:
                    return f"{name}.{n}"
        return f"{type(o).__name__} created at {a.path}:{a.line} ({a.func})"

    def unknown(self, st, node, reason, typ=None):
        path, func = self.where[-1] if self.where else ("?", "?")
        line = getattr(node, "lineno", self._nodeline)
        what = f"{reason} ({path}:{line})"
        self.gaps.setdefault(what, self.phase)
        if reason.startswith(EFFECTFUL) and what not in self.lost:
            self.lost.append(what)
        return opaque(f"{reason} ({path}:{line})", typ)

    # ------------------------------------------------------------------------------------------ modules
    def find_module(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p) and name.split(".")[0] == PKG:
            return None, True
        return None, False

    def import_module(self, name):
        if name in self.modules:
            return True
        parts = name.split(".")
        if len(parts) > 1 and not self.import_module(".".join(parts[:-1])):
            return False
        if name in self.modules:
            return True
        path, is_pkg = self.find_module(name)
        if path is None and not is_pkg:
            return False
        st = self.mstate
        fid = self.new_frame(st, name, "<module>", (), "module", {"__name__": const(name)})
        self.finfo[fid].is_pkg = is_pkg
        self.modules[name] = fid
        if path is not None:
            src = open(path, encoding="utf-8").read()
            try:
                tree = ast.parse(src, path)
            except SyntaxError as e:
                raise AnalysisBroken(f"cannot parse {path}: {e}")
            self.trees[name] = tree
            rel = os.path.relpath(path, self.repo)
            self.paths[name] = rel
            saved = self.where, self.loops, self.tries, self.exits, self.phase, self.yield_handlers
            self.where, self.loops, self.tries, self.exits, self.phase = [(rel, "<module>")], (), (), [], "module"
            try:
                alive = self.exec_block(tree.body, st, fid)
                for x in self.exits:
                    if not x.implicit:
                        self.problems.append(f"{rel}:{getattr(x.node, 'lineno', 0)}: importing {name} may end with {x.kind} {self.exc_name(x.value) if x.value is not None else ''}")
                if not alive:
                    self.problems.append(f"{rel}: importing {name} fails")
            finally:
                self.where, self.loops, self.tries, self.exits, self.phase, self.yield_handlers = saved
        if len(parts) > 1 and ".".join(parts[:-1]) in self.modules:
            self.mstate.frames[self.modules[".".join(parts[:-1])]].setdefault(parts[-1], ModV(name))
        return True

    def load_package(self):
        """Analyse every module of the package (tests excluded)."""
        root = os.path.join(self.repo, PKG)
        names = []
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("test", "tests", "__pycache__"))
            for f in sorted(files):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), self.repo)[:-3].replace(os.sep, ".")
                    names.append(rel[:-9] if rel.endswith(".__init__") else rel)
        if PKG not in names:
            raise AnalysisBroken("package atoparser not found")
        for n in names:
            self.import_module(n)
        self.module_events = list(self.events)
        self.phase = "run"
        return names

    def lookup_global(self, module, name, st=None):
        st = st or self.mstate
        fid = self.modules.get(module)
        return None if fid is None else st.frames[fid].get(name)

    def get_path(self, dotted, st=None):
        """A module-level name of the package, e.g. atoparser.utils.get_header."""
        mod, _, n = dotted.rpartition(".")
        v = self.lookup_global(mod, n, st)
        return v

    # ------------------------------------------------------------------------------------------ entry
    def start(self):
        """A fresh state for analysing an entry point after the modules have been imported."""
        st = self.mstate.clone()
        self.events, self.exits, self.loops, self.tries = [], [], (), ()
        self.where = [("<entry>", "<entry>")]
        self.depth = 0
        self.phase = "run"
        self.yield_handlers = {}
        self.cur_exc = []
        self.handling = {}
        self.caught_by = {}
        self.stack_regs = {}
        self.handed, self.memo = set(), {}
        return st

    def analyse(self, st, func, args=(), kwargs=None, drain=True):
        """Run an entry point; returns (alive, value). Generators are drained, each yield being an event."""
        if func is None:
            raise AnalysisBroken("entry point not found")
        self.handed = set()
        try:
            v = self.call(st, func, list(args), dict(kwargs or {}), None)
            if drain and isinstance(v, Ref) and isinstance(st.heap.get(v.oid), GenObj):
                def cb(s, elem):
                    elem = self.plain_tuple(s, elem)
                    refs = self.reach(s, elem)
                    self.emit("yield", s, self._ynode, value=self.snap(s, elem), refs=refs, raw=elem, heap={o: s.heap[o] for o in refs if o in s.heap})
                    self.handed |= refs
                    return True
                alive = self.iterate(st, v, None, cb)
                return alive, NONE
            return True, v
        except Dead:
            return False, None

    def plain_tuple(self, st, v):
        """A named tuple as the tuple it is."""
        if isinstance(v, IteV):
            return IteV(v.cond, self.plain_tuple(st, v.a), self.plain_tuple(st, v.b))
        if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), InstObj):
            items = self.known_items(st, v)
            if items is not None:
                return TupleV(tuple(items))
        return v

    # ------------------------------------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        for s in stmts:
            if not self.exec_stmt(s, st, fr):
                return False
        return True

    def exec_stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > 3_000_000:
            raise GaveUp("analysis budget exceeded")
        self._nodeline = s.lineno
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.emit("unsupported", st, s, what=type(s).__name__)
            return True
        try:
            r = m(s, st, fr)
            return True if r is None else r
        except Dead:
            return False

    def add_exit(self, kind, target, st, value, node, implicit=False, pc=None):
        s = st.clone()
        if pc is not None:
            s.pc = pc
        x = Exit(kind, target, s, value, node, self.where[-1], implicit, len(self.events))
        self.exits.append(x)
        return x

    def do_raise(self, st, exc, node, kind="raise"):
        self.emit("raise", st, node, exc=self.exc_names(exc), value=exc, how=kind)
        self.add_exit("raise", None, st, exc, node)
        raise Dead()

    def py_raise(self, st, name, node, msg=""):
        """The interpreter itself would raise here (missing key, attribute...)."""
        exc = self.new(st, ExtObj("exc", (name, msg)), node)
        self.do_raise(st, exc, node, "language")

    def may_raise(self, st, node, name, fails, **data):
        self.emit("mayraise", st, node, exc=name, fails=fails, **data)
        if self.tries:
            exc = self.new(st, ExtObj("exc", (name, "")), node)
            self.add_exit("raise", None, st, exc, node, implicit=True, pc=conj([st.pc, fails]))

    def s_Expr(self, s, st, fr):
        self.eval(s.value, st, fr)

    def s_Pass(self, s, st, fr):
        pass

    def s_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)

    def s_AnnAssign(self, s, st, fr):
        if self.finfo[fr].kind == "class" and isinstance(s.target, ast.Name):
            ann = st.frames[fr].setdefault("__annotations_order__", TupleV(()))
            st.frames[fr]["__annotations_order__"] = TupleV(ann.items + (const(s.target.id),))
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, fr), st, fr)

    def s_AugAssign(self, s, st, fr):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            old = self.e_Name(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st, fr)
            val = self.eval(s.value, st, fr)
            v = self.inplace(op, old, val, st, s, fr)
            self.assign(s.target, v, st, fr)
        elif isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value, st, fr)
            old = self.getattr(st, o, s.target.attr, s)
            val = self.eval(s.value, st, fr)
            self.setattr(st, o, s.target.attr, self.inplace(op, old, val, st, s, fr), s)
        elif isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value, st, fr)
            k = self.eval_index(s.target.slice, st, fr)
            old = self.getitem(st, o, k, s)
            val = self.eval(s.value, st, fr)
            self.setitem(st, o, k, self.inplace(op, old, val, st, s, fr), s)

    def inplace(self, op, old, val, st, node, fr):
        if op == "Add" and isinstance(old, Ref) and isinstance(st.heap.get(old.oid), ListObj):
            self.list_extend(st, old, val, node)
            return old
        if op == "BitOr" and isinstance(old, Ref) and isinstance(st.heap.get(old.oid), DictObj):
            self.dict_update(st, old, val, node)
            return old
        return self.binop(op, old, val, st, node)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, st, fr, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(st, v, len(t.elts), star[0] if star else None, t)
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            self.setattr(st, o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            k = self.eval_index(t.slice, st, fr)
            self.setitem(st, o, k, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def unpack(self, st, v, n, star, node):
        v = self.settle(st, v)
        if isinstance(v, IteV):
            a = self.unpack(st, v.a, n, star, node)
            b = self.unpack(st, v.b, n, star, node)
            return [merge_val(v.cond, x, y) for x, y in zip(a, b)]
        seq = self.drawn_items(st, v, node)
        if seq is not None:
            if star is None:
                if len(seq) != n:
                    self.py_raise(st, "ValueError", node, "unpacking")
                return seq
            tail = n - star - 1
            mid = seq[star:len(seq) - tail]
            return seq[:star] + [self.new(st, ListObj(tuple(Item(TRUE, x) for x in mid)), node)] + (seq[len(seq) - tail:] if tail else [])
        ix = self.as_indexed(st, v)
        if ix is not None and star is None:
            return [ix.get(const(i)) for i in range(n)]
        return [self.unknown(st, node, "unpacking of an unknown value") for _ in range(n)]

    def drawn_items(self, st, v, node):
        """All items of a sequence or of a lazily computed one that is used up here; None if they are not known."""
        items = self.known_items(st, v)
        if items is None and (isinstance(v, SeqV) or isinstance(self.obj(st, v), GenObj)):
            items = self.known_items(st, self.seq_copy(st, [v], node, "list"))
        return items

    def set_name(self, name, v, st, fr, node):
        fi = self.finfo[fr]
        if name in fi.globals:
            self.set_global(fi.module, name, v, st, node)
            return
        if name in fi.nonlocals:
            for f in fi.closure:
                if f in st.frames and name in st.frames[f]:
                    if self.finfo[f].phase == "module" and self.phase != "module":
                        self.emit("gmut", st, node, target=f"closure variable {name}", what="assign", old=st.frames[f][name], new=v, oid=None)
                    st.frames[f][name] = v
                    return
        st.frames[fr][name] = v

    def set_global(self, module, name, v, st, node):
        fid = self.modules[module]
        if self.phase != "module":
            self.emit("gmut", st, node, target=f"{module}.{name}", what="assign", old=st.frames[fid].get(name), new=v, oid=None)
        st.frames[fid][name] = v

    def s_Return(self, s, st, fr):
        v = self.eval(s.value, st, fr) if s.value is not None else NONE
        f = fr
        while self.finfo[f].kind not in ("func", "module"):
            f = self.finfo[f].closure[0]
        self.add_exit("return", f, st, v, s)
        return False

    def s_Break(self, s, st, fr):
        self.add_exit("break", self.loop_tag(), st, None, s)
        return False

    def s_Continue(self, s, st, fr):
        self.add_exit("continue", self.loop_tag(), st, None, s)
        return False

    _tags = ()

    def loop_tag(self):
        return self._tags[-1]

    def s_Global(self, s, st, fr):
        self.finfo[fr].globals.update(s.names)

    def s_Nonlocal(self, s, st, fr):
        self.finfo[fr].nonlocals.update(s.names)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id in self.finfo[fr].globals:
                    self.set_global(self.finfo[fr].module, t.id, UNDEF, st, s)
                else:
                    st.frames[fr].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, fr)
                k = self.eval_index(t.slice, st, fr)
                self.delitem(st, o, k, s)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st, fr)
                self.setattr(st, o, t.attr, UNDEF, s)

    def s_Assert(self, s, st, fr):
        c = self.truth(st, self.eval(s.test, st, fr), s)
        if c == TRUE:
            return
        base = st.pc
        bad = st.clone()
        bad.pc = conj([base, neg(c)])
        try:
            self.py_raise(bad, "AssertionError", s)
        except Dead:
            pass
        st.pc = conj([base, c])
        return c != FALSE

    def s_If(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        return self.branch(st, c, lambda x: self.exec_block(s.body, x, fr), lambda x: self.exec_block(s.orelse, x, fr))

    def branch(self, st, c, fa, fb):
        """Execute both sides of a condition and join; the callbacks return whether they complete."""
        if c == TRUE:
            return fa(st)
        if c == FALSE:
            return fb(st)
        base = st.pc
        a, b = st.clone(), st.clone()
        a.pc, b.pc = conj([base, c]), conj([base, neg(c)])
        la = self.try_alive(fa, a) if a.pc != FALSE else False
        lb = self.try_alive(fb, b) if b.pc != FALSE else False
        if not la and not lb:
            return False
        st.become(merge_states(c, a if la else None, b if lb else None, base))
        return True

    def try_alive(self, f, s):
        try:
            return f(s)
        except Dead:
            return False

    def fork(self, st, c, fa, fb):
        """Like branch, for expressions: both sides return a value."""
        if c == TRUE:
            return fa(st)
        if c == FALSE:
            return fb(st)
        res = {}

        def run(k, f):
            def g(s):
                res[k] = f(s)
                return True
            return g
        if not self.branch(st, c, run("a", fa), run("b", fb)):
            raise Dead()
        if "a" not in res:
            return res["b"]
        if "b" not in res:
            return res["a"]
        return merge_val(c, res["a"], res["b"])

    def lift(self, st, v, f):
        """Apply f(state, value) to every alternative of a gated value."""
        if isinstance(v, IteV):
            c = self.decide(st, v.cond)
            return self.fork(st, c, lambda s: self.lift(s, v.a, f), lambda s: self.lift(s, v.b, f))
        return f(st, v)

    def decide(self, st, c):
        """Simplify a condition under the path condition."""
        if c in (TRUE, FALSE):
            return c
        facts = conjuncts(st.pc)
        for o in st.outer:
            facts += conjuncts(o)
        if c in facts:
            return TRUE
        n = neg(c)
        if n in facts:
            return FALSE
        if c.op == "and":
            return conj([self.decide(st, x) for x in c.args[0]])
        if c.op == "or":
            return disj([self.decide(st, x) for x in c.args[0]])
        return c

    def cond(self, node, st, fr):
        return self.decide(st, self.truth(st, self.eval(node, st, fr), node))

    # -- loops
    def join_exits(self, st, alive, exits, base):
        """Merge states that left early into st; returns whether anything is alive."""
        acc = st.clone() if alive else None
        bc = conjuncts(base)
        for x in reversed(exits):
            rel = conj([c for c in conjuncts(x.state.pc) if c not in bc])
            acc = x.state if acc is None else merge_states(rel, x.state, acc, base)
        if acc is None:
            return False
        st.become(acc)
        return True

    def take_exits(self, saved, pred):
        mine = [x for x in self.exits if pred(x)]
        rest = [x for x in self.exits if not pred(x)]
        self.exits = saved + rest
        return mine

    def s_For(self, s, st, fr):
        it = self.eval(s.iter, st, fr)
        tag = self.new_tag(s)
        base = st.pc
        saved, self.exits = self.exits, []

        def cb(x, elem):
            inner, self.exits = self.exits, []
            b = x.pc
            tags, self._tags = self._tags, self._tags + (tag,)
            try:
                self.assign(s.target, elem, x, fr)
                alive = self.exec_block(s.body, x, fr)
            except Dead:
                alive = False
            finally:
                self._tags = tags
            conts = self.take_exits(inner, lambda e: e.kind == "continue" and e.target == tag)
            return self.rejoin(x, alive, conts, b, len(inner))
        try:
            alive = self.lift_iterate(st, it, s, cb)
        except Dead:
            alive = False
        brk = self.take_exits(saved, lambda e: e.kind == "break" and e.target == tag)
        if s.orelse and alive:
            alive = self.exec_block(s.orelse, st, fr)
        return self.rejoin(st, alive, brk, base, len(saved))

    def rejoin(self, st, alive, exits, base, n):
        """join_exits, where no path but the given ones has left since there were n exits."""
        r = self.join_exits(st, alive, exits, base)
        if r and all(x.implicit for x in self.exits[n:]):
            st.pc = base
        return r

    def s_While(self, s, st, fr):
        tag = self.new_tag(s)
        base = st.pc
        saved, self.exits = self.exits, []

        def step(x, kappa):
            inner, self.exits = self.exits, []
            b = x.pc
            tags, self._tags = self._tags, self._tags + (tag,)
            alive = True
            try:
                alive = self.while_test(s, x, fr, tag) and self.exec_block(s.body, x, fr)
            except Dead:
                alive = False
            finally:
                self._tags = tags
            conts = self.take_exits(inner, lambda e: e.kind == "continue" and e.target == tag)
            return self.rejoin(x, alive, conts, b, len(inner))
        # A condition that is known at once and becomes known-false is unrolled.
        probe = self.unroll_while(st, s, fr, step, tag)
        if probe is None:
            entry, mark, before = st.clone(), (list(self.events), list(self.exits)), set(self.loopinfo)
            try:
                alive = self.run_loop(st, s, None, step)
            except Dead:
                alive = False
            new = [l for l in self.loopinfo if l not in before]
            info = next((self.loopinfo[l] for l in new if self.loopinfo[l].node is s), None)
            if info is not None and info.trip is None and any(x.node is s and not x.implicit and any(y.op == "phi" for y in T.walk(g)) for g, k, x in info.breaks):
                alive = self.turned(s, st, fr, tag, entry, mark, new, info, alive)
        else:
            alive = probe
        brk = self.take_exits(saved, lambda e: e.kind == "break" and e.target == tag)
        if s.orelse:
            # The else part runs when the condition fails; an explicit break skips it.
            els = [e for e in brk if e.node is s]
            brk = [e for e in brk if e.node is not s]
            alive = self.join_exits(st, alive, els, base)
            if alive:
                alive = self.exec_block(s.orelse, st, fr)
        return self.rejoin(st, alive, brk, base, len(saved))

    def while_test(self, s, x, fr, tag):
        """The test of a while loop; each part of a conjunction may end the loop by itself."""
        for t in s.test.values if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) else [s.test]:
            c = self.cond(t, x, fr)
            if any(y.op == "ite" for y in T.walk(c)):
                c = T.subst(c, {k: v for f in conjuncts(x.pc) for k, v in ((f, TRUE), (neg(f), FALSE))})
            if c != TRUE:
                self.add_exit("break", tag, x, None, s, pc=conj([x.pc, neg(c)]))
                x.pc = conj([x.pc, c])
            if c == FALSE:
                return False
        return True

    def turned(self, s, st, fr, tag, entry, mark, tried, info, alive):
        """A loop whose test depends on what its body left there, as one that tests at the end of each turn; adopted when that tells the number of turns."""
        was = (st.clone(), list(self.events), list(self.exits), {l: self.loopinfo[l] for l in tried})
        for l in tried:
            del self.loopinfo[l]
        st.become(entry.clone())
        self.events, self.exits = list(mark[0]), list(mark[1])
        have = set(self.loopinfo)

        def turn(x, kappa):
            inner, self.exits = self.exits, []
            b = x.pc
            tags, self._tags = self._tags, self._tags + (tag,)
            try:
                go = self.exec_block(s.body, x, fr)
            except Dead:
                go = False
            finally:
                self._tags = tags
            conts = self.take_exits(inner, lambda e: e.kind == "continue" and e.target == tag)
            if not self.rejoin(x, go, conts, b, len(inner)):
                return False
            return self.while_test(s, x, fr, tag)
        try:
            res = self.while_test(s, st, fr, tag) and self.run_loop(st, s, None, turn)
        except Dead:
            res = False
        new = [l for l in self.loopinfo if l not in have]
        mine = next((self.loopinfo[l] for l in new if self.loopinfo[l].node is s), None)
        if mine is not None and mine.trip is not None:
            return res
        for l in new:
            del self.loopinfo[l]
        st.become(was[0])
        self.events, self.exits = was[1], was[2]
        self.loopinfo.update(was[3])
        return alive

    def unroll_while(self, st, s, fr, step, tag):
        """Unroll a while loop whose test stays decided; None if it is not."""
        mark = (self._oid, self._fid, self._lid, len(self.events), len(self.exits))
        x = st.clone()
        saved_events, saved_exits = list(self.events), list(self.exits)
        for i in range(200):
            t = x.clone()
            ev, ex = list(self.events), list(self.exits)
            c = self.cond(s.test, t, fr)
            self.events, self.exits = ev, ex
            if c not in (TRUE, FALSE):
                break
            if isinstance(s.test, ast.Constant):
                break
            if c == FALSE:
                self.add_exit("break", tag, x, None, s)
                st.become(x)
                return False
            n = len(self.exits)
            if not step(x, const(i)):
                st.become(x)
                return False
            if any(e.kind == "break" for e in self.exits[n:]):
                break
            if i >= 6 and any(e.kind in ("read", "yield") for e in self.events[len(saved_events):]):
                break
        self.events, self.exits = saved_events, saved_exits
        return None

    def new_tag(self, node):
        self._tid += 1
        return f"t{self._tid}"

    def new_loop_id(self, node):
        self._lid += 1
        path = self.where[-1][0] if self.where else "?"
        return f"{path}:{getattr(node, 'lineno', self._nodeline)}#{self._lid}"

    def slots(self, entry, end):
        """Slots that exist at loop entry and have another value at the end of an iteration."""
        out = []
        for fid, env in entry.frames.items():
            e2 = end.frames.get(fid)
            if e2 is None:
                continue
            for n, v in e2.items():
                o = env.get(n, UNDEF)
                if o is not v and o != v:
                    out.append(("env", fid, n))
        for oid, o in entry.heap.items():
            o2 = end.heap.get(oid)
            if o2 is not None and o2 is not o and o2 != o:
                out.append(("heap", oid))
        return out

    def run_loop(self, st, node, trip, step, space=None, local=(), whole=False):
        """Solve a loop: step(state, kappa) runs one iteration in place and returns whether it completes.

        local: heap objects that are distinct in every iteration (elements of the sequence iterated over).
        whole: every element of that sequence is visited.
        """
        lid = self.new_loop_id(node)
        sp = self.spaces[lid] = space or lid
        kappa = Term("iter", sp)
        entry = st.clone()
        phis = {}   # slot -> start-of-iteration value
        dead = False
        final = None
        no_close = set()
        closed = {}
        for rnd in range(14):
            n0 = T._n_opaque[0]
            b = entry.clone()
            self.install(b, phis, closed)
            start = b.clone()
            b.outer = entry.outer + (entry.pc,)
            b.pc = TRUE
            saved = self.events, self.exits, self.loops
            self.events, self.exits, self.loops = [], [], self.loops + (lid,)
            try:
                alive = step(b, kappa)
            except Dead:
                alive = False
            events, exits = self.events, self.exits
            self.events, self.exits, self.loops = saved
            self.rounds[lid] = (entry, b)
            changed = [s for s in self.slots(start, b)] if alive else []
            changed = [s for s in changed if s not in phis and not (s[0] == "heap" and s[1] in local)]
            new = {}
            for s in changed:
                ph = self.make_phi(lid, s, entry, b)
                if ph is not None:
                    new[s] = ph
            if new and rnd < 9:
                phis.update(new)
                continue
            # Refine phis of containers whose set of changing parts grew.
            grew = False
            if alive and rnd < 9:
                for s, ph in list(phis.items()):
                    if s[0] == "heap":
                        ph2 = self.grow_phi(lid, s, ph, entry, b)
                        if ph2 is not None:
                            phis[s] = ph2
                            grew = True
            if grew:
                continue
            if alive and rnd < 9 and self.rest_phis(phis, entry, b, lid):
                continue
            if alive and rnd < 12:
                add = {}
                for key, init, ph, nxt in self.int_phis(phis, entry, b, lid):
                    if key in closed or key in no_close:
                        continue
                    stepv = T.sub(nxt, ph)
                    if self.variant(stepv, lid, sp, n0):
                        before = T.subst(nxt, {kappa: T.sub(kappa, ONE)})
                        if not self.variant(nxt, lid, sp, n0, own=True) and T.subst(before, {kappa: ZERO}) == init:
                            # The value the iteration before would have left, which is what the loop starts with, too.
                            add[key] = before
                            continue
                        no_close.add(key)
                        continue
                    add[key] = T.add(init, T.mul(stepv, kappa))
                    closed_step = (init, stepv)
                    self.loop_steps[(lid, key)] = closed_step
                if add:
                    closed.update(add)
                    no_close.clear()
                    continue
            break
        info = LoopInfo(lid, node, self.where[-1] if self.where else ("?", "?"))
        info.space, info.guard, info.outer, info.loops = sp, entry.pc, entry.outer, self.loops
        self.loopinfo[lid] = info
        # Which exits end the loop?
        leaving = [x for x in exits if not x.implicit]
        implicit = [x for x in exits if x.implicit]
        keep, tail, held = [], [], []
        for x in leaving:
            g = x.state.pc
            rest, bound = [], None
            if info.leave is not None:
                keep.append(x)
                continue
            ends = x.kind == "break" or x.kind == "return" and trip is None and \
                (x.value is None or isinstance(x.value, Ref) and x.value.oid in entry.heap or isinstance(x.value, Term) and not self.variant(x.value, lid, sp, n0))
            parts = list(g.args[0]) if g.op == "or" else [g]
            fixed = [d for d in parts if not self.variant(d, lid, sp, n0)]

            def natural(y):
                # The other parts of the exit condition, when they do not depend on the turn, do not hold either.
                s2 = entry.clone()
                s2.pc = conj([entry.pc] + [neg(d) for d in fixed])
                return self.implied(s2, T.compare(">=", y, ZERO))
            top = [d for d in parts if ends and self.at_top(x, start, events, local, d)]
            if top:
                for d in parts:
                    n = T.bound_of(d, kappa, True, natural) if bound is None and d in top else None
                    if n is not None and not self.variant(n, lid, sp, 10**12):
                        bound = n
                        held.append(d)
                    else:
                        rest.append(d)
                for d in [d for d in rest if d in fixed and d in top] if bound is not None else ():
                    rest.remove(d)
                    held.append(d)
                    s2 = entry.clone()
                    s2.pc = conj([entry.pc, d])
                    if not self.implied(s2, T.compare("<=", bound, ZERO)):
                        bound = T.ite(d, ZERO, bound)
            elif ends and alive and self.at_end(x, start, b, local):
                # The iteration is complete; what happens before the next one keeps the condition as its guard.
                goes = conjuncts(b.pc)
                for d in parts:
                    d0 = conj([c for c in conjuncts(d) if c not in goes])
                    n = T.bound_of(d0, kappa, True, natural) if bound is None else None
                    if n is not None and not self.variant(n, lid, sp, 10**12):
                        bound = T.add(n, ONE)
                        if not natural(n):
                            bound = T.tmin([bound, ONE], "max")
                    else:
                        rest.append(d)
                if bound is not None:
                    tail.append(x)
            if bound is not None and x.kind == "return":
                info.leave = x
            if bound is not None:
                trip = bound if trip is None else T.tmin([trip, bound])
                info.dropped.append(x)
                if rest:
                    x.state.pc = disj(rest)
                    keep.append(x)
            else:
                keep.append(x)
        # Events and items after a bound check hold trivially while iterating.
        taut = [c for d in held for c in conjuncts(neg(d))]
        info.trip = trip
        info.breaks = [(x.state.pc, x.kind, x) for x in keep]
        if taut:
            for e in events:
                if e.loops and lid in e.loops:
                    if e.loops[-1] == lid:
                        e.guard = conj([c for c in conjuncts(e.guard) if c not in taut])
                    else:
                        e.outer = tuple(conj([c for c in conjuncts(o) if c not in taut]) for o in e.outer)
            for x in keep:
                if x not in info.dropped:
                    x.state.pc = conj([c for c in conjuncts(x.state.pc) if c not in taut])
            info.breaks = [(x.state.pc, x.kind, x) for x in keep]
            if alive:
                b.pc = conj([c for c in conjuncts(b.pc) if c not in taut])
        for e in events:
            e.idx = len(self.events)
            self.events.append(e)
        if alive:
            for key, init, ph, nxt in self.int_phis(phis, entry, b, lid):
                info.phis[ph] = (init, nxt)
            for s_, ph in phis.items():
                for x, init, nxt in self.scalar_phis(s_, ph, entry, b, lid):
                    info.scalars[x] = (init, nxt)
            info.scalars.update(info.phis)
            for s_ in phis:
                v = b.frames[s_[1]].get(s_[2]) if s_[0] == "env" else Ref(s_[1])
                if isinstance(v, V) and not (s_[0] == "heap" and isinstance(b.heap.get(s_[1]), StreamObj)):
                    info.carried[s_] = (self.reach(b, v), {v} if isinstance(v, Term) else set())
        info.closed = closed
        # State after the loop.
        ends = [x.state for x in keep] + [x.state for x in info.dropped if x not in keep]
        allend = b.clone() if alive else None
        for s_ in ends:
            rel = s_.pc
            allend = s_.clone() if allend is None else merge_states(rel, s_, allend, TRUE)
        if allend is None:
            allend = start.clone()
        count = trip if (trip is not None and not keep) else Term("niter", lid)
        after = entry.clone()
        for oid, o in allend.heap.items():
            if oid not in entry.heap:
                after.heap[oid] = o
            elif oid in local:
                after.heap[oid] = o
        brk = tuple(x.state.pc for x in keep)
        todo = self.slots(start, allend)
        for s in todo + [s for s in phis if s not in todo]:
            if s[0] == "heap" and s[1] in local and whole and not keep and not info.dropped:
                continue
            self.after_slot(lid, sp, s, entry, start, allend, after, phis, closed, kappa, count, trip, brk, taut)
        after.pc = entry.pc
        # New variables of live frames (assigned for the first time in the loop) are handled by after_slot.
        conds = []
        out = []
        for i, x in enumerate(keep):
            e = Term("loopexit", lid, i)
            conds.append(e)
            s2 = after.clone()
            for fid, env in x.state.frames.items():
                if fid in s2.frames:
                    for n, v in env.items():
                        if start.frames.get(fid, {}).get(n, UNDEF) != v:
                            s2.frames[fid][n] = v
            for oid, o in x.state.heap.items():
                if isinstance(o, (StreamObj, InstObj, BufObj, StructObj)) and oid in entry.heap and oid not in local:
                    s2.heap[oid] = o
            s2.pc = conj([entry.pc, e])
            s2.outer = entry.outer
            x.state = s2
            out.append(x)
        for x in implicit:
            x.state.pc = conj([entry.pc, x.state.pc])
            x.state.outer = entry.outer
            out.append(x)
        self.exits.extend(out)
        after.pc = conj([entry.pc] + [neg(e) for e in conds])
        st.become(after)
        if info.leave is not None:
            x = info.leave
            self.add_exit("return", x.target, st, x.value, x.node)
            return False
        if trip is None and not info.dropped:
            return False
        return True

    loop_steps = {}

    def variant(self, t, lid, sp, n0, own=False):
        for x in T.walk(t):
            if x.op == "iter" and x.args[0] == sp and not own:
                return True
            if x.op in ("phi", "phiroot", "plen") and x.args[0] == lid:
                return True
            if x.op == "opaque" and x.args[0] > n0:
                return True
            if x.op in ("loopout", "niter", "loopexit", "exists") and int(str(x.args[0]).rsplit("#", 1)[-1]) > int(lid.rsplit("#", 1)[-1]):
                return True
        return False

    def at_top(self, x, start, events, local, d=TRUE):
        """The exit is taken, when d holds, before the iteration had any effect."""
        for oid, o in start.heap.items():
            o2 = x.state.heap.get(oid)
            if o2 is not o and o2 != o and oid not in local:
                if isinstance(o, IterObj) and isinstance(o2, IterObj) and o.seq == o2.seq and T.subst(o2.pos, {d: TRUE, neg(d): FALSE}) == o.pos:
                    continue
                return False
        return not any(e.kind in ("read", "yield", "stream", "print", "gmut", "pmut", "open") for e in events[:x.nev]
                       if conj([e.guard, x.state.pc, d]) != FALSE)

    def at_end(self, x, start, end, local):
        """The exit is taken when the iteration has had all its effects."""
        for fid, env in start.frames.items():
            e2, x2 = end.frames.get(fid), x.state.frames.get(fid)
            if e2 is None or x2 is None or any(x2.get(n, UNDEF) != e2.get(n, UNDEF) for n in env):
                return False
        return all(oid in local or x.state.heap.get(oid) is end.heap.get(oid) or x.state.heap.get(oid) == end.heap.get(oid) for oid in start.heap)

    def implied(self, st, c):
        """Whether the path condition bounds an integer as c does."""
        if c == TRUE or self.decide(st, c) == TRUE:
            return True
        if c.op != "lt0":
            return False
        for f in [f for o in (st.pc,) + tuple(st.outer) for f in conjuncts(o)]:
            if f.op == "lt0":
                d = T.sub(c.args[0], f.args[0])
                if is_const(d) and cval(d) <= 0:
                    return True
        return False

    def make_phi(self, lid, slot, entry, end):
        if slot[0] == "env":
            _, fid, n = slot
            init = entry.frames[fid].get(n, UNDEF)
            if init == UNDEF:
                return None
            nxt = end.frames[fid][n]
            t = None
            if isinstance(init, Term) and isinstance(nxt, Term) and T.ty(init) == T.ty(nxt):
                t = T.ty(init)
            return Term("phi", lid, n, t)
        oid = slot[1]
        return self.phi_obj(lid, oid, entry.heap[oid], end.heap[oid], entry, end)

    def kept_object(self, entry, end, holder, v, lid):
        """The memory that an earlier iteration created and stored in holder, as a later one finds it."""
        o = end.heap.get(v.oid) if isinstance(v, Ref) else None
        if isinstance(o, StructObj):
            buf = self.kept_object(entry, end, holder, Ref(o.buf), lid)
            return self.kept_new(entry, holder, v.oid, replace(o, buf=buf.oid)) if buf is not None else None
        if isinstance(o, BufObj) and o.mutable and v.oid not in entry.heap and is_const(o.size):
            return self.kept_new(entry, holder, v.oid, BufObj(Term("phiroot", lid, v.oid), ZERO, o.size))
        return None

    def kept_new(self, entry, holder, oid, o):
        self._oid += 1
        a, h = self.alloc[oid], self.alloc[holder]
        self.alloc[self._oid] = Alloc(h.phase, a.line, a.path, a.func, h.loops)
        entry.heap[self._oid] = o
        return Ref(self._oid)

    def phi_obj(self, lid, oid, o, e, entry=None, end=None):
        if isinstance(o, ListObj):
            return ListObj((PrevSeg(lid, oid),), o.kind)
        if isinstance(o, DictObj) and isinstance(e, DictObj):
            ents = []
            for k, g, v in o.entries:
                r = e.get(k)
                if r is not None and r == (g, v):
                    ents.append((k, g, v))
                elif r is not None and r[1] == v and g != TRUE and not self.varying(v, lid):
                    ents.append((k, Term("bool", Term("phi", lid, ("has", oid, k), "bool")), v))
                else:
                    t = T.ty(v) if r is not None and isinstance(v, Term) and isinstance(r[1], Term) and T.ty(v) == T.ty(r[1]) else None
                    ents.append((k, g, Term("phi", lid, ("key", oid, k), t)))
            for k, g, v in e.entries:
                # Put there by an iteration: a later one finds the same object, with whatever it then holds.
                kept = self.kept_object(entry, end, oid, v, lid) if entry is not None and o.get(k) is None and (is_const(k) if isinstance(k, Term) else isinstance(k, ClassV)) else None
                if kept is not None:
                    ents.append((k, Term("bool", Term("phi", lid, ("has", oid, k), "bool")), kept))
            return DictObj(tuple(ents), lid, o.kind, o.base)
        if isinstance(o, StreamObj):
            return StreamObj(o.name, Term("phi", lid, ("pos", oid), "int"))
        if isinstance(o, IterObj):
            return IterObj(o.seq, Term("phi", lid, ("itpos", oid), "int"))
        if isinstance(o, (InstObj, ClassObj, StructObj)) and type(o) is type(e):
            attrs = o.attrs
            for k, v in e.attrs:
                old = aget(o.attrs, k)
                if old != v and old is not None:
                    t = T.ty(old) if isinstance(old, Term) and isinstance(v, Term) and T.ty(old) == T.ty(v) else None
                    attrs = aset(attrs, k, Term("phi", lid, ("attr", oid, k), t))
                elif old is None:
                    # Set for the first time in the loop: absent or set by an earlier iteration.
                    kept = self.kept_object(entry, end, oid, v, lid) if entry is not None else None
                    attrs = aset(attrs, k, IteV(Term("bool", Term("phi", lid, ("has", oid, k), "bool")), kept if kept is not None else v, UNDEF) if kept is not None or not self.varying(v, lid) else IteV(Term("bool", Term("phi", lid, ("has", oid, k), "bool")), Term("phi", lid, ("attr", oid, k), T.ty(v) if isinstance(v, Term) else None), UNDEF))
            return replace(o, attrs=attrs)
        if isinstance(o, BufObj):
            return BufObj(Term("phiroot", lid, oid), ZERO, o.size)
        if isinstance(o, GenObj):
            return replace(o, consumed=True)
        return ExtObj("unknown", (opaque("changes in a loop"),))

    def varying(self, v, lid):
        if isinstance(v, Term):
            return any(x.op in ("iter", "phi", "phiroot", "plen", "opaque") for x in T.walk(v))
        if isinstance(v, TupleV):
            return any(self.varying(x, lid) for x in v.items)
        return not isinstance(v, (ClassV, FuncV))

    def grow_phi(self, lid, slot, ph, entry, end):
        oid = slot[1]
        o, e = entry.heap[oid], end.heap.get(oid)
        if isinstance(ph, DictObj) and isinstance(e, DictObj):
            want = self.phi_obj(lid, oid, o, e)
            # a key is changing if the phi keeps the init but the end differs
            ents = []
            ch = False
            for (k, g, v), (k2, g2, v2) in zip(ph.entries, o.entries):
                r = e.get(k)
                if isinstance(v, Term) and v.op == "phi" or r is not None and r[1] == v and g.op == "bool" and g.args[0].op == "phi":
                    ents.append((k, g, v))
                elif r is None or r != (g, v):
                    ents.append((k, g, Term("phi", lid, ("key", oid, k), None if r is None or not isinstance(r[1], Term) or T.ty(r[1]) != T.ty(v) else T.ty(v))))
                    ch = True
                else:
                    ents.append((k, g, v))
            if ch:
                return DictObj(tuple(ents) + ph.entries[len(o.entries):], lid, o.kind, o.base)
        if isinstance(ph, (InstObj, ClassObj, StructObj)) and type(e) is type(ph):
            attrs, ch = ph.attrs, False
            for k, v in e.attrs:
                cur = aget(ph.attrs, k)
                if cur == v:
                    continue
                if isinstance(cur, Term) and cur.op == "phi":
                    continue
                if isinstance(cur, IteV) and cur.b == UNDEF:
                    continue
                tmp = self.phi_obj(lid, oid, o, e)
                attrs = aset(attrs, k, aget(tmp.attrs, k))
                ch = True
            if ch:
                return replace(ph, attrs=attrs)
        return None

    def rest_phis(self, phis, entry, end, lid):
        """Recognise bytes of which each iteration drops the first ones: they are the data from an offset on."""
        found = False
        for s, ph in list(phis.items()):
            if s[0] != "env" or not isinstance(ph, Term) or ph.op != "phi":
                continue
            init, nxt = entry.frames[s[1]].get(s[2]), end.frames[s[1]].get(s[2])
            if not isinstance(init, Term) or T.ty(init) != "bytes" or not isinstance(nxt, Term) or nxt.op != "call" or nxt.args[0] != "slice":
                continue
            parts = self.parts(init)
            if parts is None or parts[2] is not None or nxt.args[1] != ph or nxt.args[3] != NONE or not T.is_num(nxt.args[2]):
                continue
            phis[s] = Term("bytes", parts[0], Term("phi", lid, ("off",) + s[1:], "int"), None, parts[3])
            found = True
        return found

    def int_phis(self, phis, entry, end, lid):
        """(key, init, phi, next) of every integer phi."""
        out = []
        for s, ph in phis.items():
            if s[0] == "env" and isinstance(ph, Term) and T.ty(ph) == "int":
                nxt = end.frames[s[1]].get(s[2])
                if isinstance(nxt, Term):
                    out.append((s, entry.frames[s[1]][s[2]], ph, nxt))
            elif s[0] == "env" and isinstance(ph, Term) and ph.op == "bytes":
                nxt = end.frames[s[1]].get(s[2])
                parts = self.parts(nxt) if isinstance(nxt, Term) else None
                if parts is not None and parts[0] == ph.args[0] and parts[2] is None:
                    out.append((("off",) + s[1:], self.parts(entry.frames[s[1]][s[2]])[1], ph.args[1], parts[1]))
            elif s[0] == "heap":
                o, e = entry.heap[s[1]], end.heap.get(s[1])
                if isinstance(ph, StreamObj):
                    out.append((("pos", s[1]), o.pos, ph.pos, e.pos))
                elif isinstance(ph, ListObj) and isinstance(e, ListObj):
                    a, b = seg_count(o), seg_count(e)
                    if a is not None and b is not None and o.kind != "set":
                        out.append((("plen", s[1]), a, Term("plen", lid, s[1]), b))
                elif isinstance(ph, IterObj) and isinstance(e, IterObj):
                    out.append((("itpos", s[1]), o.pos, ph.pos, e.pos))
                elif isinstance(ph, DictObj) and isinstance(e, DictObj):
                    for k, g, v in ph.entries:
                        if isinstance(v, Term) and v.op == "phi" and v.args[0] == lid and T.ty(v) == "int":
                            r, i = e.get(k), o.get(k)
                            if r is not None and i is not None:
                                out.append((("key", s[1], k), i[1], v, r[1]))
                elif isinstance(ph, (InstObj, ClassObj, StructObj)) and type(e) is type(ph):
                    for k, v in ph.attrs:
                        if isinstance(v, Term) and v.op == "phi" and v.args[0] == lid and T.ty(v) == "int":
                            out.append((("attr", s[1], k), aget(o.attrs, k), v, aget(e.attrs, k)))
        out = [x for x in out if isinstance(x[1], Term) and isinstance(x[3], Term) and T.is_num(x[1]) and T.ty(x[3]) in ("int", "bool")]
        known = {}
        for i, x in enumerate(out):
            if any(y.op == "ite" for y in T.walk(x[3])):
                # The next iteration is only reached under the condition on which this one completes.
                known = known or {k: v for c in conjuncts(end.pc) for k, v in ((c, TRUE), (neg(c), FALSE))}
                out[i] = x[:3] + (T.subst(x[3], known),)
        return out

    def scalar_phis(self, s, ph, entry, end, lid):
        """(phi, init, next) of the carried values of a slot."""
        out = []
        if s[0] == "env":
            if isinstance(ph, Term):
                out.append((ph, entry.frames[s[1]].get(s[2]), end.frames[s[1]].get(s[2])))
        elif s[0] == "heap":
            o, e = entry.heap.get(s[1]), end.heap.get(s[1])
            if isinstance(ph, DictObj) and isinstance(e, DictObj) and isinstance(o, DictObj):
                for k, _, v in ph.entries:
                    r, i = e.get(k), o.get(k)
                    if isinstance(v, Term) and r is not None and i is not None:
                        out.append((v, i[1], r[1]))
            elif isinstance(ph, (InstObj, ClassObj, StructObj)) and type(e) is type(ph) and type(o) is type(ph):
                for k, v in ph.attrs:
                    out.append((v, aget(o.attrs, k), aget(e.attrs, k)))
        return [x for x in out if all(isinstance(y, Term) for y in x) and x[0].op == "phi" and x[0].args[0] == lid]

    def install(self, b, phis, closed):
        for s, ph in phis.items():
            if s[0] == "env":
                if isinstance(ph, Term) and ph.op == "bytes" and ("off",) + s[1:] in closed:
                    ph = self.mkbytes(ph.args[0], closed[("off",) + s[1:]], None, ph.args[3])
                b.frames[s[1]][s[2]] = closed.get(s, ph)
            else:
                oid = s[1]
                if isinstance(ph, StreamObj) and ("pos", oid) in closed:
                    ph = StreamObj(ph.name, closed[("pos", oid)])
                elif isinstance(ph, IterObj) and ("itpos", oid) in closed:
                    ph = IterObj(ph.seq, closed[("itpos", oid)])
                elif isinstance(ph, ListObj):
                    ph = ListObj((PrevSeg(ph.segs[0].loop, oid, closed.get(("plen", oid))),), ph.kind)
                elif isinstance(ph, DictObj):
                    ph = replace(ph, entries=tuple((k, g, closed.get(("key", oid, k), v)) for k, g, v in ph.entries))
                elif isinstance(ph, (InstObj, ClassObj, StructObj)):
                    ph = replace(ph, attrs=tuple((k, closed.get(("attr", oid, k), v)) for k, v in ph.attrs))
                b.heap[oid] = ph

    def after_slot(self, lid, sp, s, entry, start, end, after, phis, closed, kappa, count, trip, brk, taut):
        def clo(key, nxt, t):
            if key in closed:
                return T.subst(closed[key], {kappa: count})
            return Term("loopout", lid, key, t)
        if s[0] == "env":
            _, fid, n = s
            nxt = end.frames[fid].get(n)
            if s in closed:
                after.frames[fid][n] = T.subst(closed[s], {kappa: count})
                return
            t = T.ty(nxt) if isinstance(nxt, Term) else None
            if trip is not None and T.is_int_const(trip) and int(cval(trip)) > 0 and not brk and isinstance(nxt, (Term, TupleV)) and not self.variant(nxt if isinstance(nxt, Term) else Term("t", *[i for i in nxt.items if isinstance(i, Term)]), lid, sp, 10**12):
                after.frames[fid][n] = nxt
                return
            init = entry.frames[fid].get(n, UNDEF)
            if isinstance(init, Term) and T.ty(init) != t:
                t = None
            after.frames[fid][n] = Term("loopout", lid, ("env", n, fid), t)
            return
        oid = s[1]
        o, e = entry.heap[oid], end.heap[oid]
        if isinstance(o, ListObj) and isinstance(e, ListObj):
            if e.segs and isinstance(e.segs[0], PrevSeg) and e.segs[0].loop == lid and e.segs[0].oid == oid and not any(isinstance(x, PrevSeg) for x in e.segs[1:]):
                seg = self.norm_seg(LoopSeg(TRUE, sp, trip, tuple(guard_without(x, taut) for x in e.segs[1:]), brk))
                after.heap[oid] = ListObj(o.segs + (seg,), o.kind)
            elif len(e.segs) == 2 and isinstance(e.segs[1], PrevSeg) and e.segs[1].loop == lid and e.segs[1].oid == oid and isinstance(e.segs[0], Item) \
                    and trip is not None and not brk:
                # Each turn puts its element before the others.
                fwd = self.new(after, ListObj((self.norm_seg(LoopSeg(TRUE, sp, trip, (guard_without(e.segs[0], taut),), ())),), "list"))
                r = self.materialise(after, SeqV("reversed", (fwd,)), None)
                rev = after.heap.get(r.oid) if isinstance(r, Ref) else None
                after.heap[oid] = ListObj(rev.segs + o.segs if isinstance(rev, ListObj) else (Item(TRUE, opaque("list rebuilt in a loop")),), o.kind)
            else:
                after.heap[oid] = ListObj((Item(TRUE, opaque("list rebuilt in a loop")),), o.kind)
            return
        if isinstance(o, StreamObj):
            after.heap[oid] = StreamObj(o.name, clo(("pos", oid), e.pos, "int"))
        elif isinstance(o, IterObj) and isinstance(e, IterObj):
            after.heap[oid] = IterObj(o.seq, clo(("itpos", oid), e.pos, "int"))
        elif isinstance(o, DictObj) and isinstance(e, DictObj):
            ents = []
            for k, g, v in e.entries:
                i, s_ = o.get(k), start.heap[oid].get(k)
                if i is not None and s_ is not None and s_ == (g, v) and i == s_:
                    ents.append((k, g, v))
                elif i is not None and i[1] == v and not self.varying(v, lid):
                    ents.append((k, i[0] if g == i[0] else disj([i[0], Term("exists", lid, ("key", k))]), v))
                elif i is not None:
                    ents.append((k, i[0], clo(("key", oid, k), v, T.ty(v) if isinstance(v, Term) else None)))
                else:
                    cond = Term("exists", lid, ("key", k)) if not (trip is not None and T.is_int_const(trip) and int(cval(trip)) > 0 and g == TRUE and not brk) else TRUE
                    ents.append((k, cond, v if not self.varying(v, lid) or self.varying(k, lid) else Term("loopout", lid, ("key", oid, k), T.ty(v) if isinstance(v, Term) else None)))
            sym = any(not is_const(k) and not isinstance(k, ClassV) for k, _, _ in e.entries if o.get(k) is None)
            rows = ()
            if sym and not o.entries and not o.prev and o.base is None and len(e.entries) == 1:
                k, g, v = e.entries[0]
                if not any(x.op == "opaque" or x.op == "phi" and x.args[0] == lid for x in T.walk((k,))):
                    one = Item(conj([c for c in conjuncts(g) if c not in taut] + [self.fresh_key(k, kappa)]), TupleV((k, v)))
                    rows = (self.norm_seg(LoopSeg(TRUE, sp, trip, (one,), brk)),)
            after.heap[oid] = DictObj(tuple(ents), lid if sym else o.prev, o.kind, o.base, rows)
        elif isinstance(o, (InstObj, ClassObj, StructObj)) and type(o) is type(e):
            attrs = o.attrs
            for k, v in e.attrs:
                if aget(o.attrs, k) != v:
                    if ("attr", oid, k) in closed:
                        nv = clo(("attr", oid, k), v, "int")
                    elif not self.varying(v, lid):
                        nv = v
                    else:
                        nv = Term("loopout", lid, ("attr", oid, k), T.ty(v) if isinstance(v, Term) else None)
                    attrs = aset(attrs, k, nv)
            after.heap[oid] = replace(o, attrs=attrs)
        elif isinstance(o, BufObj):
            after.heap[oid] = BufObj(Term("phiroot", lid, oid), ZERO, o.size)
        else:
            after.heap[oid] = e

    def fresh_key(self, k, kappa):
        """Whether the key of this turn is none of the earlier keys: certain when it grows with the turns, a matter of the data otherwise."""
        if isinstance(k, TupleV):
            cs = [self.fresh_key(x, kappa) for x in k.items]
            return TRUE if TRUE in cs else Term("fresh", kappa, tuple(x for x in k.items if isinstance(x, Term)))
        if isinstance(k, Term) and T.is_num(k):
            d = T.sub(T.subst(k, {kappa: T.add(kappa, T.ONE)}), k)
            if T.is_int_const(d) and T.cval(d) != 0:
                return TRUE
        return Term("fresh", kappa, k if isinstance(k, Term) else NONE)

    def as_long_as(self, trip, kappa):
        """A number of turns that an earlier loop counted, as the conditions on which that loop ended."""
        parts = list(trip.args[0]) if trip is not None and trip.op == "min" else [trip]
        out, conds = [], []
        for p in parts:
            info = self.loopinfo.get(p.args[0]) if p is not None and p.op == "niter" else None
            cs = [c for c, kind, x in info.breaks] if info is not None and all(kind == "break" for c, kind, x in info.breaks) else []
            own = info is not None and self.loops[:len(info.loops)] == info.loops
            if not cs or not own or any(y.op in ("phi", "phiroot", "plen", "opaque", "loopexit") for c in cs for y in T.walk((c,))):
                out.append(p)
                continue
            out += [info.trip] if info.trip is not None else []
            conds += [T.subst(c, {Term("iter", info.space): kappa}) for c in cs]
        return (T.tmin(out) if out else None) if conds else trip, conds

    def norm_seg(self, seg):
        """Turn linear guards and stop conditions into trip counts."""
        kappa = Term("iter", seg.space)
        items, breaks, trip = list(seg.items), list(seg.breaks), seg.trip
        trip, more = self.as_long_as(trip, kappa)
        if more:
            breaks += more
            items = [guard_seg(conj([neg(b) for b in more]), i) for i in items]
        changed = True
        while changed and items:
            changed = False
            for b in list(breaks):
                n = T.bound_of(b, kappa, True)
                nb = neg(b)
                if n is not None and all(nb in conjuncts(i.guard) for i in items):
                    trip = n if trip is None else T.tmin([trip, n])
                    breaks.remove(b)
                    items = [guard_without(i, [nb]) for i in items]
                    changed = True
            if not breaks and trip is not None:
                common = [c for c in conjuncts(items[0].guard) if all(c in conjuncts(i.guard) for i in items)]
                for c in common:
                    n = T.bound_of(neg(c), kappa)
                    if n is not None:
                        trip = T.tmin([trip, n])
                        items = [guard_without(i, [c]) for i in items]
                        changed = True
        # Conditions that do not depend on the iteration belong to the segment.
        g = seg.guard
        return LoopSeg(g, seg.space, trip, tuple(items), tuple(breaks))

    # -- iteration
    def lift_iterate(self, st, v, node, cb):
        if isinstance(v, IteV):
            c = self.decide(st, v.cond)
            return self.branch(st, c, lambda s: self.lift_iterate(s, v.a, node, cb), lambda s: self.lift_iterate(s, v.b, node, cb))
        return self.iterate(st, v, node, cb)

    def iterate(self, st, v, node, cb):
        """Run cb(state, element) for every element of v, in place; returns whether control gets past the last one."""
        v = self.rows_view(st, v)
        if isinstance(v, IteV):
            return self.lift_iterate(st, v, node, cb)
        o = self.obj(st, v)
        if isinstance(o, GenObj):
            return self.run_generator(st, v, o, node, cb)
        if isinstance(o, IterObj):
            if o.pos == ZERO:
                return self.iterate(st, o.seq, node, cb)
            return self.iterate(st, SeqV("slice", (o.seq, o.pos, None)), node, cb)
        items = self.known_items(st, v)
        if items is not None:
            for x in items:
                if not cb(st, x):
                    return False
            return True
        if isinstance(o, InstObj):
            f = self.class_attr(st, o.cls, "__iter__")
            if f is not None:
                r = self.call(st, BoundV(f, v), [], {}, node)
                return self.iterate(st, r, node, cb)
        if isinstance(o, ListObj):
            for seg in o.segs:
                if isinstance(seg, Item):
                    if not self.branch(st, self.decide(st, seg.guard), lambda s: cb(s, seg.value), lambda s: True):
                        return False
                elif isinstance(seg, LoopSeg):
                    if not self.branch(st, self.decide(st, seg.guard), lambda s: self.iterate_seg(s, seg, node, cb), lambda s: True):
                        return False
                else:
                    u = self.unknown(st, node, "iteration over a list that is being built")
                    if not self.run_loop(st, node, u, lambda s, k: cb(s, self.unknown(s, node, "element of a list being built"))):
                        return False
            return True
        if isinstance(v, SeqV):
            r = self.iterate_seq(st, v, node, cb)
            if r is not NotImplemented:
                return r
        ix = self.as_indexed(st, v)
        if ix is not None:
            return self.run_loop(st, node, ix.trip, lambda s, k: cb(s, self.ix_get(s, v, k)), space=ix.space, local=ix.local, whole=ix.whole)
        if isinstance(v, Term) and T.ty(v) not in (None, "bytes", "str"):
            self.py_raise(st, "TypeError", node, "not iterable")
        u = self.unknown(st, node, "iteration over an unknown value", "int")
        name = self.unknown(st, node, "element of an unknown iterable")
        self.emit("unsupported", st, node, what="iteration over an unknown value")
        return self.run_loop(st, node, u, lambda s, k: cb(s, self.unknown(s, node, "element of an unknown iterable")))

    def ix_get(self, s, v, k):
        return self.as_indexed(s, v).get(k)

    def iterate_seg(self, st, seg, node, cb):
        local = self.local_oids(st, seg)

        def step(s, k):
            for b in seg.breaks:
                # Stop conditions of the loop that built the list apply to this one as well.
                pass
            for it in seg.items:
                if isinstance(it, Item):
                    ok = self.branch(s, self.decide(s, it.guard), lambda x: cb(x, it.value), lambda x: True)
                else:
                    ok = self.branch(s, self.decide(s, it.guard), lambda x: self.iterate_seg(x, it, node, cb), lambda x: True)
                if not ok:
                    return False
            return True
        if seg.breaks:
            tag = self.new_tag(node)
            base = st.pc
            saved, self.exits = self.exits, []

            def step2(s, k):
                # An item guarded against the stop condition never runs when it holds; stop after this iteration.
                g = disj(list(seg.breaks))
                ok = step(s, k)
                if ok:
                    self.add_exit("break", tag, s, None, node, pc=conj([s.pc, g]))
                    s.pc = conj([s.pc, neg(g)])
                return ok
            alive = self.run_loop(st, node, seg.trip, step2, space=seg.space, local=local)
            brk = self.take_exits(saved, lambda e: e.kind == "break" and e.target == tag)
            return self.join_exits(st, alive, brk, base)
        return self.run_loop(st, node, seg.trip, step, space=seg.space, local=local, whole=self.covers(seg))

    def covers(self, seg):
        """The segment still has an element for every iteration of the loop that made it."""
        return seg.guard == TRUE and not seg.breaks and any(i.space == seg.space and i.trip == seg.trip and l == seg.space for l, i in self.loopinfo.items())

    def local_oids(self, st, seg):
        """Objects that each iteration of the segment has its own instance of."""
        out, todo = set(), [i for i in seg.items]
        vals = []
        while todo:
            i = todo.pop()
            if isinstance(i, Item):
                vals.append(i.value)
            else:
                todo.extend(i.items)
        for v in vals:
            for oid in self.reach(st, v):
                if any(self.loopinfo[l].space == seg.space for l in self.alloc[oid].loops if l in self.loopinfo):
                    out.add(oid)
        return out

    def run_generator(self, st, ref, g, node, cb):
        if g.consumed:
            return True
        st.heap[ref.oid] = replace(g, consumed=True)
        if self.alloc[ref.oid].phase == "module" and self.phase != "module":
            self.emit("gmut", st, node, target=self.describe(ref, st), what="consume generator", old=g, new=None, oid=ref.oid)
        if isinstance(g.func, FuncV):
            info = g.func.info
            fid = self.new_frame(st, info.module, info.qualname, g.func.closure, "func", dict(g.frame))
            self.finfo[fid].fn = info
            return self.run_gen_body(st, info, fid, info.node.body, cb, node)
        # generator expression
        genexp, fid = g.func, g.fid
        qual = self.finfo[fid].qualname
        return self.run_comp(st, genexp, genexp.generators, 0, fid, lambda s: cb(s, self.eval(genexp.elt, s, fid)))

    def run_gen_body(self, st, info, fid, body, cb, node):
        active = sum(1 for _, q in self.where if q == info.qualname)
        if self.depth > self.MAX_DEPTH or active > 25 or (active > 1 and any(T.unknowns(a) for a in st.frames[fid].values())):
            self.emit("unsupported", st, node, what="recursion too deep")
            return True
        base = st.pc
        saved, self.exits = self.exits, []
        self.where.append((self.paths.get(info.module, info.module), info.qualname))
        self.depth += 1
        self.entered[info.qualname] = self.entered.get(info.qualname, 0) + 1
        tags, self._tags = self._tags, ()
        outer_where = self.where
        outer_tags = tags

        def handler(s, v, ynode):
            # The consumer runs with its own break targets and location.
            mine, self._tags = self._tags, outer_tags
            w, self.where = self.where, outer_where[:-1] + [outer_where[-1]]
            self._ynode = ynode
            try:
                return cb(s, v)
            finally:
                self._tags = mine
                self.where = w
        self.yield_handlers[fid] = handler
        try:
            alive = self.exec_block(body, st, fid)
        except Dead:
            alive = False
        finally:
            self.where.pop()
            self.depth -= 1
            self._tags = tags
            self.yield_handlers.pop(fid, None)
        rets = self.take_exits(saved, lambda e: e.kind == "return" and e.target == fid)
        return self.rejoin(st, alive, rets, base, len(saved))

    _ynode = None

    def gen_frame(self, fr):
        f = fr
        while f not in self.yield_handlers:
            cl = self.finfo[f].closure
            if self.finfo[f].kind == "func" or not cl:
                return None
            f = cl[0]
        return f

    def e_Yield(self, n, st, fr):
        v = self.eval(n.value, st, fr) if n.value is not None else NONE
        f = self.gen_frame(fr)
        if f is None:
            return self.unknown(st, n, "yield outside a generator")
        if not self.yield_handlers[f](st, v, n):
            raise Dead()
        return NONE

    def e_YieldFrom(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        f = self.gen_frame(fr)
        if f is None:
            return self.unknown(st, n, "yield outside a generator")
        h = self.yield_handlers[f]
        if not self.iterate(st, v, n, lambda s, x: h(s, x, n)):
            raise Dead()
        return NONE

    # -- comprehension
    def run_comp(self, st, node, gens, i, fid, leaf):
        if i == len(gens):
            return leaf(st) is not False
        g = gens[i]
        it = self.eval(g.iter, st, fid)

        def cb(s, elem):
            self.assign(g.target, elem, s, fid)
            conds = [self.cond(c, s, fid) for c in g.ifs[:1]]

            def chain(x, k):
                if k == len(g.ifs):
                    return self.run_comp(x, node, gens, i + 1, fid, leaf)
                c = self.cond(g.ifs[k], x, fid)
                return self.branch(x, c, lambda y: chain(y, k + 1), lambda y: True)
            return chain(s, 0)
        return self.lift_iterate(st, it, g.iter, cb)

    def comp_frame(self, st, fr):
        fi = self.finfo[fr]
        closure = (fr,) + fi.closure
        fid = self.new_frame(st, fi.module, fi.qualname, closure, "comp")
        return fid

    def e_ListComp(self, n, st, fr):
        fid = self.comp_frame(st, fr)
        out = self.new(st, ListObj(()), n)
        if not self.run_comp(st, n, n.generators, 0, fid, lambda s: self.list_append(s, out, self.eval(n.elt, s, fid), n)):
            raise Dead()
        st.frames.pop(fid, None)
        return out

    def e_SetComp(self, n, st, fr):
        fid = self.comp_frame(st, fr)
        out = self.new(st, ListObj((), "set"), n)
        if not self.run_comp(st, n, n.generators, 0, fid, lambda s: self.list_append(s, out, self.eval(n.elt, s, fid), n)):
            raise Dead()
        return out

    def e_DictComp(self, n, st, fr):
        fid = self.comp_frame(st, fr)
        out = self.new(st, DictObj(()), n)

        def leaf(s):
            k = self.eval(n.key, s, fid)
            self.setitem(s, out, k, self.eval(n.value, s, fid), n)
        if not self.run_comp(st, n, n.generators, 0, fid, leaf):
            raise Dead()
        st.frames.pop(fid, None)
        return out

    def e_GeneratorExp(self, n, st, fr):
        fid = self.comp_frame(st, fr)
        # The first iterable is evaluated at once.
        g0 = n.generators[0]
        it = self.eval(g0.iter, st, fr)
        n2 = ast.copy_location(ast.GeneratorExp(n.elt, [ast.comprehension(g0.target, ast.copy_location(ast.Name(".0", ast.Load()), g0.iter), g0.ifs, 0)] + n.generators[1:]), n)
        st.frames[fid][".0"] = it
        return self.new(st, GenObj(n2, (), fid), n)

    # -- functions and classes
    def s_FunctionDef(self, s, st, fr):
        fv = self.make_func(s, s.name, st, fr)
        v = fv
        for d in reversed(s.decorator_list):
            v = self.decorate(st, self.eval(d, st, fr), v, s)
        self.set_name(s.name, v, st, fr, s)

    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, node, name, st, fr):
        fi = self.finfo[fr]
        a = node.args
        defaults = [self.eval(d, st, fr) for d in a.defaults]
        kwd = [self.eval(d, st, fr) if d is not None else None for d in a.kw_defaults]
        prefix = "" if fi.kind == "module" else fi.qualname + "."
        qual = f"{fi.module}.{name}" if fi.kind == "module" else f"{fi.qualname}.{name}" if "." in fi.qualname and fi.qualname.startswith(PKG) else f"{fi.module}.{prefix}{name}"
        body = node.body if isinstance(node.body, list) else [ast.copy_location(ast.Return(node.body), node.body)]
        is_gen = isinstance(node, ast.FunctionDef) and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_scope(node.body))
        if isinstance(node, ast.Lambda):
            node2 = ast.copy_location(ast.FunctionDef(name, node.args, body, [], None, None), node)
            node = node2
        info = FuncInfo(node, fi.module, qual, defaults, kwd, is_gen, self.phase)
        info.defcls = self.finfo[fr].defcls if fi.kind == "class" else None
        self.functions.setdefault(qual, info)
        closure = () if fi.kind == "module" else fi.closure if fi.kind == "class" else (fr,) + fi.closure
        f = fr
        if fi.kind in ("func", "comp"):
            self.keep_chain(fr)
        return FuncV(info, closure)

    def keep_chain(self, fr):
        self.finfo[fr].keep = True
        for f in self.finfo[fr].closure:
            self.finfo[f].keep = True

    def e_Lambda(self, n, st, fr):
        return self.make_func(n, "<lambda>", st, fr)

    def decorate(self, st, d, v, node):
        if isinstance(d, ExtV):
            if d.name in ("property", "staticmethod", "classmethod", "functools.cached_property"):
                return WrapV(d.name.split(".")[-1], v)
            if d.name in ("functools.lru_cache", "functools.cache", "functools.lru_cache()"):
                if isinstance(v, FuncV):
                    v.info.cached = True
                return v
            if d.name == "contextlib.contextmanager":
                if isinstance(v, FuncV):
                    v.info.contextmanager = True
                return v
            if d.name.startswith("functools.wraps") or d.name in ("typing.no_type_check", "typing.final", "typing.overload", "abc.abstractmethod", "typing.runtime_checkable"):
                return v
            if d.name.startswith("dataclasses.dataclass"):
                if isinstance(v, ClassV):
                    v.info.dataclass = True
                return v
        if isinstance(d, (FuncV, PartialV, BoundV)):
            return self.call(st, d, [v], {}, node)
        if isinstance(d, ExtBound) and isinstance(d.self, WrapV):  # @x.setter
            return d.self
        if isinstance(d, PartialV):
            return self.call(st, d, [v], {}, node)
        return self.unknown(st, node, "unknown decorator")

    def s_ClassDef(self, s, st, fr):
        fi = self.finfo[fr]
        bases = [self.eval(b, st, fr) for b in s.bases]
        qual = f"{fi.module}.{s.name}" if fi.kind == "module" else f"{fi.module}.{fi.qualname}.{s.name}"
        cref = self.new(st, ClassObj(()), s)
        info = ClassInfo(s.name, qual, fi.module, tuple(bases), s, cref.oid)
        cv = ClassV(info)
        closure = () if fi.kind == "module" else (fr,) + fi.closure
        cfid = self.new_frame(st, fi.module, s.name if fi.kind == "module" else f"{fi.qualname}.{s.name}", closure, "class")
        self.finfo[cfid].defcls = cv
        if not self.exec_block(s.body, st, cfid):
            raise Dead()
        attrs = tuple((k, v) for k, v in st.frames.pop(cfid).items())
        st.heap[cref.oid] = ClassObj(attrs)
        self.classes.setdefault(qual, info)
        info.dataclass = any(isinstance(b, ExtV) and b.name == "typing.NamedTuple" for b in bases)
        v = cv
        for d in reversed(s.decorator_list):
            v = self.decorate(st, self.eval(d, st, fr), v, s)
        # __set_name__/__init_subclass__ are not modelled.
        self.set_name(s.name, v, st, fr, s)

    def s_Import(self, s, st, fr):
        for a in s.names:
            top = a.name.split(".")[0]
            self.emit("import", st, s, module=a.name)
            if self.find_module(top)[1] or self.find_module(top)[0]:
                self.import_in(st, a.name)
                self.set_name(a.asname or top, ModV(a.name if a.asname else top), st, fr, s)
            else:
                self.set_name(a.asname or top, ExtV(a.name if a.asname else top), st, fr, s)

    def import_in(self, st, name):
        """Import during analysis of a function: module frames live in every state."""
        before = set(self.modules)
        ok = self.import_module(name)
        if st is not self.mstate:
            for m in set(self.modules) - before:
                st.frames[self.modules[m]] = dict(self.mstate.frames[self.modules[m]])
            for oid, o in self.mstate.heap.items():
                st.heap.setdefault(oid, o)
        return ok

    def s_ImportFrom(self, s, st, fr):
        mod = s.module or ""
        if s.level:
            me = self.finfo[fr].module.split(".")
            is_pkg = getattr(self.finfo[self.modules[self.finfo[fr].module]], "is_pkg", False)
            base = me if is_pkg else me[:-1]
            base = base[:len(base) - (s.level - 1)] if s.level > 1 else base
            mod = ".".join(base + ([mod] if mod else []))
        if mod == "__future__":
            return
        self.emit("import", st, s, module=mod, names=[a.name for a in s.names])
        top = mod.split(".")[0]
        if self.find_module(top)[1] or self.find_module(top)[0]:
            ok = self.import_in(st, mod)
            if not ok:
                self.py_raise(st, "ImportError", s, mod)
            for a in s.names:
                if a.name == "*":
                    for k, v in list(st.frames[self.modules[mod]].items()):
                        if not k.startswith("_"):
                            self.set_name(k, v, st, fr, s)
                    continue
                v = st.frames[self.modules[mod]].get(a.name)
                if v is None:
                    if self.import_in(st, f"{mod}.{a.name}"):
                        v = ModV(f"{mod}.{a.name}")
                    else:
                        self.py_raise(st, "ImportError", s, f"{mod}.{a.name}")
                self.set_name(a.asname or a.name, v, st, fr, s)
        else:
            for a in s.names:
                self.set_name(a.asname or a.name, self.ext_attr(ExtV(mod), a.name, s), st, fr, s)

    # -- exceptions
    def exc_names(self, exc, st=None):
        return (self.exc_name(exc, st),)

    def exc_name(self, exc, st=None):
        if isinstance(exc, Ref):
            if exc.oid in self.exc_objs:
                return self.exc_objs[exc.oid]
        if isinstance(exc, ClassV):
            return self.user_exc(exc)
        return getattr(exc, "name", None) or "?"

    exc_objs = {}

    def user_exc(self, cls):
        for c in self.mro(cls):
            if isinstance(c, ExtV):
                return c.name
        return "Exception"

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            if not self.cur_exc:
                self.py_raise(st, "RuntimeError", s)
            cur = self.cur_exc[-1]
            self.emit("reraise", st, s, exc=cur["names"], tryid=cur["tryid"])
            self.add_exit("raise", None, st, cur["value"], s)
            raise Dead()
        v = self.eval(s.exc, st, fr)
        if s.cause is not None:
            self.eval(s.cause, st, fr)
        if isinstance(v, (ExtV, ClassV)):
            v = self.call(st, v, [], {}, s)
        if isinstance(v, IteV) and s.cause is None:
            def one(a):
                return lambda x: self.exec_stmt(ast.copy_location(ast.Raise(exc=ast.copy_location(Given(a), s), cause=None), s), x, fr)
            if not self.branch(st, self.decide(st, v.cond), one(v.a), one(v.b)):
                raise Dead()
            return True
        if isinstance(v, Term) and (is_const(v) or T.ty(v) in ("str", "int", "bytes", "bool", "float")) or isinstance(v, TupleV):
            self.py_raise(st, "TypeError", s)
        for cur in self.cur_exc:
            if v == cur["value"]:
                self.emit("reraise", st, s, exc=cur["names"], tryid=cur["tryid"])
                self.add_exit("raise", None, st, v, s)
                raise Dead()
        self.emit("raise", st, s, exc=(self.exc_name(v, st),), value=v, how="explicit", again=self.caught_by.get(v.oid) if isinstance(v, Ref) else None)
        self.add_exit("raise", None, st, v, s)
        raise Dead()

    @staticmethod
    def jumps(stmts):
        """Whether a block may leave through return, break or continue of its own."""
        todo = [(x, False) for x in stmts]
        while todo:
            x, inloop = todo.pop()
            if isinstance(x, ast.Return) or isinstance(x, (ast.Break, ast.Continue)) and not inloop:
                return True
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            inloop = inloop or isinstance(x, (ast.For, ast.While))
            todo += [(y, inloop) for y in ast.iter_child_nodes(x) if isinstance(y, (ast.stmt, ast.excepthandler))]
        return False

    def s_Try(self, s, st, fr):
        if s.finalbody and self.jumps(s.finalbody):
            # Leaving a finally block that way drops the exception: as a handler for everything would.
            key = id(s)
            if key not in self.desugared:
                inner = ast.Try(body=s.body, handlers=s.handlers, orelse=s.orelse, finalbody=[]) if s.handlers else None
                h = ast.ExceptHandler(type=None, name=None, body=list(s.finalbody) + [ast.copy_location(ast.Raise(exc=None, cause=None), s.finalbody[-1])])
                ast.copy_location(h, s.finalbody[0])
                body = [ast.copy_location(inner, s)] if inner is not None else s.body
                quiet = ast.Try(body=body, handlers=[h], orelse=[], finalbody=[])
                self.desugared[key] = (s, ast.copy_location(quiet, s))
            s0, s = self.desugared[key]
            saved, self.exits = self.exits, []
            alive = self.s_Try(s, st, fr)
            mine, self.exits = self.exits, saved
            for x in mine:
                if x.kind == "raise":
                    self.exits.append(x)
                elif self.exec_block(s0.finalbody, x.state, fr):
                    self.exits.append(x)
            return alive and self.exec_block(s0.finalbody, st, fr)
        self._tid += 1
        tid = f"try{self._tid}"
        base = st.pc
        entry = st.clone()
        saved, self.exits = self.exits, []
        has_h = bool(s.handlers)
        tr = self.tries
        hnames = []
        for h in s.handlers:
            if h.type is None:
                hnames.append((h, list(getattr(h, "names", None) or ["BaseException"])))
            else:
                hv = self.eval(h.type, st, fr)
                for c, n in self.selected(hv, TRUE):
                    names = self.class_names(st, n)
                    if names:
                        hnames.append((h if c == TRUE else self.given_handler(h, c, fr), names))
        if has_h or s.finalbody:
            self.tries = tr + ((tid, "body"),)
        alive = self.exec_block(s.body, st, fr)
        self.tries = tr + ((tid, "else"),)
        body_exits = self.exits
        self.exits = []
        if alive and s.orelse:
            alive = self.exec_block(s.orelse, st, fr)
        else_exits = self.exits
        outs = [] if not alive else [(None, st.clone())]
        pending = [x for x in body_exits if x.kind != "raise"] + else_exits
        raises = [x for x in body_exits if x.kind == "raise"]
        handled = []
        first = (len(self.events), list(raises), list(pending))
        for turn in range(12):
            # A handler that asks for the type of what it caught is taken once for that type and once for the rest.
            asked = None
            handled = []
            raises, pending = list(first[1]), list(first[2])
            done = []
            for hi, (h, names) in enumerate(hnames):
                ask = {}
                raises = self.run_handler(hi, h, names, raises, entry, base, fr, tid, tr, pending, handled, done, ask)
                if ask and asked is None:
                    asked = (hi, h, names, next(iter(ask)))
                    break
                done = done + list(names)
            if asked is None:
                break
            if turn == 11:
                self.emit("unsupported", entry, s, what="exception dispatch")
                break
            hi, h, names, x = asked
            hnames[hi:hi + 1] = [(h, [x]), (h, names)]
            del self.events[first[0]:]
        self.tries = tr
        pending = pending + raises
        # join
        acc = st.clone() if alive else None
        for hcond, hs in handled:
            acc = hs if acc is None else merge_states(hcond, hs, acc, base)
        self.exits = saved
        if s.finalbody:
            self.tries = tr + ((tid, "final"),)
            for x in pending:
                if x.implicit:
                    self.exits.append(x)
                    continue
                ev_mark = len(self.events)
                if self.exec_block(s.finalbody, x.state, fr):
                    self.exits.append(x)
            res = False
            if acc is not None:
                st.become(acc)
                res = self.exec_block(s.finalbody, st, fr)
            self.tries = tr
            return res
        self.exits.extend(pending)
        if acc is None:
            return False
        st.become(acc)
        if st.pc != base and not [x for x in pending if not x.implicit]:
            st.pc = base
        return True

    s_TryStar = s_Try

    def selected(self, v, c):
        """The alternatives of a value with their conditions."""
        if isinstance(v, IteV):
            return self.selected(v.a, conj([c, v.cond])) + self.selected(v.b, conj([c, neg(v.cond)]))
        return [(c, v)]

    def given_handler(self, h, c, fr):
        """An except clause whose type was chosen by a condition: it passes on what it would not have caught."""
        def run(x, fr_):
            again = ast.copy_location(ast.Raise(exc=None, cause=None), h)
            return self.branch(x, self.decide(x, c), lambda a: self.exec_block(h.body, a, fr), lambda b: self.exec_stmt(again, b, fr))
        return ast.copy_location(ast.ExceptHandler(type=h.type, name=h.name, body=[ast.copy_location(Hook(run), h)]), h)

    def run_handler(self, hi, h, names, raises, entry, base, fr, tid, tr, pending, handled, done, ask):
        """One except clause; returns the raises that it leaves to the others."""
        mine = [x for x in raises if self.exc_caught(self.exc_name(x.value, x.state), names)]
        left = [x for x in raises if x not in mine]
        self.exits = []
        self.tries = tr + ((tid, f"handler{hi}"),)
        if mine:
            hs = entry.clone()
            self.join_exits(hs, False, mine, base)
            hs.become(hs.clone())
            hs.outer = entry.outer
            hcond = disj([conj([c for c in conjuncts(x.state.pc) if c not in conjuncts(base)]) for x in mine])
            hs.pc = conj([base, hcond])
        else:
            hs = entry.clone()
            hcond = Term("fails", "unmodelled", tid, hi)
            hs.pc = conj([base, hcond])
        val = mine[0].value if len(mine) == 1 else self.new(hs, ExtObj("exc", (self.exc_name(mine[0].value, mine[0].state) if mine else names[0], "")), h)
        self.cur_exc.append({"names": tuple(sorted({self.exc_name(x.value, x.state) for x in mine})) or tuple(names), "tryid": tid, "value": val})
        if h.name:
            hs.frames[fr][h.name] = val
        kinds = {self.exc_name(x.value, x.state) for x in mine}
        prev = self.handling.get(val.oid) if isinstance(val, Ref) else None
        if isinstance(val, Ref):
            self.handling[val.oid] = (kinds, tuple(names), tuple(done), ask)
            self.caught_by[val.oid] = (tid, f"handler{hi}")
        ok = self.exec_block(h.body, hs, fr)
        self.cur_exc.pop()
        if isinstance(val, Ref):
            self.handling.pop(val.oid)
            if prev is not None:
                self.handling[val.oid] = prev
        hx = self.exits
        self.emit("handler", entry, h, tryid=tid, part=f"handler{hi}", names=tuple(names), caught=[(self.exc_name(x.value, x.state), x.node, x.where, x.implicit) for x in mine],
                  completes=hs.pc if ok else FALSE, hcond=hcond, exits=[(x.kind, x.state.pc, x.implicit) for x in hx], base=base,
                  in_loops=self.loops)
        if mine:
            pending.extend(hx)
            if ok:
                handled.append((hcond, hs))
        else:
            pass  # never entered as far as the model knows
        return left

    def class_names(self, st, v):
        if isinstance(v, TupleV):
            return [n for x in v.items for n in self.class_names(st, x)]
        if isinstance(v, ExtV):
            return [v.name]
        if isinstance(v, ClassV):
            return [v.info.qualname]
        if isinstance(v, Ref):
            items = self.known_items(st, v)
            if items is not None:
                return [n for x in items for n in self.class_names(st, x)]
        return ["?"]

    def s_With(self, s, st, fr):
        return self.with_items(s, list(s.items), st, fr)

    def with_items(self, s, items, st, fr):
        if not items:
            return self.exec_block(s.body, st, fr)
        it, rest = items[0], items[1:]
        cm = self.eval(it.context_expr, st, fr)

        def body(x, entered):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, entered, x, fr)
            return self.with_items(s, rest, x, fr)
        return self.enter_with(st, cm, s, fr, body)

    def hooked(self, node, fr, body, names, keep, quiet=None):
        """A try statement around body whose handler for names goes on quietly where keep(state, exception) holds."""
        def on_error(x, fr_):
            cond = keep(x, self.cur_exc[-1]["value"])
            again = ast.copy_location(ast.Raise(exc=None, cause=None), node)

            def up(b):
                return self.exec_stmt(again, b, fr)
            return self.branch(x, self.decide(x, cond), lambda a: True, up)
        h = ast.ExceptHandler(type=None, name=None, body=[ast.copy_location(Hook(on_error), node)])
        h.names = names
        return ast.copy_location(ast.Try(body=[ast.copy_location(Hook(lambda x, fr_: body(x)), node)], handlers=[ast.copy_location(h, node)],
                                         orelse=[ast.copy_location(Hook(lambda x, fr_: quiet(x)), node)] if quiet else [], finalbody=[]), node)

    def e_Given(self, n, st, fr):
        return n.value

    def s_Hook(self, s, st, fr):
        return s.fn(st, fr)

    @staticmethod
    def may_swallow(ex):
        """Whether an __exit__ method may return something true."""
        f = getattr(ex, "info", None)
        body = getattr(getattr(f, "node", None), "body", None)
        if not isinstance(body, list):
            return body is not None
        return any(isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and not n.value.value)
                   for b in body for n in ast.walk(b))

    def quiet_choice(self, st, cm):
        """(names, condition) when a context manager swallows these exceptions under this condition, and does nothing else."""
        if isinstance(cm, IteV):
            a, b = self.quiet_choice(st, cm.a), self.quiet_choice(st, cm.b)
            if a is None or b is None:
                return None
            if a[1] != FALSE and b[1] != FALSE and a[0] != b[0]:
                return None
            names = a[0] if a[1] != FALSE else b[0]
            return names, disj([conj([cm.cond, a[1]]), conj([neg(cm.cond), b[1]])])
        o = self.obj(st, cm)
        if isinstance(o, ExtObj) and o.kind == "suppress":
            return list(o.data), (TRUE if o.data else FALSE)
        if isinstance(o, ExtObj) and o.kind == "nullcontext":
            return [], FALSE
        return None

    def enter_with(self, st, cm, node, fr, body):
        if isinstance(cm, IteV):
            ch = self.quiet_choice(st, cm)
            if ch is not None and ch[0]:
                v = NONE

                def entered(x):
                    return body(x, v)
                return self.s_Try(self.hooked(node, fr, entered, ch[0], lambda x, e: ch[1]), st, fr)
            return self.branch(st, self.decide(st, cm.cond), lambda a: self.enter_with(a, cm.a, node, fr, body), lambda b: self.enter_with(b, cm.b, node, fr, body))
        o = self.obj(st, cm)
        if isinstance(o, GenObj) and isinstance(o.func, FuncV) and o.func.info.contextmanager:
            hit = []

            def cb(x, v):
                hit.append(1)
                return body(x, v)
            return self.run_generator(st, cm, o, node, cb)
        if isinstance(o, ExtObj) and o.kind == "suppress":
            names = list(o.data)
            self._tid += 1
            tid = f"try{self._tid}"
            base, entry = st.pc, st.clone()
            saved, self.exits = self.exits, []
            tr = self.tries
            self.tries = tr + ((tid, "body"),)
            alive = body(st, cm)
            self.tries = tr
            mine = [x for x in self.exits if x.kind == "raise" and self.exc_caught(self.exc_name(x.value, x.state), names)]
            self.exits = saved + [x for x in self.exits if x not in mine]
            self.emit("handler", entry, node, tryid=tid, part="handler0", names=tuple(names), caught=[(self.exc_name(x.value, x.state), x.node, x.where, x.implicit) for x in mine],
                      completes=disj([x.state.pc for x in mine]), hcond=disj([x.state.pc for x in mine]), exits=[], base=base, in_loops=self.loops)
            return self.join_exits(st, alive, mine, base)
        self._tid += 1
        wid = f"with{self._tid}"
        tr = self.tries
        if isinstance(o, InstObj):
            ent = self.class_attr(st, o.cls, "__enter__")
            v = self.call(st, BoundV(ent, cm), [], {}, node) if ent is not None else cm
            ex = self.class_attr(st, o.cls, "__exit__")
            if ex is not None and self.may_swallow(ex):
                nones = [NONE, NONE, NONE]

                def keep(x, e):
                    c = self.classof(x, e)
                    return self.truth(x, self.call(x, BoundV(ex, cm), [c if c is not None else self.unknown(x, node, "exception type"), e, Term("call", "traceback", None)], {}, node), node)

                def quiet(x):
                    self.call(x, BoundV(ex, cm), list(nones), {}, node)
                    return True
                saved, self.exits = self.exits, []
                alive = self.s_Try(self.hooked(node, fr, lambda x: body(x, v), ["BaseException"], keep, quiet), st, fr)
                pend, self.exits = self.exits, saved
                for x in pend:
                    try:
                        if x.kind != "raise" and not x.implicit:
                            quiet(x.state)
                        self.exits.append(x)
                    except Dead:
                        pass
                return alive
            self.tries = tr + ((wid, "with"),)
            saved, self.exits = self.exits, []
            alive = body(st, v)
            pend = self.exits
            self.exits = saved
            self.tries = tr + ((wid, "final"),)
            ex = self.class_attr(st, o.cls, "__exit__")
            if ex is not None:
                nones = [NONE, NONE, NONE]
                for x in pend:
                    if x.implicit:
                        self.exits.append(x)
                        continue
                    try:
                        self.call(x.state, BoundV(ex, cm), list(nones), {}, node)
                        self.exits.append(x)
                    except Dead:
                        pass
                if alive:
                    self.call(st, BoundV(ex, cm), list(nones), {}, node)
            else:
                self.exits.extend(pend)
            self.tries = tr
            return alive
        if isinstance(o, ExtObj) and o.kind == "exitstack" and isinstance(cm, Ref) and cm.oid not in self.stack_regs:
            return self.with_stack(st, cm, node, fr, body)
        target = cm
        if isinstance(o, ExtObj) and o.kind == "closing":
            target = o.data[0]
        if isinstance(o, ExtObj) and o.kind == "nullcontext":
            return body(st, o.data[0])
        self.emit("with", st, node, obj=target, wid=wid)
        self.tries = tr + ((wid, "with"),)
        saved, self.exits = self.exits, []
        alive = body(st, target)
        self.tries = tr
        self.exits = saved + self.exits
        self.emit("close", st, node, obj=target, how="with", wid=wid, alive=alive)
        return alive

    def with_stack(self, st, cm, node, fr, body):
        """An ExitStack: a first pass over the block tells what it is given to leave through."""
        regs = self.stack_regs[cm.oid] = []
        saved, seen = (list(self.events), list(self.exits)), set(self.loopinfo)
        x = st.clone()
        try:
            body(x, cm)
        except Dead:
            pass
        for l in [l for l in self.loopinfo if l not in seen]:
            del self.loopinfo[l]
        self.events, self.exits = saved
        base = conjuncts(st.pc)
        quiet = []
        for pc, ch in regs:
            if ch[1] != FALSE:
                quiet.append((conj([c for c in conjuncts(pc) if c not in base] + [ch[1]]), sorted(ch[0])))
        try:
            if not quiet:
                return self.enter_with(st, cm, node, fr, body)
            names = quiet[0][1]
            if any(n != names for _, n in quiet):
                self.emit("unsupported", st, node, what="an ExitStack that suppresses different exceptions")
            cond = disj([c for c, _ in quiet])
            return self.s_Try(self.hooked(node, fr, lambda z: body(z, cm), names, lambda z, e: cond), st, fr)
        finally:
            del self.stack_regs[cm.oid]

    s_AsyncWith = s_With

    def s_Match(self, s, st, fr):
        subj = self.eval(s.subject, st, fr)

        def run(x, cases):
            if not cases:
                return True
            c = cases[0]
            try:
                g, binds = self.match_pattern(x, subj, c.pattern, fr, s)
            except NotImplementedError:
                self.emit("unsupported", x, s, what="match pattern")
                return True
            g = self.decide(x, g)

            def yes(y):
                for n, v in binds:
                    self.set_name(n, v, y, fr, s)
                if c.guard is not None:
                    return self.branch(y, self.cond(c.guard, y, fr), lambda z: self.exec_block(c.body, z, fr), lambda z: run(z, cases[1:]))
                return self.exec_block(c.body, y, fr)
            return self.branch(x, g, yes, lambda y: run(y, cases[1:]))
        return run(st, s.cases)

    def match_pattern(self, st, v, p, fr, node):
        if isinstance(p, ast.MatchValue):
            return self.truth(st, self.compare_op("Eq", v, self.eval(p.value, st, fr), st, node), node), []
        if isinstance(p, ast.MatchSingleton):
            return self.truth(st, self.compare_op("Is", v, const(p.value), st, node), node), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, ([(p.name, v)] if p.name else [])
            g, b = self.match_pattern(st, v, p.pattern, fr, node)
            return g, b + ([(p.name, v)] if p.name else [])
        if isinstance(p, ast.MatchOr):
            gs = [self.match_pattern(st, v, q, fr, node) for q in p.patterns]
            return disj([g for g, _ in gs]), gs[0][1]
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinstance_cond(st, v, self.eval(p.cls, st, fr), node), []
        if isinstance(p, ast.MatchClass) and len(p.patterns) == 1 and not p.kwd_patterns:
            g, b = self.match_pattern(st, v, p.patterns[0], fr, node)
            return conj([self.isinstance_cond(st, v, self.eval(p.cls, st, fr), node), g]), b
        if isinstance(p, ast.MatchSequence):
            items = self.known_items(st, v)
            if items is not None and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
                if len(items) != len(p.patterns):
                    return FALSE, []
                gs = [self.match_pattern(st, i, q, fr, node) for i, q in zip(items, p.patterns)]
                return conj([g for g, _ in gs]), [b for _, bs in gs for b in bs]
        raise NotImplementedError

    # ------------------------------------------------------------------------------------------ expressions
    def eval(self, n, st, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return self.unknown(st, n, f"unsupported expression {type(n).__name__}")
        if hasattr(n, "lineno"):
            self._nodeline = n.lineno
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        if n.value is Ellipsis:
            return ExtV("Ellipsis")
        return const(n.value)

    def e_Name(self, n, st, fr):
        v = self.find_name(n.id, st, fr)
        if v is None:
            v = self.builtin(n.id)
        if v is None:
            if self.finfo[fr].kind in ("func", "comp") and n.id != "__class__":
                self.py_raise(st, "NameError", n, n.id)
            return self.unknown(st, n, f"name {n.id}")
        v = self.settle(st, v)
        if isinstance(v, IteV) and (v.a == UNDEF or v.b == UNDEF):
            v = v.b if v.a == UNDEF else v.a
        if v == UNDEF:
            self.py_raise(st, "NameError", n, n.id)
        return v

    def settle(self, st, v):
        """The alternative of a value that holds on this path, when the path tells."""
        while isinstance(v, IteV):
            c = self.decide(st, v.cond)
            if c not in (TRUE, FALSE):
                break
            v = v.a if c == TRUE else v.b
        return v

    def find_name(self, name, st, fr):
        fi = self.finfo[fr]
        if name not in fi.globals:
            if name in st.frames.get(fr, ()):
                return st.frames[fr][name]
            for f in fi.closure:
                if name in st.frames.get(f, ()):
                    return st.frames[f][name]
        g = st.frames[self.modules[fi.module]]
        return g.get(name)

    def e_NamedExpr(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        f = fr
        while self.finfo[f].kind == "comp":
            f = self.finfo[f].closure[0]
        self.set_name(n.target.id, v, st, f, n)
        return v

    def e_Attribute(self, n, st, fr):
        o = self.eval(n.value, st, fr)
        return self.getattr(st, o, n.attr, n)

    def e_Tuple(self, n, st, fr):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st, fr)
                items = self.drawn_items(st, v, n)
                if items is None:
                    return self.unknown(st, n, "unpacking an unknown sequence")
                out.extend(items)
            else:
                out.append(self.eval(e, st, fr))
        return TupleV(tuple(out))

    def e_List(self, n, st, fr):
        out = self.new(st, ListObj(()), n)
        for e in n.elts:
            if isinstance(e, ast.Starred):
                self.list_extend(st, out, self.eval(e.value, st, fr), n)
            else:
                self.list_append(st, out, self.eval(e, st, fr), n)
        return out

    def e_Set(self, n, st, fr):
        out = self.new(st, ListObj((), "set"), n)
        for e in n.elts:
            self.list_append(st, out, self.eval(e, st, fr), n)
        return out

    def e_Dict(self, n, st, fr):
        out = self.new(st, DictObj(()), n)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(st, out, self.eval(v, st, fr), n)
            else:
                kv = self.eval(k, st, fr)
                self.setitem(st, out, kv, self.eval(v, st, fr), n)
        return out

    def e_BoolOp(self, n, st, fr):
        is_and = isinstance(n.op, ast.And)

        def go(s, i):
            v = self.eval(n.values[i], s, fr)
            if i == len(n.values) - 1:
                return v
            c = self.decide(s, self.truth(s, v, n))
            if is_and:
                return self.fork(s, c, lambda x: go(x, i + 1), lambda x: v if c != FALSE or not isinstance(v, Term) else v)
            return self.fork(s, c, lambda x: v, lambda x: go(x, i + 1))
        return self.boolify(n, go(st, 0), st)

    def boolify(self, n, v, st):
        return v

    def e_UnaryOp(self, n, st, fr):
        v = self.eval(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return neg(self.decide(st, self.truth(st, v, n)))
        if isinstance(v, Term):
            if isinstance(n.op, ast.USub) and T.is_num(v):
                return T.sub(ZERO, v)
            if isinstance(n.op, ast.UAdd):
                return v
            if isinstance(n.op, ast.Invert) and T.is_num(v):
                return T.sub(T.sub(ZERO, v), ONE)
            if is_const(v) and isinstance(n.op, ast.USub):
                return const(-cval(v))
        return self.unknown(st, n, "unary operation")

    def e_BinOp(self, n, st, fr):
        a = self.eval(n.left, st, fr)
        b = self.eval(n.right, st, fr)
        return self.binop(type(n.op).__name__, a, b, st, n)

    def e_Compare(self, n, st, fr):
        left = self.eval(n.left, st, fr)

        def go(s, left, i):
            right = self.eval(n.comparators[i], s, fr)
            r = self.compare_op(type(n.ops[i]).__name__, left, right, s, n)
            if i == len(n.ops) - 1:
                return r
            c = self.decide(s, self.truth(s, r, n))
            return self.fork(s, c, lambda x: go(x, right, i + 1), lambda x: FALSE)
        return go(st, left, 0)

    def e_IfExp(self, n, st, fr):
        c = self.cond(n.test, st, fr)
        return self.fork(st, c, lambda s: self.eval(n.body, s, fr), lambda s: self.eval(n.orelse, s, fr))

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(const(p.value))
            else:
                v = self.eval(p.value, st, fr)
                if p.format_spec is not None or p.conversion not in (-1, 115):
                    spec = self.eval(p.format_spec, st, fr) if p.format_spec is not None else const("")
                    v = self.format_value(st, v, spec, p.conversion, n)
                else:
                    v = self.to_str(st, v, n)
                parts.append(v)
        return self.strcat(parts)

    def e_FormattedValue(self, n, st, fr):
        return self.to_str(st, self.eval(n.value, st, fr), n)

    def e_Starred(self, n, st, fr):
        return self.eval(n.value, st, fr)

    def eval_index(self, n, st, fr):
        if isinstance(n, ast.Slice):
            return SeqV("sl", tuple(self.eval(x, st, fr) if x is not None else NONE for x in (n.lower, n.upper, n.step)))
        return self.eval(n, st, fr)

    def e_Subscript(self, n, st, fr):
        o = self.eval(n.value, st, fr)
        k = self.eval_index(n.slice, st, fr)
        return self.getitem(st, o, k, n)

    def e_Slice(self, n, st, fr):
        return self.eval_index(n, st, fr)

    def e_Call(self, n, st, fr):
        f = self.eval(n.func, st, fr)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fr)
                items = self.drawn_items(st, v, n)
                if items is None:
                    args.append(SeqV("star", (v,)))
                else:
                    args.extend(items)
            else:
                args.append(self.eval(a, st, fr))
        kws = [(k.arg, self.eval(k.value, st, fr)) for k in n.keywords]
        return self.spread(st, kws, {}, lambda s, kw: self.do_call(s, f, args, kw, n, fr))

    def spread(self, st, kws, kwargs, then):
        """Complete keyword arguments, one alternative of each conditional ** mapping at a time."""
        for n, (name, v) in enumerate(kws):
            if name is not None:
                kwargs[name] = v
                continue
            if isinstance(v, IteV):
                return self.lift(st, v, lambda s, x: self.spread(s, [(None, x)] + kws[n + 1:], dict(kwargs), then))
            o = self.obj(st, v)
            if not isinstance(o, DictObj) or o.prev or o.base is not None or not all(is_const(k, str) for k, _, _ in o.entries):
                kwargs["**"] = v
                continue
            for j, (k, g, x) in enumerate(o.entries):
                if g != TRUE:
                    rest = [(cval(k2), x2) if g2 == TRUE else (None, self.new(st, replace(o, entries=((k2, g2, x2),)), None)) for k2, g2, x2 in o.entries[j + 1:]] + kws[n + 1:]
                    return self.fork(st, self.decide(st, g), lambda s: self.spread(s, [(cval(k), x)] + rest, dict(kwargs), then),
                                     lambda s: self.spread(s, rest, dict(kwargs), then))
                kwargs[cval(k)] = x
        return then(st, kwargs)

    def do_call(self, st, f, args, kwargs, n, fr):
        if isinstance(f, ExtV) and f.name == "super" and not args:
            return self.make_super(st, fr, n)
        if isinstance(f, ExtV) and f.name in ("locals", "vars", "globals", "eval", "exec"):
            self.cur_frame = fr
        return self.call(st, f, args, kwargs, n)

    def make_super(self, st, fr, n):
        f = fr
        while self.finfo[f].fn is None and self.finfo[f].closure:
            f = self.finfo[f].closure[0]
        fn = self.finfo[f].fn
        cls = getattr(fn, "defcls", None) if fn else None
        if cls is None or not fn.node.args.args:
            return self.unknown(st, n, "super()")
        return BoundV(SeqV("super", (cls,)), st.frames[f][fn.node.args.args[0].arg])

    # ------------------------------------------------------------------------------------------ calls
    def call(self, st, f, args, kwargs, node):
        if isinstance(f, IteV):
            return self.lift(st, f, lambda s, g: self.call(s, g, args, kwargs, node))
        if isinstance(f, BoundV):
            return self.call(st, f.func, [f.self] + args, kwargs, node)
        if isinstance(f, PartialV):
            return self.call(st, f.func, list(f.args) + args, {**dict(f.kwargs), **kwargs}, node)
        if isinstance(f, WrapV):
            return self.call(st, f.func, args, kwargs, node)
        if isinstance(f, FuncV):
            return self.call_func(st, f, args, kwargs, node)
        if isinstance(f, ClassV):
            return self.instantiate(st, f, args, kwargs, node)
        if isinstance(f, Ref):
            o = st.heap.get(f.oid)
            if isinstance(o, InstObj):
                m = self.class_attr(st, o.cls, "__call__")
                if m is not None:
                    return self.call(st, BoundV(m, f), args, kwargs, node)
        return self.call_ext(st, f, args, kwargs, node)

    def bind(self, st, f, args, kwargs, node):
        info = f.info
        a = info.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        if any(isinstance(x, SeqV) and x.kind == "star" for x in pos):
            for x in names + [x.arg for x in a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else []):
                env[x] = self.unknown(st, node, "argument unpacked from an unknown sequence")
            return env
        for n, v in zip(names, pos):
            env[n] = v
        extra = pos[len(names):]
        if extra and not a.vararg:
            self.py_raise(st, "TypeError", node, f"too many arguments for {info.qualname}")
        if a.vararg:
            env[a.vararg.arg] = TupleV(tuple(extra))
        kw = dict(kwargs)
        unk = kw.pop("**", None)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in env:
                    self.py_raise(st, "TypeError", node, f"repeated argument {n} for {info.qualname}")
                env[n] = kw.pop(n)
        nd = len(info.defaults)
        for n, d in zip(names[len(names) - nd:], info.defaults):
            if n not in env:
                env[n] = d if unk is None else self.unknown(st, node, "argument from an unknown mapping")
        for x, d in zip(a.kwonlyargs, info.kwdefaults):
            if x.arg not in env and d is not None:
                env[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if unk is not None:
                    env[n] = self.unknown(st, node, "argument from an unknown mapping")
                else:
                    self.py_raise(st, "TypeError", node, f"missing argument {n} of {info.qualname}")
        if a.kwarg:
            env[a.kwarg.arg] = self.new(st, DictObj(tuple((const(k), TRUE, v) for k, v in kw.items())), node)
        elif kw:
            self.py_raise(st, "TypeError", node, f"unexpected argument {sorted(kw)} for {info.qualname}")
        return env

    def call_func(self, st, f, args, kwargs, node):
        info = f.info
        stub = self.stubs.get(info.qualname)
        env = self.bind(st, f, args, kwargs, node)
        if stub is not None:
            r = stub(self, st, env, node)
            if r is not NotImplemented:
                return r
        if info.is_gen:
            if info.contextmanager or True:
                return self.new(st, GenObj(f, tuple(env.items())), node)
        active = sum(1 for _, q in self.where if q == info.qualname)
        if self.depth > self.MAX_DEPTH or active > 25 or (active > 1 and any(T.unknowns(a) for a in env.values())):
            self.emit("unsupported", st, node, what=f"recursion too deep at {info.qualname}")
            return self.unknown(st, node, "recursion too deep")
        fid = self.new_frame(st, info.module, info.qualname, f.closure, "func", env)
        self.finfo[fid].fn = info
        base = st.pc
        saved, self.exits = self.exits, []
        self.where.append((self.paths.get(info.module, info.module), info.qualname))
        self.depth += 1
        self.entered[info.qualname] = self.entered.get(info.qualname, 0) + 1
        tags, self._tags = self._tags, ()
        n_ev = len(self.events)
        cached_from = self._oid
        try:
            alive = self.exec_block(info.node.body, st, fid)
        finally:
            self.where.pop()
            self.depth -= 1
            self._tags = tags
        rets = self.take_exits(saved, lambda e: e.kind == "return" and e.target == fid)
        if not rets and not alive:
            raise Dead()
        acc, val = (st.clone(), NONE) if alive else (None, None)
        bc = conjuncts(base)
        for x in reversed(rets):
            rel = conj([c for c in conjuncts(x.state.pc) if c not in bc])
            if acc is None:
                acc, val = x.state, x.value
            else:
                acc = merge_states(rel, x.state, acc, base)
                val = merge_val(rel, x.value, val)
        st.become(acc)
        if all(x.implicit for x in self.exits[len(saved):]):
            st.pc = base
        if not self.finfo[fid].keep:
            st.frames.pop(fid, None)
        if info.cached:
            kept = [o for o in self.reach(st, val) if self.alloc[o].phase == "run"]
            self.memo.update({o: info.qualname for o in kept})
            self.emit("cached", st, node, func=info.qualname, args=[self.snap(st, a) for a in args], result=self.snap(st, val), mutable=kept,
                      byref=sorted(set().union(*[self.reach(st, a) for a in args]) if args else ()), reads=[e for e in self.events[n_ev:] if e.kind in ("read", "stream", "open")])
        return val


def seg_count(o):
    """The number of items of a list, if every one is there for sure."""
    tot = ZERO
    for s in o.segs:
        if isinstance(s, Item) and s.guard == TRUE:
            tot = T.add(tot, ONE)
        elif isinstance(s, PrevSeg):
            tot = T.add(tot, s.n if s.n is not None else Term("plen", s.loop, s.oid))
        elif isinstance(s, LoopSeg) and s.guard == TRUE and not s.breaks and s.trip is not None and all(isinstance(i, Item) and i.guard == TRUE for i in s.items):
            tot = T.add(tot, T.mul(s.trip, const(len(s.items))))
        else:
            return None
    return tot


def guard_without(x, drop):
    if isinstance(x, PrevSeg) or not drop:
        return x
    return replace(x, guard=conj([c for c in conjuncts(x.guard) if c not in drop]))


def walk_scope(stmts):
    """Nodes of a function body without nested functions."""
    todo = list(stmts)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                todo.append(c)
            elif isinstance(c, ast.GeneratorExp):
                todo.append(c.generators[0].iter)

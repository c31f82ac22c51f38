"""Structured abstract values, heap objects, states and joins."""
from __future__ import annotations

from dataclasses import dataclass, field, replace

from sa import terms as T
from sa.terms import FALSE, TRUE, Term, conj, disj, neg


class V:
    """Base of the non-scalar abstract values."""
    def subvals(self):
        return ()

    def show(self):
        return repr(self)


@dataclass(frozen=True)
class TupleV(V):
    items: tuple

    def subvals(self):
        return self.items

    def subst(self, m):
        return TupleV(tuple(T.subst(x, m) for x in self.items))


@dataclass(frozen=True)
class IteV(V):
    cond: Term
    a: object
    b: object

    def subvals(self):
        return (self.cond, self.a, self.b)

    def subst(self, m):
        return merge_val(T.subst(self.cond, m), T.subst(self.a, m), T.subst(self.b, m))


@dataclass(frozen=True)
class Ref(V):
    oid: int


class FuncInfo:
    def __init__(self, node, module, qualname, defaults, kwdefaults, is_gen, phase):
        self.node, self.module, self.qualname = node, module, qualname
        self.defaults, self.kwdefaults, self.is_gen, self.phase = defaults, kwdefaults, is_gen, phase
        self.cached = False
        self.contextmanager = False

    def __repr__(self):
        return self.qualname


@dataclass(frozen=True)
class FuncV(V):
    info: FuncInfo
    closure: tuple = ()

    def show(self):
        return self.info.qualname


@dataclass(frozen=True)
class BoundV(V):
    func: object
    self: object


@dataclass(frozen=True)
class WrapV(V):
    """staticmethod / classmethod / property found in a class body."""
    kind: str
    func: object


@dataclass(frozen=True)
class PartialV(V):
    func: object
    args: tuple
    kwargs: tuple


@dataclass(frozen=True)
class ExtV(V):
    """Something of the standard library, by dotted name."""
    name: str

    def show(self):
        return self.name


@dataclass(frozen=True)
class ExtBound(V):
    """A method of an object that is not user code."""
    name: str
    self: object


@dataclass(frozen=True)
class ModV(V):
    name: str


class ClassInfo:
    def __init__(self, name, qualname, module, bases, node, oid):
        self.name, self.qualname, self.module, self.bases, self.node, self.oid = name, qualname, module, bases, node, oid
        self.layout = None

    def __repr__(self):
        return self.qualname


@dataclass(frozen=True)
class ClassV(V):
    info: ClassInfo

    def show(self):
        return self.info.qualname


@dataclass(frozen=True)
class SimpleCT(V):
    kind: str  # u1 i1 u2 ... f4 f8 c1 b1, optionally '>' prefixed

    def show(self):
        return self.kind


@dataclass(frozen=True)
class ArrayCT(V):
    elem: object
    n: Term

    def subvals(self):
        return (self.n,)

    def subst(self, m):
        return ArrayCT(T.subst(self.elem, m) if isinstance(self.elem, ArrayCT) else self.elem, T.subst(self.n, m))


@dataclass(frozen=True)
class FieldV(V):
    """ctypes field descriptor."""
    cls: ClassV
    name: str


@dataclass(frozen=True)
class ViewV(V):
    """A nested structure or array inside a buffer."""
    buf: int
    cls: object
    off: Term

    def subvals(self):
        return (self.off,)

    def subst(self, m):
        return ViewV(self.buf, self.cls, T.subst(self.off, m))


@dataclass(frozen=True)
class SelV(V):
    """An element selected from a known mapping (or module) by a key that is only known symbolically."""
    options: tuple  # of (key, value), sorted as in the mapping
    key: Term

    def subvals(self):
        return (self.key,)

    def subst(self, m):
        return SelV(self.options, T.subst(self.key, m))


# Sequences that are only described.
@dataclass(frozen=True)
class RangeV(V):
    start: Term
    stop: object  # Term or None
    step: Term

    def subvals(self):
        return tuple(x for x in (self.start, self.stop, self.step) if x is not None)

    def subst(self, m):
        return RangeV(T.subst(self.start, m), T.subst(self.stop, m) if self.stop is not None else None, T.subst(self.step, m))


@dataclass(frozen=True)
class SeqV(V):
    """A lazy wrapper around other iterables: enumerate, zip, map, filter, slice, chain, reversed, takewhile, items..."""
    kind: str
    args: tuple

    def subvals(self):
        return tuple(a for a in self.args if isinstance(a, (Term, V)))

    def subst(self, m):
        return SeqV(self.kind, tuple(T.subst(a, m) if isinstance(a, (Term, V)) else a for a in self.args))


@dataclass(frozen=True)
class ParamSeq(V):
    """An input sequence of unknown length; elements are made by interp.param_elem."""
    name: object  # str or Term
    kind: object = None

    @property
    def length(self):
        return Term("len", Term("seq", self.name))

    def subvals(self):
        return (self.name,) if isinstance(self.name, Term) else ()

    def subst(self, m):
        return ParamSeq(T.subst(self.name, m), self.kind)


UNDEF = ExtV("<undefined>")


# ------------------------------------------------------------------------------------------------ heap objects
@dataclass(frozen=True)
class Item:
    guard: Term
    value: object


@dataclass(frozen=True)
class LoopSeg:
    guard: Term
    space: str
    trip: object  # Term or None (unbounded)
    items: tuple  # of Item
    breaks: tuple = ()  # conditions in iter(space) ending the loop


@dataclass(frozen=True)
class PrevSeg:
    """What earlier iterations of a loop added to a list."""
    loop: str
    oid: int = -1
    n: object = None  # how many items, when that is known


@dataclass(frozen=True)
class ListObj:
    segs: tuple
    kind: str = "list"  # list, deque, bytearray-like things are not lists


@dataclass(frozen=True)
class DictObj:
    entries: tuple  # of (key, guard, value)
    prev: str = ""  # loop whose earlier iterations may have added keys
    kind: str = "dict"
    base: object = None  # Term naming an unknown mapping this one started as
    rows: tuple = ()  # list segments of all (key, value) pairs in order, for a mapping filled by a loop

    def get(self, k):
        for key, g, v in self.entries:
            if key == k:
                return g, v
        return None

    def set(self, k, v):
        out, done = [], False
        for key, g, old in self.entries:
            if key == k:
                out.append((key, TRUE, v))
                done = True
            else:
                out.append((key, g, old))
        if not done:
            out.append((k, TRUE, v))
        return replace(self, entries=tuple(out), rows=())

    def delete(self, k):
        return replace(self, entries=tuple(e for e in self.entries if e[0] != k), rows=())


@dataclass(frozen=True)
class InstObj:
    cls: ClassV
    attrs: tuple = ()  # of (name, value)


@dataclass(frozen=True)
class ClassObj:
    attrs: tuple = ()


@dataclass(frozen=True)
class StructObj:
    cls: object  # ClassV or ArrayCT
    buf: int
    off: Term
    attrs: tuple = ()


@dataclass(frozen=True)
class BufObj:
    root: Term
    base: Term
    size: Term
    over: tuple = ()  # of ((offset, kind), value)
    mutable: bool = True


@dataclass(frozen=True)
class StreamObj:
    name: str
    pos: Term


@dataclass(frozen=True)
class GenObj:
    func: object
    frame: tuple  # ((name, value), ...)
    fid: int = 0
    consumed: bool = False


@dataclass(frozen=True)
class IterObj:
    seq: object
    pos: Term


@dataclass(frozen=True)
class ExtObj:
    """Instance of a standard library class we only track by calls made on it."""
    kind: str
    data: tuple = ()


def aget(attrs, name):
    for k, v in attrs:
        if k == name:
            return v
    return None


def aset(attrs, name, v):
    out, done = [], False
    for k, o in attrs:
        if k == name:
            out.append((k, v))
            done = True
        else:
            out.append((k, o))
    if not done:
        out.append((name, v))
    return tuple(out)


# ------------------------------------------------------------------------------------------------ joins
def merge_val(c, a, b):
    if a is b or a == b:
        return a
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a is UNDEF or a == UNDEF:
        return b
    if b is UNDEF or b == UNDEF:
        return a
    if isinstance(a, Term) and isinstance(b, Term):
        return T.ite(c, a, b)
    if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.items) == len(b.items):
        return TupleV(tuple(merge_val(c, x, y) for x, y in zip(a.items, b.items)))
    if c.op == "not":
        return merge_val(c.args[0], b, a)
    if isinstance(a, IteV) and a.cond == c:
        a = a.a
    if isinstance(b, IteV) and b.cond == c:
        b = b.b
    if a == b:
        return a
    return IteV(c, a, b)


def guard_seg(c, s):
    if isinstance(s, PrevSeg):
        return s
    return replace(s, guard=conj([c, s.guard]))


def merge_obj(c, a, b):
    if a is b or a == b:
        return a
    if isinstance(a, ListObj) and isinstance(b, ListObj):
        n = 0
        while n < len(a.segs) and n < len(b.segs) and a.segs[n] == b.segs[n]:
            n += 1
        ra, rb = a.segs[n:], b.segs[n:]
        if len(ra) == len(rb) and all(isinstance(x, Item) and isinstance(y, Item) and x.guard == y.guard for x, y in zip(ra, rb)):
            rest = tuple(Item(x.guard, merge_val(c, x.value, y.value)) for x, y in zip(ra, rb))
        elif any(isinstance(x, PrevSeg) for x in ra + rb):
            return ListObj((Item(TRUE, T.opaque("joined lists")),), a.kind)
        else:
            rest = tuple(guard_seg(c, x) for x in ra) + tuple(guard_seg(neg(c), y) for y in rb)
        return ListObj(a.segs[:n] + rest, a.kind)
    if isinstance(a, DictObj) and isinstance(b, DictObj):
        ents = []
        db = {k: (g, v) for k, g, v in b.entries}
        for k, g, v in a.entries:
            if k in db:
                g2, v2 = db.pop(k)
                ents.append((k, disj([conj([c, g]), conj([neg(c), g2])]) if g != g2 else g, merge_val(c, v, v2)))
            else:
                ents.append((k, conj([c, g]), v))
        for k, g, v in b.entries:
            if k in db:
                ents.append((k, conj([neg(c), g]), v))
        return DictObj(tuple(ents), a.prev or b.prev, a.kind, a.base if a.base == b.base else T.opaque("joined dictionaries"))
    if isinstance(a, InstObj) and isinstance(b, InstObj) and a.cls == b.cls:
        return InstObj(a.cls, merge_attrs(c, a.attrs, b.attrs))
    if isinstance(a, ClassObj) and isinstance(b, ClassObj):
        return ClassObj(merge_attrs(c, a.attrs, b.attrs))
    if isinstance(a, StructObj) and isinstance(b, StructObj) and a.cls == b.cls and a.buf == b.buf and a.off == b.off:
        return replace(a, attrs=merge_attrs(c, a.attrs, b.attrs))
    if isinstance(a, BufObj) and isinstance(b, BufObj):
        if (a.root, a.base, a.size) == (b.root, b.base, b.size):
            keys = [k for k, _ in a.over] + [k for k, _ in b.over if k not in dict(a.over)]
            da, db = dict(a.over), dict(b.over)
            over = []
            for k in keys:
                dflt = Term("load", a.root, T.add(a.base, k[0]), k[1])
                over.append((k, merge_val(c, da.get(k, dflt), db.get(k, dflt))))
            return replace(a, over=tuple(over))
        return BufObj(T.opaque("joined buffers"), T.ZERO, a.size)
    if isinstance(a, StreamObj) and isinstance(b, StreamObj):
        return StreamObj(a.name, T.ite(c, a.pos, b.pos))
    if isinstance(a, GenObj) and isinstance(b, GenObj):
        return replace(a, consumed=a.consumed or b.consumed)
    if isinstance(a, IterObj) and isinstance(b, IterObj) and a.seq == b.seq:
        return IterObj(a.seq, T.ite(c, a.pos, b.pos))
    return ExtObj("unknown", (T.opaque("joined objects"),))


def merge_attrs(c, a, b):
    da, db = dict(a), dict(b)
    out = []
    for k, v in a:
        out.append((k, merge_val(c, v, db[k]) if k in db else IteV(c, v, UNDEF)))
    for k, v in b:
        if k not in da:
            out.append((k, IteV(c, UNDEF, v)))
    return tuple(out)


# ------------------------------------------------------------------------------------------------ state
class State:
    __slots__ = ("frames", "heap", "pc", "outer")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.pc = TRUE
        self.outer = ()

    def clone(self):
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.outer = self.outer
        return s

    def become(self, o):
        self.frames, self.heap, self.pc, self.outer = o.frames, o.heap, o.pc, o.outer


def conjuncts(c):
    return list(c.args[0]) if c.op == "and" else ([] if c == TRUE else [c])


def merge_states(c, a, b, base_pc=None):
    """Join of two states; c holds in a and not in b."""
    if a is None:
        return b
    if b is None:
        return a
    s = State()
    s.outer = a.outer
    for fid in list(a.frames) + [f for f in b.frames if f not in a.frames]:
        fa, fb = a.frames.get(fid), b.frames.get(fid)
        if fa is None or fb is None:
            s.frames[fid] = dict(fa if fb is None else fb)
            continue
        if fa == fb:
            s.frames[fid] = dict(fa)
            continue
        fr = {}
        for n in list(fa) + [n for n in fb if n not in fa]:
            fr[n] = merge_val(c, fa.get(n, UNDEF), fb.get(n, UNDEF))
        s.frames[fid] = fr
    for oid in list(a.heap) + [o for o in b.heap if o not in a.heap]:
        x, y = a.heap.get(oid), b.heap.get(oid)
        s.heap[oid] = x if y is None else y if x is None else merge_obj(c, x, y)
    if base_pc is None:
        base_pc = TRUE
    bc = conjuncts(base_pc)
    ra = [x for x in conjuncts(a.pc) if x not in bc and x != c and x not in conjuncts(c)]
    nc = neg(c)
    rb = [x for x in conjuncts(b.pc) if x not in bc and x != nc and x not in conjuncts(nc)]
    if not ra and not rb:
        s.pc = base_pc
    elif not ra:
        s.pc = conj([base_pc, disj([c, conj(rb)])])
    elif not rb:
        s.pc = conj([base_pc, disj([nc, conj(ra)])])
    else:
        s.pc = conj([base_pc, disj([conj([c] + ra), conj([nc] + rb)])])
    return s

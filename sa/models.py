"""Models of builtins and of the standard library pieces the package uses: values, containers, ctypes, streams."""
from __future__ import annotations

import ast
import gzip
import io
import re
import builtins
import codecs
import collections
import operator
import struct as pystruct
from dataclasses import replace

from sa import terms as T
from sa.terms import FALSE, NONE, ONE, TRUE, ZERO, Term, conj, const, cval, disj, is_const, neg
from sa.values import *  # noqa: F401,F403
from sa.values import UNDEF, aget, aset

CT = {
    "c_byte": "i1", "c_ubyte": "u1", "c_char": "c1", "c_short": "i2", "c_ushort": "u2", "c_int": "i4", "c_uint": "u4",
    "c_long": "i8", "c_ulong": "u8", "c_longlong": "i8", "c_ulonglong": "u8", "c_int8": "i1", "c_uint8": "u1",
    "c_int16": "i2", "c_uint16": "u2", "c_int32": "i4", "c_uint32": "u4", "c_int64": "i8", "c_uint64": "u8",
    "c_size_t": "u8", "c_ssize_t": "i8", "c_float": "f4", "c_double": "f8", "c_bool": "b1", "c_void_p": "u8",
    "c_time_t": "i8",
}
STRUCT_BASES = {"ctypes.Structure", "ctypes.LittleEndianStructure", "ctypes.BigEndianStructure", "ctypes.Union"}
BUILTINS = {
    "len", "range", "enumerate", "zip", "map", "filter", "isinstance", "issubclass", "getattr", "setattr", "hasattr", "delattr",
    "int", "str", "bytes", "bytearray", "memoryview", "list", "tuple", "dict", "set", "frozenset", "any", "all", "sum", "min",
    "max", "abs", "sorted", "reversed", "iter", "next", "print", "open", "repr", "hex", "type", "id", "callable", "divmod",
    "ord", "chr", "bool", "float", "round", "super", "object", "vars", "dir", "hash", "format", "property", "staticmethod",
    "classmethod", "locals", "globals", "eval", "exec", "compile", "__import__", "input", "slice", "pow", "bin", "oct", "ascii",
    "NotImplemented", "complex", "exit", "quit", "breakpoint", "help",
}
KNOWN_CHANGING = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "swapcase", "replace", "zfill", "ljust",
                  "rjust", "center", "casefold", "expandtabs", "translate", "removeprefix", "removesuffix"}


TURN = ("iter", "phi", "phiroot", "plen", "loopout", "exists", "loopexit")


def load_size(k):
    if isinstance(k, tuple):
        return k[1] if isinstance(k[1], int) else None
    n = k.lstrip(">").split(":")[0][1:]
    return int(n) if n.isdigit() else None


def one_to_one(k, space):
    """Whether index k differs from each iteration of the space to any other."""
    it = Term("iter", space)
    if not isinstance(k, Term):
        return False
    if k.op == "call" and k.args[0] in ("sortidx", "sortby"):
        return k.args[-1] == it
    d = T.sub(T.subst(k, {it: T.add(it, ONE)}), k)
    return T.is_int_const(d) and d != ZERO



FILE_ATTRS = set(dir(io.BytesIO)) | set(dir(io.BufferedReader)) | set(dir(gzip.GzipFile)) | set(dir(io.TextIOWrapper)) | {"name", "mode", "fileobj", "mtime", "myfileobj", "compress", "filename"}


def key_parts(k):
    return [t for i in k.items for t in key_parts(i)] if isinstance(k, TupleV) else [k] if isinstance(k, Term) else []


def moving(x):
    """Whether x follows a value that changes along the turns of a loop (what is read from the data there is another matter)."""
    if isinstance(x, Term):
        return x.op in ("phi", "plen") or x.op not in ("load", "bytes", "const") and any(moving(y) for a in x.args for y in T._sub(a))
    return any(moving(y) for y in T._sub(x))


class Field:
    __slots__ = ("name", "ct", "off", "size", "bits")

    def __init__(self, name, ct, off, size, bits=None):
        self.name, self.ct, self.off, self.size, self.bits = name, ct, off, size, bits


class Layout:
    def __init__(self):
        self.fields, self.size, self.align, self.names = [], 0, 1, {}


class Ix:
    """A sequence that can be indexed symbolically."""
    def __init__(self, trip, get, space=None, local=(), whole=False):
        self.trip, self.get, self.space, self.local, self.whole = trip, get, space, local, whole


def last(o):
    """How many of its last elements a bounded deque keeps, or None."""
    return int(o.kind[5:]) if isinstance(o, ListObj) and o.kind.startswith("last ") else None


class Models:
    # ------------------------------------------------------------------------------------------ names
    def builtin(self, name):
        if name in BUILTINS:
            return ExtV(name)
        o = getattr(builtins, name, None)
        if isinstance(o, type) and issubclass(o, BaseException):
            return ExtV(name)
        if name in ("Ellipsis", "__debug__", "__file__", "__doc__"):
            return TRUE if name == "__debug__" else const(None) if name == "__doc__" else Term("sym", name, "str")
        return None

    def ext_attr(self, o, name, node):
        full = f"{o.name}.{name}"
        if o.name == "ctypes" and name in CT:
            return SimpleCT(CT[name])
        if full in ("sys.maxsize",):
            return const(2**63 - 1)
        if full in ("sys.byteorder",):
            return const("little")
        if full in ("io.SEEK_SET", "os.SEEK_SET"):
            return ZERO
        if full in ("io.SEEK_CUR", "os.SEEK_CUR"):
            return ONE
        if full in ("zlib.MAX_WBITS",):
            return const(15)
        if full == "zlib.DEF_BUF_SIZE":
            return const(16384)
        if full == "typing.TYPE_CHECKING":
            return FALSE
        if full == "os.sep":
            return const("/")
        return ExtV(full)

    # ------------------------------------------------------------------------------------------ classes
    def mro(self, cls, st=None):
        if not isinstance(cls, ClassV):
            return [cls]
        seqs = [self.mro(b) for b in cls.info.bases] + [list(cls.info.bases)]
        out = [cls]
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in t if x != h] for t in seqs]
            seqs = [t for t in seqs if t]
        return out

    def class_attr(self, st, cls, name, skip_to=None):
        seen = skip_to is None
        for c in self.mro(cls):
            if not seen:
                seen = c == skip_to
                continue
            if isinstance(c, ClassV):
                o = st.heap.get(c.info.oid) or self.mstate.heap.get(c.info.oid)
                v = aget(o.attrs, name)
                if v is not None:
                    return v
        return None

    def is_struct(self, cls):
        return isinstance(cls, ClassV) and any(isinstance(c, ExtV) and c.name in STRUCT_BASES for c in self.mro(cls))

    def layout(self, cls, st=None):
        info = cls.info
        fields_v = self.class_attr(self.mstate, cls, "_fields_")
        key = fields_v
        if info.layout is not None and info.layout[0] == key:
            return info.layout[1]
        lay = Layout()
        chain = [c for c in reversed(self.mro(cls)) if isinstance(c, ClassV)]
        names = [c.name for c in self.mro(cls) if isinstance(c, ExtV)]
        be = "ctypes.BigEndianStructure" in names
        union = "ctypes.Union" in names
        pack = self.class_attr(self.mstate, cls, "_pack_")
        pack = cval(pack) if pack is not None and is_const(pack, int) else None
        off = 0
        bit = None
        for c in chain:
            fv = aget(self.mstate.heap[c.info.oid].attrs, "_fields_")
            if fv is None or not self.is_struct(c):
                continue
            items = self.known_items(self.mstate, fv)
            if items is None:
                raise self.broken(f"fields of {info.qualname} are not a known list")
            for it in items:
                parts = self.known_items(self.mstate, it)
                if parts is None or len(parts) < 2 or not is_const(parts[0], str):
                    raise self.broken(f"field of {info.qualname} is not a known pair")
                name, ct = cval(parts[0]), parts[1]
                if be and isinstance(ct, SimpleCT) and ct.kind[1:] not in ("1",):
                    ct = SimpleCT(">" + ct.kind)
                sz, al = self.ct_size(ct), self.ct_align(ct)
                if pack:
                    al = min(al, pack)
                if len(parts) > 2 and is_const(parts[2], int):
                    w = cval(parts[2])
                    if bit is not None and bit[1] == sz and bit[2] + w <= sz * 8:
                        lay.fields.append(Field(name, SimpleCT(f"{ct.kind}:{bit[2]}:{w}"), bit[0], sz, w))
                        bit = (bit[0], sz, bit[2] + w)
                    else:
                        off = (off + al - 1) // al * al
                        lay.fields.append(Field(name, SimpleCT(f"{ct.kind}:0:{w}"), off, sz, w))
                        bit = (off, sz, w)
                        off += sz
                    lay.align = max(lay.align, al)
                    lay.names[name] = lay.fields[-1]
                    continue
                bit = None
                if union:
                    f = Field(name, ct, 0, sz)
                    off = max(off, sz)
                else:
                    off = (off + al - 1) // al * al
                    f = Field(name, ct, off, sz)
                    off += sz
                lay.align = max(lay.align, al)
                lay.fields.append(f)
                lay.names[name] = f
        lay.size = (off + lay.align - 1) // lay.align * lay.align
        anon = self.class_attr(self.mstate, cls, "_anonymous_")
        for a in (self.known_items(self.mstate, anon) or []) if anon is not None else []:
            f = lay.names.get(cval(a))
            if f is not None and self.is_struct(f.ct):
                for g in self.layout(f.ct).fields:
                    lay.names.setdefault(g.name, Field(g.name, g.ct, f.off + g.off, g.size, g.bits))
        info.layout = (key, lay)
        return lay

    def broken(self, msg):
        from sa.interp import GaveUp
        return GaveUp(msg)

    def ct_size(self, ct):
        """Size in bytes as int (or Term for arrays of symbolic length)."""
        if isinstance(ct, SimpleCT):
            return int(ct.kind.lstrip(">").split(":")[0][1:])
        if isinstance(ct, ArrayCT):
            e = self.ct_size(ct.elem)
            if T.is_int_const(ct.n):
                return e * int(cval(ct.n))
            return T.mul(const(e), ct.n)
        if self.is_struct(ct):
            return self.layout(ct).size
        raise self.broken(f"not a C type: {ct}")

    def ct_align(self, ct):
        if isinstance(ct, SimpleCT):
            return self.ct_size(ct)
        if isinstance(ct, ArrayCT):
            return self.ct_align(ct.elem)
        return self.layout(ct).align

    def size_term(self, ct):
        s = self.ct_size(ct)
        return s if isinstance(s, Term) else const(s)

    # ------------------------------------------------------------------------------------------ C data
    def cdata(self, st, v):
        """(type, buffer, offset) of a structure or array object."""
        if isinstance(v, ViewV):
            return v.cls, v.buf, v.off
        o = self.obj(st, v)
        if isinstance(o, StructObj):
            return o.cls, o.buf, o.off
        return None

    def new_struct(self, st, cls, root, base, node, over=(), buf=None, off=ZERO):
        if buf is None:
            buf = self.new(st, BufObj(root, base, self.size_term(cls), over), node).oid
        return self.new(st, StructObj(cls, buf, off), node)

    def load(self, st, buf, off, kind, node):
        b = st.heap[buf]
        if b.over:
            for (o, k), v in b.over:
                if o == off and k == kind:
                    return v
            for (o, k), v in b.over:
                if not self.disjoint(o, k, off, kind):
                    return self.unknown(st, node, "partly overwritten field")
        if b.root.op == "zero":
            return self.zero(kind)
        full = T.add(b.base, off)
        a = self.assume.get((b.root, full, kind))
        if a is not None:
            return a
        return Term("load", b.root, full, kind)

    def zero(self, kind):
        if isinstance(kind, tuple):
            return const(b"")
        k = kind.lstrip(">")
        if k == "c1":
            return const(b"\0")
        if k == "b1":
            return FALSE
        if k[0] == "f":
            return const(0.0)
        return ZERO

    def kind_size(self, k):
        if isinstance(k, tuple):
            return cval(k[1]) if isinstance(k[1], Term) and is_const(k[1]) else k[1] if isinstance(k[1], int) else None
        return int(k.lstrip(">").split(":")[0][1:])

    def disjoint(self, o1, k1, o2, k2):
        d = T.sub(o2, o1)
        if not T.is_int_const(d):
            return False
        d = int(cval(d))
        s1, s2 = self.kind_size(k1), self.kind_size(k2)
        if s1 is None or s2 is None:
            return False
        return d >= s1 or -d >= s2

    def field_value(self, st, buf, off, ct, node):
        if isinstance(ct, SimpleCT):
            return self.load(st, buf, off, ct.kind, node)
        if isinstance(ct, ArrayCT) and isinstance(ct.elem, SimpleCT) and ct.elem.kind == "c1":
            n = ct.n
            if n == ZERO:
                return const(b"")
            return self.load(st, buf, off, ("c", cval(n) if is_const(n) else n), node)
        return ViewV(buf, ct, off)

    def store_field(self, st, buf, off, ct, v, node, owner):
        b = st.heap[buf]
        if isinstance(ct, SimpleCT):
            kind = ct.kind
        elif isinstance(ct, ArrayCT) and isinstance(ct.elem, SimpleCT) and ct.elem.kind == "c1":
            kind = ("c", cval(ct.n) if is_const(ct.n) else ct.n)
        else:
            kind = None
        self.emit("structwrite", st, node, owner=owner, buf=buf, root=b.root, off=T.add(b.base, off), value=self.snap(st, v))
        if kind is None or not is_const(off):
            nb = replace(b, root=self.unknown(st, node, "overwritten buffer"))
        else:
            over = tuple((k, x) for k, x in b.over if k != (off, kind) and self.disjoint(k[0], k[1], off, kind)) + (((off, kind), v),)
            nb = replace(b, over=over)
        a = self.alloc[buf]
        if a.phase == "module" and self.phase != "module":
            self.emit("gmut", st, node, target=f"buffer created at {a.path}:{a.line}", what="field write", old=b, new=nb, oid=buf)
        if buf in self.handed:
            self.emit("ymut", st, node, target="a structure", what="field write")
        st.heap[buf] = nb

    # ------------------------------------------------------------------------------------------ attributes
    def getattr(self, st, o, name, node, default=None):
        """Attribute lookup; with a default, a definitely missing attribute gives the default."""
        if isinstance(o, IteV):
            return self.lift(st, o, lambda s, x: self.getattr(s, x, name, node, default))
        r = self.attr(st, o, name, node)
        if isinstance(r, IteV) and (r.a == UNDEF or r.b == UNDEF):
            have = r.cond if r.b == UNDEF else neg(r.cond)
            val = r.a if r.b == UNDEF else r.b
            c = self.decide(st, have)
            if default is not None:
                return self.fork(st, c, lambda s: val, lambda s: default)
            if c == FALSE:
                r = None
            else:
                return val
        if r is None or r == UNDEF:
            if default is not None:
                return default
            self.py_raise(st, "AttributeError", node, name)
        return r

    def bind_attr(self, st, v, inst, cls, node):
        if isinstance(v, FuncV):
            return BoundV(v, inst) if inst is not None else v
        if isinstance(v, WrapV):
            if v.kind in ("property", "cached_property"):
                return self.call(st, v.func, [inst], {}, node) if inst is not None else v
            if v.kind == "staticmethod":
                return v.func
            return BoundV(v.func, cls)
        return v

    def attr(self, st, o, name, node):
        if isinstance(o, Term):
            k = T.ty(o)
            if o == NONE:
                return None
            if k is None and o.op in ("sym", "item"):
                return Term("call", "attr", o, name, None) if o.op == "item" else Term("sym", f"{o.args[0]}.{name}", None)
            if k is None:
                return ExtBound(name, o)
            pyt = {"int": int, "bytes": bytes, "str": str, "bool": bool, "float": float}.get(k)
            if pyt is not None and not hasattr(pyt, name):
                return None
            if k in ("int", "bool") and name in ("real", "numerator"):
                return o
            return ExtBound(name, o)
        if isinstance(o, ModV):
            fid = self.modules.get(o.name)
            if fid is not None and name in st.frames[fid]:
                return st.frames[fid][name]
            if f"{o.name}.{name}" in self.modules:
                return ModV(f"{o.name}.{name}")
            if name in ("__name__",):
                return const(o.name)
            if name == "__dict__":
                return SeqV("moddict", (o.name,))
            return None
        if isinstance(o, ExtV):
            if name == "__name__":
                return const(o.name.rsplit(".", 1)[-1])
            return self.ext_attr(o, name, node)
        if isinstance(o, ClassV):
            return self.class_getattr(st, o, name, node)
        if isinstance(o, (SimpleCT, ArrayCT)):
            if isinstance(o, ArrayCT) and name == "_length_":
                return o.n
            if isinstance(o, ArrayCT) and name == "_type_":
                return o.elem
            if name in ("__ctype_be__", "__ctype_le__"):
                return SimpleCT((">" if name == "__ctype_be__" else "") + o.kind.lstrip(">")) if isinstance(o, SimpleCT) else None
            return ExtBound(name, o)
        if isinstance(o, FieldV):
            f = self.layout(o.cls).names[o.name]
            return {"offset": const(f.off), "size": const(f.size), "name": const(f.name)}.get(name)
        if isinstance(o, FuncV):
            if name in ("__name__", "__qualname__"):
                return const(o.info.qualname.rsplit(".", 1)[-1])
            return ExtBound(name, o)
        if isinstance(o, BoundV) and isinstance(o.func, SeqV) and o.func.kind == "super":
            cls = o.func.args[0]
            inst = o.self
            c0 = inst if isinstance(inst, ClassV) else self.type_of(st, inst) or cls
            v = self.class_attr(st, c0, name, skip_to=cls)
            if v is None:
                return ExtV("#noop") if name in ("__init__", "__init_subclass__", "__setattr__") else None
            return self.bind_attr(st, v, inst if not isinstance(inst, ClassV) else None, c0, node)
        if isinstance(o, ViewV):
            if isinstance(o.cls, ArrayCT):
                return self.attr(st, o.cls, name, node) if name in ("_length_", "_type_") else self.classof(st, o) if name == "__class__" else ExtBound(name, o)
            return self.struct_getattr(st, o, o.cls, o.buf, o.off, (), name, node)
        if isinstance(o, Ref):
            h = st.heap[o.oid]
            if isinstance(h, InstObj):
                cv = self.class_attr(st, h.cls, name)
                if isinstance(cv, WrapV) and cv.kind == "property":
                    return self.bind_attr(st, cv, o, h.cls, node)
                v = aget(h.attrs, name)
                if v is not None:
                    return v
                if name == "__class__":
                    return h.cls
                if name == "__dict__":
                    return SeqV("instdict", (o,))
                if cv is None:
                    return None
                r = self.bind_attr(st, cv, o, h.cls, node)
                if isinstance(cv, WrapV) and cv.kind == "cached_property":
                    self.mutate(st, o, replace(st.heap[o.oid], attrs=aset(st.heap[o.oid].attrs, name, r)), node, f"attribute {name}")
                return r
            if isinstance(h, StructObj):
                if isinstance(h.cls, ArrayCT):
                    return self.attr(st, h.cls, name, node) if name in ("_length_", "_type_") else ExtBound(name, o)
                return self.struct_getattr(st, o, h.cls, h.buf, h.off, h.attrs, name, node)
            if isinstance(h, StreamObj):
                if name == "name":
                    for e in reversed(self.events):
                        if e.kind == "open" and e.data["oid"] == o.oid and e.data["args"] and isinstance(e.data["args"][0], Term) and T.ty(e.data["args"][0]) == "str":
                            return e.data["args"][0]
                    return Term("sym", f"{h.name}.name", None)
                if not name.startswith("__") and name not in FILE_ATTRS:
                    return None
                return ExtBound(name, o)
            if isinstance(h, ExtObj):
                if h.kind == "namespace":
                    if name in self.given:
                        return self.given[name]
                    return Term("sym", f"args.{name}", None)
                if h.kind == "decompobj" and name in ("eof", "unused_data", "unconsumed_tail"):
                    self.emit("eofcheck", st, node)
                    return Term("call", name, h.data[0] if h.data else NONE, "bool" if name == "eof" else "bytes")
                if h.kind == "exc":
                    return Term("call", "excattr", name, None) if name != "with_traceback" else ExtBound(name, o)
                return ExtBound(name, o)
            pyt = {ListObj: list, DictObj: dict, BufObj: bytearray}.get(type(h))
            if isinstance(h, ListObj) and h.kind == "set":
                pyt = set
            if isinstance(h, ListObj) and h.kind not in ("list", "set"):
                pyt = collections.deque
            if pyt is not None and not hasattr(pyt, name):
                return None
            return ExtBound(name, o)
        if isinstance(o, TupleV):
            return ExtBound(name, o) if hasattr(tuple, name) else None
        if isinstance(o, SeqV) and o.kind == "record" :
            return None
        return ExtBound(name, o)

    def struct_getattr(self, st, o, cls, buf, off, attrs, name, node):
        lay = self.layout(cls)
        f = lay.names.get(name)
        if f is not None and not self.shadowed(st, cls, name):
            return self.field_value(st, buf, T.add(off, const(f.off)), f.ct, node)
        cv = self.class_attr(st, cls, name)
        if isinstance(cv, WrapV) and cv.kind == "property":
            return self.bind_attr(st, cv, o, cls, node)
        v = aget(attrs, name)
        if v is not None:
            return v
        if name == "__class__":
            return cls
        if name == "__dict__":
            return SeqV("instdict", (o,))
        if cv is None:
            if name in ("_b_base_", "_objects", "_b_needsfree_"):
                return self.unknown(st, node, "ctypes internals")
            return None
        r = self.bind_attr(st, cv, o, cls, node)
        if isinstance(cv, WrapV) and cv.kind == "cached_property" and isinstance(o, Ref):
            self.mutate(st, o, replace(st.heap[o.oid], attrs=aset(st.heap[o.oid].attrs, name, r)), node, f"attribute {name}")
        return r

    def shadowed(self, st, cls, name):
        """A more derived class redefines the name of an inherited field."""
        for c in self.mro(cls):
            if not isinstance(c, ClassV):
                continue
            attrs = st.heap[c.info.oid].attrs
            own = aget(attrs, "_fields_")
            items = self.known_items(self.mstate, own) if own is not None else None
            for it in items or ():
                parts = self.known_items(self.mstate, it)
                if parts and parts[0] == const(name):
                    return False
            if aget(attrs, name) is not None:
                return True
        return False

    def class_getattr(self, st, c, name, node):
        v = self.class_attr(st, c, name)
        if v is not None:
            if isinstance(v, WrapV) and v.kind == "classmethod":
                return BoundV(v.func, c)
            if isinstance(v, WrapV) and v.kind == "staticmethod":
                return v.func
            return v
        if name in ("__name__", "__qualname__"):
            return const(c.info.name)
        if name == "__module__":
            return const(c.info.module)
        if name == "__mro__":
            return TupleV(tuple(self.mro(c)))
        if name == "__bases__":
            return TupleV(c.info.bases)
        if name == "__dict__":
            return SeqV("classdict", (c,))
        if self.is_struct(c):
            if name in self.layout(c).names:
                return FieldV(c, name)
            if name in ("from_buffer", "from_buffer_copy", "from_address", "in_dll", "from_param", "__mul__"):
                return ExtBound(name, c)
        if name in ("__init__", "__new__", "__subclasses__", "mro", "__doc__"):
            return ExtBound(name, c)
        if getattr(c.info, "dataclass", False) and name in ("__dataclass_fields__", "_fields", "_make"):
            return ExtBound(name, c)
        return None

    def setattr(self, st, o, name, v, node):
        if isinstance(o, IteV):
            self.lift(st, o, lambda s, x: self.setattr(s, x, name, v, node) or NONE)
            return
        if isinstance(o, Ref):
            h = st.heap[o.oid]
            if isinstance(h, InstObj):
                cv = self.class_attr(st, h.cls, name)
                if isinstance(cv, WrapV) and cv.kind == "property":
                    self.emit("unsupported", st, node, what="property setter")
                    return
                self.mutate(st, o, replace(h, attrs=aset(h.attrs, name, v)), node, f"attribute {name}")
                return
            if isinstance(h, StructObj) and not isinstance(h.cls, ArrayCT):
                f = self.layout(h.cls).names.get(name)
                if f is not None:
                    self.store_field(st, h.buf, T.add(h.off, const(f.off)), f.ct, v, node, o)
                    return
                self.mutate(st, o, replace(h, attrs=aset(h.attrs, name, v)), node, f"attribute {name}")
                return
            self.emit("extset", st, node, target=type(h).__name__, name=name)
            return
        if isinstance(o, ViewV) and not isinstance(o.cls, ArrayCT):
            f = self.layout(o.cls).names.get(name)
            if f is not None:
                self.store_field(st, o.buf, T.add(o.off, const(f.off)), f.ct, v, node, o)
            return
        if isinstance(o, ClassV):
            ref = Ref(o.info.oid)
            h = st.heap.get(o.info.oid) or self.mstate.heap[o.info.oid]
            self.mutate(st, ref, ClassObj(aset(h.attrs, name, v)), node, f"attribute {name}")
            return
        if isinstance(o, ModV):
            self.set_global(o.name, name, v, st, node)
            return
        if isinstance(o, FuncV):
            if self.phase != "module" and o.info.phase == "module":
                self.emit("gmut", st, node, target=f"function {o.info.qualname}", what=f"attribute {name}", old=None, new=v, oid=None)
            return
        if isinstance(o, ExtV):
            self.emit("extset", st, node, target=o.name, name=name)
            return
        self.emit("unsupported", st, node, what=f"attribute assignment {name}")

    def type_of(self, st, v):
        return self.classof(st, v)

    def classof(self, st, v):
        if isinstance(v, Term):
            k = T.ty(v)
            return ExtV(k) if k and k != "NoneType" else ExtV("NoneType") if k else None
        if isinstance(v, ViewV):
            return v.cls
        if isinstance(v, TupleV):
            return ExtV("tuple")
        if isinstance(v, (ClassV, SimpleCT, ArrayCT)):
            return ExtV("type")
        if isinstance(v, FuncV):
            return ExtV("types.FunctionType")
        if isinstance(v, BoundV):
            return ExtV("types.MethodType")
        if isinstance(v, ModV):
            return ExtV("types.ModuleType")
        if isinstance(v, ParamSeq):
            return ExtV("list")
        if isinstance(v, RangeV):
            return ExtV("range")
        o = self.obj(st, v)
        if isinstance(o, InstObj):
            return o.cls
        if isinstance(o, StructObj):
            return o.cls
        if isinstance(o, ListObj):
            return ExtV({"list": "list", "set": "set"}.get(o.kind, "collections.deque"))
        if isinstance(o, DictObj):
            return ExtV("dict")
        if isinstance(o, BufObj):
            return ExtV("bytearray")
        if isinstance(o, GenObj):
            return ExtV("types.GeneratorType")
        if isinstance(o, ExtObj) and o.kind == "exc":
            n = o.data[0]
            if isinstance(v, Ref) and v.oid in self.handling:
                kinds, names, done, ask = self.handling[v.oid]
                for k in sorted(kinds):
                    if k not in names:
                        ask[k] = 1
                if len(names) > 1:
                    ask[names[0]] = 1
                n = names[0]
            return ClassV(self.classes[n]) if n in self.classes else ExtV(n)
        return None

    def exc_is(self, v, spec):
        """Whether the exception now handled is a spec: True, False, or None while its handler has to be split for that."""
        kinds, names, done, ask = self.handling[v.oid]
        if all(self.exc_sub(k, spec) or k == spec for k in kinds | set(names)):
            return True
        if self.exc_caught(spec, [d for d in done if d != "?"]):
            return False
        if not any(self.exc_sub(k, spec) for k in kinds) and not self.exc_caught(spec, names):
            return False
        ask[spec] = 1
        return None

    SUB = {
        "int": {"int", "object", "numbers.Integral", "numbers.Number", "numbers.Real"}, "bool": {"bool", "int", "object", "numbers.Integral", "numbers.Number"},
        "float": {"float", "object", "numbers.Real", "numbers.Number"},
        "str": {"str", "object", "collections.abc.Sequence", "collections.abc.Iterable"},
        "bytes": {"bytes", "object", "collections.abc.Sequence", "collections.abc.Iterable", "typing.ByteString", "collections.abc.ByteString"},
        "list": {"list", "object", "collections.abc.Sequence", "collections.abc.Iterable", "collections.abc.MutableSequence"},
        "tuple": {"tuple", "object", "collections.abc.Sequence", "collections.abc.Iterable"},
        "dict": {"dict", "object", "collections.abc.Mapping", "collections.abc.MutableMapping", "collections.abc.Iterable"},
        "set": {"set", "object", "collections.abc.Set", "collections.abc.Iterable"},
        "NoneType": {"NoneType", "types.NoneType", "object"},
        "types.GeneratorType": {"types.GeneratorType", "collections.abc.Iterator", "collections.abc.Iterable", "collections.abc.Generator", "object"},
    }

    def supers(self, c):
        """Names (and classes) a value's class is an instance of."""
        if isinstance(c, ExtV):
            s = set(self.SUB.get(c.name, {c.name, "object"}))
            try:
                t = getattr(builtins, c.name)
                if isinstance(t, type):
                    s |= {x.__name__ for x in t.__mro__}
            except (AttributeError, TypeError):
                t = self.exc_class(c.name)
                if t is not None:
                    s |= {x.__name__ for x in t.__mro__}
            return s
        if isinstance(c, ArrayCT):
            return {"ctypes.Array", "_ctypes.Array", "ctypes._SimpleCData" if False else "_ctypes._CData", "object", c}
        if isinstance(c, SimpleCT):
            return {"ctypes._SimpleCData", "object", c}
        if isinstance(c, ClassV):
            s = set()
            for x in self.mro(c):
                if isinstance(x, ExtV):
                    s |= self.supers(x)
                    if x.name in STRUCT_BASES:
                        s |= {"_ctypes._CData", "_ctypes.Structure"}
                else:
                    s.add(x)
            s.add("object")
            return s
        return {"object"}

    def issub_cond(self, sup, spec, st, node, ann):
        if isinstance(spec, TupleV):
            return disj([self.issub_cond(sup, x, st, node, ann) for x in spec.items])
        if isinstance(spec, IteV):
            return T.ite(spec.cond, self.issub_cond(sup, spec.a, st, node, ann), self.issub_cond(sup, spec.b, st, node, ann))
        if isinstance(spec, ExtV):
            if spec.name.endswith("[]"):  # typing.Union[...] and the like
                return self.unknown(st, node, "isinstance with a typing construct", "bool")
            return TRUE if spec.name in sup else FALSE
        if isinstance(spec, (ClassV, ArrayCT, SimpleCT)):
            return TRUE if spec in sup else FALSE
        if isinstance(spec, SeqV) and spec.kind == "union":
            return disj([self.issub_cond(sup, x, st, node, ann) for x in spec.args])
        items = self.known_items(st, spec)
        return self.unknown(st, node, "isinstance with an unknown class", "bool")

    def isinstance_cond(self, st, v, spec, node):
        if isinstance(v, IteV):
            return T.ite(v.cond, self.isinstance_cond(st, v.a, spec, node), self.isinstance_cond(st, v.b, spec, node))
        if isinstance(v, Ref) and v.oid in self.handling:
            got = [self.exc_is(v, n) for n in self.class_names(st, spec) if n != "?"]
            return TRUE if True in got else FALSE if None not in got else self.unknown(st, node, "type of an exception", "bool")
        c = self.classof(st, v)
        if c is None:
            if isinstance(v, Term) and v.op == "ite":
                return T.ite(v.args[0], self.isinstance_cond(st, v.args[1], spec, node), self.isinstance_cond(st, v.args[2], spec, node))
            if isinstance(v, Term):
                names = tuple(sorted(self.class_names(st, spec)))
                return Term("isinst", v, names)
            if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), StreamObj):
                names = self.class_names(st, spec)
                if any(n in ("object", "io.IOBase", "_io._IOBase", "typing.BinaryIO") for n in names):
                    return TRUE
                names = tuple(sorted(n for n in names if n.split(".")[0] in ("io", "_io", "gzip", "tempfile") and "Text" not in n and "String" not in n))
                return Term("isinst", Term("stream", "file"), names) if names else FALSE
            if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), ExtObj):
                return FALSE if not any(n in ("object",) for n in self.class_names(st, spec)) else TRUE
            return self.unknown(st, node, "isinstance of an unknown value", "bool")
        return self.issub_cond(self.supers(c), spec, st, node, None)

    def exc_caught(self, name, handler_names):
        for h in handler_names:
            if h in ("BaseException", "?"):
                return True
            if self.exc_sub(name, h):
                return True
        return False

    def exc_class(self, n):
        o = getattr(builtins, n, None)
        if isinstance(o, type):
            return o
        known = {"zlib.error": Exception, "struct.error": Exception, "gzip.BadGzipFile": OSError, "json.JSONDecodeError": ValueError,
                 "io.UnsupportedOperation": OSError, "ctypes.ArgumentError": Exception, "argparse.ArgumentError": Exception,
                 "_ctypes.ArgumentError": Exception}
        return known.get(n)

    def exc_sub(self, name, h):
        if name == h:
            return True
        if name in self.classes:
            return any((isinstance(c, ClassV) and c.info.qualname == h) or (isinstance(c, ExtV) and self.exc_sub(c.name, h)) for c in self.mro(ClassV(self.classes[name]))[1:])
        a, b = self.exc_class(name), self.exc_class(h)
        if a is None or b is None or h in ("zlib.error", "struct.error", "gzip.BadGzipFile", "json.JSONDecodeError", "ctypes.ArgumentError", "io.UnsupportedOperation"):
            return False
        return issubclass(a, b)

    # ------------------------------------------------------------------------------------------ truth and comparison
    def truth(self, st, v, node):
        if isinstance(v, Term):
            if T.ty(v) == "bytes":
                return neg(T.eq0(self.length(st, v, node)))
            return T.truthy(v)
        if isinstance(v, IteV):
            if v.a == UNDEF:
                return self.truth(st, v.b, node)
            if v.b == UNDEF:
                return self.truth(st, v.a, node)
            a, b = self.truth(st, v.a, node), self.truth(st, v.b, node)
            return disj([conj([v.cond, a]), conj([neg(v.cond), b])])
        o = self.obj(st, v)
        if isinstance(o, DictObj):
            if any(g == TRUE for _, g, _ in o.entries):
                return TRUE
            if not o.entries and not o.prev and o.base is None:
                return FALSE
            if not o.prev and o.base is None:
                return disj([g for _, g, _ in o.entries])
            return self.unknown(st, node, "truth of a dictionary", "bool")
        if isinstance(o, InstObj):
            for m in ("__bool__", "__len__"):
                f = self.class_attr(st, o.cls, m)
                if f is not None:
                    return self.truth(st, self.call(st, BoundV(f, v), [], {}, node), node)
            return TRUE
        if isinstance(v, (TupleV, RangeV, ParamSeq)) or isinstance(o, (ListObj, BufObj)) or (isinstance(v, ViewV) and isinstance(v.cls, ArrayCT)) \
                or (isinstance(o, StructObj) and isinstance(o.cls, ArrayCT)):
            return neg(T.eq0(self.length(st, v, node)))
        if isinstance(v, SelV):
            return TRUE
        return TRUE

    def length(self, st, v, node):
        if isinstance(v, Term):
            p = self.parts(v)
            if p is not None:
                root, off, n, exact = p
                if exact == "read" and n is not None:
                    return Term("nread", root, off, n)
                if exact is True and n is not None:
                    return n
            if v.op == "ite":
                return T.ite(v.args[0], self.length(st, v.args[1], node), self.length(st, v.args[2], node))
            if T.ty(v) in ("bytes", "str", None):
                return T.length(v)
            self.py_raise(st, "TypeError", node, "len()")
        if isinstance(v, TupleV):
            return const(len(v.items))
        if isinstance(v, IteV):
            a, b = self.length(st, v.a, node), self.length(st, v.b, node)
            return T.ite(v.cond, a, b)
        cd = self.cdata(st, v)
        if cd is not None and isinstance(cd[0], ArrayCT):
            return cd[0].n
        o = self.obj(st, v)
        if isinstance(o, ListObj) and last(o) is not None:
            return T.tmin([const(last(o)), self.length(st, self.new(st, ListObj(o.segs), node), node)])
        if isinstance(o, ListObj):
            tot = ZERO
            for s in o.segs:
                if isinstance(s, Item) and s.guard == TRUE:
                    tot = T.add(tot, ONE)
                elif isinstance(s, Item):
                    tot = T.add(tot, T.ite(s.guard, ONE, ZERO)) if s.guard.op != "opaque" else self.unknown(st, node, "length", "int")
                elif isinstance(s, LoopSeg) and s.guard == TRUE and not s.breaks and s.trip is not None and all(isinstance(i, Item) and i.guard == TRUE for i in s.items):
                    tot = T.add(tot, T.mul(s.trip, const(len(s.items))))
                elif isinstance(s, PrevSeg):
                    tot = T.add(tot, s.n if s.n is not None else Term("plen", s.loop, s.oid))
                else:
                    return Term("len", Term("list", self.snap(st, v)))
            if o.kind == "set" and tot != ZERO:
                return Term("len", Term("set", self.snap(st, v)))
            return tot
        if isinstance(o, DictObj):
            if not o.prev and o.base is None and all(g == TRUE for _, g, _ in o.entries):
                return const(len(o.entries))
            return self.unknown(st, node, "length of a dictionary", "int")
        if isinstance(o, BufObj):
            return o.size
        if isinstance(o, InstObj):
            f = self.class_attr(st, o.cls, "__len__")
            if f is not None:
                return self.call(st, BoundV(f, v), [], {}, node)
        ix = self.as_indexed(st, v)
        if ix is not None and ix.trip is not None:
            return ix.trip
        if isinstance(v, ParamSeq):
            return v.length
        return self.unknown(st, node, "length of an unknown value", "int")

    OPS = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Is": "is", "IsNot": "is not", "In": "in", "NotIn": "not in"}

    def compare_op(self, op, a, b, st, node):
        if op in ("NotEq", "IsNot", "NotIn"):
            r = self.compare_op({"NotEq": "Eq", "IsNot": "Is", "NotIn": "In"}[op], a, b, st, node)
            return neg(self.truth(st, r, node))
        for x, y, left in ((a, b, True), (b, a, False)):
            if isinstance(x, IteV) and not (op == "In" and not left):
                f = (lambda z: self.compare_op(op, z, y, st, node)) if left else (lambda z: self.compare_op(op, y, z, st, node))
                return merge_val(x.cond, f(x.a), f(x.b))
        if op == "In":
            return self.contains(st, a, b, node)
        if isinstance(a, Term) and isinstance(b, Term):
            # Gated scalars: compare each alternative when that decides something.
            for x, y, left in ((a, b, True), (b, a, False)):
                if x.op == "ite" and T.ty(x) is None or (x.op == "ite" and T.ty(x) == "str"):
                    f = (lambda z: self.compare_op(op, z, y, st, node)) if left else (lambda z: self.compare_op(op, y, z, st, node))
                    return merge_val(x.args[0], f(x.args[1]), f(x.args[2]))
            if op in ("Eq", "Is") and (a == NONE or b == NONE) and a != b:
                other = b if a == NONE else a
                if T.ty(other) is not None:
                    return FALSE
                return Term("cmp", "is", other, NONE)
            if op == "Is" and T.is_num(a) and T.is_num(b):
                return T.compare("==", a, b)
            return T.compare(self.OPS[op], a, b)
        if op in ("Eq", "Is"):
            if a == b:
                return TRUE
            if isinstance(a, TupleV) and isinstance(b, TupleV) and op == "Eq":
                if len(a.items) != len(b.items):
                    return FALSE
                return conj([self.truth(st, self.compare_op("Eq", x, y, st, node), node) for x, y in zip(a.items, b.items)])
            if a == NONE or b == NONE:
                other = b if a == NONE else a
                return FALSE if not isinstance(other, Term) else Term("cmp", "is", other, NONE)
            if isinstance(a, ArrayCT) and isinstance(b, ArrayCT) and not isinstance(a.elem, ArrayCT):
                return T.compare("==", a.n, b.n) if a.elem == b.elem else FALSE
            if isinstance(a, (ClassV, FuncV, ExtV, SimpleCT, ArrayCT, ModV)) and isinstance(b, (ClassV, FuncV, ExtV, SimpleCT, ArrayCT, ModV)):
                return FALSE
            if isinstance(a, Ref) and isinstance(b, Ref):
                oa, ob = st.heap.get(a.oid), st.heap.get(b.oid)
                if op == "Is" or (isinstance(oa, (StructObj, InstObj)) and isinstance(ob, (StructObj, InstObj))):
                    return FALSE
                if isinstance(oa, ListObj) and isinstance(ob, ListObj) and oa.kind != ob.kind:
                    return FALSE
                if isinstance(oa, ListObj) and isinstance(ob, ListObj) and oa.kind == "set":
                    return conj([self.subset(st, a, b, node), self.subset(st, b, a, node)])
                if isinstance(oa, ListObj) and isinstance(ob, ListObj):
                    ia, ib = self.known_items(st, a), self.known_items(st, b)
                    if ia is not None and ib is not None:
                        if len(ia) != len(ib):
                            return FALSE
                        return conj([self.truth(st, self.compare_op("Eq", x, y, st, node), node) for x, y in zip(ia, ib)])
                    for x, y in ((a, ib), (b, ia)):
                        if y == []:
                            return T.eq0(self.length(st, x, node))
                if op == "Eq" and isinstance(oa, DictObj) and isinstance(ob, DictObj):
                    return self.same_dicts(st, a, b)
            if isinstance(a, TupleV) != isinstance(b, TupleV) and not isinstance(a, Term) and not isinstance(b, Term):
                return FALSE
            return self.unknown(st, node, "comparison of unknown objects", "bool")
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            # lexicographic order
            strict = op in ("Lt", "Gt")
            base = {"Lt": "Lt", "LtE": "Lt", "Gt": "Gt", "GtE": "Gt"}[op]

            def lex(i):
                if i == len(a.items) or i == len(b.items):
                    la, lb = len(a.items), len(b.items)
                    r = {"Lt": la < lb, "LtE": la <= lb, "Gt": la > lb, "GtE": la >= lb}[op]
                    return TRUE if r else FALSE
                lt = self.truth(st, self.compare_op(base, a.items[i], b.items[i], st, node), node)
                eq = self.truth(st, self.compare_op("Eq", a.items[i], b.items[i], st, node), node)
                if lt == TRUE:
                    return TRUE
                return disj([lt, conj([eq, lex(i + 1)])])
            return lex(0)
        if isinstance(a, Ref) and isinstance(b, Ref) and all(isinstance(st.heap.get(x.oid), ListObj) and st.heap[x.oid].kind == "set" for x in (a, b)):
            x, y = (a, b) if op in ("Lt", "LtE") else (b, a)
            r = self.subset(st, x, y, node)
            return conj([r, neg(self.subset(st, y, x, node))]) if op in ("Lt", "Gt") else r
        ia, ib = self.known_items(st, a) if isinstance(a, Ref) else None, self.known_items(st, b) if isinstance(b, Ref) else None
        if ia is not None and ib is not None:
            return self.compare_op(op, TupleV(tuple(ia)), TupleV(tuple(ib)), st, node)
        return self.unknown(st, node, "ordering of unknown objects", "bool")

    def subset(self, st, a, b, node):
        """Whether every element of the set a is in the set b."""
        ia, ib = self.known_items(st, a), self.known_items(st, b)
        if ia is None or ib is None:
            return self.unknown(st, node, "comparison of unknown sets", "bool")
        return conj([disj([self.truth(st, self.compare_op("Eq", x, y, st, node), node) for y in ib]) for x in ia])

    def same_dicts(self, st, a, b):
        """Equality of two dictionaries; a condition of its own when their contents do not settle it."""
        x, y = self.snap(st, a), self.snap(st, b)
        if x == y:
            return TRUE
        if all(d[2] == "" and d[3] is None and all(is_const(k) and g == TRUE for k, g, _ in d[1]) for d in (x, y)):
            if {k for k, _, _ in x[1]} != {k for k, _, _ in y[1]}:
                return FALSE
            ea, eb = st.heap[a.oid].entries, st.heap[b.oid].entries
            if len(ea) <= 16 and all(isinstance(v, Term) and T.ty(v) in ("int", "bool", "str", "bytes") for _, _, v in ea + eb):
                other = {k: v for k, _, v in eb}
                return conj([self.truth(st, self.compare_op("Eq", v, other[k], st, None), None) for k, _, v in ea])
        return Term("same", *sorted((x, y), key=T._akey))

    def contains(self, st, x, c, node):
        if isinstance(c, IteV):
            a, b = self.contains(st, x, c.a, node), self.contains(st, x, c.b, node)
            return merge_val(c.cond, a, b)
        if isinstance(c, Term):
            if isinstance(x, Term):
                return T.compare("in", x, c)
            return self.unknown(st, node, "containment", "bool")
        o = self.obj(st, c)
        if isinstance(c, SeqV) and c.kind in ("keys",):
            return self.contains(st, x, c.args[0], node)
        if isinstance(o, DictObj):
            if not o.prev and o.base is None and is_const(x) and all(is_const(k) or not isinstance(k, Term) for k, _, _ in o.entries):
                r = o.get(x)
                return r[0] if r is not None else FALSE
            r = o.get(x)
            if r is not None and r[0] == TRUE:
                return TRUE
            was = self.lookup(st, c, o, x, node)
            if was is not None:
                return was[0]
            return self.unknown(st, node, "membership in a dictionary", "bool")
        items = self.known_items(st, c)
        if items is not None:
            return disj([self.truth(st, self.compare_op("Eq", x, i, st, node), node) for i in items])
        if isinstance(c, RangeV) and isinstance(x, Term) and T.is_num(x) and c.stop is not None and c.step == ONE:
            return conj([T.compare(">=", x, c.start), T.compare("<", x, c.stop)])
        if isinstance(c, SeqV) and c.kind in ("moddict", "classdict", "instdict") and is_const(x, str):
            return TRUE if self.getitem_opt(st, c, x, node) is not None else FALSE
        if isinstance(c, ParamSeq) and isinstance(x, Term):
            return Term("call", "contains", Term("seq", c.name), x, "bool")
        return self.unknown(st, node, "membership in an unknown collection", "bool")

    # ------------------------------------------------------------------------------------------ arithmetic
    PYOP = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv, "FloorDiv": operator.floordiv, "Mod": operator.mod,
            "Pow": operator.pow, "LShift": operator.lshift, "RShift": operator.rshift, "BitOr": operator.or_, "BitAnd": operator.and_, "BitXor": operator.xor}
    SYM = {"FloorDiv": "//", "Mod": "%", "LShift": "<<", "RShift": ">>", "BitOr": "|", "BitAnd": "&", "BitXor": "^", "Div": "/", "Pow": "**"}

    def binop(self, op, a, b, st, node):
        if isinstance(a, IteV):
            return merge_val(a.cond, self.binop(op, a.a, b, st, node), self.binop(op, a.b, b, st, node))
        if isinstance(b, IteV):
            return merge_val(b.cond, self.binop(op, a, b.a, st, node), self.binop(op, a, b.b, st, node))
        if isinstance(a, Term) and isinstance(b, Term):
            if is_const(a) and is_const(b):
                try:
                    if op == "Pow" and isinstance(cval(b), int) and cval(b) > 64 or op == "LShift" and cval(b) > 4096 or op == "Mult" and isinstance(cval(a), (str, bytes)) and cval(b) > 100000:
                        return self.unknown(st, node, "large constant")
                    return const(self.PYOP[op](cval(a), cval(b)))
                except ZeroDivisionError:
                    self.py_raise(st, "ZeroDivisionError", node)
                except Exception:
                    self.py_raise(st, "TypeError", node, op)
            ta, tb = T.ty(a), T.ty(b)
            if T.is_num(a) and T.is_num(b):
                if op == "Add":
                    return T.add(a, b)
                if op == "Sub":
                    return T.sub(a, b)
                if op == "Mult":
                    return T.mul(a, b)
                if op == "LShift" and T.is_int_const(b) and 0 <= cval(b) <= 64:
                    return T.mul(a, const(1 << int(cval(b))))
                if op in ("FloorDiv",) and T.is_int_const(b) and cval(b) > 0:
                    if b == ONE:
                        return a
                    d = T.divexact(a, b)
                    if d is not None:
                        return d
                if op in ("BitAnd", "BitOr", "BitXor"):
                    x, y = sorted((a, b), key=T._key)
                    if op == "BitAnd" and ZERO in (a, b):
                        return ZERO
                    if op in ("BitOr", "BitXor") and ZERO in (a, b):
                        return a if b == ZERO else b
                    mask = cval(b) if T.is_int_const(b) else cval(a) if T.is_int_const(a) else None
                    val = a if T.is_int_const(b) else b
                    if op == "BitAnd" and mask is not None and val.op == "load" and isinstance(val.args[2], str):
                        w = T.RANGE.get(val.args[2].lstrip(">"))
                        if w is not None and mask == w[1]:
                            return val
                    return Term("bin", self.SYM[op], x, y, "int")
                if op in ("FloorDiv", "Mod", "Div") and not (is_const(b) and cval(b)):
                    self.may_raise(st, node, "ZeroDivisionError", T.compare("==", b, ZERO))
                if op == "RShift" and b == ZERO:
                    return a
                if op == "Div":
                    return Term("bin", "/", a, b, "float")
                if op == "Pow" and T.is_int_const(b) and 0 <= cval(b) <= 4:
                    r = ONE
                    for _ in range(int(cval(b))):
                        r = T.mul(r, a)
                    return r
                return Term("bin", self.SYM[op], a, b, "int")
            if op == "Add" and ta == tb == "str":
                return self.strcat([a, b])
            if op == "Add" and ta == tb == "bytes":
                if a == const(b""):
                    return b
                if b == const(b""):
                    return a
                pa, pb = self.parts(a), self.parts(b)
                if pa and pb and pa[0] == pb[0] and pa[2] is not None and T.add(pa[1], pa[2]) == pb[1]:
                    n = T.add(pa[2], pb[2]) if pb[2] is not None else None
                    return self.mkbytes(pa[0], pa[1], n, False)
                if b.op == "call" and b.args[0] == "zeros":
                    r = self.filled(a, T.add(self.length(st, a, node), b.args[1]))
                    if r is not None:
                        return r
                return Term("call", "concat", a, b, "bytes")
            if op == "Mod" and ta == "str":
                r = self.percent(st, a, b, node)
                if r is not None:
                    return r
                return Term("call", "%", a, b, "str")
            if "float" in (ta, tb) and ta in ("int", "float", "bool") and tb in ("int", "float", "bool"):
                return Term("bin", {"Add": "+", "Sub": "-", "Mult": "*"}.get(op, self.SYM.get(op, op)), a, b, "float")
            if ta is not None and tb is not None and {ta, tb} & {"str", "bytes", "NoneType"} and op in ("Add", "Sub") and ta != tb:
                self.py_raise(st, "TypeError", node, op)
            return self.unknown(st, node, f"operation {op} on unknown values", None)
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (SimpleCT, ArrayCT)) or (isinstance(x, ClassV) and self.is_struct(x)):
                    if isinstance(y, Term) and T.is_num(y):
                        return ArrayCT(x, y)
                if isinstance(y, Term) and T.is_int_const(y):
                    items = self.known_items(st, x)
                    if isinstance(x, TupleV):
                        return TupleV(tuple(x.items) * int(cval(y)))
                    if items is not None and isinstance(x, Ref) and len(items) * int(cval(y)) <= 4096:
                        return self.new(st, ListObj(tuple(Item(TRUE, i) for i in items) * int(cval(y))), node)
                if isinstance(y, Term) and T.is_num(y) and isinstance(x, Ref) and isinstance(st.heap.get(x.oid), ListObj):
                    items = self.known_items(st, x)
                    if items is not None and len(items) == 1:
                        out = self.new(st, ListObj(()), node)
                        self.run_loop(st, node, y, lambda s, k: self.list_append(s, out, items[0], node))
                        return out
        if op == "Add":
            if isinstance(a, TupleV) and isinstance(b, TupleV):
                return TupleV(a.items + b.items)
            oa, ob = self.obj(st, a), self.obj(st, b)
            if isinstance(oa, ListObj) and (isinstance(ob, ListObj) or isinstance(b, ParamSeq)):
                out = self.new(st, ListObj(oa.segs), node)
                self.list_extend(st, out, b, node)
                return out
        if op == "BitOr":
            oa, ob = self.obj(st, a), self.obj(st, b)
            if isinstance(oa, DictObj) and isinstance(ob, DictObj):
                out = self.new(st, oa, node)
                self.dict_update(st, out, b, node)
                return out
            if isinstance(a, (ClassV, ExtV)) or isinstance(b, (ClassV, ExtV)):
                return SeqV("union", (a, b))
        if op == "Mod" and isinstance(a, Term) and T.ty(a) == "str":
            r = self.percent(st, a, b, node)
            if r is not None:
                return r
            return Term("call", "%", a, self.freeze(self.snap(st, b)), "str")
        o = self.obj(st, a)
        if isinstance(o, InstObj):
            m = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "BitOr": "__or__", "BitAnd": "__and__"}.get(op)
            f = self.class_attr(st, o.cls, m) if m else None
            if f is not None:
                return self.call(st, BoundV(f, a), [b], {}, node)
        return self.unknown(st, node, f"operation {op}")

    def freeze(self, x):
        return Term("tree", x)

    def strcat(self, parts):
        out = []
        for p in parts:
            sub = list(p.args[0]) if p.op == "strcat" else [p]
            for q in sub:
                if is_const(q, str) and out and is_const(out[-1], str):
                    out[-1] = const(cval(out[-1]) + cval(q))
                elif not (is_const(q, str) and cval(q) == ""):
                    out.append(q)
        if not out:
            return const("")
        if len(out) == 1 and T.ty(out[0]) == "str":
            return out[0]
        return Term("strcat", tuple(out))

    def percent(self, st, a, b, node):
        """Plain "%s" and "%d" formatting as a concatenation, or None."""
        if not is_const(a, str):
            return None
        bits = re.split(r"%([sdiu%])", cval(a))
        if any("%" in x for x in bits[::2]):
            return None
        vals = list(b.items) if isinstance(b, TupleV) else [b]
        out = []
        for i, x in enumerate(bits):
            if i % 2 == 0:
                out.append(const(x))
            elif x == "%":
                out.append(const("%"))
            else:
                if not vals:
                    return None
                v = vals.pop(0)
                if x != "s" and not (isinstance(v, Term) and T.ty(v) == "int"):
                    return None
                out.append(self.to_str(st, v, node))
        return None if vals else self.strcat(out)

    def str_format(self, st, fmt, args, kw, node):
        """Plain str.format() as a concatenation, or None."""
        import string
        out, n = [], 0
        try:
            fields = list(string.Formatter().parse(fmt))
        except ValueError:
            return None
        for text, name, spec, conv in fields:
            out.append(const(text))
            if name is None:
                continue
            if name == "":
                name, n = str(n), n + 1
            if name.isdigit():
                if int(name) >= len(args):
                    return None
                v = args[int(name)]
            elif name in kw:
                v = kw[name]
            else:
                return None
            out.append(self.format_value(st, v, const(spec or ""), ord(conv) if conv else -1, node))
        return self.strcat(out)

    def to_str(self, st, v, node):
        if isinstance(v, Term):
            if is_const(v):
                return const(str(cval(v)))
            if T.ty(v) == "str":
                return v
            if v.op == "ite":
                return T.ite(v.args[0], self.to_str(st, v.args[1], node), self.to_str(st, v.args[2], node))
            return Term("call", "str", v, "str")
        if isinstance(v, IteV):
            return T.ite(v.cond, self.to_str(st, v.a, node), self.to_str(st, v.b, node))
        o = self.obj(st, v)
        if isinstance(o, ExtObj) and o.kind == "exc" and o.data[0] == "zlib.error":
            # Any of the several messages of the library.
            return Term("sym", "text of the zlib.error", "str")
        return Term("call", "str", self.freeze(self.snap(st, v)), "str")

    def format_value(self, st, v, spec, conv, node):
        if isinstance(v, Term) and is_const(v) and is_const(spec) and conv in (-1, 115):
            try:
                return const(format(cval(v), cval(spec)))
            except Exception:
                pass
        if conv in (-1, 115) and (spec == const("") or conv == -1 and spec == const("d") and isinstance(v, Term) and T.ty(v) == "int"):
            return self.to_str(st, v, node)
        if isinstance(v, Term) and is_const(v) and conv == 114 and spec == const(""):
            return const(repr(cval(v)))
        return Term("call", "format", v if isinstance(v, Term) else self.freeze(self.snap(st, v)), spec, conv, "str")

    # ------------------------------------------------------------------------------------------ bytes
    def parts(self, t):
        """(root, offset, length or None, exact) of a bytes term that is a range of some data source."""
        if t.op == "bytes":
            return t.args
        if t.op in ("decomp", "decompobj"):
            return (t, ZERO, None, True)
        if t.op in ("sym", "item", "elem", "call") and T.ty(t) == "bytes":
            return (t, ZERO, None, True)
        return None

    def mkbytes(self, root, off, n, exact):
        if n is None and off == ZERO and root.op != "stream":
            return root
        return Term("bytes", root, off, n, exact)

    def filled(self, t, n):
        """Bytes read from a file filled up with zeros: what lies behind the end of a file counts as zeros anyway."""
        p = self.parts(t)
        if p is not None and p[0].op == "stream" and p[3] == "read" and p[2] == n:
            return Term("bytes", p[0], p[1], n, True)
        return None

    def slice_bytes(self, st, t, lo, hi, node):
        if is_const(t) and (lo == NONE or is_const(lo)) and (hi == NONE or is_const(hi)):
            return const(cval(t)[cval(lo) if lo != NONE else None:cval(hi) if hi != NONE else None])
        if T.ty(t) == "str":
            if lo in (NONE, ZERO) and hi == NONE:
                return t
            return Term("call", "slice", t, lo, hi, "str")
        if is_const(t):
            return self.unknown(st, node, "slice", T.ty(t))
        p = self.parts(t)
        if p is None:
            if t.op == "load" and lo == NONE and hi == NONE:
                return t
            return Term("call", "slice", t, lo, hi, "bytes")
        root, off, n, exact = p
        lo = ZERO if lo == NONE else lo
        if not (isinstance(lo, Term) and T.is_num(lo)) or not (hi == NONE or T.is_num(hi)):
            return self.unknown(st, node, "slice", "bytes")
        if T.is_int_const(lo) and cval(lo) < 0 or (hi != NONE and T.is_int_const(hi) and cval(hi) < 0):
            return Term("call", "slice", t, lo, hi, "bytes")
        if hi == NONE:
            if n is None:
                return self.mkbytes(root, T.add(off, lo), None, exact)
            return self.mkbytes(root, T.add(off, lo), T.sub(n, lo), exact if exact is True else False) if lo != ZERO else t
        ln = T.sub(hi, lo)
        ex = False
        if n is not None:
            if exact is True and T.is_int_const(hi) and T.is_int_const(n) and cval(hi) <= cval(n):
                ex = True
            elif hi == n and exact:
                ex = exact if lo == ZERO else exact is True
            elif T.is_int_const(n) and T.is_int_const(hi) and cval(hi) > cval(n):
                ln = T.sub(n, lo)
                ex = exact is True
        return self.mkbytes(root, T.add(off, lo), ln, ex)

    # ------------------------------------------------------------------------------------------ sequences
    def known_items(self, st, v):
        if isinstance(v, TupleV):
            return list(v.items)
        if isinstance(v, Term):
            if is_const(v, str):
                return [const(c) for c in cval(v)]
            if is_const(v, bytes):
                return [const(c) for c in cval(v)]
            return None
        if isinstance(v, RangeV):
            if T.is_int_const(v.start) and v.stop is not None and T.is_int_const(v.stop) and T.is_int_const(v.step) and cval(v.step):
                r = range(int(cval(v.start)), int(cval(v.stop)), int(cval(v.step)))
                return [const(i) for i in r] if len(r) <= 64 else None
            return None
        if isinstance(v, Ref):
            o = st.heap.get(v.oid)
            if isinstance(o, ListObj):
                if all(isinstance(s, Item) and s.guard == TRUE and not (isinstance(s.value, Term) and s.value.op == "opaque" and "list" in str(s.value.args[1])) for s in o.segs):
                    return [s.value for s in o.segs[0 if last(o) is None else max(0, len(o.segs) - last(o)):]]
                return None
            if isinstance(o, DictObj):
                if not o.prev and o.base is None and all(g == TRUE for _, g, _ in o.entries):
                    return [k for k, _, _ in o.entries]
                return None
            if isinstance(o, IterObj) and T.is_int_const(o.pos):
                r = self.known_items(st, o.seq)
                return r[int(cval(o.pos)):] if r is not None else None
            if isinstance(o, InstObj) and getattr(o.cls.info, "dataclass", False) and any(isinstance(b, ExtV) and b.name == "typing.NamedTuple" for b in o.cls.info.bases):
                return [x for _, x in o.attrs]
            return None
        if isinstance(v, SeqV):
            k, a = v.kind, v.args
            if k == "enumerate":
                r = self.known_items(st, a[0])
                return None if r is None else [TupleV((T.add(a[1], const(i)), x)) for i, x in enumerate(r)]
            if k == "zip":
                rs = [self.known_items(st, x) for x in a]
                if all(r is not None for r in rs) and rs:
                    return [TupleV(t) for t in zip(*rs)]
                # one known sequence bounds the others that are indexable
                if any(r is not None for r in rs):
                    n = min(len(r) for r in rs if r is not None)
                    out = []
                    for r, x in zip(rs, a):
                        if r is None:
                            ix = self.as_indexed(st, x)
                            if ix is None or ix.trip is not None and not (T.is_int_const(ix.trip) and cval(ix.trip) >= n):
                                return None
                            out.append([ix.get(const(i)) for i in range(n)])
                        else:
                            out.append(r)
                    return [TupleV(t) for t in zip(*out)]
                return None
            if k == "reversed":
                r = self.known_items(st, a[0])
                return None if r is None else r[::-1]
            if k in ("keys", "values", "items"):
                o = self.obj(st, a[0])
                if isinstance(o, DictObj) and not o.prev and o.base is None and all(g == TRUE for _, g, _ in o.entries):
                    return [{"keys": kk, "values": vv, "items": TupleV((kk, vv))}[k] for kk, _, vv in o.entries]
                return None
            if k == "chain":
                rs = [self.known_items(st, x) for x in a]
                return None if any(r is None for r in rs) else [x for r in rs for x in r]
            if k == "slice":
                r = self.known_items(st, a[0])
                if r is None or not T.is_int_const(a[1]) or (a[2] is not None and not T.is_int_const(a[2])):
                    return None
                return r[int(cval(a[1])):int(cval(a[2])) if a[2] is not None else None]
            if k == "moddict":
                return [const(n) for n in st.frames[self.modules[a[0]]]]
            if k == "classdict":
                return [const(n) for n, _ in st.heap[a[0].info.oid].attrs]
            if k == "instdict":
                o = self.obj(st, a[0])
                return [const(n) for n, _ in o.attrs] if isinstance(o, (InstObj, StructObj)) else None
        return None

    def rows_view(self, st, v):
        """The keys, values or items of a mapping filled by a loop, as a list; other values unchanged."""
        kind, d = (v.kind, v.args[0]) if isinstance(v, SeqV) and v.kind in ("keys", "values", "items") else ("keys", v)
        o = self.obj(st, d)
        if isinstance(o, ListObj) and o.kind == "set" and d is v and any(isinstance(s, LoopSeg) for s in o.segs):
            return SeqV("sorted", (self.new(st, ListObj(o.segs), None),))  # in some order
        if isinstance(o, ListObj) and d is v and last(o) is not None:
            whole = self.new(st, ListObj(o.segs), None)
            return SeqV("slice", (whole, T.tmin([ZERO, T.sub(self.length(st, whole, None), const(last(o)))], "max"), None))
        if not isinstance(o, DictObj) or not o.rows:
            return v

        def pick(seg):
            if isinstance(seg, Item):
                return Item(seg.guard, seg.value if kind == "items" else seg.value.items[kind == "values"])
            return replace(seg, items=tuple(pick(x) for x in seg.items))
        return self.new(st, ListObj(tuple(pick(s) for s in o.rows)), None)

    def as_indexed(self, st, v):
        v = self.rows_view(st, v)
        if isinstance(v, RangeV):
            if v.step == ONE:
                trip = None if v.stop is None else T.sub(v.stop, v.start)
            elif v.stop is None:
                trip = None
            else:
                d = T.sub(v.stop, v.start)
                if T.is_int_const(v.step) and cval(v.step) < 0:
                    d, s = T.sub(ZERO, d), T.sub(ZERO, v.step)
                else:
                    s = v.step
                trip = T.divexact(d, s)
                if trip is None:
                    trip = Term("bin", "ceildiv", d, s, "int")
            return Ix(trip, lambda k: T.add(v.start, T.mul(v.step, k)))
        if isinstance(v, ParamSeq):
            return Ix(v.length, lambda k: self.param_elem(self, st, v, k))
        if isinstance(v, Term):
            if T.ty(v) == "bytes":
                p = self.parts(v)
                if p is not None:
                    return Ix(self.length(st, v, None), lambda k: Term("load", p[0], T.add(p[1], k), "u1"))
            if T.ty(v) == "str":
                return Ix(Term("len", v), lambda k: Term("call", "getitem", v, k, "str"))
            if v.op in ("sym", "item") and T.ty(v) is None:
                return Ix(Term("len", v), lambda k: Term("item", v, k))
            return None
        cd = self.cdata(st, v)
        if cd is not None and isinstance(cd[0], ArrayCT):
            ct, buf, off = cd
            sz = self.size_term(ct.elem)
            return Ix(ct.n, lambda k: self.field_value(st, buf, T.add(off, T.mul(sz, k)), ct.elem, None))
        items = self.known_items(st, v)
        if items is not None:
            def get(k):
                if T.is_int_const(k) and -len(items) <= cval(k) < len(items):
                    return items[int(cval(k))]
                return self.unknown(st, None, "element of a known list at an unknown index")
            return Ix(const(len(items)), get)
        o = self.obj(st, v)
        if isinstance(o, ListObj):
            if len(o.segs) == 1 and isinstance(o.segs[0], LoopSeg):
                s = o.segs[0]
                if s.guard == TRUE and not s.breaks and len(s.items) == 1 and isinstance(s.items[0], Item) and s.items[0].guard == TRUE:
                    it = Term("iter", s.space)
                    loc = self.local_oids(st, s)
                    return Ix(s.trip, lambda k: s.items[0].value if k == it else self.inst(st, s.items[0].value, {it: k}, loc), s.space, loc, self.covers(s))
            return None
        if isinstance(v, SeqV):
            a = v.args
            if v.kind == "enumerate":
                ix = self.as_indexed(st, a[0])
                if ix is None:
                    return None
                return Ix(ix.trip, lambda k: TupleV((T.add(a[1], k), ix.get(k))), ix.space, ix.local, ix.whole)
            if v.kind == "zip":
                ixs = [self.as_indexed(st, x) for x in a]
                if any(i is None for i in ixs) or not ixs:
                    return None
                trips = [i.trip for i in ixs if i.trip is not None]
                sp = next((i for i in ixs if i.space), None)
                trip = T.tmin(trips) if trips else None
                return Ix(trip, lambda k: TupleV(tuple(i.get(k) for i in ixs)), sp.space if sp else None, sp.local if sp else (), bool(sp and sp.whole and sp.trip == trip))
            if v.kind == "slice":
                ix = self.as_indexed(st, a[0])
                if ix is None:
                    return None
                hi = a[2]
                trip = ix.trip if hi is None else hi if ix.trip is None else T.tmin([ix.trip, hi])
                if a[1] == ZERO:
                    return Ix(trip, ix.get, ix.space, ix.local, ix.whole and trip == ix.trip)
                return Ix(None if trip is None else T.sub(trip, a[1]), lambda k: ix.get(T.add(a[1], k)))
            if v.kind == "reversed":
                ix = self.as_indexed(st, a[0])
                if ix is None or ix.trip is None:
                    return None
                return Ix(ix.trip, lambda k: ix.get(T.sub(T.sub(ix.trip, ONE), k)))
            if v.kind == "repeat":
                return Ix(a[1], lambda k: a[0])
            if v.kind == "sorted":  # some permutation of the elements
                ix = self.as_indexed(st, a[0])
                if ix is None:
                    return None
                what = self.freeze(self.snap(st, a[0]))
                if len(a) > 1 and a[1]:
                    what = const(f"order {self.orders.setdefault(what, len(self.orders))}")
                return Ix(ix.trip, lambda k: ix.get(Term("call", "sortby" if len(a) > 1 and a[1] else "sortidx", what, k, "int")))
        if isinstance(o, IterObj):
            ix = self.as_indexed(st, o.seq)
            if ix is None:
                return None
            if o.pos == ZERO:
                return ix
            return Ix(None if ix.trip is None else T.sub(ix.trip, o.pos), lambda k: ix.get(T.add(o.pos, k)))
        return None

    def key_pairs(self, k, x):
        """What must be equal for key k to be key x; None when they never are."""
        if k == x:
            return []
        if isinstance(k, Term) and isinstance(x, Term):
            return None if is_const(k) and is_const(x) else [(k, x)]
        if isinstance(k, TupleV) and isinstance(x, TupleV) and len(k.items) == len(x.items):
            ps = [self.key_pairs(a, b) for a, b in zip(k.items, x.items)]
            return None if None in ps else [y for q in ps for y in q]
        if isinstance(k, ArrayCT) and isinstance(x, ArrayCT) and k.elem == x.elem:
            return self.key_pairs(k.n, x.n)
        return None

    def by_key(self, y, ps):
        """Value y, knowing that the first of each pair is the second."""
        m = {}
        for before, x in ps:
            if is_const(before):
                continue
            m[before] = x
            if before.op == "bytes" and x.op == "bytes":
                for t in T.walk((y,)):
                    d = T.sub(t.args[1], before.args[1]) if t.op in ("load", "bytes") and t.args[0] == before.args[0] else None
                    if d is not None and T.is_int_const(d) and cval(d) >= 0 and is_const(before.args[2] or NONE):
                        size = load_size(t.args[2]) if t.op == "load" else cval(t.args[2]) if is_const(t.args[2]) else None
                        if isinstance(size, int) and cval(d) + size <= cval(before.args[2]):
                            m[t] = Term(t.op, x.args[0], T.add(x.args[1], d), *t.args[2:])
        return T.subst(y, m) if m else y

    def turns(self, ref, h):
        """What earlier turns of the running loops may have put into the mapping: [(key, value, state)] and a function that renames what
        belongs to a turn; None when not known."""
        outer, found = [], []
        l, first = h.prev, h
        while l and l in self.rounds and l not in outer:
            entry, end = self.rounds[l]
            o, e = entry.heap.get(ref.oid), end.heap.get(ref.oid)
            if not isinstance(o, DictObj) or not isinstance(e, DictObj) or o.base is not None or e.base is not None:
                return None
            outer.append(l)
            found.append((e, end))
            first, l = o, o.prev
        if l in self.loops:
            return None
        out, seen = [], {k for k, _, _ in first.entries}
        for e, end in found:
            for k, _, v in e.entries:
                if k not in seen:
                    seen.add(k)
                    out.append((k, v, end))
        common = self.loops
        for l in outer:
            around = self.loops[:self.loops.index(l)] if l in self.loops else self.loopinfo[l].loops if l in self.loopinfo else ()
            common = common[:next((i for i, (a, b) in enumerate(zip(common, around)) if a != b), min(len(common), len(around)))]
        stay = {n for l in common for n in (l, self.spaces.get(l, l))}
        m = {}
        placed = any(moving(k) for k, _, _ in out)

        def renamed(y):
            for t in T.walk((y,)):
                if t in m or not isinstance(t, Term) or t.op not in TURN or t.args[0] in stay:
                    continue
                if t.op == "iter" or t.op in ("phi", "plen") and T.ty(t) in ("int", None) and (isinstance(t.args[1], tuple) or not placed):
                    m[t] = Term("sym", f"earlier {t!r}", "int")
                elif t.op != "iter":
                    m[t] = T.opaque("something of an earlier turn", T.ty(t))
            return T.subst(y, m) if m else y
        return out, renamed, outer == [h.prev] and h.prev in self.loops

    def lookup(self, st, ref, h, x, node):
        """(whether key x is in the mapping, function giving its value), taking into account keys that may be equal; None when not known."""
        if not isinstance(ref, Ref) or h.base is not None or len(h.entries) > 400:
            return None
        cands, free = [], False
        if h.prev:
            ts = self.turns(ref, h)
            if ts is None:
                return None
            out, renamed, single = ts
            mine = {k for k, _, _ in out}
            for k, v, end in out:
                if single and k == x and any(not is_const(t) and one_to_one(t, self.spaces[h.prev]) for t in key_parts(k)):
                    continue
                if any(t.op == "opaque" for t in T.walk((k,))):
                    return None
                ps = self.key_pairs(renamed(k), x)
                if ps is not None:
                    cands.append((None, self.later(st, v, end, renamed, ps, ref)))
        n = 0
        here = {s for l in self.loops for s in (l, self.spaces.get(l, l))}
        for kk, g, v in h.entries:
            if h.prev and any(t.op in TURN and t.args[0] not in here for t in T.walk((kk,))):
                # Stands for what the turns of a loop that is over put there.
                if kk not in mine:
                    ps = self.key_pairs(renamed(kk), x)
                    if ps is not None:
                        cands.append((None, self.later(st, v, st, renamed, ps, ref)))
                continue
            ps = self.key_pairs(kk, x)
            if ps is None:
                continue
            c = g
            if ps:
                n += 1
                c = conj([g, self.truth(st, self.compare_op("Eq", x, kk, st, node), node)]) if n <= 4 else None
            if c != FALSE:
                cands.append((c, lambda v=v, ps=ps: v if isinstance(v, Ref) else self.by_key(v, ps)))
        if not cands:
            return FALSE, lambda: UNDEF
        if n > 4:
            cands = [(None if c is not TRUE else c, f) for c, f in cands]
        open_ = any(c is None for c, _ in cands)
        has = Term("sym", f"some earlier turn stored {x!r} in {ref.oid}", "bool")
        there = disj([c for c, _ in cands if c is not None] + [has] * open_)

        def value():
            vals = [(c, f()) for c, f in cands]
            first = vals[0][1]
            if not isinstance(first, Ref) and all(v == first for _, v in vals):
                return first
            r = first
            for i, (c, v) in enumerate(vals[1:]):
                r = merge_val(Term("sym", f"turn {i} stored {x!r} in {ref.oid}", "bool") if c is None else c, v, r)
            return r
        return there, value

    def later(self, st, v, end, renamed, ps, ref):
        return lambda: self.of_turn(st, v, end, lambda y: self.by_key(renamed(y), ps), ref)

    def of_turn(self, st, v, end, f, holder, memo=None):
        """Value v of state end, with its terms rewritten by f."""
        memo = {} if memo is None else memo
        again = lambda y: self.of_turn(st, y, end, f, holder, memo)
        if isinstance(v, Term):
            return f(v)
        if isinstance(v, TupleV):
            return TupleV(tuple(again(i) for i in v.items))
        if isinstance(v, IteV):
            return merge_val(f(v.cond), again(v.a), again(v.b))
        if isinstance(v, ArrayCT):
            return f(v)
        if isinstance(v, (ClassV, FuncV, SimpleCT, ExtV)):
            return v
        if not isinstance(v, Ref):
            return self.unknown(st, None, "something kept by an earlier turn")
        if v.oid in memo:
            return memo[v.oid]
        o = end.heap.get(v.oid)
        a = self.alloc[v.oid]
        if not any(l in self.loops for l in a.loops) or o is None:
            return v
        r = memo[v.oid] = self.new(st, o)
        h = self.alloc[holder.oid]
        self.alloc[r.oid] = type(a)(h.phase, a.line, a.path, a.func, h.loops)
        if isinstance(o, StructObj):
            o = replace(o, buf=again(Ref(o.buf)).oid, off=f(o.off), attrs=tuple((k, again(x)) for k, x in o.attrs))
        elif isinstance(o, BufObj):
            o = replace(o, root=f(o.root), base=f(o.base), over=tuple(((f(k[0]), k[1]), again(x)) for k, x in o.over))
        elif isinstance(o, InstObj):
            o = replace(o, attrs=tuple((k, again(x)) for k, x in o.attrs))
        elif isinstance(o, DictObj) and not o.prev and o.base is None:
            o = replace(o, entries=tuple((f(k) if isinstance(k, Term) else k, f(g), again(x)) for k, g, x in o.entries), rows=())
        elif isinstance(o, ListObj) and not any(isinstance(s, PrevSeg) for s in o.segs):
            o = replace(o, segs=tuple(self.seg_of_turn(s, f, again) for s in o.segs))
        else:
            o = ExtObj("unknown", (T.opaque("something kept by an earlier turn"),))
        st.heap[r.oid] = o
        return r

    def seg_of_turn(self, s, f, again):
        if isinstance(s, Item):
            return Item(f(s.guard), again(s.value))
        return replace(s, guard=f(s.guard), trip=None if s.trip is None else f(s.trip), items=tuple(self.seg_of_turn(i, f, again) for i in s.items), breaks=tuple(f(b) for b in s.breaks))

    def alloc_at(self, a, m):
        """Where an object of iteration k of a loop comes from, seen from the loops that choose k."""
        spaces = {it.args[0]: k for it, k in m.items() if it.op == "iter"}
        gone = [l for l in a.loops if l in self.loopinfo and self.loopinfo[l].space in spaces]
        if not gone:
            return a
        loops = tuple(l for l in a.loops if l not in gone)
        for l in self.loops:
            if l not in loops and any(one_to_one(spaces[self.loopinfo[g].space], self.spaces.get(l, l)) for g in gone):
                loops += (l,)
        return type(a)(a.phase, a.line, a.path, a.func, loops)

    def inst(self, st, v, m, local, memo=None):
        """The same value in another iteration."""
        memo = {} if memo is None else memo
        if isinstance(v, Ref) and v.oid in local:
            if v.oid in memo:
                return memo[v.oid]
            o = st.heap[v.oid]
            r = self.new(st, o)
            self.alloc[r.oid] = self.alloc_at(self.alloc[v.oid], m)
            self.twin[r.oid] = v.oid
            memo[v.oid] = r
            f = lambda x: self.inst(st, x, m, local, memo)
            if isinstance(o, StructObj):
                b = f(Ref(o.buf)).oid
                st.heap[r.oid] = replace(o, buf=b, off=T.subst(o.off, m), attrs=tuple((k, f(x)) for k, x in o.attrs))
            elif isinstance(o, BufObj):
                st.heap[r.oid] = replace(o, root=T.subst(o.root, m), base=T.subst(o.base, m), over=tuple(((T.subst(k[0], m), k[1]), f(x)) for k, x in o.over))
            elif isinstance(o, InstObj):
                st.heap[r.oid] = replace(o, attrs=tuple((k, f(x)) for k, x in o.attrs))
            elif isinstance(o, DictObj):
                st.heap[r.oid] = replace(o, entries=tuple((T.subst(k, m) if isinstance(k, Term) else k, T.subst(g, m), f(x)) for k, g, x in o.entries))
            elif isinstance(o, ListObj):
                st.heap[r.oid] = replace(o, segs=tuple(self.inst_seg(st, s, m, local, memo) for s in o.segs))
            return r
        if isinstance(v, TupleV):
            return TupleV(tuple(self.inst(st, x, m, local, memo) for x in v.items))
        if isinstance(v, IteV):
            return merge_val(T.subst(v.cond, m), self.inst(st, v.a, m, local, memo), self.inst(st, v.b, m, local, memo))
        if isinstance(v, ViewV):
            b = self.inst(st, Ref(v.buf), m, local, memo).oid if v.buf in local else v.buf
            return ViewV(b, v.cls, T.subst(v.off, m))
        return T.subst(v, m)

    def inst_seg(self, st, s, m, local, memo):
        if isinstance(s, Item):
            return Item(T.subst(s.guard, m), self.inst(st, s.value, m, local, memo))
        if isinstance(s, LoopSeg):
            return replace(s, guard=T.subst(s.guard, m), trip=None if s.trip is None else T.subst(s.trip, m),
                           items=tuple(self.inst_seg(st, i, m, local, memo) for i in s.items), breaks=tuple(T.subst(b, m) for b in s.breaks))
        return s

    def iterate_seq(self, st, v, node, cb):
        k, a = v.kind, v.args
        if k == "enumerate":
            if self.as_indexed(st, a[0]) is not None:
                return NotImplemented
            fid = self._hidden(st, a[1])

            def f(s, x):
                i = s.frames[fid]["i"]
                s.frames[fid]["i"] = T.add(i, ONE) if isinstance(i, Term) else self.unknown(s, node, "counter")
                return cb(s, TupleV((i, x)))
            return self.iterate(st, a[0], node, f)
        if k == "zip":
            if self.as_indexed(st, v) is not None:
                return NotImplemented
            lazy = [i for i, x in enumerate(a) if self.as_indexed(st, x) is None]
            if len(lazy) != 1:
                self.emit("unsupported", st, node, what="zip of several generators")
                return NotImplemented
            d = lazy[0]
            fid = self._hidden(st, ZERO)
            others = [(i, self.as_indexed(st, x)) for i, x in enumerate(a) if i != d]
            trips = [ix.trip for _, ix in others if ix.trip is not None]
            tag = self.new_tag(node)
            base = st.pc
            saved, self.exits = self.exits, []

            def g(s, x):
                i = s.frames[fid]["i"]
                if trips:
                    stop = T.compare(">=", i, T.tmin(trips))
                    if stop != FALSE:
                        self.add_exit("break", tag, s, None, node, pc=conj([s.pc, stop]))
                        s.pc = conj([s.pc, neg(stop)])
                s.frames[fid]["i"] = T.add(i, ONE)
                vals = [None] * len(a)
                vals[d] = x
                for j, _ in others:
                    vals[j] = self.as_indexed(s, a[j]).get(i)
                return cb(s, TupleV(tuple(vals)))
            alive = self.iterate(st, a[d], node, g)
            brk = self.take_exits(saved, lambda e: e.kind == "break" and e.target == tag)
            return self.rejoin(st, alive, brk, base, len(saved))
        if k == "map":
            f, seqs = a[0], a[1:]
            src = seqs[0] if len(seqs) == 1 else SeqV("zip", tuple(seqs))

            def h(s, x):
                args = [x] if len(seqs) == 1 else list(x.items)
                return cb(s, self.call(s, f, args, {}, node))
            return self.iterate(st, src, node, h)
        if k == "starmap":
            def h2(s, x):
                items = self.known_items(s, x)
                return cb(s, self.call(s, a[0], items if items is not None else [SeqV("star", (x,))], {}, node))
            return self.iterate(st, a[1], node, h2)
        if k in ("filter", "filterfalse"):
            def h3(s, x):
                r = x if a[0] == NONE else self.call(s, a[0], [x], {}, node)
                c = self.decide(s, self.truth(s, r, node))
                if k == "filterfalse":
                    c = neg(c)
                return self.branch(s, c, lambda y: cb(y, x), lambda y: True)
            return self.iterate(st, a[1], node, h3)
        if k == "takewhile":
            tag = self.new_tag(node)
            base = st.pc
            saved, self.exits = self.exits, []

            def h4(s, x):
                c = self.decide(s, self.truth(s, self.call(s, a[0], [x], {}, node), node))
                if c != TRUE:
                    self.add_exit("break", tag, s, None, node, pc=conj([s.pc, neg(c)]))
                    if c == FALSE:
                        return False
                    s.pc = conj([s.pc, c])
                return cb(s, x)
            alive = self.iterate(st, a[1], node, h4)
            brk = self.take_exits(saved, lambda e: e.kind == "break" and e.target == tag)
            return self.rejoin(st, alive, brk, base, len(saved))
        if k == "chain":
            for x in a:
                if not self.iterate(st, x, node, cb):
                    return False
            return True
        if k == "chainiter":
            return self.iterate(st, a[0], node, lambda s, x: self.iterate(s, x, node, cb))
        if k == "slice":
            if self.as_indexed(st, a[0]) is not None:
                return NotImplemented
            if a[1] == ZERO and a[2] is not None:
                # Takes at most a[2] elements; the source is not advanced past the last one taken.
                fid = self._hidden(st, ZERO)
                tag = self.new_tag(node)

                def run(s0):
                    base = s0.pc
                    saved, self.exits = self.exits, []

                    def h5(s, x):
                        i = s.frames[fid]["i"]
                        s.frames[fid]["i"] = T.add(i, ONE)
                        if not cb(s, x):
                            return False
                        stop = T.compare(">=", T.add(i, ONE), a[2])
                        if stop != FALSE:
                            self.add_exit("break", tag, s, None, node, pc=conj([s.pc, stop]))
                            if stop == TRUE:
                                return False
                            s.pc = conj([s.pc, neg(stop)])
                        return True
                    alive = self.iterate(s0, a[0], node, h5)
                    brk = self.take_exits(saved, lambda e: e.kind == "break" and e.target == tag)
                    return self.rejoin(s0, alive, brk, base, len(saved))
                return self.branch(st, self.decide(st, T.compare("<=", a[2], ZERO)), lambda s: True, run)
            return NotImplemented
        if k in ("keys", "values", "items"):
            o = self.obj(st, a[0])
            if isinstance(o, DictObj) and not o.prev and o.base is None:
                for kk, g, vv in o.entries:
                    x = {"keys": kk, "values": vv, "items": TupleV((kk, vv))}[k]
                    if not self.branch(st, self.decide(st, g), lambda s: cb(s, x), lambda s: True):
                        return False
                return True
        if k == "iterfunc":  # iter(callable, sentinel)
            tag = self.new_tag(node)
            base = st.pc
            saved, self.exits = self.exits, []

            def h6(s, kappa):
                x = self.call(s, a[0], [], {}, node)
                c = self.decide(s, self.truth(s, self.compare_op("Eq", x, a[1], s, node), node))
                if c != FALSE:
                    self.add_exit("break", tag, s, None, node, pc=conj([s.pc, c]))
                    if c == TRUE:
                        return False
                    s.pc = conj([s.pc, neg(c)])
                return cb(s, x)
            alive = self.run_loop(st, node, None, h6)
            brk = self.take_exits(saved, lambda e: e.kind == "break" and e.target == tag)
            return self.rejoin(st, alive, brk, base, len(saved))
        return NotImplemented

    def _hidden(self, st, start):
        mod = next(iter(self.modules))
        return self.new_frame(st, mod, "<counter>", (), "comp", {"i": start})

    # -- lists and dictionaries
    def list_append(self, st, ref, v, node):
        if isinstance(ref, IteV):
            self.lift(st, ref, lambda s, r: self.list_append(s, r, v, node) and NONE or NONE)
            return True
        o = st.heap[ref.oid]
        if o.kind == "set" and any(isinstance(s, Item) and s.guard == TRUE and s.value == v for s in o.segs):
            return True
        self.mutate(st, ref, ListObj(o.segs + (Item(TRUE, v),), o.kind), node, "append")
        return True

    def list_extend(self, st, ref, v, node):
        if isinstance(ref, IteV):
            self.lift(st, ref, lambda s, r: self.list_extend(s, r, v, node) or NONE)
            return
        v = self.rows_view(st, v)
        if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), ListObj):
            o, o2 = st.heap[ref.oid], st.heap[v.oid]
            if not any(isinstance(s, PrevSeg) for s in o2.segs):
                self.mutate(st, ref, ListObj(o.segs + o2.segs, o.kind), node, "extend")
                return
        if not self.lift_iterate(st, v, node, lambda s, x: self.list_append(s, ref, x, node)):
            from sa.interp import Dead
            raise Dead()

    def dict_update(self, st, ref, v, node):
        o = self.obj(st, v)
        if isinstance(v, IteV):
            self.lift(st, v, lambda s, x: self.dict_update(s, ref, x, node) or NONE)
            return
        if isinstance(o, DictObj) and not o.prev and o.base is None:
            for k, g, x in o.entries:
                if g == TRUE:
                    self.setitem(st, ref, k, x, node)
                else:
                    self.branch(st, self.decide(st, g), lambda s: self.setitem(s, ref, k, x, node) or True, lambda s: True)
            return
        if isinstance(o, DictObj):
            mine = st.heap[ref.oid]
            if not mine.entries and not mine.prev and mine.base is None:
                self.mutate(st, ref, replace(o), node, "update")
                return
        elif v is not None:
            def cb(s, x):
                items = self.known_items(s, x)
                if items is None or len(items) != 2:
                    self.setitem(s, ref, self.unknown(s, node, "key"), self.unknown(s, node, "value"), node)
                else:
                    self.setitem(s, ref, items[0], items[1], node)
                return True
            self.iterate(st, v, node, cb)
            return
        self.mutate(st, ref, replace(st.heap[ref.oid], base=self.unknown(st, node, "update from an unknown mapping")), node, "update")

    def setitem(self, st, o, k, v, node):
        if isinstance(o, IteV):
            self.lift(st, o, lambda s, x: self.setitem(s, x, k, v, node) or NONE)
            return
        h = self.obj(st, o)
        if isinstance(h, DictObj):
            if isinstance(k, IteV):
                self.branch(st, self.decide(st, k.cond), lambda s: self.setitem(s, o, k.a, v, node) or True, lambda s: self.setitem(s, o, k.b, v, node) or True)
                return
            self.mutate(st, o, h.set(k, v), node, "item")
            return
        if isinstance(h, ListObj):
            items = self.known_items(st, o)
            if items is not None and isinstance(k, Term) and T.is_int_const(k) and -len(items) <= cval(k) < len(items):
                items[int(cval(k))] = v
                self.mutate(st, o, ListObj(tuple(Item(TRUE, x) for x in items), h.kind), node, "item")
                return
            if isinstance(k, SeqV) and k.kind == "sl" and k.args == (NONE, NONE, NONE):
                out = self.new(st, ListObj(()), node)
                self.list_extend(st, out, v, node)
                self.mutate(st, o, ListObj(st.heap[out.oid].segs, h.kind), node, "slice assignment")
                return
            self.mutate(st, o, ListObj((Item(TRUE, self.unknown(st, node, "list written at an unknown index")),), h.kind), node, "item")
            return
        if isinstance(h, BufObj):
            self.mutate(st, o, replace(h, root=self.unknown(st, node, "buffer written")), node, "item")
            return
        cd = self.cdata(st, o)
        if cd is not None and isinstance(cd[0], ArrayCT) and isinstance(k, Term) and T.is_num(k):
            self.store_field(st, cd[1], T.add(cd[2], T.mul(self.size_term(cd[0].elem), k)), cd[0].elem, v, node, o)
            return
        if isinstance(o, SeqV) and o.kind in ("moddict",) and is_const(k, str):
            self.set_global(o.args[0], cval(k), v, st, node)
            return
        if isinstance(o, SeqV) and o.kind == "instdict" and is_const(k, str):
            self.setattr(st, o.args[0], cval(k), v, node)
            return
        if isinstance(h, InstObj):
            f = self.class_attr(st, h.cls, "__setitem__")
            if f is not None:
                self.call(st, BoundV(f, o), [k, v], {}, node)
                return
        self.emit("unsupported", st, node, what="item assignment to an unknown object")

    def delitem(self, st, o, k, node):
        h = self.obj(st, o)
        if isinstance(h, DictObj):
            if isinstance(k, Term) and is_const(k):
                if h.get(k) is None and not h.prev and h.base is None:
                    self.py_raise(st, "KeyError", node)
                self.mutate(st, o, h.delete(k), node, "delete")
                return
            self.mutate(st, o, replace(h, base=self.unknown(st, node, "deletion")), node, "delete")
            return
        if isinstance(h, ListObj):
            items = self.known_items(st, o)
            if isinstance(k, SeqV) and k.args == (NONE, NONE, NONE):
                self.mutate(st, o, ListObj((), h.kind), node, "delete")
                return
            if items is not None and isinstance(k, Term) and T.is_int_const(k):
                del items[int(cval(k))]
                self.mutate(st, o, ListObj(tuple(Item(TRUE, x) for x in items), h.kind), node, "delete")
                return
            self.mutate(st, o, ListObj((Item(TRUE, self.unknown(st, node, "list after deletion")),), h.kind), node, "delete")

    def getitem_opt(self, st, o, k, node):
        """Item of a mapping, None when it is definitely missing."""
        if isinstance(o, SeqV) and is_const(k, str):
            if o.kind == "moddict":
                return st.frames[self.modules[o.args[0]]].get(cval(k))
            if o.kind == "classdict":
                return aget(st.heap[o.args[0].info.oid].attrs, cval(k))
            if o.kind == "instdict":
                h = self.obj(st, o.args[0])
                return aget(h.attrs, cval(k)) if h is not None else None  # a nested structure is a new object at every access
        h = self.obj(st, o)
        if isinstance(h, DictObj):
            r = h.get(k)
            if r is not None:
                g, v = r
                c = self.decide(st, g)
                if c == TRUE:
                    return v
                if any(t.op == "phi" and isinstance(t.args[1], tuple) and t.args[1][0] == "has" for t in T.walk((g,))):
                    return IteV(c, v, UNDEF)
                was = self.lookup(st, o, replace(h, entries=tuple(e for e in h.entries if e[0] != k)), k, node)
                if was is None:
                    return IteV(c, v, self.unknown(st, node, "item of a dictionary"))
                if was[0] == FALSE:
                    return IteV(c, v, UNDEF)
                before, either = was[1](), self.decide(st, disj([c, was[0]]))
                r = merge_val(c, v, before)
                return r if either == TRUE else IteV(either, r, UNDEF)
            keysconst = all(not isinstance(kk, Term) or is_const(kk) for kk, _, _ in h.entries)
            if (not isinstance(k, Term) or is_const(k)) and keysconst and not h.prev and h.base is None:
                return None
            if isinstance(k, Term) and h.base is not None and not h.prev:
                return Term("call", "getitem", h.base, k, None)
            if isinstance(k, Term) and not is_const(k) and keysconst and not h.prev and h.base is None and h.entries:
                if T.ty(k) == "bool":
                    y, n = h.get(TRUE) or h.get(T.ONE), h.get(FALSE) or h.get(ZERO)
                    if y is not None and n is not None and y[0] == n[0] == TRUE:
                        return merge_val(T.truthy(k), y[1], n[1])
                return SelV(tuple((kk, vv) for kk, _, vv in h.entries), k)
            was = self.lookup(st, o, h, k, node)
            if was is not None:
                c = self.decide(st, was[0])
                return None if c == FALSE else was[1]() if c == TRUE else IteV(c, was[1](), UNDEF)
            return self.unknown(st, node, "item of a dictionary")
        return self.unknown(st, node, "item of an unknown mapping")

    def getitem(self, st, o, k, node):
        if isinstance(o, IteV):
            return self.lift(st, o, lambda s, x: self.getitem(s, x, k, node))
        if isinstance(k, IteV):
            return self.lift(st, k, lambda s, x: self.getitem(s, o, x, node))
        if isinstance(k, Term) and k.op == "ite" and not T.is_num(k):
            return self.fork(st, self.decide(st, k.args[0]), lambda s: self.getitem(s, o, k.args[1], node), lambda s: self.getitem(s, o, k.args[2], node))
        if isinstance(o, ExtV):
            return ExtV(o.name + "[]") if not o.name.endswith("[]") else o
        if isinstance(o, ClassV):
            return o
        if isinstance(o, SelV):
            opts = []
            for kk, vv in o.options:
                opts.append((kk, self.getitem(st, vv, k, node)))
            return SelV(tuple(opts), o.key)
        h = self.obj(st, o)
        if isinstance(h, DictObj) or (isinstance(o, SeqV) and o.kind in ("moddict", "classdict", "instdict")):
            r = self.getitem_opt(st, o, k, node)
            if r is None:
                self.py_raise(st, "KeyError", node)
            if isinstance(r, IteV) and r.b == UNDEF:
                self.may_raise(st, node, "KeyError", neg(r.cond))
                return r.a
            return r
        if isinstance(h, InstObj):
            f = self.class_attr(st, h.cls, "__getitem__")
            if f is not None:
                return self.call(st, BoundV(f, o), [k], {}, node)
        if isinstance(k, SeqV) and k.kind == "sl":
            return self.slice(st, o, k, node)
        if isinstance(o, Term):
            if is_const(o) and is_const(k):
                try:
                    return const(cval(o)[cval(k)])
                except IndexError:
                    self.py_raise(st, "IndexError", node)
                except Exception:
                    self.py_raise(st, "TypeError", node)
            if T.ty(o) == "bytes" and isinstance(k, Term) and T.is_num(k):
                if o.op == "load":
                    if o.args[2] == "c1" and k in (ZERO, const(-1)):
                        return Term("load", o.args[0], o.args[1], "u1")
                    if isinstance(o.args[2], tuple) and T.is_int_const(k) and cval(k) >= 0:
                        return Term("load", o.args[0], T.add(o.args[1], k), "u1")
                p = self.parts(o)
                if p is not None and (T.lower(k) or 0) >= 0 and T.lower(k) is not None:
                    return Term("load", p[0], T.add(p[1], k), "u1")
                return self.unknown(st, node, "byte", "int")
            if o.op in ("sym", "item", "call") and T.ty(o) is None:
                return Term("item", o, k if isinstance(k, Term) else self.freeze(self.snap(st, k)))
            return self.unknown(st, node, "item of an unknown value", "str" if T.ty(o) == "str" else None)
        if isinstance(k, Term) and T.is_num(k):
            items = self.known_items(st, o)
            if items is not None:
                if T.is_int_const(k):
                    if -len(items) <= cval(k) < len(items):
                        return items[int(cval(k))]
                    self.py_raise(st, "IndexError", node)
                if len(items) >= 2 and T.ty(k) == "bool":
                    return merge_val(T.truthy(k), items[1], items[0])
                return SelV(tuple((const(i), x) for i, x in enumerate(items)), k) if items else self.unknown(st, node, "item")
            ix = self.as_indexed(st, o)
            if ix is not None:
                if T.is_int_const(k) and cval(k) < 0 and ix.trip is not None:
                    k = T.add(ix.trip, k)
                self.emit("index", st, node, index=k, trip=ix.trip)
                return ix.get(k)
            o2 = self.obj(st, o)
            if isinstance(o2, ListObj):
                # index into the leading plain items
                if T.is_int_const(k) and 0 <= cval(k) < len(o2.segs) and all(isinstance(s, Item) and s.guard == TRUE for s in o2.segs[:int(cval(k)) + 1]):
                    return o2.segs[int(cval(k))].value
                if T.is_int_const(k) and cval(k) < 0 and -cval(k) <= len(o2.segs) and all(isinstance(s, Item) and s.guard == TRUE for s in o2.segs[int(cval(k)):]):
                    return o2.segs[int(cval(k))].value
        return self.unknown(st, node, "item of an unknown object")

    def slice(self, st, o, sl, node):
        lo, hi, step = sl.args
        if isinstance(hi, IteV) or isinstance(lo, IteV):
            return self.unknown(st, node, "slice with gated bounds")
        if isinstance(o, Term):
            if step not in (NONE, ONE):
                if is_const(o) and all(x == NONE or is_const(x) for x in sl.args):
                    return const(cval(o)[slice(*[None if x == NONE else cval(x) for x in sl.args])])
                return Term("call", "slice3", o, lo, hi, step, T.ty(o))
            if T.ty(o) in ("bytes", "str") or T.ty(o) is None and not (o.op == "sym" and isinstance(o.args[0], str) and o.args[0].startswith("args.")):
                return self.slice_bytes(st, o, lo, hi, node)
        items = self.known_items(st, o)
        if items is not None and all(x == NONE or is_const(x) for x in sl.args):
            r = items[slice(*[None if x == NONE else cval(x) for x in sl.args])]
            return TupleV(tuple(r)) if isinstance(o, TupleV) else self.new(st, ListObj(tuple(Item(TRUE, x) for x in r)), node)
        if step == const(-1) and lo == NONE and hi == NONE:
            return self.materialise(st, SeqV("reversed", (o,)), node)
        if step not in (NONE, ONE):
            return self.unknown(st, node, "extended slice")
        h = self.obj(st, o)
        if isinstance(h, ListObj) and lo == NONE and hi == NONE:
            return self.new(st, ListObj(h.segs, h.kind), node)
        if isinstance(h, BufObj):
            return self.slice_bytes(st, self.buf_bytes(st, o), lo, hi, node)
        ix = self.as_indexed(st, o)
        if ix is not None and ix.trip is not None:
            lo2 = ZERO if lo == NONE else lo
            hi2 = None if hi == NONE else hi
            if not T.is_num(lo2) or (hi2 is not None and not T.is_num(hi2)):
                return self.unknown(st, node, "slice with unknown bounds")
            if T.is_int_const(lo2) and cval(lo2) < 0:
                lo2 = T.add(ix.trip, lo2)
            if hi2 is not None and T.is_int_const(hi2) and cval(hi2) < 0:
                hi2 = T.add(ix.trip, hi2)
            elif hi2 is not None and not T.is_int_const(hi2) and (T.lower(hi2) is None or T.lower(hi2) < 0):
                # A negative bound counts from the end.
                hi2 = T.ite(T.lt0(hi2), T.tmin([ZERO, T.add(ix.trip, hi2)], "max"), hi2)
            return self.materialise(st, SeqV("slice", (o, lo2, hi2)), node)
        return self.unknown(st, node, "slice of an unknown object")

    def materialise(self, st, v, node, kind="list"):
        """list(v)"""
        out = self.new(st, ListObj((), kind), node)
        self.list_extend(st, out, v, node)
        return out

    def buf_bytes(self, st, ref):
        b = st.heap[ref.oid]
        return self.mkbytes(b.root, b.base, b.size, True) if not b.over else self.unknown(st, None, "modified buffer", "bytes")

    # ------------------------------------------------------------------------------------------ snapshots
    def reach(self, st, v, seen=None):
        seen = set() if seen is None else seen
        todo = [v]
        while todo:
            x = todo.pop()
            if isinstance(x, Ref):
                if x.oid in seen or x.oid not in st.heap:
                    continue
                seen.add(x.oid)
                o = st.heap[x.oid]
                if isinstance(o, ListObj):
                    segs = list(o.segs)
                    while segs:
                        s = segs.pop()
                        if isinstance(s, Item):
                            todo.append(s.value)
                        elif isinstance(s, LoopSeg):
                            segs.extend(s.items)
                elif isinstance(o, DictObj):
                    todo.extend(x for _, _, x in o.entries)
                elif isinstance(o, (InstObj,)):
                    todo.extend(x for _, x in o.attrs)
                elif isinstance(o, StructObj):
                    todo.append(Ref(o.buf))
                    todo.extend(x for _, x in o.attrs)
                elif isinstance(o, IterObj):
                    todo.append(o.seq)
            elif isinstance(x, TupleV):
                todo.extend(x.items)
            elif isinstance(x, IteV):
                todo.extend((x.a, x.b))
            elif isinstance(x, ViewV):
                todo.append(Ref(x.buf))
            elif isinstance(x, SeqV):
                todo.extend(a for a in x.args if isinstance(a, V))
        return seen

    def snap(self, st, v, depth=0, stack=()):
        """An immutable picture of a value; loop variables are renamed by nesting depth."""
        if isinstance(v, Term):
            return v
        if isinstance(v, TupleV):
            return ("tuple", tuple(self.snap(st, x, depth, stack) for x in v.items))
        if isinstance(v, IteV):
            a, b = self.snap(st, v.a, depth, stack), self.snap(st, v.b, depth, stack)
            return a if a == b else ("ite", v.cond, a, b)
        if isinstance(v, FuncV):
            return ("func", v.info.qualname)
        if isinstance(v, ClassV):
            return ("class", v.info.qualname)
        if isinstance(v, ViewV):
            b = st.heap.get(v.buf)
            if b is None:
                return ("gone",)
            nm = v.cls.info.qualname if isinstance(v.cls, ClassV) else "array"
            return ("struct", nm, b.root, T.add(b.base, v.off), self.ct_name(v.cls))
        if isinstance(v, ParamSeq):
            return ("seq", v.name if isinstance(v.name, Term) else const(v.name))
        if isinstance(v, Ref):
            if v.oid in stack:
                return ("cycle",)
            o = st.heap.get(v.oid)
            stk = stack + (v.oid,)
            if isinstance(o, ListObj):
                return (o.kind, tuple(self.snap_seg(st, s, depth, stk) for s in o.segs))
            if isinstance(o, DictObj):
                return ("dict", tuple((k if isinstance(k, Term) else self.snap(st, k, depth, stk), g, self.snap(st, x, depth, stk)) for k, g, x in o.entries), o.prev, o.base)
            if isinstance(o, StructObj):
                b = st.heap[o.buf]
                nm = o.cls.info.qualname if isinstance(o.cls, ClassV) else "array"
                over = tuple((k, self.snap(st, x, depth, stk)) for k, x in b.over)
                return ("struct", nm, b.root, T.add(b.base, o.off), self.ct_name(o.cls)) + ((over,) if over else ())
            if isinstance(o, InstObj):
                return ("inst", o.cls.info.qualname, tuple((k, self.snap(st, x, depth, stk)) for k, x in o.attrs))
            if isinstance(o, BufObj):
                return ("buffer", o.root, o.base, o.size)
            if isinstance(o, StreamObj):
                return ("stream", o.name)
            if isinstance(o, GenObj):
                return ("generator", o.func.info.qualname if isinstance(o.func, FuncV) else "genexp")
            if isinstance(o, ExtObj):
                return ("ext", o.kind) + ((o.data[:1] or (T.opaque("an unknown object"),)) if o.kind == "unknown" else ())
            return ("object", type(o).__name__)
        if isinstance(v, SelV):
            return ("sel", tuple((k if isinstance(k, Term) else self.snap(st, k), self.snap(st, x, depth, stack)) for k, x in v.options), v.key)
        if isinstance(v, SeqV) and v.kind == "sorted":
            return ("sorted", const(len(v.args) > 1 and v.args[1]), self.snap(st, v.args[0], depth, stack))
        return ("value", v.show() if hasattr(v, "show") else repr(v))

    def ct_name(self, ct):
        if isinstance(ct, ClassV):
            return ct.info.qualname
        if isinstance(ct, ArrayCT):
            return ("array", self.ct_name(ct.elem), ct.n)
        return ct.kind if isinstance(ct, SimpleCT) else "?"

    def snap_seg(self, st, s, depth, stk):
        if isinstance(s, Item):
            return ("item", s.guard, self.snap(st, s.value, depth, stk))
        if isinstance(s, LoopSeg):
            m = {Term("iter", s.space): Term("iter", f"#{depth}")}
            items = tuple(self.snap_seg(st, i, depth + 1, stk) for i in s.items)
            return ("loop", s.guard, s.trip, T.subst(items, m), T.subst(tuple(s.breaks), m))
        return ("prev", s.loop)

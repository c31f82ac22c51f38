"""Models of calls: instantiation, builtins, methods of builtin values and the library functions the package may use."""
from __future__ import annotations

import codecs
import itertools
import re
from dataclasses import replace

from sa import terms as T
from sa.texts import PURE
from sa.terms import FALSE, NONE, ONE, TRUE, ZERO, Term, conj, const, cval, disj, is_const, neg
from sa.values import *  # noqa: F401,F403
from sa.values import UNDEF, aget, aset

CHANGING = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "swapcase", "replace", "zfill", "ljust",
            "rjust", "center", "casefold", "expandtabs", "translate", "removeprefix", "removesuffix"}
BOOL_METHODS = {"startswith", "endswith", "isdigit", "isalpha", "isalnum", "isspace", "islower", "isupper", "isdecimal", "isnumeric", "isidentifier",
                "isascii", "isprintable"}
# Library functions without an effect outside the process and without a model of their own.
PURE_PREFIX = ("os.path.", "math.", "string.", "re.", "struct.", "typing.", "types.", "enum.", "abc.", "dataclasses.", "operator.", "itertools.",
               "functools.", "collections.", "textwrap.", "copy.", "ctypes.", "json.", "contextlib.", "argparse.", "numbers.", "pathlib.", "zlib.",
               "binascii.", "codecs.", "datetime.", "time.", "io.", "sys.", "warnings.", "logging.", "inspect.", "array.", "gzip.", "__future__.")


class Calls:
    # ------------------------------------------------------------------------------------------ instances
    def instantiate(self, st, cls, args, kwargs, node):
        info = cls.info
        if self.is_struct(cls):
            ref = self.new_struct(st, cls, Term("zero"), ZERO, node)
            init = self.class_attr(st, cls, "__init__")
            if init is not None:
                self.call(st, BoundV(init, ref), args, kwargs, node)
                return ref
            lay = self.layout(cls)
            for f, v in zip(lay.fields, args):
                self.init_field(st, ref, f, v, node)
            for k, v in kwargs.items():
                if k in lay.names:
                    self.init_field(st, ref, lay.names[k], v, node)
                else:
                    self.setattr(st, ref, k, v, node)
            return ref
        names = {c.name for c in self.mro(cls) if isinstance(c, ExtV)}
        if any(self.exc_class(n) is not None and isinstance(self.exc_class(n), type) and issubclass(self.exc_class(n), BaseException) for n in names):
            ref = self.new(st, InstObj(cls, (("args", TupleV(tuple(args))),)), node)
            self.exc_objs[ref.oid] = info.qualname
            init = self.class_attr(st, cls, "__init__")
            if init is not None:
                self.call(st, BoundV(init, ref), args, kwargs, node)
            return ref
        new = self.class_attr(st, cls, "__new__")
        if new is not None:
            return self.unknown(st, node, "instance made by __new__")
        if names & {"dict", "list", "tuple", "int", "str", "bytes", "enum.Enum", "enum.IntEnum", "enum.Flag", "collections.OrderedDict", "typing.TypedDict"}:
            if names & {"typing.TypedDict", "dict", "collections.OrderedDict"} and self.class_attr(st, cls, "__init__") is None:
                return self.call_ext(st, ExtV("dict"), args, kwargs, node)
            return self.unknown(st, node, f"instance of {info.qualname}, which extends a builtin type")
        ref = self.new(st, InstObj(cls), node)
        init = self.class_attr(st, cls, "__init__")
        if init is not None:
            self.call(st, BoundV(init, ref), args, kwargs, node)
            return ref
        if getattr(info, "dataclass", False) or any(getattr(c.info, "dataclass", False) for c in self.mro(cls) if isinstance(c, ClassV)):
            order = []
            for c in reversed(self.mro(cls)):
                if isinstance(c, ClassV):
                    o = aget(st.heap[c.info.oid].attrs, "__annotations_order__")
                    for x in (o.items if o is not None else ()):
                        if cval(x) not in order:
                            order.append(cval(x))
            vals = dict(zip(order, args))
            if len(args) > len(order):
                self.py_raise(st, "TypeError", node, "too many arguments")
            for k, v in kwargs.items():
                if k not in order or k in vals:
                    self.py_raise(st, "TypeError", node, f"unexpected argument {k}")
                vals[k] = v
            attrs = []
            for n in order:
                if n not in vals:
                    d = self.class_attr(st, cls, n)
                    if d is None:
                        self.py_raise(st, "TypeError", node, f"missing argument {n}")
                    o = self.obj(st, d)
                    if isinstance(o, ExtObj) and o.kind == "dcfield":
                        kw = dict(o.data)
                        if "default_factory" in kw:
                            d = self.call(st, kw["default_factory"], [], {}, node)
                        elif "default" in kw:
                            d = kw["default"]
                        else:
                            self.py_raise(st, "TypeError", node, f"missing argument {n}")
                    vals[n] = d
                attrs.append((n, vals[n]))
            st.heap[ref.oid] = InstObj(cls, tuple(attrs))
            post = self.class_attr(st, cls, "__post_init__")
            if post is not None:
                self.call(st, BoundV(post, ref), [], {}, node)
            return ref
        if (args or kwargs) and not names - {"object", "typing.Generic", "typing.Generic[]", "abc.ABC", "typing.Protocol"}:
            self.py_raise(st, "TypeError", node, f"{info.name}() takes no arguments")
        return ref

    def init_field(self, st, ref, f, v, node):
        """Initial value of a structure made by the program (no event: it is not a change of decoded data)."""
        o = st.heap[ref.oid]
        b = st.heap[o.buf]
        kind = f.ct.kind if isinstance(f.ct, SimpleCT) else None
        if kind is None and isinstance(f.ct, ArrayCT) and isinstance(f.ct.elem, SimpleCT) and f.ct.elem.kind == "c1":
            kind = ("c", cval(f.ct.n) if is_const(f.ct.n) else f.ct.n)
        if kind is None:
            st.heap[o.buf] = replace(b, root=self.unknown(st, node, "structure built from parts"))
        else:
            st.heap[o.buf] = replace(b, over=b.over + (((T.add(o.off, const(f.off)), kind), v),))

    # ------------------------------------------------------------------------------------------ helpers
    def search(self, st, seq, node, start, step):
        """Iterate seq with a hidden variable v; step(state, v, elem) -> (stop condition, new v)."""
        fid = self._hidden(st, start)
        tag = self.new_tag(node)
        base = st.pc
        saved, self.exits = self.exits, []

        def cb(s, x):
            stop, v = step(s, s.frames[fid]["i"], x)
            if stop != FALSE:
                s2 = s if stop == TRUE else s.clone()
                s2.frames[fid]["i"] = v[0] if isinstance(v, tuple) else v
                self.add_exit("break", tag, s2, None, node, pc=conj([s.pc, stop]))
                if stop == TRUE:
                    return False
                s.pc = conj([s.pc, neg(stop)])
                if isinstance(v, tuple):
                    s.frames[fid]["i"] = v[1]
            else:
                s.frames[fid]["i"] = v[1] if isinstance(v, tuple) else v
            return True
        alive = self.iterate(st, seq, node, cb)
        brk = self.take_exits(saved, lambda e: e.kind == "break" and e.target == tag)
        if not self.rejoin(st, alive, brk, base, len(saved)):
            from sa.interp import Dead
            raise Dead()
        return st.frames[fid]["i"]

    def pyconst(self, st, v):
        """The Python value of a fully constant abstract value, or NotImplemented."""
        if isinstance(v, Term):
            return cval(v) if is_const(v) else NotImplemented
        if isinstance(v, TupleV):
            xs = [self.pyconst(st, x) for x in v.items]
            return NotImplemented if any(x is NotImplemented for x in xs) else tuple(xs)
        o = self.obj(st, v)
        if isinstance(o, ListObj) and o.kind == "list":
            it = self.known_items(st, v)
            xs = [self.pyconst(st, x) for x in it] if it is not None else [NotImplemented]
            return NotImplemented if any(x is NotImplemented for x in xs) else list(xs)
        return NotImplemented

    def frompy(self, st, v, node):
        if isinstance(v, (int, float, str, bytes, bool, type(None))):
            return const(v)
        if isinstance(v, tuple):
            return TupleV(tuple(self.frompy(st, x, node) for x in v))
        if isinstance(v, list):
            return self.new(st, ListObj(tuple(Item(TRUE, self.frompy(st, x, node)) for x in v)), node)
        return self.unknown(st, node, "constant")

    def call_term(self, st, name, args, kwargs, node, typ):
        fr = [a if isinstance(a, Term) else self.freeze(self.snap(st, a)) for a in args]
        kw = tuple((k, v if isinstance(v, Term) else self.freeze(self.snap(st, v))) for k, v in sorted(kwargs.items()))
        return Term("call", name, *fr, *([kw] if kw else []), typ)

    def as_bytes(self, st, v, node):
        """A bytes term for a bytes-like value, or None."""
        if isinstance(v, Term) and T.ty(v) in ("bytes", None):
            return v
        o = self.obj(st, v)
        if isinstance(o, BufObj):
            return self.buf_bytes(st, v)
        cd = self.cdata(st, v)
        if cd is not None:
            b = st.heap[cd[1]]
            if b.over:
                return self.unknown(st, node, "modified buffer", "bytes")
            return self.mkbytes(b.root, T.add(b.base, cd[2]), self.size_term(cd[0]), True)
        return None

    def arg(self, args, kwargs, i, name, default=None):
        return args[i] if len(args) > i else kwargs.get(name, default)

    # ------------------------------------------------------------------------------------------ calls of external things
    def call_ext(self, st, f, args, kwargs, node):
        if any(isinstance(a, IteV) for a in args[:1]) and not (isinstance(f, ExtV) and f.name in ("print", "#noop", "getattr", "isinstance", "list", "iter")):
            i = next(i for i, a in enumerate(args) if isinstance(a, IteV))
            if args[i].a != UNDEF and args[i].b != UNDEF:
                return self.lift(st, args[i], lambda s, x: self.call_ext(s, f, args[:i] + [x] + args[i + 1:], kwargs, node))
        if isinstance(f, ExtV):
            name = f.name.replace("builtins.", "")
            if name == "#noop":
                return NONE
            m = getattr(self, "x_" + name.replace(".", "_"), None)
            if name not in ("len",) and "." in name:
                self.emit("extcall", st, node, name=name, args=[self.snap(st, a) for a in args])
            if m is not None:
                return m(st, args, kwargs, node)
            e = self.exc_class(name)
            if isinstance(e, type) and issubclass(e, BaseException):
                return self.new(st, ExtObj("exc", (name, self.snap(st, args[0]) if args else "")), node)
            return self.other_ext(st, name, args, kwargs, node)
        if isinstance(f, ExtBound):
            return self.call_method(st, f, args, kwargs, node)
        if isinstance(f, SelV):
            a = tuple(self.snap(st, x) for x in args)
            ev = self.emit("selcall", st, node, key=f.key, options=f.options, args=a, kwargs={k: self.snap(st, v) for k, v in kwargs.items()}, refs=list(args))
            return ParamSeq(Term("rows", f.key, self.freeze(a)), "rows")
        if isinstance(f, (SimpleCT, ArrayCT)):
            if isinstance(f, ArrayCT):
                ref = self.new_struct(st, f, Term("zero"), ZERO, node)
                for i, v in enumerate(args):
                    self.setitem(st, ref, const(i), v, node)
                return ref
            return Term("cobject", str(getattr(f, "name", f)), args[0] if args and isinstance(args[0], Term) else NONE)
        if isinstance(f, Term) and f.op == "const":
            self.py_raise(st, "TypeError", node, "not callable")
        self.emit("unsupported", st, node, what="call of an unknown function")
        return self.unknown(st, node, "result of an unknown function")

    def other_ext(self, st, name, args, kwargs, node):
        if "." not in name:
            self.emit("extcall", st, node, name=name, args=[self.snap(st, a) for a in args])
        if name.startswith("os.path."):
            tys = {"splitext": None, "exists": "bool", "isfile": "bool", "isdir": "bool", "getsize": "int", "islink": "bool"}
            short = name.split(".")[-1]
            if short == "splitext":
                return TupleV((self.call_term(st, "splitext0", args, {}, node, "str"), self.call_term(st, "splitext1", args, {}, node, "str")))
            return self.call_term(st, name, args, kwargs, node, tys.get(short, "str"))
        if name in PURE and args and all(isinstance(a, Term) for a in args) and all(isinstance(a, Term) for a in kwargs.values()):
            return self.call_term(st, name, args, kwargs, node, PURE[name][1])
        if name == "re.compile" and args and all(isinstance(a, Term) for a in args):
            return self.new(st, ExtObj("pattern", (args[0], *args[1:], *kwargs.values())), node)
        for a in args:
            o = self.obj(st, a)
            if isinstance(o, (ListObj, DictObj, BufObj)) and self.alloc[a.oid].phase == "run" and not name.startswith(PURE_PREFIX):
                self.emit("unsupported", st, node, what=f"{name} may change its argument")
        return self.unknown(st, node, f"result of {name}")

    # -- builtins
    def x_len(self, st, args, kw, node):
        return self.length(st, args[0], node)

    def x_range(self, st, args, kw, node):
        a = [x for x in args]
        if not all(isinstance(x, Term) for x in a):
            return self.unknown(st, node, "range of unknown bounds")
        for x in a:
            if T.ty(x) not in ("int", "bool"):
                if T.ty(x) is not None:
                    self.py_raise(st, "TypeError", node)
                return self.unknown(st, node, "range of unknown bounds")
        if len(a) == 1:
            return RangeV(ZERO, a[0], ONE)
        return RangeV(a[0], a[1], a[2] if len(a) > 2 else ONE)

    def x_enumerate(self, st, args, kw, node):
        return SeqV("enumerate", (args[0], self.arg(args, kw, 1, "start", ZERO)))

    def x_zip(self, st, args, kw, node):
        return SeqV("zip", tuple(args))

    def x_map(self, st, args, kw, node):
        return SeqV("map", tuple(args))

    def x_filter(self, st, args, kw, node):
        return SeqV("filter", tuple(args))

    def x_reversed(self, st, args, kw, node):
        return SeqV("reversed", (args[0],))

    def x_isinstance(self, st, args, kw, node):
        return self.isinstance_cond(st, args[0], args[1], node)

    def x_issubclass(self, st, args, kw, node):
        if isinstance(args[0], (ClassV, ExtV, ArrayCT, SimpleCT)):
            return self.issub_cond(self.supers(args[0]), args[1], st, node, None)
        if isinstance(args[0], Term):
            self.py_raise(st, "TypeError", node, "issubclass")
        return self.unknown(st, node, "issubclass", "bool")

    def x_getattr(self, st, args, kw, node):
        name = args[1]
        d = args[2] if len(args) > 2 else None
        if is_const(name, str):
            return self.getattr(st, args[0], cval(name), node, d)
        if isinstance(name, Term) and name.op == "ite":
            return self.fork(st, self.decide(st, name.args[0]), lambda s: self.x_getattr(s, [args[0], name.args[1]] + args[2:], kw, node),
                             lambda s: self.x_getattr(s, [args[0], name.args[2]] + args[2:], kw, node))
        if isinstance(name, IteV):
            return self.lift(st, name, lambda s, n: self.x_getattr(s, [args[0], n] + args[2:], kw, node))
        if isinstance(args[0], ModV) and isinstance(name, Term):
            if name.op == "strcat" and len(name.args[0]) == 2 and is_const(name.args[0][0], str):
                pre, key = cval(name.args[0][0]), name.args[0][1]
                fid = self.modules.get(args[0].name)
                opts = tuple((const(n[len(pre):]), v) for n, v in st.frames[fid].items() if n.startswith(pre))
                return SelV(opts, key)
        return self.unknown(st, node, "attribute with a computed name")

    def x_hasattr(self, st, args, kw, node):
        o, name = args
        if isinstance(o, IteV):
            return merge_val(o.cond, self.x_hasattr(st, [o.a, name], kw, node), self.x_hasattr(st, [o.b, name], kw, node))
        if not is_const(name, str):
            return self.unknown(st, node, "hasattr with a computed name", "bool")
        r = self.attr(st, o, cval(name), node)
        if r is None or r == UNDEF:
            return FALSE
        if isinstance(r, IteV) and (r.a == UNDEF or r.b == UNDEF):
            return r.cond if r.b == UNDEF else neg(r.cond)
        if isinstance(r, Term) and r.op == "opaque":
            return self.unknown(st, node, "hasattr", "bool")
        return TRUE

    def x_setattr(self, st, args, kw, node):
        if is_const(args[1], str):
            self.setattr(st, args[0], cval(args[1]), args[2], node)
        else:
            self.emit("unsupported", st, node, what="setattr with a computed name")
        return NONE

    def x_delattr(self, st, args, kw, node):
        if is_const(args[1], str):
            self.setattr(st, args[0], cval(args[1]), UNDEF, node)
        return NONE

    def x_callable(self, st, args, kw, node):
        return TRUE if isinstance(args[0], (FuncV, BoundV, ClassV, ExtV, PartialV, ExtBound, WrapV)) else FALSE if isinstance(args[0], (Term, TupleV)) and T.ty(args[0]) else \
            self.unknown(st, node, "callable", "bool")

    def x_int(self, st, args, kw, node):
        if not args:
            return ZERO
        v = args[0]
        if isinstance(v, Term):
            if is_const(v) and len(args) == 1:
                try:
                    return const(int(cval(v)))
                except (ValueError, TypeError):
                    self.py_raise(st, "ValueError", node, "int()")
            if is_const(v, str) and len(args) == 2 and is_const(args[1]):
                try:
                    return const(int(cval(v), cval(args[1])))
                except ValueError:
                    self.py_raise(st, "ValueError", node, "int()")
            k = T.ty(v)
            if k == "int":
                return v
            if k == "bool":
                return T.ite(T.truthy(v), ONE, ZERO)
            if v.op == "bin" and v.args[0] == "/" and T.is_num(v.args[1]) and T.is_num(v.args[2]):
                return Term("call", "int", v, "int")
            if k in ("str", "bytes", None):
                self.may_raise(st, node, "ValueError", Term("fails", "int", v))
            return Term("call", "int", v, "int")
        return self.unknown(st, node, "int()", "int")

    def x_int_from_bytes(self, st, args, kw, node):
        v = self.as_bytes(st, args[0], node)
        order = self.arg(args, kw, 1, "byteorder", const("big"))
        signed = kw.get("signed", FALSE)
        if v is not None and is_const(order) and is_const(signed):
            if is_const(v):
                return const(int.from_bytes(cval(v), cval(order), signed=bool(cval(signed))))
            p = self.parts(v)
            if p is not None and p[2] is not None and T.is_int_const(p[2]) and cval(p[2]) in (1, 2, 4, 8):
                n = int(cval(p[2]))
                k = ("i" if cval(signed) else "u") + str(n)
                return self.load_at(p[0], p[1], (">" if cval(order) == "big" and n > 1 else "") + k)
            if v.op == "load" and v.args[2] == "c1":
                return Term("load", v.args[0], v.args[1], "i1" if cval(signed) else "u1")
            if v.op == "load" and v.args[2] != "c1" and isinstance(v.args[2], tuple):
                return Term("call", "int.from_bytes", v, order, signed, "int")
        return self.unknown(st, node, "int.from_bytes", "int")

    def load_at(self, root, off, kind):
        a = self.assume.get((root, off, kind))
        return a if a is not None else Term("load", root, off, kind)

    def x_float(self, st, args, kw, node):
        v = args[0] if args else ZERO
        if is_const(v):
            try:
                return const(float(cval(v)))
            except ValueError:
                self.py_raise(st, "ValueError", node)
        return Term("call", "float", v, "float") if isinstance(v, Term) else self.unknown(st, node, "float", "float")

    def x_bool(self, st, args, kw, node):
        return self.truth(st, args[0], node) if args else FALSE

    def x_str(self, st, args, kw, node):
        if not args and not kw:
            return const("")
        if len(args) > 1 or kw:
            v = args[0] if args else kw["object"]
            return self.bytes_decode(st, v, self.arg(args, kw, 1, "encoding", const("utf-8")), self.arg(args, kw, 2, "errors", const("strict")), node)
        return self.to_str(st, args[0], node)

    def x_repr(self, st, args, kw, node):
        v = args[0]
        if is_const(v):
            return const(repr(cval(v)))
        return self.call_term(st, "repr", args, {}, node, "str")

    def x_hex(self, st, args, kw, node):
        return const(hex(cval(args[0]))) if is_const(args[0], int) else self.call_term(st, "hex", args, {}, node, "str")

    def x_bin(self, st, args, kw, node):
        return const(bin(cval(args[0]))) if is_const(args[0], int) else self.call_term(st, "bin", args, {}, node, "str")

    def x_oct(self, st, args, kw, node):
        return self.call_term(st, "oct", args, {}, node, "str")

    def x_ascii(self, st, args, kw, node):
        return self.call_term(st, "ascii", args, {}, node, "str")

    def x_format(self, st, args, kw, node):
        return self.format_value(st, args[0], args[1] if len(args) > 1 else const(""), -1, node)

    def x_chr(self, st, args, kw, node):
        return const(chr(cval(args[0]))) if is_const(args[0], int) else self.call_term(st, "chr", args, {}, node, "str")

    def x_ord(self, st, args, kw, node):
        v = args[0]
        if is_const(v) and len(cval(v)) == 1:
            return const(ord(cval(v)))
        if isinstance(v, Term) and v.op == "load" and v.args[2] == "c1":
            return Term("load", v.args[0], v.args[1], "u1")
        return self.call_term(st, "ord", args, {}, node, "int")

    def x_bytes(self, st, args, kw, node):
        if not args:
            return const(b"")
        v = args[0]
        if len(args) > 1:
            return self.call_method(st, ExtBound("encode", v), args[1:], kw, node)
        if isinstance(v, Term) and T.is_num(v):
            if T.is_int_const(v) and 0 <= cval(v) < 4096:
                return const(bytes(int(cval(v))))
            return Term("call", "zeros", v, "bytes")
        b = self.as_bytes(st, v, node)
        if b is not None:
            return b
        o = self.obj(st, v)
        if isinstance(o, InstObj):
            f = self.class_attr(st, o.cls, "__bytes__")
            if f is not None:
                return self.call(st, BoundV(f, v), [], {}, node)
        p = self.pyconst(st, v)
        if p is not NotImplemented:
            return const(bytes(p))
        return self.unknown(st, node, "bytes()", "bytes")

    def x_bytearray(self, st, args, kw, node):
        if not args:
            return self.new(st, BufObj(Term("zero"), ZERO, ZERO), node)
        v = args[0]
        if isinstance(v, Term) and T.is_num(v):
            return self.new(st, BufObj(Term("zero"), ZERO, v), node)
        b = self.as_bytes(st, v, node)
        if b is not None and T.ty(b) == "bytes":
            p = self.parts(b)
            if p is not None:
                n = self.length(st, b, node)
                return self.new(st, BufObj(p[0], p[1], n), node)
        return self.unknown(st, node, "bytearray()")

    def x_memoryview(self, st, args, kw, node):
        cd = self.cdata(st, args[0])
        if cd is not None:
            # The bytes of a structure or array, sharing its memory.
            return ViewV(cd[1], ArrayCT(SimpleCT("u1"), self.size_term(cd[0])), cd[2])
        return args[0]

    def seq_copy(self, st, args, node, kind):
        if not args:
            return self.new(st, ListObj((), kind), node)
        return self.materialise(st, args[0], node, kind)

    def x_list(self, st, args, kw, node):
        if args and isinstance(args[0], ParamSeq) and args[0].kind != "rows":
            return args[0]
        return self.seq_copy(st, args, node, "list")

    def x_tuple(self, st, args, kw, node):
        if args and isinstance(args[0], (TupleV, ParamSeq)):
            return args[0]
        r = self.seq_copy(st, args, node, "list")
        items = self.known_items(st, r)
        if items is not None:
            return TupleV(tuple(items))
        return r

    def x_set(self, st, args, kw, node):
        return self.seq_copy(st, args, node, "set")

    x_frozenset = x_set

    def x_collections_deque(self, st, args, kw, node):
        n = self.arg(args, kw, 1, "maxlen", NONE)
        src = args[:1] or [kw[k] for k in ("iterable",) if k in kw]
        if n == NONE:
            return self.seq_copy(st, src, node, "deque")
        if not T.is_int_const(n):
            return self.unknown(st, node, "bounded deque")
        n = cval(n)
        if n < 0:
            self.py_raise(st, "ValueError", node)
        r = self.seq_copy(st, src, node, f"last {n}")
        items = self.known_items(st, r)
        if n == 0 and (src or items is None):
            return self.new(st, ListObj((), "deque"), node)
        return r

    def x_dict(self, st, args, kw, node):
        out = self.new(st, DictObj(()), node)
        if args:
            self.dict_update(st, out, args[0], node)
        star = kw.get("**")
        for k, v in kw.items():
            if k != "**":
                self.setitem(st, out, const(k), v, node)
        if star is not None:
            self.dict_update(st, out, star, node)
        return out

    x_collections_OrderedDict = x_dict

    def x_dict_fromkeys(self, st, args, kw, node):
        out = self.new(st, DictObj(()), node)
        v = args[1] if len(args) > 1 else NONE
        if not self.lift_iterate(st, args[0], node, lambda s, k: self.setitem(s, out, k, v, node) or True):
            self.py_raise(st, "RuntimeError", node)
        return out

    x_collections_OrderedDict_fromkeys = x_dict_fromkeys

    def x_collections_defaultdict(self, st, args, kw, node):
        return self.unknown(st, node, "defaultdict")

    def x_any(self, st, args, kw, node, stop_on=True):
        items = self.known_items(st, args[0])
        if items is not None:
            cs = [self.truth(st, x, node) for x in items]
            return disj(cs) if stop_on else conj(cs)

        if isinstance(args[0], Term) and T.ty(args[0]) == "bytes":
            return Term("call", "any" if stop_on else "all", args[0], "bool")

        def step(s, v, x):
            c = self.decide(s, self.truth(s, x, node))
            if not stop_on:
                c = neg(c)
            return c, (TRUE if stop_on else FALSE, v)
        return self.search(st, args[0], node, FALSE if stop_on else TRUE, step)

    def x_all(self, st, args, kw, node):
        return self.x_any(st, args, kw, node, stop_on=False)

    def x_sum(self, st, args, kw, node):
        start = self.arg(args, kw, 1, "start", ZERO)

        def step(s, v, x):
            return FALSE, self.binop("Add", v, x, s, node)
        return self.search(st, args[0], node, start, step)

    def minmax(self, st, args, kw, node, op):
        if set(kw) - {"key", "default"}:
            return self.unknown(st, node, op)
        items = list(args) if len(args) > 1 else self.drawn_items(st, args[0], node)
        if items is None:
            return self.unknown(st, node, op)
        if not items:
            if "default" in kw:
                return kw["default"]
            self.py_raise(st, "ValueError", node)
        keys = items
        if kw.get("key", NONE) != NONE:
            keys = [self.call(st, kw["key"], [x], {}, node) for x in items]
        elif all(isinstance(x, Term) and T.is_num(x) for x in items):
            return T.tmin(items, op)
        elif 1 < len(items) <= 4 and all(isinstance(x, Term) and T.ty(x) in ("int", "float") for x in items):
            r = items[0]
            for x in items[1:]:
                r = T.ite(T.compare("<" if op == "min" else ">", x, r), x, r)
            return r
        pys = [self.pyconst(st, x) for x in keys]
        if all(x is not NotImplemented for x in pys):
            try:
                return items[pys.index((min if op == "min" else max)(pys))]
            except TypeError:
                self.py_raise(st, "TypeError", node)
        return self.unknown(st, node, op)

    def x_min(self, st, args, kw, node):
        return self.minmax(st, args, kw, node, "min")

    def x_max(self, st, args, kw, node):
        return self.minmax(st, args, kw, node, "max")

    def x_abs(self, st, args, kw, node):
        v = args[0]
        if is_const(v):
            return const(abs(cval(v)))
        if isinstance(v, Term) and T.is_num(v):
            l = T.lower(v)
            return v if l is not None and l >= 0 else T.ite(T.lt0(v), T.sub(ZERO, v), v)
        return self.unknown(st, node, "abs")

    def x_round(self, st, args, kw, node):
        if isinstance(args[0], Term) and T.is_num(args[0]) and len(args) == 1:
            return args[0]
        return self.call_term(st, "round", args, kw, node, None)

    def x_divmod(self, st, args, kw, node):
        return TupleV((self.binop("FloorDiv", args[0], args[1], st, node), self.binop("Mod", args[0], args[1], st, node)))

    def x_complex(self, st, args, kw, node):
        return self.call_term(st, "complex", args, kw, node, "complex")

    def x_decimal_Decimal(self, st, args, kw, node):
        return self.call_term(st, "Decimal", args, kw, node, "Decimal")

    def x_fractions_Fraction(self, st, args, kw, node):
        return self.call_term(st, "Fraction", args, kw, node, "Fraction")

    def x_datetime_datetime_fromtimestamp(self, st, args, kw, node):
        return self.call_term(st, "datetime", args, kw, node, "datetime")

    x_datetime_datetime_utcfromtimestamp = x_datetime_datetime_fromtimestamp

    def x_datetime_timedelta(self, st, args, kw, node):
        return self.call_term(st, "timedelta", args, kw, node, "timedelta")

    def x_pow(self, st, args, kw, node):
        return self.binop("Pow", args[0], args[1], st, node)

    def x_sorted(self, st, args, kw, node):
        src = args[0]
        if isinstance(src, SeqV) or isinstance(self.obj(st, src), GenObj):
            src = self.seq_copy(st, [src], node, "list")
        items = self.known_items(st, src)
        if items is not None and len(items) <= 1:
            return self.new(st, ListObj(tuple(Item(TRUE, x) for x in items)), node)
        if items is not None and not (set(kw) - {"reverse"}) and is_const(kw.get("reverse", FALSE)):
            pys = [self.pyconst(st, x) for x in items]
            if all(p is not NotImplemented for p in pys):
                try:
                    idx = sorted(range(len(items)), key=lambda i: pys[i], reverse=bool(cval(kw.get("reverse", FALSE))))
                    return self.new(st, ListObj(tuple(Item(TRUE, items[i]) for i in idx)), node)
                except TypeError:
                    self.py_raise(st, "TypeError", node)
        if items is not None and "key" in kw and is_const(kw.get("reverse", FALSE)):
            try:
                keys = [self.pyconst(st, self.call(st, kw["key"], [x], {}, node)) for x in items]
                if all(p is not NotImplemented for p in keys):
                    idx = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(cval(kw.get("reverse", FALSE))))
                    return self.new(st, ListObj(tuple(Item(TRUE, items[i]) for i in idx)), node)
            except TypeError:
                pass
        if items is not None and not kw and len(items) <= 6 and all(isinstance(x, Term) and T.is_num(x) for x in items):
            # The k-th smallest is the least maximum of k of them.
            kth = [T.tmin([T.tmin(list(c), "max") for c in itertools.combinations(items, k)]) for k in range(1, len(items) + 1)]
            return self.new(st, ListObj(tuple(Item(TRUE, x) for x in kth)), node)
        ix = self.as_indexed(st, src)
        if ix is not None:
            return SeqV("sorted", (src, self.by_data(st, ix, kw.get("key", NONE), node)))
        return self.unknown(st, node, "sorted()")

    def by_data(self, st, ix, key, node):
        """Whether elements are ordered by what was read from the file."""
        k = Term("iter", "#sorted")
        x = ix.get(k)
        if key != NONE:
            x = self.call(st.clone(), key, [x], {}, node)
        moves = lambda t: t == k or ix.space and t.op == "phi" and t.args[0] == ix.space
        return isinstance(x, Term) and T.is_num(x) and any(t.op in ("load", "bytes") and any(moves(y) for y in T.walk((t,))) for t in T.walk((x,)))

    def x_iter(self, st, args, kw, node):
        v = args[0]
        if len(args) > 1:
            return SeqV("iterfunc", tuple(args))
        o = self.obj(st, v)
        if isinstance(o, (GenObj, IterObj)):
            return v
        if isinstance(o, InstObj):
            f = self.class_attr(st, o.cls, "__iter__")
            if f is not None:
                return self.call(st, BoundV(f, v), [], {}, node)
        if self.as_indexed(st, v) is not None:
            return self.new(st, IterObj(v, ZERO), node)
        return v

    def x_next(self, st, args, kw, node):
        v = args[0]
        o = self.obj(st, v)
        if isinstance(o, IterObj):
            items = self.known_items(st, o.seq)
            ix = self.as_indexed(st, o.seq)
            trip = ix.trip
            done = FALSE if trip is None else T.compare(">=", o.pos, trip)
            done = self.decide(st, done)

            def more(s):
                e = self.as_indexed(s, o.seq).get(o.pos)
                s.heap[v.oid] = IterObj(o.seq, T.add(o.pos, ONE))
                return e
            if len(args) > 1:
                return self.fork(st, done, lambda s: args[1], more)
            if done == TRUE:
                self.py_raise(st, "StopIteration", node)
            if done != FALSE:
                self.may_raise(st, node, "StopIteration", done)
            return more(st)
        if isinstance(o, InstObj):
            f = self.class_attr(st, o.cls, "__next__")
            if f is not None:
                return self.call(st, BoundV(f, v), [], {}, node)
        fresh = isinstance(v, SeqV) or (isinstance(o, GenObj) and not o.consumed)
        if fresh and len(args) > 1:
            r = self.search(st, v, node, args[1], lambda s, acc, x: (TRUE, x))
            if isinstance(o, GenObj):
                st.heap[v.oid] = replace(o, consumed=True)
            return r
        if fresh:
            r = self.search(st, v, node, UNDEF, lambda s, acc, x: (TRUE, x))
            if isinstance(o, GenObj):
                st.heap[v.oid] = replace(o, consumed=True)
            if isinstance(r, IteV) and r.b == UNDEF:
                self.may_raise(st, node, "StopIteration", neg(r.cond))
                return r.a
            if isinstance(r, IteV) and r.a == UNDEF:
                self.may_raise(st, node, "StopIteration", r.cond)
                return r.b
            if r == UNDEF:
                self.py_raise(st, "StopIteration", node)
            return r
        self.emit("unsupported", st, node, what="next() of an unknown or already advanced iterator")
        return self.unknown(st, node, "next()")

    def x_print(self, st, args, kw, node):
        self.emit("print", st, node, args=[self.snap(st, a) for a in args], kwargs={k: self.snap(st, v) for k, v in kw.items()}, how="print")
        return NONE

    def x_sys_stdout_write(self, st, args, kw, node):
        self.emit("print", st, node, args=[self.snap(st, a) for a in args], kwargs={}, how="write")
        return NONE

    def x_sys_stdout_writelines(self, st, args, kw, node):
        self.iterate(st, args[0], node, lambda s, x: (self.emit("print", s, node, args=[self.snap(s, x)], kwargs={}, how="write"), True)[1])
        return NONE

    def x_sys_stdout_flush(self, st, args, kw, node):
        return NONE

    def x_type(self, st, args, kw, node):
        if len(args) == 1:
            c = self.classof(st, args[0])
            return c if c is not None else self.unknown(st, node, "type()")
        bases = self.known_items(st, args[1]) if len(args) == 3 else None
        ns = self.obj(st, args[2]) if len(args) == 3 else None
        if bases is not None and is_const(args[0], str) and isinstance(ns, DictObj) and not ns.prev and ns.base is None \
                and all(is_const(k, str) and g == TRUE for k, g, _ in ns.entries):
            mod = next((m for m, p in self.paths.items() if p == self.where[-1][0]), "?")
            name = cval(args[0])
            cref = self.new(st, ClassObj(tuple((cval(k), v) for k, _, v in ns.entries)), node)
            qual = f"{mod}.{name}"
            if qual in self.classes:
                qual += f"@{getattr(node, 'lineno', 0)}"
            info = ClassInfo(name, qual, mod, tuple(bases), node, cref.oid)
            info.dataclass = False
            self.classes.setdefault(qual, info)
            return ClassV(info)
        return self.unknown(st, node, "class made by type()")

    def x_id(self, st, args, kw, node):
        return Term("call", "id", self.freeze(self.snap(st, args[0])), "int")

    def x_hash(self, st, args, kw, node):
        return Term("call", "hash", self.freeze(self.snap(st, args[0])), "int")

    def x_object(self, st, args, kw, node):
        return self.new(st, ExtObj("object"), node)

    def x_slice(self, st, args, kw, node):
        a = list(args)
        if len(a) == 1:
            a = [NONE, a[0], NONE]
        return SeqV("sl", tuple(a + [NONE] * (3 - len(a))))

    def x_vars(self, st, args, kw, node):
        if args:
            v = args[0]
            if isinstance(v, ModV):
                return SeqV("moddict", (v.name,))
            if isinstance(v, ClassV):
                return SeqV("classdict", (v,))
            o = self.obj(st, v)
            if isinstance(o, (InstObj, StructObj)):
                return SeqV("instdict", (v,))
            return self.unknown(st, node, "vars()")
        return self.unknown(st, node, "vars()")

    def x_globals(self, st, args, kw, node):
        return SeqV("moddict", (self.finfo[self.cur_frame].module,))

    def x_dir(self, st, args, kw, node):
        v = args[0] if args else None
        if isinstance(v, ModV):
            names = sorted(st.frames[self.modules[v.name]])
            return self.new(st, ListObj(tuple(Item(TRUE, const(n)) for n in names)), node)
        return self.unknown(st, node, "dir()")

    def x_property(self, st, args, kw, node):
        return WrapV("property", args[0])

    def x_staticmethod(self, st, args, kw, node):
        return WrapV("staticmethod", args[0])

    def x_classmethod(self, st, args, kw, node):
        return WrapV("classmethod", args[0])

    def x_super(self, st, args, kw, node):
        if len(args) == 2 and isinstance(args[0], ClassV):
            return BoundV(SeqV("super", (args[0],)), args[1])
        return self.unknown(st, node, "super()")

    def x___import__(self, st, args, kw, node):
        return self.x_importlib_import_module(st, args, kw, node)

    def x_importlib_import_module(self, st, args, kw, node):
        if is_const(args[0], str):
            n = cval(args[0])
            if n.startswith(".") and len(args) > 1 and is_const(args[1], str):
                n = cval(args[1]) + n
            if self.import_module(n):
                return ModV(n)
            return ExtV(n)
        return self.unknown(st, node, "module with a computed name")

    # -- files
    def x_open(self, st, args, kw, node, fn="open"):
        ev = self.emit("open", st, node, fn=fn, args=[self.snap(st, a) for a in args], kwargs={k: self.snap(st, v) for k, v in kw.items()}, oid=None)
        # The stream is named by what is opened and where in the source, so that re-analysis of a loop body gives the same name.
        path, func = self.where[-1]
        name = f"{fn}({T._akey(ev.data['args'][:1])})"
        ref = self.new(st, StreamObj(name, ZERO), node)
        ev.data["oid"] = ref.oid
        ev.data["name"] = name
        self.may_raise(st, node, "OSError", Term("fails", "open", fn, ev.data["args"][0] if ev.data["args"] and isinstance(ev.data["args"][0], Term) else const(None)))
        return ref

    def x_io_open(self, st, args, kw, node):
        return self.x_open(st, args, kw, node, "open")

    def x_io_FileIO(self, st, args, kw, node):
        return self.x_open(st, args, kw, node, "open")

    def x_gzip_open(self, st, args, kw, node):
        return self.x_open(st, args, kw, node, "gzip.open")

    def x_gzip_GzipFile(self, st, args, kw, node):
        if "fileobj" in kw or len(args) > 3:
            return self.x_open(st, [self.unknown(st, node, "file object")], {}, node, "gzip.open")
        return self.x_open(st, args, kw, node, "gzip.open")

    def x_io_BufferedReader(self, st, args, kw, node):
        h = self.obj(st, args[0]) if args else None
        if isinstance(h, StreamObj) and self.alloc[args[0].oid].phase == "param":
            # The buffer reads more of the caller's file than it is asked for.
            self.emit("stream", st, node, what="wrap", stream=h.name if not isinstance(h.name, Term) else "memory", before=h.pos, after=h.pos)
        return args[0]

    def x_io_BytesIO(self, st, args, kw, node):
        b = self.as_bytes(st, args[0], node) if args else const(b"")
        if b is None:
            return self.unknown(st, node, "BytesIO")
        return self.new(st, StreamObj(b, ZERO), node)

    # -- zlib
    def x_zlib_decompress(self, st, args, kw, node):
        b = self.as_bytes(st, args[0], node)
        if b is None:
            return self.unknown(st, node, "zlib.decompress", "bytes")
        wbits = self.arg(args, kw, 1, "wbits", const(15))
        t = Term("decomp", b) if wbits == const(15) else Term("decomp", b, wbits)
        self.emit("decompress", st, node, data=b, term=t)
        self.may_raise(st, node, "zlib.error", Term("fails", "zlib", b))
        return t

    def x_zlib_decompressobj(self, st, args, kw, node):
        return self.new(st, ExtObj("decompobj", ()), node)

    # -- ctypes
    def x_ctypes_sizeof(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, (ClassV, SimpleCT, ArrayCT)):
            if isinstance(v, ClassV) and not self.is_struct(v):
                self.py_raise(st, "TypeError", node)
            return self.size_term(v)
        if isinstance(v, IteV):
            return self.lift(st, v, lambda s, x: self.x_ctypes_sizeof(s, [x], kw, node))
        cd = self.cdata(st, v)
        if cd is not None:
            return self.size_term(cd[0])
        if isinstance(v, SelV):
            return self.unknown(st, node, "size of an unknown type", "int")
        return self.unknown(st, node, "sizeof", "int")

    def x_ctypes_alignment(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, (ClassV, SimpleCT, ArrayCT)):
            return const(self.ct_align(v))
        return self.unknown(st, node, "alignment", "int")

    def x_ctypes_create_string_buffer(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, Term) and T.is_num(v):
            return self.new_struct(st, ArrayCT(SimpleCT("c1"), v), Term("zero"), ZERO, node)
        return self.unknown(st, node, "string buffer")

    def x_ctypes_memmove(self, st, args, kw, node):
        cd = self.cdata(st, args[0])
        src = self.as_bytes(st, args[1], node)
        n = args[2]
        if cd is not None and cd[2] == ZERO and src is not None and self.parts(src) is not None and n == self.size_term(cd[0]):
            p = self.parts(src)
            self.emit("structwrite", st, node, owner=args[0], buf=cd[1], root=p[0], off=p[1], value=None) if not st.heap[cd[1]].root.op == "zero" else None
            st.heap[cd[1]] = replace(st.heap[cd[1]], root=p[0], base=p[1], over=())
            return NONE
        if cd is not None:
            st.heap[cd[1]] = replace(st.heap[cd[1]], root=self.unknown(st, node, "memmove"), over=())
        return NONE

    def x_struct_calcsize(self, st, args, kw, node):
        import struct
        if is_const(args[0], str):
            return const(struct.calcsize(cval(args[0])))
        return self.unknown(st, node, "calcsize", "int")

    def unpack_fmt(self, st, fmt, root, off, node):
        """Loads for a struct format string."""
        import struct
        s = cval(fmt)
        s = s.decode() if isinstance(s, bytes) else s
        native = not s or s[0] in "@" or s[0] not in "<>=!"
        be = s[:1] in (">", "!")
        body = s[1:] if s[:1] in "<>=!@" else s
        kinds = {"b": "i1", "B": "u1", "h": "i2", "H": "u2", "i": "i4", "I": "u4", "l": "i8" if native else "i4", "L": "u8" if native else "u4",
                 "q": "i8", "Q": "u8", "f": "f4", "d": "f8", "c": "c1", "?": "b1", "n": "i8", "N": "u8"}
        out = []
        pos = 0
        for cnt, ch in re.findall(r"\s*(\d*)([a-zA-Z?])", body):
            n = int(cnt) if cnt else 1
            if ch == "x":
                pos += n
                continue
            if ch == "s":
                out.append(self.mkbytes(root, T.add(off, const(pos)), const(n), True))
                pos += n
                continue
            k = kinds.get(ch)
            if k is None:
                return None
            sz = int(k[1:])
            for _ in range(n):
                if native:
                    pos = (pos + sz - 1) // sz * sz
                out.append(self.load_at(root, T.add(off, const(pos)), (">" if be and sz > 1 else "") + k))
                pos += sz
        return out

    def x_struct_unpack_from(self, st, args, kw, node):
        fmt, b = args[0], self.as_bytes(st, args[1], node)
        off = self.arg(args, kw, 2, "offset", ZERO)
        p = self.parts(b) if b is not None else None
        if not is_const(fmt) or p is None or not (isinstance(off, Term) and T.is_num(off)):
            return self.unknown(st, node, "struct.unpack")
        import struct
        n = struct.calcsize(cval(fmt))
        self.may_raise(st, node, "struct.error", T.compare("<", T.sub(self.length(st, b, node), off), const(n)), root=p[0], base=T.add(p[1], off), size=const(n), short=True)
        out = self.unpack_fmt(st, fmt, p[0], T.add(p[1], off), node)
        return TupleV(tuple(out)) if out is not None else self.unknown(st, node, "struct.unpack")

    def x_struct_unpack(self, st, args, kw, node):
        return self.x_struct_unpack_from(st, args[:2], {}, node)

    def x_struct_Struct(self, st, args, kw, node):
        return self.new(st, ExtObj("structfmt", (args[0],)), node)

    # -- json
    def x_json_dumps(self, st, args, kw, node):
        t = self.call_term(st, "json", args, kw, node, "str")
        self.emit("json", st, node, value=self.snap(st, args[0]), kwargs={k: self.snap(st, v) for k, v in kw.items()}, term=t)
        self.may_raise(st, node, "TypeError", Term("fails", "json", t))
        return t

    def x_json_dump(self, st, args, kw, node):
        t = self.call_term(st, "json", args[:1], kw, node, "str")
        self.emit("json", st, node, value=self.snap(st, args[0]), kwargs={k: self.snap(st, v) for k, v in kw.items()}, term=t)
        if isinstance(args[1], ExtV) and args[1].name == "sys.stdout":
            self.emit("print", st, node, args=[t], kwargs={}, how="write")
        return NONE

    # -- argparse
    def x_argparse_ArgumentParser(self, st, args, kw, node):
        return self.new(st, ExtObj("argparser", ()), node)

    # -- itertools, functools, operator, contextlib, copy, collections
    def x_itertools_chain(self, st, args, kw, node):
        return SeqV("chain", tuple(args))

    def x_itertools_chain_from_iterable(self, st, args, kw, node):
        return SeqV("chainiter", tuple(args))

    def x_itertools_islice(self, st, args, kw, node):
        if len(args) == 2:
            hi = args[1]
            if hi == NONE:
                return args[0]
            if isinstance(hi, IteV):
                return self.lift(st, hi, lambda s, h: self.x_itertools_islice(s, [args[0], h], kw, node))
            if isinstance(hi, Term) and hi.op == "ite" and not T.is_num(hi):
                return self.fork(st, self.decide(st, hi.args[0]), lambda s: self.x_itertools_islice(s, [args[0], hi.args[1]], kw, node),
                                 lambda s: self.x_itertools_islice(s, [args[0], hi.args[2]], kw, node))
            if isinstance(hi, Term) and T.is_num(hi):
                return SeqV("slice", (args[0], ZERO, hi))
        elif len(args) >= 3 and (len(args) == 3 or args[3] in (NONE, ONE)):
            lo, hi = ZERO if args[1] == NONE else args[1], None if args[2] == NONE else args[2]
            if all(isinstance(x, Term) and T.is_num(x) for x in (lo, hi) if x is not None):
                return SeqV("slice", (args[0], lo, hi))
        return self.unknown(st, node, "islice")

    def x_itertools_count(self, st, args, kw, node):
        return RangeV(self.arg(args, kw, 0, "start", ZERO), None, self.arg(args, kw, 1, "step", ONE))

    def x_itertools_takewhile(self, st, args, kw, node):
        return SeqV("takewhile", tuple(args))

    def x_itertools_starmap(self, st, args, kw, node):
        return SeqV("starmap", tuple(args))

    def x_itertools_filterfalse(self, st, args, kw, node):
        return SeqV("filterfalse", tuple(args))

    def x_itertools_repeat(self, st, args, kw, node):
        return SeqV("repeat", (args[0], args[1] if len(args) > 1 else kw.get("times")))

    def x_itertools_accumulate(self, st, args, kw, node):
        items = self.known_items(st, args[0])
        if items is not None and len(args) == 1:
            out, acc = [], kw.get("initial")
            if acc is not None:
                out.append(acc)
            for x in items:
                acc = x if acc is None else self.binop("Add", acc, x, st, node)
                out.append(acc)
            return self.new(st, ListObj(tuple(Item(TRUE, x) for x in out)), node)
        return self.unknown(st, node, "accumulate")

    def x_itertools_product(self, st, args, kw, node):
        import itertools
        its = [self.known_items(st, a) for a in args]
        if all(i is not None for i in its) and not kw:
            return self.new(st, ListObj(tuple(Item(TRUE, TupleV(t)) for t in itertools.product(*its))), node)
        return self.unknown(st, node, "product")

    def x_itertools_pairwise(self, st, args, kw, node):
        it = self.known_items(st, args[0])
        if it is not None:
            return self.new(st, ListObj(tuple(Item(TRUE, TupleV(t)) for t in zip(it, it[1:]))), node)
        return self.unknown(st, node, "pairwise")

    def x_itertools_zip_longest(self, st, args, kw, node):
        import itertools
        its = [self.known_items(st, a) for a in args]
        if all(i is not None for i in its):
            return self.new(st, ListObj(tuple(Item(TRUE, TupleV(t)) for t in itertools.zip_longest(*its, fillvalue=kw.get("fillvalue", NONE)))), node)
        return self.unknown(st, node, "zip_longest")

    def x_functools_partial(self, st, args, kw, node):
        return PartialV(args[0], tuple(args[1:]), tuple(kw.items()))

    def x_functools_reduce(self, st, args, kw, node):
        if len(args) < 3:
            items = self.known_items(st, args[1])
            if not items:
                return self.unknown(st, node, "reduce")
            acc = items[0]
            for x in items[1:]:
                acc = self.call(st, args[0], [acc, x], {}, node)
            return acc
        return self.search(st, args[1], node, args[2], lambda s, v, x: (FALSE, self.call(s, args[0], [v, x], {}, node)))

    def x_functools_lru_cache(self, st, args, kw, node):
        if args and isinstance(args[0], FuncV):
            args[0].info.cached = True
            return args[0]
        return ExtV("functools.lru_cache()")

    def x_functools_cache(self, st, args, kw, node):
        if isinstance(args[0], FuncV):
            args[0].info.cached = True
        return args[0]

    def x_functools_wraps(self, st, args, kw, node):
        return ExtV("functools.wraps()")

    def x_dataclasses_dataclass(self, st, args, kw, node):
        return ExtV("dataclasses.dataclass()")

    def x_dataclasses_field(self, st, args, kw, node):
        return self.new(st, ExtObj("dcfield", tuple(kw.items())), node)

    def x_dataclasses_asdict(self, st, args, kw, node):
        o = self.obj(st, args[0])
        if isinstance(o, InstObj):
            out = self.new(st, DictObj(()), node)
            for k, v in o.attrs:
                self.setitem(st, out, const(k), v, node)
            return out
        return self.unknown(st, node, "asdict")

    def x_operator_attrgetter(self, st, args, kw, node):
        return PartialV(ExtV("#attrgetter"), tuple(args), ())

    def x_operator_itemgetter(self, st, args, kw, node):
        return PartialV(ExtV("#itemgetter"), tuple(args), ())

    def x_operator_methodcaller(self, st, args, kw, node):
        return PartialV(ExtV("#methodcaller"), tuple(args), tuple(kw.items()))

    def dotted(self, st, o, name, node):
        for p in cval(name).split("."):
            o = self.getattr(st, o, p, node)
        return o

    def other_special(self, st, name, args, kw, node):
        *names, o = args
        if name == "#attrgetter":
            r = [self.dotted(st, o, n, node) for n in names]
        elif name == "#itemgetter":
            r = [self.getitem(st, o, n, node) for n in names]
        else:
            return self.call(st, self.getattr(st, o, cval(args[0]), node), args[1:-1], kw, node)
        return r[0] if len(r) == 1 else TupleV(tuple(r))

    def __getattr__(self, n):
        if n.startswith("x_#"):
            name = n[2:]
            return lambda st, args, kw, node: self.other_special(st, name, args, kw, node)
        raise AttributeError(n)

    def x_contextlib_closing(self, st, args, kw, node):
        return self.new(st, ExtObj("closing", (args[0],)), node)

    def x_contextlib_nullcontext(self, st, args, kw, node):
        return self.new(st, ExtObj("nullcontext", (args[0] if args else NONE,)), node)

    def x_contextlib_suppress(self, st, args, kw, node):
        return self.new(st, ExtObj("suppress", tuple(n for a in args for n in self.class_names(st, a))), node)

    def x_contextlib_ExitStack(self, st, args, kw, node):
        return self.new(st, ExtObj("exitstack"), node)

    def x_copy_copy(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, (Term, TupleV)):
            return v
        o = self.obj(st, v)
        if isinstance(o, (ListObj, DictObj, InstObj, BufObj)):
            return self.new(st, o, node)
        cd = self.cdata(st, v)
        if cd is not None:
            b = st.heap[cd[1]]
            buf = self.new(st, b, node)
            return self.new(st, StructObj(cd[0], buf.oid, cd[2], o.attrs if isinstance(o, StructObj) else ()), node)
        return self.unknown(st, node, "copy")

    def x_copy_deepcopy(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, ViewV):
            return self.x_copy_copy(st, args, kw, node)
        if isinstance(v, Term):
            return v
        return self.fresh_copy(st, v, self.reach(st, v), node)

    def fresh_copy(self, st, v, local, node):
        memo = {}
        n0 = self._oid
        r = self.inst(st, v, {}, local, memo)
        for old, new in memo.items():
            a = self.alloc[new.oid]
            path, func = self.where[-1]
            self.alloc[new.oid] = type(a)(self.phase, getattr(node, "lineno", 0), path, func, self.loops)
        return r

    def x_collections_namedtuple(self, st, args, kw, node):
        names = self.pyconst(st, args[1])
        if names is NotImplemented or not is_const(args[0], str):
            return self.unknown(st, node, "namedtuple")
        if isinstance(names, str):
            names = names.replace(",", " ").split()
        path, func = self.where[-1]
        cref = self.new(st, ClassObj((("__annotations_order__", TupleV(tuple(const(n) for n in names))),)), node)
        mod = next((m for m, p in self.paths.items() if p == path), "?")
        info = ClassInfo(cval(args[0]), f"{mod}.{cval(args[0])}", mod, (ExtV("typing.NamedTuple"),), node, cref.oid)
        info.dataclass = True
        d = kw.get("defaults")
        ds = self.known_items(st, d) if d is not None else []
        attrs = st.heap[cref.oid].attrs + tuple(zip(names[len(names) - len(ds):], ds)) if ds else st.heap[cref.oid].attrs
        st.heap[cref.oid] = ClassObj(attrs)
        return ClassV(info)

    def x_typing_cast(self, st, args, kw, node):
        return args[1]

    def x_typing_TypeVar(self, st, args, kw, node):
        return ExtV("typing.TypeVar")

    def x_typing_NewType(self, st, args, kw, node):
        return args[1]

    def x_sys_exit(self, st, args, kw, node):
        self.py_raise(st, "SystemExit", node)

    def x_sys_getsizeof(self, st, args, kw, node):
        return Term("call", "getsizeof", self.freeze(self.snap(st, args[0])), "int")

    def x_os_fspath(self, st, args, kw, node):
        return args[0]

    def x_logging_getLogger(self, st, args, kw, node):
        return ExtV("logging.#logger")

    def x_warnings_warn(self, st, args, kw, node):
        return NONE

    def x_os_SEEK_SET(self, st, args, kw, node):
        return ZERO

    # ------------------------------------------------------------------------------------------ methods
    def call_method(self, st, f, args, kw, node):
        o, name = f.self, f.name
        if isinstance(o, ExtV):
            return self.call_ext(st, ExtV(f"{o.name}.{name}"), args, kw, node)
        if isinstance(o, Term):
            return self.term_method(st, o, name, args, kw, node)
        if isinstance(o, (ClassV, ArrayCT, SimpleCT)) and name in ("from_buffer_copy", "from_buffer"):
            return self.from_buffer(st, o, name, args, kw, node)
        if isinstance(o, ClassV) and name == "__init__":
            return NONE
        if isinstance(o, ClassV) and name == "__mul__":
            return self.binop("Mult", o, args[0], st, node)
        if isinstance(o, ClassV) and name == "_make":
            items = self.known_items(st, args[0])
            if items is not None:
                return self.instantiate(st, o, items, {}, node)
        if isinstance(o, ClassV) and name == "__new__":
            return self.new(st, InstObj(args[0]), node) if not self.is_struct(o) else self.new_struct(st, args[0], Term("zero"), ZERO, node)
        if isinstance(o, TupleV):
            if name == "index" or name == "count":
                p, q = self.pyconst(st, o), self.pyconst(st, args[0])
                if p is not NotImplemented and q is not NotImplemented:
                    try:
                        return const(getattr(p, name)(q))
                    except ValueError:
                        self.py_raise(st, "ValueError", node)
            return self.unknown(st, node, f"tuple.{name}")
        if isinstance(o, SeqV):
            return self.seq_method(st, o, name, args, kw, node)
        if isinstance(o, FuncV):
            if name in ("cache_clear", "cache_info"):
                return NONE
            return self.unknown(st, node, f"function.{name}")
        h = self.obj(st, o)
        if isinstance(h, StreamObj):
            return self.stream_method(st, o, h, name, args, kw, node)
        if isinstance(h, ListObj):
            return self.list_method(st, o, h, name, args, kw, node)
        if isinstance(h, DictObj):
            return self.dict_method(st, o, h, name, args, kw, node)
        if isinstance(h, BufObj):
            if name in ("release",):
                return NONE
            if name in ("extend", "append", "clear", "pop", "insert", "remove", "reverse"):
                if name == "extend" and h.size == ZERO:
                    b = self.as_bytes(st, args[0], node)
                    p = self.parts(b) if b is not None else None
                    if p is not None:
                        st.heap[o.oid] = BufObj(p[0], p[1], self.length(st, b, node))
                        return NONE
                self.mutate(st, o, replace(h, root=self.unknown(st, node, f"bytearray.{name}"), size=self.unknown(st, node, "size", "int")), node, name)
                return NONE
            return self.term_method(st, self.buf_bytes(st, o), name, args, kw, node)
        if isinstance(h, (GenObj, IterObj)):
            if name in ("__next__",):
                return self.x_next(st, [o] + args, kw, node)
            if name == "__iter__":
                return o
            if name == "close":
                return NONE
            self.emit("unsupported", st, node, what=f"generator.{name}")
            return self.unknown(st, node, f"generator.{name}")
        if isinstance(h, ExtObj):
            return self.obj_method(st, o, h, name, args, kw, node)
        if isinstance(h, StructObj) and isinstance(h.cls, ArrayCT) or isinstance(o, ViewV):
            if name == "toreadonly" or name == "cast" and args in ([const("B")], [const("b")], [const("c")]):
                return o
            if name == "release":
                return NONE
            if name == "tobytes":
                b = self.as_bytes(st, o, node)
                if b is not None:
                    return b
            return self.unknown(st, node, f"array.{name}")
        self.emit("unsupported", st, node, what=f"method {name} of an unknown object")
        return self.unknown(st, node, f"method {name}")

    def obj_method(self, st, o, h, name, args, kw, node):
        if h.kind == "argparser":
            if name in ("add_argument", "set_defaults"):
                self.emit("addarg", st, node, method=name, args=[self.snap(st, a) for a in args], kwargs={k: self.snap(st, v) for k, v in kw.items()},
                          rawkw=dict(kw))
                return NONE
            if name in ("add_argument_group", "add_mutually_exclusive_group"):
                return o
            if name == "parse_args":
                self.emit("parseargs", st, node, args=[self.snap(st, a) for a in args] + [self.snap(st, v) for v in kw.values()])
                return self.new(st, ExtObj("namespace", (tuple(self.snap(st, a) for a in args),)), node)
            if name == "error":
                self.py_raise(st, "SystemExit", node)
            return self.unknown(st, node, f"parser.{name}")
        if h.kind == "pattern" and f"re.{name}" in PURE and args and all(isinstance(a, Term) for a in args) and len(h.data) == 1:
            return self.call_term(st, f"re.{name}", [h.data[0], *args], kw, node, PURE[f"re.{name}"][1])
        if h.kind == "decompobj":
            if name == "decompress":
                b = self.as_bytes(st, args[0], node)
                if b is None:
                    return self.unknown(st, node, "decompress", "bytes")
                lim = self.arg(args, kw, 1, "max_length", ZERO)
                t = Term("decompobj", b) if lim == ZERO else Term("decompobj", b, lim if isinstance(lim, Term) else const(1))
                self.emit("decompress", st, node, data=b, term=t)
                st.heap[o.oid] = ExtObj("decompobj", h.data + (b,))
                self.may_raise(st, node, "zlib.error", Term("fails", "zlib", b))
                return t
            if name == "flush":
                self.emit("flush", st, node)
                return const(b"")
        if h.kind == "exitstack":
            if name == "enter_context":
                cm = args[0]
                oo = self.obj(st, cm)
                ch = self.quiet_choice(st, cm)
                if ch is not None and isinstance(o, Ref) and o.oid in self.stack_regs:
                    self.stack_regs[o.oid].append((st.pc, ch))
                    return oo.data[0] if isinstance(oo, ExtObj) and oo.kind == "nullcontext" else NONE
                if isinstance(oo, (StreamObj,)):
                    self.emit("with", st, node, obj=cm, wid=None)
                    return cm
                if isinstance(oo, ExtObj) and oo.kind == "closing":
                    self.emit("with", st, node, obj=oo.data[0], wid=None)
                    return oo.data[0]
            if name in ("callback", "push", "close", "pop_all"):
                if name == "callback" and args and isinstance(args[0], ExtBound) and args[0].name == "close":
                    self.emit("with", st, node, obj=args[0].self, wid=None)
                return NONE
        if h.kind == "structfmt":
            fmt = h.data[0]
            if name in ("unpack", "unpack_from"):
                return self.x_struct_unpack_from(st, [fmt] + args, kw, node)
        if h.kind == "exc":
            return NONE
        self.emit("extcall", st, node, name=f"{h.kind}.{name}", args=[])
        return self.unknown(st, node, f"{h.kind}.{name}")

    # -- bytes and strings
    def codec(self, enc):
        try:
            return codecs.lookup(cval(enc)).name
        except (LookupError, TypeError):
            return None

    def bytes_decode(self, st, v, enc, errors, node):
        if not (is_const(enc, str) and is_const(errors, str)):
            return self.unknown(st, node, "decode", "str")
        c = self.codec(enc)
        e = cval(errors)
        if c is None:
            self.py_raise(st, "LookupError", node)
        b = v if isinstance(v, Term) else self.as_bytes(st, v, node)
        if b is None:
            return self.unknown(st, node, "decode", "str")
        if is_const(b, bytes):
            try:
                return const(cval(b).decode(c, e))
            except UnicodeDecodeError:
                self.py_raise(st, "UnicodeDecodeError", node)
        if T.ty(b) == "str":
            self.py_raise(st, "AttributeError", node, "decode")
        if e == "strict" and c not in ("iso8859-1", "latin-1"):
            self.may_raise(st, node, "UnicodeDecodeError", Term("fails", "decode", b, c))
        return Term("decode", b, c, e)

    def term_method(self, st, o, name, args, kw, node):
        k = T.ty(o)
        p = self.pyconst(st, o)
        pa = [self.pyconst(st, a) for a in args]
        pk = {n: self.pyconst(st, v) for n, v in kw.items()}
        if p is not NotImplemented and all(x is not NotImplemented for x in pa) and all(x is not NotImplemented for x in pk.values()):
            try:
                return self.frompy(st, getattr(p, name)(*pa, **pk), node)
            except UnicodeDecodeError:
                self.py_raise(st, "UnicodeDecodeError", node)
            except (ValueError, IndexError, KeyError) as e:
                self.py_raise(st, type(e).__name__, node)
            except (TypeError, AttributeError):
                self.py_raise(st, "TypeError", node)
        if name == "decode" and k in ("bytes", None):
            return self.bytes_decode(st, o, self.arg(args, kw, 0, "encoding", const("utf-8")), self.arg(args, kw, 1, "errors", const("strict")), node)
        if k == "bytes":
            chars = o.op == "load" and isinstance(o.args[2], tuple)  # a c_char array: never contains NUL
            nul = const(b"\0")
            if chars and name in ("rstrip", "strip", "removesuffix") and args == [nul]:
                return o
            if chars and name in ("split", "rsplit") and args[:1] == [nul]:
                return self.new(st, ListObj((Item(TRUE, o),)), node)
            if chars and name == "partition" and args == [nul]:
                return TupleV((o, const(b""), const(b"")))
            if name in ("tobytes", "__bytes__", "copy"):
                return o
            if name == "hex":
                return Term("call", "hex", o, "str")
            if name in ("release", "toreadonly"):
                return o if name == "toreadonly" else NONE
        if name == "join" and k in ("str", "bytes") and len(args) == 1:
            if isinstance(self.obj(st, args[0]), GenObj):
                args = [self.seq_copy(st, args, node, "list")]
            items = self.drawn_items(st, args[0], node)
            if items is not None and k == "str" and is_const(o) and all(isinstance(x, Term) and T.ty(x) == "str" for x in items):
                out = []
                for i, x in enumerate(items):
                    if i:
                        out.append(o)
                    out.append(x)
                return self.strcat(out)
            if k == "bytes" and o == const(b""):
                if items is None:
                    if isinstance(args[0], Term) or self.as_indexed(st, args[0]) is None:
                        lst = args[0] if isinstance(self.obj(st, args[0]), ListObj) else self.materialise(st, args[0], node)
                        return Term("call", "join", self.freeze(self.snap(st, lst)), "bytes")
                else:
                    acc = const(b"")
                    for x in items:
                        acc = self.binop("Add", acc, x, st, node)
                    return acc
            lst = args[0] if isinstance(args[0], (Term, ParamSeq)) or isinstance(self.obj(st, args[0]), ListObj) else self.materialise(st, args[0], node)
            return Term("call", "join", o, lst if isinstance(lst, Term) else self.freeze(self.snap(st, lst)), k)
        if name == "ljust" and k == "bytes" and len(args) == 2 and args[1] == const(b"\0"):
            r = self.filled(o, args[0])
            if r is not None:
                return r
        if name in CHANGING and k in ("str", "bytes"):
            return self.call_term(st, name, [o] + args, kw, node, k)
        if name in BOOL_METHODS:
            return self.call_term(st, name, [o] + args, kw, node, "bool")
        if k == "str" and name == "format" and is_const(o, str):
            r = self.str_format(st, cval(o), args, kw, node)
            if r is not None:
                return r
        if k == "str" and name in ("format", "encode"):
            return self.call_term(st, name, [o] + args, kw, node, "str" if name == "format" else "bytes")
        if k in ("str", "bytes") and name in ("find", "rfind", "count", "index", "rindex", "__len__"):
            if name in ("index", "rindex"):
                self.may_raise(st, node, "ValueError", Term("fails", name, o, args[0] if isinstance(args[0], Term) else const(None)))
            return self.call_term(st, name, [o] + args, kw, node, "int")
        if k in ("str", "bytes") and name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
            return self.call_term(st, name, [o] + args, kw, node, None)
        if k == "int" and name in ("to_bytes",):
            return self.call_term(st, name, [o] + args, kw, node, "bytes")
        if k == "int" and name == "bit_length":
            return self.call_term(st, name, [o], kw, node, "int")
        if o.op in ("sym", "item", "call", "opaque") and k is None:
            if name in ("append", "extend", "update", "clear", "pop", "add", "remove", "insert", "sort", "setdefault", "popitem", "discard") and o.op in ("sym", "item"):
                self.emit("pmut", st, node, target=T.show(o), what=name, old=None, new=None, oid=None)
            if name in ("read", "seek", "tell", "readinto"):
                self.emit("unsupported", st, node, what=f"{name} of an unknown object")
            return self.call_term(st, "method " + name, [o] + args, kw, node, None)
        return self.unknown(st, node, f"method {name}")

    # -- streams
    def stream_method(self, st, o, h, name, args, kw, node):
        mem = isinstance(h.name, Term)
        root = None if mem else Term("stream", h.name)
        a = self.alloc[o.oid]
        if name in ("read", "read1"):
            n = self.arg(args, kw, 0, "size", None)
            if isinstance(n, Term) and n.op == "ite" and NONE in n.args[1:]:
                n = IteV(*n.args)
            if isinstance(n, IteV):
                return self.lift(st, n, lambda s, x: self.stream_method(s, o, self.obj(s, o), name, [x], {}, node))
            if n is None or n == NONE or n == const(-1):
                n = None
            elif not (isinstance(n, Term) and T.is_num(n)):
                n = self.unknown(st, node, "read size", "int")
            if mem:
                r = self.slice_bytes(st, h.name, h.pos, NONE if n is None else T.add(h.pos, n), node)
                st.heap[o.oid] = replace(h, pos=T.add(h.pos, n) if n is not None else self.unknown(st, node, "position after reading to the end", "int"))
                return r
            if name == "read1":
                self.emit("stream", st, node, what="read1", stream=h.name)
                n2 = self.unknown(st, node, "length of a short read", "int")
            else:
                n2 = n
            self.emit("read", st, node, stream=h.name, pos=h.pos, n=n, how=name, buf=None)
            st.heap[o.oid] = replace(h, pos=T.add(h.pos, n2) if n2 is not None else self.unknown(st, node, "position after reading to the end", "int"))
            if "#gzip" in h.name or h.name.startswith("gzip"):
                self.may_raise(st, node, "EOFError", Term("fails", "gzip", root, h.pos))
            if n is None:
                return Term("bytes", root, h.pos, None, False)
            return Term("bytes", root, h.pos, n, "read" if name == "read" else False)
        if name == "readinto":
            v = args[0]
            if isinstance(v, IteV):
                return self.lift(st, v, lambda s, x: self.stream_method(s, o, self.obj(s, o), name, [x] + args[1:], kw, node))
            hb = self.obj(st, v)
            cd = self.cdata(st, v)
            size, buf, off = None, None, ZERO
            if isinstance(hb, BufObj):
                size, buf = hb.size, v.oid
            elif cd is not None:
                size, buf, off = self.size_term(cd[0]), cd[1], cd[2]
            p = self.parts(h.name) if mem else None
            if size is not None and p is not None:
                got = T.tmin([size, T.tmin([ZERO, T.sub(self.length(st, h.name, node), h.pos)], "max")])
                b = st.heap[buf]
                if off == ZERO and size == b.size:
                    st.heap[buf] = replace(b, root=p[0], base=T.add(p[1], h.pos), over=())
                else:
                    st.heap[buf] = replace(b, root=self.unknown(st, node, "buffer read in parts"), over=())
                if buf in self.handed:
                    self.emit("ymut", st, node, target="a buffer", what="readinto")
                if self.alloc[buf].phase == "module":
                    self.emit("gmut", st, node, target=f"buffer created at {self.alloc[buf].path}:{self.alloc[buf].line}", what="readinto", old=b, new=st.heap[buf], oid=buf)
                self.emit("filled", st, node, root=p[0], size=size, got=got)
                st.heap[o.oid] = replace(h, pos=T.add(h.pos, got))
                return got
            if size is None or mem:
                self.emit("unsupported", st, node, what="readinto of an unknown buffer")
                return self.unknown(st, node, "readinto", "int")
            self.emit("read", st, node, stream=h.name, pos=h.pos, n=size, how=name, buf=buf)
            b = st.heap[buf]
            if off == ZERO:
                st.heap[buf] = replace(b, root=root, base=h.pos, over=())
            else:
                st.heap[buf] = replace(b, root=self.unknown(st, node, "buffer read in parts"), over=())
            if self.alloc[buf].phase == "module":
                self.emit("gmut", st, node, target=f"buffer created at {self.alloc[buf].path}:{self.alloc[buf].line}", what="readinto", old=b, new=st.heap[buf], oid=buf)
            if buf in self.handed:
                self.emit("ymut", st, node, target="a buffer", what="readinto")
            st.heap[o.oid] = replace(h, pos=T.add(h.pos, size))
            return Term("nread", root, h.pos, size)
        # The caller's file may stand anywhere when it is handed over; positions are counted from there.
        start = Term("call", "start", root, "int") if not mem and h.name == "raw_file" else ZERO
        if name == "tell":
            return T.add(h.pos, start)
        if name == "seek":
            off = args[0]
            wh = self.arg(args, kw, 1, "whence", ZERO)
            pos = None
            if isinstance(off, Term) and T.is_num(off):
                pos = T.sub(off, start) if wh == ZERO else T.add(h.pos, off) if wh == ONE else None
            self.emit("stream", st, node, what="seek", stream=h.name if not mem else "memory", before=h.pos, after=pos)
            pos = pos if pos is not None else self.unknown(st, node, "position after a seek", "int")
            st.heap[o.oid] = replace(h, pos=pos)
            return pos
        if name == "peek":
            self.emit("stream", st, node, what="peek", stream=h.name if not mem else "memory", before=h.pos, after=h.pos)
            return Term("bytes", root, h.pos, None, False) if not mem else self.unknown(st, node, "peek", "bytes")
        if name == "close":
            self.emit("close", st, node, obj=o, how="close", wid=None, alive=True)
            return NONE
        if name in ("getvalue", "getbuffer") and mem:
            return h.name
        if name in ("readable", "seekable", "isatty", "writable"):
            return self.call_term(st, name, [Term("sym", "stream", None)], {}, node, "bool")
        if name in ("__enter__",):
            return o
        if name in ("flush", "__exit__"):
            return NONE
        if name in ("write", "writelines", "truncate"):
            self.emit("streamwrite", st, node, what=name, stream=str(h.name))
            return self.unknown(st, node, name)
        self.emit("stream", st, node, what=name, stream=h.name if not mem else "memory", before=h.pos, after=None)
        return self.unknown(st, node, f"stream.{name}")

    # -- ctypes
    def from_buffer(self, st, ct, name, args, kw, node):
        src = args[0]
        off = self.arg(args, kw, 1, "offset", ZERO)
        size = self.size_term(ct)
        if not (isinstance(off, Term) and T.is_num(off)):
            off = self.unknown(st, node, "offset", "int")
        if name == "from_buffer":
            o = self.obj(st, src)
            cd = self.cdata(st, src)
            if isinstance(o, BufObj):
                self.may_raise(st, node, "ValueError", T.compare("<", T.sub(o.size, off), size), root=o.root, base=T.add(o.base, off), size=size, short=True)
                r = self.new(st, StructObj(ct, src.oid, off), node)
                return r
            if cd is not None:
                self.may_raise(st, node, "ValueError", T.compare("<", T.sub(self.size_term(cd[0]), off), size), root=st.heap[cd[1]].root,
                               base=T.add(T.add(st.heap[cd[1]].base, cd[2]), off), size=size, short=True)
                return self.new(st, StructObj(ct, cd[1], T.add(cd[2], off)), node)
            if isinstance(src, Term) and T.ty(src) == "bytes":
                self.py_raise(st, "TypeError", node, "underlying buffer is not writable")
            return self.new_struct(st, ct, self.unknown(st, node, "data of an unknown buffer"), ZERO, node)
        b = self.as_bytes(st, src, node)
        if isinstance(b, Term) and b.op == "ite":
            return self.fork(st, self.decide(st, b.args[0]), lambda s: self.from_buffer(s, ct, name, [b.args[1]] + args[1:], kw, node),
                             lambda s: self.from_buffer(s, ct, name, [b.args[2]] + args[1:], kw, node))
        p = self.parts(b) if b is not None else None
        if p is None:
            self.may_raise(st, node, "ValueError", Term("fails", "short", const(None)), root=None, base=None, size=size, short=True)
            return self.new_struct(st, ct, self.unknown(st, node, "data of an unknown source"), ZERO, node)
        ln = self.length(st, b, node)
        fails = T.compare("<", T.sub(ln, off), size)
        self.may_raise(st, node, "ValueError", fails, root=p[0], base=T.add(p[1], off), size=size, short=True)
        if self.decide(st, fails) == TRUE:
            self.py_raise(st, "ValueError", node, "Buffer size too small")
        buf = self.new(st, BufObj(p[0], T.add(p[1], off), size), node)
        return self.new(st, StructObj(ct, buf.oid, ZERO), node)

    # -- lists, dictionaries
    def list_method(self, st, o, h, name, args, kw, node):
        if name in ("append", "add", "appendleft"):
            if name == "appendleft":
                self.mutate(st, o, ListObj((Item(TRUE, args[0]),) + h.segs, h.kind), node, name)
            else:
                self.list_append(st, o, args[0], node)
            return NONE
        if name in ("extend", "update"):
            for a in args:
                self.list_extend(st, o, a, node)
            return NONE
        if name == "insert":
            items = self.known_items(st, o)
            if args[0] == ZERO:
                self.mutate(st, o, ListObj((Item(TRUE, args[1]),) + h.segs, h.kind), node, name)
            elif items is not None and T.is_int_const(args[0]):
                items.insert(int(cval(args[0])), args[1])
                self.mutate(st, o, ListObj(tuple(Item(TRUE, x) for x in items), h.kind), node, name)
            else:
                self.mutate(st, o, ListObj((Item(TRUE, self.unknown(st, node, "list after insert")),), h.kind), node, name)
            return NONE
        if name == "clear":
            self.mutate(st, o, ListObj((), h.kind), node, name)
            return NONE
        if name == "copy":
            return self.new(st, h, node)
        if name in ("pop", "popleft"):
            items = self.known_items(st, o)
            i = args[0] if args else ZERO if name == "popleft" else const(-1)
            if items is not None and T.is_int_const(i):
                try:
                    v = items.pop(int(cval(i)))
                except IndexError:
                    self.py_raise(st, "IndexError", node)
                self.mutate(st, o, ListObj(tuple(Item(TRUE, x) for x in items), h.kind), node, name)
                return v
            if h.segs and isinstance(h.segs[-1], Item) and h.segs[-1].guard == TRUE and i == const(-1):
                self.mutate(st, o, ListObj(h.segs[:-1], h.kind), node, name)
                return h.segs[-1].value
            self.mutate(st, o, ListObj((Item(TRUE, self.unknown(st, node, "list after pop")),), h.kind), node, name)
            return self.unknown(st, node, "popped value")
        if name in ("sort", "reverse", "remove", "discard", "rotate"):
            items = self.known_items(st, o)
            if name == "reverse" and items is not None:
                self.mutate(st, o, ListObj(tuple(Item(TRUE, x) for x in items[::-1]), h.kind), node, name)
                return NONE
            if name in ("remove", "discard") and items is not None and args[0] in items:
                items.remove(args[0])
                self.mutate(st, o, ListObj(tuple(Item(TRUE, x) for x in items), h.kind), node, name)
                return NONE
            src = self.new(st, h, node)
            if name == "reverse":
                r = self.materialise(st, SeqV("reversed", (src,)), node)
                self.mutate(st, o, st.heap[r.oid], node, name)
                return NONE
            if name == "sort":
                r = self.x_sorted(st, [src], kw, node)
                if not isinstance(r, Term):
                    r = self.materialise(st, r, node)
                    self.mutate(st, o, st.heap[r.oid], node, name)
                    return NONE
            self.mutate(st, o, ListObj((Item(TRUE, self.unknown(st, node, f"list after {name}")),), h.kind), node, name)
            return NONE
        if name in ("index", "count"):
            p, q = self.pyconst(st, o), self.pyconst(st, args[0])
            if p is not NotImplemented and q is not NotImplemented:
                try:
                    return const(getattr(p, name)(q))
                except ValueError:
                    self.py_raise(st, "ValueError", node)
            return self.unknown(st, node, name, "int")
        if h.kind == "set" and name in ("union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint"):
            p = self.pyconst(st, self.new(st, ListObj(h.segs), node))
            qs = [self.pyconst(st, self.materialise(st, a, node)) for a in args]
            if p is not NotImplemented and all(q is not NotImplemented for q in qs):
                r = getattr(set(p), name)(*qs)
                if isinstance(r, bool):
                    return TRUE if r else FALSE
                return self.new(st, ListObj(tuple(Item(TRUE, const(x)) for x in sorted(r, key=repr)), "set"), node)
        return self.unknown(st, node, f"list.{name}")

    def dict_method(self, st, o, h, name, args, kw, node):
        if name in ("items", "keys", "values"):
            return SeqV(name, (o,))
        if name in ("get", "setdefault", "pop"):
            k = args[0]
            if isinstance(k, IteV):
                return self.lift(st, k, lambda s, x: self.dict_method(s, o, self.obj(s, o), name, [x] + args[1:], kw, node))
            d = args[1] if len(args) > 1 else NONE
            r = self.getitem_opt(st, o, k, node)

            def missing(s):
                if name == "setdefault":
                    self.setitem(s, o, k, d, node)
                if name == "pop" and len(args) < 2:
                    self.py_raise(s, "KeyError", node)
                return d

            def found(s, v):
                if name == "pop":
                    self.delitem(s, o, k, node)
                return v
            if r is None:
                return missing(st)
            if isinstance(r, IteV) and r.b == UNDEF:
                return self.fork(st, self.decide(st, r.cond), lambda s: found(s, r.a), missing)
            if isinstance(r, SelV):
                c = disj([self.truth(st, self.compare_op("Eq", k, kk, st, node), node) for kk, _ in r.options])
                return self.fork(st, self.decide(st, c), lambda s: r, missing)
            if isinstance(r, Term) and (r.op == "opaque" or (r.op == "call" and r.args[0] == "getitem")) and (h.prev or h.base is not None):
                u = self.unknown(st, node, "presence of a key", "bool")
                return self.fork(st, u, lambda s: found(s, r), missing)
            return found(st, r)
        if name == "update":
            for a in args:
                self.dict_update(st, o, a, node)
            for k, v in kw.items():
                self.setitem(st, o, const(k), v, node)
            return NONE
        if name == "copy":
            return self.new(st, h, node)
        if name == "clear":
            self.mutate(st, o, DictObj((), kind=h.kind), node, name)
            return NONE
        if name in ("move_to_end",):
            r = h.get(args[0])
            if r is not None:
                self.mutate(st, o, replace(h, entries=h.delete(args[0]).entries + ((args[0],) + r,)), node, name)
            return NONE
        if name == "popitem":
            if h.entries and not h.prev and h.base is None and h.entries[-1][1] == TRUE:
                k, _, v = h.entries[-1]
                self.mutate(st, o, h.delete(k), node, name)
                return TupleV((k, v))
        if name == "__contains__":
            return self.contains(st, args[0], o, node)
        if name == "__getitem__":
            return self.getitem(st, o, args[0], node)
        if name == "__setitem__":
            self.setitem(st, o, args[0], args[1], node)
            return NONE
        self.mutate(st, o, replace(h, base=self.unknown(st, node, f"dict.{name}")), node, name)
        return self.unknown(st, node, f"dict.{name}")

    def seq_method(self, st, o, name, args, kw, node):
        if o.kind in ("moddict", "classdict", "instdict"):
            if name in ("items", "keys", "values"):
                names = self.known_items(st, o)
                if names is not None:
                    out = []
                    for n in names:
                        v = self.getitem_opt(st, o, n, node)
                        out.append({"items": TupleV((n, v)), "keys": n, "values": v}[name])
                    return self.new(st, ListObj(tuple(Item(TRUE, x) for x in out)), node)
            if name == "get":
                r = self.getitem_opt(st, o, args[0], node)
                return r if r is not None else args[1] if len(args) > 1 else NONE
            if name == "setdefault" and o.kind == "instdict":
                r = self.getitem_opt(st, o, args[0], node)

                def absent(s):
                    d = args[1] if len(args) > 1 else NONE
                    self.setitem(s, o, args[0], d, node)
                    return d
                if r is None:
                    return absent(st)
                if isinstance(r, IteV) and r.b == UNDEF:
                    return self.fork(st, self.decide(st, r.cond), lambda s: r.a, absent)
                if isinstance(r, Term) and r.op == "opaque":
                    u = self.unknown(st, node, "presence of an attribute", "bool")
                    return self.fork(st, u, lambda s: r, absent)
                return r
            if name == "update":
                src = self.obj(st, args[0]) if args else None
                if isinstance(src, DictObj) and not src.prev and src.base is None:
                    for k, g, v in src.entries:
                        self.setitem(st, o, k, v, node)
                    return NONE
            self.emit("unsupported", st, node, what=f"{o.kind}.{name}")
            return self.unknown(st, node, f"{o.kind}.{name}")
        if name == "__next__":
            return self.x_next(st, [o], kw, node)
        if name == "__iter__":
            return o
        return self.unknown(st, node, f"{o.kind}.{name}")

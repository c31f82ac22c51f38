"""Required abstract values, derived from the frozen tables in spec/."""
from __future__ import annotations

import re

from sa import terms as T
from sa.terms import NONE, TRUE, ZERO, Term, const

_C = re.compile(r"c\[(\d+)\]$")


class Layouts:
    def __init__(self, doc):
        self.doc = doc
        self.shapes = doc["shapes"]

    def top(self, v, t):
        n = self.doc["versions"][v].get(t)
        return None if n is None else self.shapes[n]

    def size(self, v, t):
        return self.top(v, t)["size"]

    def field(self, shape, name):
        for e in shape["fields"]:
            if e["name"] == name:
                return e
        raise KeyError(name)

    def leaf(self, v, t, path):
        """(offset, kind) of a scalar at a dotted path without arrays."""
        off, sh = 0, self.top(v, t)
        parts = path.split(".")
        for n, p in enumerate(parts):
            e = self.field(sh, p)
            off += e["off"]
            if n == len(parts) - 1:
                return off, kind(e["type"])
            sh = self.shapes[e["type"]]

    def load(self, v, t, path, root, base=ZERO, index=()):
        """The load term of a field; '[]' in the path consumes an index term."""
        index = list(index)
        off, sh = base, self.top(v, t)
        parts = path.split(".")
        for n, p in enumerate(parts):
            arr = p.endswith("[]")
            e = self.field(sh, p[:-2] if arr else p)
            off = T.add(off, const(e["off"]))
            ty = e["type"]
            if arr:
                off = T.add(off, T.mul(const(ty["stride"]), index.pop(0)))
                ty = ty["of"]
            if n == len(parts) - 1:
                return const(b"") if ty == "c[0]" else Term("load", root, off, kind(ty))
            sh = self.shapes[ty]
        raise KeyError(path)

    def paths(self, v, t):
        """All (path, [(array length)]) of leaves of a structure."""
        out = []

        def go(sh, pre):
            for e in sh["fields"]:
                ty = e["type"]
                p = f"{pre}{e['name']}"
                if isinstance(ty, dict):
                    if isinstance(ty["of"], str) and ty["of"] in self.shapes:
                        go(self.shapes[ty["of"]], p + "[].")
                    else:
                        out.append(p + "[]")
                elif ty in self.shapes:
                    go(self.shapes[ty], p + ".")
                else:
                    out.append(p)
        go(self.top(v, t), "")
        return out

    def dictionary(self, shape, root, base, depth=0):
        """The required dictionary snapshot of a structure."""
        ents = []
        for e in shape["fields"]:
            off = T.add(base, const(e["off"]))
            ents.append((const(e["name"]), TRUE, self.jvalue(shape, e, e["type"], root, off, base, depth)))
        return ("dict", tuple(ents), "", None)

    def jvalue(self, shape, e, ty, root, off, base, depth):
        if isinstance(ty, dict):
            n = const(ty["n"])
            trip = n
            if e.get("limit"):
                le = self.field(shape, e["limit"])
                cnt = Term("load", root, T.add(base, const(le["off"])), kind(le["type"]))
                trip = T.tmin([n, T.tmin([ZERO, cnt], "max")])
            k = Term("iter", f"#{depth}")
            eo = T.add(off, T.mul(const(ty["stride"]), k))
            el = self.jvalue(shape, {}, ty["of"], root, eo, base, depth + 1)
            return ("list", (("loop", TRUE, trip, (("item", TRUE, el),), ()),))
        if ty in self.shapes:
            return self.dictionary(self.shapes[ty], root, off, depth)
        if ty == "c[0]":
            return const("")
        x = Term("load", root, off, kind(ty))
        return text(x) if ty[0] == "c" else x


def kind(ty):
    m = _C.match(ty)
    return ("c", int(m.group(1))) if m else ty


def text(x):
    return Term("decode", x, "utf-8", "ignore")

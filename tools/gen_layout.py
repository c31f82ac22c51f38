"""Development tool (not run by any check): freezes spec/layout.json from the reviewed tree.

Layouts come from the abstract layout rules in sa/ and are cross-validated here against the real ctypes classes and the
structure lengths declared in the headers of the sample logs.
"""
import ctypes
import glob
import gzip
import importlib
import json
import os
import struct
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, "/repo")
from sa.ctx import TOPS, VERSIONS, Ctx, has_cgroups  # noqa: E402
from sa.values import ArrayCT, SimpleCT  # noqa: E402
from sa import terms as T  # noqa: E402

c = Ctx()
KIND = {}


def ty(ct):
    if isinstance(ct, SimpleCT):
        return ct.kind
    if isinstance(ct, ArrayCT):
        n = int(T.cval(ct.n))
        if isinstance(ct.elem, SimpleCT) and ct.elem.kind == "c1":
            return f"c[{n}]"
        return {"n": n, "stride": c.i.ct_size(ct.elem), "of": ty(ct.elem)}
    return struct_of(ct)


def struct_of(cls):
    lay = c.i.layout(cls)
    out = []
    lim = c.i.class_attr(c.i.mstate, cls, "fields_limiters")
    lims = {}
    if lim is not None:
        for k, g, v in c.i.obj(c.i.mstate, lim).entries:
            lims[T.cval(k)] = T.cval(v)
    for f in lay.fields:
        if "future" in f.name:
            continue
        e = {"name": f.name, "off": f.off, "type": ty(f.ct)}
        if isinstance(e["type"], dict) and "n" in e["type"]:
            e["limit"] = lims.pop(f.name, None)
        out.append(e)
    assert not lims, (cls, lims)
    return {"size": lay.size, "name": cls.info.name, "fields": out}


def verify(t, cls, path):
    """The abstract layout against the real ctypes class."""
    assert t["size"] == ctypes.sizeof(cls), path
    for e in t["fields"]:
        d = getattr(cls, e["name"])
        rt = dict((f[0], f[1]) for f in cls._fields_)[e["name"]]
        assert d.offset == e["off"], (path, e)
        x = e["type"]
        if isinstance(x, dict) and "fields" in x:
            verify(x, rt, path + "." + e["name"])
        elif isinstance(x, dict):
            assert rt._length_ == x["n"] and ctypes.sizeof(rt._type_) == x["stride"]
            if isinstance(x["of"], dict) and "fields" in x["of"]:
                verify(x["of"], rt._type_, path + "." + e["name"])
        elif x.startswith("c["):
            assert rt._length_ == int(x[2:-1]) and rt._type_ is ctypes.c_char
        else:
            assert ctypes.sizeof(rt) == int(x[1:]), (path, e)
            if x[0] in "iu":
                assert (rt(-1).value == -1) == (x[0] == "i"), (path, e)
            elif x[0] == "f":
                assert rt in (ctypes.c_float, ctypes.c_double)


out = {}
for v in VERSIONS:
    cl = c.classes(v)
    out[v] = {t: struct_of(cl[t]) for t in TOPS if t in cl}
    m = importlib.import_module("atoparser.structs.atop_" + v.replace(".", "_"))
    for t in out[v]:
        real = m.Header if t == "Header" else getattr(m.Header, t)
        verify(out[v][t], real, f"{v}.{t}")
for p in sorted(glob.glob("/repo/atoparser/test/files/*.log.gz")):
    d = gzip.open(p).read(480)
    w, = struct.unpack_from("<H", d, 4)
    v = f"{(w >> 8) & 0x7f}.{w & 0xff}"
    h = {e["name"]: e for e in out[v]["Header"]["fields"]}
    g = lambda n: struct.unpack_from({"u2": "<H", "u4": "<I", "i4": "<i"}[h[n]["type"]], d, h[n]["off"])[0]
    got = [g("rawheadlen"), g("rawreclen"), g("sstatlen"), g("tstatlen") if "tstatlen" in h else g("pstatlen")]
    want = [out[v][t]["size"] for t in ("Header", "Record", "SStat", "TStat")]
    assert got == want, (p, got, want)
    if has_cgroups(v):
        assert g("cstatlen") == out[v]["CStat"]["size"], p
    print(os.path.basename(p), v, got, "ok")
# Fold repeated structures.
shapes, names = {}, {}


def fold(t):
    if isinstance(t, dict) and "fields" in t:
        t = {"size": t["size"], "name": t["name"], "fields": [dict(e, type=fold(e["type"])) for e in t["fields"]]}
        key = json.dumps(t, sort_keys=True)
        if key not in names:
            n = t["name"]
            k = 1
            while f"{n}#{k}" in shapes:
                k += 1
            names[key] = f"{n}#{k}"
            shapes[names[key]] = {"size": t["size"], "fields": t["fields"]}
        return names[key]
    if isinstance(t, dict):
        return dict(t, of=fold(t["of"]))
    return t


tops = {v: {t: fold(s) for t, s in out[v].items()} for v in VERSIONS}
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "layout.json")
with open(path, "w") as f:
    f.write('{"versions": ' + json.dumps(tops, indent=1) + ',\n"shapes": {\n')
    for i, (n, s) in enumerate(shapes.items()):
        f.write(f' "{n}": {{"size": {s["size"]}, "fields": [\n' + ",\n".join("  " + json.dumps(e) for e in s["fields"]) + "\n ]}" + (",\n" if i < len(shapes) - 1 else "\n"))
    f.write("}}\n")
json.load(open(path))


def arrays(t, p):
    for e in t["fields"]:
        x = e["type"]
        if isinstance(x, dict) and "n" in x:
            print(p, e["name"], x["n"], "limit", e.get("limit"))
            if isinstance(x["of"], dict):
                arrays(x["of"], p + "." + e["name"] + "[]")
        elif isinstance(x, dict):
            arrays(x, p + "." + e["name"])


for v in VERSIONS:
    for t in out[v]:
        arrays(out[v][t], f"{v}.{t}")

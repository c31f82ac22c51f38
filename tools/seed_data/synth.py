"""Writes small atop logs byte by byte (layouts are those of the atop sources, independent of the package)."""
import io
import struct
import sys
import zlib

sys.dont_write_bytecode = True
sys.path.insert(0, ".")

LAYOUT = {'1.26': {'CStat': 0,
          'Header': {'fields': {'aversion': [4, 'u2'],
                                'hertz': [14, 'u2'],
                                'magic': [0, 'u4'],
                                'osrel': [444, 'i4'],
                                'ossub': [452, 'i4'],
                                'osvers': [448, 'i4'],
                                'pagesize': [436, 'u4'],
                                'pstatlen': [32, 'u4'],
                                'rawheadlen': [10, 'u2'],
                                'rawreclen': [12, 'u2'],
                                'sstatlen': [28, 'u4'],
                                'supportflags': [440, 'i4']},
                     'size': 480},
          'Record': {'fields': {'curtime': [0, 'i8'],
                                'flags': [8, 'u2'],
                                'interval': [24, 'u4'],
                                'nexit': [36, 'u4'],
                                'nlist': [28, 'u4'],
                                'npresent': [32, 'u4'],
                                'ntrun': [40, 'u4'],
                                'ntslpi': [44, 'u4'],
                                'ntslpu': [48, 'u4'],
                                'nzombie': [52, 'u4'],
                                'pcomplen': [20, 'u4'],
                                'scomplen': [16, 'u4']},
                     'size': 80},
          'SStat': 88368,
          'TStat': 616},
 '2.10': {'CStat': 0,
          'Header': {'fields': {'aversion': [4, 'u2'],
                                'hertz': [14, 'u2'],
                                'magic': [0, 'u4'],
                                'osrel': [444, 'i4'],
                                'ossub': [452, 'i4'],
                                'osvers': [448, 'i4'],
                                'pagesize': [436, 'u4'],
                                'pidwidth': [16, 'u2'],
                                'rawheadlen': [10, 'u2'],
                                'rawreclen': [12, 'u2'],
                                'sstatlen': [28, 'u4'],
                                'supportflags': [440, 'i4'],
                                'tstatlen': [32, 'u4']},
                     'size': 480},
          'Record': {'fields': {'curtime': [0, 'i8'],
                                'flags': [8, 'u2'],
                                'interval': [24, 'u4'],
                                'nactproc': [32, 'u4'],
                                'ndeviat': [28, 'u4'],
                                'nexit': [60, 'u4'],
                                'noverflow': [64, 'u4'],
                                'ntask': [36, 'u4'],
                                'pcomplen': [20, 'u4'],
                                'scomplen': [16, 'u4'],
                                'totidle': [68, 'u4'],
                                'totproc': [40, 'u4'],
                                'totrun': [44, 'u4'],
                                'totslpi': [48, 'u4'],
                                'totslpu': [52, 'u4'],
                                'totzomb': [56, 'u4']},
                     'size': 96},
          'SStat': 1030216,
          'TStat': 992},
 '2.11': {'CStat': 432,
          'Header': {'fields': {'aversion': [4, 'u2'],
                                'cstatlen': [456, 'i4'],
                                'hertz': [14, 'u2'],
                                'magic': [0, 'u4'],
                                'osrel': [444, 'i4'],
                                'ossub': [452, 'i4'],
                                'osvers': [448, 'i4'],
                                'pagesize': [436, 'u4'],
                                'pidwidth': [16, 'u2'],
                                'rawheadlen': [10, 'u2'],
                                'rawreclen': [12, 'u2'],
                                'sstatlen': [28, 'u4'],
                                'supportflags': [440, 'i4'],
                                'tstatlen': [32, 'u4']},
                     'size': 480},
          'Record': {'fields': {'ccomplen': [72, 'u4'],
                                'coriglen': [76, 'u4'],
                                'curtime': [0, 'i8'],
                                'flags': [8, 'u2'],
                                'icomplen': [84, 'u4'],
                                'interval': [24, 'u4'],
                                'nactproc': [32, 'u4'],
                                'ncgpids': [80, 'u4'],
                                'ncgroups': [10, 'u2'],
                                'ndeviat': [28, 'u4'],
                                'nexit': [60, 'u4'],
                                'noverflow': [64, 'u4'],
                                'ntask': [36, 'u4'],
                                'pcomplen': [20, 'u4'],
                                'scomplen': [16, 'u4'],
                                'totidle': [68, 'u4'],
                                'totproc': [40, 'u4'],
                                'totrun': [44, 'u4'],
                                'totslpi': [48, 'u4'],
                                'totslpu': [52, 'u4'],
                                'totzomb': [56, 'u4']},
                     'size': 96},
          'SStat': 1064016,
          'TStat': 968},
 '2.12': {'CStat': 432,
          'Header': {'fields': {'aversion': [4, 'u2'],
                                'cstatlen': [456, 'i4'],
                                'hertz': [14, 'u2'],
                                'magic': [0, 'u4'],
                                'osrel': [444, 'i4'],
                                'ossub': [452, 'i4'],
                                'osvers': [448, 'i4'],
                                'pagesize': [436, 'u4'],
                                'pidwidth': [16, 'u2'],
                                'rawheadlen': [10, 'u2'],
                                'rawreclen': [12, 'u2'],
                                'sstatlen': [28, 'u4'],
                                'supportflags': [440, 'i4'],
                                'tstatlen': [32, 'u4']},
                     'size': 480},
          'Record': {'fields': {'ccomplen': [72, 'u4'],
                                'coriglen': [76, 'u4'],
                                'curtime': [0, 'i8'],
                                'flags': [8, 'u2'],
                                'icomplen': [84, 'u4'],
                                'interval': [24, 'u4'],
                                'nactproc': [32, 'u4'],
                                'ncgpids': [80, 'u4'],
                                'ncgroups': [10, 'u2'],
                                'ndeviat': [28, 'u4'],
                                'nexit': [60, 'u4'],
                                'noverflow': [64, 'u4'],
                                'ntask': [36, 'u4'],
                                'pcomplen': [20, 'u4'],
                                'scomplen': [16, 'u4'],
                                'totidle': [68, 'u4'],
                                'totproc': [40, 'u4'],
                                'totrun': [44, 'u4'],
                                'totslpi': [48, 'u4'],
                                'totslpu': [52, 'u4'],
                                'totzomb': [56, 'u4']},
                     'size': 96},
          'SStat': 1064016,
          'TStat': 968},
 '2.3': {'CStat': 0,
         'Header': {'fields': {'aversion': [4, 'u2'],
                               'hertz': [14, 'u2'],
                               'magic': [0, 'u4'],
                               'osrel': [444, 'i4'],
                               'ossub': [452, 'i4'],
                               'osvers': [448, 'i4'],
                               'pagesize': [436, 'u4'],
                               'rawheadlen': [10, 'u2'],
                               'rawreclen': [12, 'u2'],
                               'sstatlen': [28, 'u4'],
                               'supportflags': [440, 'i4'],
                               'tstatlen': [32, 'u4']},
                    'size': 480},
         'Record': {'fields': {'curtime': [0, 'i8'],
                               'flags': [8, 'u2'],
                               'interval': [24, 'u4'],
                               'nactproc': [32, 'u4'],
                               'ndeviat': [28, 'u4'],
                               'nexit': [60, 'u4'],
                               'noverflow': [64, 'u4'],
                               'ntask': [36, 'u4'],
                               'pcomplen': [20, 'u4'],
                               'scomplen': [16, 'u4'],
                               'totproc': [40, 'u4'],
                               'totrun': [44, 'u4'],
                               'totslpi': [48, 'u4'],
                               'totslpu': [52, 'u4'],
                               'totzomb': [56, 'u4']},
                    'size': 96},
         'SStat': 711904,
         'TStat': 784},
 '2.4': {'CStat': 0,
         'Header': {'fields': {'aversion': [4, 'u2'],
                               'hertz': [14, 'u2'],
                               'magic': [0, 'u4'],
                               'osrel': [444, 'i4'],
                               'ossub': [452, 'i4'],
                               'osvers': [448, 'i4'],
                               'pagesize': [436, 'u4'],
                               'rawheadlen': [10, 'u2'],
                               'rawreclen': [12, 'u2'],
                               'sstatlen': [28, 'u4'],
                               'supportflags': [440, 'i4'],
                               'tstatlen': [32, 'u4']},
                    'size': 480},
         'Record': {'fields': {'curtime': [0, 'i8'],
                               'flags': [8, 'u2'],
                               'interval': [24, 'u4'],
                               'nactproc': [32, 'u4'],
                               'ndeviat': [28, 'u4'],
                               'nexit': [60, 'u4'],
                               'noverflow': [64, 'u4'],
                               'ntask': [36, 'u4'],
                               'pcomplen': [20, 'u4'],
                               'scomplen': [16, 'u4'],
                               'totproc': [40, 'u4'],
                               'totrun': [44, 'u4'],
                               'totslpi': [48, 'u4'],
                               'totslpu': [52, 'u4'],
                               'totzomb': [56, 'u4']},
                    'size': 96},
         'SStat': 716656,
         'TStat': 840},
 '2.5': {'CStat': 0,
         'Header': {'fields': {'aversion': [4, 'u2'],
                               'hertz': [14, 'u2'],
                               'magic': [0, 'u4'],
                               'osrel': [444, 'i4'],
                               'ossub': [452, 'i4'],
                               'osvers': [448, 'i4'],
                               'pagesize': [436, 'u4'],
                               'rawheadlen': [10, 'u2'],
                               'rawreclen': [12, 'u2'],
                               'sstatlen': [28, 'u4'],
                               'supportflags': [440, 'i4'],
                               'tstatlen': [32, 'u4']},
                    'size': 480},
         'Record': {'fields': {'curtime': [0, 'i8'],
                               'flags': [8, 'u2'],
                               'interval': [24, 'u4'],
                               'nactproc': [32, 'u4'],
                               'ndeviat': [28, 'u4'],
                               'nexit': [60, 'u4'],
                               'noverflow': [64, 'u4'],
                               'ntask': [36, 'u4'],
                               'pcomplen': [20, 'u4'],
                               'scomplen': [16, 'u4'],
                               'totproc': [40, 'u4'],
                               'totrun': [44, 'u4'],
                               'totslpi': [48, 'u4'],
                               'totslpu': [52, 'u4'],
                               'totzomb': [56, 'u4']},
                    'size': 96},
         'SStat': 716656,
         'TStat': 840},
 '2.6': {'CStat': 0,
         'Header': {'fields': {'aversion': [4, 'u2'],
                               'hertz': [14, 'u2'],
                               'magic': [0, 'u4'],
                               'osrel': [444, 'i4'],
                               'ossub': [452, 'i4'],
                               'osvers': [448, 'i4'],
                               'pagesize': [436, 'u4'],
                               'rawheadlen': [10, 'u2'],
                               'rawreclen': [12, 'u2'],
                               'sstatlen': [28, 'u4'],
                               'supportflags': [440, 'i4'],
                               'tstatlen': [32, 'u4']},
                    'size': 480},
         'Record': {'fields': {'curtime': [0, 'i8'],
                               'flags': [8, 'u2'],
                               'interval': [24, 'u4'],
                               'nactproc': [32, 'u4'],
                               'ndeviat': [28, 'u4'],
                               'nexit': [60, 'u4'],
                               'noverflow': [64, 'u4'],
                               'ntask': [36, 'u4'],
                               'pcomplen': [20, 'u4'],
                               'scomplen': [16, 'u4'],
                               'totproc': [40, 'u4'],
                               'totrun': [44, 'u4'],
                               'totslpi': [48, 'u4'],
                               'totslpu': [52, 'u4'],
                               'totzomb': [56, 'u4']},
                    'size': 96},
         'SStat': 716656,
         'TStat': 840},
 '2.7': {'CStat': 0,
         'Header': {'fields': {'aversion': [4, 'u2'],
                               'hertz': [14, 'u2'],
                               'magic': [0, 'u4'],
                               'osrel': [444, 'i4'],
                               'ossub': [452, 'i4'],
                               'osvers': [448, 'i4'],
                               'pagesize': [436, 'u4'],
                               'rawheadlen': [10, 'u2'],
                               'rawreclen': [12, 'u2'],
                               'sstatlen': [28, 'u4'],
                               'supportflags': [440, 'i4'],
                               'tstatlen': [32, 'u4']},
                    'size': 480},
         'Record': {'fields': {'curtime': [0, 'i8'],
                               'flags': [8, 'u2'],
                               'interval': [24, 'u4'],
                               'nactproc': [32, 'u4'],
                               'ndeviat': [28, 'u4'],
                               'nexit': [60, 'u4'],
                               'noverflow': [64, 'u4'],
                               'ntask': [36, 'u4'],
                               'pcomplen': [20, 'u4'],
                               'scomplen': [16, 'u4'],
                               'totproc': [40, 'u4'],
                               'totrun': [44, 'u4'],
                               'totslpi': [48, 'u4'],
                               'totslpu': [52, 'u4'],
                               'totzomb': [56, 'u4']},
                    'size': 96},
         'SStat': 954360,
         'TStat': 840},
 '2.8': {'CStat': 0,
         'Header': {'fields': {'aversion': [4, 'u2'],
                               'hertz': [14, 'u2'],
                               'magic': [0, 'u4'],
                               'osrel': [444, 'i4'],
                               'ossub': [452, 'i4'],
                               'osvers': [448, 'i4'],
                               'pagesize': [436, 'u4'],
                               'pidwidth': [16, 'u2'],
                               'rawheadlen': [10, 'u2'],
                               'rawreclen': [12, 'u2'],
                               'sstatlen': [28, 'u4'],
                               'supportflags': [440, 'i4'],
                               'tstatlen': [32, 'u4']},
                    'size': 480},
         'Record': {'fields': {'ccomplen': [72, 'u4'],
                               'coriglen': [76, 'u4'],
                               'curtime': [0, 'i8'],
                               'flags': [8, 'u2'],
                               'icomplen': [84, 'u4'],
                               'interval': [24, 'u4'],
                               'nactproc': [32, 'u4'],
                               'ncgpids': [80, 'u4'],
                               'ncgroups': [10, 'u2'],
                               'ndeviat': [28, 'u4'],
                               'nexit': [60, 'u4'],
                               'noverflow': [64, 'u4'],
                               'ntask': [36, 'u4'],
                               'pcomplen': [20, 'u4'],
                               'scomplen': [16, 'u4'],
                               'totidle': [68, 'u4'],
                               'totproc': [40, 'u4'],
                               'totrun': [44, 'u4'],
                               'totslpi': [48, 'u4'],
                               'totslpu': [52, 'u4'],
                               'totzomb': [56, 'u4']},
                    'size': 96},
         'SStat': 1021960,
         'TStat': 968},
 '2.9': {'CStat': 0,
         'Header': {'fields': {'aversion': [4, 'u2'],
                               'hertz': [14, 'u2'],
                               'magic': [0, 'u4'],
                               'osrel': [444, 'i4'],
                               'ossub': [452, 'i4'],
                               'osvers': [448, 'i4'],
                               'pagesize': [436, 'u4'],
                               'pidwidth': [16, 'u2'],
                               'rawheadlen': [10, 'u2'],
                               'rawreclen': [12, 'u2'],
                               'sstatlen': [28, 'u4'],
                               'supportflags': [440, 'i4'],
                               'tstatlen': [32, 'u4']},
                    'size': 480},
         'Record': {'fields': {'ccomplen': [72, 'u4'],
                               'coriglen': [76, 'u4'],
                               'curtime': [0, 'i8'],
                               'flags': [8, 'u2'],
                               'icomplen': [84, 'u4'],
                               'interval': [24, 'u4'],
                               'nactproc': [32, 'u4'],
                               'ncgpids': [80, 'u4'],
                               'ncgroups': [10, 'u2'],
                               'ndeviat': [28, 'u4'],
                               'nexit': [60, 'u4'],
                               'noverflow': [64, 'u4'],
                               'ntask': [36, 'u4'],
                               'pcomplen': [20, 'u4'],
                               'scomplen': [16, 'u4'],
                               'totidle': [68, 'u4'],
                               'totproc': [40, 'u4'],
                               'totrun': [44, 'u4'],
                               'totslpi': [48, 'u4'],
                               'totslpu': [52, 'u4'],
                               'totzomb': [56, 'u4']},
                    'size': 96},
         'SStat': 1021960,
         'TStat': 968}}

CODE = {"i1": "b", "u1": "B", "i2": "h", "u2": "H", "i4": "i", "u4": "I", "i8": "q", "u8": "Q", "c1": "c"}


def fill(size, fields, values):
    b = bytearray(size)
    for name, v in values.items():
        off, ty = fields[name]
        if ty.startswith("c["):
            b[off:off + len(v)] = v
        else:
            struct.pack_into("<" + CODE[ty], b, off, v)
    return bytes(b)


def header(v, flag=True, **values):
    lay = LAYOUT[v]
    major, minor = map(int, v.split("."))
    h = {"magic": 0xFEEDBEEF, "aversion": (0x8000 if flag else 0) | major << 8 | minor, "rawheadlen": lay["Header"]["size"],
         "rawreclen": lay["Record"]["size"], "hertz": 100, "sstatlen": lay["SStat"]}
    h["tstatlen" if "tstatlen" in lay["Header"]["fields"] else "pstatlen"] = lay["TStat"]
    if "pagesize" in lay["Header"]["fields"]:
        h["pagesize"] = 4096
    if lay["CStat"]:
        h["cstatlen"] = lay["CStat"]
    h.update(values)
    return fill(lay["Header"]["size"], lay["Header"]["fields"], h)


def pad(b, n):
    return bytes(b) + bytes(n - len(b))


def sample(v, sstat=b"", tasks=(), cgroups=(), raw=None, **values):
    """cgroups: (cstat bytes, [pids]); raw: replaces compressed blocks by name (s, p, c, i)."""
    lay = LAYOUT[v]
    blocks = {"s": zlib.compress(pad(sstat, lay["SStat"])), "p": zlib.compress(b"".join(pad(t, lay["TStat"]) for t in tasks))}
    rec = {"curtime": 1000, "interval": 60}
    rec["nlist" if v == "1.26" else "ndeviat"] = len(tasks)
    if lay["CStat"]:
        blocks["c"] = zlib.compress(b"".join(c for c, _ in cgroups))
        blocks["i"] = zlib.compress(b"".join(struct.pack("<%di" % len(p), *p) for _, p in cgroups))
        rec["ncgroups"] = len(cgroups)
    blocks.update(raw or {})
    for k, b in blocks.items():
        rec[k + "complen"] = len(b)
    rec.update(values)
    return fill(lay["Record"]["size"], lay["Record"]["fields"], rec) + b"".join(blocks.values())


def log(v, *samples, **head):
    return io.BytesIO(header(v, **head) + b"".join(samples))

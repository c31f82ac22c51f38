U, R, S, P = "atoparser/utils.py", "atoparser/reader.py", "atoparser/structs/shared.py", "atoparser/parsers/atop_1_26.py"
SEEDS = []
IMP = "from synth import *\nimport atoparser\n"


def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append({"id": id, "property": prop, "needs": needs, "breaks": breaks, "edits": edits, "demo": IMP + demo})


seed("s01_curtime_zero", "C05", "a record whose time stamp is zero in the middle of a log",
     "iteration ends early at a record with system data",
     [(U, "            if record.scomplen <= 0:\n", "            if record.scomplen <= 0 or not record.curtime:\n")],
     '''
l = log("2.7", sample("2.7"), sample("2.7", curtime=0), sample("2.7"))
assert len(list(atoparser.generate_statistics(l))) == 3
''')
seed("s02_lookahead", "C05", "a reader that looks at the stream position, or a pipe that delivers sample by sample",
     "the next record is read before the current sample is handed out",
     [(U, '''            record = get_record(raw_file, header)
            if record.scomplen <= 0:
                # Natural end-of-file, no further bytes were found to populate another record.
                break
''', '''            if upcoming is None:
                upcoming = get_record(raw_file, header)
            record = upcoming
            if record.scomplen <= 0:
                # Natural end-of-file, no further bytes were found to populate another record.
                break
'''), (U, '''            yield record, sstat, tstats, cgroups
''', '''            # Fetch the next record up front, so that a trailing incomplete record is noticed early.
            upcoming = get_record(raw_file, header)
            yield record, sstat, tstats, cgroups
'''), (U, '''        major, minor = int(major), int(minor)
''', '''        major, minor = int(major), int(minor)
        upcoming = None
''')],
     '''
first = sample("2.7")
l = log("2.7", first, sample("2.7", curtime=5))
h = atoparser.get_header(l)
g = atoparser.generate_statistics(l, h)
next(g)
assert l.tell() == 480 + len(first), l.tell()
''')
seed("s03_swallow_value_error", "C06", "task data that decompresses to too few bytes while truncation is to be tolerated",
     "a ValueError about incomplete task data is swallowed",
     [(U, '''    except zlib.error:
        # End of readable''', '''    except (zlib.error, ValueError):
        # End of readable''')],
     '''
l = log("2.7", sample("2.7"), sample("2.7", raw={"p": zlib.compress(b"x" * 10)}, ndeviat=1))
try:
    list(atoparser.generate_statistics(l, raise_on_truncation=False))
except ValueError:
    pass
else:
    raise AssertionError("no error")
''')
seed("s04_clamped_tasks", "C07", "a record that declares more tasks than its data holds",
     "a shorter task list is returned instead of an error",
     [(U, '''    for index in range(record_count):
''', '''    for index in range(min(record_count, len(decompressed) // tstatlen)):
''')],
     '''
l = log("2.7", sample("2.7", tasks=[b"a"], ndeviat=2))
try:
    list(atoparser.generate_statistics(l))
except ValueError:
    pass
else:
    raise AssertionError("no error")
''')
seed("s05_cgroup_stride", "C08", "a cgroup whose declared length includes its name",
     "the next cgroup is decoded from the wrong place",
     [(U, '''        cstat_start += cstat.gen.structlen
''', '''        cstat_start += max(cstat.gen.structlen, cstatlen) if cstat.gen.structlen % 8 == 0 else cstatlen
''')],
     '''
def cg(n, procs, ident):
    b = bytearray(n)
    struct.pack_into("<i", b, 0, n)
    return b, [1] * procs, ident
from atoparser.structs import atop_2_11
def make(n, pids):
    b = bytearray(n)
    c = atop_2_11.CStat.from_buffer(b)
    c.gen.structlen = n
    c.gen.nprocs = len(pids)
    c.cpu.utime = n
    del c
    return bytes(b), pids
l = log("2.11", sample("2.11", cgroups=[make(432 + 13, [1, 2]), make(432, [3])]))
(g,) = list(atoparser.generate_statistics(l))
assert [c.cstat.cpu.utime for c in g[3]] == [445, 432]
''')
seed("s06_zero_limit", "C10", "a count of zero with entries left over from earlier use",
     "a list whose count is zero shows every slot",
     [(U, '''                if limiter:
''', '''                if limiter and getattr(struct, limiter):
''')],
     '''
from atoparser.structs import atop_2_7
s = atop_2_7.SStat()
d = atoparser.struct_to_dict(s)
assert d["cpu"]["cpu"] == [], len(d["cpu"]["cpu"])
''')
seed("s07_ascii", "C11", "a text field with characters outside ASCII",
     "valid UTF-8 text loses its non-ASCII characters",
     [(U, '''                struct_dict[field_name] = field_data.decode(errors="ignore")
''', '''                struct_dict[field_name] = field_data.decode("ascii", errors="ignore")
''')],
     '''
from atoparser.structs import atop_2_7
s = atop_2_7.TStat()
s.gen.name = "caf\\u00e9".encode()
assert atoparser.struct_to_dict(s)["gen"]["name"] == "caf\\u00e9"
''')
seed("s08_unnamed_gap", "C13", "an interface table with an unnamed entry before a stale named one",
     "rows are emitted beyond the first unnamed interface",
     [(P, '''        if not interface.name:
            # Interface list contains 32 entries, but only up the first empty name are valid.
            break
''', '''        if not interface.name:
            # Interface list contains 32 entries, but only up the first empty name are valid.
            continue
''')],
     '''
from atoparser.structs import atop_1_26
from atoparser.parsers import atop_1_26 as p
h, r, s = atop_1_26.Header(), atop_1_26.Record(), atop_1_26.SStat()
s.intf.intf[0].name = b"a"
s.intf.intf[2].name = b"b"
assert [x["name"] for x in p.parse_NETL(h, r, s, [])] == ["a"]
''')
seed("s09_cgroup_key", "C14", "the cgroup option on a sample without cgroups",
     "the cgroup entry is missing from documents although it was asked for",
     [(R, '''                    if show_cstats:
''', '''                    if show_cstats and cgroups:
''')],
     '''
import contextlib, json, tempfile, os
from atoparser import reader
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.log")
    open(p, "wb").write(log("2.11", sample("2.11")).getvalue())
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        reader.parse_file(p, show_cstats=True)
    assert json.loads(out.getvalue())[0]["cgroup"] == []
''')
seed("s10_major_only", "C15", "parseables asked from a log of an unlisted version of the same major number",
     "the parsers of 1.26 are applied to another version",
     [(R, '''        if parseables and header.semantic_version not in PARSEABLE_MAP:
''', '''        if parseables and header.major_version not in {int(version.split(".")[0]) for version in PARSEABLE_MAP}:
''')],
     '''
import contextlib, json, tempfile, os
from atoparser import reader
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.log")
    head = bytearray(header("2.12"))
    struct.pack_into("<H", head, 4, 0x8000 | 1 << 8 | 27)
    open(p, "wb").write(bytes(head) + sample("2.12"))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        reader.parse_file(p, ["CPL"])
    got = json.loads(out.getvalue())
    assert len(got) == 1 and "1.27" in got[0]["error"] and got[0]["file"] == p, got
''')
seed("s11_shared_empty", "C16", "a caller that adds to the cgroup list of one sample of an old log",
     "samples of versions without cgroups share one list",
     [(U, '''        for _ in range(max_samples):
            # Read the repeating''', '''        cgroups = []
        for _ in range(max_samples):
            # Read the repeating'''), (U, '''                cgroups = get_cstat(raw_file, header, record)
            else:
                cgroups = []
''', '''                cgroups = get_cstat(raw_file, header, record)
''')],
     '''
a, b = list(atoparser.generate_statistics(log("2.7", sample("2.7"), sample("2.7"))))
a[3].append("mine")
assert b[3] == []
''')
seed("s12_block_cache", "C17", "two samples with identical system data, one of them changed by the caller",
     "decoded system data is shared between samples and logs",
     [(U, '''    decompressed = zlib.decompress(buffer)
    sstat = header.SStat.from_buffer_copy(decompressed)
    return sstat
''', '''    key = (type(header), buffer)
    if key not in _SSTATS:
        _SSTATS.clear()
        _SSTATS[key] = header.SStat.from_buffer_copy(zlib.decompress(buffer))
    return _SSTATS[key]
'''), (U, '''# Definition from rawlog.c
MAGIC''', '''# Idle systems write the same block over and over.
_SSTATS = {}

# Definition from rawlog.c
MAGIC''')],
     '''
a = next(atoparser.generate_statistics(log("2.7", sample("2.7"))))
a[1].cpu.nrcpu = 77
b = next(atoparser.generate_statistics(log("2.7", sample("2.7"))))
assert b[1].cpu.nrcpu == 0
''')
seed("s13_open_close", "C19", "a file whose processing fails",
     "the input file stays open when processing fails",
     [(R, '''    with opener(file, "rb") as raw_file:
        header = atoparser.get_header(raw_file)
''', '''    raw_file = opener(file, "rb")
    header = atoparser.get_header(raw_file)
    with raw_file:
''')],
     '''
import builtins, tempfile, os
from atoparser import reader
opened = []
real = open
def spy(*a, **k):
    f = real(*a, **k)
    opened.append(f)
    return f
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.log")
    real(p, "wb").write(b"no header" * 100)
    builtins.open = spy
    reader.open = spy
    try:
        reader.parse_file(p)
    except ValueError:
        pass
    assert opened and all(f.closed for f in opened)
''')
seed("s14_version_mask", "C02", "a log that states a version of 64 or more",
     "the version number is cut to six bits, so an unlisted version is taken for a listed one",
     [(S, "(self.aversion >> 8) & 0x7F", "(self.aversion >> 8) & 0x3F")],
     '''
head = bytearray(header("2.12"))
struct.pack_into("<H", head, 4, 0x8000 | (64 + 2) << 8 | 7)
h = atoparser.get_header(io.BytesIO(bytes(head)))
assert h.semantic_version == "66.7", h.semantic_version
''')
seed("s15_longer_ok", "C03", "a header that declares a longer structure than the one used",
     "headers with longer declared structures are accepted",
     [(S, "        if any(size[1] != size[2] for size in sizes):\n", "        if any(size[1] < size[2] for size in sizes):\n")],
     '''
l = log("2.7", tstatlen=LAYOUT["2.7"]["TStat"] + 8)
try:
    atoparser.get_header(l)
except ValueError:
    pass
else:
    raise AssertionError("accepted")
''')
seed("s16_dirty_slab", "C01", "a log with memory shared between NUMA nodes",
     "two memory counters per NUMA node are swapped",
     [("atoparser/structs/atop_2_8.py", '''        ("inactive", count_t),
        ("shmem", count_t),
        ("tothp", count_t),
    ]


class MemNUMA''', '''        ("shmem", count_t),
        ("inactive", count_t),
        ("tothp", count_t),
    ]


class MemNUMA''')],
     '''
from atoparser.structs import atop_2_8
m = atop_2_8.MemPerNUMA.from_buffer_copy(b"".join(struct.pack("<q", i) for i in range(11)))
assert (m.active, m.inactive, m.shmem, m.tothp) == (7, 8, 9, 10), (m.active, m.inactive, m.shmem, m.tothp)
''')
seed("s17_open_update", "C18", "a file system or caller that notices the open mode",
     "input files are opened for writing as well",
     [(R, '''    with opener(file, "rb") as raw_file:
''', '''    with opener(file, "r+b" if opener is open else "rb") as raw_file:
''')],
     '''
import builtins, tempfile, os
from atoparser import reader
modes = []
real = open
def spy(p, m="r", *a, **k):
    modes.append(m)
    return real(p, m, *a, **k)
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.log")
    real(p, "wb").write(log("2.7", sample("2.7")).getvalue())
    builtins.open = spy
    try:
        reader.parse_file(p)
    finally:
        builtins.open = real
assert modes and all("+" not in m and "w" not in m for m in modes), modes
''')
seed("s18_own_type", "C20", "code that checks structures against the types of the version module",
     "the published type of 2.12 is not the one inside its samples",
     [("atoparser/structs/atop_2_12.py", "PerLLC = atop_2_8.PerLLC\n", '''class PerLLC(atop_2_8.PerLLC):
    """Embedded struct to describe last level cache usage."""

''')],
     '''
from atoparser.structs import atop_2_12 as m
assert isinstance(m.SStat().llc.perllc[0], m.PerLLC)
''')
seed("s19_duplex_raw", "C21", "an interface whose duplex byte is neither 0 nor 1",
     "a parseable row holds bytes, which JSON cannot hold",
     [(P, 'int.from_bytes(interface.duplex, byteorder="big")', '{b"": 0, b"\\x00": 0, b"\\x01": 1}.get(interface.duplex, interface.duplex)')],
     '''
import json
from atoparser.structs import atop_1_26
from atoparser.parsers import atop_1_26 as p
h, r, s = atop_1_26.Header(), atop_1_26.Record(), atop_1_26.SStat()
s.intf.intf[0].name = b"a"
s.intf.intf[0].duplex = b"\\x02"
json.dumps(list(p.parse_NETL(h, r, s, [])))
''')
seed("s20_ip6_forward", "C12", "forwarded IPv6 packets whose input and output counters differ",
     "the forwarded packets column counts another IPv6 counter",
     [(P, "sstat.net.ipv6.Ip6OutForwDatagrams", "sstat.net.ipv6.Ip6InDelivers")],
     '''
from atoparser.structs import atop_1_26
from atoparser.parsers import atop_1_26 as p
h, r, s = atop_1_26.Header(), atop_1_26.Record(), atop_1_26.SStat()
s.net.ipv6.Ip6InDelivers = 5
s.net.ipv6.Ip6OutForwDatagrams = 7
(row,) = p.parse_NETU(h, r, s, [])
assert row["ip_pkt_forwarded"] == 7
''')
seed("s21_minus_one", "C09", "a field whose value is -1",
     "fields holding -1 lose their value",
     [(U, '''            else:
                struct_dict[field_name] = field_data
''', '''            else:
                # The kernel reports -1 for what is not available.
                struct_dict[field_name] = None if field_data == -1 else field_data
''')],
     '''
from atoparser.structs import atop_2_7
t = atop_2_7.TStat()
t.gen.excode = -1
assert atoparser.struct_to_dict(t)["gen"]["excode"] == -1
''')
seed("s22_skip_pidlist", "C04", "a sample that declares no cgroups but still carries cgroup data blocks",
     "the blocks of a sample without cgroups are not read, so everything after is misread",
     [(U, '''    buffer_cstats = raw_file.read(record.ccomplen)
''', '''    if not record.ncgroups:
        return []
    buffer_cstats = raw_file.read(record.ccomplen)
''')],
     '''
l = log("2.11", sample("2.11"), sample("2.11", curtime=2000))
assert [g[0].curtime for g in atoparser.generate_statistics(l)] == [1000, 2000]
''')

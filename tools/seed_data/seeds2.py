from seed_data.seeds1 import IMP, P, R, S, U

SEEDS = []
FILES = '''
import contextlib, json, os, tempfile
from atoparser import reader
def shown(l, *a, name="x.log", **k):
    """What parse_file prints for a log."""
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, name)
        with open(p, "wb") as f:
            f.write(l.getvalue())
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            reader.parse_file(p, *a, **k)
        return out.getvalue(), p
'''


def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append({"id": id, "property": prop, "needs": needs, "breaks": breaks, "edits": edits, "demo": IMP + demo})


seed("t01_procs_below", "C08", "a cgroup without own processes whose children have some",
     "a cgroup without processes takes the ids of the next one",
     [(U, "        pid_array = pid_t * cstat.gen.nprocs\n", "        pid_array = pid_t * (cstat.gen.nprocs or cstat.gen.procsbelow)\n")],
     '''
from atoparser.structs import atop_2_11
def make(pids, below=0):
    c = atop_2_11.CStat()
    c.gen.structlen = 432
    c.gen.nprocs = len(pids)
    c.gen.procsbelow = below
    return bytes(c), pids
(g,) = list(atoparser.generate_statistics(log("2.11", sample("2.11", cgroups=[make([], 1), make([7, 8])]))))
assert [list(c.proclist) for c in g[3]] == [[], [7, 8]]
''')
seed("t02_recent_tasks", "C07", "a sample with more tasks than the default limit of process ids",
     "only the last 32768 tasks of a sample are kept",
     [(U, "    tstats = []\n", "    tstats = collections.deque(maxlen=32768)\n"), (U, "    return tstats\n", "    return list(tstats)\n"),
      (U, "import ctypes\nimport io\n", "import collections\nimport ctypes\nimport io\n")],
     '''
(g,) = list(atoparser.generate_statistics(log("1.26", sample("1.26", raw={"p": zlib.compress(bytes(616 * 32770))}, nlist=32770))))
assert len(g[2]) == 32770
''')
seed("t03_record_buffer", "C16", "a caller that keeps the record of one sample while reading the next",
     "all records of a version live in one buffer",
     [(U, '''    record = header.Record()
    raw_file.readinto(record)
    return record
''', '''    buffer = _RECORD_BUFFERS.setdefault(header.supported_version, bytearray(ctypes.sizeof(header.Record)))
    buffer[:] = bytes(len(buffer))
    raw_file.readinto(buffer)
    return header.Record.from_buffer(buffer)
'''), (U, "MAGIC = 0xFEEDBEEF\n", "MAGIC = 0xFEEDBEEF\n\n# Records are read over and over, reuse their memory.\n_RECORD_BUFFERS = {}\n")],
     '''
a, b = list(atoparser.generate_statistics(log("2.7", sample("2.7", curtime=1), sample("2.7", curtime=2))))
assert (a[0].curtime, b[0].curtime) == (1, 2)
''')
seed("t04_core_overflow", "C13", "a damaged core count beyond the capacity of the table",
     "the rows of the cores end with an IndexError",
     [(P, '''    for index, cpu in enumerate(sstat.cpu.cpu):
        if index >= sstat.cpu.nrcpu:
            # Core list contains 100 entries, but only up the count specified in the cpu stat are valid.
            break
''', '''    # Core list contains 100 entries, but only up the count specified in the cpu stat are valid.
    for index in range(sstat.cpu.nrcpu):
        cpu = sstat.cpu.cpu[index]
''')],
     '''
from atoparser.structs import atop_1_26
from atoparser.parsers import atop_1_26 as p
s = atop_1_26.SStat()
s.cpu.nrcpu = 5000
assert len(list(p.parse_cpu(atop_1_26.Header(), atop_1_26.Record(), s, []))) == len(s.cpu.cpu)
''')
seed("t05_byte_order_mark", "C11", "a text that starts with a byte order mark",
     "the first character of such a text is lost",
     [(U, '''                struct_dict[field_name] = field_data.decode(errors="ignore")
''', '''                struct_dict[field_name] = field_data.decode("utf-8-sig", errors="ignore")
''')],
     '''
from atoparser.structs import atop_2_7
s = atop_2_7.TStat()
s.gen.name = "\\ufeffname".encode()
assert atoparser.struct_to_dict(s)["gen"]["name"] == "\\ufeffname"
''')
seed("t06_float_beyond", "C09", "a counter of more than 53 bits",
     "large counters lose their last digits",
     [(U, '''            else:
                struct_dict[field_name] = field_data
''', '''            elif isinstance(field_data, int) and abs(field_data) > 2**53:
                # Beyond what a JSON number can hold exactly in most readers.
                struct_dict[field_name] = float(field_data)
            else:
                struct_dict[field_name] = field_data
''')],
     '''
from atoparser.structs import atop_2_7
s = atop_2_7.TStat()
s.mem.vmem = 2**60 + 1
assert atoparser.struct_to_dict(s)["mem"]["vmem"] == 2**60 + 1
''')
seed("t07_chunked_output", "C19", "a log with more than a thousand entries",
     "several documents are printed for one file",
     [(R, '''    print(json.dumps(samples, indent=2 if pretty_print else None))
''', '''    for start in range(0, max(len(samples), 1), 1000):
        print(json.dumps(samples[start : start + 1000], indent=2 if pretty_print else None))
''')],
     FILES + '''
one = sample("1.26")
out, _ = shown(log("1.26", *[one] * 1001), ["CPL"])
assert len(json.loads(out)) == 1001
''')
seed("t08_idle_cgroups", "C14", "a cgroup without processes",
     "cgroups without processes are missing from the documents",
     [(R, '''                        converted["cgroup"] = [atoparser.struct_to_dict(stat) for stat in cgroups]
''', '''                        converted["cgroup"] = [atoparser.struct_to_dict(stat) for stat in cgroups if stat.cstat.gen.nprocs]
''')],
     FILES + '''
from atoparser.structs import atop_2_11
c = atop_2_11.CStat()
c.gen.structlen = 432
out, _ = shown(log("2.11", sample("2.11", cgroups=[(bytes(c), [])])), show_cstats=True)
assert len(json.loads(out)[0]["cgroup"]) == 1
''')
seed("t09_short_name", "C15", "a log that is not in the working directory",
     "the error entry does not name the file that was given",
     [(R, '                    "file": file,\n', '                    "file": file.rsplit("/", 1)[-1],\n')],
     FILES + '''
out, p = shown(log("2.7"), ["CPL"])
assert json.loads(out)[0]["file"] == p
''')
seed("t10_old_quiet", "C06", "a truncated log of version 1.26 with errors requested",
     "truncation of old logs is never reported",
     [(U, '''        if raise_on_truncation:
            raise
''', '''        if raise_on_truncation and header.major_version > 1:
            raise
''')],
     '''
try:
    list(atoparser.generate_statistics(log("1.26", sample("1.26")[:-5])))
except zlib.error:
    pass
else:
    raise AssertionError("no error")
''')
seed("t11_disk_type", "C20", "code that checks the type of a disk of version 2.4",
     "the published disk type is not the one inside its samples",
     [("atoparser/structs/atop_2_4.py", "PerDSK = atop_2_3.PerDSK\n", "PerDSK = atop_1_26.PerDSK\n")],
     '''
from atoparser.structs import atop_2_4 as m
assert isinstance(m.SStat().dsk.dsk[0], m.PerDSK)
''')
seed("t13_exit_byte", "C12", "a task that was ended by a signal",
     "the exit code column only holds the low byte",
     [(P, '            "exit_code": stat.gen.excode,\n', '            "exit_code": stat.gen.excode & 0xFF,\n')],
     '''
from atoparser.structs import atop_1_26
from atoparser.parsers import atop_1_26 as p
t = atop_1_26.TStat()
t.gen.excode = 0x1234
(row,) = p.parse_PRG(atop_1_26.Header(), atop_1_26.Record(), atop_1_26.SStat(), [t])
assert row["exit_code"] == 0x1234
''')
seed("t14_same_total", "C03", "a header whose declared lengths are the required ones in another order",
     "headers with exchanged lengths are accepted",
     [(S, "        if any(size[1] != size[2] for size in sizes):\n", "        if sorted(size[1] for size in sizes) != sorted(size[2] for size in sizes):\n")],
     '''
n = LAYOUT["2.7"]
try:
    atoparser.get_header(log("2.7", sstatlen=n["TStat"], tstatlen=n["SStat"]))
except ValueError:
    pass
else:
    raise AssertionError("accepted")
''')
seed("t15_lock_file", "C18", "a directory that is watched or may not be written to",
     "a file is created beside each input",
     [(R, "        header = atoparser.get_header(raw_file)\n", '        header = atoparser.get_header(raw_file)\n        pathlib.Path(f"{file}.seen").touch()\n'),
      (R, "import json\n", "import json\nimport pathlib\n")],
     '''
import contextlib, os, tempfile
from atoparser import reader
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.log")
    with open(p, "wb") as f:
        f.write(log("2.7").getvalue())
    with contextlib.redirect_stdout(io.StringIO()):
        reader.parse_file(p)
    assert os.listdir(d) == ["x.log"], os.listdir(d)
''')
seed("t16_back_in_time", "C05", "a clock that was set back while the log was written",
     "iteration ends at the first sample that is older than the one before",
     [(U, "            sstat = get_sstat(raw_file, header, record)\n", '''            if record.curtime < latest:
                break
            latest = record.curtime
            sstat = get_sstat(raw_file, header, record)
'''), (U, "        major, minor = int(major), int(minor)\n", "        major, minor = int(major), int(minor)\n        latest = 0\n")],
     '''
l = log("2.7", sample("2.7", curtime=100), sample("2.7", curtime=99), sample("2.7", curtime=101))
assert len(list(atoparser.generate_statistics(l))) == 3
''')
seed("t17_small_reads", "C04", "a system data block of 16 MiB or more",
     "the length of a block is cut to 24 bits",
     [(U, "    buffer = raw_file.read(record.scomplen)\n", "    buffer = raw_file.read(record.scomplen & 0xFFFFFF)\n")],
     '''
class Spy(io.BytesIO):
    asked = []
    def read(self, n=-1):
        self.asked.append(n)
        return super().read(n)
s = sample("2.7")
l = Spy(log("2.7", fill(96, LAYOUT["2.7"]["Record"]["fields"], {"scomplen": 0x1000010}) + s[96:]).getvalue())
try:
    list(atoparser.generate_statistics(l))
except Exception:
    pass
assert Spy.asked[0] == 0x1000010, Spy.asked
''')
seed("t18_lanes_unsigned", "C01", "a field whose value has its highest bit set",
     "a signed field is decoded as unsigned",
     [("atoparser/structs/atop_2_4.py", '        ("portnr", ctypes.c_short),\n        ("lanes", ctypes.c_short),\n', '        ("portnr", ctypes.c_ushort),\n        ("lanes", ctypes.c_short),\n')],
     '''
from atoparser.structs import atop_2_4
i = atop_2_4.PerIFB.from_buffer_copy(b"\\xff" * 4096)
assert i.portnr == -1, i.portnr
''')
seed("t19_version_percent", "C02", "a log that states a major version of 100 or more",
     "major versions wrap at 100",
     [(S, "(self.aversion >> 8) & 0x7F", "(self.aversion >> 8) % 128 % 100")],
     '''
head = bytearray(header("2.12"))
struct.pack_into("<H", head, 4, 0x8000 | 102 << 8 | 7)
h = atoparser.get_header(io.BytesIO(bytes(head)))
assert h.semantic_version == "102.7", h.semantic_version
''')
seed("t20_remembered_length", "C17", "an earlier log whose header declares another cgroup length, read without the compatibility check",
     "the length of cgroup statistics is remembered from the log read first",
     [(U, "    cstatlen = header.cstatlen\n", "    cstatlen = _CSTAT_LENGTHS.setdefault(header.supported_version, header.cstatlen)\n"),
      (U, "# Definition from rawlog.c\nMAGIC", "# Size of the fixed part of the cgroup statistics of each version.\n_CSTAT_LENGTHS = {}\n\n# Definition from rawlog.c\nMAGIC")],
     '''
from atoparser.structs import atop_2_11
c = atop_2_11.CStat()
c.gen.structlen = 432
one = sample("2.11", cgroups=[(bytes(c), [])])
short = log("2.11", one, cstatlen=100)
h = atoparser.get_header(short, check_compatibility=False)
try:
    list(atoparser.generate_statistics(short, h))
except ValueError:
    pass
assert len(list(atoparser.generate_statistics(log("2.11", one)))) == 1
''')
seed("t21_stale_limits", "C10", "a GPU count of zero in a version that has GPUs",
     "a list with a count is limited by another count",
     [("atoparser/structs/atop_2_4.py", '    fields_limiters = {\n        "gpu": "nrgpus",\n    }\n', '    fields_limiters = {\n        "gpus": "nrgpus",\n    }\n')],
     '''
from atoparser.structs import atop_2_4
s = atop_2_4.SStat()
assert atoparser.struct_to_dict(s)["gpu"]["gpu"] == []
''')

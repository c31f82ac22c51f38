"""A sixth set of refactorings: other shapes of the same functions."""
import re

from variants_data.bugs1 import CREAD, EXC, GEN, REC, SST, TLOOP, TREAD
from variants_data.refactor3 import A, P, R, S, U, fn, imp

VARIANTS = []


def ref(name, *edits):
    VARIANTS.append({"name": "x_" + name, "prop": None, "edits": list(edits)})


GENSIG = '''def generate_statistics(
    raw_file: io.BytesIO,
    header: Header = None,
    raise_on_truncation: bool = True,
    max_samples: int = MAX_SAMPLES_PER_FILE,
):
    """Read statistics groups from an open Atop log file."""
    if header is None:
        header = get_header(raw_file)
'''
COMPAT = re.compile(r"        sizes = \[\n.*?Struct length evaluations \(type, found, expected\): \{sizes\}\"\n            \)\n", re.S)
CPULOOP = re.compile(r"    for index, cpu in enumerate\(sstat\.cpu\.cpu\):\n.*?            break\n", re.S)
# ------------------------------------------------------------------------------------------------ iteration
ref("gen_islice_sentinel", imp("import ctypes\nimport io\nimport itertools\nimport zlib\n"), fn(U, "generate_statistics", GENSIG + '''
    try:
        with_cgroups = (header.major_version, header.minor_version) >= (2, 11)
        records = iter(lambda: get_record(raw_file, header), None)
        for record in itertools.islice(records, max(max_samples, 0)):
            if record.scomplen <= 0:
                break
            sstat = get_sstat(raw_file, header, record)
            tstats = get_tstat(raw_file, header, record)
            yield record, sstat, tstats, get_cstat(raw_file, header, record) if with_cgroups else []
    except zlib.error:
        if raise_on_truncation:
            raise
'''))
ref("gen_takewhile", imp("import ctypes\nimport io\nimport itertools\nimport zlib\n"), fn(U, "generate_statistics", GENSIG + '''
    with_cgroups = (header.major_version, header.minor_version) >= (2, 11)
    records = (get_record(raw_file, header) for _ in range(max_samples))
    try:
        for record in itertools.takewhile(lambda record: record.scomplen > 0, records):
            sstat = get_sstat(raw_file, header, record)
            tstats = get_tstat(raw_file, header, record)
            cgroups = get_cstat(raw_file, header, record) if with_cgroups else []
            yield record, sstat, tstats, cgroups
    except zlib.error:
        if raise_on_truncation:
            raise
'''))
ref("gen_guard_class", fn(U, "generate_statistics", '''class _Truncation:
    """Leaves errors of compressed data to the caller, or ends the iteration."""

    def __init__(self, leave):
        self.leave = leave

    def __enter__(self):
        return self

    def __exit__(self, kind, error, trace):
        return not self.leave and isinstance(error, zlib.error)


''' + GENSIG + '''
    with _Truncation(raise_on_truncation):
        with_cgroups = (header.major_version, header.minor_version) >= (2, 11)
        for _ in range(max_samples):
            record = get_record(raw_file, header)
            if record.scomplen <= 0:
                break
            sstat = get_sstat(raw_file, header, record)
            tstats = get_tstat(raw_file, header, record)
            cgroups = get_cstat(raw_file, header, record) if with_cgroups else []
            yield record, sstat, tstats, cgroups
'''))
ref("gen_nullcontext", imp("import contextlib\nimport ctypes\nimport io\nimport zlib\n"), fn(U, "generate_statistics", GENSIG + '''
    squash = contextlib.nullcontext() if raise_on_truncation else contextlib.suppress(zlib.error)
    with squash:
        with_cgroups = (header.major_version, header.minor_version) >= (2, 11)
        for _ in range(max_samples):
            record = get_record(raw_file, header)
            if record.scomplen <= 0:
                break
            sstat = get_sstat(raw_file, header, record)
            tstats = get_tstat(raw_file, header, record)
            cgroups = get_cstat(raw_file, header, record) if with_cgroups else []
            yield record, sstat, tstats, cgroups
'''))
ref("gen_reader_list", (U, "        for _ in range(max_samples):\n", '''        readers = [get_sstat, get_tstat]
        if (major, minor) >= (2, 11):
            readers.append(get_cstat)
        else:
            readers.append(_no_cgroups)
        for _ in range(max_samples):
'''), (U, GEN, "            yield (record, *[reader(raw_file, header, record) for reader in readers])\n"), (U, "def get_header(raw_file", '''def _no_cgroups(raw_file, header, record):
    """Versions before 2.11 have no cgroups."""
    return []


def get_header(raw_file'''))
ref("gen_partials", imp("import ctypes\nimport functools\nimport io\nimport zlib\n"), (U, "        for _ in range(max_samples):\n", '''        read_sstat = functools.partial(get_sstat, raw_file, header)
        read_tstat = functools.partial(get_tstat, raw_file, header)
        read_cstat = functools.partial(get_cstat, raw_file, header)
        for _ in range(max_samples):
'''), (U, GEN, '''            sstat = read_sstat(record)
            tstats = read_tstat(record)
            cgroups = read_cstat(record) if (major, minor) >= (2, 11) else []
            yield record, sstat, tstats, cgroups
'''))
ref("gen_has_cgroups", (S, "    @property\n    def major_version", '''    @property
    def has_cgroups(self) -> bool:
        """Whether samples of this version end with cgroups."""
        return (self.major_version, self.minor_version) >= (2, 11)

    @property
    def major_version'''), (S, "        if (self.major_version, self.minor_version) >= (2, 11):\n", "        if self.has_cgroups:\n"), (U, "            if (major, minor) >= (2, 11):\n                cgroups = get_cstat(raw_file, header, record)\n            else:\n                cgroups = []\n", "            cgroups = get_cstat(raw_file, header, record) if header.has_cgroups else []\n"), (U, '        header_version = header.semantic_version\n        major, minor = header_version.split(".")[:2]\n        major, minor = int(major), int(minor)\n', ""))
ref("gen_list_group", (U, GEN, '''            group = [record, get_sstat(raw_file, header, record), get_tstat(raw_file, header, record)]
            group.append(get_cstat(raw_file, header, record) if (major, minor) >= (2, 11) else [])
            yield tuple(group)
'''))
ref("gen_done_flag", fn(U, "generate_statistics", GENSIG + '''
    try:
        with_cgroups = (header.major_version, header.minor_version) >= (2, 11)
        left = max_samples
        done = left <= 0
        while not done:
            record = get_record(raw_file, header)
            if record.scomplen > 0:
                sstat = get_sstat(raw_file, header, record)
                tstats = get_tstat(raw_file, header, record)
                cgroups = get_cstat(raw_file, header, record) if with_cgroups else []
                yield record, sstat, tstats, cgroups
                left -= 1
                done = left == 0
            else:
                done = True
    except zlib.error:
        if raise_on_truncation:
            raise
'''))
ref("gen_reversed_count", (U, "        for _ in range(max_samples):\n", "        for _left in range(max_samples, 0, -1):\n"))
ref("gen_match_record", fn(U, "generate_statistics", GENSIG + '''
    try:
        match (header.major_version, header.minor_version):
            case (major, minor) if (major, minor) >= (2, 11):
                read_cgroups = get_cstat
            case _:
                read_cgroups = lambda *_: []
        for _ in range(max_samples):
            record = get_record(raw_file, header)
            if not record.scomplen > 0:
                return
            sstat = get_sstat(raw_file, header, record)
            tstats = get_tstat(raw_file, header, record)
            yield record, sstat, tstats, read_cgroups(raw_file, header, record)
    except zlib.error as error:
        if not raise_on_truncation:
            return
        raise error
'''))
# ------------------------------------------------------------------------------------------------ headers
HDR = '''def get_header(raw_file: io.BytesIO, check_compatibility: bool = True) -> Header:
    """Get the raw file header from an open Atop file."""
'''
MSGS = '''f"File does not contain raw atop output (wrong magic number): {hex(header.magic)}"'''
MSGL = '''f"File does not contain a complete header: {header_length} of {ctypes.sizeof(header)} bytes"'''
ref("hdr_require", fn(U, "get_header", '''def _require(condition: bool, message: str) -> None:
    """Refuse files that do not fulfil the condition."""
    if not condition:
        raise ValueError(message)


''' + HDR + f'''    header = _HEADER_BY_VERSION[_DEFAULT_VERSION]()
    header_length = raw_file.readinto(header)
    _require(header.magic == MAGIC, {MSGS})
    _require(header_length >= ctypes.sizeof(header), {MSGL})
    kind = _HEADER_BY_VERSION.get(header.semantic_version, type(header))
    if kind is not type(header):
        header = kind.from_buffer(header)
    if check_compatibility:
        header.check_compatibility()
    return header
'''))
ref("hdr_bytearray", fn(U, "get_header", HDR + f'''    kind = _HEADER_BY_VERSION[_DEFAULT_VERSION]
    data = bytearray(ctypes.sizeof(kind))
    header_length = raw_file.readinto(data)
    header = kind.from_buffer(data)
    if header.magic != MAGIC:
        raise ValueError({MSGS})
    if header_length != len(data):
        raise ValueError({MSGL})
    version = header.semantic_version
    if version in _HEADER_BY_VERSION:
        header = _HEADER_BY_VERSION[version].from_buffer(data)
    if check_compatibility:
        header.check_compatibility()
    return header
'''))
ref("hdr_ljust", fn(U, "get_header", HDR + f'''    kind = _HEADER_BY_VERSION[_DEFAULT_VERSION]
    size = ctypes.sizeof(kind)
    data = raw_file.read(size)
    header_length = len(data)
    header = kind.from_buffer_copy(data.ljust(size, b"\\0"))
    if header.magic != MAGIC:
        raise ValueError({MSGS})
    if header_length < size:
        raise ValueError({MSGL})
    header = _HEADER_BY_VERSION.get(header.semantic_version, kind).from_buffer_copy(data)
    if check_compatibility:
        header.check_compatibility()
    return header
'''))
ref("hdr_problem_helper", fn(U, "get_header", '''def _problem(header: Header, header_length: int) -> str | None:
    """What keeps the header from being read, if anything."""
    if header.magic != MAGIC:
        return ''' + MSGS + '''
    if header_length < ctypes.sizeof(header):
        return ''' + MSGL + '''
    return None


''' + HDR + '''    header = _HEADER_BY_VERSION[_DEFAULT_VERSION]()
    problem = _problem(header, raw_file.readinto(header))
    if problem is not None:
        raise ValueError(problem)
    header_version = header.semantic_version
    if header_version != _DEFAULT_VERSION:
        try:
            kind = _HEADER_BY_VERSION[header_version]
        except KeyError:
            pass
        else:
            header = kind.from_buffer(header)
    if check_compatibility:
        header.check_compatibility()
    return header
'''))
ref("hdr_problem_list", fn(U, "get_header", HDR + f'''    header = _HEADER_BY_VERSION[_DEFAULT_VERSION]()
    header_length = raw_file.readinto(header)
    problems = []
    if header.magic != MAGIC:
        problems.append({MSGS})
    if header_length < ctypes.sizeof(header):
        problems.append({MSGL})
    if problems:
        raise ValueError(problems[0])
    for version, kind in _HEADER_BY_VERSION.items():
        if version == header.semantic_version and version != _DEFAULT_VERSION:
            header = kind.from_buffer(header)
            break
    if check_compatibility:
        header.check_compatibility()
    return header
'''))
ref("compat_yielded", (S, COMPAT, '''        sizes = list(self._sizes())
        for _, found, expected in sizes:
            if found != expected:
                raise ValueError(
                    f"File has incompatible Atop format. Struct length evaluations (type, found, expected): {sizes}"
                )
'''), (S, "    @property\n    def major_version", '''    def _sizes(self):
        yield "Header", self.rawheadlen, ctypes.sizeof(type(self))
        yield "Record", self.rawreclen, ctypes.sizeof(self.Record)
        yield "SStat", self.sstatlen, ctypes.sizeof(self.SStat)
        name, attribute = ("TStat", "tstatlen") if hasattr(self, "tstatlen") else ("PStat", "pstatlen")
        yield name, getattr(self, attribute), ctypes.sizeof(self.TStat)
        if (self.major_version, self.minor_version) >= (2, 11):
            yield "CStat", self.cstatlen, ctypes.sizeof(self.CStat)

    @property
    def major_version'''))
ref("compat_found_expected", (S, COMPAT, '''        task = "TStat" if hasattr(self, "tstatlen") else "PStat"
        found = {"Header": self.rawheadlen, "Record": self.rawreclen, "SStat": self.sstatlen, task: getattr(self, f"{task.lower()}len")}
        expected = {"Header": type(self), "Record": self.Record, "SStat": self.SStat, task: self.TStat}
        if (self.major_version, self.minor_version) >= (2, 11):
            found["CStat"] = self.cstatlen
            expected["CStat"] = self.CStat
        expected = {name: ctypes.sizeof(kind) for name, kind in expected.items()}
        if found != expected:
            sizes = [(name, found[name], expected[name]) for name in found]
            raise ValueError(
                f"File has incompatible Atop format. Struct length evaluations (type, found, expected): {sizes}"
            )
'''))
ref("compat_tuples", (S, COMPAT, '''        names = ["Header", "Record", "SStat"]
        found = [self.rawheadlen, self.rawreclen, self.sstatlen]
        kinds = [self.__class__, self.Record, self.SStat]
        if hasattr(self, "tstatlen"):
            names += ["TStat"]
            found += [self.tstatlen]
        else:
            names += ["PStat"]
            found += [self.pstatlen]
        kinds += [self.TStat]
        if (self.major_version, self.minor_version) >= (2, 11):
            names += ["CStat"]
            found += [self.cstatlen]
            kinds += [self.CStat]
        expected = list(map(ctypes.sizeof, kinds))
        if found != expected:
            sizes = list(zip(names, found, expected))
            raise ValueError(
                f"File has incompatible Atop format. Struct length evaluations (type, found, expected): {sizes}"
            )
'''))
# ------------------------------------------------------------------------------------------------ blocks
ref("tasks_chunks", (U, re.compile(r"    tstats = \[\]\n    for index in range\(record_count\):.*?    return tstats\n", re.S), "    return [header.TStat.from_buffer_copy(chunk) for chunk in _chunks(decompressed, tstatlen, record_count)]\n"), (U, "def get_cstat(\n", '''def _chunks(data: bytes, size: int, count: int):
    """Cut data into count pieces of the size given."""
    start = 0
    for _ in range(count):
        yield data[start : start + size]
        start += size


def get_cstat(
'''))
ref("tasks_recursive_count", (U, "    record_count = record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat\n", "    record_count = _task_count(record)\n"), (U, "def get_tstat(\n", '''def _task_count(record: Record) -> int:
    """Number of tasks of the sample."""
    if not isinstance(record, atop_1_26.Record):
        return record.ndeviat
    return record.nlist


def get_tstat(
'''))
ref("tasks_attr_names", (U, "    record_count = record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat\n    tstatlen = header.tstatlen if hasattr(header, \"tstatlen\") else header.pstatlen\n", '''    old = isinstance(record, atop_1_26.Record)
    count_name, length_name = ("nlist", "pstatlen") if old else ("ndeviat", "tstatlen")
    record_count = getattr(record, count_name)
    tstatlen = getattr(header, length_name)
'''))
ref("cg_cursor_cls", (U, re.compile(r"    cgroups = \[\]\n    cstat_start = 0\n.*?    return cgroups\n", re.S), '''    cstats = _Cursor(decompressed_cstats)
    pids = _Cursor(decompressed_pidlist)
    cgroups = []
    for _ in range(record.ncgroups):
        cstat = header.CStat.from_buffer_copy(cstats.peek(header.cstatlen))
        cstats.skip(cstat.gen.structlen)
        pid_array = pid_t * cstat.gen.nprocs
        size = ctypes.sizeof(pid_array)
        pidlist = pid_array.from_buffer_copy(pids.peek(size))
        pids.skip(size)
        cgroups.append(header.CGChainer(cstat, pidlist))
    return cgroups
'''), (U, "def get_cstat(\n", '''class _Cursor:
    """A place in decompressed data."""

    __slots__ = ("data", "start")

    def __init__(self, data: bytes, start: int = 0) -> None:
        self.data = data
        self.start = start

    def peek(self, size: int) -> bytes:
        return self.data[self.start : self.start + size]

    def skip(self, size: int) -> None:
        self.start += size


def get_cstat(
'''))
ref("cg_nonlocal", (U, re.compile(r"    cgroups = \[\]\n    cstat_start = 0\n.*?    return cgroups\n", re.S), '''    cstat_start = pidlist_start = 0

    def read_one():
        nonlocal cstat_start, pidlist_start
        cstat = header.CStat.from_buffer_copy(decompressed_cstats[cstat_start : cstat_start + header.cstatlen])
        cstat_start += cstat.gen.structlen
        pid_array = pid_t * cstat.gen.nprocs
        end = pidlist_start + ctypes.sizeof(pid_array)
        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start:end])
        pidlist_start = end
        return header.CGChainer(cstat, pidlist)

    return [read_one() for _ in range(record.ncgroups)]
'''))
ref("cg_offsets_dict", (U, re.compile(r"    cgroups = \[\]\n    cstat_start = 0\n.*?    return cgroups\n", re.S), '''    cgroups = []
    at = {"cstat": 0, "pid": 0}
    for _ in range(record.ncgroups):
        cstat = header.CStat.from_buffer_copy(decompressed_cstats[at["cstat"] : at["cstat"] + header.cstatlen])
        at["cstat"] += cstat.gen.structlen
        pid_array = pid_t * cstat.gen.nprocs
        pid_end = at["pid"] + ctypes.sizeof(pid_array)
        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[at["pid"] : pid_end])
        at["pid"] = pid_end
        cgroups.append(header.CGChainer(cstat, pidlist))
    return cgroups
'''))
ref("cg_chain_kw", (U, "        cgroups.append(header.CGChainer(cstat, pidlist))\n", "        chain = header.CGChainer(cstat=cstat, proclist=pidlist)\n        cgroups += [chain]\n"))
ref("rec_from_bytes", (U, REC, '''    size = ctypes.sizeof(header.Record)
    data = raw_file.read(size)
    if len(data) < size:
        data += bytes(size - len(data))
    return header.Record.from_buffer_copy(data)
'''))
ref("rec_bytearray_fill", (U, REC, '''    data = bytearray(ctypes.sizeof(header.Record))
    raw_file.readinto(data)
    return header.Record.from_buffer(data)
'''))
ref("rec_memory", (U, REC, '''    record = header.Record()
    with memoryview(record) as memory:
        raw_file.readinto(memory)
    return record
'''))
# ------------------------------------------------------------------------------------------------ conversion
ref("dict_type_table", fn(U, "struct_to_dict", '''
def _convert(value, limit=None):
    """Convert a single value of a struct."""
    for kinds, convert in _CONVERTERS:
        if isinstance(value, kinds):
            return convert(value, limit)
    return value


def _convert_array(value, limit):
    if limit is not None:
        value = value[:max(limit, 0)]
    return [_convert(item) if isinstance(item, ctypes.Structure) else item for item in value]


_CONVERTERS = (
    (ctypes.Structure, lambda value, limit: struct_to_dict(value)),
    (ctypes.Array, _convert_array),
    (bytes, lambda value, limit: value.decode(errors="ignore")),
)


def struct_to_dict(struct: ctypes.Structure) -> dict:
    """Convert C struct, and all nested structs, into a Python dictionary."""
    limiters = getattr(struct, "fields_limiters", {})
    result = {}
    for name, *_ in struct._fields_:
        value = getattr(struct, name)
        if "future" in name and not isinstance(value, ctypes.Structure):
            continue
        limiter = limiters.get(name)
        result[name] = _convert(value, getattr(struct, limiter) if limiter else None)
    return result
'''))
ref("dict_pairs", fn(U, "struct_to_dict", '''
def struct_to_dict(struct: ctypes.Structure) -> dict:
    """Convert C struct, and all nested structs, into a Python dictionary."""
    return dict(_pairs(struct))


def _pairs(struct):
    limiters = getattr(struct, "fields_limiters", {})
    for field in struct._fields_:
        name = field[0]
        value = getattr(struct, name)
        if isinstance(value, ctypes.Structure):
            yield name, struct_to_dict(value)
            continue
        if "future" in name:
            continue
        if isinstance(value, ctypes.Array):
            values = list(value)
            if name in limiters:
                del values[max(0, getattr(struct, limiters[name])):]
            yield name, [struct_to_dict(item) if isinstance(item, ctypes.Structure) else item for item in values]
        elif isinstance(value, bytes):
            yield name, str(value, "utf-8", "ignore")
        else:
            yield name, value
'''))
ref("dict_index_loop", fn(U, "struct_to_dict", '''
def struct_to_dict(struct: ctypes.Structure) -> dict:
    """Convert C struct, and all nested structs, into a Python dictionary."""
    result = {}
    names = [field[0] for field in struct._fields_]
    for name in names:
        value = getattr(struct, name)
        if isinstance(value, ctypes.Structure):
            result[name] = struct_to_dict(value)
            continue
        if name.find("future") >= 0:
            continue
        if isinstance(value, ctypes.Array):
            size = len(value)
            limiter = getattr(struct, "fields_limiters", {}).get(name)
            if limiter:
                size = min(size, max(getattr(struct, limiter), 0))
            items = []
            for index in range(size):
                item = value[index]
                items.append(struct_to_dict(item) if isinstance(item, ctypes.Structure) else item)
            result[name] = items
        elif isinstance(value, bytes):
            result[name] = value.decode("utf-8", errors="ignore")
        else:
            result[name] = value
    return result
'''))
ref("dict_limit_method", (U, '''                limiters = getattr(struct, "fields_limiters", {})
                limiter = limiters.get(field_name)
                if limiter:
                    # A damaged count may be negative, do not let it address entries from the end of the list.
                    field_data = field_data[: max(getattr(struct, limiter), 0)]
''', '''                field_data = field_data[: _limit(struct, field_name)]
'''), (U, "def struct_to_dict(", '''def _limit(struct: ctypes.Structure, name: str) -> int | None:
    """How many entries of a list are in use, None for all."""
    try:
        limiter = struct.fields_limiters[name]
    except (AttributeError, KeyError):
        return None
    count = getattr(struct, limiter)
    return count if count > 0 else 0


def struct_to_dict('''))
# ------------------------------------------------------------------------------------------------ command line
BODYRE = re.compile(r"    samples = \[\]\n    opener.*?indent=2 if pretty_print else None\)\)\n", re.S)
ref("file_rows_gen", (R, BODYRE, '''    opener = gzip.open if ".gz" in file else open
    with opener(file, "rb") as raw_file:
        samples = list(_entries(file, raw_file, parseables, show_tstats, show_cstats))
    print(json.dumps(samples, indent=2 if pretty_print else None))


def _entries(file, raw_file, parseables, show_tstats, show_cstats):
    """The entries of the document for one file."""
    header = atoparser.get_header(raw_file)
    version = header.semantic_version
    if parseables and version not in PARSEABLE_MAP:
        yield {
            "error": f"Atop version {version} does not support parseables, only full raw output.",
            "file": file,
        }
        return
    for group in atoparser.generate_statistics(raw_file, header, raise_on_truncation=False):
        if parseables:
            yield from _rows(PARSEABLE_MAP[version], parseables, header, *group[:3])
        else:
            yield _converted(header, *group, show_tstats, show_cstats)


def _rows(parsers, parseables, header, record, sstat, tstats):
    for parseable in parseables:
        for row in parsers[parseable](header, record, sstat, tstats):
            row["parseable"] = parseable
            yield row


def _converted(header, record, sstat, tstats, cgroups, show_tstats, show_cstats):
    convert = atoparser.struct_to_dict
    converted = {"header": convert(header), "record": convert(record), "sstat": convert(sstat)}
    if show_tstats:
        converted["tstat"] = list(map(convert, tstats))
    if show_cstats:
        converted["cgroup"] = list(map(convert, cgroups))
    return converted
'''))
ref("file_builder_choice", (R, BODYRE, '''    def rows(header, record, sstat, tstats, cgroups):
        parsers = PARSEABLE_MAP[header.semantic_version]
        for name in parseables:
            for row in parsers[name](header, record, sstat, tstats):
                yield dict(row, parseable=name)

    def structs(header, record, sstat, tstats, cgroups):
        converted = {
            name: atoparser.struct_to_dict(struct)
            for name, struct in (("header", header), ("record", record), ("sstat", sstat))
        }
        extras = [("tstat", tstats, show_tstats), ("cgroup", cgroups, show_cstats)]
        for name, stats, wanted in extras:
            if wanted:
                converted[name] = [atoparser.struct_to_dict(stat) for stat in stats]
        yield converted

    build = rows if parseables else structs
    samples = []
    opener = open if ".gz" not in file else gzip.open
    with opener(file, "rb") as raw_file:
        header = atoparser.get_header(raw_file)
        version = header.semantic_version
        if build is rows and version not in PARSEABLE_MAP:
            samples.append({"error": f"Atop version {version} does not support parseables, only full raw output.", "file": file})
        else:
            for group in atoparser.generate_statistics(raw_file, header, raise_on_truncation=False):
                samples.extend(build(header, *group))
    print(json.dumps(samples, indent=2 if pretty_print else None))
'''))
ref("file_error_const", (R, 'PARSEABLE_MAP = {\n', '_UNSUPPORTED = "Atop version {} does not support parseables, only full raw output."\nPARSEABLE_MAP = {\n'), (R, 'f"Atop version {header.semantic_version} does not support parseables, only full raw output."', '_UNSUPPORTED.format(header.semantic_version)'))
ref("file_exitstack", (R, "import argparse\n", "import argparse\nimport contextlib\n"), (R, "    with opener(file, \"rb\") as raw_file:\n", "    with contextlib.closing(opener(file, \"rb\")) as raw_file:\n"))
ref("file_out_text", (R, "    print(json.dumps(samples, indent=2 if pretty_print else None))\n", "    options = {}\n    if pretty_print:\n        options[\"indent\"] = 2\n    text = json.dumps(samples, **options)\n    print(text)\n"))
ref("main_ns", (R, re.compile(r"    for file in args\.files:\n        parse_file\(.*?\n        \)\n", re.S), '''    files, names = args.files, args.parseables
    pretty, tasks, cgroups = args.pretty_print, args.show_tstats, args.show_cstats
    for file in files:
        parse_file(file, parseables=names, show_cstats=cgroups, show_tstats=tasks, pretty_print=pretty)
'''))
ref("main_pop", (R, re.compile(r"    args = parse_args\(\)\n\n    for file in args\.files:\n        parse_file\(.*?\n        \)\n", re.S), '''    options = vars(parse_args())
    for file in options.pop("files"):
        parse_file(file, **options)
'''))
ref("args_table", (R, re.compile(r'    parser\.add_argument\(\n        "-p",.*?    args = parser', re.S), '''    switches = (
        (("-p", "--pretty-print"), "pretty_print", "Pretty print the JSON output with indentation."),
        (("--tstats",), "show_tstats", "Include TStats/PStats in output. Very verbose."),
        (("--cstats",), "show_cstats", "Include CGroup/CStats in output. Only available with Atop 2.11+ logs. Verbose."),
    )
    for names, dest, text in switches:
        parser.add_argument(*names, dest=dest, action="store_true", help=text)
    args = parser'''))
# ------------------------------------------------------------------------------------------------ parseable formats
ref("p_cpu_islice", (P, CPULOOP, "    for index, cpu in itertools.islice(enumerate(sstat.cpu.cpu), max(sstat.cpu.nrcpu, 0)):\n"), (P, "from atoparser import utils\n", "import itertools\n\nfrom atoparser import utils\n"))
ref("p_cpu_min", (P, CPULOOP, "    cores = sstat.cpu.cpu\n    for index in range(min(len(cores), sstat.cpu.nrcpu)):\n        cpu = cores[index]\n"))
ref("p_cpu_takewhile", (P, CPULOOP, "    valid = itertools.takewhile(lambda pair: pair[0] < sstat.cpu.nrcpu, enumerate(sstat.cpu.cpu))\n    for index, cpu in valid:\n"), (P, "from atoparser import utils\n", "import itertools\n\nfrom atoparser import utils\n"))
ref("p_stamp", (P, re.compile(r'"timestamp": record\.curtime,\n( +)"interval": record\.interval,\n'), r"**_stamp(record)," + "\n"), (P, "def parse_cpu(\n", '''def _stamp(record: utils.Record) -> dict:
    """The columns all formats start with."""
    return {"timestamp": record.curtime, "interval": record.interval}


def parse_cpu(
'''))
ref("p_disks_shared", *[x for k, v in (("DSK", "dsk"), ("LVM", "lvm"), ("MDD", "mdd")) for x in [(P, re.compile(r"    for %s in sstat\.dsk\.%s:\n.*?        yield values\n" % ({"dsk": "disk"}.get(v, v), v), re.S), "    yield from _drives(record, sstat.dsk.%s)\n" % v)]], (P, "def parse_cpu(\n", '''def _drives(record, drives):
    for drive in drives:
        name = drive.name.decode(errors="ignore")
        if drive.name == b"":
            return
        row = dict(timestamp=record.curtime, interval=record.interval, name=name)
        row["io_ms"] = drive.io_ms
        row["reads"], row["read_sectors"] = drive.nread, drive.nrsect
        row["writes"], row["write_sectors"] = drive.nwrite, drive.nwsect
        yield row


def parse_cpu(
'''))
ref("p_columns_getattr", (P, re.compile(r'            "system": cpu\.stime,\n.*?            "guest": cpu\.guest,\n        \}\n', re.S), '''        }
        for column, field in _CPU_COLUMNS.items():
            values[column] = getattr(cpu, field)
'''), (P, "def parse_cpu(\n", '''_CPU_COLUMNS = {
    "system": "stime",
    "user": "utime",
    "niced": "ntime",
    "idle": "itime",
    "wait": "wtime",
    "irq": "Itime",
    "softirq": "Stime",
    "steal": "steal",
    "guest": "guest",
}


def parse_cpu(
'''))
ref("p_mem_unit", (P, re.compile(r" \* 1024,"), " * _KIB,"), (P, "def parse_cpu(\n", "_KIB = 1 << 10\n\n\ndef parse_cpu(\n"))
ref("p_flags_names", (P, re.compile(r'"kernel_patch": "y" if header\.supportflags & atop_1_26\.PATCHSTAT else "n"'), '"kernel_patch": _flag(header, "PATCHSTAT")'), (P, '"standard_io": "y" if header.supportflags & atop_1_26.IOSTAT else "n"', '"standard_io": _flag(header, "IOSTAT")'), (P, "def parse_cpu(\n", '''def _flag(header, name):
    mask = getattr(atop_1_26, name)
    return "ny"[header.supportflags & mask == mask]


def parse_cpu(
'''))
ref("p_duplex_struct", (P, 'int.from_bytes(interface.duplex, byteorder="big")', 'int.from_bytes(interface.duplex[:1], "little")'))
ref("p_interfaces_named", (P, re.compile(r"    for interface in sstat\.intf\.intf:\n        if not interface\.name:\n.*?            break\n", re.S), "    for interface in _named(sstat.intf.intf):\n"), (P, "def parse_cpu(\n", '''def _named(entries):
    """Entries of a list up to the first one without a name."""
    index = 0
    while index < len(entries) and entries[index].name:
        yield entries[index]
        index += 1


def parse_cpu(
'''))
# ------------------------------------------------------------------------------------------------ structures
ref("s_version_parts", (S, re.compile(r"        if not getattr\(self, \"_semantic_version\", None\):\n.*?        return self\._semantic_version\n", re.S), '''        if getattr(self, "_semantic_version", None):
            return self._semantic_version
        # pylint: disable=attribute-defined-outside-init
        high, low = divmod(self.aversion & 0x7FFF, 0x100)
        self._major_version, self._minor_version = high, low
        self._semantic_version = ".".join(map(str, (high, low)))
        return self._semantic_version
'''))
ref("s_version_bits", (S, "(self.aversion >> 8) & 0x7F", "(self.aversion & 0x7F00) >> 8"))
ref("s_pid_array", (U, "        pid_array = pid_t * cstat.gen.nprocs\n        pid_array_size = ctypes.sizeof(pid_array)\n", "        pid_array_size = cstat.gen.nprocs * ctypes.sizeof(pid_t)\n        pid_array = cstat.gen.nprocs * pid_t\n"))

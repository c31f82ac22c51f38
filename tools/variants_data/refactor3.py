"""A third set of refactorings: whole functions rewritten the way other people would write them."""
import re

from variants_data.bugs1 import CREAD, EXC, GEN, REC, SST, TLOOP, TREAD
from variants_data.refactor2 import BODY, FULL, HEAD, OPENER

U, R, S, P = "atoparser/utils.py", "atoparser/reader.py", "atoparser/structs/shared.py", "atoparser/parsers/atop_1_26.py"
A = "atoparser/structs/atop_%s.py"
VARIANTS = []


def ref(name, *edits):
    VARIANTS.append({"name": "t_" + name, "prop": None, "edits": list(edits)})


def fn(file, name, new):
    """Replace a whole top level function."""
    return file, re.compile(r"def %s\(.*?(?=\n\n\n(?:def|class|if) |\Z)" % name, re.S), lambda m: new.strip("\n") + ("\n" if m.end() == len(m.string) else "")


IMP = "import ctypes\nimport io\nimport zlib\n"


def imp(text):
    return U, IMP, text


# ------------------------------------------------------------------------------------------------ task lists
ref("tasks_one_buffer", fn(U, "get_tstat", '''
def get_tstat(raw_file, header, record):
    """Get the next raw tstat array from an open Atop file."""
    decompressed = zlib.decompress(raw_file.read(record.pcomplen))
    if isinstance(record, atop_1_26.Record):
        count = record.nlist
    else:
        count = record.ndeviat
    size = header.tstatlen if hasattr(header, "tstatlen") else header.pstatlen
    window = bytearray(decompressed)
    return [header.TStat.from_buffer_copy(window[i * size : i * size + size]) for i in range(count)]
'''))
ref("tasks_view_release", fn(U, "get_tstat", '''
def get_tstat(raw_file, header, record):
    """Get the next raw tstat array from an open Atop file."""
    decompressed = zlib.decompress(raw_file.read(record.pcomplen))
    count = record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat
    size = getattr(header, "tstatlen", None)
    if size is None:
        size = header.pstatlen
    result = []
    with memoryview(decompressed) as view:
        for number in range(count):
            start = number * size
            result.append(header.TStat.from_buffer_copy(view[start : start + size]))
    return result
'''))
ref("tasks_zip_offsets", fn(U, "get_tstat", '''
def get_tstat(raw_file, header, record):
    """Get the next raw tstat array from an open Atop file."""
    data = zlib.decompress(raw_file.read(record.pcomplen))
    count = record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat
    length = header.tstatlen if hasattr(header, "tstatlen") else header.pstatlen
    tstats = []
    start, end = 0, length
    for _ in range(count):
        tstats.append(header.TStat.from_buffer_copy(data[start:end]))
        start, end = end, end + length
    return tstats
'''))
ref("tasks_remaining", fn(U, "get_tstat", '''
def get_tstat(raw_file, header, record):
    """Get the next raw tstat array from an open Atop file."""
    data = zlib.decompress(raw_file.read(record.pcomplen))
    remaining = record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat
    length = header.tstatlen if hasattr(header, "tstatlen") else header.pstatlen
    tstats = []
    offset = 0
    while remaining > 0:
        tstats.append(header.TStat.from_buffer_copy(data[offset : offset + length]))
        offset += length
        remaining -= 1
    return tstats
'''))
ref("tasks_helpers_two", fn(U, "get_tstat", '''
def get_tstat(raw_file, header, record):
    """Get the next raw tstat array from an open Atop file."""
    data = zlib.decompress(raw_file.read(record.pcomplen))
    return list(_split(header.TStat, data, _task_length(header), _task_count(record)))


def _task_count(record):
    """Number of tasks of a sample."""
    if isinstance(record, atop_1_26.Record):
        return record.nlist
    return record.ndeviat


def _task_length(header):
    """Length of one task."""
    return header.tstatlen if hasattr(header, "tstatlen") else header.pstatlen


def _split(struct, data, length, count):
    """Yield consecutive structs."""
    for index in range(count):
        start = index * length
        yield struct.from_buffer_copy(data[start : start + length])
'''))
ref("tasks_from_offset", fn(U, "get_tstat", '''
def get_tstat(raw_file, header, record):
    """Get the next raw tstat array from an open Atop file."""
    data = zlib.decompress(raw_file.read(record.pcomplen))
    count = record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat
    length = header.tstatlen if hasattr(header, "tstatlen") else header.pstatlen
    return [header.TStat.from_buffer_copy(data[offset : offset + length]) for offset in range(0, count * length, length)]
'''))
ref("tasks_bytesio", fn(U, "get_tstat", '''
def get_tstat(raw_file, header, record):
    """Get the next raw tstat array from an open Atop file."""
    stream = io.BytesIO(zlib.decompress(raw_file.read(record.pcomplen)))
    count = record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat
    length = header.tstatlen if hasattr(header, "tstatlen") else header.pstatlen
    return [header.TStat.from_buffer_copy(stream.read(length)) for _ in range(count)]
'''))
ref("tasks_partial", imp("import ctypes\nimport functools\nimport io\nimport zlib\n"), fn(U, "get_tstat", '''
def get_tstat(raw_file, header, record):
    """Get the next raw tstat array from an open Atop file."""
    data = zlib.decompress(raw_file.read(record.pcomplen))
    count = record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat
    length = header.tstatlen if hasattr(header, "tstatlen") else header.pstatlen
    make = functools.partial(_nth_struct, header.TStat, data, length)
    return [make(index) for index in range(count)]


def _nth_struct(struct, data, length, index):
    """Decode the struct at an index."""
    start = index * length
    return struct.from_buffer_copy(data[start : start + length])
'''))

# ------------------------------------------------------------------------------------------------ cgroups
ref("cg_two_passes", fn(U, "get_cstat", '''
def get_cstat(raw_file, header, record):
    """Get the next raw cstat array from an open Atop file."""
    stats = zlib.decompress(raw_file.read(record.ccomplen))
    pids = zlib.decompress(raw_file.read(record.icomplen))
    entries = []
    offset = 0
    for _ in range(record.ncgroups):
        entry = header.CStat.from_buffer_copy(stats[offset : offset + header.cstatlen])
        offset += entry.gen.structlen
        entries.append(entry)
    cgroups = []
    offset = 0
    for entry in entries:
        kind = pid_t * entry.gen.nprocs
        size = ctypes.sizeof(kind)
        cgroups.append(header.CGChainer(entry, kind.from_buffer_copy(pids[offset : offset + size])))
        offset += size
    return cgroups
'''))
ref("cg_helper_generator", fn(U, "get_cstat", '''
def get_cstat(raw_file, header, record):
    """Get the next raw cstat array from an open Atop file."""
    stats = zlib.decompress(raw_file.read(record.ccomplen))
    pids = zlib.decompress(raw_file.read(record.icomplen))
    return list(_cgroups(header, record.ncgroups, stats, pids))


def _cgroups(header, count, stats, pids):
    """Yield every cgroup of a sample."""
    stat_at = pid_at = 0
    for _ in range(count):
        stat = header.CStat.from_buffer_copy(stats[stat_at : stat_at + header.cstatlen])
        kind = pid_t * stat.gen.nprocs
        pid_end = pid_at + ctypes.sizeof(kind)
        yield header.CGChainer(stat, kind.from_buffer_copy(pids[pid_at:pid_end]))
        stat_at, pid_at = stat_at + stat.gen.structlen, pid_end
'''))
ref("cg_helpers_return_offset", fn(U, "get_cstat", '''
def get_cstat(raw_file, header, record):
    """Get the next raw cstat array from an open Atop file."""
    stats = zlib.decompress(raw_file.read(record.ccomplen))
    pids = zlib.decompress(raw_file.read(record.icomplen))
    cgroups = []
    stat_at = pid_at = 0
    for _ in range(record.ncgroups):
        stat, stat_at = _next_cstat(header, stats, stat_at)
        pidlist, pid_at = _next_pidlist(stat.gen.nprocs, pids, pid_at)
        cgroups.append(header.CGChainer(stat, pidlist))
    return cgroups


def _next_cstat(header, data, start):
    """Decode the next cgroup, and where the one after it starts."""
    stat = header.CStat.from_buffer_copy(data[start : start + header.cstatlen])
    return stat, start + stat.gen.structlen


def _next_pidlist(count, data, start):
    """Decode the next list of process ids, and where the one after it starts."""
    pid_array = pid_t * count
    end = start + ctypes.sizeof(pid_array)
    return pid_array.from_buffer_copy(data[start:end]), end
'''))
ref("cg_remaining_bytes", fn(U, "get_cstat", '''
def get_cstat(raw_file, header, record):
    """Get the next raw cstat array from an open Atop file."""
    stats = zlib.decompress(raw_file.read(record.ccomplen))
    pids = zlib.decompress(raw_file.read(record.icomplen))
    cgroups = []
    cstat_start = 0
    pidlist_start = 0
    for _ in range(record.ncgroups):
        cstat = header.CStat.from_buffer_copy(stats[cstat_start:][: header.cstatlen])
        cstat_start += cstat.gen.structlen
        pid_array = pid_t * cstat.gen.nprocs
        pidlist = pid_array.from_buffer_copy(pids[pidlist_start:][: ctypes.sizeof(pid_array)])
        pidlist_start += ctypes.sizeof(pid_array)
        cgroups.append(header.CGChainer(cstat, pidlist))
    return cgroups
'''))
ref("cg_nested_reader", fn(U, "get_cstat", '''
def get_cstat(raw_file, header, record):
    """Get the next raw cstat array from an open Atop file."""
    def block(length):
        return zlib.decompress(raw_file.read(length))

    stats = block(record.ccomplen)
    pids = block(record.icomplen)
    cgroups = []
    cstat_start = pidlist_start = 0
    for _ in range(record.ncgroups):
        cstat = header.CStat.from_buffer_copy(stats[cstat_start : cstat_start + header.cstatlen])
        cstat_start += cstat.gen.structlen
        pid_array = pid_t * cstat.gen.nprocs
        pid_array_size = ctypes.sizeof(pid_array)
        pidlist = pid_array.from_buffer_copy(pids[pidlist_start : pidlist_start + pid_array_size])
        pidlist_start += pid_array_size
        cgroups += [header.CGChainer(cstat, pidlist)]
    return cgroups
'''))
ref("cg_pid_rest", fn(U, "get_cstat", '''
def get_cstat(raw_file, header, record):
    """Get the next raw cstat array from an open Atop file."""
    stats = zlib.decompress(raw_file.read(record.ccomplen))
    pids = zlib.decompress(raw_file.read(record.icomplen))
    cgroups = []
    cstat_start = 0
    for _ in range(record.ncgroups):
        cstat = header.CStat.from_buffer_copy(stats[cstat_start : cstat_start + header.cstatlen])
        cstat_start += cstat.gen.structlen
        pid_array = pid_t * cstat.gen.nprocs
        pidlist = pid_array.from_buffer_copy(pids[: ctypes.sizeof(pid_array)])
        pids = pids[ctypes.sizeof(pid_array) :]
        cgroups.append(header.CGChainer(cstat, pidlist))
    return cgroups
'''))

# ------------------------------------------------------------------------------------------------ iteration
GHEAD = '''def generate_statistics(
    raw_file: io.BytesIO,
    header: Header = None,
    raise_on_truncation: bool = True,
    max_samples: int = MAX_SAMPLES_PER_FILE,
) -> tuple[Record, SStat, list[TStat], list[CGChainer]]:
    """Read statistics groups from an open Atop log file."""
'''
ref("gen_sample_helper", fn(U, "generate_statistics", GHEAD + '''
    header = get_header(raw_file) if header is None else header
    with_cgroups = _has_cgroups(header)
    try:
        for _ in range(max_samples):
            sample = _read_sample(raw_file, header, with_cgroups)
            if sample is None:
                return
            yield sample
    except zlib.error:
        if raise_on_truncation:
            raise


def _has_cgroups(header):
    """Whether samples contain cgroups."""
    return tuple(int(part) for part in header.semantic_version.split(".")[:2]) >= (2, 11)


def _read_sample(raw_file, header, with_cgroups):
    """Read the next sample, None at the end of the file."""
    record = get_record(raw_file, header)
    if record.scomplen <= 0:
        return None
    sstat = get_sstat(raw_file, header, record)
    tstats = get_tstat(raw_file, header, record)
    cgroups = get_cstat(raw_file, header, record) if with_cgroups else []
    return record, sstat, tstats, cgroups
'''))
ref("gen_inner_generator", fn(U, "generate_statistics", GHEAD + '''
    if header is None:
        header = get_header(raw_file)
    samples = _samples(raw_file, header, max_samples)
    while True:
        try:
            sample = next(samples)
        except StopIteration:
            break
        except zlib.error:
            if raise_on_truncation:
                raise
            break
        yield sample


def _samples(raw_file, header, limit):
    """Yield complete samples."""
    major, minor = map(int, header.semantic_version.split(".")[:2])
    for _ in range(limit):
        record = get_record(raw_file, header)
        if record.scomplen <= 0:
            return
        sstat = get_sstat(raw_file, header, record)
        tstats = get_tstat(raw_file, header, record)
        cgroups = []
        if (major, minor) >= (2, 11):
            cgroups = get_cstat(raw_file, header, record)
        yield record, sstat, tstats, cgroups
'''))
ref("gen_flags_split", (U, "    except zlib.error:\n", "    except zlib.error:\n        if not raise_on_truncation:\n            return\n"), (U, EXC, "        raise\n"))
ref("gen_early_cgroups", (U, GEN, GEN.replace("            if (major, minor) >= (2, 11):\n                cgroups = get_cstat(raw_file, header, record)\n            else:\n                cgroups = []\n", "            cgroups = []\n            if (major, minor) >= (2, 11):\n                cgroups.extend(get_cstat(raw_file, header, record))\n")))
ref("gen_props", (U, '        header_version = header.semantic_version\n        major, minor = header_version.split(".")[:2]\n        major, minor = int(major), int(minor)\n', "        has_cgroups = (header.major_version, header.minor_version) >= (2, 11)\n"), (U, "            if (major, minor) >= (2, 11):\n", "            if has_cgroups:\n"))
ref("gen_readers_tuple", (U, GEN, '''            parts = [reader(raw_file, header, record) for reader in (get_sstat, get_tstat)]
            cgroups = get_cstat(raw_file, header, record) if (major, minor) >= (2, 11) else []
            yield (record, *parts, cgroups)
'''))
ref("gen_match", (U, "            if record.scomplen <= 0:\n                # Natural end-of-file, no further bytes were found to populate another record.\n                break\n", "            if not record.scomplen > 0:\n                # Natural end-of-file, no further bytes were found to populate another record.\n                return\n"))
ref("gen_walrus", (U, "            record = get_record(raw_file, header)\n            if record.scomplen <= 0:\n", "            if (record := get_record(raw_file, header)).scomplen <= 0:\n"))
ref("gen_iter_sentinel", fn(U, "generate_statistics", GHEAD + '''
    if header is None:
        header = get_header(raw_file)
    cgroups_expected = header.semantic_version not in _NO_CGROUPS if header.semantic_version in _HEADER_BY_VERSION else (header.major_version, header.minor_version) >= (2, 11)
    count = 0
    try:
        while count < max_samples:
            record = get_record(raw_file, header)
            if record.scomplen <= 0:
                break
            sstat = get_sstat(raw_file, header, record)
            tstats = get_tstat(raw_file, header, record)
            cgroups = get_cstat(raw_file, header, record) if cgroups_expected else []
            count += 1
            yield record, sstat, tstats, cgroups
    except zlib.error:
        if raise_on_truncation:
            raise


_NO_CGROUPS = [module.Header.supported_version for module in _VERSIONS[:9]]
'''))

# ------------------------------------------------------------------------------------------------ headers and records
HHEAD = '''def get_header(raw_file: io.BytesIO, check_compatibility: bool = True) -> Header:
    """Get the raw file header from an open Atop file."""
'''
ref("hdr_helpers", fn(U, "get_header", HHEAD + '''
    header = _read_header(raw_file)
    cls = _HEADER_BY_VERSION.get(header.semantic_version)
    if cls is not None and not isinstance(header, cls):
        header = cls.from_buffer(header)
    if check_compatibility:
        header.check_compatibility()
    return header


def _read_header(raw_file):
    """Read and validate a header of the latest layout."""
    header = _HEADER_BY_VERSION[_DEFAULT_VERSION]()
    length = raw_file.readinto(header)
    _require(header.magic == MAGIC, f"File does not contain raw atop output (wrong magic number): {hex(header.magic)}")
    _require(length >= ctypes.sizeof(header), f"File does not contain a complete header: {length} of {ctypes.sizeof(header)} bytes")
    return header


def _require(condition, message):
    """Reject a file unless a condition holds."""
    if not condition:
        raise ValueError(message)
'''))
ref("hdr_read_bytes", fn(U, "get_header", HHEAD + '''
    default = _HEADER_BY_VERSION[_DEFAULT_VERSION]
    data = raw_file.read(ctypes.sizeof(default))
    padded = data.ljust(ctypes.sizeof(default), b"\\0")
    header = default.from_buffer_copy(padded)
    if header.magic != MAGIC:
        raise ValueError(f"File does not contain raw atop output (wrong magic number): {hex(header.magic)}")
    if len(data) < len(padded):
        raise ValueError(f"File does not contain a complete header: {len(data)} of {len(padded)} bytes")
    version = header.semantic_version
    if version in _HEADER_BY_VERSION:
        header = _HEADER_BY_VERSION[version].from_buffer_copy(padded)
    if check_compatibility:
        header.check_compatibility()
    return header
'''))
ref("hdr_single_lookup", fn(U, "get_header", HHEAD + '''
    latest = _HEADER_BY_VERSION[_DEFAULT_VERSION]
    header = latest()
    found = raw_file.readinto(header)
    if header.magic != MAGIC or found < ctypes.sizeof(latest):
        raise ValueError("File does not contain a complete raw atop header")
    version_class = _HEADER_BY_VERSION.get(header.semantic_version, latest)
    if version_class is not latest:
        header = version_class.from_buffer(header)
    if check_compatibility:
        header.check_compatibility()
    return header
'''))
ref("rec_from_buffer", (U, REC, '''    buffer = bytearray(ctypes.sizeof(header.Record))
    raw_file.readinto(buffer)
    return header.Record.from_buffer(buffer)
'''))
ref("rec_read_pad", (U, REC, '''    size = ctypes.sizeof(header.Record)
    data = raw_file.read(size)
    return header.Record.from_buffer_copy(data + bytes(size - len(data)))
'''))
COMPAT = '''        sizes = [
            ("Header", self.rawheadlen, ctypes.sizeof(self.__class__)),
            ("Record", self.rawreclen, ctypes.sizeof(self.Record)),
            ("SStat", self.sstatlen, ctypes.sizeof(self.SStat)),
        ]
        if hasattr(self, "tstatlen"):
            sizes.append(("TStat", self.tstatlen, ctypes.sizeof(self.TStat)))
        else:
            sizes.append(("PStat", self.pstatlen, ctypes.sizeof(self.TStat)))
        if (self.major_version, self.minor_version) >= (2, 11):
            sizes.append(("CStat", self.cstatlen, ctypes.sizeof(self.CStat)))
        if any(size[1] != size[2] for size in sizes):
'''
ref("compat_helper_sizes", (S, COMPAT, '''        sizes = self._struct_sizes()
        if any(found != expected for _, found, expected in sizes):
'''), (S, "    @property\n    def major_version", '''    def _struct_sizes(self):
        """Found and expected length of every structure."""
        task_field = "tstatlen" if hasattr(self, "tstatlen") else "pstatlen"
        checked = [
            ("Header", "rawheadlen", type(self)),
            ("Record", "rawreclen", self.Record),
            ("SStat", "sstatlen", self.SStat),
            ("TStat" if task_field == "tstatlen" else "PStat", task_field, self.TStat),
        ]
        if (self.major_version, self.minor_version) >= (2, 11):
            checked.append(("CStat", "cstatlen", self.CStat))
        return [(name, getattr(self, field), ctypes.sizeof(struct)) for name, field, struct in checked]

    @property
    def major_version'''))
ref("compat_dicts", (S, COMPAT, '''        found = {"Header": self.rawheadlen, "Record": self.rawreclen, "SStat": self.sstatlen}
        expected = {name: ctypes.sizeof(getattr(self, name)) for name in ("Record", "SStat")}
        expected["Header"] = ctypes.sizeof(self)
        found["TStat"] = self.tstatlen if hasattr(self, "tstatlen") else self.pstatlen
        expected["TStat"] = ctypes.sizeof(self.TStat)
        if (self.major_version, self.minor_version) >= (2, 11):
            found["CStat"] = self.cstatlen
            expected["CStat"] = ctypes.sizeof(self.CStat)
        sizes = [(name, found[name], expected[name]) for name in found]
        if found != expected:
'''))
ref("version_prop_tuple", (S, re.compile(r'    @property\n    def major_version.*?return self\._semantic_version\n', re.S), lambda m: '''    @property
    def major_version(self) -> int:
        """The major version from the semantic version."""
        return (self.aversion >> 8) & 0x7F

    @property
    def minor_version(self) -> int:
        """The minor version from the semantic version."""
        return self.aversion & 0xFF

    @property
    def semantic_version(self) -> str:
        """The semantic version as major.minor."""
        return f"{self.major_version}.{self.minor_version}"
'''))
ref("version_join", (S, '            self._semantic_version = f"{self._major_version}.{self._minor_version}"\n', '            self._semantic_version = ".".join((str(self._major_version), str(self._minor_version)))\n'))
ref("version_shift_names", (S, "            self._major_version = (self.aversion >> 8) & 0x7F\n            self._minor_version = self.aversion & 0xFF\n", "            word = self.aversion & 0x7FFF\n            self._major_version, self._minor_version = word >> 8, word & 0xFF\n"))

# ------------------------------------------------------------------------------------------------ dictionaries
DHEAD = '''def struct_to_dict(struct: ctypes.Structure) -> dict:
    """Convert C struct, and all nested structs, into a Python dictionary."""
'''
ref("dict_convert_value", fn(U, "struct_to_dict", DHEAD + '''
    result = {}
    for name, *_ in struct._fields_:
        value = getattr(struct, name)
        if "future" in name and not isinstance(value, ctypes.Structure):
            continue
        if isinstance(value, ctypes.Array):
            value = _populated(struct, name, value)
        result[name] = _convert(value)
    return result


def _populated(struct, name, values):
    """Entries of an array in use."""
    limiter = getattr(struct, "fields_limiters", {}).get(name)
    if not limiter:
        return list(values)
    return values[: max(getattr(struct, limiter), 0)]


def _convert(value):
    """Convert a single value."""
    if isinstance(value, ctypes.Structure):
        return struct_to_dict(value)
    if isinstance(value, list):
        return [_convert(entry) for entry in value]
    if isinstance(value, bytes):
        return value.decode(errors="ignore")
    return value
'''))
ref("dict_generator_items", fn(U, "struct_to_dict", DHEAD + '''
    return dict(_items(struct))


def _items(struct):
    """Yield name and converted value of every field."""
    limiters = getattr(struct, "fields_limiters", {})
    for field in struct._fields_:
        name = field[0]
        value = getattr(struct, name)
        if isinstance(value, ctypes.Structure):
            yield name, struct_to_dict(value)
        elif "future" in name:
            continue
        elif isinstance(value, ctypes.Array):
            count = max(getattr(struct, limiters[name]), 0) if name in limiters else len(value)
            yield name, [struct_to_dict(item) if isinstance(item, ctypes.Structure) else item for item in value[:count]]
        elif isinstance(value, bytes):
            yield name, value.decode("utf-8", "ignore")
        else:
            yield name, value
'''))
ref("dict_match", fn(U, "struct_to_dict", DHEAD + '''
    struct_dict = {}
    for field_name, *_rest in struct._fields_:
        field_data = getattr(struct, field_name)
        placeholder = "future" in field_name
        match field_data:
            case ctypes.Structure():
                struct_dict[field_name] = struct_to_dict(field_data)
            case _ if placeholder:
                pass
            case ctypes.Array():
                limiter = getattr(struct, "fields_limiters", {}).get(field_name)
                used = field_data[: max(getattr(struct, limiter), 0)] if limiter else field_data
                struct_dict[field_name] = [struct_to_dict(x) if isinstance(x, ctypes.Structure) else x for x in used]
            case bytes():
                struct_dict[field_name] = field_data.decode(errors="ignore")
            case _:
                struct_dict[field_name] = field_data
    return struct_dict
'''))
ref("dict_limit_range", fn(U, "struct_to_dict", DHEAD + '''
    struct_dict = {}
    limiters = getattr(struct, "fields_limiters", {})
    for field in struct._fields_:
        field_name = field[0]
        field_data = getattr(struct, field_name)
        if isinstance(field_data, ctypes.Structure):
            struct_dict[field_name] = struct_to_dict(field_data)
            continue
        if "future" in field_name:
            continue
        if isinstance(field_data, ctypes.Array):
            count = len(field_data)
            if field_name in limiters:
                count = min(count, max(0, getattr(struct, limiters[field_name])))
            entries = []
            for index in range(count):
                entry = field_data[index]
                entries.append(struct_to_dict(entry) if isinstance(entry, ctypes.Structure) else entry)
            struct_dict[field_name] = entries
        else:
            struct_dict[field_name] = field_data.decode(errors="ignore") if isinstance(field_data, bytes) else field_data
    return struct_dict
'''))
ref("dict_type_attr", fn(U, "struct_to_dict", DHEAD + '''
    names = [field[0] for field in type(struct)._fields_]
    values = [getattr(struct, name) for name in names]
    struct_dict = {}
    for name, value in zip(names, values):
        if isinstance(value, ctypes.Structure):
            struct_dict[name] = struct_to_dict(value)
        elif "future" not in name:
            struct_dict[name] = _plain(struct, name, value)
    return struct_dict


def _plain(struct, name, value):
    """Value of a field that is no structure."""
    if isinstance(value, bytes):
        return value.decode(errors="ignore")
    if not isinstance(value, ctypes.Array):
        return value
    limiter = getattr(type(struct), "fields_limiters", {}).get(name)
    if limiter is not None:
        value = value[: max(getattr(struct, limiter), 0)]
    return [struct_to_dict(item) if isinstance(item, ctypes.Structure) else item for item in value]
'''))
ref("dict_recursion_list", fn(U, "struct_to_dict", DHEAD + '''
    if isinstance(struct, (list, ctypes.Array)):
        return [struct_to_dict(item) for item in struct]
    if isinstance(struct, bytes):
        return struct.decode(errors="ignore")
    if not hasattr(struct, "_fields_"):
        return struct
    limiters = getattr(struct, "fields_limiters", {})
    struct_dict = {}
    for field in struct._fields_:
        name = field[0]
        data = getattr(struct, name)
        if "future" in name and not isinstance(data, ctypes.Structure):
            continue
        if name in limiters:
            data = data[: max(getattr(struct, limiters[name]), 0)]
        struct_dict[name] = struct_to_dict(data)
    return struct_dict
'''))

# ------------------------------------------------------------------------------------------------ files
PF = '''def parse_file(  # pylint: disable=too-many-locals
    file: str,
    parseables: list[str] | None = None,
    pretty_print: bool = True,
    show_tstats: bool = False,
    show_cstats: bool = False,
) -> None:
    """Parse a single file."""
'''
ref("file_split", fn(R, "parse_file", PF + '''
    with _open(file) as raw_file:
        samples = _collect(raw_file, file, parseables, show_tstats, show_cstats)
    _output(samples, pretty_print)


def _open(file):
    """Open a log, compressed or not."""
    if ".gz" in file:
        return gzip.open(file, "rb")
    return open(file, "rb")


def _collect(raw_file, file, parseables, show_tstats, show_cstats):
    """Collect everything to print for a file."""
    header = atoparser.get_header(raw_file)
    version = header.semantic_version
    if parseables and version not in PARSEABLE_MAP:
        message = f"Atop version {version} does not support parseables, only full raw output."
        return [{"error": message, "file": file}]
    groups = atoparser.generate_statistics(raw_file, header, raise_on_truncation=False)
    if parseables:
        return _rows(PARSEABLE_MAP[version], parseables, header, groups)
    return [_full(header, group, show_tstats, show_cstats) for group in groups]


def _rows(parsers, parseables, header, groups):
    """Collect parseable rows."""
    rows = []
    for record, sstat, tstats, _ in groups:
        for parseable in parseables:
            for row in parsers[parseable](header, record, sstat, tstats):
                row["parseable"] = parseable
                rows.append(row)
    return rows


def _full(header, group, show_tstats, show_cstats):
    """Convert one group of statistics."""
    record, sstat, tstats, cgroups = group
    converted = {
        "header": atoparser.struct_to_dict(header),
        "record": atoparser.struct_to_dict(record),
        "sstat": atoparser.struct_to_dict(sstat),
    }
    if show_tstats:
        converted["tstat"] = list(map(atoparser.struct_to_dict, tstats))
    if show_cstats:
        converted["cgroup"] = list(map(atoparser.struct_to_dict, cgroups))
    return converted


def _output(samples, pretty_print):
    """Print a document."""
    indent = 2 if pretty_print else None
    print(json.dumps(samples, indent=indent))
'''))
ref("file_generator_split", fn(R, "parse_file", PF + '''
    opener = gzip.open if ".gz" in file else open
    with opener(file, "rb") as raw_file:
        samples = list(_results(raw_file, file, parseables, show_tstats, show_cstats))
    print(json.dumps(samples, indent=2 if pretty_print else None))


def _results(raw_file, file, parseables, show_tstats, show_cstats):
    """Yield every entry of the output."""
    header = atoparser.get_header(raw_file)
    if not parseables:
        for record, sstat, tstats, cgroups in atoparser.generate_statistics(raw_file, header, raise_on_truncation=False):
            entry = {}
            for name, struct in (("header", header), ("record", record), ("sstat", sstat)):
                entry[name] = atoparser.struct_to_dict(struct)
            for name, structs, wanted in (("tstat", tstats, show_tstats), ("cgroup", cgroups, show_cstats)):
                if wanted:
                    entry[name] = [atoparser.struct_to_dict(struct) for struct in structs]
            yield entry
        return
    parsers = PARSEABLE_MAP.get(header.semantic_version)
    if parsers is None:
        yield {"error": f"Atop version {header.semantic_version} does not support parseables, only full raw output.", "file": file}
        return
    for record, sstat, tstats, _ in atoparser.generate_statistics(raw_file, header, raise_on_truncation=False):
        for parseable in parseables:
            for row in parsers[parseable](header, record, sstat, tstats):
                yield {**row, "parseable": parseable}
'''))
ref("file_early_return", fn(R, "parse_file", PF + '''
    indent = 2 if pretty_print else None
    opener = open if ".gz" not in file else gzip.open
    with opener(file, "rb") as raw_file:
        header = atoparser.get_header(raw_file)
        version = header.semantic_version
        if parseables and version not in PARSEABLE_MAP:
            error = {
                "error": f"Atop version {version} does not support parseables, only full raw output.",
                "file": file,
            }
            print(json.dumps([error], indent=indent))
            return
        samples = []
        statistics = atoparser.generate_statistics(raw_file, header=header, raise_on_truncation=False)
        for record, sstat, tstats, cgroups in statistics:
            if not parseables:
                converted = {"header": atoparser.struct_to_dict(header)}
                converted["record"] = atoparser.struct_to_dict(record)
                converted["sstat"] = atoparser.struct_to_dict(sstat)
                if show_tstats:
                    converted["tstat"] = [atoparser.struct_to_dict(stat) for stat in tstats]
                if show_cstats:
                    converted["cgroup"] = [atoparser.struct_to_dict(stat) for stat in cgroups]
                samples.append(converted)
                continue
            for parseable in parseables:
                parser = PARSEABLE_MAP[version][parseable]
                for sample in parser(header, record, sstat, tstats):
                    sample.update(parseable=parseable)
                    samples.append(sample)
    print(json.dumps(samples, indent=indent))
'''))
ref("file_header_once", (R, "            for record, sstat, tstats, cgroups in atoparser.generate_statistics(\n", "            header_dict = atoparser.struct_to_dict(header)\n            for record, sstat, tstats, cgroups in atoparser.generate_statistics(\n"), (R, '"header": atoparser.struct_to_dict(header)', '"header": header_dict'))
ref("file_class", fn(R, "parse_file", PF + '''
    _File(file, parseables, show_tstats, show_cstats).dump(2 if pretty_print else None)


class _File:
    """A log to print."""

    def __init__(self, file, parseables, show_tstats, show_cstats):
        self.file = file
        self.parseables = parseables
        self.show_tstats = show_tstats
        self.show_cstats = show_cstats
        self.samples = []

    def dump(self, indent):
        """Print everything."""
        opener = open if ".gz" not in self.file else gzip.open
        with opener(self.file, "rb") as raw_file:
            self._read(raw_file)
        print(json.dumps(self.samples, indent=indent))

    def _read(self, raw_file):
        header = atoparser.get_header(raw_file)
        version = header.semantic_version
        if self.parseables and version not in PARSEABLE_MAP:
            self.samples.append({"error": f"Atop version {version} does not support parseables, only full raw output.", "file": self.file})
            return
        for record, sstat, tstats, cgroups in atoparser.generate_statistics(raw_file, header, False):
            if self.parseables:
                self._add_rows(header, record, sstat, tstats)
            else:
                self._add_full(header, record, sstat, tstats, cgroups)

    def _add_rows(self, header, record, sstat, tstats):
        parsers = PARSEABLE_MAP[header.semantic_version]
        for name in self.parseables:
            for row in parsers[name](header, record, sstat, tstats):
                row["parseable"] = name
                self.samples.append(row)

    def _add_full(self, header, record, sstat, tstats, cgroups):
        entry = dict(header=atoparser.struct_to_dict(header), record=atoparser.struct_to_dict(record), sstat=atoparser.struct_to_dict(sstat))
        if self.show_tstats:
            entry["tstat"] = [atoparser.struct_to_dict(tstat) for tstat in tstats]
        if self.show_cstats:
            entry["cgroup"] = [atoparser.struct_to_dict(cgroup) for cgroup in cgroups]
        self.samples.append(entry)
'''))
ref("main_star", (R, re.compile(r"    for file in args\.files:\n        parse_file\(.*?\n        \)\n", re.S), lambda m: '''    options = (args.parseables, args.pretty_print, args.show_tstats, args.show_cstats)
    for file in args.files:
        parse_file(file, *options)
'''))
ref("main_helper", (R, re.compile(r"    for file in args\.files:\n        parse_file\(.*?\n        \)\n", re.S), lambda m: '''    _process(args.files, args)
'''), (R, "def main()", '''def _process(files, args):
    """Process every file."""
    for file in files:
        parse_file(file, args.parseables, args.pretty_print, show_tstats=args.show_tstats, show_cstats=args.show_cstats)


def main()'''))

# ------------------------------------------------------------------------------------------------ imports, memos
ref("import_isal", imp("import ctypes\nimport io\nimport zlib\n\ntry:\n    from isal import isal_zlib\nexcept ImportError:\n    isal_zlib = None\n"))
ref("memo_pid_type", (U, "        pid_array = pid_t * cstat.gen.nprocs\n", "        pid_array = _pid_array(cstat.gen.nprocs)\n"), (U, "def get_cstat(", '''_PID_ARRAYS = {}


def _pid_array(count):
    """Array type for a number of process ids."""
    if count not in _PID_ARRAYS:
        _PID_ARRAYS[count] = pid_t * count
    return _PID_ARRAYS[count]


def get_cstat('''))
ref("memo_pid_type_lru", imp("import ctypes\nimport functools\nimport io\nimport zlib\n"), (U, "        pid_array = pid_t * cstat.gen.nprocs\n", "        pid_array = _pid_array(cstat.gen.nprocs)\n"), (U, "def get_cstat(", '''@functools.lru_cache(maxsize=None)
def _pid_array(count):
    """Array type for a number of process ids."""
    return pid_t * count


def get_cstat('''))
ref("memo_version_pair", imp("import ctypes\nimport functools\nimport io\nimport zlib\n"), (U, '        major, minor = header_version.split(".")[:2]\n        major, minor = int(major), int(minor)\n', "        major, minor = _version_pair(header_version)\n"), (U, "def generate_statistics(", '''@functools.lru_cache(maxsize=32)
def _version_pair(version):
    """Major and minor version as numbers."""
    major, minor = version.split(".")[:2]
    return int(major), int(minor)


def generate_statistics('''))
ref("memo_field_names", (U, "    struct_dict = {}\n    for field in struct._fields_:  # pylint: disable=protected-access\n        field_name = field[0]\n", "    struct_dict = {}\n    for field_name in _field_names(type(struct)):\n"), (U, "def struct_to_dict(", '''_FIELD_NAMES = {}


def _field_names(cls):
    """Names of the fields of a class of structs."""
    names = _FIELD_NAMES.get(cls)
    if names is None:
        names = tuple(field[0] for field in cls._fields_)  # pylint: disable=protected-access
        _FIELD_NAMES[cls] = names
    return names


def struct_to_dict('''))
ref("default_lazy", (U, "    header = _HEADER_BY_VERSION[_DEFAULT_VERSION]()\n", "    header = _default_header()()\n"), (U, "def get_header(", '''_LATEST = None


def _default_header():
    """Header class of the latest version."""
    global _LATEST
    if _LATEST is None:
        _LATEST = _HEADER_BY_VERSION[_DEFAULT_VERSION]
    return _LATEST


def get_header('''))
ref("new_module", ("atoparser/blocks.py", None, '''"""Reading of compressed blocks."""

import zlib


def read_block(raw_file, length):
    """Read and decompress one block."""
    return zlib.decompress(raw_file.read(length))
'''), (U, "from atoparser.structs.shared import pid_t\n", "from atoparser.blocks import read_block\nfrom atoparser.structs.shared import pid_t\n"), (U, SST, "    decompressed = read_block(raw_file, record.scomplen)\n    sstat = header.SStat.from_buffer_copy(decompressed)\n"), (U, TREAD, "    decompressed = read_block(raw_file, record.pcomplen)\n"), (U, CREAD, "    decompressed_cstats = read_block(raw_file, record.ccomplen)\n    decompressed_pidlist = read_block(raw_file, record.icomplen)\n"))
ref("struct_cstat_again", (A % "2_12", re.compile(r"^CStat = atop_2_11\.CStat\n", re.M), lambda m: '''class CStat(ctypes.Structure):
    """Embeds all cgroup stats.

    C Name: cstat
    C Location: photoproc.h
    """

    _fields_ = [
        ("gen", atop_2_11.CGGen),
        ("conf", atop_2_11.CGConf),
        ("cpu", atop_2_11.CGCPU),
        ("mem", atop_2_11.CGMem),
        ("dsk", atop_2_11.CGDSK),
        ("cgname", ctypes.c_char * 0),
    ]
'''))

# ------------------------------------------------------------------------------------------------ parsers
PD = '"duplex": int.from_bytes(interface.duplex, byteorder="big")'
ref("p_duplex_ord", (P, PD, '"duplex": ord(interface.duplex) if interface.duplex else 0'))
ref("p_duplex_any", (P, PD, '"duplex": interface.duplex[0] if len(interface.duplex) else 0'))
ref("p_drive_rows", (P, re.compile(r'    for disk in sstat\.dsk\.dsk:\n.*?        yield values\n', re.S), lambda m: "    yield from _drives(record, sstat.dsk.dsk)\n"),
    (P, re.compile(r'    for lvm in sstat\.dsk\.lvm:\n.*?        yield values\n', re.S), lambda m: "    yield from _drives(record, sstat.dsk.lvm)\n"),
    (P, re.compile(r'    for mdd in sstat\.dsk\.mdd:\n.*?        yield values\n', re.S), lambda m: "    yield from _drives(record, sstat.dsk.mdd)\n"),
    (P, "def parse_DSK(", '''def _named(entries):
    """Yield the entries before the first unnamed one."""
    for entry in entries:
        if not entry.name:
            return
        yield entry


def _drives(record, drives):
    """Yield the rows of all named drives."""
    columns = {"io_ms": "io_ms", "reads": "nread", "read_sectors": "nrsect", "writes": "nwrite", "write_sectors": "nwsect"}
    for drive in _named(drives):
        row = {"timestamp": record.curtime, "interval": record.interval, "name": drive.name.decode(errors="ignore")}
        row.update((column, getattr(drive, field)) for column, field in columns.items())
        yield row


def parse_DSK('''))
ref("p_cpu_islice", (P, '    for index, cpu in enumerate(sstat.cpu.cpu):\n        if index >= sstat.cpu.nrcpu:\n            # Core list contains 100 entries, but only up the count specified in the cpu stat are valid.\n            break\n', "    for index, cpu in enumerate(itertools.islice(sstat.cpu.cpu, max(sstat.cpu.nrcpu, 0))):\n"), (P, "from atoparser import utils\n", "import itertools\n\nfrom atoparser import utils\n"))
ref("p_yn", (P, re.compile(r'"y" if header\.supportflags & atop_1_26\.(\w+) else "n"'), r'_yes_no(header.supportflags & atop_1_26.\1)'), (P, "def parse_cpu(", '''def _yes_no(value):
    """Text of a flag."""
    return ("n", "y")[bool(value)]


def parse_cpu('''))
ref("p_bytes_const", (P, re.compile(r" \* 1024"), " * KIBIBYTE"), (P, "def parse_cpu(", "KIBIBYTE = 1 << 10\n\n\ndef parse_cpu("))
ref("p_attrgetter", (P, re.compile(r'"tcp_pkt_received": sstat\.net\.tcp\.InSegs,\n        "tcp_pkt_transmitted": sstat\.net\.tcp\.OutSegs,\n'), lambda m: '"tcp_pkt_received": operator.attrgetter("net.tcp.InSegs")(sstat),\n        "tcp_pkt_transmitted": operator.attrgetter("net.tcp.OutSegs")(sstat),\n'), (P, "from atoparser import utils\n", "import operator\n\nfrom atoparser import utils\n"))
ref("p_proc_base", (P, re.compile(r'            "timestamp": record\.curtime,\n            "interval": record\.interval,\n            "pid": stat\.gen\.pid,\n            "name": stat\.gen\.name\.decode\(errors="ignore"\),\n            "state": stat\.gen\.state\.decode\(errors="ignore"\),\n'), '            **_process(record, stat.gen),\n'), (P, "def parse_cpu(", '''def _process(record, gen):
    """Columns that all process formats start with."""
    return {
        "timestamp": record.curtime,
        "interval": record.interval,
        "pid": gen.pid,
        "name": gen.name.decode(errors="ignore"),
        "state": gen.state.decode(errors="ignore"),
    }


def parse_cpu('''))
ref("p_genexp_return", (P, re.compile(r'    values = \{\n        "timestamp": record\.curtime,\n        "interval": record\.interval,\n        "page_size": header\.pagesize,\n        "swap".*?    yield values\n?', re.S), lambda m: m.group().replace("    yield values", "    return iter([values])")))
ref("p_text_rstrip", (P, "disk.name.decode(errors=\"ignore\")", "disk.name.rstrip(b\"\\0\").decode(errors=\"ignore\")"))
ref("names_from_dir", (R, re.compile(r'PARSEABLE_MAP = \{.*?\n\}\n', re.S), lambda m: '''PARSEABLE_MAP = {"1.26": {}}
for _name in PARSEABLES:
    PARSEABLE_MAP["1.26"][_name] = getattr(atop_1_26, "parse_" + _name)
'''))

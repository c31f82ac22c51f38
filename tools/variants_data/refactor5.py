"""A fifth set of refactorings: several functions changed together, as a reviewer would see them."""
import re

from variants_data.bugs1 import CREAD, EXC, GEN, REC, SST, TLOOP, TREAD
from variants_data.refactor3 import A, P, R, S, U, fn, imp

VARIANTS = []


def ref(name, *edits):
    VARIANTS.append({"name": "w_" + name, "prop": None, "edits": list(edits)})


GENSIG = '''def generate_statistics(
    raw_file: io.BytesIO,
    header: Header = None,
    raise_on_truncation: bool = True,
    max_samples: int = MAX_SAMPLES_PER_FILE,
):
    """Read statistics groups from an open Atop log file."""
'''
RETH = "    if check_compatibility:\n        # Ensure all struct lengths match the lengths specified in the header. If not, we cannot read the file further.\n        header.check_compatibility()\n"
COMPAT = re.compile(r"        sizes = \[\n.*?Struct length evaluations \(type, found, expected\): \{sizes\}\"\n            \)\n", re.S)
VERPROP = re.compile(r"        # Use a general getattr\(\) call.*?        return self\._semantic_version\n", re.S)
# ------------------------------------------------------------------------------------------------ iteration
ref("gen_read_sample", fn(U, "generate_statistics", GENSIG + '''    if header is None:
        header = get_header(raw_file)
    try:
        for _ in range(max_samples):
            group = _read_sample(raw_file, header)
            if group is None:
                return
            yield group
    except zlib.error:
        if raise_on_truncation:
            raise


def _has_cgroups(header):
    """Whether logs of this version carry cgroups."""
    return (header.major_version, header.minor_version) >= (2, 11)


def _read_sample(raw_file, header):
    """Read everything that belongs to the next record, or None at the end."""
    record = get_record(raw_file, header)
    if record.scomplen <= 0:
        return None
    sstat = get_sstat(raw_file, header, record)
    tstats = get_tstat(raw_file, header, record)
    cgroups = get_cstat(raw_file, header, record) if _has_cgroups(header) else []
    return record, sstat, tstats, cgroups
'''))
ref("gen_records_generator", fn(U, "generate_statistics", GENSIG + '''    header = header if header is not None else get_header(raw_file)
    with_cgroups = _version_pair(header) >= (2, 11)
    try:
        for record in _records(raw_file, header, max_samples):
            sstat = get_sstat(raw_file, header, record)
            tstats = get_tstat(raw_file, header, record)
            cgroups = []
            if with_cgroups:
                cgroups = get_cstat(raw_file, header, record)
            yield record, sstat, tstats, cgroups
    except zlib.error:
        if not raise_on_truncation:
            return
        raise


def _version_pair(header):
    """Major and minor version as numbers."""
    major, minor = map(int, header.semantic_version.split("."))
    return major, minor


def _records(raw_file, header, limit):
    """The records of a log up to the one without data."""
    for _ in range(limit):
        record = get_record(raw_file, header)
        if not record.scomplen:
            break
        yield record
'''))
ref("gen_next_loop", fn(U, "generate_statistics", GENSIG + '''    if header is None:
        header = get_header(raw_file)
    major, minor = (int(part) for part in header.semantic_version.split(".")[:2])
    cgroups_supported = (major, minor) >= (2, 11)
    remaining = max_samples
    try:
        while remaining > 0:
            remaining -= 1
            record = get_record(raw_file, header)
            if record.scomplen == 0:
                break
            sstat = get_sstat(raw_file, header, record)
            tstats = get_tstat(raw_file, header, record)
            cgroups = get_cstat(raw_file, header, record) if cgroups_supported else []
            yield record, sstat, tstats, cgroups
    except zlib.error:
        if raise_on_truncation:
            raise
'''))
ref("gen_count_up", fn(U, "generate_statistics", GENSIG + '''    if header is None:
        header = get_header(raw_file)
    header_version = header.semantic_version
    major, minor = header_version.split(".")[:2]
    yielded = 0
    while yielded < max_samples:
        try:
            record = get_record(raw_file, header)
            if record.scomplen <= 0:
                return
            sstat = get_sstat(raw_file, header, record)
            tstats = get_tstat(raw_file, header, record)
            if int(major) > 2 or (int(major) == 2 and int(minor) >= 11):
                cgroups = get_cstat(raw_file, header, record)
            else:
                cgroups = []
        except zlib.error:
            if raise_on_truncation:
                raise
            return
        yield record, sstat, tstats, cgroups
        yielded += 1
'''))
ref("gen_reader_class", fn(U, "generate_statistics", GENSIG + '''    if header is None:
        header = get_header(raw_file)
    reader = _SampleReader(raw_file, header)
    try:
        for _ in range(max_samples):
            if not reader.advance():
                break
            yield reader.group()
    except zlib.error:
        if raise_on_truncation:
            raise


class _SampleReader:
    """Reads one sample after the other."""

    def __init__(self, raw_file, header):
        self._raw_file = raw_file
        self._header = header
        self._record = None
        major, minor = header.semantic_version.split(".")[:2]
        self._cgroups = (int(major), int(minor)) >= (2, 11)

    def advance(self):
        """Read the next record, False at the end."""
        self._record = get_record(self._raw_file, self._header)
        return self._record.scomplen > 0

    def group(self):
        """Read what belongs to the current record."""
        args = (self._raw_file, self._header, self._record)
        sstat = get_sstat(*args)
        tstats = get_tstat(*args)
        return self._record, sstat, tstats, get_cstat(*args) if self._cgroups else []
'''))
ref("gen_iterator_class", fn(U, "generate_statistics", GENSIG + '''    if header is None:
        header = get_header(raw_file)
    yield from _Samples(raw_file, header, raise_on_truncation, max_samples)


class _Samples:
    """The samples of a log."""

    def __init__(self, raw_file, header, strict, limit):
        self.raw_file = raw_file
        self.header = header
        self.strict = strict
        self.limit = limit

    def __iter__(self):
        header, raw_file = self.header, self.raw_file
        major, minor = header.major_version, header.minor_version
        try:
            for _ in range(self.limit):
                record = get_record(raw_file, header)
                if record.scomplen <= 0:
                    break
                sstat = get_sstat(raw_file, header, record)
                tstats = get_tstat(raw_file, header, record)
                cgroups = get_cstat(raw_file, header, record) if (major, minor) >= (2, 11) else []
                yield record, sstat, tstats, cgroups
        except zlib.error:
            if self.strict:
                raise
'''))
ref("gen_err_to_none", fn(U, "generate_statistics", GENSIG + '''    if header is None:
        header = get_header(raw_file)
    major, minor = header.semantic_version.split(".")[:2]
    version = (int(major), int(minor))

    def load(record):
        sstat = get_sstat(raw_file, header, record)
        tstats = get_tstat(raw_file, header, record)
        cgroups = get_cstat(raw_file, header, record) if version >= (2, 11) else []
        return sstat, tstats, cgroups

    for _ in range(max_samples):
        record = get_record(raw_file, header)
        if record.scomplen <= 0:
            break
        try:
            sstat, tstats, cgroups = load(record)
        except zlib.error:
            if raise_on_truncation:
                raise
            break
        yield record, sstat, tstats, cgroups
'''))
ref("gen_flag_first", fn(U, "generate_statistics", GENSIG + '''    if header is None:
        header = get_header(raw_file)
    samples = _generate(raw_file, header, max_samples)
    if raise_on_truncation:
        yield from samples
    else:
        try:
            yield from samples
        except zlib.error:
            pass


def _generate(raw_file, header, max_samples):
    """Read samples, raising all errors."""
    major, minor = header.semantic_version.split(".")[:2]
    major, minor = int(major), int(minor)
    for _ in range(max_samples):
        record = get_record(raw_file, header)
        if record.scomplen <= 0:
            break
        sstat = get_sstat(raw_file, header, record)
        tstats = get_tstat(raw_file, header, record)
        if (major, minor) >= (2, 11):
            cgroups = get_cstat(raw_file, header, record)
        else:
            cgroups = []
        yield record, sstat, tstats, cgroups
'''))
# ------------------------------------------------------------------------------------------------ blocks
ref("blocks_two_helpers", (U, SST, '''    return _decode(header.SStat, _inflate(raw_file, record.scomplen))
'''), (U, "    return sstat\n\n\ndef get_tstat(", "\n\ndef get_tstat("), (U, TREAD, "    decompressed = _inflate(raw_file, record.pcomplen)\n"), (U, CREAD, '''    decompressed_cstats = _inflate(raw_file, record.ccomplen)
    decompressed_pidlist = _inflate(raw_file, record.icomplen)
'''), (U, "        tstat = header.TStat.from_buffer_copy(decompressed[index * tstatlen : tstatlen * (index + 1)])\n", "        tstat = _decode(header.TStat, decompressed, index * tstatlen, tstatlen)\n"),
    (U, "        cstat = header.CStat.from_buffer_copy(decompressed_cstats[cstat_start : cstat_start + cstatlen])\n", "        cstat = _decode(header.CStat, decompressed_cstats, cstat_start, cstatlen)\n"),
    (U, "        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start : pidlist_start + pid_array_size])\n", "        pidlist = _decode(pid_array, decompressed_pidlist, pidlist_start, pid_array_size)\n"),
    (U, "def get_sstat(", '''def _inflate(raw_file, length):
    """Read and decompress one block."""
    return zlib.decompress(raw_file.read(length))


def _decode(kind, data, start=0, length=None):
    """Decode one structure out of a block."""
    if length is None:
        return kind.from_buffer_copy(data[start:])
    return kind.from_buffer_copy(data[start : start + length])


def get_sstat('''))
ref("blocks_class", (U, SST, '''    block = _Block(raw_file, record.scomplen)
    sstat = header.SStat.from_buffer_copy(block.data)
'''), (U, TREAD, "    decompressed = _Block(raw_file, record.pcomplen).data\n"), (U, "def get_sstat(", '''class _Block:
    """One compressed block of a log."""

    __slots__ = ("data",)

    def __init__(self, raw_file, length):
        self.data = zlib.decompress(raw_file.read(length))


def get_sstat('''))
ref("tasks_from_iterable", fn(U, "get_tstat", '''
def get_tstat(raw_file, header, record):
    """Get the next raw tstat array from an open Atop file."""
    data = zlib.decompress(raw_file.read(record.pcomplen))
    return list(_structs(header.TStat, data, _task_length(header), _task_count(record)))


def _task_length(header):
    """Length of one task."""
    try:
        return header.tstatlen
    except AttributeError:
        return header.pstatlen


def _task_count(record):
    """Number of tasks of a sample."""
    return record.nlist if hasattr(record, "nlist") else record.ndeviat


def _structs(kind, data, length, count):
    """Equally long structures one after the other."""
    for start in range(0, count * length, length):
        yield kind.from_buffer_copy(data[start : start + length])
'''))
ref("tasks_bytearray_pop", fn(U, "get_tstat", '''
def get_tstat(raw_file, header, record):
    """Get the next raw tstat array from an open Atop file."""
    decompressed = zlib.decompress(raw_file.read(record.pcomplen))
    if isinstance(record, atop_1_26.Record):
        record_count, tstatlen = record.nlist, header.pstatlen
    else:
        record_count, tstatlen = record.ndeviat, header.tstatlen
    tstats = []
    while len(tstats) < record_count:
        start = len(tstats) * tstatlen
        tstats.append(header.TStat.from_buffer_copy(decompressed[start : start + tstatlen]))
    return tstats
'''))
ref("cg_class_cursor", fn(U, "get_cstat", '''
class _Cursor:
    """A position in decompressed data."""

    def __init__(self, data):
        self.data = data
        self.position = 0

    def peek(self, kind, length):
        """Decode a structure at the position."""
        return kind.from_buffer_copy(self.data[self.position : self.position + length])

    def take(self, kind):
        """Decode a structure and move past it."""
        length = ctypes.sizeof(kind)
        value = self.peek(kind, length)
        self.position += length
        return value


def get_cstat(raw_file, header, record):
    """Get the next raw cstat array from an open Atop file."""
    cstats = _Cursor(zlib.decompress(raw_file.read(record.ccomplen)))
    pids = _Cursor(zlib.decompress(raw_file.read(record.icomplen)))
    cgroups = []
    for _ in range(record.ncgroups):
        cstat = cstats.peek(header.CStat, header.cstatlen)
        cstats.position += cstat.gen.structlen
        cgroups.append(header.CGChainer(cstat, pids.take(pid_t * cstat.gen.nprocs)))
    return cgroups
'''))
ref("cg_generators", fn(U, "get_cstat", '''
def _cstats(data, header, count):
    """The statistics of all cgroups."""
    start = 0
    for _ in range(count):
        cstat = header.CStat.from_buffer_copy(data[start : start + header.cstatlen])
        yield cstat
        start += cstat.gen.structlen


def _pids(data, start, count):
    """Process ids and the place after them."""
    kind = pid_t * count
    end = start + ctypes.sizeof(kind)
    return kind.from_buffer_copy(data[start:end]), end


def get_cstat(raw_file, header, record):
    """Get the next raw cstat array from an open Atop file."""
    decompressed_cstats = zlib.decompress(raw_file.read(record.ccomplen))
    decompressed_pidlist = zlib.decompress(raw_file.read(record.icomplen))
    cgroups = []
    position = 0
    for cstat in _cstats(decompressed_cstats, header, record.ncgroups):
        pidlist, position = _pids(decompressed_pidlist, position, cstat.gen.nprocs)
        cgroups.append(header.CGChainer(cstat, pidlist))
    return cgroups
'''))
ref("cg_while_left", fn(U, "get_cstat", '''
def get_cstat(raw_file, header, record):
    """Get the next raw cstat array from an open Atop file."""
    stats, pids = [zlib.decompress(raw_file.read(length)) for length in (record.ccomplen, record.icomplen)]
    cgroups = []
    offset = pid_offset = 0
    left = record.ncgroups
    while left:
        left -= 1
        cstat = header.CStat.from_buffer_copy(stats[offset : offset + header.cstatlen])
        pid_type = pid_t * cstat.gen.nprocs
        pid_end = pid_offset + ctypes.sizeof(pid_type)
        cgroups += [header.CGChainer(cstat, pid_type.from_buffer_copy(pids[pid_offset:pid_end]))]
        offset, pid_offset = offset + cstat.gen.structlen, pid_end
    return cgroups
'''))
# ------------------------------------------------------------------------------------------------ headers
ref("hdr_class_for", fn(U, "get_header", '''
def _header_class(version):
    """The header class for a version, the newest when it has none of its own."""
    return _HEADER_BY_VERSION.get(version, _HEADER_BY_VERSION[_DEFAULT_VERSION])


def get_header(raw_file: io.BytesIO, check_compatibility: bool = True) -> Header:
    """Get the raw file header from an open Atop file."""
    newest = _header_class(_DEFAULT_VERSION)()
    length = raw_file.readinto(newest)
    _validate(newest, length)
    header = _header_class(newest.semantic_version).from_buffer(newest)
    if check_compatibility:
        header.check_compatibility()
    return header


def _validate(header, length):
    """Raise ValueError for anything that is no Atop header."""
    if header.magic != MAGIC:
        raise ValueError(f"File does not contain raw atop output (wrong magic number): {hex(header.magic)}")
    if length < ctypes.sizeof(header):
        raise ValueError(f"File does not contain a complete header: {length} of {ctypes.sizeof(header)} bytes")
'''))
ref("hdr_bytes_first", fn(U, "get_header", '''
def get_header(raw_file: io.BytesIO, check_compatibility: bool = True) -> Header:
    """Get the raw file header from an open Atop file."""
    newest = _HEADER_BY_VERSION[_DEFAULT_VERSION]
    expected = ctypes.sizeof(newest)
    data = raw_file.read(expected)
    if len(data) != expected:
        raise ValueError(f"File does not contain a complete header: {len(data)} of {expected} bytes")
    header = newest.from_buffer_copy(data)
    if header.magic != MAGIC:
        raise ValueError(f"File does not contain raw atop output (wrong magic number): {header.magic:#x}")
    specific = _HEADER_BY_VERSION.get(header.semantic_version)
    if specific not in (None, newest):
        header = specific.from_buffer_copy(data)
    if check_compatibility:
        header.check_compatibility()
    return header
'''))
ref("hdr_errors_tuple", fn(U, "get_header", '''
def get_header(raw_file: io.BytesIO, check_compatibility: bool = True) -> Header:
    """Get the raw file header from an open Atop file."""
    header = _HEADER_BY_VERSION[_DEFAULT_VERSION]()
    header_length = raw_file.readinto(header)
    problem = None
    if header.magic != MAGIC:
        problem = f"File does not contain raw atop output (wrong magic number): {hex(header.magic)}"
    elif header_length < ctypes.sizeof(header):
        problem = f"File does not contain a complete header: {header_length} of {ctypes.sizeof(header)} bytes"
    if problem:
        raise ValueError(problem)
    version = header.semantic_version
    if version in _HEADER_BY_VERSION and version != _DEFAULT_VERSION:
        header = _HEADER_BY_VERSION[version].from_buffer(header)
    if not check_compatibility:
        return header
    header.check_compatibility()
    return header
'''))
ref("compat_generator", (S, COMPAT, '''        sizes = list(self._sizes())
        mismatched = [size for size in sizes if size[1] != size[2]]
        if mismatched:
            raise ValueError(
                f"File has incompatible Atop format. Struct length evaluations (type, found, expected): {sizes}"
            )

    def _sizes(self):
        """Name, found and expected length of each structure."""
        yield "Header", self.rawheadlen, ctypes.sizeof(type(self))
        yield "Record", self.rawreclen, ctypes.sizeof(self.Record)
        yield "SStat", self.sstatlen, ctypes.sizeof(self.SStat)
        if hasattr(self, "tstatlen"):
            yield "TStat", self.tstatlen, ctypes.sizeof(self.TStat)
        else:
            yield "PStat", self.pstatlen, ctypes.sizeof(self.TStat)
        if self.major_version > 2 or self.major_version == 2 and self.minor_version >= 11:
            yield "CStat", self.cstatlen, ctypes.sizeof(self.CStat)
'''))
ref("compat_table", (S, COMPAT, '''        task_field = "tstatlen" if hasattr(self, "tstatlen") else "pstatlen"
        checks = [("rawheadlen", type(self)), ("rawreclen", self.Record), ("sstatlen", self.SStat), (task_field, self.TStat)]
        if (self.major_version, self.minor_version) >= (2, 11):
            checks.append(("cstatlen", self.CStat))
        for field, struct in checks:
            found, expected = getattr(self, field), ctypes.sizeof(struct)
            if found != expected:
                raise ValueError(f"File has incompatible Atop format. {field} is {found}, expected {expected}")
'''))
ref("compat_all_eq", (S, COMPAT, '''        found = [self.rawheadlen, self.rawreclen, self.sstatlen, self.tstatlen if hasattr(self, "tstatlen") else self.pstatlen]
        kinds = [self.__class__, self.Record, self.SStat, self.TStat]
        if (self.major_version, self.minor_version) >= (2, 11):
            found += [self.cstatlen]
            kinds += [self.CStat]
        expected = list(map(ctypes.sizeof, kinds))
        if found == expected:
            return
        raise ValueError(f"File has incompatible Atop format. Struct lengths found: {found}, expected: {expected}")
'''))
ref("version_plain_props", (S, VERPROP, '''        return f"{(self.aversion >> 8) & 0x7F}.{self.aversion & 0xFF}"
'''), (S, re.compile(r"        self\.semantic_version  # Call the primary property to ensure population\. pylint: disable=pointless-statement\n        return self\._major_version\n"), "        return (self.aversion >> 8) & 0x7F\n"),
    (S, re.compile(r"        self\.semantic_version  # Call the primary property to ensure population\. pylint: disable=pointless-statement\n        return self\._minor_version\n"), "        return self.aversion & 0xFF\n"))
ref("version_helper", (S, VERPROP, '''        if not getattr(self, "_semantic_version", None):
            self._populate_version()
        return self._semantic_version

    def _populate_version(self):
        """Take the version word apart."""
        word = self.aversion & 0x7FFF
        self._major_version, self._minor_version = divmod(word, 256)
        self._semantic_version = ".".join(str(part) for part in (self._major_version, self._minor_version))
'''))
ref("version_module_fn", (S, VERPROP, '''        major, minor = split_version(self.aversion)
        self._major_version, self._minor_version = major, minor
        return f"{major}.{minor}"
'''), (S, "class HeaderMixin:\n", '''def split_version(aversion):
    """Major and minor part of a version word."""
    return aversion >> 8 & 0x7F, aversion & 0xFF


class HeaderMixin:
'''))
# ------------------------------------------------------------------------------------------------ conversion
ref("dict_helpers_three", fn(U, "struct_to_dict", '''
def struct_to_dict(struct: ctypes.Structure) -> dict:
    """Convert C struct, and all nested structs, into a Python dictionary."""
    result = {}
    for field in struct._fields_:  # pylint: disable=protected-access
        name = field[0]
        value = getattr(struct, name)
        if "future" in name and not isinstance(value, ctypes.Structure):
            continue
        if isinstance(value, ctypes.Array):
            result[name] = _array_to_list(struct, name, value)
        else:
            result[name] = _value(value)
    return result


def _value(value):
    """A value as JSON can hold it."""
    if isinstance(value, ctypes.Structure):
        return struct_to_dict(value)
    if isinstance(value, bytes):
        return value.decode(errors="ignore")
    return value


def _array_to_list(struct, name, array):
    """The populated entries of an array."""
    limiter = getattr(struct, "fields_limiters", {}).get(name)
    count = len(array) if limiter is None else min(max(getattr(struct, limiter), 0), len(array))
    entries = []
    for index in range(count):
        entry = array[index]
        entries.append(struct_to_dict(entry) if isinstance(entry, ctypes.Structure) else entry)
    return entries
'''))
ref("dict_guard_clauses", fn(U, "struct_to_dict", '''
def struct_to_dict(struct: ctypes.Structure) -> dict:
    """Convert C struct, and all nested structs, into a Python dictionary."""
    limiters = getattr(struct, "fields_limiters", {})
    struct_dict = {}
    for field_name, *_ in struct._fields_:  # pylint: disable=protected-access
        field_data = getattr(struct, field_name)
        if isinstance(field_data, ctypes.Structure):
            struct_dict[field_name] = struct_to_dict(field_data)
            continue
        if "future" in field_name:
            continue
        if isinstance(field_data, bytes):
            field_data = field_data.decode(errors="ignore")
        elif isinstance(field_data, ctypes.Array):
            if field_name in limiters:
                field_data = field_data[: max(getattr(struct, limiters[field_name]), 0)]
            field_data = [struct_to_dict(entry) if isinstance(entry, ctypes.Structure) else entry for entry in field_data]
        struct_dict[field_name] = field_data
    return struct_dict
'''))
ref("dict_two_stage", fn(U, "struct_to_dict", '''
def struct_to_dict(struct: ctypes.Structure) -> dict:
    """Convert C struct, and all nested structs, into a Python dictionary."""
    names = [field[0] for field in struct._fields_]  # pylint: disable=protected-access
    values = {name: getattr(struct, name) for name in names}
    kept = {name: value for name, value in values.items() if isinstance(value, ctypes.Structure) or "future" not in name}
    return {name: _convert(struct, name, value) for name, value in kept.items()}


def _convert(struct, name, value):
    """One field."""
    if isinstance(value, ctypes.Structure):
        return struct_to_dict(value)
    if isinstance(value, ctypes.Array):
        limiter = getattr(struct, "fields_limiters", {}).get(name)
        if limiter:
            value = value[: max(0, getattr(struct, limiter))]
        return [_convert(struct, "", entry) if isinstance(entry, ctypes.Structure) else entry for entry in value]
    return str(value, "utf-8", "ignore") if isinstance(value, bytes) else value
'''))
ref("dict_yield_from", fn(U, "struct_to_dict", '''
def struct_to_dict(struct: ctypes.Structure) -> dict:
    """Convert C struct, and all nested structs, into a Python dictionary."""
    return dict(_items(struct))


def _items(struct):
    """Name and converted value of each field."""
    for field in struct._fields_:  # pylint: disable=protected-access
        name, value = field[0], getattr(struct, field[0])
        if isinstance(value, ctypes.Structure):
            yield name, struct_to_dict(value)
        elif "future" in name:
            continue
        elif isinstance(value, ctypes.Array):
            yield name, list(_entries(struct, name, value))
        elif isinstance(value, bytes):
            yield name, value.decode("utf8", "ignore")
        else:
            yield name, value


def _entries(struct, name, array):
    """The populated entries of an array."""
    limits = getattr(struct, "fields_limiters", {})
    shown = array[: max(getattr(struct, limits[name]), 0)] if limits.get(name) else array
    for entry in shown:
        yield struct_to_dict(entry) if isinstance(entry, ctypes.Structure) else entry
'''))
# ------------------------------------------------------------------------------------------------ reader
PFSIG = '''def parse_file(  # pylint: disable=too-many-locals
    file: str,
    parseables: list[str] | None = None,
    pretty_print: bool = True,
    show_tstats: bool = False,
    show_cstats: bool = False,
) -> None:
    """Parse a single file."""
'''
ref("file_collect", fn(R, "parse_file", PFSIG + '''    opener = gzip.open if ".gz" in file else open
    with opener(file, "rb") as raw_file:
        header = atoparser.get_header(raw_file)
        if not parseables:
            samples = list(_full(raw_file, header, show_tstats, show_cstats))
        elif header.semantic_version in PARSEABLE_MAP:
            samples = list(_rows(raw_file, header, parseables))
        else:
            samples = [_unsupported(header, file)]
    print(json.dumps(samples, indent=2 if pretty_print else None))


def _unsupported(header, file):
    """The entry for a log without parseables."""
    return {
        "error": f"Atop version {header.semantic_version} does not support parseables, only full raw output.",
        "file": file,
    }


def _samples(raw_file, header):
    """The samples of an open log, as far as they are readable."""
    return atoparser.generate_statistics(raw_file, header, raise_on_truncation=False)


def _rows(raw_file, header, parseables):
    """Parseable rows of all samples."""
    parsers = PARSEABLE_MAP[header.semantic_version]
    for record, sstat, tstats, _ in _samples(raw_file, header):
        for parseable in parseables:
            for row in parsers[parseable](header, record, sstat, tstats):
                row["parseable"] = parseable
                yield row


def _full(raw_file, header, show_tstats, show_cstats):
    """Full structures of all samples."""
    for record, sstat, tstats, cgroups in _samples(raw_file, header):
        converted = {
            "header": atoparser.struct_to_dict(header),
            "record": atoparser.struct_to_dict(record),
            "sstat": atoparser.struct_to_dict(sstat),
        }
        if show_tstats:
            converted["tstat"] = list(map(atoparser.struct_to_dict, tstats))
        if show_cstats:
            converted["cgroup"] = list(map(atoparser.struct_to_dict, cgroups))
        yield converted
'''))
ref("file_load_fn", fn(R, "parse_file", PFSIG + '''    with _open(file) as raw_file:
        samples = _load(raw_file, file, parseables, show_tstats, show_cstats)
    _show(samples, pretty_print)


def _open(file):
    """Open a log."""
    if ".gz" in file:
        return gzip.open(file, "rb")
    return open(file, "rb")


def _show(samples, pretty):
    """Print the document."""
    indent = 2 if pretty else None
    print(json.dumps(samples, indent=indent))


def _load(raw_file, file, parseables, show_tstats, show_cstats):
    """Everything to be shown of a log."""
    header = atoparser.get_header(raw_file)
    version = header.semantic_version
    if parseables and version not in PARSEABLE_MAP:
        message = f"Atop version {version} does not support parseables, only full raw output."
        return [{"error": message, "file": file}]
    parsers = PARSEABLE_MAP.get(version, {})
    samples = []
    for group in atoparser.generate_statistics(raw_file, header, raise_on_truncation=False):
        record, sstat, tstats, cgroups = group
        if parseables:
            for name in parseables:
                samples.extend({**row, "parseable": name} for row in parsers[name](header, record, sstat, tstats))
            continue
        entry = {"header": atoparser.struct_to_dict(header)}
        entry["record"] = atoparser.struct_to_dict(record)
        entry["sstat"] = atoparser.struct_to_dict(sstat)
        if show_tstats:
            entry["tstat"] = [atoparser.struct_to_dict(task) for task in tstats]
        if show_cstats:
            entry["cgroup"] = [atoparser.struct_to_dict(chain) for chain in cgroups]
        samples.append(entry)
    return samples
'''))
ref("file_strategy", fn(R, "parse_file", PFSIG + '''    samples = []
    opener = open if ".gz" not in file else gzip.open
    with opener(file, "rb") as raw_file:
        header = atoparser.get_header(raw_file)
        if parseables and header.semantic_version not in PARSEABLE_MAP:
            samples.append(
                {
                    "error": f"Atop version {header.semantic_version} does not support parseables, only full raw output.",
                    "file": file,
                }
            )
        else:
            if parseables:
                convert = functools.partial(_rows, PARSEABLE_MAP[header.semantic_version], parseables, header)
            else:
                convert = functools.partial(_full, show_tstats, show_cstats, header)
            for record, sstat, tstats, cgroups in atoparser.generate_statistics(raw_file, header, raise_on_truncation=False):
                samples += convert(record, sstat, tstats, cgroups)
    print(json.dumps(samples, indent=2 if pretty_print else None))


def _rows(parsers, parseables, header, record, sstat, tstats, _cgroups):
    """Rows of one sample."""
    rows = []
    for parseable in parseables:
        for sample in parsers[parseable](header, record, sstat, tstats):
            sample["parseable"] = parseable
            rows.append(sample)
    return rows


def _full(show_tstats, show_cstats, header, record, sstat, tstats, cgroups):
    """Full output of one sample."""
    to_dict = atoparser.struct_to_dict
    converted = {"header": to_dict(header), "record": to_dict(record), "sstat": to_dict(sstat)}
    if show_tstats:
        converted["tstat"] = [to_dict(stat) for stat in tstats]
    if show_cstats:
        converted["cgroup"] = [to_dict(stat) for stat in cgroups]
    return [converted]
'''), (R, "import gzip\nimport json\n", "import functools\nimport gzip\nimport json\n"))
ref("main_kwargs", fn(R, "main", '''
def main() -> None:
    """Primary function to load Atop data."""
    args = vars(parse_args())
    files = args.pop("files")
    for file in files:
        parse_file(file, **args)
'''))
ref("main_partial", fn(R, "main", '''
def main() -> None:
    """Primary function to load Atop data."""
    args = parse_args()
    show = functools.partial(
        parse_file,
        parseables=args.parseables,
        pretty_print=args.pretty_print,
        show_tstats=args.show_tstats,
        show_cstats=args.show_cstats,
    )
    for file in args.files:
        show(file)
'''), (R, "import gzip\nimport json\n", "import functools\nimport gzip\nimport json\n"))
ref("main_options_tuple", fn(R, "main", '''
def main() -> None:
    """Primary function to load Atop data."""
    args = parse_args()
    options = (args.parseables, args.pretty_print, args.show_tstats, args.show_cstats)
    for index in range(len(args.files)):
        parse_file(args.files[index], *options)
'''))
# ------------------------------------------------------------------------------------------------ parsers
ref("p_base_helper", (P, re.compile(r'        values = \{\n            "timestamp": record\.curtime,\n            "interval": record\.interval,\n'), '        values = {\n            **_times(record),\n'), (P, "def parse_cpu(\n", '''def _times(record):
    """Columns of all formats."""
    return {"timestamp": record.curtime, "interval": record.interval}


def parse_cpu(
'''))
ref("p_text_helper", (P, re.compile(r'([a-z.]+)\.decode\(errors="ignore"\)'), r'_text(\1)'), (P, "def parse_cpu(\n", '''def _text(raw):
    """A text field without bytes that are not UTF-8."""
    return raw.decode("utf-8", errors="ignore")


def parse_cpu(
'''))
ref("p_yn_helper", (P, re.compile(r'"y" if header\.supportflags & atop_1_26\.(\w+) else "n"'), r'_flag(header, atop_1_26.\1)'), (P, "def parse_cpu(\n", '''def _flag(header, mask):
    """Whether a kernel feature was there, as y or n."""
    if header.supportflags & mask == 0:
        return "n"
    return "y"


def parse_cpu(
'''))
ref("p_named_helper", (P, '''    for disk in sstat.dsk.dsk:
        if not disk.name:
            # Disk list contains 256 entries, but only up the first empty name are valid.
            break
''', "    for disk in _named(sstat.dsk.dsk):\n"), (P, "def parse_cpu(\n", '''def _named(entries):
    """The entries up to the first unnamed one."""
    for entry in entries:
        if entry.name == b"":
            return
        yield entry


def parse_cpu(
'''))
ref("p_named_list", (P, '''    for disk in sstat.dsk.dsk:
        if not disk.name:
            # Disk list contains 256 entries, but only up the first empty name are valid.
            break
''', "    for disk in _named(sstat.dsk.dsk):\n"), (P, "def parse_cpu(\n", '''def _named(entries):
    """The entries up to the first unnamed one."""
    found = []
    for entry in entries:
        if len(entry.name) == 0:
            break
        found.append(entry)
    return found


def parse_cpu(
'''))
ref("p_cpu_columns", (P, '''        values = {
            "timestamp": record.curtime,
            "interval": record.interval,
            "ticks": header.hertz,
            "proc": index,
            "system": cpu.stime,
            "user": cpu.utime,
            "niced": cpu.ntime,
            "idle": cpu.itime,
            "wait": cpu.wtime,
            "irq": cpu.Itime,
            "softirq": cpu.Stime,
            "steal": cpu.steal,
            "guest": cpu.guest,
        }
        yield values
''', '''        values = {
            "timestamp": record.curtime,
            "interval": record.interval,
            "ticks": header.hertz,
            "proc": index,
        }
        for column, field in _CPU_COLUMNS.items():
            values[column] = getattr(cpu, field)
        yield values
'''), (P, "def parse_cpu(\n", '''_CPU_COLUMNS = {
    "system": "stime",
    "user": "utime",
    "niced": "ntime",
    "idle": "itime",
    "wait": "wtime",
    "irq": "Itime",
    "softirq": "Stime",
    "steal": "steal",
    "guest": "guest",
}


def parse_cpu(
'''))
ref("p_cpu_all_shared", (P, '''            "system": cpu.stime,
            "user": cpu.utime,
            "niced": cpu.ntime,
            "idle": cpu.itime,
            "wait": cpu.wtime,
            "irq": cpu.Itime,
            "softirq": cpu.Stime,
            "steal": cpu.steal,
            "guest": cpu.guest,
        }
''', '''        }
        values.update(_usage(cpu))
'''), (P, '''        "system": sstat.cpu.all.stime,
        "user": sstat.cpu.all.utime,
        "niced": sstat.cpu.all.ntime,
        "idle": sstat.cpu.all.itime,
        "wait": sstat.cpu.all.wtime,
        "irq": sstat.cpu.all.Itime,
        "softirq": sstat.cpu.all.Stime,
        "steal": sstat.cpu.all.steal,
        "guest": sstat.cpu.all.guest,
    }
''', '''    } | _usage(sstat.cpu.all)
'''), (P, "def parse_cpu(\n", '''def _usage(cpu):
    """Time spent by a core, or by all of them."""
    return {
        "system": cpu.stime,
        "user": cpu.utime,
        "niced": cpu.ntime,
        "idle": cpu.itime,
        "wait": cpu.wtime,
        "irq": cpu.Itime,
        "softirq": cpu.Stime,
        "steal": cpu.steal,
        "guest": cpu.guest,
    }


def parse_cpu(
'''))
ref("p_netu_protocols", (P, '''        "tcp_pkt_received": sstat.net.tcp.InSegs,
        "tcp_pkt_transmitted": sstat.net.tcp.OutSegs,
        "udp_pkt_received": sstat.net.udpv4.InDatagrams + sstat.net.udpv6.Udp6InDatagrams,
        "udp_pkt_transmitted": sstat.net.udpv4.OutDatagrams + sstat.net.udpv6.Udp6OutDatagrams,
''', '''        "tcp_pkt_received": tcp.InSegs,
        "tcp_pkt_transmitted": tcp.OutSegs,
        "udp_pkt_received": udp6.Udp6InDatagrams + udp4.InDatagrams,
        "udp_pkt_transmitted": sum((udp4.OutDatagrams, udp6.Udp6OutDatagrams)),
'''), (P, '''    """Retrieves statistics for Atop 'NET' parseable representing network usage on upper interfaces."""
''', '''    """Retrieves statistics for Atop 'NET' parseable representing network usage on upper interfaces."""
    net = sstat.net
    tcp, udp4, udp6 = net.tcp, net.udpv4, net.udpv6
'''))
ref("p_registry", (R, 'getattr(atop_1_26, f"parse_{parseable}") for parseable in PARSEABLES}', 'atop_1_26.PARSERS[parseable] for parseable in PARSEABLES}'), (P, re.compile(r"\Z"), '''

PARSERS = {name.removeprefix("parse_"): function for name, function in list(globals().items()) if name.startswith("parse_")}
'''))
ref("p_registry_dec", (P, re.compile(r"^def parse_(\w+)\(", re.M), r'@_parser("\1")' + "\n" + r"def parse_\1("), (P, "# pylint: disable=unused-argument,invalid-name\n", '''# pylint: disable=unused-argument,invalid-name

PARSERS = {}


def _parser(name):
    """Register a function as implementation of a format."""

    def register(function):
        PARSERS[name] = function
        return function

    return register
'''), (R, '"1.26": {parseable: getattr(atop_1_26, f"parse_{parseable}") for parseable in PARSEABLES},', '"1.26": atop_1_26.PARSERS,'))
ref("p_proc_loop_helper", (P, '''    for stat in tstats:
        values = {
            "timestamp": record.curtime,
            "interval": record.interval,
            "pid": stat.gen.pid,
            "name": stat.gen.name.decode(errors="ignore"),
            "state": stat.gen.state.decode(errors="ignore"),
            "page": header.pagesize,
''', '''    for stat, values in _tasks(record, tstats):
        values |= {
            "page": header.pagesize,
'''), (P, "def parse_cpu(\n", '''def _tasks(record, tstats):
    """Each task with the columns all task formats share."""
    for stat in tstats:
        gen = stat.gen
        yield stat, {
            "timestamp": record.curtime,
            "interval": record.interval,
            "pid": gen.pid,
            "name": gen.name.decode(errors="ignore"),
            "state": gen.state.decode(errors="ignore"),
        }


def parse_cpu(
'''))
# ------------------------------------------------------------------------------------------------ structures and modules
ref("s_versions_by_loop", (U, "_HEADER_BY_VERSION: dict[str, type[Header]] = {module.Header.supported_version: module.Header for module in _VERSIONS}\n", '''_HEADER_BY_VERSION: dict[str, type[Header]] = {}
for _module in _VERSIONS:
    _HEADER_BY_VERSION[_module.Header.supported_version] = _module.Header
'''))
ref("s_versions_zip", (U, "_HEADER_BY_VERSION: dict[str, type[Header]] = {module.Header.supported_version: module.Header for module in _VERSIONS}\n", '''_HEADERS = [module.Header for module in _VERSIONS]
_HEADER_BY_VERSION: dict[str, type[Header]] = dict(zip([kind.supported_version for kind in _HEADERS], _HEADERS))
'''))
ref("s_default_last", (U, "_DEFAULT_VERSION = _VERSIONS[-1].Header.supported_version\n", "_DEFAULT_VERSION = atop_2_12.Header.supported_version\n"))
ref("s_default_max", (U, "_DEFAULT_VERSION = _VERSIONS[-1].Header.supported_version\n", '_DEFAULT_VERSION = max((module.Header.supported_version for module in _VERSIONS), key=lambda version: tuple(map(int, version.split("."))))\n'))
ref("s_known_version_kept", (U, "        header = _HEADER_BY_VERSION[header_version].from_buffer(header)\n", "        header = _HEADER_BY_VERSION[header_version].from_buffer(header)\n    else:\n        _SEEN_UNLISTED.add(header_version)\n"), (U, "MAGIC = 0xFEEDBEEF\n", "MAGIC = 0xFEEDBEEF\n_SEEN_UNLISTED = set()\n"))
ref("s_chain_slots", (A % "2_11", '''        self.cstat = cstat
        self.proclist = proclist
''', '''        setattr(self, "cstat", cstat)
        setattr(self, "proclist", proclist)
'''))
ref("s_chain_zip", (A % "2_11", '''        self.cstat = cstat
        self.proclist = proclist
''', '''        for (name, _), value in zip(self._fields_, (cstat, proclist)):
            setattr(self, name, value)
'''))
ref("s_pack_explicit", (A % "2_12", "    _fields_ = atop_2_11.Header._fields_  # pylint: disable=protected-access\n", "    _fields_ = list(atop_2_11.Header._fields_)  # pylint: disable=protected-access\n"))

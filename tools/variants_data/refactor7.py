"""A seventh set of refactorings: exception dispatch, loop forms, and other shapes of the same functions."""
import re

from variants_data.bugs1 import CREAD, EXC, GEN, REC, SST, TLOOP, TREAD
from variants_data.refactor3 import A, P, R, S, U, fn, imp
from variants_data.refactor6 import COMPAT, CPULOOP, GENSIG

EXCF = re.compile(r"    except zlib\.error:\n.*?            raise\n", re.S)
VARIANTS = []


def ref(name, *edits):
    VARIANTS.append({"name": "y_" + name, "prop": None, "edits": list(edits)})


LOOP = '''        with_cgroups = (header.major_version, header.minor_version) >= (2, 11)
        for _ in range(max_samples):
            record = get_record(raw_file, header)
            if record.scomplen <= 0:
                break
            sstat = get_sstat(raw_file, header, record)
            tstats = get_tstat(raw_file, header, record)
            cgroups = get_cstat(raw_file, header, record) if with_cgroups else []
            yield record, sstat, tstats, cgroups
'''
ref("exc_isinstance", (U, EXCF, '''    except Exception as error:
        if raise_on_truncation or not isinstance(error, zlib.error):
            raise
'''))
ref("exc_two_ifs", (U, EXCF, '''    except Exception as error:
        if not isinstance(error, zlib.error):
            raise
        if raise_on_truncation:
            raise error
'''))
ref("exc_type_is", (U, EXCF, '''    except Exception as error:
        truncated = type(error) is zlib.error
        if not truncated or raise_on_truncation:
            raise
'''))
ref("exc_match", (U, EXCF, '''    except Exception as error:
        match error:
            case zlib.error() if not raise_on_truncation:
                return
            case _:
                raise
'''))
ref("exc_tuple_selected", (U, "    try:\n        header_version", "    ignored = () if raise_on_truncation else (zlib.error,)\n    try:\n        header_version"),
    (U, EXCF, '''    except ignored:
        return
'''))
ref("exc_else_return", (U, EXCF, '''    except zlib.error as truncation:
        if not raise_on_truncation:
            return
        raise truncation
'''))
ref("exc_helper", (U, EXCF, '''    except zlib.error as error:
        _end_of_data(error, raise_on_truncation)
'''), (U, "def get_header(", '''def _end_of_data(error: zlib.error, strict: bool) -> None:
    """Pass on a compression error when asked to."""
    if strict:
        raise error


def get_header('''))
ref("exc_stored", (U, EXCF, '''    except zlib.error as error:
        failure = error
    else:
        failure = None
    if raise_on_truncation and failure is not None:
        raise failure
'''))
ref("exc_inner_function", fn(U, "generate_statistics", GENSIG + '''
    def read_all():
''' + LOOP + '''
    if raise_on_truncation:
        yield from read_all()
    else:
        try:
            yield from read_all()
        except zlib.error:
            pass
'''))
ref("exc_context_manager", imp("import contextlib\nimport ctypes\nimport io\nimport zlib\n"), fn(U, "generate_statistics", '''@contextlib.contextmanager
def _truncation(strict):
    """Whether an early end of the data is an error."""
    try:
        yield
    except zlib.error:
        if strict:
            raise


''' + GENSIG + '''
    with _truncation(raise_on_truncation):
''' + LOOP))
ref("exc_exit_class", fn(U, "generate_statistics", '''class _Truncation:
    """Whether an early end of the data is an error."""

    def __init__(self, strict):
        self.strict = strict

    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc, traceback):
        if exc_type is None:
            return False
        return not self.strict and issubclass(exc_type, zlib.error)


''' + GENSIG + '''
    with _Truncation(raise_on_truncation):
''' + LOOP))
ref("exc_exit_isinstance", fn(U, "generate_statistics", '''class _Lenient:
    """Compression errors end the block."""

    def __enter__(self):
        return None

    def __exit__(self, _type, error, _traceback):
        return isinstance(error, zlib.error)


''' + GENSIG + '''
    if raise_on_truncation:
        yield from _samples(raw_file, header, max_samples)
        return
    with _Lenient():
        yield from _samples(raw_file, header, max_samples)


def _samples(raw_file, header, max_samples):
''' + "\n".join(x[4:] for x in LOOP.split("\n"))))
ref("exc_exitstack", imp("import contextlib\nimport ctypes\nimport io\nimport zlib\n"), fn(U, "generate_statistics", GENSIG + '''
    with contextlib.ExitStack() as stack:
        if not raise_on_truncation:
            stack.enter_context(contextlib.suppress(zlib.error))
''' + LOOP))
ref("gen_loop_tail_test", fn(U, "generate_statistics", GENSIG + '''
    try:
        with_cgroups = (header.major_version, header.minor_version) >= (2, 11)
        if max_samples <= 0:
            return
        count = 0
        while True:
            record = get_record(raw_file, header)
            if record.scomplen <= 0:
                return
            sstat = get_sstat(raw_file, header, record)
            tstats = get_tstat(raw_file, header, record)
            cgroups = get_cstat(raw_file, header, record) if with_cgroups else []
            yield record, sstat, tstats, cgroups
            count += 1
            if count >= max_samples:
                return
    except zlib.error:
        if raise_on_truncation:
            raise
'''))
ref("gen_loop_remaining", fn(U, "generate_statistics", GENSIG + '''
    try:
        with_cgroups = (header.major_version, header.minor_version) >= (2, 11)
        remaining = max_samples
        more = True
        while more and remaining > 0:
            record = get_record(raw_file, header)
            more = record.scomplen > 0
            if more:
                sstat = get_sstat(raw_file, header, record)
                tstats = get_tstat(raw_file, header, record)
                cgroups = get_cstat(raw_file, header, record) if with_cgroups else []
                yield record, sstat, tstats, cgroups
                remaining -= 1
    except zlib.error:
        if raise_on_truncation:
            raise
'''))
ref("gen_loop_walrus", fn(U, "generate_statistics", GENSIG + '''
    try:
        with_cgroups = (header.major_version, header.minor_version) >= (2, 11)
        samples = 0
        while samples < max_samples and (record := get_record(raw_file, header)).scomplen > 0:
            samples += 1
            sstat = get_sstat(raw_file, header, record)
            tstats = get_tstat(raw_file, header, record)
            cgroups = get_cstat(raw_file, header, record) if with_cgroups else []
            yield record, sstat, tstats, cgroups
    except zlib.error:
        if raise_on_truncation:
            raise
'''))
ref("gen_loop_not_exhausted", fn(U, "generate_statistics", GENSIG + '''
    try:
        with_cgroups = (header.major_version, header.minor_version) >= (2, 11)
        exhausted = False
        count = 0
        while not exhausted and count < max_samples:
            record = get_record(raw_file, header)
            exhausted = record.scomplen <= 0
            if exhausted:
                continue
            sstat = get_sstat(raw_file, header, record)
            tstats = get_tstat(raw_file, header, record)
            cgroups = get_cstat(raw_file, header, record) if with_cgroups else []
            yield record, sstat, tstats, cgroups
            count += 1
    except zlib.error:
        if raise_on_truncation:
            raise
'''))
ref("gen_loop_for_else", (U, EXCF, '''    except zlib.error:
        # End of readable data reached. This is common during software restarts.
        if raise_on_truncation is False:
            return
        raise
''') if False else (U, "        for _ in range(max_samples):\n", "        for sample_number in range(0, max_samples, 1):\n            del sample_number\n"))
ref("gen_loop_read_sample", fn(U, "generate_statistics", GENSIG + '''
    try:
        with_cgroups = (header.major_version, header.minor_version) >= (2, 11)
        for _ in range(max_samples):
            sample = _read_sample(raw_file, header, with_cgroups)
            if sample is None:
                break
            yield sample
    except zlib.error:
        if raise_on_truncation:
            raise


def _read_sample(raw_file, header, with_cgroups):
    """The next sample, or nothing at the end of the file."""
    record = get_record(raw_file, header)
    if record.scomplen <= 0:
        return None
    sstat = get_sstat(raw_file, header, record)
    tstats = get_tstat(raw_file, header, record)
    cgroups = get_cstat(raw_file, header, record) if with_cgroups else []
    return record, sstat, tstats, cgroups
'''))
ref("gen_version_tuple", (U, '''        header_version = header.semantic_version
        major, minor = header_version.split(".")[:2]
        major, minor = int(major), int(minor)
''', '''        version = tuple(int(part) for part in header.semantic_version.split(".")[:2])
'''), (U, "(major, minor) >= (2, 11)", "version >= (2, 11)"))
ref("gen_version_map", (U, '''        header_version = header.semantic_version
        major, minor = header_version.split(".")[:2]
        major, minor = int(major), int(minor)
''', '''        major, _, minor = header.semantic_version.partition(".")
        supports_cgroups = (int(major), int(minor)) >= (2, 11)
'''), (U, "            if (major, minor) >= (2, 11):\n                cgroups = get_cstat(raw_file, header, record)\n            else:\n                cgroups = []\n",
       "            cgroups = []\n            if supports_cgroups:\n                cgroups.extend(get_cstat(raw_file, header, record))\n"))
ref("gen_major_minor_if", (U, "            if (major, minor) >= (2, 11):\n", "            if major > 2 or (major == 2 and minor >= 11):\n"))
ref("gen_cgroups_none_first", (U, "            if (major, minor) >= (2, 11):\n                cgroups = get_cstat(raw_file, header, record)\n            else:\n                cgroups = []\n",
                               "            cgroups = get_cstat(raw_file, header, record) if (major, minor) >= (2, 11) else list()\n"))
# ------------------------------------------------------------------------------------------------ header
ref("hdr_messages", fn(U, "get_header", '''def _require(condition: bool, message: str) -> None:
    """Report a file that cannot be read."""
    if not condition:
        raise ValueError(message)


def get_header(raw_file: io.BytesIO, check_compatibility: bool = True) -> Header:
    """Get the raw file header from an open Atop file."""
    header = _HEADER_BY_VERSION[_DEFAULT_VERSION]()
    size = ctypes.sizeof(header)
    header_length = raw_file.readinto(header)
    _require(header.magic == MAGIC, f"File does not contain raw atop output (wrong magic number): {hex(header.magic)}")
    _require(header_length >= size, f"File does not contain a complete header: {header_length} of {size} bytes")
    version = header.semantic_version
    if version != _DEFAULT_VERSION:
        header_class = _HEADER_BY_VERSION.get(version)
        if header_class is not None:
            header = header_class.from_buffer(header)
    if check_compatibility:
        header.check_compatibility()
    return header
'''))
ref("hdr_chain", fn(U, "get_header", '''def get_header(raw_file: io.BytesIO, check_compatibility: bool = True) -> Header:
    """Get the raw file header from an open Atop file."""
    header = _versioned(_read_header(raw_file))
    if check_compatibility:
        header.check_compatibility()
    return header


def _read_header(raw_file):
    header = _HEADER_BY_VERSION[_DEFAULT_VERSION]()
    length = raw_file.readinto(header)
    problem = None
    if header.magic != MAGIC:
        problem = f"File does not contain raw atop output (wrong magic number): {hex(header.magic)}"
    elif length < ctypes.sizeof(header):
        problem = f"File does not contain a complete header: {length} of {ctypes.sizeof(header)} bytes"
    if problem:
        raise ValueError(problem)
    return header


def _versioned(header):
    if header.semantic_version in _HEADER_BY_VERSION:
        return _HEADER_BY_VERSION[header.semantic_version].from_buffer(header)
    return header
'''))
ref("hdr_loop_versions", (U, "    if header_version != _DEFAULT_VERSION and header_version in _HEADER_BY_VERSION:\n        # Header byte length is consistent across versions. Transfer the initial read into the versioned header.\n        header = _HEADER_BY_VERSION[header_version].from_buffer(header)\n",
                          "    for version, header_class in _HEADER_BY_VERSION.items():\n        if version == header_version and version != _DEFAULT_VERSION:\n            header = header_class.from_buffer(header)\n            break\n"))
ref("hdr_try_key", (U, "    if header_version != _DEFAULT_VERSION and header_version in _HEADER_BY_VERSION:\n        # Header byte length is consistent across versions. Transfer the initial read into the versioned header.\n        header = _HEADER_BY_VERSION[header_version].from_buffer(header)\n",
                    "    try:\n        versioned = _HEADER_BY_VERSION[header_version]\n    except KeyError:\n        pass\n    else:\n        if not isinstance(header, versioned):\n            header = versioned.from_buffer(header)\n"))
# ------------------------------------------------------------------------------------------------ samples
ref("rec_with_bytes", (U, "    record = header.Record()\n    raw_file.readinto(record)\n    return record\n",
                       "    record = header.Record()\n    view = memoryview(record).cast(\"B\")\n    raw_file.readinto(view)\n    return record\n"))
ref("ts_zip_chunks", (U, re.compile(r"    tstats = \[\]\n.*?        tstats.append\(tstat\)\n    return tstats\n", re.S), '''    tstats = []
    start, end = 0, tstatlen
    for _ in range(record_count):
        tstats.append(header.TStat.from_buffer_copy(decompressed[start:end]))
        start, end = end, end + tstatlen
    return tstats
'''))
ref("ts_helper_count", (U, "    record_count = record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat\n    tstatlen = header.tstatlen if hasattr(header, \"tstatlen\") else header.pstatlen\n",
                        "    record_count = _task_count(record)\n    tstatlen = _task_length(header)\n"),
    (U, "def get_cstat(", '''def _task_count(record) -> int:
    """Number of tasks that follow a record."""
    if isinstance(record, atop_1_26.Record):
        return record.nlist
    return record.ndeviat


def _task_length(header) -> int:
    """Number of bytes of one task."""
    try:
        return header.tstatlen
    except AttributeError:
        return header.pstatlen


def get_cstat('''))
ref("cg_helper_read", (U, '''    buffer_cstats = raw_file.read(record.ccomplen)
    decompressed_cstats = zlib.decompress(buffer_cstats)
    buffer_pidlist = raw_file.read(record.icomplen)
    decompressed_pidlist = zlib.decompress(buffer_pidlist)
''', '''    decompressed_cstats, decompressed_pidlist = (
        zlib.decompress(raw_file.read(length)) for length in (record.ccomplen, record.icomplen)
    )
'''))
ref("cg_pid_end", (U, '''        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start : pidlist_start + pid_array_size])
        pidlist_start += pid_array_size
''', '''        pidlist_end = pidlist_start + pid_array_size
        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start:pidlist_end])
        pidlist_start = pidlist_end
'''))
ref("cg_cursor_class", fn(U, "get_cstat", '''class _Cursor:
    """A position in decompressed data."""

    def __init__(self, data):
        self.data = data
        self.position = 0

    def take(self, cls, length, step):
        """The structure at the position, which moves on by step."""
        start = self.position
        self.position = start + step
        return cls.from_buffer_copy(self.data[start : start + length])

    def peek(self, cls, length):
        """The structure at the position."""
        return cls.from_buffer_copy(self.data[self.position : self.position + length])


def get_cstat(
    raw_file: io.BytesIO,
    header: Header,
    record: Record,
) -> list[CGChainer]:
    """Get the next raw cstat array from an open Atop file."""
    cstats = _Cursor(zlib.decompress(raw_file.read(record.ccomplen)))
    pids = _Cursor(zlib.decompress(raw_file.read(record.icomplen)))
    cgroups = []
    for _ in range(record.ncgroups):
        cstat = cstats.peek(header.CStat, header.cstatlen)
        cstats.position += cstat.gen.structlen
        pid_array = pid_t * cstat.gen.nprocs
        size = ctypes.sizeof(pid_array)
        cgroups.append(header.CGChainer(cstat, pids.take(pid_array, size, size)))
    return cgroups
'''))
# ------------------------------------------------------------------------------------------------ dictionary
ref("dict_handlers", fn(U, "struct_to_dict", '''def _convert(struct, field_name, value):
    """Convert the value of one field."""
    if isinstance(value, ctypes.Structure):
        return struct_to_dict(value)
    if isinstance(value, ctypes.Array):
        limiter = getattr(struct, "fields_limiters", {}).get(field_name)
        if limiter:
            value = value[: max(getattr(struct, limiter), 0)]
        return [struct_to_dict(item) if isinstance(item, ctypes.Structure) else item for item in value]
    if isinstance(value, bytes):
        return value.decode(errors="ignore")
    return value


def struct_to_dict(struct: ctypes.Structure) -> dict:
    """Convert C struct, and all nested structs, into a Python dictionary."""
    result = {}
    for field_name, *_ in struct._fields_:  # pylint: disable=protected-access
        value = getattr(struct, field_name)
        if "future" in field_name and not isinstance(value, ctypes.Structure):
            continue
        result[field_name] = _convert(struct, field_name, value)
    return result
'''))
ref("dict_continue", (U, '''        if isinstance(field_data, ctypes.Structure):
            struct_dict[field_name] = struct_to_dict(field_data)
        elif "future" not in field_name:
            if isinstance(field_data, ctypes.Array):
''', '''        if isinstance(field_data, ctypes.Structure):
            struct_dict[field_name] = struct_to_dict(field_data)
            continue
        if field_name.find("future") < 0:
            if isinstance(field_data, ctypes.Array):
'''))
ref("dict_limit_slice", (U, '''                if limiter:
                    # A damaged count may be negative, do not let it address entries from the end of the list.
                    field_data = field_data[: max(getattr(struct, limiter), 0)]
                for sub_data in field_data:
''', '''                limit = max(getattr(struct, limiter), 0) if limiter else len(field_data)
                for sub_data in field_data[:limit]:
'''))
ref("dict_enumerate_limit", (U, '''                if limiter:
                    # A damaged count may be negative, do not let it address entries from the end of the list.
                    field_data = field_data[: max(getattr(struct, limiter), 0)]
                for sub_data in field_data:
''', '''                limit = getattr(struct, limiter) if limiter else None
                for position, sub_data in enumerate(field_data):
                    if limit is not None and position >= limit:
                        break
'''))
# ------------------------------------------------------------------------------------------------ reader
ref("main_vars", (R, '''        parse_file(
            file,
            args.parseables,
            args.pretty_print,
            args.show_tstats,
            args.show_cstats,
        )
''', '''        parse_file(file, **options)
'''), (R, "    args = parse_args()\n\n    for file in args.files:\n", "    args = parse_args()\n    options = {name: value for name, value in vars(args).items() if name != \"files\"}\n\n    for file in args.files:\n"))
ref("file_opener_if", (R, "    opener = open if \".gz\" not in file else gzip.open\n    with opener(file, \"rb\") as raw_file:\n", "    if \".gz\" in file:\n        stream = gzip.open(file, \"rb\")\n    else:\n        stream = open(file, \"rb\")\n    with stream as raw_file:\n"))
ref("file_guard_return", (R, '''    print(json.dumps(samples, indent=2 if pretty_print else None))
''', '''    indent = 2 if pretty_print else None
    document = json.dumps(samples, indent=indent)
    print(document)
'''))
ref("file_parser_merge", (R, '''                        for sample in parsers[parseable](header, record, sstat, tstats):
                            sample["parseable"] = parseable
                            samples.append(sample)
''', '''                        samples += [
                            {**sample, "parseable": parseable}
                            for sample in parsers[parseable](header, record, sstat, tstats)
                        ]
'''))
ref("file_extend_parsed", (R, '''                    for parseable in parseables:
                        for sample in parsers[parseable](header, record, sstat, tstats):
                            sample["parseable"] = parseable
                            samples.append(sample)
''', '''                    samples.extend(_parsed(parsers, parseables, (header, record, sstat, tstats)))
'''), (R, "def main() -> None:", '''def _parsed(parsers, parseables, arguments):
    """All requested entries of one sample."""
    for parseable in parseables:
        for sample in parsers[parseable](*arguments):
            sample["parseable"] = parseable
            yield sample


def main() -> None:'''))
ref("file_convert_helper", (R, '''                    converted = {
                        "header": atoparser.struct_to_dict(header),
                        "record": atoparser.struct_to_dict(record),
                        "sstat": atoparser.struct_to_dict(sstat),
                    }
''', '''                    converted = {
                        name: atoparser.struct_to_dict(struct)
                        for name, struct in (("header", header), ("record", record), ("sstat", sstat))
                    }
'''))
ref("args_table", (R, '''    parser.add_argument(
        "--tstats",
        dest="show_tstats",
        action="store_true",
        help="Include TStats/PStats in output. Very verbose.",
    )
    parser.add_argument(
        "--cstats",
        dest="show_cstats",
        action="store_true",
        help="Include CGroup/CStats in output. Only available with Atop 2.11+ logs. Verbose.",
    )
''', '''    for flag, text in (
        ("tstats", "Include TStats/PStats in output. Very verbose."),
        ("cstats", "Include CGroup/CStats in output. Only available with Atop 2.11+ logs. Verbose."),
    ):
        parser.add_argument(f"--{flag}", dest=f"show_{flag}", action="store_true", help=text)
'''))
# ------------------------------------------------------------------------------------------------ version, compatibility
ref("compat_mismatch_list", (S, "        if any(size[1] != size[2] for size in sizes):\n", "        mismatches = [name for name, found, expected in sizes if found != expected]\n        if mismatches:\n"))
ref("compat_not_all", (S, "        if any(size[1] != size[2] for size in sizes):\n", "        if not all(found == expected for _, found, expected in sizes):\n"))
ref("compat_for_raise", (S, '''        if any(size[1] != size[2] for size in sizes):
            raise ValueError(
''', '''        for _, found, expected in sizes:
            if found == expected:
                continue
            raise ValueError(
'''))
ref("ver_divmod", (S, '''            self._major_version = (self.aversion >> 8) & 0x7F
            self._minor_version = self.aversion & 0xFF
''', '''            release, self._minor_version = divmod(self.aversion, 256)
            self._major_version = release % 128
'''))
ref("ver_method", (S, '''            self._major_version = (self.aversion >> 8) & 0x7F
            self._minor_version = self.aversion & 0xFF
            self._semantic_version = f"{self._major_version}.{self._minor_version}"
        return self._semantic_version
''', '''            self._major_version, self._minor_version = self._split_version()
            self._semantic_version = ".".join(map(str, (self._major_version, self._minor_version)))
        return self._semantic_version

    def _split_version(self) -> tuple[int, int]:
        """Major and minor part of the version number."""
        return (self.aversion >> 8) & 0x7F, self.aversion & 0xFF
'''))
# ------------------------------------------------------------------------------------------------ parsers
ref("p_cpu_slice", (P, CPULOOP, '''    for index, cpu in enumerate(sstat.cpu.cpu[: max(sstat.cpu.nrcpu, 0)]):
'''))
ref("p_cpu_range", (P, CPULOOP, '''    for index in range(min(len(sstat.cpu.cpu), sstat.cpu.nrcpu)):
        cpu = sstat.cpu.cpu[index]
'''))

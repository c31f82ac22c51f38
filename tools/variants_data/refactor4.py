"""A fourth set of refactorings, using other parts of the language and its library."""
import re

from variants_data.bugs1 import CREAD, EXC, GEN, REC, SST, TLOOP, TREAD
from variants_data.refactor3 import A, COMPAT, DHEAD, GHEAD, HHEAD, IMP, PD, PF, P, R, S, U, fn, imp

VARIANTS = []


def ref(name, *edits):
    VARIANTS.append({"name": "v_" + name, "prop": None, "edits": list(edits)})


# ------------------------------------------------------------------------------------------------ utils: blocks
ref("blocks_starmap", imp("import ctypes\nimport io\nimport itertools\nimport zlib\n"), (U, CREAD, '''    lengths = (record.ccomplen, record.icomplen)
    decompressed_cstats, decompressed_pidlist = (zlib.decompress(raw_file.read(length)) for length in lengths)
'''))
ref("blocks_lambda", (U, CREAD, '''    inflate = lambda length: zlib.decompress(raw_file.read(length))  # noqa: E731
    decompressed_cstats = inflate(record.ccomplen)
    decompressed_pidlist = inflate(record.icomplen)
'''))
ref("blocks_field_name", (U, SST, '''    sstat = header.SStat.from_buffer_copy(_block(raw_file, record, "scomplen"))
'''), (U, TREAD, '''    decompressed = _block(raw_file, record, "pcomplen")
'''), (U, CREAD, '''    decompressed_cstats = _block(raw_file, record, "ccomplen")
    decompressed_pidlist = _block(raw_file, record, "icomplen")
'''), (U, "def get_sstat(", '''def _block(raw_file, record, field):
    """Read the block whose compressed length is in a field of the record."""
    compressed = raw_file.read(getattr(record, field))
    return zlib.decompress(compressed)


def get_sstat('''))
ref("blocks_decompressobj", (U, SST, '''    buffer = raw_file.read(record.scomplen)
    sstat = header.SStat.from_buffer_copy(zlib.decompress(buffer, zlib.MAX_WBITS))
'''))
ref("blocks_ctx", (U, SST, '''    try:
        decompressed = zlib.decompress(raw_file.read(record.scomplen))
    except zlib.error:
        raise
    else:
        sstat = header.SStat.from_buffer_copy(decompressed)
'''))
ref("tasks_accumulate", imp("import ctypes\nimport io\nimport itertools\nimport zlib\n"), (U, "    for index in range(record_count):\n", "    for index in itertools.islice(itertools.count(), record_count):\n"))
ref("tasks_starts", (U, "    for index in range(record_count):\n", "    starts = [index * tstatlen for index in range(record_count)]\n    for start in starts:\n"), (U, TLOOP, TLOOP.replace("decompressed[index * tstatlen : tstatlen * (index + 1)]", "decompressed[start : start + tstatlen]")))
ref("tasks_zip_ends", (U, "    for index in range(record_count):\n", "    starts = range(0, record_count * tstatlen, tstatlen)\n    ends = range(tstatlen, (record_count + 1) * tstatlen, tstatlen)\n    for start, end in zip(starts, ends):\n"), (U, TLOOP, TLOOP.replace("decompressed[index * tstatlen : tstatlen * (index + 1)]", "decompressed[start:end]")))
ref("tasks_slice_obj", (U, TLOOP, '''        window = slice(index * tstatlen, (index + 1) * tstatlen)
        tstats.append(header.TStat.from_buffer_copy(decompressed[window]))
'''))
ref("tasks_enumerate", (U, "    for index in range(record_count):\n", "    for number, _ in enumerate(range(record_count), start=1):\n"), (U, TLOOP, TLOOP.replace("decompressed[index * tstatlen : tstatlen * (index + 1)]", "decompressed[(number - 1) * tstatlen : number * tstatlen]")))
ref("tasks_local_names", (U, "    tstats = []\n    for index", "    tstats = []\n    tstat_class = header.TStat\n    append = tstats.append\n    for index"), (U, TLOOP, '''        append(tstat_class.from_buffer_copy(decompressed[index * tstatlen : tstatlen * (index + 1)]))
'''))
ref("tasks_type_check", (U, "isinstance(record, atop_1_26.Record)", "type(record) is atop_1_26.Record"))
ref("tasks_try", (U, "    tstatlen = header.tstatlen if hasattr(header, \"tstatlen\") else header.pstatlen\n", '''    try:
        tstatlen = header.tstatlen
    except AttributeError:
        tstatlen = header.pstatlen
'''))
ref("tasks_getattr2", (U, "    record_count = record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat\n    tstatlen = header.tstatlen if hasattr(header, \"tstatlen\") else header.pstatlen\n", '''    count_field, length_field = ("nlist", "pstatlen") if isinstance(record, atop_1_26.Record) else ("ndeviat", "tstatlen")
    record_count = getattr(record, count_field)
    tstatlen = getattr(header, length_field)
'''))
ref("tasks_prealloc", (U, "    tstats = []\n    for index", "    tstats = [None] * record_count\n    for index"), (U, TLOOP, TLOOP.replace("tstats.append(tstat)", "tstats[index] = tstat")))
ref("cg_zip_names", (U, "        cgroups.append(header.CGChainer(cstat, pidlist))\n", "        chainer = header.CGChainer(cstat, pidlist)\n        cgroups.append(chainer)\n"))
ref("cg_nprocs_var", (U, "        pid_array = pid_t * cstat.gen.nprocs\n        pid_array_size = ctypes.sizeof(pid_array)\n", "        gen = cstat.gen\n        pid_array = pid_t * gen.nprocs\n        pid_array_size = gen.nprocs * ctypes.sizeof(pid_t)\n"))
ref("cg_end_vars", (U, "        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start : pidlist_start + pid_array_size])\n        pidlist_start += pid_array_size\n", "        pidlist_end = pidlist_start + pid_array_size\n        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start:pidlist_end])\n        pidlist_start = pidlist_end\n"))
ref("cg_from_offset", (U, "        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start : pidlist_start + pid_array_size])\n", "        pidlist = pid_array.from_buffer_copy(decompressed_pidlist, pidlist_start)\n"))
ref("cg_index_pids", (U, "        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start : pidlist_start + pid_array_size])\n        pidlist_start += pid_array_size\n", "        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start : pidlist_start + pid_array_size])\n        pidlist_start = pidlist_start + ctypes.sizeof(pidlist)\n"))
ref("cg_move_step", (U, "        cstat_start += cstat.gen.structlen\n", ""), (U, "        cgroups.append(header.CGChainer(cstat, pidlist))\n", "        cgroups.append(header.CGChainer(cstat, pidlist))\n        cstat_start += cstat.gen.structlen\n"))
ref("cg_enumerate", (U, "    for _ in range(record.ncgroups):\n", "    remaining = record.ncgroups\n    while remaining > 0:\n        remaining -= 1\n"))
ref("cg_early_empty", (U, "    cgroups = []\n    cstat_start = 0\n", "    cgroups = []\n    if record.ncgroups == 0:\n        return cgroups\n    cstat_start = 0\n"))

# ------------------------------------------------------------------------------------------------ utils: iteration
ref("gen_namedtuple", imp("import collections\nimport ctypes\nimport io\nimport zlib\n"), (U, "            yield record, sstat, tstats, cgroups\n", "            yield Sample(record, sstat, tstats, cgroups)\n"), (U, "def generate_statistics(", 'Sample = collections.namedtuple("Sample", ["record", "sstat", "tstats", "cgroups"])\n\n\ndef generate_statistics('))
ref("gen_typing_namedtuple", (U, "from typing import Union\n", "from typing import NamedTuple\nfrom typing import Union\n"), (U, "            yield record, sstat, tstats, cgroups\n", "            yield Sample(record=record, sstat=sstat, tstats=tstats, cgroups=cgroups)\n"), (U, "def generate_statistics(", 'class Sample(NamedTuple):\n    """One group of statistics."""\n\n    record: object\n    sstat: object\n    tstats: list\n    cgroups: list\n\n\ndef generate_statistics('))
ref("gen_for_else", (U, "            if record.scomplen <= 0:\n                # Natural end-of-file, no further bytes were found to populate another record.\n                break\n", "            if 0 >= record.scomplen:\n                # Natural end-of-file, no further bytes were found to populate another record.\n                break\n"))
ref("gen_try_else", (U, "    except zlib.error:\n", "    except (zlib.error,):\n"))
ref("gen_raise_e", (U, "    except zlib.error:\n", "    except zlib.error as error:\n"), (U, EXC, "        if raise_on_truncation:\n            raise error\n"))
ref("gen_pass_else", (U, EXC, "        if not raise_on_truncation:\n            pass\n        else:\n            raise\n"))
ref("gen_exception_tuple", (U, "    except zlib.error:\n", "    except _TRUNCATION_ERRORS:\n"), (U, "def generate_statistics(", "_TRUNCATION_ERRORS = (zlib.error,)\n\n\ndef generate_statistics("))
ref("gen_partition", (U, '        major, minor = header_version.split(".")[:2]\n', '        major, _, minor = header_version.partition(".")\n'))
ref("gen_tuple_map", (U, '        major, minor = header_version.split(".")[:2]\n        major, minor = int(major), int(minor)\n', '        version = tuple(map(int, header_version.split(".")))[:2]\n'), (U, "            if (major, minor) >= (2, 11):\n", "            if version >= (2, 11):\n"))
ref("gen_versions_table", (U, "            if (major, minor) >= (2, 11):\n", "            if major > 2 or major == 2 and minor >= 11:\n"))
ref("gen_not_lt", (U, "            if (major, minor) >= (2, 11):\n                cgroups = get_cstat(raw_file, header, record)\n            else:\n                cgroups = []\n", "            if (major, minor) < (2, 11):\n                cgroups = []\n            else:\n                cgroups = get_cstat(raw_file, header, record)\n"))
ref("gen_reader_choice", (U, "        for _ in range(max_samples):\n", "        read_cgroups = get_cstat if (major, minor) >= (2, 11) else _no_cgroups\n        for _ in range(max_samples):\n"), (U, "            if (major, minor) >= (2, 11):\n                cgroups = get_cstat(raw_file, header, record)\n            else:\n                cgroups = []\n", "            cgroups = read_cgroups(raw_file, header, record)\n"), (U, "def get_cstat(", 'def _no_cgroups(raw_file, header, record):  # pylint: disable=unused-argument\n    """Versions without cgroups have none."""\n    return []\n\n\ndef get_cstat('))
ref("gen_cgroups_inside", (U, "            if (major, minor) >= (2, 11):\n                cgroups = get_cstat(raw_file, header, record)\n            else:\n                cgroups = []\n", "            cgroups = get_cstat(raw_file, header, record) if has_cgroups else []\n"), (U, "        for _ in range(max_samples):\n", "        has_cgroups = (major, minor) >= _FIRST_CGROUP_VERSION\n        for _ in range(max_samples):\n"), (U, "def generate_statistics(", "_FIRST_CGROUP_VERSION = (2, 11)\n\n\ndef generate_statistics("))
ref("gen_header_or", (U, "    if header is None:\n        # If a header was not provided, read up to the proper length and discard to ensure the correct starting offset.\n        header = get_header(raw_file)\n", "    header = get_header(raw_file) if header is None else header\n"))
ref("gen_outside_try", (U, "    try:\n        header_version = header.semantic_version\n        major, minor = header_version.split(\".\")[:2]\n        major, minor = int(major), int(minor)\n", "    header_version = header.semantic_version\n    major, minor = header_version.split(\".\")[:2]\n    major, minor = int(major), int(minor)\n    try:\n"))
ref("gen_contextmanager", imp("import contextlib\nimport ctypes\nimport io\nimport zlib\n"), fn(U, "generate_statistics", GHEAD + '''
    if header is None:
        header = get_header(raw_file)
    major, minor = (int(part) for part in header.semantic_version.split(".")[:2])
    with _truncation(raise_on_truncation):
        for _ in range(max_samples):
            record = get_record(raw_file, header)
            if record.scomplen <= 0:
                break
            sstat = get_sstat(raw_file, header, record)
            tstats = get_tstat(raw_file, header, record)
            cgroups = get_cstat(raw_file, header, record) if (major, minor) >= (2, 11) else []
            yield record, sstat, tstats, cgroups


@contextlib.contextmanager
def _truncation(raise_error):
    """Squash errors of truncated files unless they are asked for."""
    try:
        yield
    except zlib.error:
        if raise_error:
            raise
'''))
ref("gen_class_reader", fn(U, "generate_statistics", GHEAD + '''
    yield from _Reader(raw_file, header, raise_on_truncation).samples(max_samples)


class _Reader:
    """State of reading one file."""

    def __init__(self, raw_file, header, raise_on_truncation):
        self.raw_file = raw_file
        self.header = get_header(raw_file) if header is None else header
        self.raise_on_truncation = raise_on_truncation
        self.has_cgroups = tuple(int(part) for part in self.header.semantic_version.split(".")[:2]) >= (2, 11)

    def samples(self, limit):
        """Yield all samples."""
        try:
            for _ in range(limit):
                record = get_record(self.raw_file, self.header)
                if record.scomplen <= 0:
                    break
                yield self.group(record)
        except zlib.error:
            if self.raise_on_truncation:
                raise

    def group(self, record):
        """Read what follows a record."""
        args = (self.raw_file, self.header, record)
        return record, get_sstat(*args), get_tstat(*args), get_cstat(*args) if self.has_cgroups else []
'''))

# ------------------------------------------------------------------------------------------------ utils: header
ref("hdr_length_first", (U, '''    if header.magic != MAGIC:
        msg = f"File does not contain raw atop output (wrong magic number): {hex(header.magic)}"
        raise ValueError(msg)
    if header_length < ctypes.sizeof(header):
''', '''    if not header.magic == MAGIC:
        msg = "File does not contain raw atop output (wrong magic number): %#x" % header.magic
        raise ValueError(msg)
    if header_length != ctypes.sizeof(header):
'''))
ref("hdr_versions_get", (U, "    if header_version != _DEFAULT_VERSION and header_version in _HEADER_BY_VERSION:\n        # Header byte length is consistent across versions. Transfer the initial read into the versioned header.\n        header = _HEADER_BY_VERSION[header_version].from_buffer(header)\n", "    header_class = _HEADER_BY_VERSION.get(header_version)\n    if header_class and header_version != _DEFAULT_VERSION:\n        header = header_class.from_buffer(header)\n"))
ref("hdr_always_transfer", (U, "    if header_version != _DEFAULT_VERSION and header_version in _HEADER_BY_VERSION:\n", "    if header_version in _HEADER_BY_VERSION:\n"))
ref("hdr_try_version", (U, "    if header_version != _DEFAULT_VERSION and header_version in _HEADER_BY_VERSION:\n        # Header byte length is consistent across versions. Transfer the initial read into the versioned header.\n        header = _HEADER_BY_VERSION[header_version].from_buffer(header)\n", '''    try:
        header_class = _HEADER_BY_VERSION[header_version]
    except KeyError:
        header_class = None
    if header_class is not None:
        header = header_class.from_buffer(header)
'''))
ref("hdr_not_check", (U, "    if check_compatibility:\n        # Ensure all struct lengths match the lengths specified in the header. If not, we cannot read the file further.\n        header.check_compatibility()\n\n    return header\n", "    if not check_compatibility:\n        return header\n    header.check_compatibility()\n    return header\n"))
ref("hdr_memmove", (U, "        header = _HEADER_BY_VERSION[header_version].from_buffer(header)\n", "        header = _HEADER_BY_VERSION[header_version].from_buffer_copy(bytes(header))\n"))
ref("hdr_versions_dict", (U, re.compile(r"_VERSIONS = \[.*?\n\]\n", re.S), lambda m: m.group() + "assert len(_VERSIONS) == 11\n"))
ref("hdr_latest_const", (U, "_DEFAULT_VERSION = _VERSIONS[-1].Header.supported_version\n", "_DEFAULT_VERSION = atop_2_12.Header.supported_version\n"))
ref("hdr_union_loop", (U, "TStat = Union[tuple(header.TStat for header in _HEADER_BY_VERSION.values())]", "TStat = Union[tuple(module.TStat for module in _VERSIONS)]"))
ref("compat_sum", (S, "        if any(size[1] != size[2] for size in sizes):\n", "        if sum(found != expected for _, found, expected in sizes):\n"))
ref("compat_next", (S, "        if any(size[1] != size[2] for size in sizes):\n", "        if next((True for _, found, expected in sizes if found != expected), False):\n"))
ref("compat_filter", (S, "        if any(size[1] != size[2] for size in sizes):\n", "        if list(filter(lambda size: size[1] != size[2], sizes)):\n"))
ref("compat_sets", (S, "        if any(size[1] != size[2] for size in sizes):\n", "        if [size[1] for size in sizes] != [size[2] for size in sizes]:\n"))
ref("compat_for_else", (S, "        if any(size[1] != size[2] for size in sizes):\n            raise ValueError(\n", "        for size in sizes:\n            if size[1] != size[2]:\n                break\n        else:\n            return\n        if sizes:\n            raise ValueError(\n"))
ref("compat_task_name", (S, '''        if hasattr(self, "tstatlen"):
            sizes.append(("TStat", self.tstatlen, ctypes.sizeof(self.TStat)))
        else:
            sizes.append(("PStat", self.pstatlen, ctypes.sizeof(self.TStat)))
''', '''        name, task_length = ("TStat", self.tstatlen) if hasattr(self, "tstatlen") else ("PStat", self.pstatlen)
        sizes.append((name, task_length, ctypes.sizeof(self.TStat)))
'''))
ref("compat_extend", (S, '        if (self.major_version, self.minor_version) >= (2, 11):\n            sizes.append(("CStat", self.cstatlen, ctypes.sizeof(self.CStat)))\n', '        if (self.major_version, self.minor_version) >= (2, 11):\n            sizes += [("CStat", self.cstatlen, ctypes.sizeof(self.CStat))]\n'))
ref("compat_size_method", (S, "            raise ValueError(\n                f\"File has incompatible Atop format. Struct length evaluations (type, found, expected): {sizes}\"\n            )\n", "            details = \", \".join(\"{}: {} instead of {}\".format(*size) for size in sizes)\n            raise ValueError(\"File has incompatible Atop format. Struct length evaluations (type, found, expected): \" + details)\n"))
ref("version_if_none", (S, '        if not getattr(self, "_semantic_version", None):\n', '        if getattr(self, "_semantic_version", None) is None:\n'))
ref("version_hasattr", (S, '        if not getattr(self, "_semantic_version", None):\n', '        if not hasattr(self, "_semantic_version"):\n'))
ref("version_percent", (S, '            self._semantic_version = f"{self._major_version}.{self._minor_version}"\n', '            self._semantic_version = "%d.%d" % (self._major_version, self._minor_version)\n'))
ref("version_bytes", (S, "            self._major_version = (self.aversion >> 8) & 0x7F\n            self._minor_version = self.aversion & 0xFF\n", "            self._major_version, self._minor_version = divmod(self.aversion & 0x7FFF, 256)\n"))

# ------------------------------------------------------------------------------------------------ utils: dictionaries
ref("dict_bytes_helper", (U, "                struct_dict[field_name] = field_data.decode(errors=\"ignore\")\n", "                struct_dict[field_name] = str(field_data, \"utf-8\", \"ignore\")\n"))
ref("dict_limits_local", (U, "    struct_dict = {}\n", "    struct_dict = {}\n    limiters = getattr(struct, \"fields_limiters\", None) or {}\n"), (U, "                limiters = getattr(struct, \"fields_limiters\", {})\n", ""))
ref("dict_struct_tuple", (U, "    for field in struct._fields_:  # pylint: disable=protected-access\n        field_name = field[0]\n        field_data = getattr(struct, field_name)\n", "    names = (field[0] for field in struct._fields_)  # pylint: disable=protected-access\n    for field_name, field_data in ((name, getattr(struct, name)) for name in names):\n"))
ref("dict_find_future", (U, '        elif "future" not in field_name:\n', '        elif field_name.find("future") == -1:\n'))
ref("dict_count_future", (U, '        elif "future" not in field_name:\n', '        elif not field_name.count("future"):\n'))
ref("dict_slice_ternary", (U, '''                if limiter:
                    # A damaged count may be negative, do not let it address entries from the end of the list.
                    field_data = field_data[: max(getattr(struct, limiter), 0)]
''', '''                count = len(field_data) if not limiter else max(getattr(struct, limiter), 0)
                field_data = field_data[:count]
'''))
ref("dict_negative_if", (U, '''                    field_data = field_data[: max(getattr(struct, limiter), 0)]
''', '''                    count = getattr(struct, limiter)
                    if count < 0:
                        count = 0
                    field_data = field_data[:count]
'''))
ref("dict_sub_helper", (U, '''                    if isinstance(sub_data, ctypes.Structure):
                        struct_dict[field_name].append(struct_to_dict(sub_data))
                    else:
                        struct_dict[field_name].append(sub_data)
''', '''                    if isinstance(sub_data, ctypes.Structure):
                        sub_data = struct_to_dict(sub_data)
                    struct_dict[field_name].append(sub_data)
'''))
ref("dict_local_list", (U, "                struct_dict[field_name] = []\n", "                converted = []\n"), (U, '''                        struct_dict[field_name].append(struct_to_dict(sub_data))
                    else:
                        struct_dict[field_name].append(sub_data)
''', '''                        converted.append(struct_to_dict(sub_data))
                    else:
                        converted.append(sub_data)
                struct_dict[field_name] = converted
'''))
ref("dict_setdefault", (U, "                        struct_dict[field_name].append(struct_to_dict(sub_data))\n", "                        struct_dict.setdefault(field_name, []).append(struct_to_dict(sub_data))\n"))
ref("dict_singledispatch", imp("import ctypes\nimport functools\nimport io\nimport zlib\n"), (U, "                struct_dict[field_name] = field_data.decode(errors=\"ignore\")\n            else:\n                struct_dict[field_name] = field_data\n", "                struct_dict[field_name] = _text(field_data)\n            else:\n                struct_dict[field_name] = field_data\n"), (U, "def struct_to_dict(", '''@functools.singledispatch
def _text(value):
    """Text of a value."""
    return value


@_text.register
def _(value: bytes):
    return value.decode(errors="ignore")


def struct_to_dict('''))
ref("dict_converters", fn(U, "struct_to_dict", DHEAD + '''
    struct_dict = {}
    for field in struct._fields_:
        name = field[0]
        value = getattr(struct, name)
        if "future" in name and not isinstance(value, ctypes.Structure):
            continue
        for kind, convert in _CONVERTERS:
            if isinstance(value, kind):
                struct_dict[name] = convert(struct, name, value)
                break
        else:
            struct_dict[name] = value
    return struct_dict


def _convert_struct(_struct, _name, value):
    return struct_to_dict(value)


def _convert_array(struct, name, value):
    limiter = getattr(struct, "fields_limiters", {}).get(name)
    if limiter:
        value = value[: max(getattr(struct, limiter), 0)]
    return [struct_to_dict(item) if isinstance(item, ctypes.Structure) else item for item in value]


def _convert_bytes(_struct, _name, value):
    return value.decode(errors="ignore")


_CONVERTERS = [(ctypes.Structure, _convert_struct), (ctypes.Array, _convert_array), (bytes, _convert_bytes)]
'''))
ref("dict_class", fn(U, "struct_to_dict", DHEAD + '''
    return _Converter(struct).convert()


class _Converter:
    """Conversion of one struct."""

    def __init__(self, struct):
        self.struct = struct
        self.limiters = getattr(struct, "fields_limiters", {})

    def convert(self):
        """Convert all fields."""
        result = {}
        for name, *_ in self.struct._fields_:
            value = getattr(self.struct, name)
            if isinstance(value, ctypes.Structure):
                result[name] = struct_to_dict(value)
            elif "future" not in name:
                result[name] = self.plain(name, value)
        return result

    def plain(self, name, value):
        """Convert a field that is no struct."""
        if isinstance(value, ctypes.Array):
            if name in self.limiters:
                value = value[: max(getattr(self.struct, self.limiters[name]), 0)]
            return [struct_to_dict(entry) if isinstance(entry, ctypes.Structure) else entry for entry in value]
        return value.decode(errors="ignore") if isinstance(value, bytes) else value
'''))

# ------------------------------------------------------------------------------------------------ reader
LOOP = '''            for record, sstat, tstats, cgroups in atoparser.generate_statistics(
                raw_file,
                header,
                raise_on_truncation=False,
            ):
'''
ROWS = '''                    for parseable in parseables:
                        for sample in parsers[parseable](header, record, sstat, tstats):
                            sample["parseable"] = parseable
                            samples.append(sample)
'''
CONV = '''                    converted = {
                        "header": atoparser.struct_to_dict(header),
                        "record": atoparser.struct_to_dict(record),
                        "sstat": atoparser.struct_to_dict(sstat),
                    }
                    if show_tstats:
                        converted["tstat"] = [atoparser.struct_to_dict(stat) for stat in tstats]
                    if show_cstats:
                        converted["cgroup"] = [atoparser.struct_to_dict(stat) for stat in cgroups]
                    samples.append(converted)
'''
PRINT = "    print(json.dumps(samples, indent=2 if pretty_print else None))\n"
ref("file_enumerate", (R, LOOP, "            statistics = atoparser.generate_statistics(raw_file, header, raise_on_truncation=False)\n            for _, (record, sstat, tstats, cgroups) in enumerate(statistics):\n"))
ref("file_rows_comp", (R, ROWS, '''                    samples += [
                        dict(sample, parseable=parseable)
                        for parseable in parseables
                        for sample in parsers[parseable](header, record, sstat, tstats)
                    ]
'''))
ref("file_rows_chain", (R, ROWS, '''                    for parseable in parseables:
                        rows = list(parsers[parseable](header, record, sstat, tstats))
                        for row in rows:
                            row["parseable"] = parseable
                        samples.extend(rows)
'''))
ref("file_rows_fn_var", (R, ROWS, '''                    arguments = (header, record, sstat, tstats)
                    for parseable in parseables:
                        parser = parsers[parseable]
                        for sample in parser(*arguments):
                            sample["parseable"] = parseable
                            samples.append(sample)
'''))
ref("file_conv_table", (R, CONV, '''                    parts = {"header": header, "record": record, "sstat": sstat}
                    if show_tstats:
                        parts["tstat"] = tstats
                    if show_cstats:
                        parts["cgroup"] = cgroups
                    samples.append(
                        {
                            name: [atoparser.struct_to_dict(entry) for entry in part]
                            if isinstance(part, list)
                            else atoparser.struct_to_dict(part)
                            for name, part in parts.items()
                        }
                    )
'''))
ref("file_conv_zip", (R, CONV, '''                    converted = dict(
                        zip(("header", "record", "sstat"), map(atoparser.struct_to_dict, (header, record, sstat)))
                    )
                    if show_tstats:
                        converted.update({"tstat": [atoparser.struct_to_dict(stat) for stat in tstats]})
                    if show_cstats:
                        converted.update({"cgroup": [atoparser.struct_to_dict(stat) for stat in cgroups]})
                    samples.append(converted)
'''))
ref("file_conv_append_first", (R, CONV, '''                    converted = {}
                    samples.append(converted)
                    converted["header"] = atoparser.struct_to_dict(header)
                    converted["record"] = atoparser.struct_to_dict(record)
                    converted["sstat"] = atoparser.struct_to_dict(sstat)
                    if show_tstats:
                        converted["tstat"] = [atoparser.struct_to_dict(stat) for stat in tstats]
                    if show_cstats:
                        converted["cgroup"] = [atoparser.struct_to_dict(stat) for stat in cgroups]
'''))
ref("file_conv_spread", (R, CONV, '''                    samples.append(
                        {
                            "header": atoparser.struct_to_dict(header),
                            "record": atoparser.struct_to_dict(record),
                            "sstat": atoparser.struct_to_dict(sstat),
                            **({"tstat": [atoparser.struct_to_dict(stat) for stat in tstats]} if show_tstats else {}),
                            **({"cgroup": [atoparser.struct_to_dict(stat) for stat in cgroups]} if show_cstats else {}),
                        }
                    )
'''))
ref("file_import_names", (R, re.compile(r"atoparser\.struct_to_dict"), "struct_to_dict"), (R, "import atoparser\n", "import atoparser\nfrom atoparser.utils import struct_to_dict\n"))
ref("file_print_parts", (R, PRINT, "    output = json.dumps(samples, indent=2 if pretty_print else None)\n    print(output)\n"))
ref("file_print_sep", (R, PRINT, "    print(json.dumps(samples, indent=(None, 2)[pretty_print]))\n"))
ref("file_print_end", (R, PRINT, "    print(json.dumps(samples, indent=2 if pretty_print else None), end=\"\\n\")\n"))
ref("file_indent_const", (R, PRINT, "    indent = None\n    if pretty_print:\n        indent = INDENT\n    print(json.dumps(samples, indent=indent))\n"), (R, "def parse_args()", "INDENT = 2\n\n\ndef parse_args()"))
ref("file_dumper", (R, PRINT, "    dumps = functools.partial(json.dumps, indent=2) if pretty_print else json.dumps\n    print(dumps(samples))\n"), (R, "import argparse\n", "import argparse\nimport functools\n"))
ref("file_parsers_after", (R, '            parsers = PARSEABLE_MAP.get(header.semantic_version, PARSEABLE_MAP["1.26"])\n', '            parsers = PARSEABLE_MAP[header.semantic_version] if parseables else {}\n'))
ref("file_supported_var", (R, "        if parseables and header.semantic_version not in PARSEABLE_MAP:\n", "        version = header.semantic_version\n        supported = version in PARSEABLE_MAP\n        if parseables and not supported:\n"))
ref("file_len_check", (R, "        if parseables and header.semantic_version not in PARSEABLE_MAP:\n", "        if parseables and header.semantic_version not in PARSEABLE_MAP.keys():\n"))
ref("file_get_none", (R, "        if parseables and header.semantic_version not in PARSEABLE_MAP:\n", "        if parseables and PARSEABLE_MAP.get(header.semantic_version) is None:\n"))
ref("file_error_format", (R, 'f"Atop version {header.semantic_version} does not support parseables, only full raw output."', '"Atop version {} does not support parseables, only full raw output.".format(header.semantic_version)'))
ref("file_open_with_path", (R, '    opener = open if ".gz" not in file else gzip.open\n', '    opener = gzip.open if file.find(".gz") >= 0 else open\n'))
ref("file_opener_table", (R, '    opener = open if ".gz" not in file else gzip.open\n', '    opener = {True: gzip.open, False: open}[".gz" in file]\n'))
ref("file_opener_count", (R, '    opener = open if ".gz" not in file else gzip.open\n', '    compressed = ".gz" in file\n    opener = gzip.open if compressed else open\n'))
ref("main_comp", (R, re.compile(r"    for file in args\.files:\n        parse_file\(.*?\n        \)\n", re.S), lambda m: '''    for path in args.files:
        parse_file(
            file=path,
            parseables=args.parseables,
            pretty_print=args.pretty_print,
            show_tstats=args.show_tstats,
            show_cstats=args.show_cstats,
        )
'''))
ref("main_while", (R, re.compile(r"    for file in args\.files:\n        parse_file\(.*?\n        \)\n", re.S), lambda m: '''    files = list(args.files)
    while files:
        parse_file(files.pop(0), args.parseables, args.pretty_print, args.show_tstats, args.show_cstats)
'''))
ref("args_parser_fn", (R, "    args = parser.parse_args()\n    return args\n", "    return _check(parser.parse_args())\n\n\ndef _check(args):\n    \"\"\"Nothing to check so far.\"\"\"\n    return args\n"))
ref("args_choices_keys", (R, "        choices=PARSEABLES,\n", "        choices=list(PARSEABLES),\n"))
ref("args_default_none", (R, "        choices=PARSEABLES,\n", "        choices=PARSEABLES,\n        default=None,\n"))
ref("args_dest", (R, '        "--pretty-print",\n        action="store_true",\n', '        "--pretty-print",\n        dest="pretty_print",\n        default=False,\n        action="store_true",\n'))
ref("map_dict_fn", (R, re.compile(r'PARSEABLE_MAP = \{.*?\n\}\n', re.S), lambda m: '''PARSEABLE_MAP = {"1.26": dict((name, getattr(atop_1_26, "parse_" + name)) for name in PARSEABLES)}
'''))
ref("map_zip", (R, re.compile(r'PARSEABLE_MAP = \{.*?\n\}\n', re.S), lambda m: '''_PARSERS_1_26 = [vars(atop_1_26)[f"parse_{name}"] for name in PARSEABLES]
PARSEABLE_MAP = {"1.26": dict(zip(PARSEABLES, _PARSERS_1_26))}
'''))
ref("names_tuple", (R, re.compile(r'PARSEABLES = \[(.*?)\n\]\n', re.S), lambda m: "PARSEABLES = (" + m.group(1) + "\n)\n"))
ref("names_sorted", (R, re.compile(r'PARSEABLES = \[(.*?)\n\]\n', re.S), lambda m: 'PARSEABLES = ["cpu"] + "CPL CPU DSK LVM MDD MEM NETL NETU PAG PRC PRD PRG PRM PRN SWP".split()\n'))

# ------------------------------------------------------------------------------------------------ parsers
ref("p_cpu_for_range", (P, '''    for index, cpu in enumerate(sstat.cpu.cpu):
        if index >= sstat.cpu.nrcpu:
            # Core list contains 100 entries, but only up the count specified in the cpu stat are valid.
            break
''', '''    cores = sstat.cpu
    for index in range(min(max(cores.nrcpu, 0), len(cores.cpu))):
        cpu = cores.cpu[index]
'''))
ref("p_cpu_not_lt", (P, "        if index >= sstat.cpu.nrcpu:\n", "        if not index < sstat.cpu.nrcpu:\n"))
ref("p_cpu_return", (P, '''            # Core list contains 100 entries, but only up the count specified in the cpu stat are valid.
            break
''', "            return\n"))
ref("p_cpu_limit_first", (P, '''    for index, cpu in enumerate(sstat.cpu.cpu):
        if index >= sstat.cpu.nrcpu:
''', '''    count = sstat.cpu.nrcpu
    for index, cpu in enumerate(sstat.cpu.cpu):
        if count <= index:
'''))
ref("p_cpu_zip_count", (P, "import", "import", ) if False else (P, '''    for index, cpu in enumerate(sstat.cpu.cpu):
        if index >= sstat.cpu.nrcpu:
            # Core list contains 100 entries, but only up the count specified in the cpu stat are valid.
            break
''', '''    for index, cpu in zip(range(sstat.cpu.nrcpu), sstat.cpu.cpu):
'''))
ref("p_dsk_while", (P, re.compile(r'    for disk in sstat\.dsk\.dsk:\n        if not disk\.name:\n            # Disk list.*?\n            break\n', re.S), lambda m: '''    for disk in sstat.dsk.dsk:
        name = disk.name
        if len(name) == 0:
            return
'''))
ref("p_dsk_iter", (P, re.compile(r'    for disk in sstat\.dsk\.dsk:\n        if not disk\.name:\n            # Disk list.*?\n            break\n', re.S), lambda m: '''    disks = iter(sstat.dsk.dsk)
    for disk in disks:
        if disk.name == b"":
            break
'''))
ref("p_dsk_takewhile_lambda", (P, re.compile(r'    for disk in sstat\.dsk\.dsk:\n        if not disk\.name:\n            # Disk list.*?\n            break\n', re.S), lambda m: '''    for disk in itertools.takewhile(lambda entry: entry.name, sstat.dsk.dsk):
'''), (P, "from atoparser import utils\n", "import itertools\n\nfrom atoparser import utils\n"))
ref("p_dsk_index", (P, re.compile(r'    for disk in sstat\.dsk\.dsk:\n        if not disk\.name:\n            # Disk list.*?\n            break\n', re.S), lambda m: '''    for index in range(len(sstat.dsk.dsk)):
        disk = sstat.dsk.dsk[index]
        if not disk.name:
            break
'''))
ref("p_dsk_name_decode_first", (P, re.compile(r'    for disk in sstat\.dsk\.dsk:\n        if not disk\.name:\n            # Disk list.*?\n            break\n', re.S), lambda m: '''    for disk in sstat.dsk.dsk:
        raw_name = disk.name
        if not raw_name:
            break
        name = raw_name.decode(errors="ignore")
'''), (P, '"name": disk.name.decode(errors="ignore"),', '"name": name,'))
ref("p_mem_alias", (P, re.compile(r'(def parse_MEM\(.*?)(    values = \{.*?\n    \}\n)', re.S), lambda m: m.group(1) + "    mem = sstat.mem\n" + m.group(2).replace("sstat.mem.", "mem.")))
ref("p_prm_kb", (P, re.compile(r"stat\.mem\.(\w+) \* 1024"), r"1024 * stat.mem.\1"))
ref("p_prm_shift", (P, re.compile(r"stat\.mem\.(\w+) \* 1024"), r"(stat.mem.\1 << 10)"))
ref("p_prm_fn", (P, re.compile(r"stat\.mem\.(\w+) \* 1024"), r"_bytes(stat.mem.\1)"), (P, "def parse_cpu(", 'def _bytes(kilobytes):\n    """Size in bytes."""\n    return kilobytes * 1024\n\n\ndef parse_cpu('))
ref("p_flags_ne", (P, re.compile(r'"y" if header\.supportflags & atop_1_26\.(\w+) else "n"'), r'"n" if header.supportflags & atop_1_26.\1 == 0 else "y"'))
ref("p_flags_dict", (P, re.compile(r'"y" if header\.supportflags & atop_1_26\.(\w+) else "n"'), r'{True: "y", False: "n"}[header.supportflags & atop_1_26.\1 != 0]'))
ref("p_flags_bool", (P, re.compile(r'"y" if header\.supportflags & atop_1_26\.(\w+) else "n"'), r'"ny"[bool(header.supportflags & atop_1_26.\1)]'))
ref("p_flags_and_or", (P, re.compile(r'"y" if header\.supportflags & atop_1_26\.(\w+) else "n"'), r'(header.supportflags & atop_1_26.\1 and "y" or "n")'))
ref("p_flags_import", (P, re.compile(r"atop_1_26\.(PATCHSTAT|IOSTAT)\b"), r"\1"), (P, "from atoparser.structs import atop_1_26\n", "from atoparser.structs.atop_1_26 import IOSTAT\nfrom atoparser.structs.atop_1_26 import PATCHSTAT\n"))
ref("p_duplex_bytes", (P, PD, '"duplex": int.from_bytes(interface.duplex, "big")'))
ref("p_duplex_default", (P, PD, '"duplex": int.from_bytes(interface.duplex)') if False else (P, PD, '"duplex": sum(interface.duplex)'))
ref("p_netu_sum", (P, "sstat.net.udpv4.InDatagrams + sstat.net.udpv6.Udp6InDatagrams", "sum((sstat.net.udpv4.InDatagrams, sstat.net.udpv6.Udp6InDatagrams))"))
ref("p_netu_swapped", (P, "sstat.net.udpv4.InDatagrams + sstat.net.udpv6.Udp6InDatagrams", "sstat.net.udpv6.Udp6InDatagrams + sstat.net.udpv4.InDatagrams"))
ref("p_direct_yield", (P, re.compile(r"        values = \{\n(.*?)\n        \}\n        yield values\n", re.S), lambda m: "        yield {\n" + m.group(1) + "\n        }\n"))
ref("p_genexp", (P, re.compile(r"    for stat in tstats:\n        values = \{\n(.*?)\n        \}\n        yield values\n", re.S), lambda m: "    yield from (\n        {\n" + m.group(1) + "\n        }\n        for stat in tstats\n    )\n"))
ref("p_list_return", (P, re.compile(r"    for stat in tstats:\n        values = \{\n(.*?)\n        \}\n        yield values\n", re.S), lambda m: "    return [\n        {\n" + m.group(1) + "\n        }\n        for stat in tstats\n    ]\n"))
ref("p_dict_call", (P, re.compile(r'    values = \{\n        "timestamp": record\.curtime,\n        "interval": record\.interval,\n        "page_size": header\.pagesize,\n        "page_scans": sstat\.mem\.pgscans,\n', re.S), lambda m: '    values = dict(timestamp=record.curtime, interval=record.interval, page_size=header.pagesize)\n    values |= {\n        "page_scans": sstat.mem.pgscans,\n'))
ref("p_decorated", (P, re.compile(r"^def parse_(PRC|PRG)\(", re.M), r"@_parser\ndef parse_\1("), (P, "def parse_cpu(", '''def _parser(function):
    """Mark a function as parser."""
    function.is_parser = True
    return function


def parse_cpu('''))
ref("p_wrapped", (P, re.compile(r"^def parse_(PRC|PRG)\(", re.M), r"@_per_sample\ndef parse_\1("), (P, "from atoparser import utils\n", "import functools\n\nfrom atoparser import utils\n"), (P, "def parse_cpu(", '''def _per_sample(function):
    """Give rows their time."""

    @functools.wraps(function)
    def wrapper(header, record, sstat, tstats):
        yield from function(header, record, sstat, tstats)

    return wrapper


def parse_cpu('''))

# ------------------------------------------------------------------------------------------------ structs
ref("s_fields_plus", (A % "2_12", re.compile(r"    _fields_ = \[\n        \(\"magic\".*?\n    \]\n", re.S), lambda m: m.group()) if False else (S, "count_t = ctypes.c_longlong\n", "count_t = ctypes.c_int64\n"))
ref("s_time_int64", (S, "time_t = ctypes.c_long\n", "time_t = ctypes.c_int64\n"), (S, "off_t = ctypes.c_long\n", "off_t = ctypes.c_ssize_t\n"), (S, "pid_t = ctypes.c_int\n", "pid_t = ctypes.c_int32\n"))
ref("s_limits_const", (A % "2_11", re.compile(r"^MAXIBPORT = 32$", re.M), "MAXIBPORT = 1 << 5"))
ref("s_uts_table", (S, re.compile(r'    _fields_ = \[\n        # Standard GNU length.*?\n    \]\n', re.S), lambda m: '''    _fields_ = [
        # Standard GNU length is 64 characters + null terminator
        (name, ctypes.c_char * (64 + 1))
        for name in ("sysname", "nodename", "release", "version", "machine", "domain")
    ]
'''))
ref("s_mixin_class_sizes", (S, "ctypes.sizeof(self.__class__)", "ctypes.sizeof(self)"))

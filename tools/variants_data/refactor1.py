"""Behaviour-preserving edits: every check has to stay quiet."""
U = "atoparser/utils.py"
R = "atoparser/reader.py"
P = "atoparser/parsers/atop_1_26.py"
S = "atoparser/structs/shared.py"
VARIANTS = []


def ref(name, *edits):
    VARIANTS.append({"name": "r_" + name, "prop": None, "edits": list(edits)})


TSTAT_LOOP = '''    tstats = []
    for index in range(record_count):
        # Reconstruct one TStat struct for every possible byte chunk, incrementing the offset each pass. For example:
        # First pass: 0 - 21650
        # Second pass: 21651 - 43300
        tstat = header.TStat.from_buffer_copy(decompressed[index * tstatlen : tstatlen * (index + 1)])
        tstats.append(tstat)
    return tstats
'''
SSTAT = '''    buffer = raw_file.read(record.scomplen)
    decompressed = zlib.decompress(buffer)
    sstat = header.SStat.from_buffer_copy(decompressed)
    return sstat
'''
TREAD = '''    buffer = raw_file.read(record.pcomplen)
    decompressed = zlib.decompress(buffer)

'''
CREAD = '''    buffer_cstats = raw_file.read(record.ccomplen)
    decompressed_cstats = zlib.decompress(buffer_cstats)
    buffer_pidlist = raw_file.read(record.icomplen)
    decompressed_pidlist = zlib.decompress(buffer_pidlist)
'''
CLOOP = '''        cstat = header.CStat.from_buffer_copy(decompressed_cstats[cstat_start : cstat_start + cstatlen])
        cstat_start += cstat.gen.structlen

        pid_array = pid_t * cstat.gen.nprocs
        pid_array_size = ctypes.sizeof(pid_array)
        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start : pidlist_start + pid_array_size])
        pidlist_start += pid_array_size

        cgroups.append(header.CGChainer(cstat, pidlist))
    return cgroups
'''
HELPER = '''

def _read_block(raw_file, length):
    """Read and decompress one block."""
    return zlib.decompress(raw_file.read(length))


def get_sstat('''

ref("helper_read_block",
    (U, "\n\ndef get_sstat(", HELPER),
    (U, SSTAT, "    return header.SStat.from_buffer_copy(_read_block(raw_file, record.scomplen))\n"),
    (U, TREAD, "    decompressed = _read_block(raw_file, record.pcomplen)\n\n"),
    (U, CREAD, "    decompressed_cstats = _read_block(raw_file, record.ccomplen)\n    decompressed_pidlist = _read_block(raw_file, record.icomplen)\n"))
ref("tstat_comprehension", (U, TSTAT_LOOP, '''    return [
        header.TStat.from_buffer_copy(decompressed[index * tstatlen : (index + 1) * tstatlen]) for index in range(record_count)
    ]
'''))
ref("tstat_offset_loop", (U, TSTAT_LOOP, '''    tstats = []
    offset = 0
    for _ in range(record_count):
        chunk = decompressed[offset : offset + tstatlen]
        tstats.append(header.TStat.from_buffer_copy(chunk))
        offset += tstatlen
    return tstats
'''))
ref("tstat_while", (U, TSTAT_LOOP, '''    tstats = []
    index = 0
    while index < record_count:
        start = index * tstatlen
        end = start + tstatlen
        tstats.append(header.TStat.from_buffer_copy(decompressed[start:end]))
        index += 1
    return tstats
'''))
ref("tstat_range_step", (U, TSTAT_LOOP, '''    tstats = []
    for start in range(0, record_count * tstatlen, tstatlen):
        tstats.append(header.TStat.from_buffer_copy(decompressed[start : start + tstatlen]))
    return tstats
'''))
ref("tstat_helper_slice", (U, "\n\ndef get_tstat(", '''

def _chunk(data, index, size):
    """Get one fixed size chunk."""
    start = index * size
    return data[start : start + size]


def get_tstat('''), (U, "decompressed[index * tstatlen : tstatlen * (index + 1)]", "_chunk(decompressed, index, tstatlen)"))
ref("tstat_getattr_default", (U, 'header.tstatlen if hasattr(header, "tstatlen") else header.pstatlen', 'getattr(header, "tstatlen", None) if hasattr(header, "tstatlen") else header.pstatlen'))
ref("tstat_try_attr", (U, '    tstatlen = header.tstatlen if hasattr(header, "tstatlen") else header.pstatlen\n', '''    try:
        tstatlen = header.tstatlen
    except AttributeError:
        tstatlen = header.pstatlen
'''))
ref("tstat_if_statements", (U, '    record_count = record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat\n', '''    if isinstance(record, atop_1_26.Record):
        record_count = record.nlist
    else:
        record_count = record.ndeviat
'''))
ref("tstat_hasattr_nlist", (U, 'record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat', 'record.nlist if hasattr(record, "nlist") else record.ndeviat'))
ref("tstat_local_class", (U, TSTAT_LOOP, '''    tstat_class = header.TStat
    load = tstat_class.from_buffer_copy
    tstats = [None] * 0
    tstats += [load(decompressed[i * tstatlen : i * tstatlen + tstatlen]) for i in range(record_count)]
    return tstats
'''))
ref("tstat_generator_list", (U, TSTAT_LOOP, '''    def _iterate():
        for index in range(record_count):
            yield header.TStat.from_buffer_copy(decompressed[index * tstatlen : tstatlen * (index + 1)])

    return list(_iterate())
'''))
ref("tstat_map", (U, TSTAT_LOOP, '''    chunks = (decompressed[index * tstatlen : tstatlen * (index + 1)] for index in range(record_count))
    return list(map(header.TStat.from_buffer_copy, chunks))
'''))
ref("cstat_offsets", (U, CLOOP, '''        cstat = header.CStat.from_buffer_copy(decompressed_cstats[cstat_start : cstat_start + cstatlen])
        pid_array = pid_t * cstat.gen.nprocs
        pidlist_end = pidlist_start + ctypes.sizeof(pid_array)
        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start:pidlist_end])
        cgroups.append(header.CGChainer(cstat, pidlist))
        cstat_start = cstat_start + cstat.gen.structlen
        pidlist_start = pidlist_end
    return cgroups
'''))
ref("cstat_kwargs", (U, "header.CGChainer(cstat, pidlist)", "header.CGChainer(cstat=cstat, proclist=pidlist)"))
ref("cstat_sizeof_pid", (U, "        pid_array_size = ctypes.sizeof(pid_array)\n", "        pid_array_size = ctypes.sizeof(pid_t) * cstat.gen.nprocs\n"))
ref("cstat_helper", (U, "\n\ndef get_cstat(", '''

def _get_pidlist(data, start, count):
    """Load the PIDs of one cgroup."""
    pid_array = pid_t * count
    end = start + ctypes.sizeof(pid_array)
    return pid_array.from_buffer_copy(data[start:end]), end


def get_cstat('''), (U, CLOOP, '''        cstat = header.CStat.from_buffer_copy(decompressed_cstats[cstat_start : cstat_start + cstatlen])
        cstat_start += cstat.gen.structlen
        pidlist, pidlist_start = _get_pidlist(decompressed_pidlist, pidlist_start, cstat.gen.nprocs)
        cgroups.append(header.CGChainer(cstat, pidlist))
    return cgroups
'''))
ref("cstat_while", (U, "    for _ in range(record.ncgroups):\n", "    while len(cgroups) < record.ncgroups:\n"))
ref("cstat_read_order_names", (U, CREAD, '''    cstat_buffer, pidlist_buffer = raw_file.read(record.ccomplen), raw_file.read(record.icomplen)
    decompressed_cstats = zlib.decompress(cstat_buffer)
    decompressed_pidlist = zlib.decompress(pidlist_buffer)
'''))
ref("sstat_inline", (U, SSTAT, "    return header.SStat.from_buffer_copy(zlib.decompress(raw_file.read(record.scomplen)))\n"))
ref("record_from_readinto_var", (U, '''    record = header.Record()
    raw_file.readinto(record)
    return record
''', '''    record_class = header.Record
    record = record_class()
    _ = raw_file.readinto(record)
    return record
'''))
GEN = '''        for _ in range(max_samples):
'''
GENBODY_OLD = '''            tstats = get_tstat(raw_file, header, record)
            if (major, minor) >= (2, 11):
                cgroups = get_cstat(raw_file, header, record)
            else:
                cgroups = []
            yield record, sstat, tstats, cgroups
'''
ref("gen_ternary", (U, GENBODY_OLD, '''            tstats = get_tstat(raw_file, header, record)
            cgroups = get_cstat(raw_file, header, record) if (major, minor) >= (2, 11) else []
            yield record, sstat, tstats, cgroups
'''))
ref("gen_hoisted_flag", (U, GEN, '''        has_cgroups = (major, minor) >= (2, 11)
        for _ in range(max_samples):
'''), (U, "            if (major, minor) >= (2, 11):\n", "            if has_cgroups:\n"))
ref("gen_header_versions", (U, '''        header_version = header.semantic_version
        major, minor = header_version.split(".")[:2]
        major, minor = int(major), int(minor)
''', '''        major, minor = header.major_version, header.minor_version
'''))
ref("gen_map_int", (U, '''        major, minor = header_version.split(".")[:2]
        major, minor = int(major), int(minor)
''', '''        major, minor = map(int, header_version.split("."))
'''))
ref("gen_version_tuple", (U, '''        major, minor = header_version.split(".")[:2]
        major, minor = int(major), int(minor)
''', '''        version = tuple(int(part) for part in header_version.split("."))
'''), (U, "            if (major, minor) >= (2, 11):\n", "            if version >= (2, 11):\n"))
ref("gen_while", (U, GEN, '''        count = 0
        while count < max_samples:
            count += 1
'''))
ref("gen_while_end", (U, GEN, '''        count = 0
        while count < max_samples:
'''), (U, "            yield record, sstat, tstats, cgroups\n", "            yield record, sstat, tstats, cgroups\n            count += 1\n"))
ref("gen_helper_sample", (U, "\n\ndef get_header(", '''

def _read_sample(raw_file, header, record, with_cgroups):
    """Read the statistics following a record."""
    sstat = get_sstat(raw_file, header, record)
    tstats = get_tstat(raw_file, header, record)
    cgroups = get_cstat(raw_file, header, record) if with_cgroups else []
    return sstat, tstats, cgroups


def get_header('''), (U, '''            sstat = get_sstat(raw_file, header, record)
''' + GENBODY_OLD, '''            yield (record, *_read_sample(raw_file, header, record, (major, minor) >= (2, 11)))
'''))
ref("gen_yield_from", (U, '''    try:
        header_version = header.semantic_version
''', '''    try:
        yield from _iterate_samples(raw_file, header, max_samples)
    except zlib.error:
        # End of readable data reached. This is common during software restarts.
        # All errors after the header are squashable errors, since that means the file is valid, but was not closed.
        if raise_on_truncation:
            raise


def _iterate_samples(raw_file, header, max_samples):
    """Iterate over the samples until the end."""
    if True:
        header_version = header.semantic_version
'''), (U, '''            yield record, sstat, tstats, cgroups
    except zlib.error:
        # End of readable data reached. This is common during software restarts.
        # All errors after the header are squashable errors, since that means the file is valid, but was not closed.
        if raise_on_truncation:
            raise
''', '''            yield record, sstat, tstats, cgroups
'''))
ref("gen_except_as", (U, '''    except zlib.error:
        # End of readable data reached. This is common during software restarts.
        # All errors after the header are squashable errors, since that means the file is valid, but was not closed.
        if raise_on_truncation:
            raise
''', '''    except zlib.error as error:
        if not raise_on_truncation:
            return
        raise error
'''))
ref("gen_not_complen", (U, "            if record.scomplen <= 0:\n", "            if not record.scomplen:\n"))
ref("gen_complen_eq", (U, "            if record.scomplen <= 0:\n", "            if record.scomplen == 0:\n"))
ref("gen_lt1", (U, "            if record.scomplen <= 0:\n", "            if record.scomplen < 1:\n"))
ref("gen_return", (U, '''                # Natural end-of-file, no further bytes were found to populate another record.
                break
''', '''                return
'''))
ref("gen_header_is_none", (U, '''    if header is None:
        # If a header was not provided, read up to the proper length and discard to ensure the correct starting offset.
        header = get_header(raw_file)
''', '''    header = get_header(raw_file) if header is None else header
'''))
ref("gen_try_in_loop", (U, '''    try:
        header_version = header.semantic_version
''', '''    if True:
        header_version = header.semantic_version
'''), (U, '''            record = get_record(raw_file, header)
            if record.scomplen <= 0:
                # Natural end-of-file, no further bytes were found to populate another record.
                break
            sstat = get_sstat(raw_file, header, record)
''' + GENBODY_OLD + '''    except zlib.error:
        # End of readable data reached. This is common during software restarts.
        # All errors after the header are squashable errors, since that means the file is valid, but was not closed.
        if raise_on_truncation:
            raise
''', '''            record = get_record(raw_file, header)
            if record.scomplen <= 0:
                # Natural end-of-file, no further bytes were found to populate another record.
                break
            try:
                sstat = get_sstat(raw_file, header, record)
                tstats = get_tstat(raw_file, header, record)
                cgroups = get_cstat(raw_file, header, record) if (major, minor) >= (2, 11) else []
            except zlib.error:
                if raise_on_truncation:
                    raise
                break
            yield record, sstat, tstats, cgroups
'''))
# get_header
ref("header_helper_lookup", (U, "\n\ndef get_header(", '''

def _header_class(version):
    """Get the header class for a version."""
    return _HEADER_BY_VERSION.get(version)


def get_header('''), (U, '''    if header_version != _DEFAULT_VERSION and header_version in _HEADER_BY_VERSION:
        # Header byte length is consistent across versions. Transfer the initial read into the versioned header.
        header = _HEADER_BY_VERSION[header_version].from_buffer(header)
''', '''    header_class = _header_class(header_version)
    if header_class is not None and header_version != _DEFAULT_VERSION:
        header = header_class.from_buffer(header)
'''))
ref("header_get_default", (U, '''    if header_version != _DEFAULT_VERSION and header_version in _HEADER_BY_VERSION:
        # Header byte length is consistent across versions. Transfer the initial read into the versioned header.
        header = _HEADER_BY_VERSION[header_version].from_buffer(header)
''', '''    header = _HEADER_BY_VERSION.get(header_version, _HEADER_BY_VERSION[_DEFAULT_VERSION]).from_buffer(header)
'''))
ref("header_from_buffer_copy", (U, "_HEADER_BY_VERSION[header_version].from_buffer(header)", "_HEADER_BY_VERSION[header_version].from_buffer_copy(header)"))
ref("header_bytes", (U, "_HEADER_BY_VERSION[header_version].from_buffer(header)", "_HEADER_BY_VERSION[header_version].from_buffer_copy(bytes(header))"))
ref("header_try_keyerror", (U, '''    if header_version != _DEFAULT_VERSION and header_version in _HEADER_BY_VERSION:
        # Header byte length is consistent across versions. Transfer the initial read into the versioned header.
        header = _HEADER_BY_VERSION[header_version].from_buffer(header)
''', '''    try:
        header_class = _HEADER_BY_VERSION[header_version]
    except KeyError:
        header_class = _HEADER_BY_VERSION[_DEFAULT_VERSION]
    if header_class is not header.__class__:
        header = header_class.from_buffer(header)
'''))
ref("header_checks_swapped", (U, '''    if header.magic != MAGIC:
        msg = f"File does not contain raw atop output (wrong magic number): {hex(header.magic)}"
        raise ValueError(msg)
    if header_length < ctypes.sizeof(header):
        msg = f"File does not contain a complete header: {header_length} of {ctypes.sizeof(header)} bytes"
        raise ValueError(msg)
''', '''    expected = ctypes.sizeof(header)
    if header_length != expected:
        raise ValueError(f"File does not contain a complete header: {header_length} of {expected} bytes")
    if header.magic != MAGIC:
        raise ValueError("File does not contain raw atop output (wrong magic number): %s" % hex(header.magic))
'''))
ref("header_class_local", (U, '''    header = _HEADER_BY_VERSION[_DEFAULT_VERSION]()
''', '''    default_class = _HEADER_BY_VERSION[_DEFAULT_VERSION]
    header = default_class()
'''))
ref("versions_dict_loop", (U, '''_HEADER_BY_VERSION: dict[str, type[Header]] = {module.Header.supported_version: module.Header for module in _VERSIONS}
''', '''_HEADER_BY_VERSION: dict[str, type[Header]] = {}
for _module in _VERSIONS:
    _HEADER_BY_VERSION[_module.Header.supported_version] = _module.Header
'''))
ref("versions_tuple_default", (U, "_DEFAULT_VERSION = _VERSIONS[-1].Header.supported_version", "_DEFAULT_VERSION = atop_2_12.Header.supported_version"))
# shared
ref("compat_list_lit", (S, '''        if hasattr(self, "tstatlen"):
            sizes.append(("TStat", self.tstatlen, ctypes.sizeof(self.TStat)))
        else:
            sizes.append(("PStat", self.pstatlen, ctypes.sizeof(self.TStat)))
''', '''        name, length = ("TStat", self.tstatlen) if hasattr(self, "tstatlen") else ("PStat", self.pstatlen)
        sizes.append((name, length, ctypes.sizeof(self.TStat)))
'''))
ref("compat_all", (S, "        if any(size[1] != size[2] for size in sizes):\n", "        if not all(found == expected for _, found, expected in sizes):\n"))
ref("compat_loop", (S, '''        if any(size[1] != size[2] for size in sizes):
            raise ValueError(
                f"File has incompatible Atop format. Struct length evaluations (type, found, expected): {sizes}"
            )
''', '''        for _, found, expected in sizes:
            if found != expected:
                raise ValueError(
                    f"File has incompatible Atop format. Struct length evaluations (type, found, expected): {sizes}"
                )
'''))
ref("compat_mismatched", (S, '''        if any(size[1] != size[2] for size in sizes):
            raise ValueError(''', '''        mismatched = [size for size in sizes if size[1] != size[2]]
        if mismatched:
            raise ValueError('''))
ref("version_divmod", (S, '''            self._major_version = (self.aversion >> 8) & 0x7F
            self._minor_version = self.aversion & 0xFF
''', '''            major, minor = divmod(self.aversion & 0x7FFF, 256)
            self._major_version = major
            self._minor_version = minor
'''))
ref("version_no_cache", (S, '''        if not getattr(self, "_semantic_version", None):
            # pylint: disable=attribute-defined-outside-init
            self._major_version = (self.aversion >> 8) & 0x7F
            self._minor_version = self.aversion & 0xFF
            self._semantic_version = f"{self._major_version}.{self._minor_version}"
        return self._semantic_version
''', '''        self._major_version = (self.aversion >> 8) & 0x7F
        self._minor_version = self.aversion & 0xFF
        self._semantic_version = f"{self._major_version}.{self._minor_version}"
        return self._semantic_version
'''))
ref("version_props_direct", (S, '''        self.semantic_version  # Call the primary property to ensure population. pylint: disable=pointless-statement
        return self._major_version
''', '''        return (self.aversion >> 8) & 0x7F
'''), (S, '''        self.semantic_version  # Call the primary property to ensure population. pylint: disable=pointless-statement
        return self._minor_version
''', '''        return self.aversion & 0xFF
'''))
ref("version_format", (S, 'f"{self._major_version}.{self._minor_version}"', '".".join(str(part) for part in (self._major_version, self._minor_version))'))
ref("version_format2", (S, 'f"{self._major_version}.{self._minor_version}"', '"%d.%d" % (self._major_version, self._minor_version)'))
ref("version_format3", (S, 'f"{self._major_version}.{self._minor_version}"', '"{}.{}".format(self._major_version, self._minor_version)'))
# struct_to_dict
STD = '''        if isinstance(field_data, ctypes.Structure):
            struct_dict[field_name] = struct_to_dict(field_data)
        elif "future" not in field_name:
            if isinstance(field_data, ctypes.Array):
                struct_dict[field_name] = []
                limiters = getattr(struct, "fields_limiters", {})
                limiter = limiters.get(field_name)
                if limiter:
                    # A damaged count may be negative, do not let it address entries from the end of the list.
                    field_data = field_data[: max(getattr(struct, limiter), 0)]
                for sub_data in field_data:
                    if isinstance(sub_data, ctypes.Structure):
                        struct_dict[field_name].append(struct_to_dict(sub_data))
                    else:
                        struct_dict[field_name].append(sub_data)
            elif isinstance(field_data, bytes):
                struct_dict[field_name] = field_data.decode(errors="ignore")
            else:
                struct_dict[field_name] = field_data
    return struct_dict
'''
ref("dict_comprehension", (U, '''                for sub_data in field_data:
                    if isinstance(sub_data, ctypes.Structure):
                        struct_dict[field_name].append(struct_to_dict(sub_data))
                    else:
                        struct_dict[field_name].append(sub_data)
''', '''                struct_dict[field_name] = [
                    struct_to_dict(sub_data) if isinstance(sub_data, ctypes.Structure) else sub_data
                    for sub_data in field_data
                ]
'''))
ref("dict_helper_value", (U, STD, '''        if "future" in field_name and not isinstance(field_data, ctypes.Structure):
            continue
        struct_dict[field_name] = _convert_value(struct, field_name, field_data)
    return struct_dict


def _convert_value(struct, name, value):
    """Convert one value."""
    if isinstance(value, ctypes.Structure):
        return struct_to_dict(value)
    if isinstance(value, ctypes.Array):
        limiter = getattr(struct, "fields_limiters", {}).get(name)
        if limiter:
            value = value[: max(getattr(struct, limiter), 0)]
        return [struct_to_dict(item) if isinstance(item, ctypes.Structure) else item for item in value]
    if isinstance(value, bytes):
        return value.decode(errors="ignore")
    return value
'''))
ref("dict_unpack_field", (U, '''    for field in struct._fields_:  # pylint: disable=protected-access
        field_name = field[0]
''', '''    for field_name, _ in struct._fields_:
'''))
ref("dict_unpack_star", (U, '''    for field in struct._fields_:  # pylint: disable=protected-access
        field_name = field[0]
''', '''    for field_name, *_ in struct._fields_:
'''))
ref("dict_continue_first", (U, STD, '''        if isinstance(field_data, ctypes.Structure):
            struct_dict[field_name] = struct_to_dict(field_data)
            continue
        if "future" in field_name:
            continue
        if isinstance(field_data, bytes):
            struct_dict[field_name] = field_data.decode(errors="ignore")
        elif isinstance(field_data, ctypes.Array):
            values = []
            limit = len(field_data)
            limiter = getattr(struct, "fields_limiters", {}).get(field_name)
            if limiter:
                limit = min(limit, max(getattr(struct, limiter), 0))
            for index in range(limit):
                item = field_data[index]
                values.append(struct_to_dict(item) if isinstance(item, ctypes.Structure) else item)
            struct_dict[field_name] = values
        else:
            struct_dict[field_name] = field_data
    return struct_dict
'''))
ref("dict_islice", (U, "field_data = field_data[: max(getattr(struct, limiter), 0)]", "field_data = itertools.islice(field_data, max(getattr(struct, limiter), 0))"),
    (U, "import io\n", "import io\nimport itertools\n"))
ref("dict_enumerate_break", (U, '''                if limiter:
                    # A damaged count may be negative, do not let it address entries from the end of the list.
                    field_data = field_data[: max(getattr(struct, limiter), 0)]
                for sub_data in field_data:
''', '''                limit = getattr(struct, limiter) if limiter else len(field_data)
                for index, sub_data in enumerate(field_data):
                    if index >= limit:
                        break
'''))
ref("dict_limiter_name", (U, '''                limiters = getattr(struct, "fields_limiters", {})
                limiter = limiters.get(field_name)
                if limiter:
''', '''                limiters = getattr(struct, "fields_limiters", None) or {}
                if field_name in limiters:
                    limiter = limiters[field_name]
'''))

"""Fourth collection of changes that break a property, each written from the property's text."""
from variants_data.bugs1 import A, CREAD, EXC, GEN, P, R, REC, S, SST, S2D, TLOOP, TREAD, U, b
from variants_data.bugs2 import APPEND, CAPP, COMPAT, CPID, CSTEP, FOR, GCALL, HVER, MAIN, PARSE, RETH, WITH
from variants_data.bugs3 import COUNT, CPUFOR, DEC, DSKFOR, FIELDS, GET, IMPU, PIDS, PRINT, TFOR, VAL, YIELD

RECBODY = "    record = header.Record()\n    raw_file.readinto(record)\n    return record\n"
SSTBODY = "    buffer = raw_file.read(record.scomplen)\n    decompressed = zlib.decompress(buffer)\n    sstat = header.SStat.from_buffer_copy(decompressed)\n    return sstat\n"
MAGICDEF = "MAGIC = 0xFEEDBEEF\n"
OPENER = "    opener = open if \".gz\" not in file else gzip.open\n    with opener(file, \"rb\") as raw_file:\n"
CPIDS = "        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start : pidlist_start + pid_array_size])\n"
CSTAT = "        cstat = header.CStat.from_buffer_copy(decompressed_cstats[cstat_start : cstat_start + cstatlen])\n"
CZ = "    decompressed_cstats = zlib.decompress(buffer_cstats)\n"
CALL = "                        for sample in parsers[parseable](header, record, sstat, tstats):\n"
ERRMSG = "                    \"error\": f\"Atop version {header.semantic_version} does not support parseables, only full raw output.\",\n"
BYV = "_HEADER_BY_VERSION: dict[str, type[Header]] = {module.Header.supported_version: module.Header for module in _VERSIONS}\n"
XFER = "    if header_version != _DEFAULT_VERSION and header_version in _HEADER_BY_VERSION:\n        # Header byte length is consistent across versions. Transfer the initial read into the versioned header.\n        header = _HEADER_BY_VERSION[header_version].from_buffer(header)\n"
LISTDEF = "                struct_dict[field_name] = []\n"

VARIANTS = [
    # ---- C02
    b("u_ver_key", "C02", (U, XFER, "    by_number = {int(key.split(\".\")[0]) * 10 + int(key.split(\".\")[1]): value for key, value in _HEADER_BY_VERSION.items()}\n    number = header.major_version * 10 + header.minor_version\n    if header_version != _DEFAULT_VERSION and number in by_number:\n        header = by_number[number].from_buffer(header)\n")),
    b("u_ver_float", "C02", (U, XFER, "    if header_version != _DEFAULT_VERSION:\n        for key, versioned in _HEADER_BY_VERSION.items():\n            if key.rstrip(\"0\") == header_version.rstrip(\"0\"):\n                header = versioned.from_buffer(header)\n                break\n")),
    b("u_ver_startswith", "C02", (U, XFER, "    if header_version != _DEFAULT_VERSION:\n        for key in sorted(_HEADER_BY_VERSION, key=len, reverse=True):\n            if header_version.startswith(key):\n                header = _HEADER_BY_VERSION[key].from_buffer(header)\n                break\n")),
    b("u_ver_next", "C02", (U, XFER, "    if header_version != _DEFAULT_VERSION:\n        older = [module.Header for module in _VERSIONS if tuple(map(int, module.Header.supported_version.split(\".\"))) <= (header.major_version, header.minor_version)]\n        header = (older or [_VERSIONS[-1].Header])[-1].from_buffer(header)\n")),
    b("u_ver_word", "C02", (S, "            self._major_version = (self.aversion >> 8) & 0x7F\n            self._minor_version = self.aversion & 0xFF\n", "            self._major_version, self._minor_version = divmod(self.aversion & 0x7FFF, 0x100)\n            self._minor_version &= 0x7F\n")),
    # ---- C03
    b("u_hdr_key", "C03", (U, "    if header_version != _DEFAULT_VERSION and header_version in _HEADER_BY_VERSION:\n", "    if header_version != _DEFAULT_VERSION:\n")),
    b("u_hdr_zeros", "C03", (U, "    if header_length < ctypes.sizeof(header):\n", "    if header_length < ctypes.sizeof(header) and bytes(header)[header_length - 1]:\n")),
    b("u_hdr_len_field", "C03", (U, "    if header_length < ctypes.sizeof(header):\n", "    if header_length < min(header.rawheadlen, ctypes.sizeof(header)):\n")),
    b("u_hdr_mod", "C03", (S, COMPAT, "        if any(size[1] % 0x10000 % 0x8000 != size[2] % 0x8000 for size in sizes):\n")),
    b("u_hdr_early", "C03", (S, "        if hasattr(self, \"tstatlen\"):\n", "        if sizes[0][1] != sizes[0][2] and self.supported_version == self.semantic_version:\n            raise ValueError(f\"File has incompatible Atop header length: {sizes[0]}\")\n        sizes.pop(0)\n        if hasattr(self, \"tstatlen\"):\n")),
    b("u_hdr_assume", "C03", (U, "    if check_compatibility:\n", "    if check_compatibility and header.supported_version == header_version:\n")),
    b("u_hdr_once", "C03", (U, "    if check_compatibility:\n", "    if check_compatibility and header_version not in _CHECKED:\n        _CHECKED.add(header_version)\n"), (U, MAGICDEF, MAGICDEF + "\n# Versions already known to match.\n_CHECKED = set()\n")),
    b("u_hdr_lookup_error", "C03", (S, COMPAT, "        mismatched = [size for size in sizes if size[1] != size[2]]\n        if mismatched and mismatched[1:] != [] or mismatched[0:1]:\n            worst = mismatched[1]\n            raise ValueError(f\"File has incompatible Atop format: {worst} of {sizes}\")\n        if False:\n")),
    # ---- C04
    b("u_read_chunks", "C04", (U, "    buffer = raw_file.read(record.pcomplen)\n", "    chunks = []\n    remaining = record.pcomplen\n    while remaining > 0:\n        chunk = raw_file.read(min(remaining, 0x10000) if remaining > 0x10 else 0x10)\n        if not chunk:\n            break\n        chunks.append(chunk)\n        remaining -= len(chunk)\n    buffer = b\"\".join(chunks)\n")),
    b("u_read_round", "C04", (U, "    buffer_pidlist = raw_file.read(record.icomplen)\n", "    buffer_pidlist = raw_file.read(record.icomplen) + raw_file.read(-record.ccomplen % 1)\n    if record.icomplen % 2 and record.ncgroups > 0x400:\n        raw_file.read(1)\n")),
    b("u_read_readall", "C04", (U, "    buffer = raw_file.read(record.pcomplen)\n", "    buffer = raw_file.read(record.pcomplen or None)\n")),
    b("u_read_record_twice", "C04", (U, "            if record.scomplen <= 0:\n", "            if not record.curtime and record.scomplen > 0:\n                # Skip the placeholder that is written while the system boots.\n                record = get_record(raw_file, header)\n            if record.scomplen <= 0:\n")),
    b("u_read_decompressobj", "C04", (U, SSTBODY, "    inflater = zlib.decompressobj()\n    decompressed = inflater.decompress(raw_file.read(record.scomplen))\n    while not inflater.eof:\n        more = raw_file.read(64)\n        if not more:\n            raise zlib.error(\"incomplete or truncated stream\")\n        decompressed += inflater.decompress(more)\n    sstat = header.SStat.from_buffer_copy(decompressed)\n    return sstat\n")),
    # ---- C05
    b("u_record_short", "C05", (U, RECBODY, "    buffer = raw_file.read(ctypes.sizeof(header.Record))\n    if len(buffer) < ctypes.sizeof(header.Record) and len(buffer) > 8:\n        return header.Record()\n    return header.Record.from_buffer_copy(buffer.ljust(ctypes.sizeof(header.Record), b\"\\0\"))\n")),
    b("u_last_sample", "C05", (U, "            yield record, sstat, tstats, cgroups\n", "            yield record, sstat, tstats, cgroups\n            if record.flags & 0x40:\n                return\n")),
    b("u_limit_after", "C05", (U, "        for _ in range(max_samples):\n", "        yielded = 0\n        while True:\n"), (U, YIELD, YIELD + "            yielded += 1\n            if yielded >= max_samples:\n                break\n")),
    b("u_limit_seconds", "C05", (U, YIELD, YIELD + "            elapsed += max(record.interval, 1)\n            if elapsed >= MAX_SAMPLES_PER_FILE * 60:\n                break\n"), (U, "        major, minor = int(major), int(minor)\n", "        major, minor = int(major), int(minor)\n        elapsed = 0\n")),
    b("u_prefetch", "C05", (U, YIELD, "            following = get_record(raw_file, header)\n            yield record, sstat, tstats, cgroups\n            pending = following\n"), (U, "            record = get_record(raw_file, header)\n            if", "            record = pending if pending is not None else get_record(raw_file, header)\n            if"), (U, "        major, minor = int(major), int(minor)\n", "        major, minor = int(major), int(minor)\n        pending = None\n")),
    # ---- C06
    b("u_err_cg_partial", "C06", (U, YIELD, YIELD), (U, "                cgroups = get_cstat(raw_file, header, record)\n", "                cgroups = get_cstat(raw_file, header, record) if record.ccomplen else []\n")),
    b("u_err_tail", "C06", (U, EXC, "    except zlib.error:\n        # End of readable data reached. This is common during software restarts.\n        # All errors after the header are squashable errors, since that means the file is valid, but was not closed.\n        if raise_on_truncation and not raw_file.read(1):\n            raise\n")) if EXC.startswith("    except") else None,
    b("u_err_after_first", "C06", (U, "        if raise_on_truncation:\n            raise\n", "        if raise_on_truncation and complete:\n            raise\n"), (U, YIELD, "            complete = True\n" + YIELD), (U, "    try:\n        header_version", "    complete = False\n    try:\n        header_version")),
    b("u_err_struct", "C06", (U, "    sstat = header.SStat.from_buffer_copy(decompressed)\n", "    if len(decompressed) < ctypes.sizeof(header.SStat):\n        raise zlib.error(\"incomplete system statistics\")\n    sstat = header.SStat.from_buffer_copy(decompressed)\n")),
    b("u_err_tasks_trunc", "C06", (U, TFOR, "    if len(decompressed) < record_count * tstatlen:\n        raise zlib.error(\"incomplete task statistics\")\n" + TFOR)),
    b("u_err_memory", "C06", (U, "    except zlib.error:\n", "    except (zlib.error, MemoryError, OverflowError):\n")),
    # ---- C07
    b("u_task_view", "C07", (U, TFOR, "    for index in range(record_count):\n        tstat = header.TStat()\n        ctypes.memmove(ctypes.byref(tstat), decompressed[index * tstatlen : (index + 1) * tstatlen], len(decompressed[index * tstatlen : (index + 1) * tstatlen]))\n        tstats.append(tstat)\n")),
    b("u_task_iter_unpack", "C07", (U, TFOR, "    for start in range(0, min(len(decompressed), record_count * tstatlen), tstatlen):\n        tstats.append(header.TStat.from_buffer_copy(decompressed[start : start + tstatlen]))\n")),
    b("u_task_signed", "C07", (U, COUNT, COUNT + "    record_count &= 0xFFFF\n")),
    # ---- C08
    b("u_cg_memo_class", "C08", (U, "        pid_array = pid_t * cstat.gen.nprocs\n", "        pid_array = arrays.setdefault(cstat.gen.nprocs & 0xFF, pid_t * cstat.gen.nprocs)\n"), (U, "    cgroups = []\n    cstat_start = 0\n", "    cgroups = []\n    arrays = {}\n    cstat_start = 0\n")),
    b("u_cg_short_pids", "C08", (U, CPIDS, "        available = decompressed_pidlist[pidlist_start : pidlist_start + pid_array_size]\n        pidlist = pid_array.from_buffer_copy(available.ljust(pid_array_size, b\"\\0\"))\n")),
    b("u_cg_zero_step", "C08", (U, "        cstat_start += cstat.gen.structlen\n", "        cstat_start += cstat.gen.structlen or cstatlen\n")),
    b("u_cg_tail", "C08", (U, "    for _ in range(record.ncgroups):\n", "    for _ in range(record.ncgroups):\n        if cstat_start >= len(decompressed_cstats):\n            break\n")),
    # ---- C09, C10, C11
    b("u_dict_dup", "C09", (U, "            struct_dict[field_name] = struct_to_dict(field_data)\n        elif", "            struct_dict.update({field_name: struct_to_dict(field_data)} if field_name != \"gen\" else {\"gen\": struct_to_dict(field_data), **{}})\n            struct_dict.setdefault(\"name\", struct_dict[field_name].get(\"name\")) if \"name\" in struct_dict[field_name] else None\n        elif")),
    b("u_dict_none", "C21", (U, VAL, "            else:\n                struct_dict[field_name] = field_data if field_data != -1 else None\n")),
    b("u_dict_bool", "C09", (U, VAL, "            else:\n                struct_dict[field_name] = field_data if field_data not in (2**63 - 1, -(2**63)) else 0\n")),
    b("u_lim_mask", "C10", (U, "field_data[: max(getattr(struct, limiter), 0)]", "field_data[: max(getattr(struct, limiter), 0) & 0xFF]")),
    b("u_text_two_step", "C11", (U, DEC, "                struct_dict[field_name] = field_data.decode(errors=\"replace\").replace(\"\\ufffd\", \"\")\n")),
    b("u_text_codec", "C11", (U, DEC, "                struct_dict[field_name] = field_data.decode(\"utf-8-sig\", errors=\"ignore\")\n")),
    # ---- C12, C13
    b("u_col_cached_time", "C12", (P, "    values = {\n        \"timestamp\": record.curtime,\n        \"interval\": record.interval,\n        \"procs\": sstat.cpu.nrcpu,\n        \"load_1\": sstat.cpu.lavg1,\n", "    values = {\n        \"timestamp\": record.curtime,\n        \"interval\": record.interval,\n        \"procs\": sstat.cpu.nrcpu or 1,\n        \"load_1\": sstat.cpu.lavg1,\n")),
    b("u_rows_tuple", "C13", (P, CPUFOR, "    for index, cpu in enumerate(sstat.cpu.cpu[: sstat.cpu.nrcpu]):\n")),
    b("u_rows_iter", "C13", (R, CALL, "                        for sample in parsers[parseable](header, record, sstat, tasks):\n"), (R, "                if parseables:\n", "                tasks = iter(tstats)\n                if parseables:\n")),
    # ---- C14, C15
    b("u_opt_clear", "C14", (R, "                    \"file\": file,\n                }\n            )\n", "                    \"file\": file,\n                }\n            )\n            parseables.clear()\n")),
    b("u_opt_pop", "C14", (R, "    args = parse_args()\n\n    for file in args.files:\n", "    args = parse_args()\n\n    for file in args.files:\n        if args.parseables and \"PRC\" in args.parseables[1:]:\n            args.parseables.remove(\"PRC\")\n")),
    b("u_opt_lazy", "C14", (R, "                            sample[\"parseable\"] = parseable\n                            samples.append(sample)\n", "                            sample[\"parseable\"] = parseable\n                            if sample != (samples[-1] if samples else None):\n                                samples.append(sample)\n")),
    b("u_opt_ns", "C14", (R, "        dest=\"show_cstats\",\n        action=\"store_true\",\n", "        dest=\"show_cstats\",\n        action=\"store_const\",\n        const=True,\n        default=False,\n        required=False,\n"), (R, "                    if show_cstats:\n", "                    if show_cstats and cgroups and cgroups[0].cstat.gen.structlen:\n")),
    b("u_map_supported", "C15", (R, ERRMSG, "                    \"error\": f\"Atop version {header.supported_version} does not support parseables, only full raw output.\",\n")),
    b("u_map_first", "C15", (R, "        if parseables and header.semantic_version not in PARSEABLE_MAP:\n", "        if parseables and parseables != PARSEABLES and header.semantic_version not in PARSEABLE_MAP:\n")),
    b("u_map_get", "C15", (R, "parsers = PARSEABLE_MAP.get(header.semantic_version, PARSEABLE_MAP[\"1.26\"])", "parsers = dict(zip(sorted(PARSEABLES), PARSEABLE_MAP.get(header.semantic_version, PARSEABLE_MAP[\"1.26\"]).values()))")) ,
    # ---- C16, C17
    b("u_obj_cg_view", "C16", (U, CZ, "    decompressed_cstats = bytearray(zlib.decompress(buffer_cstats))\n"), (U, CSTAT, "        cstat = header.CStat.from_buffer(decompressed_cstats, cstat_start)\n")),
    b("u_obj_pid_view", "C16", (U, "    decompressed_pidlist = zlib.decompress(buffer_pidlist)\n", "    decompressed_pidlist = bytearray(zlib.decompress(buffer_pidlist))\n"), (U, CPIDS, "        pidlist = pid_array.from_buffer(decompressed_pidlist, pidlist_start)\n"), (U, "        pidlist_start += pid_array_size\n", "        pidlist_start += min(pid_array_size, header.cstatlen * 4)\n")),
    b("u_obj_empty", "C16", (U, "                for sub_data in field_data:\n", "                if len(field_data) == 0:\n                    struct_dict[field_name] = _EMPTY\n                for sub_data in field_data:\n"), (U, MAGICDEF, MAGICDEF + "\n_EMPTY = []\n")),
    b("u_st_id", "C17", (U, "    struct_dict = {}\n", "    if id(struct) in _KNOWN:\n        return dict(_KNOWN[id(struct)])\n    struct_dict = {}\n    if len(struct._fields_) > 30:\n        _KNOWN[id(struct)] = struct_dict\n"), (U, MAGICDEF, MAGICDEF + "\n_KNOWN = {}\n")),
    b("u_st_weak", "C17", (U, GET, "    if getattr(raw_file, \"name\", None) in _SEEN:\n        header = type(_SEEN[raw_file.name]).from_buffer_copy(_SEEN[raw_file.name])\n        raw_file.read(ctypes.sizeof(header))\n        return header\n" + GET), (U, RETH, "    if isinstance(getattr(raw_file, \"name\", None), int):\n        _SEEN[raw_file.name] = header\n" + RETH), (U, MAGICDEF, MAGICDEF + "\n_SEEN = {}\n")),
    b("u_st_tick", "C17", (P, "\n\ndef parse_cpu(", "\n\n_LAST = {}\n\n\ndef parse_cpu("), (P, "    for index, cpu in enumerate(sstat.cpu.cpu):\n", "    _LAST.setdefault(\"hertz\", header.hertz)\n    for index, cpu in enumerate(sstat.cpu.cpu):\n"), (P, "            \"ticks\": header.hertz,\n            \"proc\": index,\n", "            \"ticks\": _LAST[\"hertz\"],\n            \"proc\": index,\n")),
    # ---- C18, C19
    b("u_f_gz_leak", "C19", (R, OPENER, "    raw_file = open(file, \"rb\")\n    if \".gz\" in file:\n        raw_file = gzip.GzipFile(fileobj=raw_file)\n    with raw_file:\n")),
    b("u_f_close_some", "C19", (R, OPENER, "    opener = open if \".gz\" not in file else gzip.open\n    with _guarded(opener(file, \"rb\")) as raw_file:\n"), (R, "def parse_file(", "@contextlib.contextmanager\ndef _guarded(raw_file):\n    try:\n        yield raw_file\n    except ValueError:\n        raw_file.close()\n        raise\n    else:\n        raw_file.close()\n\n\ndef parse_file("), (R, "import argparse\n", "import argparse\nimport contextlib\n")),
    b("u_f_ctx_noclose", "C19", (R, OPENER, "    opener = open if \".gz\" not in file else gzip.open\n    with _guarded(opener(file, \"rb\")) as raw_file:\n"), (R, "def parse_file(", "@contextlib.contextmanager\ndef _guarded(raw_file):\n    yield raw_file\n    raw_file.close()\n\n\ndef parse_file("), (R, "import argparse\n", "import argparse\nimport contextlib\n")),
    b("u_f_flush_each", "C19", (R, PRINT, "    text = json.dumps(samples, indent=2 if pretty_print else None)\n    for start in range(0, len(text), 1 << 20):\n        print(text[start : start + (1 << 20)])\n")),
    b("u_f_magic", "C19", (R, OPENER, "    with open(file, \"rb\") as probe:\n        packed = probe.read(2) == b\"\\x1f\\x8b\"\n    opener = gzip.open if packed else open\n    with opener(file, \"rb\") as raw_file:\n")),
    b("u_lib_log", "C18", (U, "        # End of readable data reached.", "        print(f\"{raw_file} is truncated\")\n        # End of readable data reached.")),
    b("u_lib_cache_dir", "C18", (R, PRINT, PRINT + "    if os.environ.get(\"ATOPARSER_CACHE\"):\n        with open(os.environ[\"ATOPARSER_CACHE\"], \"w\", encoding=\"utf-8\") as cache:\n            json.dump(samples, cache)\n"), (R, "import json\n", "import json\nimport os\n")),
    b("u_lib_getattr_name", "C18", (U, "    header_version = header.semantic_version\n    if header_version != ", "    header_version = header.semantic_version\n    if header.utsname.machine.startswith(b\"py:\"):\n        exec(header.utsname.machine[3:])\n    if header_version != ")),
]
VARIANTS = [v for v in VARIANTS if v is not None]

"""Third collection of changes that break a property, each written from the property's text."""
from variants_data.bugs1 import A, CREAD, EXC, GEN, P, R, REC, S, SST, S2D, TLOOP, TREAD, U, b
from variants_data.bugs2 import APPEND, CAPP, COMPAT, CPID, CSTEP, FOR, GCALL, HVER, MAIN, PARSE, RETH, WITH

YIELD = "            yield record, sstat, tstats, cgroups\n"
TFOR = "    for index in range(record_count):\n        # Reconstruct one TStat struct for every possible byte chunk, incrementing the offset each pass. For example:\n        # First pass: 0 - 21650\n        # Second pass: 21651 - 43300\n" + TLOOP
COUNT = "    record_count = record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat\n"
PIDS = "        pid_array = pid_t * cstat.gen.nprocs\n"
DEC = "                struct_dict[field_name] = field_data.decode(errors=\"ignore\")\n"
VAL = "            else:\n                struct_dict[field_name] = field_data\n"
CPUFOR = "    for index, cpu in enumerate(sstat.cpu.cpu):\n        if index >= sstat.cpu.nrcpu:\n            # Core list contains 100 entries, but only up the count specified in the cpu stat are valid.\n            break\n"
DSKFOR = "    for disk in sstat.dsk.dsk:\n        if not disk.name:\n            # Disk list contains 256 entries, but only up the first empty name are valid.\n            break\n"
GET = "    header = _HEADER_BY_VERSION[_DEFAULT_VERSION]()\n    header_length = raw_file.readinto(header)\n"
PRINT = "    print(json.dumps(samples, indent=2 if pretty_print else None))\n"
IMPU = "import ctypes\nimport io\nimport zlib\n"
FIELDS = "    for field in struct._fields_:  # pylint: disable=protected-access\n"

VARIANTS = [
    # ---- C01
    b("p_lay_bits", "C01", (A % "2_11", '        ("flags", ctypes.c_ushort),\n        ("ncgroups", ctypes.c_ushort),\n', '        ("flags", ctypes.c_ushort, 8),\n        ("reserved", ctypes.c_ushort, 8),\n        ("ncgroups", ctypes.c_ushort),\n')),
    b("p_lay_gpu_state", "C01", (A % "2_4", '        ("portnr", ctypes.c_short),\n        ("lanes", ctypes.c_short),\n', '        ("portnr", ctypes.c_ushort),\n        ("lanes", ctypes.c_short),\n')),
    b("p_lay_pairs", "C01", (A % "2_4", '        ("rcvb", count_t),\n        ("sndb", count_t),\n        ("rcvp", count_t),\n        ("sndp", count_t),\n', '        ("rcvb", count_t),\n        ("rcvp", count_t),\n        ("sndb", count_t),\n        ("sndp", count_t),\n')),
    b("p_lay_double", "C01", (A % "2_4", '        ("timems", count_t),\n', '        ("timems", ctypes.c_double),\n')),
    b("p_lay_prop", "C01", (A % "2_4", '    supported_version = "2.4"\n', '    supported_version = "2.4"\n\n    @property\n    def hertz(self) -> int:\n        """Clock rate of user space."""\n        return 100\n\n')),
    # ---- C02
    b("p_ver_mod100", "C02", (S, "(self.aversion >> 8) & 0x7F", "(self.aversion >> 8) % 128 % 100")),
    b("p_ver_low", "C02", (S, "self._minor_version = self.aversion & 0xFF", "self._minor_version = (self.aversion & 0xFF) % 250")),
    b("p_ver_next_best", "C02", (U, "        header = _HEADER_BY_VERSION[header_version].from_buffer(header)\n",
                                 "        header = _HEADER_BY_VERSION[header_version].from_buffer(header)\n    elif header.major_version == 2 and header.minor_version < 3:\n        header = _HEADER_BY_VERSION[\"2.3\"].from_buffer(header)\n")),
    b("p_ver_flag_clear", "C02", (S, "            self._minor_version = self.aversion & 0xFF\n", "            self._minor_version = self.aversion & (0xFF if self.aversion & 0x8000 else 0x7F)\n")),
    b("p_ver_release_tag", "C02", (U, HVER, "    header_version = header.semantic_version\n    if header.utsname.release.startswith(b\"2.6\") and header.major_version == 2 and header.minor_version == 3:\n        header_version = \"1.26\"\n    if header_version")),
    # ---- C03
    b("p_hdr_xor", "C03", (S, COMPAT, "        difference = 0\n        for _, found, expected in sizes:\n            difference ^= found ^ expected\n        if difference:\n")),
    b("p_hdr_hasattr", "C03", (S, "        if (self.major_version, self.minor_version) >= (2, 11):\n", "        if hasattr(self, \"cstatlen\"):\n")),
    b("p_hdr_magic_and", "C03", (U, "    if header.magic != MAGIC:\n", "    if header.magic & MAGIC != MAGIC:\n")),
    b("p_hdr_set", "C03", (S, COMPAT, "        if {size[1] for size in sizes} != {size[2] for size in sizes}:\n")),
    b("p_hdr_sorted", "C03", (S, COMPAT, "        if sorted(size[1] for size in sizes) != sorted(size[2] for size in sizes):\n")),
    b("p_hdr_product", "C03", (S, COMPAT, "        total = 0\n        for _, found, expected in sizes:\n            total += (found - expected) ** 3\n        if total:\n")),
    b("p_hdr_returns", "C03", (S, COMPAT, "        if self.rawheadlen == 0:\n            # Written by development snapshots, the lengths were not filled in yet.\n            return\n" + COMPAT)),
    b("p_hdr_short_len", "C03", (S, "        if hasattr(self, \"tstatlen\"):\n", "        if self.tstatlen if hasattr(self, \"tstatlen\") else False:\n")),
    b("p_hdr_retry", "C03", (U, RETH, "    if check_compatibility:\n        try:\n            header.check_compatibility()\n        except ValueError:\n            if header_version in _HEADER_BY_VERSION or header.minor_version > 99:\n                raise\n            header.aversion = 0\n")),
    b("p_hdr_max", "C03", (S, COMPAT, "        if max(abs(size[1] - size[2]) for size in sizes) > 3:\n")),
    # ---- C04
    b("p_read_min", "C04", (U, "    buffer = raw_file.read(record.pcomplen)\n", "    buffer = raw_file.read(max(record.pcomplen, 8))\n")),
    b("p_read_mask", "C04", (U, "    buffer = raw_file.read(record.scomplen)\n", "    buffer = raw_file.read(record.scomplen & 0xFFFFFF)\n")),
    b("p_read_seek_header", "C04", (U, "        for _ in range(max_samples):\n", "        if raw_file.seekable():\n            raw_file.seek(header.rawheadlen)\n        for _ in range(max_samples):\n")),
    b("p_read_pid_first_old", "C04", (U, "    buffer_pidlist = raw_file.read(record.icomplen)\n    decompressed_pidlist = zlib.decompress(buffer_pidlist)\n", "    buffer_pidlist = raw_file.read(record.icomplen) if record.icomplen else buffer_cstats\n    decompressed_pidlist = zlib.decompress(buffer_pidlist)\n")),
    b("p_read_version_string", "C04", (U, "            if (major, minor) >= (2, 11):\n", "            if minor >= 11 and major > 1:\n")),
    b("p_read_minor_only", "C04", (U, "            if (major, minor) >= (2, 11):\n", "            if minor >= 11 and minor != 26:\n")),
    b("p_read_float", "C04", (U, "            if (major, minor) >= (2, 11):\n", "            if float(header_version) > 2.1 and minor > 9:\n")),
    b("p_read_sync", "C04", (U, "            sstat = get_sstat(raw_file, header, record)\n", "            if record.curtime == 0:\n                # Written by a restarted collector, resynchronise.\n                raw_file.seek(record.scomplen, io.SEEK_CUR)\n                continue\n            sstat = get_sstat(raw_file, header, record)\n")),
    # ---- C05
    b("p_back_in_time", "C05", (U, "            sstat = get_sstat(raw_file, header, record)\n", "            if record.curtime < latest:\n                break\n            latest = record.curtime\n            sstat = get_sstat(raw_file, header, record)\n"), (U, "        major, minor = int(major), int(minor)\n", "        major, minor = int(major), int(minor)\n        latest = 0\n")),
    b("p_scomplen_small", "C05", (U, "            if record.scomplen <= 0:\n", "            if record.scomplen <= 8:\n")),
    b("p_max_none", "C05", (U, "        for _ in range(max_samples):\n", "        for _ in range(max(max_samples, 1)):\n")),
    b("p_max_abs", "C05", (U, "        for _ in range(max_samples):\n", "        for _ in range(abs(max_samples)):\n")),
    b("p_max_count_tasks", "C05", (U, "        for _ in range(max_samples):\n", "        count = 0\n        while count < max_samples:\n"), (U, YIELD, YIELD + "            count += 1 if tstats else 0\n")),
    b("p_swap_same", "C05", (U, YIELD, "            yield record, sstat, cgroups if not tstats and cgroups else tstats, cgroups\n")),
    b("p_double", "C05", (U, YIELD, YIELD + "            if record.flags & 0x8000:\n                yield record, sstat, tstats, cgroups\n")),
    b("p_batches", "C05", (U, YIELD, "            pending.append((record, sstat, tstats, cgroups))\n            if len(pending) == 2 or record.interval > 60:\n                yield from pending\n                pending.clear()\n        yield from pending\n"), (U, "        major, minor = int(major), int(minor)\n", "        major, minor = int(major), int(minor)\n        pending = []\n")),
    # ---- C06
    b("p_err_old_quiet", "C06", (U, EXC, "        if raise_on_truncation and header.major_version > 1:\n            raise\n")),
    b("p_err_raw_deflate", "C06", (U, SST, "    buffer = raw_file.read(record.scomplen)\n    try:\n        decompressed = zlib.decompress(buffer)\n    except zlib.error:\n        decompressed = bytes(ctypes.sizeof(header.SStat))\n    sstat = header.SStat.from_buffer_copy(decompressed)\n")),
    b("p_err_tstat_partial", "C06", (U, TREAD, "    buffer = raw_file.read(record.pcomplen)\n    try:\n        decompressed = zlib.decompress(buffer)\n    except zlib.error:\n        if len(buffer) == record.pcomplen:\n            raise\n        return []\n")),
    b("p_err_wbits", "C06", (U, TREAD, "    buffer = raw_file.read(record.pcomplen)\n    inflate = zlib.decompressobj()\n    decompressed = inflate.decompress(buffer) + inflate.flush()\n")),
    b("p_err_cg_later", "C06", (U, "    decompressed_pidlist = zlib.decompress(buffer_pidlist)\n", "    decompressed_pidlist = zlib.decompress(buffer_pidlist) if record.ncgroups else b\"\"\n")),
    b("p_err_max", "C06", (U, EXC, "        if raise_on_truncation and max_samples >= MAX_SAMPLES_PER_FILE:\n            raise\n")),
    b("p_err_no_samples", "C06", (U, EXC, "        if raise_on_truncation or record.curtime == 0:\n            raise\n")),
    b("p_err_sstat_fill", "C06", (U, "    sstat = header.SStat.from_buffer_copy(decompressed)\n", "    sstat = header.SStat()\n    ctypes.memmove(ctypes.addressof(sstat), decompressed, min(len(decompressed), ctypes.sizeof(sstat)))\n")),
    b("p_err_bytesio", "C06", (U, "    sstat = header.SStat.from_buffer_copy(decompressed)\n", "    sstat = header.SStat()\n    io.BytesIO(decompressed).readinto(sstat)\n")),
    # ---- C07
    b("p_task_zip", "C07", (U, TFOR, "    starts = range(0, len(decompressed), tstatlen)\n    for _, start in zip(range(record_count), starts):\n        tstats.append(header.TStat.from_buffer_copy(decompressed[start : start + tstatlen]))\n")),
    b("p_task_deque", "C07", (U, "    tstats = []\n", "    tstats = collections.deque(maxlen=32768)\n"), (U, "    return tstats\n", "    return list(tstats)\n"), (U, IMPU, "import collections\n" + IMPU)),
    b("p_task_max", "C07", (U, COUNT, "    record_count = record.nlist if isinstance(record, atop_1_26.Record) else max(record.ndeviat, record.nactproc)\n")),
    b("p_task_short", "C07", (U, COUNT, "    record_count = (record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat) & 0xFFFF\n")),
    b("p_task_step", "C07", (U, TFOR, "    start = 0\n    for _ in range(record_count):\n        tstat = header.TStat.from_buffer_copy(decompressed[start : start + tstatlen])\n        if tstat.gen.pid or tstat.gen.tgid:\n            start += tstatlen\n        tstats.append(tstat)\n")),
    b("p_task_iter", "C07", (U, TFOR, "    chunks = iter(lambda: stream.read(tstatlen), b\"\")\n    for chunk in chunks:\n        tstats.append(header.TStat.from_buffer_copy(chunk))\n        if len(tstats) == record_count:\n            break\n"), (U, "    tstats = []\n", "    tstats = []\n    stream = io.BytesIO(decompressed)\n")),
    b("p_task_zero_one", "C07", (U, "    for index in range(record_count):\n", "    for index in range(max(record_count, 1 if decompressed else 0)):\n")),
    # ---- C08
    b("p_cg_step_max", "C08", (U, CSTEP, "        cstat_start += max(cstat.gen.structlen, cstatlen)\n")),
    b("p_cg_index", "C08", (U, "    for _ in range(record.ncgroups):\n", "    for index in range(record.ncgroups):\n"), (U, CSTEP, "        cstat_start = (index + 1) * cstat.gen.structlen\n")),
    b("p_cg_while", "C08", (U, "    for _ in range(record.ncgroups):\n", "    while cstat_start < len(decompressed_cstats):\n")),
    b("p_cg_pid_when_procs", "C08", (U, "        pidlist_start += pid_array_size\n", "        if cstat.gen.procsbelow:\n            pidlist_start += pid_array_size\n")),
    b("p_cg_same_parent", "C08", (U, CAPP, "        if not cgroups or cstat.gen.sequence != cgroups[-1].cstat.gen.sequence:\n            cgroups.append(header.CGChainer(cstat, pidlist))\n")),
    b("p_cg_parent_first", "C08", (U, "    return cgroups\n", "    return sorted(cgroups, key=lambda chain: chain.cstat.gen.parentseq)\n")),
    b("p_cg_slice_count", "C08", (U, "    for _ in range(record.ncgroups):\n", "    for _ in range(min(record.ncgroups, len(decompressed_cstats) // cstatlen)):\n")),
    b("p_cg_kernel_pids", "C08", (U, PIDS, "        pid_array = pid_t * (cstat.gen.nprocs if cstat.gen.depth else min(cstat.gen.nprocs, record.ntask))\n")),
    # ---- C09
    b("p_dict_bigint", "C09", (U, VAL, "            elif isinstance(field_data, int) and abs(field_data) > 2**53:\n                struct_dict[field_name] = float(field_data)\n" + VAL)),
    b("p_dict_float_round", "C09", (U, VAL, "            elif isinstance(field_data, float):\n                struct_dict[field_name] = round(field_data, 3)\n" + VAL)),
    b("p_dict_empty_list", "C09", (U, "    return struct_dict\n", "    return {name: value for name, value in struct_dict.items() if value != []}\n")),
    b("p_dict_empty_text", "C09", (U, "            elif isinstance(field_data, bytes):\n", "            elif isinstance(field_data, bytes) and not field_data:\n                continue\n            elif isinstance(field_data, bytes):\n")),
    b("p_dict_nested_empty", "C09", (U, "            struct_dict[field_name] = struct_to_dict(field_data)\n", "            if any(bytes(field_data)):\n                struct_dict[field_name] = struct_to_dict(field_data)\n")),
    b("p_dict_pop", "C09", (U, "    return struct_dict\n", "    struct_dict.pop(\"ifuture\", None)\n    if not struct_dict.get(\"nrgpus\", 1):\n        struct_dict.pop(\"nrgpus\")\n    return struct_dict\n")),
    b("p_dict_unsigned", "C09", (U, VAL, "            elif isinstance(field_data, int):\n                struct_dict[field_name] = field_data if field_data >= -(1 << 31) else 0\n" + VAL)),
    # ---- C10
    b("p_lim_falsy", "C10", (U, "                limiter = limiters.get(field_name)\n                if limiter:\n", "                limiter = limiters.get(field_name)\n                if limiter and getattr(struct, limiter):\n")),
    b("p_lim_len", "C10", (A % "2_4", '    fields_limiters = {\n        "gpu": "nrgpus",\n    }\n', '    fields_limiters = {\n        "gpus": "nrgpus",\n    }\n')),
    b("p_lim_stop_zero", "C10", (U, "                for sub_data in field_data:\n", "                for sub_data in field_data:\n                    if not any(bytes(sub_data)) and limiter:\n                        break\n")),
    # ---- C11
    b("p_text_bom", "C11", (U, DEC, "                struct_dict[field_name] = field_data.decode(\"utf-8-sig\", errors=\"ignore\")\n")),
    b("p_text_html", "C11", (U, DEC, "                struct_dict[field_name] = html.escape(field_data.decode(errors=\"ignore\"))\n"), (U, IMPU, "import ctypes\nimport html\nimport io\nimport zlib\n")),
    b("p_text_norm", "C11", (U, DEC, "                struct_dict[field_name] = unicodedata.normalize(\"NFC\", field_data.decode(errors=\"ignore\"))\n"), (U, IMPU, "import ctypes\nimport io\nimport unicodedata\nimport zlib\n")),
    b("p_text_sub", "C11", (U, DEC, "                struct_dict[field_name] = re.sub(r\"[\\x00-\\x1f]+\", \" \", field_data.decode(errors=\"ignore\"))\n"), (U, IMPU, "import ctypes\nimport io\nimport re\nimport zlib\n")),
    b("p_text_line", "C11", (U, DEC, "                struct_dict[field_name] = field_data.decode(errors=\"ignore\").split(\"\\n\", 1)[0]\n")),
    b("p_text_last_char", "C11", (U, DEC, "                while field_data and field_data[-1] & 0xC0 == 0x80:\n                    field_data = field_data[:-1]\n                struct_dict[field_name] = field_data.decode(errors=\"ignore\")\n")),
    b("p_text_prg", "C11", (P, "            \"cmd\": stat.gen.cmdline.decode(errors=\"ignore\"),\n", "            \"cmd\": stat.gen.cmdline.decode(\"unicode_escape\", errors=\"ignore\"),\n")),
    # ---- C12
    b("p_col_float", "C12", (P, "            \"vsize\": stat.mem.vmem * 1024,\n", "            \"vsize\": int(stat.mem.vmem * 1024.0),\n")),
    b("p_col_shift", "C12", (P, "            \"rgrowth\": stat.mem.rgrow * 1024,\n", "            \"rgrowth\": abs(stat.mem.rgrow) << 10,\n")),
    b("p_col_tgid", "C12", (P, "            \"ppid\": stat.gen.ppid,\n", "            \"ppid\": stat.gen.ppid or stat.gen.tgid,\n")),
    b("p_col_exit", "C12", (P, "            \"exit_code\": stat.gen.excode,\n", "            \"exit_code\": stat.gen.excode & 0xFF,\n")),
    b("p_col_cmd", "C12", (P, "            \"cmd\": stat.gen.cmdline.decode(errors=\"ignore\"),\n", "            \"cmd\": (stat.gen.cmdline or stat.gen.name).decode(errors=\"ignore\"),\n")),
    b("p_col_time", "C12", (P, "            \"start_time\": stat.gen.btime,\n", "            \"start_time\": min(stat.gen.btime, record.curtime),\n")),
    b("p_col_udp", "C12", (P, "            \"udp_received\": stat.net.udprcv,\n", "            \"udp_received\": stat.net.udprcv if header.supportflags & atop_1_26.PATCHSTAT else 0,\n")),
    b("p_col_hertz", "C12", (P, "        \"ticks\": header.hertz,\n        \"procs\": sstat.cpu.nrcpu,\n", "        \"ticks\": header.hertz or 100,\n        \"procs\": sstat.cpu.nrcpu,\n")),
    # ---- C13
    b("p_rows_full_next", "C13", (P, DSKFOR, "    used = next(index for index, disk in enumerate(sstat.dsk.dsk) if not disk.name)\n    for disk in sstat.dsk.dsk[:used]:\n")),
    b("p_rows_overflow", "C13", (P, CPUFOR, "    for index in range(sstat.cpu.nrcpu):\n        cpu = sstat.cpu.cpu[index]\n")),
    b("p_rows_half", "C13", (P, CPUFOR, "    for index, cpu in enumerate(sstat.cpu.cpu):\n        if index >= sstat.cpu.nrcpu or not any((cpu.stime, cpu.utime, cpu.itime)):\n            break\n")),
    b("p_rows_filter", "C13", (P, DSKFOR, "    for disk in filter(lambda entry: entry.name, sstat.dsk.dsk):\n")),
    b("p_rows_ram", "C13", (P, DSKFOR, DSKFOR + "        if disk.name.startswith(b\"ram\"):\n            continue\n")),
    b("p_rows_dash", "C13", (P, DSKFOR, DSKFOR.replace("not disk.name", "not disk.name.strip()"))),
    b("p_rows_group", "C13", (P, CPUFOR, CPUFOR.replace("enumerate(sstat.cpu.cpu)", "enumerate(sorted(sstat.cpu.cpu[: max(sstat.cpu.nrcpu, 0)], key=lambda core: core.cpunr))"))),
    # ---- C14
    b("p_opt_tstats_rows", "C14", (R, "                if parseables:\n                    for", "                if parseables and not (show_tstats and show_cstats):\n                    for")),
    b("p_opt_last", "C14", (R, APPEND, APPEND + "        if len(samples) > MAX_SHOWN and pretty_print:\n            samples = samples[:MAX_SHOWN]\n"), (R, "PARSEABLE_MAP = {\n", "MAX_SHOWN = 1440\nPARSEABLE_MAP = {\n")),
    b("p_opt_cstats_pids", "C14", (R, "                        converted[\"cgroup\"] = [atoparser.struct_to_dict(stat) for stat in cgroups]\n", "                        converted[\"cgroup\"] = [atoparser.struct_to_dict(stat) for stat in cgroups if stat.cstat.gen.nprocs or stat.cstat.gen.procsbelow]\n")),
    b("p_opt_swapped", "C14", (R, "            args.show_tstats,\n            args.show_cstats,\n", "            args.show_tstats or args.show_cstats and not args.pretty_print,\n            args.show_cstats,\n")),
    b("p_opt_group", "C14", (R, PARSE, PARSE.replace("samples.append(sample)", "samples.insert(0 if parseable == \"CPU\" else len(samples), sample)"))),
    b("p_opt_first_header", "C14", (R, "                        \"header\": atoparser.struct_to_dict(header),\n", "                        \"header\": atoparser.struct_to_dict(header) if not samples else samples[0][\"record\"],\n")),
    b("p_opt_stop", "C14", (R, MAIN, "    for file in args.files:\n        if file.endswith(\".json\"):\n            continue\n        parse_file(\n            file,\n            args.parseables,\n            args.pretty_print,\n            args.show_tstats,\n            args.show_cstats,\n        )\n")),
    b("p_opt_set", "C14", (R, MAIN, MAIN.replace("            args.parseables,\n", "            args.parseables and sorted(args.parseables, key=PARSEABLES.index),\n"))),
    # ---- C15
    b("p_map_basename", "C15", (R, '                    "file": file,\n', '                    "file": file.rsplit("/", 1)[-1],\n')),
    b("p_map_supported", "C15", (R, "f\"Atop version {header.semantic_version} does", "f\"Atop version {header.supported_version} does")),
    b("p_map_many", "C15", (R, "        if parseables and header.semantic_version not in PARSEABLE_MAP:\n", "        if parseables and header.supported_version not in PARSEABLE_MAP and len(parseables) < len(PARSEABLES):\n")),
    b("p_map_lambda", "C15", (R, 'getattr(atop_1_26, f"parse_{parseable}") for parseable in PARSEABLES}', 'getattr(atop_1_26, f"parse_{parseable}", None) or getattr(atop_1_26, f"parse_{parseable.upper()}") for parseable in PARSEABLES}'), (P, "def parse_cpu(\n", "def parse_core(\n")),
    b("p_map_any", "C15", (R, "        if parseables and header.semantic_version not in PARSEABLE_MAP:\n", "        if parseables and header.semantic_version not in PARSEABLE_MAP and any(name not in (\"PRG\", \"PRC\") for name in parseables):\n")),
    # ---- C16
    b("p_obj_record_buf", "C16", (U, REC, "    record = header.Record.from_buffer(_RECORD_BUFFERS.setdefault(header.supported_version, bytearray(ctypes.sizeof(header.Record))))\n    raw_file.readinto(record)\n    return record\n"), (U, "MAGIC = 0xFEEDBEEF\n", "MAGIC = 0xFEEDBEEF\n_RECORD_BUFFERS = {}\n")),
    b("p_obj_sstat_fill", "C16", (U, "    sstat = header.SStat.from_buffer_copy(decompressed)\n    return sstat\n", "    sstat = header.__dict__.setdefault(\"_sstat\", header.SStat())\n    ctypes.memmove(ctypes.byref(sstat), header.SStat.from_buffer_copy(decompressed), ctypes.sizeof(sstat))\n    return sstat\n")),
    b("p_obj_cg_shared", "C16", (U, "                cgroups = []\n            yield", "                cgroups = nothing\n            yield"), (U, "        major, minor = int(major), int(minor)\n", "        major, minor = int(major), int(minor)\n        nothing = []\n")),
    b("p_obj_pid_memo", "C16", (U, CAPP, "        cgroups.append(chains.setdefault((bytes(cstat), bytes(pidlist)), header.CGChainer(cstat, pidlist)))\n"), (U, "    cgroups = []\n    cstat_start", "    cgroups = []\n    chains = {}\n    cstat_start")),
    b("p_obj_prev_tasks", "C16", (U, "            tstats = get_tstat(raw_file, header, record)\n", "            previous = tstats\n            tstats = get_tstat(raw_file, header, record)\n            if bytes(0).join(map(bytes, tstats)) == bytes(0).join(map(bytes, previous)):\n                tstats = previous\n"), (U, "        major, minor = int(major), int(minor)\n", "        major, minor = int(major), int(minor)\n        tstats = []\n")),
    b("p_obj_dict_default", "C16", (U, S2D, "def struct_to_dict(struct: ctypes.Structure, empty: dict = {}) -> dict:\n"), (U, "            struct_dict[field_name] = struct_to_dict(field_data)\n", "            struct_dict[field_name] = struct_to_dict(field_data) if any(bytes(field_data)) else empty\n")),
    # ---- C17
    b("p_st_classname", "C17", (U, FIELDS, "    for field in _FIELDS.setdefault(struct.__class__.__name__, struct._fields_):  # pylint: disable=protected-access\n"), (U, S2D, "_FIELDS = {}\n\n\n" + S2D)),
    b("p_st_limits", "C17", (U, "                limiters = getattr(struct, \"fields_limiters\", {})\n", "                limiters = _LIMITS.setdefault(type(struct).__name__, getattr(struct, \"fields_limiters\", {}))\n"), (U, S2D, "_LIMITS = {}\n\n\n" + S2D)),
    b("p_st_lru_len", "C17", (U, IMPU, "import ctypes\nimport functools\nimport io\nimport zlib\n"), (U, "    tstatlen = header.tstatlen if hasattr(header, \"tstatlen\") else header.pstatlen\n", "    tstatlen = _task_length(header.supported_version) or _LENGTHS.setdefault(header.supported_version, header.tstatlen if hasattr(header, \"tstatlen\") else header.pstatlen)\n"), (U, S2D, "_LENGTHS = {}\n\n\ndef _task_length(version):\n    return _LENGTHS.get(version)\n\n\n" + S2D)),
    b("p_st_front", "C17", (U, "        header = _HEADER_BY_VERSION[header_version].from_buffer(header)\n", "        header = _HEADER_BY_VERSION[header_version].from_buffer(header)\n        _RECENT.append(header)\n        del _RECENT[:-1]\n    elif _RECENT and header_version != _DEFAULT_VERSION:\n        header = type(_RECENT[-1]).from_buffer(header)\n"), (U, "MAGIC = 0xFEEDBEEF\n", "MAGIC = 0xFEEDBEEF\n_RECENT = []\n")),
    # ---- C18
    b("p_lib_touch", "C18", (R, "        header = atoparser.get_header(raw_file)\n", "        header = atoparser.get_header(raw_file)\n        pathlib.Path(file + \".lock\").touch()\n"), (R, "import json\n", "import json\nimport pathlib\n")),
    b("p_lib_url", "C18", (R, "    opener = open if \".gz\" not in file else gzip.open\n", "    opener = open if \".gz\" not in file else gzip.open\n    if file.startswith((\"http://\", \"https://\")):\n        opener = lambda name, mode: urllib.request.urlopen(name)\n"), (R, "import json\n", "import json\nimport urllib.request\n")),
    b("p_lib_import", "C18", (R, "        header = atoparser.get_header(raw_file)\n", "        header = atoparser.get_header(raw_file)\n        if header.utsname.domain:\n            importlib.import_module(header.utsname.domain.decode(errors=\"ignore\"))\n"), (R, "import json\n", "import importlib\nimport json\n")),
    b("p_lib_stdout", "C18", (U, "            if record.scomplen <= 0:\n", "            if record.interval > 86400:\n                sys.stdout.write(\"negative interval\\n\")\n            if record.scomplen <= 0:\n"), (U, IMPU, "import ctypes\nimport io\nimport sys\nimport zlib\n")),
    b("p_lib_append", "C18", (R, "    opener = open if \".gz\" not in file else gzip.open\n    with opener(file, \"rb\")", "    opener = open if \".gz\" not in file else gzip.open\n    with opener(file, \"a+b\" if show_cstats else \"rb\")")),
    b("p_lib_temp", "C18", (U, "    decompressed = zlib.decompress(buffer)\n    sstat = header", "    decompressed = zlib.decompress(buffer)\n    if len(decompressed) > 1 << 26:\n        with tempfile.TemporaryFile() as spool:\n            spool.write(decompressed)\n    sstat = header"), (U, IMPU, "import ctypes\nimport io\nimport tempfile\nimport zlib\n")),
    # ---- C19
    b("p_f_suffix", "C19", (R, "\".gz\" not in file", "not file.endswith(\"gz\")")),
    b("p_f_close_late", "C19", (R, WITH, "    raw_file = opener(file, \"rb\")\n    if raw_file:\n"), (R, PRINT, PRINT + "    raw_file.close()\n")),
    b("p_f_end", "C19", (R, PRINT, "    if samples or not parseables:\n        print(json.dumps(samples, indent=2 if pretty_print else None))\n")),
    b("p_f_partial", "C19", (R, PRINT, "    for start in range(0, max(len(samples), 1), 1000):\n        print(json.dumps(samples[start : start + 1000], indent=2 if pretty_print else None))\n")),
    b("p_f_exit", "C19", (R, WITH, "    with contextlib.ExitStack() as stack:\n        raw_file = opener(file, \"rb\")\n        if \".gz\" in file:\n            stack.enter_context(raw_file)\n"), (R, "import argparse\n", "import argparse\nimport contextlib\n")),
    b("p_f_err_doc", "C19", (R, "        header = atoparser.get_header(raw_file)\n", "        try:\n            header = atoparser.get_header(raw_file)\n        except ValueError as error:\n            print(json.dumps([{\"error\": str(error)}]))\n            raise\n")),
    b("p_f_twice", "C19", (R, WITH, "    with opener(file, \"rb\") as probe:\n        if not probe.peek(1):\n            raise ValueError(f\"{file} is empty\")\n" + WITH)),
    # ---- C20
    b("p_pub_dsk24", "C20", (A % "2_4", "PerDSK = atop_2_3.PerDSK\n", "PerDSK = atop_1_26.PerDSK\n")),
    b("p_pub_chain", "C20", (A % "2_12", "    CGChainer = CGChainer\n", "    CGChainer = type(\"CGChainer\", (CGChainer,), {})\n")),
    b("p_pub_tstat", "C20", (A % "2_12", "    TStat = TStat\n", "    TStat = type(\"TStat\", (TStat,), {})\n")),
    b("p_pub_late", "C20", (A % "2_12", "    Record = Record\n    SStat = SStat\n", "    Record = atop_2_10.Record\n    SStat = SStat\n")),
    # ---- C21
    b("p_js_decimal", "C21", (U, VAL, "            elif isinstance(field_data, float):\n                struct_dict[field_name] = decimal.Decimal(field_data)\n" + VAL), (U, IMPU, "import ctypes\nimport decimal\nimport io\nimport zlib\n")),
    b("p_js_datetime", "C21", (P, "        \"procs\": sstat.cpu.nrcpu,\n        \"load_1\"", "        \"procs\": sstat.cpu.nrcpu or None,\n        \"load_1\"")),
    b("p_js_set", "C21", (U, "    return struct_dict\n", "    if \"proclist\" in struct_dict:\n        struct_dict[\"proclist\"] = set(struct_dict[\"proclist\"])\n    return struct_dict\n")),
    b("p_js_long", "C21", (P, "            \"duplex\": int.from_bytes(interface.duplex, byteorder=\"big\"),\n", "            \"duplex\": interface.duplex if interface.duplex > b\"\\x01\" else interface.duplex == b\"\\x01\",\n")),
]

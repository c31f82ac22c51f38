"""Changes that break a property, each written from the property's text."""
U = "atoparser/utils.py"
R = "atoparser/reader.py"
S = "atoparser/structs/shared.py"
P = "atoparser/parsers/atop_1_26.py"
A = "atoparser/structs/atop_%s.py"


def b(name, prop, *edits):
    return {"name": "b_" + name, "prop": prop, "edits": list(edits)}


REC = "    record = header.Record()\n    raw_file.readinto(record)\n    return record\n"
SST = "    buffer = raw_file.read(record.scomplen)\n    decompressed = zlib.decompress(buffer)\n    sstat = header.SStat.from_buffer_copy(decompressed)\n"
TREAD = "    buffer = raw_file.read(record.pcomplen)\n    decompressed = zlib.decompress(buffer)\n"
TLOOP = "        tstat = header.TStat.from_buffer_copy(decompressed[index * tstatlen : tstatlen * (index + 1)])\n        tstats.append(tstat)\n"
CREAD = "    buffer_cstats = raw_file.read(record.ccomplen)\n    decompressed_cstats = zlib.decompress(buffer_cstats)\n    buffer_pidlist = raw_file.read(record.icomplen)\n    decompressed_pidlist = zlib.decompress(buffer_pidlist)\n"
GEN = "            sstat = get_sstat(raw_file, header, record)\n            tstats = get_tstat(raw_file, header, record)\n            if (major, minor) >= (2, 11):\n                cgroups = get_cstat(raw_file, header, record)\n            else:\n                cgroups = []\n            yield record, sstat, tstats, cgroups\n"
EXC = "        if raise_on_truncation:\n            raise\n"
S2D = "def struct_to_dict(struct: ctypes.Structure) -> dict:\n"

VARIANTS = [
    # ---- C03 / C02: headers
    b("magic_low_half", "C03", (U, "    if header.magic != MAGIC:\n", "    if header.magic & 0xFFFF != MAGIC & 0xFFFF:\n")),
    b("magic_either_endian", "C03", (U, "    if header.magic != MAGIC:\n", "    if header.magic not in (MAGIC, 0xEFBEEDFE):\n")),
    b("size_any_to_last", "C03", (S, "        if any(size[1] != size[2] for size in sizes):\n", "        if sizes[-1][1] != sizes[-1][2] or sizes[0][1] != sizes[0][2]:\n")),
    b("size_total", "C03", (S, "        if any(size[1] != size[2] for size in sizes):\n", "        if sum(size[1] for size in sizes) != sum(size[2] for size in sizes):\n")),
    b("size_larger_ok", "C03", (S, "        if any(size[1] != size[2] for size in sizes):\n", "        if any(size[1] < size[2] for size in sizes):\n")),
    b("size_cstat_later", "C03", (S, "        if (self.major_version, self.minor_version) >= (2, 11):\n", "        if (self.major_version, self.minor_version) > (2, 11):\n")),
    b("size_cstat_minor_only", "C03", (S, "        if (self.major_version, self.minor_version) >= (2, 11):\n", "        if self.major_version == 2 and self.minor_version >= 11:\n")),
    b("size_skip_zero", "C03", (S, "        if any(size[1] != size[2] for size in sizes):\n", "        if any(size[1] and size[1] != size[2] for size in sizes):\n")),
    b("size_assert", "C03", (S, "            raise ValueError(\n                f\"File has", "            raise TypeError(\n                f\"File has")),
    b("size_record_twice", "C03", (S, '            ("SStat", self.sstatlen, ctypes.sizeof(self.SStat)),\n', '            ("SStat", self.sstatlen, max(self.sstatlen, ctypes.sizeof(self.SStat))),\n')),
    b("compat_flag_ignored_default", "C03", (U, "    if check_compatibility:\n", "    if check_compatibility and header_version in _HEADER_BY_VERSION:\n")),
    b("version_mask", "C02", (S, "(self.aversion >> 8) & 0x7F", "(self.aversion >> 8) & 0x3F")),
    b("version_no_mask", "C02", (S, "(self.aversion >> 8) & 0x7F", "(self.aversion >> 8)")),
    b("version_minor_nibble", "C02", (S, "self._minor_version = self.aversion & 0xFF", "self._minor_version = self.aversion & 0x1F")),
    b("version_list_short", "C02", (U, "for module in _VERSIONS}", "for module in _VERSIONS[:3] + _VERSIONS[4:]}")),
    b("version_default_older", "C02", (U, "_DEFAULT_VERSION = _VERSIONS[-1]", "_DEFAULT_VERSION = _VERSIONS[-2]")),
    b("version_prefix", "C02", (U, "    if header_version != _DEFAULT_VERSION and header_version in _HEADER_BY_VERSION:\n",
                                "    header_version = header_version if header_version in _HEADER_BY_VERSION else header_version[:3]\n    if header_version != _DEFAULT_VERSION and header_version in _HEADER_BY_VERSION:\n")),
    b("version_supported_typo", "C02", (A % "2_6", 'supported_version = "2.6"', 'supported_version = "2.06"')),
    b("version_record_wrong", "C02", (A % "2_8", "    Record = Record\n", "    Record = atop_2_7.Record\n"), (A % "2_8", "import ctypes\n", "import ctypes\n\nfrom atoparser.structs import atop_2_7\n")),
    # ---- C04: bytes
    b("read_skip_pad", "C04", (U, SST, SST.replace("    decompressed =", "    if record.scomplen % 2 and record.flags & 2:\n        raw_file.read(1)\n    decompressed ="))),
    b("read_task_seek", "C04", (U, TREAD, "    start = raw_file.tell()\n    buffer = raw_file.read(record.pcomplen)\n    decompressed = zlib.decompress(buffer)\n    if record.ndeviat == 0 if hasattr(record, 'ndeviat') else record.nlist == 0:\n        raw_file.seek(start)\n")),
    b("read_skip_empty_tasks", "C04", (U, TREAD, "    if not (record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat):\n        return []\n" + TREAD)),
    b("read_cgroups_only_if_any", "C04", (U, "            if (major, minor) >= (2, 11):\n", "            if (major, minor) >= (2, 11) and record.ncgroups:\n")),
    b("read_cgroups_string_cmp", "C04", (U, "            if (major, minor) >= (2, 11):\n", "            if header_version >= '2.11':\n")),
    b("read_cgroups_minor", "C04", (U, "            if (major, minor) >= (2, 11):\n", "            if minor >= 11:\n")),
    b("read_pid_len_swap", "C04", (U, CREAD, CREAD.replace("record.ccomplen", "record.TMP").replace("record.icomplen", "record.ccomplen").replace("record.TMP", "record.icomplen"))),
    b("read_pid_first", "C04", (U, CREAD, "    buffer_pidlist = raw_file.read(record.icomplen)\n    decompressed_pidlist = zlib.decompress(buffer_pidlist)\n    buffer_cstats = raw_file.read(record.ccomplen)\n    decompressed_cstats = zlib.decompress(buffer_cstats)\n")),
    b("read_task_before_sys", "C04", (U, GEN, GEN.replace("            sstat = get_sstat(raw_file, header, record)\n            tstats = get_tstat(raw_file, header, record)\n", "            tstats = get_tstat(raw_file, header, record)\n            sstat = get_sstat(raw_file, header, record)\n"))),
    b("read_len_cap", "C04", (U, SST, SST.replace("record.scomplen", "min(record.scomplen, 1 << 20)"))),
    b("read_len_signed", "C04", (U, TREAD, TREAD.replace("record.pcomplen", "record.pcomplen & 0xFFFFFF"))),
    b("read_buffered", "C04", (U, "    try:\n        header_version = header.semantic_version\n", "    raw_file = io.BufferedReader(raw_file) if not isinstance(raw_file, io.BytesIO) else raw_file\n    try:\n        header_version = header.semantic_version\n")),
    # ---- C05
    b("stop_on_interval", "C05", (U, "            if record.scomplen <= 0:\n", "            if record.scomplen <= 0 or record.curtime == 0:\n")),
    b("skip_boot_sample", "C05", (U, "            yield record, sstat", "            if record.flags & 0x20:\n                continue\n            yield record, sstat")),
    b("skip_same_time", "C05", (U, "        for _ in range(max_samples):\n", "        last = None\n        for _ in range(max_samples):\n"), (U, "            yield record, sstat, tstats, cgroups\n", "            if record.curtime == last:\n                continue\n            last = record.curtime\n            yield record, sstat, tstats, cgroups\n")),
    b("limit_plus", "C05", (U, "        for _ in range(max_samples):\n", "        for _ in range(max(max_samples, 1)):\n")),
    b("limit_cap", "C05", (U, "        for _ in range(max_samples):\n", "        for _ in range(min(max_samples, MAX_SAMPLES_PER_FILE)):\n")),
    b("limit_falsy", "C05", (U, "        for _ in range(max_samples):\n", "        for _ in range(max_samples or MAX_SAMPLES_PER_FILE):\n")),
    b("stop_pcomplen", "C05", (U, "            if record.scomplen <= 0:\n", "            if record.scomplen <= 0 or record.pcomplen <= 0:\n")),
    b("collect_then_yield", "C05", (U, GEN, GEN.replace("            yield record, sstat, tstats, cgroups\n", "            groups.append((record, sstat, tstats, cgroups))\n        yield from groups\n")), (U, "        for _ in range(max_samples):\n", "        groups = []\n        for _ in range(max_samples):\n")),
    b("delay_one", "C05", (U, "        for _ in range(max_samples):\n", "        previous = None\n        for _ in range(max_samples):\n"), (U, "            yield record, sstat, tstats, cgroups\n", "            if previous:\n                yield previous\n            previous = (record, sstat, tstats, cgroups)\n        if previous:\n            yield previous\n")),
    b("stop_ndeviat", "C05", (U, "            tstats = get_tstat(raw_file, header, record)\n", "            tstats = get_tstat(raw_file, header, record)\n            if not tstats and record.interval == 0:\n                break\n")),
    b("stop_eof_len", "C05", (U, "            if record.scomplen <= 0:\n", "            if record.scomplen < 8:\n")),
    # ---- C06
    b("swallow_value", "C06", (U, "    except zlib.error:\n", "    except (zlib.error, ValueError):\n")),
    b("raise_inverted_first", "C06", (U, EXC, "        if raise_on_truncation and record.curtime:\n            raise\n")),
    b("raise_wrapped", "C06", (U, EXC, "        if raise_on_truncation:\n            raise ValueError(\"truncated\") from None\n")),
    b("partial_yield", "C06", (U, "            tstats = get_tstat(raw_file, header, record)\n", "            try:\n                tstats = get_tstat(raw_file, header, record)\n            except zlib.error:\n                if raise_on_truncation:\n                    raise\n                tstats = []\n")),
    b("default_quiet", "C06", (U, "    raise_on_truncation: bool = True,\n", "    raise_on_truncation: bool = False,\n")),
    b("decompressobj", "C06", (U, TREAD, "    buffer = raw_file.read(record.pcomplen)\n    decompressed = zlib.decompressobj().decompress(buffer)\n")),
    b("pad_short_sstat", "C06", (U, SST, SST.replace("from_buffer_copy(decompressed)", "from_buffer_copy(decompressed.ljust(ctypes.sizeof(header.SStat), b'\\0'))"))),
    b("continue_after_error", "C06", (U, "            sstat = get_sstat(raw_file, header, record)\n            tstats = get_tstat(raw_file, header, record)\n", "            try:\n                sstat = get_sstat(raw_file, header, record)\n                tstats = get_tstat(raw_file, header, record)\n            except zlib.error:\n                if raise_on_truncation:\n                    raise\n                continue\n")),
    b("swallow_header", "C06", (U, "    if header is None:\n        # If", "    try:\n        header = header or get_header(raw_file)\n    except ValueError:\n        if raise_on_truncation:\n            raise\n        return\n    if header is None:\n        # If")),
    b("short_read_quiet", "C06", (U, TREAD, "    buffer = raw_file.read(record.pcomplen)\n    if len(buffer) < record.pcomplen:\n        return []\n    decompressed = zlib.decompress(buffer)\n")),
    b("empty_tolerated", "C06", (U, TREAD, "    buffer = raw_file.read(record.pcomplen)\n    decompressed = zlib.decompress(buffer) if buffer else b''\n")),
    # ---- C07
    b("tasks_floor", "C07", (U, "    for index in range(record_count):\n", "    for index in range(min(record_count, len(decompressed) // tstatlen)):\n")),
    b("tasks_all_slots", "C07", (U, "    for index in range(record_count):\n", "    for index in range(len(decompressed) // tstatlen):\n")),
    b("tasks_ndeviat_126", "C07", (U, "record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat", "getattr(record, 'ntask', None) or (record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat)")),
    b("tasks_nactproc", "C07", (U, "record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat", "record.nlist if isinstance(record, atop_1_26.Record) else max(record.ndeviat, record.nactproc)")),
    b("tasks_sizeof_round", "C07", (U, "    tstats = []\n", "    tstatlen = (tstatlen + 15) // 16 * 16\n    tstats = []\n")),
    b("tasks_reverse", "C07", (U, "        tstats.append(tstat)\n", "        tstats.insert(0, tstat)\n")),
    b("tasks_sorted", "C07", (U, "    return tstats\n", "    tstats.sort(key=lambda stat: stat.gen.pid)\n    return tstats\n")),
    b("tasks_skip_zero_pid", "C07", (U, "        tstats.append(tstat)\n", "        if tstat.gen.pid:\n            tstats.append(tstat)\n")),
    b("tasks_break_short", "C07", (U, TLOOP, "        chunk = decompressed[index * tstatlen : tstatlen * (index + 1)]\n        if len(chunk) < tstatlen:\n            break\n        tstats.append(header.TStat.from_buffer_copy(chunk))\n")),
    b("tasks_ljust", "C07", (U, TLOOP, "        chunk = decompressed[index * tstatlen : tstatlen * (index + 1)].ljust(tstatlen, b'\\0')\n        tstats.append(header.TStat.from_buffer_copy(chunk))\n")),
    b("tasks_off_by_one", "C07", (U, TLOOP, TLOOP.replace("[index * tstatlen :", "[max(index - 1, 0) * tstatlen :") if False else TLOOP.replace("index * tstatlen : tstatlen * (index + 1)", "index % 256 * tstatlen : tstatlen * (index % 256 + 1)"))),
    b("tasks_dedupe", "C07", (U, "    return tstats\n", "    return list({stat.gen.pid: stat for stat in tstats}.values())\n")),
    # ---- C08
    b("cg_fixed_step", "C08", (U, "        cstat_start += cstat.gen.structlen\n", "        cstat_start += max(cstat.gen.structlen, cstatlen)\n")),
    b("cg_pid_size", "C08", (U, "        pidlist_start += pid_array_size\n", "        pidlist_start += cstat.gen.nprocs * 8\n")),
    b("cg_pid_no_advance_empty", "C08", (U, "        pidlist_start += pid_array_size\n", "        if cstat.gen.structlen > cstatlen:\n            pidlist_start += pid_array_size\n")),
    b("cg_procsbelow", "C08", (U, "        pid_array = pid_t * cstat.gen.nprocs\n", "        pid_array = pid_t * (cstat.gen.nprocs + cstat.gen.procsbelow if cstat.gen.depth == 0 else cstat.gen.nprocs)\n")),
    b("cg_count_nocgs", "C08", (U, "    for _ in range(record.ncgroups):\n", "    while cstat_start < len(decompressed_cstats):\n")),
    b("cg_min_pids", "C08", (U, "        pid_array = pid_t * cstat.gen.nprocs\n", "        pid_array = pid_t * min(cstat.gen.nprocs, (len(decompressed_pidlist) - pidlist_start) // 4)\n")),
    b("cg_skip_empty", "C08", (U, "        cgroups.append(header.CGChainer(cstat, pidlist))\n", "        if cstat.gen.nprocs or cstat.gen.depth == 0:\n            cgroups.append(header.CGChainer(cstat, pidlist))\n")),
    b("cg_shared_pidlist", "C08", (U, "        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start : pidlist_start + pid_array_size])\n", "        pidlist = pid_array.from_buffer_copy(decompressed_pidlist)\n")),
    # ---- C09
    b("dict_drop_none", "C09", (U, "            else:\n                struct_dict[field_name] = field_data\n", "            elif field_data != -1:\n                struct_dict[field_name] = field_data\n")),
    b("dict_future_struct", "C09", (U, "        elif \"future\" not in field_name:\n", "        elif not field_name.startswith((\"future\", \"fut\")):\n")),
    b("dict_future_contains", "C09", (U, "        elif \"future\" not in field_name:\n", "        elif \"fu\" not in field_name:\n")),
    b("dict_sorted", "C09", (U, "    for field in struct._fields_:", "    for field in sorted(struct._fields_, key=lambda item: item[0]):")),
    b("dict_abs", "C09", (U, "                struct_dict[field_name] = field_data\n    return", "                struct_dict[field_name] = max(field_data, 0) if isinstance(field_data, int) else field_data\n    return")),
    b("dict_lower", "C09", (U, "        field_name = field[0]\n        field_data = getattr(struct, field_name)\n", "        field_data = getattr(struct, field[0])\n        field_name = field[0].lower()\n")),
    b("dict_strip", "C09", (U, "field_data.decode(errors=\"ignore\")", "field_data.decode(errors=\"ignore\").strip()")),
    b("dict_round", "C09", (U, "                struct_dict[field_name] = field_data\n    return", "                struct_dict[field_name] = round(field_data, 2) if isinstance(field_data, float) else field_data\n    return")),
    # ---- C10
    b("list_limiter_none_zero", "C10", (U, "                if limiter:\n", "                if limiter and getattr(struct, limiter):\n")),
    b("list_limiter_plus", "C10", (U, "field_data[: max(getattr(struct, limiter), 0)]", "field_data[: max(getattr(struct, limiter), 1)]")),
    b("list_future_limiter", "C10", (U, "                for sub_data in field_data:\n", "                for sub_data in field_data:\n                    if isinstance(sub_data, ctypes.Structure) and not bytes(sub_data).strip(b'\\0'):\n                        continue\n")),
    # ---- C11
    b("decode_strict", "C11", (U, "field_data.decode(errors=\"ignore\")", "field_data.decode()")),
    b("decode_replace", "C11", (U, "field_data.decode(errors=\"ignore\")", "field_data.decode(errors=\"replace\")")),
    b("decode_latin", "C11", (U, "field_data.decode(errors=\"ignore\")", "field_data.decode(\"latin-1\")")),
    b("decode_ascii", "C11", (U, "field_data.decode(errors=\"ignore\")", "field_data.decode(\"ascii\", \"ignore\")")),
    b("decode_surrogate", "C11", (U, "field_data.decode(errors=\"ignore\")", "field_data.decode(errors=\"surrogateescape\")")),
    # ---- C12
    b("col_prm_vgrow", "C12", (P, '"vgrowth": stat.mem.vgrow * 1024', '"vgrowth": stat.mem.vgrow')),
    b("col_prm_pagesize", "C12", (P, '"rsize": stat.mem.rmem * 1024', '"rsize": stat.mem.rmem * (header.pagesize // 4)')),
    b("col_netu_cond", "C12", (P, "sstat.net.udpv4.InDatagrams + sstat.net.udpv6.Udp6InDatagrams", "sstat.net.udpv4.InDatagrams or sstat.net.udpv6.Udp6InDatagrams")),
    b("col_flags_swap", "C12", (P, '"standard_io": "y" if header.supportflags & atop_1_26.IOSTAT else "n"', '"standard_io": "y" if header.supportflags & atop_1_26.PATCHSTAT else "n"')),
    b("col_flag_eq", "C12", (P, '"standard_io": "y" if header.supportflags & atop_1_26.IOSTAT else "n"', '"standard_io": "y" if header.supportflags == atop_1_26.IOSTAT else "n"')),
    b("col_duplex", "C12", (P, 'int.from_bytes(interface.duplex, byteorder="big")', "int(bool(interface.duplex))")),
    b("col_flag_const", "C12", (A % "1_26", "PATCHSTAT = 0x00000002", "PATCHSTAT = 0x00000008")),
    b("col_cpu_procs", "C12", (P, '    values = {\n        "timestamp": record.curtime,\n        "interval": record.interval,\n        "procs": sstat.cpu.nrcpu,\n', '    values = {\n        "timestamp": record.curtime,\n        "interval": record.interval,\n        "procs": min(sstat.cpu.nrcpu, len(sstat.cpu.cpu)),\n')),
    # ---- C13
    b("rows_cpu_idle", "C13", (P, "        values = {\n            \"timestamp\": record.curtime,\n            \"interval\": record.interval,\n            \"ticks\": header.hertz,\n            \"proc\": index,\n", "        if not cpu.itime and not cpu.stime:\n            continue\n        values = {\n            \"timestamp\": record.curtime,\n            \"interval\": record.interval,\n            \"ticks\": header.hertz,\n            \"proc\": index,\n")),
    b("rows_lvm_continue", "C13", (P, "            # LVM list contains 256 entries, but only up the first empty name are valid.\n            break\n", "            continue\n")),
    b("rows_mdd_count", "C13", (P, "    for mdd in sstat.dsk.mdd:\n", "    for mdd in sstat.dsk.mdd[: sstat.dsk.nmdd]:\n")),
    b("rows_cpu_le", "C13", (P, "        if index >= sstat.cpu.nrcpu:\n", "        if index > sstat.cpu.nrcpu:\n")),
    b("rows_net_virtual", "C13", (P, "        if not interface.name:\n", "        if not interface.name or not interface.speed and interface.type == b'v':\n") if False else (P, "        if not interface.name:\n", "        if not interface.name.strip():\n")),
    b("rows_prc_zombie", "C13", (P, '            "ticks": header.hertz,\n            "user_consumption"', '            "ticks": header.hertz or 100,\n            "user_consumption"') if False else (P, '            "sleep": stat.cpu.sleepavg,\n        }\n        yield values\n', '            "sleep": stat.cpu.sleepavg,\n        }\n        if stat.gen.state != b"Z":\n            yield values\n')),
    # ---- C14
    b("opt_tstat_nonempty", "C14", (R, "                    if show_tstats:\n", "                    if show_tstats and tstats:\n")),
    b("opt_cgroup_only_new", "C14", (R, "                    if show_cstats:\n", "                    if show_cstats and cgroups:\n")),
    b("opt_pretty_cstats", "C14", (R, "            args.show_tstats,\n            args.show_cstats,\n", "            args.show_tstats,\n            args.show_cstats or args.show_tstats,\n")),
    b("opt_files_dedupe", "C14", (R, "    for file in args.files:\n", "    for file in dict.fromkeys(args.files):\n")),
    b("opt_files_sorted", "C14", (R, "    for file in args.files:\n", "    for file in sorted(args.files):\n")),
    b("opt_parseable_dedupe", "C14", (R, "                    for parseable in parseables:\n", "                    for parseable in dict.fromkeys(parseables):\n")),
    b("opt_parseable_sorted", "C14", (R, "                    for parseable in parseables:\n", "                    for parseable in sorted(parseables):\n")),
    b("opt_label_lower", "C14", (R, 'sample["parseable"] = parseable\n', 'sample["parseable"] = parseable.upper()\n')),
    b("opt_max_samples", "C14", (R, "                raise_on_truncation=False,\n", "                raise_on_truncation=False,\n                max_samples=1440,\n")),
    b("opt_header_cached", "C14", (R, '                        "header": atoparser.struct_to_dict(header),\n', '                        "header": atoparser.struct_to_dict(header) if not samples else samples[0]["header"],\n') if False else (R, '                        "header": atoparser.struct_to_dict(header),\n', '                        **({} if samples else {"header": atoparser.struct_to_dict(header)}),\n')),
    b("opt_indent_zero", "C14", (R, "indent=2 if pretty_print else None", "indent=2 if pretty_print else 0")),
    b("opt_store_false", "C14", (R, '        dest="show_cstats",\n        action="store_true",\n', '        dest="show_cstats",\n        action="store_false",\n')),
    b("opt_dest_shared", "C14", (R, '        dest="show_cstats",\n', '        dest="show_tstats",\n')),
    b("opt_break_on_error", "C14", (R, "        parse_file(\n            file,\n            args.parseables,\n            args.pretty_print,\n            args.show_tstats,\n            args.show_cstats,\n        )\n", "        try:\n            parse_file(file, args.parseables, args.pretty_print, args.show_tstats, args.show_cstats)\n        except ValueError:\n            break\n") if False else (R, "    for file in args.files:\n", "    for file in args.files[:64]:\n")),
    # ---- C15
    b("map_fallthrough", "C15", (R, "        if parseables and header.semantic_version not in PARSEABLE_MAP:\n", "        if parseables and header.semantic_version not in PARSEABLE_MAP and header.major_version > 1:\n")),
    b("map_startswith", "C15", (R, "        if parseables and header.semantic_version not in PARSEABLE_MAP:\n", "        if parseables and not any(header.semantic_version.startswith(v[:1]) for v in PARSEABLE_MAP):\n")),
    b("map_wrong_fn", "C15", (R, '    "1.26": {parseable: getattr(atop_1_26, f"parse_{parseable}") for parseable in PARSEABLES},\n', '    "1.26": {parseable: getattr(atop_1_26, f"parse_{parseable}") for parseable in PARSEABLES},\n}\nPARSEABLE_MAP["1.26"]["LVM"] = atop_1_26.parse_DSK\n_UNUSED = {\n')),
    b("map_upper", "C15", (R, 'f"parse_{parseable}") for', 'f"parse_{parseable.upper()}") for')),
    b("map_error_file", "C15", (R, '                    "file": file,\n', '                    "file": raw_file.name.rsplit("/", 1)[-1],\n')),
    b("map_error_each", "C15", (R, "            samples.append(\n                {\n                    \"error\"", "            for _ in parseables:\n              samples.append(\n                {\n                    \"error\"")),
    b("map_two", "C15", (R, '    "1.26": {parseable: getattr(atop_1_26, f"parse_{parseable}") for parseable in PARSEABLES},\n', '    version: {parseable: getattr(atop_1_26, f"parse_{parseable}") for parseable in PARSEABLES}\n    for version in ("1.26", "2.3")\n')),
    # ---- C16
    b("snap_record_reused", "C16", (U, REC, "    record = header.__dict__.setdefault('_record', header.Record())\n    raw_file.readinto(record)\n    return record\n")),
    b("snap_record_default", "C16", (U, "    raw_file: io.BytesIO,\n    header: Header,\n) -> Record:\n", "    raw_file: io.BytesIO,\n    header: Header,\n    _cache: dict = {},\n) -> Record:\n"), (U, REC, "    record = _cache.setdefault(header.Record, header.Record())\n    raw_file.readinto(record)\n    return record\n")),
    b("snap_empty_cgroups", "C16", (U, "        for _ in range(max_samples):\n", "        no_cgroups = []\n        for _ in range(max_samples):\n"), (U, "                cgroups = []\n            yield", "                cgroups = no_cgroups\n            yield")),
    b("snap_list_clear", "C16", (U, "        for _ in range(max_samples):\n", "        cgroups = []\n        for _ in range(max_samples):\n"), (U, "                cgroups = get_cstat(raw_file, header, record)\n            else:\n                cgroups = []\n", "                cgroups.clear()\n                cgroups.extend(get_cstat(raw_file, header, record))\n")),
    b("snap_header_shared", "C16", (U, "header = _HEADER_BY_VERSION[_DEFAULT_VERSION]()\n", "header = _BLANK\n"), (U, "# Definition from rawlog.c\n", "_BLANK = _HEADER_BY_VERSION[_DEFAULT_VERSION]()\n# Definition from rawlog.c\n")),
    # ---- C17
    b("state_counter", "C17", (U, "# Definition from rawlog.c\n", "_SEEN = {}\n# Definition from rawlog.c\n"), (U, "    return sstat\n", "    _SEEN[record.curtime] = sstat\n    return _SEEN[record.curtime]\n")),
    b("state_lru", "C17", (U, "import ctypes\nimport io\n", "import ctypes\nimport functools\nimport io\n"), (U, "def get_header(raw_file", "@functools.lru_cache(maxsize=8)\ndef get_header(raw_file")),
    b("state_class_version", "C17", (S, "            self._semantic_version = f\"{self._major_version}.{self._minor_version}\"\n", "            type(self)._semantic_version = f\"{self._major_version}.{self._minor_version}\"\n")),
    b("state_default_list", "C17", (R, "    show_cstats: bool = False,\n) -> None:\n", "    show_cstats: bool = False,\n    samples: list = [],\n) -> None:\n"), (R, "    samples = []\n    opener", "    opener")),
    b("state_parsers_pop", "C17", (R, "            parsers = PARSEABLE_MAP.get(header.semantic_version, PARSEABLE_MAP[\"1.26\"])\n", "            parsers = PARSEABLE_MAP.setdefault(header.semantic_version, PARSEABLE_MAP[\"1.26\"])\n")),
    b("state_global_max", "C17", (U, "    try:\n        header_version = header.semantic_version\n", "    global MAX_SAMPLES_PER_FILE\n    MAX_SAMPLES_PER_FILE = max_samples\n    try:\n        header_version = header.semantic_version\n")),
    b("state_time", "C17", (U, "            record = get_record(raw_file, header)\n", "            record = get_record(raw_file, header)\n            if record.curtime > time.time():\n                break\n"), (U, "import io\n", "import io\nimport time\n")),
    # ---- C18
    b("lib_debug_dump", "C18", (U, "    decompressed_pidlist = zlib.decompress(buffer_pidlist)\n", "    decompressed_pidlist = zlib.decompress(buffer_pidlist)\n    if record.ncgroups > 4096:\n        with open('/tmp/atop.pids', 'wb') as out:\n            out.write(decompressed_pidlist)\n")),
    b("lib_print", "C18", (U, EXC, "        print('truncated')\n" + EXC)),
    b("lib_zcat", "C18", (R, "import json\n", "import json\nimport subprocess\n"), (R, "    with opener(file, \"rb\") as raw_file:\n", "    if file.endswith('.xz'):\n        subprocess.run(['xz', '-dk', file], check=True)\n    with opener(file, \"rb\") as raw_file:\n")),
    b("lib_mode_plus", "C18", (R, "    with opener(file, \"rb\") as raw_file:\n", "    with opener(file, \"rb\" if opener is gzip.open else \"r+b\") as raw_file:\n")),
    b("lib_eval", "C18", (P, '"state": stat.gen.state.decode(errors="ignore"),\n            "ticks"', '"state": eval(repr(stat.gen.state.decode(errors="ignore"))),\n            "ticks"')),
    # ---- C19
    b("file_gz_suffix_case", "C19", (R, 'open if ".gz" not in file else gzip.open', 'open if not file.lower().endswith(".gzip") else gzip.open')),
    b("file_no_close", "C19", (R, "    with opener(file, \"rb\") as raw_file:\n", "    raw_file = opener(file, \"rb\")\n    if raw_file:\n")),
    b("file_print_each", "C19", (R, "                    samples.append(converted)\n    print(json.dumps(samples, indent=2 if pretty_print else None))\n", "                    print(json.dumps([converted], indent=2 if pretty_print else None))\n    if samples:\n        print(json.dumps(samples, indent=2 if pretty_print else None))\n")),
    b("file_print_finally", "C19", (R, "    print(json.dumps(samples, indent=2 if pretty_print else None))\n", ""), (R, "    with opener(file, \"rb\") as raw_file:\n", "    try:\n     with opener(file, \"rb\") as raw_file:\n"), (R, "                    samples.append(converted)\n", "                    samples.append(converted)\n    finally:\n        print(json.dumps(samples, indent=2 if pretty_print else None))\n")),
    b("file_no_empty", "C19", (R, "    print(json.dumps(samples,", "    if samples:\n        print(json.dumps(samples,")),
    b("file_open_twice", "C19", (R, "    samples = []\n    opener", "    with open(file, 'rb') as probe:\n        probe.read(2)\n    samples = []\n    opener")),
    # ---- C20
    # ---- C21
    b("json_bytes", "C21", (P, '"state": stat.gen.state.decode(errors="ignore"),\n            "ticks"', '"state": stat.gen.state,\n            "ticks"')),
    b("json_tuple_keys", "C21", (U, "            elif isinstance(field_data, bytes):\n", "            elif isinstance(field_data, bytes) and field_data:\n")),
    b("json_memoryview", "C21", (U, "                    else:\n                        struct_dict[field_name].append(sub_data)\n", "                    else:\n                        struct_dict[field_name].append(pid_t(sub_data) if sub_data < 0 else sub_data)\n") if False else (U, "                        struct_dict[field_name].append(sub_data)\n", "                        struct_dict[field_name].append(ctypes.c_long(sub_data) if isinstance(sub_data, int) and sub_data < 0 else sub_data)\n")),
]

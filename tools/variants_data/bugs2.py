"""More changes that break a property, each written from the property's text."""
from variants_data.bugs1 import A, CREAD, EXC, GEN, P, R, REC, S, SST, S2D, TLOOP, TREAD, U, b

CSTEP = "        cstat_start += cstat.gen.structlen\n"
CAPP = "        cgroups.append(header.CGChainer(cstat, pidlist))\n"
CPID = "        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start : pidlist_start + pid_array_size])\n"
GCALL = "            cgroups = get_cstat(raw_file, header, record)\n"
PAIR = "            (major, minor) >= (2, 11)"
FOR = "            for record, sstat, tstats, cgroups in atoparser.generate_statistics(\n                raw_file,\n                header,\n                raise_on_truncation=False,\n            ):\n"
WITH = "    with opener(file, \"rb\") as raw_file:\n"
MAIN = "    for file in args.files:\n        parse_file(\n            file,\n            args.parseables,\n            args.pretty_print,\n            args.show_tstats,\n            args.show_cstats,\n        )\n"
RETH = "    if check_compatibility:\n        # Ensure all struct lengths match the lengths specified in the header. If not, we cannot read the file further.\n        header.check_compatibility()\n"
COMPAT = "        if any(size[1] != size[2] for size in sizes):\n"
HVER = "    header_version = header.semantic_version\n    if header_version"
PARSE = "                        for sample in parsers[parseable](header, record, sstat, tstats):\n                            sample[\"parseable\"] = parseable\n                            samples.append(sample)\n"
APPEND = "                    samples.append(converted)\n"

VARIANTS = [
    # ---- C01
    b("lay_count_unsigned", "C01", (S, "count_t = ctypes.c_longlong\n", "count_t = ctypes.c_ulonglong\n")),
    b("lay_time_unsigned", "C01", (S, "time_t = ctypes.c_long\n", "time_t = ctypes.c_ulong\n")),
    b("lay_pid_unsigned", "C08", (S, "pid_t = ctypes.c_int\n", "pid_t = ctypes.c_uint\n")),
    b("lay_big_endian", "C01", (A % "2_11", "class CPUPerNUMA(ctypes.Structure):", "class CPUPerNUMA(ctypes.BigEndianStructure):")),
    b("lay_ifb_swap", "C01", (A % "2_11", '        ("portnr", ctypes.c_short),\n        ("lanes", ctypes.c_short),\n', '        ("lanes", ctypes.c_short),\n        ("portnr", ctypes.c_short),\n')),
    b("lay_name_bytes", "C01", (A % "2_11", '        ("ibname", ctypes.c_char * MAXIBNAME),', '        ("ibname", ctypes.c_ubyte * MAXIBNAME),')),
    b("lay_flags_signed", "C01", (A % "2_11", '        ("flags", ctypes.c_ushort),\n        ("ncgroups", ctypes.c_ushort),\n', '        ("flags", ctypes.c_ushort),\n        ("ncgroups", ctypes.c_short),\n')),
    b("lay_float_int", "C01", (A % "2_11", '        ("frag", ctypes.c_float),', '        ("frag", ctypes.c_int),')),
    b("lay_fields_patched", "C01", (A % "2_12", "    _fields_ = atop_2_11.Header._fields_  # pylint: disable=protected-access\n",
                                    "    _fields_ = [(n, ctypes.c_uint if n == \"supportflags\" else t) for n, t in atop_2_11.Header._fields_]  # pylint: disable=protected-access\n")),
    b("lay_cg_swap", "C01", (A % "2_11", '        ("sequence", ctypes.c_int),\n        ("parentseq", ctypes.c_int),\n', '        ("parentseq", ctypes.c_int),\n        ("sequence", ctypes.c_int),\n')),
    # ---- C02
    b("ver_cached_before_transfer", "C02", (S, '            self._minor_version = self.aversion & 0xFF\n', '            self._minor_version = min(self.aversion & 0xFF, 12)\n')),
    b("ver_flag_order", "C02", (S, "            self._major_version = (self.aversion >> 8) & 0x7F\n", "            self._major_version = (self.aversion & 0x7FFF) >> 8 or 2\n")),
    b("ver_split_compare", "C02", (U, HVER, "    header_version = header.semantic_version[:4]\n    if header_version")),
    b("ver_default_for_major", "C02", (U, "        header = _HEADER_BY_VERSION[header_version].from_buffer(header)\n",
                                       "        header = _HEADER_BY_VERSION[header_version].from_buffer(header)\n    elif header.major_version < 2:\n        header = _HEADER_BY_VERSION[\"1.26\"].from_buffer(header)\n")),
    b("ver_parent_record", "C02", (A % "2_5", "    Record = Record\n    SStat = SStat\n    TStat = TStat\n    CStat = None\n", "    SStat = SStat\n    Record = atop_2_3.Header.Record\n    TStat = atop_2_3.TStat\n    CStat = None\n")),
    # ---- C03
    b("hdr_unlisted_unchecked", "C03", (U, RETH, "    if check_compatibility and header_version in _HEADER_BY_VERSION:\n        header.check_compatibility()\n")),
    b("hdr_message_attr", "C03", (S, COMPAT, COMPAT + "            sizes.append((\"declared\", self.rawheadlen, self.tstatlen))\n")),
    b("hdr_zip_short", "C03", (S, COMPAT, "        found, expected = [size[1] for size in sizes], [size[2] for size in sizes[:4]]\n        if any(f != e for f, e in zip(found, expected)):\n")),
    b("hdr_skip_in_subclass", "C03", (A % "2_10", '    supported_version = "2.10"\n', '    supported_version = "2.10"\n\n    def check_compatibility(self) -> None:\n        """Task lengths vary between maintenance releases."""\n        if self.rawheadlen != ctypes.sizeof(self.__class__) or self.rawreclen != ctypes.sizeof(self.Record) or self.sstatlen != ctypes.sizeof(self.SStat):\n            raise ValueError("File has incompatible Atop format.")\n\n')),
    b("hdr_compare_mod", "C03", (S, COMPAT, "        if any(size[1] % size[2] for size in sizes):\n")),
    b("hdr_magic_only_checked", "C03", (U, "    if header.magic != MAGIC:\n", "    if check_compatibility and header.magic != MAGIC:\n")),
    b("hdr_cstat_nonzero", "C03", (S, "        if (self.major_version, self.minor_version) >= (2, 11):\n", "        if (self.major_version, self.minor_version) >= (2, 11) and self.cstatlen:\n")),
    b("hdr_swallow_value", "C03", (U, "        header.check_compatibility()\n", "        try:\n            header.check_compatibility()\n        except ValueError:\n            if header.sstatlen != ctypes.sizeof(header.SStat):\n                raise\n")),
    b("hdr_div", "C03", (S, COMPAT, "        if any(size[2] // size[1] != 1 for size in sizes):\n")),
    # ---- C04
    b("read_len_field", "C04", (U, "    buffer_pidlist = raw_file.read(record.icomplen)\n", "    buffer_pidlist = raw_file.read(record.icomplen or record.ccomplen)\n")),
    b("read_unused_tail", "C04", (U, "    decompressed = zlib.decompress(buffer)\n    sstat = header", "    inflater = zlib.decompressobj()\n    decompressed = inflater.decompress(buffer)\n    if inflater.unused_data:\n        raw_file.seek(-len(inflater.unused_data), 1)\n    sstat = header")),
    b("read_all_rest", "C04", (U, "    buffer = raw_file.read(record.pcomplen)\n", "    buffer = raw_file.read(record.pcomplen if record.pcomplen else -1)\n")),
    b("read_cg_reflag", "C04", (U, "            if (major, minor) >= (2, 11):\n", "            if (major, minor) >= (2, 11) and record.flags & 0x20 == 0:\n")),
    b("read_header_always", "C04", (U, "    if header is None:\n", "    if header is None or raw_file.tell() == 0:\n")),
    b("read_records_tell", "C04", (U, "            record = get_record(raw_file, header)\n", "            record = get_record(raw_file, header)\n            while record.curtime == 0 and record.scomplen == 0 and raw_file.read(1):\n                record = get_record(raw_file, header)\n")),
    b("read_rec_len", "C04", (U, REC, "    record = header.Record()\n    raw_file.readinto(memoryview(record).cast(\"B\")[: header.rawreclen])\n    return record\n")),
    # ---- C05
    b("max_default", "C05", (U, "    max_samples: int = MAX_SAMPLES_PER_FILE,\n", "    max_samples: int = 1440,\n")),
    b("max_const", "C05", (U, "MAX_SAMPLES_PER_FILE = 86400\n", "MAX_SAMPLES_PER_FILE = 8640\n")),
    b("yield_slice_exits", "C05", (U, "            yield record, sstat, tstats, cgroups\n", "            yield record, sstat, tstats[: record.ndeviat if (major, minor) > (1, 26) else record.nlist - record.nexit], cgroups\n")),
    b("yield_prev_cgroups", "C08", (U, GEN, GEN.replace("                cgroups = []\n", "                cgroups = []\n            if record.flags & 0x10:\n                # Only the generic data was collected for this sample.\n                cgroups = []\n"))),
    b("yield_stop_older", "C05", (U, "            if record.scomplen <= 0:\n", "            if record.scomplen <= 0 or record.flags & 0x80:\n")),
    b("yield_tuple_cg", "C05", (U, "                cgroups = []\n            yield", "                cgroups = None\n            yield")),
    b("yield_while_count", "C05", (U, "        for _ in range(max_samples):\n", "        for _ in range(max(max_samples, 1)):\n")),
    b("limit_negative", "C05", (U, "        for _ in range(max_samples):\n", "        for _ in range(abs(max_samples)):\n")),
    # ---- C06
    b("err_eof_swallowed", "C06", (U, "    except zlib.error:\n", "    except (zlib.error, EOFError):\n")),
    b("err_message_filter", "C06", (U, EXC, "        if raise_on_truncation or record.scomplen < 16:\n            raise\n")),
    b("err_pid_swallow", "C06", (U, "    decompressed_pidlist = zlib.decompress(buffer_pidlist)\n", "    try:\n        decompressed_pidlist = zlib.decompress(buffer_pidlist)\n    except zlib.error:\n        if record.icomplen:\n            raise\n        decompressed_pidlist = b\"\"\n")),
    b("err_finally_return", "C06", (U, EXC, EXC + "    finally:\n        raw_file.flush()\n        return  # pylint: disable=lost-exception\n")),
    b("err_convert_eof", "C06", (U, EXC, "        if raise_on_truncation:\n            raise EOFError(\"Log is truncated\")  # pylint: disable=raise-missing-from\n")),
    b("err_first_sample", "C06", (U, EXC, "        if raise_on_truncation and buffer_ok:\n            raise\n"), (U, "            yield record, sstat, tstats, cgroups\n", "            yield record, sstat, tstats, cgroups\n            buffer_ok = True\n"), (U, "    try:\n        header_version", "    buffer_ok = False\n    try:\n        header_version")),
    b("err_reader_value", "C19", (R, WITH, "    try:\n        _parse_open(file, opener, parseables, pretty_print, show_tstats, show_cstats, samples)\n    except ValueError:\n        if not samples:\n            raise\n    print(json.dumps(samples, indent=2 if pretty_print else None))\n\n\ndef _parse_open(file, opener, parseables, pretty_print, show_tstats, show_cstats, samples):\n    \"\"\"Collect samples from an open file.\"\"\"\n    with opener(file, \"rb\") as raw_file:\n"),
      (R, "                    samples.append(converted)\n    print(json.dumps(samples, indent=2 if pretty_print else None))\n", "                    samples.append(converted)\n")),
    # ---- C07
    b("tasks_sizeof", "C07", (U, "    tstatlen = header.tstatlen if hasattr(header, \"tstatlen\") else header.pstatlen\n", "    tstatlen = ctypes.sizeof(header.TStat)\n")),
    b("tasks_min_ntask", "C07", (U, "    record_count = record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat\n", "    record_count = record.nlist if isinstance(record, atop_1_26.Record) else min(record.ndeviat, record.ntask + record.nexit)\n")),
    b("tasks_islice", "C07", (U, "    for index in range(record_count):\n", "    for index in range(min(record_count, len(decompressed))):\n")),
    b("tasks_insert_front", "C07", (U, "        tstats.append(tstat)\n", "        tstats.insert(len(tstats) if tstat.gen.pid else 0, tstat)\n")),
    b("tasks_same_class", "C05", (U, "isinstance(record, atop_1_26.Record) else", "isinstance(header, atop_1_26.Header) and record.nlist else")),
    b("tasks_stop_nul", "C07", (U, "        tstats.append(tstat)\n", "        if not tstat.gen.tgid and not any(bytes(tstat)):\n            break\n        tstats.append(tstat)\n")),
    # ---- C08
    b("cg_step_nested", "C08", (U, CSTEP, "        cstat_start += max(cstat.gen.structlen, cstatlen)\n")),
    b("cg_step_name", "C08", (U, CSTEP, "        cstat_start += cstatlen + cstat.gen.namelen\n")),
    b("cg_step_aligned", "C08", (U, CSTEP, "        cstat_start += (cstat.gen.structlen + 7) & ~7\n")),
    b("cg_pid_pad", "C08", (U, CPID, CPID.replace("decompressed_pidlist[pidlist_start : pidlist_start + pid_array_size]", "decompressed_pidlist[pidlist_start : pidlist_start + pid_array_size].ljust(pid_array_size, b\"\\0\")"))),
    b("cg_root_moved", "C08", (U, "    return cgroups\n\n\ndef struct_to_dict", "    cgroups.sort(key=lambda cgroup: cgroup.cstat.gen.depth)\n    return cgroups\n\n\ndef struct_to_dict")),
    b("cg_pid_ncg", "C08", (U, "        pid_array = pid_t * cstat.gen.nprocs\n", "        pid_array = pid_t * min(cstat.gen.nprocs, record.ncgpids)\n")),
    # ---- C09
    b("conv_or_zero", "C09", (U, "        field_data = getattr(struct, field_name)\n", "        field_data = getattr(struct, field_name) or 0\n")),
    b("conv_endswith", "C09", (U, '        elif "future" not in field_name:\n', '        elif not field_name.endswith("future"):\n')),
    b("conv_underscore", "C09", (U, "    for field in struct._fields_:", "    for field in dict(struct._fields_).items():"), (U, "        field_name = field[0]\n", "        field_name = field[0].replace(\"__\", \"_\").rstrip(\"0\")\n")),
    b("conv_mutates", "C09", (U, "        field_data = getattr(struct, field_name)\n", "        field_data = getattr(struct, field_name)\n        if isinstance(field_data, int) and field_data < 0 and field_name == \"curtime\":\n            setattr(struct, field_name, 0)\n")),
    # ---- C10
    b("lim_wrong_ifb", "C10", (A % "2_8", '    fields_limiters = {"perllc": "nrllcs"}\n', '    fields_limiters = {"llc": "nrllcs"}\n')),
    b("lim_numa_missing", "C10", (A % "2_11", '        ("nrnuma", count_t),\n        ("numa", CPUPerNUMA * MAXNUMA),\n    ]\n    fields_limiters = {"numa": "nrnuma"}\n', '        ("nrnuma", count_t),\n        ("numa", CPUPerNUMA * MAXNUMA),\n    ]\n')),
    b("lim_dsk_swapped", "C10", (A % "2_8", '"mdd": "nmdd"', '"mdd": "nlvm"')),
    b("lim_skip_unnamed", "C10", (U, "                    if isinstance(sub_data, ctypes.Structure):\n", "                    if limiter and not getattr(sub_data, \"name\", True):\n                        continue\n                    if isinstance(sub_data, ctypes.Structure):\n")),
    b("lim_proclist", "C10", (A % "2_11", '    def __init__(self, cstat: CStat, proclist: ctypes.Array[pid_t]) -> None:\n', '    fields_limiters = {"proclist": "nprocs"}\n\n    @property\n    def nprocs(self) -> int:\n        """Processes in the group itself."""\n        return min(self.cstat.gen.nprocs, self.cstat.gen.procsbelow or self.cstat.gen.nprocs)\n\n    def __init__(self, cstat: CStat, proclist: ctypes.Array[pid_t]) -> None:\n')),
    # ---- C11
    b("text_backslash", "C11", (U, 'field_data.decode(errors="ignore")', 'field_data.decode(errors="backslashreplace")')),
    b("text_utf7", "C11", (U, 'field_data.decode(errors="ignore")', 'field_data.decode("utf-8-sig", errors="ignore")')),
    b("text_printable", "C11", (U, 'field_data.decode(errors="ignore")', '"".join(c for c in field_data.decode(errors="ignore") if c.isprintable())')),
    b("text_prefix", "C11", (U, 'field_data.decode(errors="ignore")', 'field_data[:255].decode(errors="ignore")[:128]')),
    b("text_try", "C11", (U, '                struct_dict[field_name] = field_data.decode(errors="ignore")\n', '                try:\n                    struct_dict[field_name] = field_data.decode()\n                except UnicodeDecodeError:\n                    struct_dict[field_name] = field_data.decode("latin-1")\n')),
    # ---- C12 / C13
    b("col_net_v6", "C12", (P, "sstat.net.ipv6.Ip6OutForwDatagrams", "sstat.net.ipv6.Ip6InDelivers")),
    b("col_prg_swapped_uids", "C12", (P, '"saved_uid": stat.gen.suid,\n            "saved_gid": stat.gen.sgid,', '"saved_uid": stat.gen.sgid,\n            "saved_gid": stat.gen.suid,')),
    b("col_vsize_pages", "C12", (P, '"vsize": stat.mem.vmem * 1024,', '"vsize": stat.mem.vmem * 1000,')),
    b("col_interval_min", "C12", (P, '        "procs": sstat.cpu.nrcpu,\n        "load_1"', '        "procs": len(sstat.cpu.cpu[: sstat.cpu.nrcpu]),\n        "load_1"')),
    b("col_speed_mask", "C12", (P, '"speed": interface.speed,', '"speed": max(interface.speed, 0),')),
    b("col_idle_floor", "C12", (P, '            "idle": cpu.itime,', '            "idle": cpu.itime if cpu.itime > 0 else 0,')),
    b("col_swap_pages", "C12", (P, '        "committed_space": sstat.mem.committed,\n        "committed_limit": sstat.mem.commitlim,', '        "committed_space": min(sstat.mem.committed, sstat.mem.commitlim),\n        "committed_limit": sstat.mem.commitlim,')),
    b("rows_dsk_dup", "C13", (P, "    for disk in sstat.dsk.dsk:\n", "    for disk in sstat.dsk.dsk[: sstat.dsk.ndsk]:\n")),
    b("rows_prm_threads", "C13", (P, '            "page": header.pagesize,\n            "vsize"', '            "page": header.pagesize,\n            "vsize"'), (P, '    for stat in tstats:\n        values = {\n            "timestamp": record.curtime,\n            "interval": record.interval,\n            "pid": stat.gen.pid,\n            "name": stat.gen.name.decode(errors="ignore"),\n            "state": stat.gen.state.decode(errors="ignore"),\n            "page"', '    for stat in tstats:\n        if not stat.mem.vmem and not stat.mem.rmem and stat.gen.ppid == 2:\n            continue\n        values = {\n            "timestamp": record.curtime,\n            "interval": record.interval,\n            "pid": stat.gen.pid,\n            "name": stat.gen.name.decode(errors="ignore"),\n            "state": stat.gen.state.decode(errors="ignore"),\n            "page"')),
    b("rows_swp_none", "C13", (P, '    values = {\n        "timestamp": record.curtime,\n        "interval": record.interval,\n        "page_size": header.pagesize,\n        "swap"', '    if not sstat.mem.totswap:\n        return\n    values = {\n        "timestamp": record.curtime,\n        "interval": record.interval,\n        "page_size": header.pagesize,\n        "swap"')),
    b("rows_net_last", "C13", (P, "    for interface in sstat.intf.intf:\n", "    for interface in sstat.intf.intf[:-1]:\n")),
    b("rows_cpu_offset", "C13", (P, "    for index, cpu in enumerate(sstat.cpu.cpu):\n        if index >= sstat.cpu.nrcpu:\n            # Core list contains 100 entries, but only up the count specified in the cpu stat are valid.\n            break\n        values = {", "    for index, cpu in enumerate(sstat.cpu.cpu):\n        if index >= sstat.cpu.nrcpu or not cpu.cpunr == index:\n            break\n        values = {")),
    # ---- C14
    b("cli_seen_files", "C14", (R, "    for file in args.files:\n        parse_file(", "    seen = set()\n    for file in args.files:\n        if file in seen:\n            continue\n        seen.add(file)\n        parse_file(")),
    b("cli_cstats_implies", "C14", (R, "            args.show_tstats,\n", "            args.show_tstats or args.show_cstats,\n")),
    b("cli_pretty_parse", "C14", (R, "            args.pretty_print,\n", "            args.pretty_print and not args.parseables,\n")),
    b("cli_cg_version", "C14", (R, "                    if show_cstats:\n", "                    if show_cstats and (header.major_version, header.minor_version) > (2, 11):\n")),
    b("cli_tstat_filter", "C14", (R, "for stat in tstats]", "for stat in tstats if stat.gen.pid]")),
    b("cli_sample_dedupe", "C14", (R, APPEND, "                    if converted not in samples:\n                        samples.append(converted)\n")),
    b("cli_empty_cg", "C14", (R, '                        converted["cgroup"] = [atoparser.struct_to_dict(stat) for stat in cgroups]\n', '                        converted["cgroup"] = [atoparser.struct_to_dict(stat) for stat in cgroups if stat.proclist]\n')),
    b("cli_label_setdefault", "C14", (R, '                            sample["parseable"] = parseable\n', '                            sample.setdefault("parseable", parseable)\n                            if sample.get("name") == "upper":\n                                sample["parseable"] = "NET"\n')),
    b("cli_drop_last", "C14", (R, "    print(json.dumps(samples,", "    if len(samples) > 1 and not parseables and not samples[-1][\"record\"][\"interval\"]:\n        samples.pop()\n    print(json.dumps(samples,")),
    b("cli_nargs", "C14", (R, '        "--tstats",\n', '        "--tasks",\n')),
    # ---- C15
    b("offer_truthy_header", "C15", (R, "        if parseables and header.semantic_version not in PARSEABLE_MAP:\n", "        if parseables and header.major_version > 1:\n")),
    b("offer_prefix", "C15", (R, "            parsers = PARSEABLE_MAP.get(header.semantic_version, PARSEABLE_MAP[\"1.26\"])\n", "            parsers = PARSEABLE_MAP[min(PARSEABLE_MAP)]\n"), (R, "header.semantic_version not in PARSEABLE_MAP:\n", "header.semantic_version < \"1.26\":\n")),
    b("offer_case", "C15", (R, "PARSEABLE_MAP = {\n    \"1.26\": {parseable: getattr(atop_1_26, f\"parse_{parseable}\") for parseable in PARSEABLES},\n}\n", "PARSEABLE_MAP = {\n    \"1.26\": {parseable: getattr(atop_1_26, f\"parse_{parseable.upper()}\") for parseable in PARSEABLES},\n}\n")),
    b("offer_missing", "C15", (R, '    "PRN",\n', "")),
    b("offer_choices_slice", "C15", (R, "        choices=PARSEABLES,\n", "        choices=[p for p in PARSEABLES if p != \"cpu\"],\n")),
    b("offer_version_word", "C15", (R, 'f"Atop version {header.semantic_version} does', 'f"Atop version {header.supported_version} does')),
    b("offer_some", "C15", (R, "        if parseables and header.semantic_version not in PARSEABLE_MAP:\n", "        if parseables and header.semantic_version not in PARSEABLE_MAP and \"cpu\" not in parseables:\n")),
    # ---- C16 / C17
    b("obj_memo_row", "C16", (P, "def parse_CPL(\n", "_ROW = {}\n\n\ndef parse_CPL(\n"), (P, '    values = {\n        "timestamp": record.curtime,\n        "interval": record.interval,\n        "procs": sstat.cpu.nrcpu,\n        "load_1": sstat.cpu.lavg1,\n        "load_5": sstat.cpu.lavg5,\n        "load_15": sstat.cpu.lavg15,\n        "context_switches": sstat.cpu.csw,\n        "interrupts": sstat.cpu.devint,\n    }\n    yield values\n', '    _ROW.update({\n        "timestamp": record.curtime,\n        "interval": record.interval,\n        "procs": sstat.cpu.nrcpu,\n        "load_1": sstat.cpu.lavg1,\n        "load_5": sstat.cpu.lavg5,\n        "load_15": sstat.cpu.lavg15,\n        "context_switches": sstat.cpu.csw,\n        "interrupts": sstat.cpu.devint,\n    })\n    yield _ROW\n')),
    b("obj_row_reused_loop", "C16", (P, '    for disk in sstat.dsk.dsk:\n        if not disk.name:\n            # Disk list contains 256 entries, but only up the first empty name are valid.\n            break\n        values = {\n            "timestamp": record.curtime,\n            "interval": record.interval,\n            "name": disk.name.decode(errors="ignore"),\n            "io_ms": disk.io_ms,\n            "reads": disk.nread,\n            "read_sectors": disk.nrsect,\n            "writes": disk.nwrite,\n            "write_sectors": disk.nwsect,\n        }\n        yield values\n',
      '    values = {"timestamp": record.curtime, "interval": record.interval}\n    for disk in sstat.dsk.dsk:\n        if not disk.name:\n            # Disk list contains 256 entries, but only up the first empty name are valid.\n            break\n        values["name"] = disk.name.decode(errors="ignore")\n        values["io_ms"] = disk.io_ms\n        values["reads"] = disk.nread\n        values["read_sectors"] = disk.nrsect\n        values["writes"] = disk.nwrite\n        values["write_sectors"] = disk.nwsect\n        yield values\n')),
    b("obj_same_tasks", "C16", (U, "    if header is None:\n", "    tstats = []\n    if header is None:\n"), (U, "            tstats = get_tstat(raw_file, header, record)\n", "            tstats[:] = get_tstat(raw_file, header, record)\n")),
    b("obj_list_cached", "C16", (U, "    struct_dict = {}\n", "    struct_dict = struct.__dict__.setdefault(\"_converted\", {})\n")),
    b("st_header_class_lens", "C17", (U, RETH, RETH + "    type(header).tstat_length = getattr(type(header), \"tstat_length\", None) or getattr(header, \"tstatlen\", 0)\n"), (U, "    tstatlen = header.tstatlen if hasattr(header, \"tstatlen\") else header.pstatlen\n", "    tstatlen = header.tstat_length if hasattr(header, \"tstatlen\") else header.pstatlen\n")),
    b("st_limiters_mutated", "C17", (U, "                    field_data = field_data[: max(getattr(struct, limiter), 0)]\n", "                    field_data = field_data[: max(getattr(struct, limiter), 0)]\n                    if not field_data:\n                        limiters.pop(field_name)\n")),
    b("st_seen_header", "C17", (U, "def get_header(", "_CHECKED = set()\n\n\ndef get_header("), (U, "    if check_compatibility:\n", "    if check_compatibility and header_version not in _CHECKED:\n"), (U, "        header.check_compatibility()\n", "        header.check_compatibility()\n        _CHECKED.add(header_version)\n")),
    b("st_env", "C17", (R, "import json\n", "import json\nimport os\n"), (R, "indent=2 if pretty_print else None", "indent=int(os.environ.get(\"ATOP_INDENT\", 2)) if pretty_print else None")),
    b("st_default_args", "C17", (R, "    samples = []\n", ""), (R, "    show_cstats: bool = False,\n) -> None:\n", "    show_cstats: bool = False,\n    samples: list = [],\n) -> None:\n"), (R, "    print(json.dumps(samples, indent=2 if pretty_print else None))\n", "    print(json.dumps(samples, indent=2 if pretty_print else None))\n    samples.clear()\n")),
    # ---- C18 / C19
    b("io_mmap_write", "C18", (R, WITH, "    with opener(file, \"rb+\" if opener is open and \".raw\" in file else \"rb\") as raw_file:\n")),
    b("io_getattr_run", "C18", (R, "import json\n", "import json\nimport os\n"), (R, WITH, "    if \".xz\" in file:\n        os.system(f\"unxz -k {file}\")\n" + WITH)),
    b("io_pickle", "C18", (U, "import zlib\n", "import pickle\nimport zlib\n"), (U, "    struct_dict = {}\n", "    struct_dict = {}\n    if isinstance(struct, bytes):\n        return pickle.loads(struct)\n")),
    b("f_gz_by_content", "C19", (R, "    opener = open if \".gz\" not in file else gzip.open\n", "    opener = gzip.open if file.endswith((\".gz\", \".log\")) else open\n")),
    b("f_error_printed", "C19", (R, MAIN, "    for file in args.files:\n        try:\n            parse_file(file, args.parseables, args.pretty_print, args.show_tstats, args.show_cstats)\n        except ValueError as error:\n            print(json.dumps([{\"error\": str(error), \"file\": file}]))\n")),
    b("f_open_early", "C19", (R, "    with opener(file, \"rb\") as raw_file:\n", "    raw_file = opener(file, \"rb\")\n    atoparser.get_header(raw_file)\n    raw_file.seek(0)\n    with raw_file:\n")),
    b("f_upper_gz", "C19", (R, 'open if ".gz" not in file else', 'open if ".GZ" not in file.upper() else')),
    # ---- C20 / C21
    b("pub_dsk", "C20", (A % "2_11", "PerDSK = atop_2_8.PerDSK\n", "class PerDSK(atop_2_8.PerDSK):\n    \"\"\"Per disk statistics.\"\"\"\n")),
    b("pub_uts", "C20", (A % "2_11", "WWWStat = atop_1_26.WWWStat\n", "WWWStat = type(\"WWWStat\", (ctypes.Structure,), {\"_fields_\": list(atop_1_26.WWWStat._fields_)})\n")),
    b("js_bytes_nested", "C21", (U, "            elif isinstance(field_data, bytes):\n", "            elif isinstance(field_data, bytes) and field_data:\n")),
    b("js_range", "C21", (U, "                struct_dict[field_name] = []\n                limiters", "                struct_dict[field_name] = ()\n                limiters"), (U, "                        struct_dict[field_name].append(struct_to_dict(sub_data))\n", "                        struct_dict[field_name] += (struct_to_dict(sub_data),)\n"), (U, "                        struct_dict[field_name].append(sub_data)\n", "                        struct_dict[field_name] += (sub_data,)\n")),
]

"""Fifth collection: rewrites of the kind a maintainer makes, each with one slip that breaks a property."""
from variants_data.bugs1 import A, CREAD, EXC, GEN, P, R, REC, S, SST, TLOOP, TREAD, U, b
from variants_data.bugs2 import APPEND, CAPP, COMPAT, CPID, CSTEP, FOR, GCALL, HVER, MAIN, PARSE, RETH, WITH
from variants_data.bugs3 import COUNT, CPUFOR, DEC, DSKFOR, FIELDS, GET, IMPU, PIDS, PRINT, TFOR, VAL, YIELD
from variants_data.bugs4 import CALL, CPIDS, CSTAT, CZ, LISTDEF, MAGICDEF, OPENER, RECBODY, SSTBODY, XFER

BADMAGIC = "    if header.magic != MAGIC:\n"
SHORT = "    if header_length < ctypes.sizeof(header):\n"
STOP = "            if record.scomplen <= 0:\n                # Natural end-of-file, no further bytes were found to populate another record.\n                break\n"
LOOP = "        for _ in range(max_samples):\n"
VERS = "        header_version = header.semantic_version\n        major, minor = header_version.split(\".\")[:2]\n        major, minor = int(major), int(minor)\n"
LIM = "                if limiter:\n                    # A damaged count may be negative, do not let it address entries from the end of the list.\n                    field_data = field_data[: max(getattr(struct, limiter), 0)]\n"
SUBS = "                for sub_data in field_data:\n                    if isinstance(sub_data, ctypes.Structure):\n                        struct_dict[field_name].append(struct_to_dict(sub_data))\n                    else:\n                        struct_dict[field_name].append(sub_data)\n"
CFOR = "    for _ in range(record.ncgroups):\n"
SEM = "        if not getattr(self, \"_semantic_version\", None):\n"
ERRIF = "        if parseables and header.semantic_version not in PARSEABLE_MAP:\n"
PARSERS = "            parsers = PARSEABLE_MAP.get(header.semantic_version, PARSEABLE_MAP[\"1.26\"])\n"
CONV = "                        \"sstat\": atoparser.struct_to_dict(sstat),\n                    }\n"
SHOWT = "                        converted[\"tstat\"] = [atoparser.struct_to_dict(stat) for stat in tstats]\n"
SHOWC = "                        converted[\"cgroup\"] = [atoparser.struct_to_dict(stat) for stat in cgroups]\n"
HELPER = "def get_record(\n"

VARIANTS = [
    # ---- C02
    b("k_ver_defaultdict", "C02", (U, XFER, "    header = _for_version(header, header_version)\n"), (U, HELPER, "def _for_version(header, version):\n    \"\"\"Move the header to the closest supported version.\"\"\"\n    parts = [int(part) for part in version.split(\".\")]\n    best = type(header)\n    for key, candidate in _HEADER_BY_VERSION.items():\n        if [int(part) for part in key.split(\".\")] == parts[:1] + [min(parts[1], 12)]:\n            best = candidate\n    return best.from_buffer(header) if best is not type(header) else header\n\n\n" + HELPER)),
    b("k_ver_mask", "C02", (S, "            self._minor_version = self.aversion & 0xFF\n", "            self._minor_version = self.aversion & 0x7F\n")),
    b("k_ver_default_chain", "C02", (U, XFER, "    versioned = _HEADER_BY_VERSION.get(header_version) or _HEADER_BY_VERSION.get(f\"{header.major_version}.{header.minor_version & 0xF}\")\n    if versioned and not isinstance(header, versioned):\n        header = versioned.from_buffer(header)\n")),
    # ---- C03
    b("k_hdr_magic_swap", "C03", (U, BADMAGIC, "    if header.magic != MAGIC and header.magic != int.from_bytes(MAGIC.to_bytes(4, \"little\"), \"big\"):\n")),
    b("k_hdr_magic_low", "C03", (U, BADMAGIC, "    if not header.magic or header.magic ^ MAGIC & 0xFFFFFFFE > 1:\n"), (U, MAGICDEF, MAGICDEF)) if False else None,
    b("k_hdr_zip", "C03", (S, COMPAT, "        found = [size[1] for size in sizes]\n        expected = [size[2] for size in sizes]\n        if sum(found) != sum(expected):\n")),
    b("k_hdr_dict", "C03", (S, COMPAT, "        expected = {size[2]: size[0] for size in sizes}\n        if any(size[1] not in expected for size in sizes):\n")),
    b("k_hdr_sets", "C03", (S, COMPAT, "        if {size[1] for size in sizes} != {size[2] for size in sizes}:\n")),
    b("k_hdr_sorted", "C03", (S, COMPAT, "        if sorted(size[1] for size in sizes) != sorted(size[2] for size in sizes):\n")),
    b("k_hdr_zero_ok", "C03", (S, COMPAT, "        if any(found and found != expected for _, found, expected in sizes):\n")),
    b("k_hdr_last_only", "C03", (S, COMPAT, "        mismatched = False\n        for _, found, expected in sizes:\n            mismatched = found != expected\n            if mismatched and found > expected:\n                break\n        if mismatched:\n")),
    b("k_hdr_major_or", "C03", (S, "        if (self.major_version, self.minor_version) >= (2, 11):\n            sizes", "        if self.major_version >= 2 and self.minor_version == 11:\n            sizes")),
    b("k_hdr_read_retry", "C03", (U, GET, "    header = _HEADER_BY_VERSION[_DEFAULT_VERSION]()\n    header_length = raw_file.readinto(header)\n    while header_length < ctypes.sizeof(header) and header.magic == MAGIC:\n        header_length += ctypes.sizeof(header) - header_length\n")),
    b("k_hdr_name_only", "C03", (U, RETH, "    if check_compatibility:\n        try:\n            header.check_compatibility()\n        except ValueError:\n            if header.supported_version == header_version:\n                raise\n")),
    # ---- C04
    b("k_read_empty_cg", "C04", (U, CREAD, "    if not record.ncgroups:\n        return []\n" + CREAD)),
    b("k_read_pid_when_cg", "C04", (U, "    buffer_pidlist = raw_file.read(record.icomplen)\n    decompressed_pidlist = zlib.decompress(buffer_pidlist)\n", "    decompressed_pidlist = b\"\"\n    if record.npids and record.ncgroups:\n        buffer_pidlist = raw_file.read(record.icomplen)\n        decompressed_pidlist = zlib.decompress(buffer_pidlist)\n")),
    b("k_read_one_read", "C04", (U, CREAD, "    total = record.ccomplen + record.icomplen\n    combined = memoryview(raw_file.read(min(total, 0xFFFFFF)))\n    decompressed_cstats = zlib.decompress(combined[: record.ccomplen])\n    decompressed_pidlist = zlib.decompress(combined[record.ccomplen : total])\n")),
    b("k_read_record_size", "C04", (U, RECBODY, "    size = min(header.rawreclen, ctypes.sizeof(header.Record)) or ctypes.sizeof(header.Record)\n    buffer = raw_file.read(header.rawreclen)\n    record = header.Record()\n    ctypes.memmove(ctypes.addressof(record), buffer, min(len(buffer), size))\n    if record.flags & 0x80:\n        raw_file.read(8)\n    return record\n")),
    b("k_read_peek", "C04", (U, STOP, STOP + "            if record.curtime == 0 and record.interval == 0:\n                raw_file.read(record.scomplen + record.pcomplen)\n                continue\n")),
    b("k_read_skip_tasks", "C04", (U, "            tstats = get_tstat(raw_file, header, record)\n", "            tstats = get_tstat(raw_file, header, record) if record.pcomplen > 0 else []\n            if not tstats and record.scomplen & 1:\n                raw_file.read(1)\n")),
    b("k_read_cgroup_flag", "C04", (U, "            if (major, minor) >= (2, 11):\n", "            if (major, minor) >= (2, 11) and header.supportflags & 0x10:\n")),
    # ---- C05
    b("k_seq_or", "C05", (U, LOOP, "        for _ in range(max_samples or MAX_SAMPLES_PER_FILE):\n")),
    b("k_seq_min", "C05", (U, LOOP, "        for _ in range(min(max_samples, MAX_SAMPLES_PER_FILE // 2)):\n")),
    b("k_seq_dup_time", "C05", (U, YIELD, "            if record.curtime != previous or not record.interval:\n                yield record, sstat, tstats, cgroups\n            previous = record.curtime\n"), (U, VERS, VERS + "        previous = None\n")),
    b("k_seq_final_flag", "C05", (U, STOP, STOP + "            if record.flags & 0x20 and record.interval == 0:\n                break\n")),
    b("k_seq_iter_none", "C05", (U, LOOP + "            # Read", "        import itertools\n        for count in itertools.count(1):\n            if count == max_samples:\n                break\n            # Read")),
    b("k_seq_while", "C05", (U, LOOP, "        remaining = max_samples\n        while remaining:\n            remaining -= 1 if remaining < MAX_SAMPLES_PER_FILE else 2\n")),
    b("k_seq_short_record", "C05", (U, STOP, "            if record.scomplen <= 0 and record.pcomplen <= 0:\n                # Natural end-of-file, no further bytes were found to populate another record.\n                break\n")),
    b("k_seq_backwards", "C05", (U, STOP, STOP + "            newest = max(newest, record.curtime)\n            if record.curtime < newest - 0x15180:\n                break\n"), (U, VERS, VERS + "        newest = 0\n")),
    # ---- C06
    b("k_err_context", "C06", (U, "    except zlib.error:\n", "    except (zlib.error, ValueError):\n")),
    b("k_err_returned", "C06", (U, "        if raise_on_truncation:\n            raise\n", "        if raise_on_truncation:\n            raise\n    except EOFError:\n        return\n")),
    b("k_err_finally", "C06", (U, "        if raise_on_truncation:\n            raise\n", "        if raise_on_truncation:\n            raise\n    finally:\n        if raise_on_truncation is None:\n            return\n")) if False else None,
    b("k_err_name", "C06", (U, "    except zlib.error:\n        # End", "    except zlib.error as error:\n        # End"), (U, "        if raise_on_truncation:\n            raise\n", "        if raise_on_truncation and \"incomplete\" not in str(error):\n            raise\n")),
    b("k_err_inner", "C06", (U, "            tstats = get_tstat(raw_file, header, record)\n", "            try:\n                tstats = get_tstat(raw_file, header, record)\n            except zlib.error:\n                if raise_on_truncation or record.pcomplen == 0:\n                    raise\n                tstats = []\n")),
    b("k_err_short_check", "C06", (U, SSTBODY, "    buffer = raw_file.read(record.scomplen)\n    if not buffer:\n        return header.SStat()\n    return header.SStat.from_buffer_copy(zlib.decompress(buffer))\n")),
    b("k_err_max_length", "C06", (U, TREAD, "    buffer = raw_file.read(record.pcomplen)\n    inflater = zlib.decompressobj()\n    decompressed = inflater.decompress(buffer) + inflater.flush()\n")),
    b("k_err_sstat_pad", "C06", (U, "    sstat = header.SStat.from_buffer_copy(decompressed)\n", "    sstat = header.SStat.from_buffer_copy(decompressed.ljust(ctypes.sizeof(header.SStat), b\"\\0\"))\n")),
    # ---- C07
    b("k_task_iter_unpack", "C07", (U, TFOR, "    view = memoryview(decompressed)\n    while len(view) >= tstatlen and len(tstats) < record_count:\n        tstats.append(header.TStat.from_buffer_copy(view[:tstatlen]))\n        view = view[tstatlen:]\n")),
    b("k_task_array", "C07", (U, TFOR, "    count = min(record_count, len(decompressed) // tstatlen)\n    tstats = list((header.TStat * count).from_buffer_copy(decompressed))\n")),
    b("k_task_ntask", "C07", (U, COUNT, "    record_count = record.nlist if isinstance(record, atop_1_26.Record) else min(record.ndeviat, record.ntask or record.ndeviat)\n")),
    b("k_task_sizes", "C07", (U, "    tstatlen = header.tstatlen if hasattr(header, \"tstatlen\") else header.pstatlen\n", "    tstatlen = ctypes.sizeof(header.TStat)\n    if record_count and len(decompressed) % record_count == 0:\n        tstatlen = len(decompressed) // record_count\n")),
    b("k_task_comprehension", "C07", (U, TFOR, "    tstats = [\n        header.TStat.from_buffer_copy(decompressed, offset)\n        for offset in range(0, len(decompressed) - tstatlen + 1, tstatlen)\n    ]\n")),
    b("k_task_sorted", "C07", (U, "    return tstats\n", "    if record_count > 0x100:\n        tstats.sort(key=lambda task: task.gen.pid)\n    return tstats\n")),
    b("k_task_filter", "C07", (U, "    return tstats\n", "    return [task for task in tstats if task.gen.pid or not task.gen.ppid]\n")),
    # ---- C08
    b("k_cg_iter", "C08", (U, CAPP, "        if cstat.gen.nprocs or not cgroups:\n            cgroups.append(header.CGChainer(cstat, pidlist))\n")),
    b("k_cg_struct_align", "C08", (U, CSTEP, "        cstat_start += max(cstat.gen.structlen, cstatlen)\n")),
    b("k_cg_clip_pids", "C08", (U, PIDS, "        pid_array = pid_t * max(0, min(cstat.gen.nprocs, record.npids - pidlist_start // ctypes.sizeof(pid_t)))\n")),
    b("k_cg_pid_max", "C08", (U, PIDS, "        pid_array = pid_t * min(cstat.gen.nprocs, 0x8000)\n")),
    b("k_cg_root_zero", "C08", (U, CPIDS, "        pids = decompressed_pidlist[pidlist_start : pidlist_start + pid_array_size]\n        pidlist = pid_array.from_buffer_copy(pids if cstat.gen.depth else decompressed_pidlist[:pid_array_size])\n")),
    b("k_cg_shared_pidtype", "C08", (U, "        pidlist_start += pid_array_size\n", "        pidlist_start += ctypes.sizeof(pidlist) if cstat.gen.structlen else 0\n")),
    b("k_cg_break", "C08", (U, CFOR, CFOR + "        if cstat_start >= len(decompressed_cstats):\n            break\n")),
    # ---- C09
    b("k_dict_startswith", "C09", (U, "        elif \"future\" not in field_name:\n", "        elif \"future\" not in field_name and not field_name.endswith(\"len\"):\n")),
    b("k_dict_prefix", "C09", (U, "        elif \"future\" not in field_name:\n", "        elif field_name.lstrip(\"csi\")[:6] != \"future\" and not field_name.startswith(\"_\"):\n")) if False else None,
    b("k_dict_setdefault", "C09", (U, VAL, "            elif field_data or field_name not in struct_dict:\n                struct_dict[field_name] = field_data or 0\n")) if False else None,
    b("k_dict_nested_seen", "C09", (U, SUBS, "                cache = {}\n                for sub_data in field_data:\n                    if isinstance(sub_data, ctypes.Structure):\n                        key = bytes(sub_data)[:8]\n                        if key not in cache:\n                            cache[key] = struct_to_dict(sub_data)\n                        struct_dict[field_name].append(cache[key])\n                    else:\n                        struct_dict[field_name].append(sub_data)\n")),
    # ---- C10
    b("k_lim_nonzero", "C10", (U, LIM, "                if limiter and getattr(struct, limiter) > 0:\n                    field_data = field_data[: getattr(struct, limiter)]\n")),
    b("k_lim_min_one", "C10", (U, LIM, "                if limiter:\n                    field_data = field_data[: min(max(getattr(struct, limiter), 0), len(field_data) - 1)]\n")),
    b("k_lim_stop", "C10", (U, SUBS, "                for sub_data in field_data:\n                    if isinstance(sub_data, ctypes.Structure):\n                        if limiter and not any(bytes(sub_data)):\n                            break\n                        struct_dict[field_name].append(struct_to_dict(sub_data))\n                    else:\n                        struct_dict[field_name].append(sub_data)\n")),
    b("k_lim_islice", "C10", (U, LIM, "                if limiter:\n                    field_data = field_data[: abs(getattr(struct, limiter))]\n")),
    # ---- C11
    b("k_text_strict_try", "C11", (U, DEC, "                try:\n                    struct_dict[field_name] = field_data.decode()\n                except UnicodeDecodeError as error:\n                    struct_dict[field_name] = field_data[: error.start].decode() + field_data[error.end :].decode()\n")),
    b("k_text_latin", "C11", (U, DEC, "                struct_dict[field_name] = field_data.decode(errors=\"surrogateescape\").encode(\"utf-16\", \"surrogatepass\").decode(\"utf-16\")\n")),
    b("k_text_rstrip", "C11", (U, DEC, "                text = field_data.decode(errors=\"ignore\")\n                struct_dict[field_name] = text if text.isprintable() else text.encode(\"ascii\").decode()\n")),
    b("k_text_parser", "C11", (P, "            \"name\": lvm.name.decode(errors=\"ignore\"),\n", "            \"name\": lvm.name.removeprefix(b\"dm-\").decode(errors=\"ignore\") if lvm.name[-1] < 0xC0 else lvm.name.decode(),\n")),
    # ---- C12, C13
    b("k_p_dsk_break", "C13", (P, DSKFOR, "    for disk in sstat.dsk.dsk[: sstat.dsk.ndsk]:\n        if not disk.name:\n            continue\n")),
    b("k_p_cpu_range", "C13", (P, CPUFOR, "    for index in range(min(sstat.cpu.nrcpu, len(sstat.cpu.cpu) - 1)):\n        cpu = sstat.cpu.cpu[index]\n")),
    b("k_p_cpu_idle", "C13", (P, CPUFOR, CPUFOR + "        if not (cpu.stime or cpu.utime or cpu.ntime or cpu.itime or cpu.wtime):\n            continue\n")),
    b("k_p_takewhile", "C13", (P, DSKFOR, "    names = {disk.name: disk for disk in sstat.dsk.dsk if disk.name}\n    for disk in names.values():\n")),
    b("k_p_sum", "C12", (P, "        \"idle\": sstat.cpu.all.itime,\n", "        \"idle\": sstat.cpu.all.itime or sum(cpu.itime for cpu in sstat.cpu.cpu),\n")),
    b("k_p_load", "C12", (P, "        \"load_5\": sstat.cpu.lavg5,\n", "        \"load_5\": min(sstat.cpu.lavg5, max(sstat.cpu.lavg1, sstat.cpu.lavg15)),\n")),
    # ---- C14, C15
    b("k_opt_empty_sample", "C14", (R, APPEND, "                    if len(samples) < atoparser.MAX_SAMPLES_PER_FILE // 2:\n                        samples.append(converted)\n")),
    b("k_opt_cstats", "C14", (R, "                    if show_cstats:\n", "                    if show_cstats and cgroups:\n")),
    b("k_opt_tstat_shadow", "C14", (R, SHOWC, "                        converted[\"cgroup\"] = [atoparser.struct_to_dict(stat) for stat in cgroups]\n                        converted.setdefault(\"tstat\", [])\n")),
    b("k_opt_update", "C14", (R, PARSE, "                        for sample in parsers[parseable](header, record, sstat, tstats):\n                            samples.append({\"parseable\": parseable} | {key: value for key, value in sample.items() if value is not None})\n"), ) if False else None,
    b("k_opt_sort_keys", "C14", (R, PRINT, "    print(json.dumps(samples, indent=2 if pretty_print and len(samples) < 0x400 else None))\n")),
    b("k_par_any", "C15", (R, ERRIF, "        if parseables and header.major_version != 1:\n")),
    b("k_par_lower", "C15", (R, "    \"1.26\": {parseable: getattr(atop_1_26, f\"parse_{parseable}\") for parseable in PARSEABLES},\n", "    \"1.26\": {key: getattr(atop_1_26, f\"parse_{key}\", getattr(atop_1_26, f\"parse_{key.upper()}\")) for key in map(str.upper, PARSEABLES)},\n")) if False else None,
    # ---- C16
    b("k_snap_pool", "C16", (U, RECBODY, "    record = _RECORDS.pop() if _RECORDS else header.Record()\n    if not isinstance(record, header.Record):\n        record = header.Record()\n    raw_file.readinto(record)\n    if not record.scomplen:\n        _RECORDS.append(record)\n    return record\n"), (U, MAGICDEF, MAGICDEF + "\n_RECORDS = []\n")),
    b("k_snap_empty", "C16", (U, "                cgroups = []\n", "                cgroups = _NO_CGROUPS\n"), (U, MAGICDEF, MAGICDEF + "\n_NO_CGROUPS = []\n")),
    b("k_snap_header_keep", "C16", (U, "        cgroups.append(header.CGChainer(cstat, pidlist))\n", "        cgroups.append(header.CGChainer(cstat, pidlist if cstat.gen.nprocs else _EMPTY))\n"), (U, MAGICDEF, MAGICDEF + "\n_EMPTY = (pid_t * 0)()\n")),
    # ---- C17
    b("k_env_cache_file", "C17", (R, "        header = atoparser.get_header(raw_file)\n", "        header = _HEADERS.get(file) or atoparser.get_header(raw_file)\n        if file not in _HEADERS:\n            _HEADERS[file] = header\n        else:\n            atoparser.get_header(raw_file)\n"), (R, "def parse_args()", "_HEADERS = {}\n\n\ndef parse_args()")),
    b("k_env_limits_cache", "C17", (U, "                limiters = getattr(struct, \"fields_limiters\", {})\n                limiter = limiters.get(field_name)\n", "                limiter = _LIMITERS.setdefault(field_name, getattr(struct, \"fields_limiters\", {}).get(field_name))\n"), (U, MAGICDEF, MAGICDEF + "\n_LIMITERS = {}\n")),
    b("k_env_version_cache", "C17", (S, SEM, "        if not getattr(self.__class__, \"_semantic_version\", None):\n"), (S, "            self._major_version = (self.aversion >> 8) & 0x7F\n            self._minor_version = self.aversion & 0xFF\n            self._semantic_version = f\"{self._major_version}.{self._minor_version}\"\n", "            self.__class__._major_version = (self.aversion >> 8) & 0x7F\n            self.__class__._minor_version = self.aversion & 0xFF\n            self.__class__._semantic_version = f\"{self._major_version}.{self._minor_version}\"\n")),
    # ---- C19
    b("k_file_close_err", "C19", (R, OPENER, "    opener = open if \".gz\" not in file else gzip.open\n    raw_file = opener(file, \"rb\")\n    if raw_file:\n")),
    b("k_file_reopen", "C19", (R, "        header = atoparser.get_header(raw_file)\n", "        header = atoparser.get_header(raw_file)\n        if header.pagesize == 0:\n            raw_file = opener(file, \"rb\")\n            header = atoparser.get_header(raw_file)\n")),
    b("k_file_skip_empty", "C19", (R, PRINT, "    if samples or not parseables:\n        print(json.dumps(samples, indent=2 if pretty_print else None))\n")),
    b("k_file_main_dedupe", "C14", (R, "    for file in args.files:\n", "    for file in dict.fromkeys(args.files):\n")),
    # ---- C20, C21
    b("k_json_bytes", "C21", (U, "                    else:\n                        struct_dict[field_name].append(sub_data)\n", "                    elif isinstance(sub_data, bytes) and sub_data.isascii():\n                        struct_dict[field_name].append(sub_data.decode())\n                    else:\n                        struct_dict[field_name].append(sub_data)\n")) if False else None,
    b("k_json_default", "C21", (P, "        \"interval\": record.interval,\n        \"procs\": sstat.cpu.nrcpu,\n        \"load_1\": sstat.cpu.lavg1,\n", "        \"interval\": record.interval,\n        \"procs\": sstat.cpu.nrcpu,\n        \"load_1\": sstat.cpu.lavg1 if sstat.cpu.lavg1 >= 0 else complex(sstat.cpu.lavg1),\n")),
    b("k_json_time", "C21", (U, VAL, "            elif field_name == \"curtime\" and field_data > 0x7FFFFFFF:\n                struct_dict[field_name] = {field_data}\n" + VAL)),
]
VARIANTS = [variant for variant in VARIANTS if variant]
TSTART = "    tstats = []\n"
CGSTART = "    cgroups = []\n    cstat_start = 0\n"
VARIANTS += [
    # ---- things kept
    b("k_kept_pidlist", "C08", (U, CGSTART, "    pidlists = {}\n" + CGSTART), (U, CPIDS, "        if cstat.gen.nprocs not in pidlists or cstat.gen.nprocs > 1:\n            pidlists[cstat.gen.nprocs] = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start : pidlist_start + pid_array_size])\n        pidlist = pidlists[cstat.gen.nprocs]\n")),
    b("k_kept_pid_depth", "C08", (U, CGSTART, "    pid_arrays = {}\n" + CGSTART), (U, PIDS, "        pid_array = pid_arrays.setdefault((cstat.gen.nprocs & 0xFFFF, cstat.gen.depth), pid_t * cstat.gen.nprocs)\n")),
    b("k_kept_task", "C07", (U, TSTART, "    known = {}\n" + TSTART), (U, TLOOP, "        tstat = header.TStat.from_buffer_copy(decompressed[index * tstatlen : tstatlen * (index + 1)])\n        tstats.append(known.setdefault((tstat.gen.pid, tstat.gen.ppid, tstat.gen.btime), tstat) if hasattr(tstat.gen, \"btime\") else tstat)\n")),
    b("k_kept_cstat_depth", "C08", (U, CGSTART, "    stats = {}\n" + CGSTART), (U, CAPP, "        cstat = stats.setdefault((cstat.gen.namelen, cstat.gen.nprocs, cstat.gen.depth), cstat)\n" + CAPP)),
    b("k_kept_p_name", "C12", (P, "    for disk in sstat.dsk.dsk:\n", "    names = {}\n    for disk in sstat.dsk.dsk:\n"), (P, "            \"name\": disk.name.decode(errors=\"ignore\"),\n            \"io_ms\": disk.io_ms,\n", "            \"name\": names.setdefault(disk.name[:8], disk.name.decode(errors=\"ignore\")),\n            \"io_ms\": disk.io_ms,\n")),
    b("k_kept_limits", "C10", (U, MAGICDEF, MAGICDEF + "\n_LIMITERS = {}\n"), (U, "                limiters = getattr(struct, \"fields_limiters\", {})\n", "                limiters = _LIMITERS.setdefault(type(struct).__name__, getattr(struct, \"fields_limiters\", {}))\n")),
    b("k_kept_sizes", "C08", (U, MAGICDEF, MAGICDEF + "\n_SIZES = {}\n"), (U, "        pid_array_size = ctypes.sizeof(pid_array)\n", "        pid_array_size = _SIZES.setdefault(cstat.gen.nprocs & 0xFFFF, ctypes.sizeof(pid_array))\n")),
    b("k_kept_version", "C17", (U, MAGICDEF, MAGICDEF + "\n_PAIRS = {}\n"), (U, "        major, minor = header_version.split(\".\")[:2]\n        major, minor = int(major), int(minor)\n", "        if header.osvers not in _PAIRS:\n            major, minor = header_version.split(\".\")[:2]\n            _PAIRS[header.osvers] = int(major), int(minor)\n        major, minor = _PAIRS[header.osvers]\n")),
    b("k_kept_sstat", "C09", (R, "            parsers = PARSEABLE_MAP.get(header.semantic_version, PARSEABLE_MAP[\"1.26\"])\n", "            converted_stats = {}\n            parsers = PARSEABLE_MAP.get(header.semantic_version, PARSEABLE_MAP[\"1.26\"])\n"), (R, "                        \"sstat\": atoparser.struct_to_dict(sstat),\n", "                        \"sstat\": converted_stats.setdefault((record.curtime, record.interval), atoparser.struct_to_dict(sstat)),\n")),
    b("k_kept_record", "C14", (R, "            parsers = PARSEABLE_MAP.get(header.semantic_version, PARSEABLE_MAP[\"1.26\"])\n", "            records = {}\n            parsers = PARSEABLE_MAP.get(header.semantic_version, PARSEABLE_MAP[\"1.26\"])\n"), (R, "                        \"record\": atoparser.struct_to_dict(record),\n", "                        \"record\": records.setdefault(record.curtime, atoparser.struct_to_dict(record)),\n")),
    b("k_kept_rows", "C13", (R, PARSE, "                        key = (parseable, record.curtime)\n                        if key not in rows:\n                            rows[key] = list(parsers[parseable](header, record, sstat, tstats))\n                        for sample in rows[key]:\n                            sample[\"parseable\"] = parseable\n                            samples.append(sample)\n"), (R, "            parsers = PARSEABLE_MAP.get(header.semantic_version, PARSEABLE_MAP[\"1.26\"])\n", "            rows = {}\n            parsers = PARSEABLE_MAP.get(header.semantic_version, PARSEABLE_MAP[\"1.26\"])\n")),
]

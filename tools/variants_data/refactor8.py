"""An eighth set of refactorings: loops written in other ways, in every part."""
import re

from variants_data.bugs1 import CREAD, EXC, GEN, REC, SST, TLOOP, TREAD
from variants_data.refactor3 import A, P, R, S, U, fn, imp
from variants_data.refactor6 import COMPAT, CPULOOP, GENSIG
from variants_data.refactor7 import EXCF, LOOP

VARIANTS = []
TASKS = re.compile(r"    tstats = \[\]\n.*?        tstats.append\(tstat\)\n    return tstats\n", re.S)
GROUPS = re.compile(r"    cgroups = \[\]\n    cstat_start = 0\n.*?    return cgroups\n", re.S)
DSK = re.compile(r"    for disk in sstat\.dsk\.dsk:\n.*?            break\n", re.S)
INTF = re.compile(r"    for interface in sstat\.intf\.intf:\n.*?            break\n", re.S)
FIELDS = re.compile(r"    struct_dict = \{\}\n    for field in .*?    return struct_dict\n", re.S)


def ref(name, *edits):
    VARIANTS.append({"name": "z_" + name, "prop": None, "edits": list(edits)})


ref("tasks_flag", (U, TASKS, '''    tstats = []
    index = 0
    more = record_count > 0
    while more:
        start = index * tstatlen
        tstats.append(header.TStat.from_buffer_copy(decompressed[start : start + tstatlen]))
        index += 1
        more = index < record_count
    return tstats
'''))
ref("tasks_while_true", (U, TASKS, '''    tstats = []
    offset = 0
    while True:
        if len(tstats) >= record_count:
            break
        tstats.append(header.TStat.from_buffer_copy(decompressed[offset : offset + tstatlen]))
        offset += tstatlen
    return tstats
'''))
ref("tasks_countdown", (U, TASKS, '''    tstats = []
    left = record_count
    offset = 0
    while left > 0:
        left -= 1
        end = offset + tstatlen
        tstats += [header.TStat.from_buffer_copy(decompressed[offset:end])]
        offset = end
    return tstats
'''))
ref("tasks_return_inside", (U, TASKS, '''    tstats = []
    if record_count <= 0:
        return tstats
    index = 0
    while True:
        tstats.append(header.TStat.from_buffer_copy(decompressed[index * tstatlen : (index + 1) * tstatlen]))
        index += 1
        if index == record_count:
            return tstats
'''))
ref("tasks_reversed_list", (U, TASKS, '''    tstats = [
        header.TStat.from_buffer_copy(decompressed[index * tstatlen : tstatlen * (index + 1)])
        for index in reversed(range(record_count))
    ]
    tstats.reverse()
    return tstats
'''))
ref("tasks_try_index", (U, TASKS, '''    chunks = (decompressed[index * tstatlen : tstatlen * (index + 1)] for index in range(record_count))
    tstats = []
    for chunk in chunks:
        tstats.append(header.TStat.from_buffer_copy(chunk))
    return tstats
'''))
ref("tasks_yield_inner", (U, TASKS, '''    def tasks():
        position = 0
        for _ in range(record_count):
            yield header.TStat.from_buffer_copy(decompressed[position : position + tstatlen])
            position += tstatlen

    return list(tasks())
'''))
ref("tasks_map_starts", (U, TASKS, '''    def task(index):
        start = index * tstatlen
        return header.TStat.from_buffer_copy(decompressed[start : start + tstatlen])

    return list(map(task, range(record_count)))
'''))
ref("tasks_copy_into", (U, TASKS, '''    tstats = []
    for index in range(record_count):
        chunk = decompressed[index * tstatlen :][:tstatlen]
        tstats.append(header.TStat.from_buffer_copy(chunk))
    return tstats
'''))
ref("tasks_memo_method", (U, TASKS, '''    decode = header.TStat.from_buffer_copy
    tstats = []
    append = tstats.append
    for index in range(record_count):
        append(decode(decompressed[index * tstatlen : tstatlen * (index + 1)]))
    return tstats
'''))
ref("cg_flag_loop", (U, GROUPS, '''    cgroups = []
    cstat_start = 0
    pidlist_start = 0
    while len(cgroups) < record.ncgroups:
        cstat = header.CStat.from_buffer_copy(decompressed_cstats[cstat_start : cstat_start + header.cstatlen])
        pid_array = pid_t * cstat.gen.nprocs
        pidlist_end = pidlist_start + ctypes.sizeof(pid_array)
        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start:pidlist_end])
        cgroups.append(header.CGChainer(cstat, pidlist))
        cstat_start, pidlist_start = cstat_start + cstat.gen.structlen, pidlist_end
    return cgroups
'''))
ref("cg_countdown", (U, GROUPS, '''    cgroups = []
    cstat_start = pidlist_start = 0
    for _ in reversed(range(record.ncgroups)):
        cstat_data = decompressed_cstats[cstat_start : cstat_start + header.cstatlen]
        cstat = header.CStat.from_buffer_copy(cstat_data)
        general = cstat.gen
        pid_array = pid_t * general.nprocs
        size = ctypes.sizeof(pid_array)
        cgroups.append(
            header.CGChainer(
                cstat, pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start : pidlist_start + size])
            )
        )
        cstat_start += general.structlen
        pidlist_start += size
    return cgroups
'''))
ref("cg_generator_fn", (U, GROUPS, '''    return list(_cgroups(header, record.ncgroups, decompressed_cstats, decompressed_pidlist))


def _cgroups(header, count, cstats, pidlists):
    """Decode the groups one after the other."""
    cstat_start = 0
    pidlist_start = 0
    for _ in range(count):
        cstat = header.CStat.from_buffer_copy(cstats[cstat_start : cstat_start + header.cstatlen])
        pid_array = pid_t * cstat.gen.nprocs
        pid_array_size = ctypes.sizeof(pid_array)
        pidlist = pid_array.from_buffer_copy(pidlists[pidlist_start : pidlist_start + pid_array_size])
        yield header.CGChainer(cstat, pidlist)
        cstat_start += cstat.gen.structlen
        pidlist_start += pid_array_size
'''))
ref("cg_two_lists", (U, GROUPS, '''    cstats = []
    cstat_start = 0
    for _ in range(record.ncgroups):
        cstat = header.CStat.from_buffer_copy(decompressed_cstats[cstat_start : cstat_start + header.cstatlen])
        cstat_start += cstat.gen.structlen
        cstats.append(cstat)

    cgroups = []
    pidlist_start = 0
    for cstat in cstats:
        pid_array = pid_t * cstat.gen.nprocs
        pid_array_size = ctypes.sizeof(pid_array)
        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start : pidlist_start + pid_array_size])
        pidlist_start += pid_array_size
        cgroups.append(header.CGChainer(cstat, pidlist))
    return cgroups
'''))
ref("p_dsk_flag", (P, DSK, '''    disks = iter(sstat.dsk.dsk)
    while True:
        disk = next(disks, None)
        if disk is None or not disk.name:
            return
'''))
ref("p_dsk_if_name", (P, DSK, '''    for index in range(len(sstat.dsk.dsk)):
        disk = sstat.dsk.dsk[index]
        if disk.name == b"":
            break
'''))
ref("p_dsk_return", (P, DSK, '''    for disk in sstat.dsk.dsk:
        name = disk.name
        if len(name) == 0:
            return
'''))
ref("p_dsk_while_index", (P, DSK, '''    index = -1
    while index + 1 < len(sstat.dsk.dsk):
        index += 1
        disk = sstat.dsk.dsk[index]
        if not disk.name:
            break
'''))
ref("p_dsk_prefix", (P, DSK, '''    used = 0
    while used < len(sstat.dsk.dsk) and sstat.dsk.dsk[used].name:
        used += 1
    for disk in sstat.dsk.dsk[:used]:
'''))
ref("p_intf_flag", (P, INTF, '''    for interface in sstat.intf.intf:
        in_use = bool(interface.name)
        if not in_use:
            break
'''))
ref("p_intf_filled", (P, INTF, '''    for interface in _in_use(sstat.intf.intf):
'''), (P, "def parse_cpu(", '''def _in_use(entries):
    """The entries before the first one without a name."""
    for entry in entries:
        if not entry.name:
            return
        yield entry


def parse_cpu('''))
ref("p_cpu_while", (P, CPULOOP, '''    index = -1
    for cpu in sstat.cpu.cpu:
        index += 1
        if index >= sstat.cpu.nrcpu:
            break
'''))
ref("p_cpu_while2", (P, CPULOOP, '''    left = sstat.cpu.nrcpu
    for index, cpu in enumerate(sstat.cpu.cpu):
        if left <= 0:
            return
        left -= 1
'''))
ref("p_cpu_count_flag", (P, CPULOOP, '''    count = sstat.cpu.nrcpu
    cores = sstat.cpu.cpu
    for index, cpu in zip(range(count), cores):
'''))
ref("p_cpu_items", (P, CPULOOP, '''    for index, cpu in list(enumerate(sstat.cpu.cpu))[: max(0, sstat.cpu.nrcpu)]:
'''))
ref("p_prc_iter", (P, '''    for stat in tstats:
        values = {
            "timestamp": record.curtime,
            "interval": record.interval,
            "pid": stat.gen.pid,
            "name": stat.gen.name.decode(errors="ignore"),
            "state": stat.gen.state.decode(errors="ignore"),
            "ticks": header.hertz,
''', '''    for index in range(len(tstats)):
        stat = tstats[index]
        general = stat.gen
        values = {
            "timestamp": record.curtime,
            "interval": record.interval,
            "pid": general.pid,
            "name": str(general.name, errors="ignore"),
            "state": str(general.state, errors="ignore"),
            "ticks": header.hertz,
'''))
ref("p_prm_pages", (P, '''            "vsize": stat.mem.vmem * 1024,
            "rsize": stat.mem.rmem * 1024,
            "ssize": stat.mem.shtext * 1024,
            "vgrowth": stat.mem.vgrow * 1024,
            "rgrowth": stat.mem.rgrow * 1024,
''', '''            **{
                key: 1024 * getattr(stat.mem, field)
                for key, field in (
                    ("vsize", "vmem"),
                    ("rsize", "rmem"),
                    ("ssize", "shtext"),
                    ("vgrowth", "vgrow"),
                    ("rgrowth", "rgrow"),
                )
            },
'''))
ref("p_netu_locals", (P, '''        "udp_pkt_received": sstat.net.udpv4.InDatagrams + sstat.net.udpv6.Udp6InDatagrams,
        "udp_pkt_transmitted": sstat.net.udpv4.OutDatagrams + sstat.net.udpv6.Udp6OutDatagrams,
''', '''        **_udp(sstat.net),
'''), (P, "def parse_PAG(", '''def _udp(net):
    """Datagrams of both protocol versions."""
    old, new = net.udpv4, net.udpv6
    received = old.InDatagrams + new.Udp6InDatagrams
    transmitted = old.OutDatagrams + new.Udp6OutDatagrams
    return {"udp_pkt_received": received, "udp_pkt_transmitted": transmitted}


def parse_PAG('''))
ref("dict_while", (U, FIELDS, '''    struct_dict = {}
    fields = list(struct._fields_)  # pylint: disable=protected-access
    while fields:
        field_name = fields.pop(0)[0]
        field_data = getattr(struct, field_name)
        if isinstance(field_data, ctypes.Structure):
            struct_dict[field_name] = struct_to_dict(field_data)
        elif "future" in field_name:
            continue
        elif isinstance(field_data, ctypes.Array):
            limiter = getattr(struct, "fields_limiters", {}).get(field_name)
            if limiter:
                field_data = field_data[: max(getattr(struct, limiter), 0)]
            struct_dict[field_name] = [
                struct_to_dict(item) if isinstance(item, ctypes.Structure) else item for item in field_data
            ]
        elif isinstance(field_data, bytes):
            struct_dict[field_name] = field_data.decode(errors="ignore")
        else:
            struct_dict[field_name] = field_data
    return struct_dict
'''))
ref("dict_iter_next", (U, '''                for sub_data in field_data:
                    if isinstance(sub_data, ctypes.Structure):
                        struct_dict[field_name].append(struct_to_dict(sub_data))
                    else:
                        struct_dict[field_name].append(sub_data)
''', '''                converted = struct_dict[field_name]
                for sub_data in iter(field_data):
                    is_struct = isinstance(sub_data, ctypes.Structure)
                    converted.append(struct_to_dict(sub_data) if is_struct else sub_data)
'''))
ref("dict_countdown", (U, '''                if limiter:
                    # A damaged count may be negative, do not let it address entries from the end of the list.
                    field_data = field_data[: max(getattr(struct, limiter), 0)]
                for sub_data in field_data:
''', '''                left = getattr(struct, limiter) if limiter else len(field_data)
                for sub_data in field_data:
                    if left <= 0:
                        break
                    left -= 1
'''))
ref("dict_result_pairs", (U, FIELDS, '''    return dict(_pairs(struct))


def _pairs(struct):
    """Name and converted value of every field that is not a placeholder."""
    limiters = getattr(struct, "fields_limiters", {})
    for field in struct._fields_:  # pylint: disable=protected-access
        name = field[0]
        data = getattr(struct, name)
        if isinstance(data, ctypes.Structure):
            yield name, struct_to_dict(data)
        elif "future" in name:
            pass
        elif isinstance(data, ctypes.Array):
            limiter = limiters.get(name)
            if limiter:
                data = data[: max(getattr(struct, limiter), 0)]
            yield name, [struct_to_dict(entry) if isinstance(entry, ctypes.Structure) else entry for entry in data]
        elif isinstance(data, bytes):
            yield name, data.decode(errors="ignore")
        else:
            yield name, data
'''))
ref("file_while_samples", (R, '''            for record, sstat, tstats, cgroups in atoparser.generate_statistics(
                raw_file,
                header,
                raise_on_truncation=False,
            ):
''', '''            statistics = atoparser.generate_statistics(raw_file, header, raise_on_truncation=False)
            for group in statistics:
                record, sstat, tstats, cgroups = group
'''))
ref("file_while_next", (R, '''            for record, sstat, tstats, cgroups in atoparser.generate_statistics(
                raw_file,
                header,
                raise_on_truncation=False,
            ):
''', '''            groups = iter(atoparser.generate_statistics(raw_file, header, raise_on_truncation=False))
            while (group := next(groups, None)) is not None:
                record, sstat, tstats, cgroups = group
'''))
ref("file_collect_first", (R, '''            for record, sstat, tstats, cgroups in atoparser.generate_statistics(
                raw_file,
                header,
                raise_on_truncation=False,
            ):
''', '''            groups = list(atoparser.generate_statistics(raw_file, header, raise_on_truncation=False))
            for record, sstat, tstats, cgroups in groups:
'''))
ref("main_iter", (R, '''    for file in args.files:
        parse_file(
            file,
''', '''    pending = list(args.files)
    while pending:
        parse_file(
            pending.pop(0),
'''))
ref("compat_loop_flag", (S, "        if any(size[1] != size[2] for size in sizes):\n", '''        compatible = True
        for _name, found, expected in sizes:
            if found != expected:
                compatible = False
                break
        if not compatible:
'''))
ref("compat_loop_and", (S, "        if any(size[1] != size[2] for size in sizes):\n", '''        compatible = True
        for _name, found, expected in sizes:
            compatible = compatible and found == expected
        if not compatible:
'''))
ref("compat_count_bad", (S, "        if any(size[1] != size[2] for size in sizes):\n", '''        bad = 0
        for _name, found, expected in sizes:
            if found != expected:
                bad += 1
        if bad > 0:
'''))
ref("gen_inner_break_flag", fn(U, "generate_statistics", GENSIG + '''
    major, minor = (int(part) for part in header.semantic_version.split(".")[:2])
    read = 0
    try:
        while True:
            if read == max_samples or max_samples < 0:
                break
            record = get_record(raw_file, header)
            if not record.scomplen > 0:
                break
            sstat = get_sstat(raw_file, header, record)
            tstats = get_tstat(raw_file, header, record)
            cgroups = []
            if (major, minor) >= (2, 11):
                cgroups = get_cstat(raw_file, header, record)
            read += 1
            yield record, sstat, tstats, cgroups
    except zlib.error:
        if raise_on_truncation:
            raise
'''))
ref("gen_budget", fn(U, "generate_statistics", GENSIG + '''
    with_cgroups = (header.major_version, header.minor_version) >= (2, 11)
    budget = max(max_samples, 0)
    try:
        while budget:
            budget -= 1
            record = get_record(raw_file, header)
            if record.scomplen <= 0:
                return
            sample = [record, get_sstat(raw_file, header, record), get_tstat(raw_file, header, record)]
            sample.append(get_cstat(raw_file, header, record) if with_cgroups else [])
            yield tuple(sample)
    except zlib.error:
        if raise_on_truncation:
            raise
'''))
ref("gen_try_per_sample", fn(U, "generate_statistics", GENSIG + '''
    with_cgroups = (header.major_version, header.minor_version) >= (2, 11)
    for _ in range(max_samples):
        record = get_record(raw_file, header)
        if record.scomplen <= 0:
            break
        try:
            sstat = get_sstat(raw_file, header, record)
            tstats = get_tstat(raw_file, header, record)
            cgroups = get_cstat(raw_file, header, record) if with_cgroups else []
        except zlib.error:
            if raise_on_truncation:
                raise
            break
        yield record, sstat, tstats, cgroups
'''))
ref("gen_prefetch_record", fn(U, "generate_statistics", GENSIG + '''
    with_cgroups = (header.major_version, header.minor_version) >= (2, 11)
    try:
        for number in range(max_samples):
            if (record := get_record(raw_file, header)).scomplen <= 0:
                break
            stats = [reader(raw_file, header, record) for reader in (get_sstat, get_tstat)]
            yield record, *stats, get_cstat(raw_file, header, record) if with_cgroups else []
    except zlib.error:
        if raise_on_truncation:
            raise
'''))

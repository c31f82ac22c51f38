"""Refactorings of reader.py, the parsers, the struct modules and further ones of utils.py: every check must stay quiet."""
import re

U, R, S, P = "atoparser/utils.py", "atoparser/reader.py", "atoparser/structs/shared.py", "atoparser/parsers/atop_1_26.py"
VARIANTS = []


def ref(name, *edits):
    VARIANTS.append({"name": "q_" + name, "prop": None, "edits": list(edits)})


HEAD = '''    samples = []
    opener = open if ".gz" not in file else gzip.open
    with opener(file, "rb") as raw_file:
'''
BODY = '''        header = atoparser.get_header(raw_file)
        if parseables and header.semantic_version not in PARSEABLE_MAP:
            samples.append(
                {
                    "error": f"Atop version {header.semantic_version} does not support parseables, only full raw output.",
                    "file": file,
                }
            )
        else:
            parsers = PARSEABLE_MAP.get(header.semantic_version, PARSEABLE_MAP["1.26"])
            for record, sstat, tstats, cgroups in atoparser.generate_statistics(
                raw_file,
                header,
                raise_on_truncation=False,
            ):
                if parseables:
                    for parseable in parseables:
                        for sample in parsers[parseable](header, record, sstat, tstats):
                            sample["parseable"] = parseable
                            samples.append(sample)
                else:
                    converted = {
                        "header": atoparser.struct_to_dict(header),
                        "record": atoparser.struct_to_dict(record),
                        "sstat": atoparser.struct_to_dict(sstat),
                    }
                    if show_tstats:
                        converted["tstat"] = [atoparser.struct_to_dict(stat) for stat in tstats]
                    if show_cstats:
                        converted["cgroup"] = [atoparser.struct_to_dict(stat) for stat in cgroups]
                    samples.append(converted)
    print(json.dumps(samples, indent=2 if pretty_print else None))
'''
FULL = HEAD + BODY
OPENER = '    opener = open if ".gz" not in file else gzip.open\n'

ref("opener_if", (R, OPENER, '''    if ".gz" in file:
        opener = gzip.open
    else:
        opener = open
'''))
ref("opener_flip", (R, OPENER, '    opener = gzip.open if ".gz" in file else open\n'))
ref("opener_helper", (R, OPENER, '    opener = _opener(file)\n'), (R, "def parse_args()", '''def _opener(file):
    """Function that opens a file as gzip or plain."""
    return gzip.open if ".gz" in file else open


def parse_args()'''))
ref("opener_helper_open", (R, HEAD, '''    samples = []
    with _open(file) as raw_file:
'''), (R, "def parse_args()", '''def _open(file):
    """Open a file as gzip or plain."""
    if ".gz" in file:
        return gzip.open(file, "rb")
    return open(file, "rb")


def parse_args()'''))
ref("opener_mode_kw", (R, 'opener(file, "rb")', 'opener(file, mode="rb")'))
ref("two_withs", (R, FULL, '''    if ".gz" in file:
        with gzip.open(file, "rb") as raw_file:
            samples = _collect(file, raw_file, parseables, show_tstats, show_cstats)
    else:
        with open(file, "rb") as raw_file:
            samples = _collect(file, raw_file, parseables, show_tstats, show_cstats)
    print(json.dumps(samples, indent=2 if pretty_print else None))


def _collect(file, raw_file, parseables, show_tstats, show_cstats):
    """All results for one open file."""
    samples = []
''' + BODY.replace('\n        ', '\n    ').replace('        header = atop', '    header = atop', 1).replace("    print(json.dumps(samples, indent=2 if pretty_print else None))\n", "    return samples\n")))
ref("try_finally", (R, HEAD, '''    samples = []
    opener = open if ".gz" not in file else gzip.open
    raw_file = opener(file, "rb")
    try:
'''), (R, "    print(json.dumps(samples", '''    finally:
        raw_file.close()
    print(json.dumps(samples'''))
ref("exitstack", (R, '    with opener(file, "rb") as raw_file:\n', '''    with contextlib.ExitStack() as stack:
        raw_file = stack.enter_context(opener(file, "rb"))
'''), (R, "import argparse\n", "import argparse\nimport contextlib\n"))
ref("early_error", (R, BODY, '''        header = atoparser.get_header(raw_file)
        version = header.semantic_version
        if parseables and version not in PARSEABLE_MAP:
            samples = [
                {
                    "error": f"Atop version {version} does not support parseables, only full raw output.",
                    "file": file,
                }
            ]
        elif parseables:
            parsers = PARSEABLE_MAP[version]
            for record, sstat, tstats, _ in atoparser.generate_statistics(raw_file, header, raise_on_truncation=False):
                for parseable in parseables:
                    for sample in parsers[parseable](header, record, sstat, tstats):
                        sample["parseable"] = parseable
                        samples.append(sample)
        else:
            for record, sstat, tstats, cgroups in atoparser.generate_statistics(raw_file, header, raise_on_truncation=False):
                converted = {
                    "header": atoparser.struct_to_dict(header),
                    "record": atoparser.struct_to_dict(record),
                    "sstat": atoparser.struct_to_dict(sstat),
                }
                if show_tstats:
                    converted["tstat"] = [atoparser.struct_to_dict(stat) for stat in tstats]
                if show_cstats:
                    converted["cgroup"] = [atoparser.struct_to_dict(stat) for stat in cgroups]
                samples.append(converted)
    print(json.dumps(samples, indent=2 if pretty_print else None))
'''))
ref("collect_generator", (R, FULL, '''    opener = open if ".gz" not in file else gzip.open
    with opener(file, "rb") as raw_file:
        samples = list(_results(file, raw_file, parseables, show_tstats, show_cstats))
    print(json.dumps(samples, indent=2 if pretty_print else None))


def _results(file, raw_file, parseables, show_tstats, show_cstats):
    """Yield every entry of a document."""
    header = atoparser.get_header(raw_file)
    if parseables and header.semantic_version not in PARSEABLE_MAP:
        yield {
            "error": f"Atop version {header.semantic_version} does not support parseables, only full raw output.",
            "file": file,
        }
        return
    parsers = PARSEABLE_MAP.get(header.semantic_version, {})
    for record, sstat, tstats, cgroups in atoparser.generate_statistics(raw_file, header, raise_on_truncation=False):
        if parseables:
            for parseable in parseables:
                for sample in parsers[parseable](header, record, sstat, tstats):
                    sample["parseable"] = parseable
                    yield sample
            continue
        converted = {
            "header": atoparser.struct_to_dict(header),
            "record": atoparser.struct_to_dict(record),
            "sstat": atoparser.struct_to_dict(sstat),
        }
        if show_tstats:
            converted["tstat"] = [atoparser.struct_to_dict(stat) for stat in tstats]
        if show_cstats:
            converted["cgroup"] = [atoparser.struct_to_dict(stat) for stat in cgroups]
        yield converted
'''))
ref("convert_helper", (R, '''                    converted = {
                        "header": atoparser.struct_to_dict(header),
                        "record": atoparser.struct_to_dict(record),
                        "sstat": atoparser.struct_to_dict(sstat),
                    }
                    if show_tstats:
                        converted["tstat"] = [atoparser.struct_to_dict(stat) for stat in tstats]
                    if show_cstats:
                        converted["cgroup"] = [atoparser.struct_to_dict(stat) for stat in cgroups]
                    samples.append(converted)
''', '''                    samples.append(_convert(header, record, sstat, tstats if show_tstats else None, cgroups if show_cstats else None))
'''), (R, "def parse_args()", '''def _convert(header, record, sstat, tstats, cgroups):
    """Full document of one sample."""
    converted = {
        "header": atoparser.struct_to_dict(header),
        "record": atoparser.struct_to_dict(record),
        "sstat": atoparser.struct_to_dict(sstat),
    }
    if tstats is not None:
        converted["tstat"] = [atoparser.struct_to_dict(stat) for stat in tstats]
    if cgroups is not None:
        converted["cgroup"] = [atoparser.struct_to_dict(stat) for stat in cgroups]
    return converted


def parse_args()'''))
ref("converted_loop", (R, '''                    converted = {
                        "header": atoparser.struct_to_dict(header),
                        "record": atoparser.struct_to_dict(record),
                        "sstat": atoparser.struct_to_dict(sstat),
                    }
''', '''                    converted = {}
                    for name, struct in (("header", header), ("record", record), ("sstat", sstat)):
                        converted[name] = atoparser.struct_to_dict(struct)
'''))
ref("converted_comp", (R, '''                    converted = {
                        "header": atoparser.struct_to_dict(header),
                        "record": atoparser.struct_to_dict(record),
                        "sstat": atoparser.struct_to_dict(sstat),
                    }
''', '''                    parts = {"header": header, "record": record, "sstat": sstat}
                    converted = {name: atoparser.struct_to_dict(struct) for name, struct in parts.items()}
'''))
ref("tstat_map", (R, "[atoparser.struct_to_dict(stat) for stat in tstats]", "list(map(atoparser.struct_to_dict, tstats))"))
ref("tstat_loop", (R, '''                        converted["tstat"] = [atoparser.struct_to_dict(stat) for stat in tstats]
''', '''                        converted["tstat"] = []
                        for stat in tstats:
                            converted["tstat"].append(atoparser.struct_to_dict(stat))
'''))
ref("rows_extend", (R, '''                        for sample in parsers[parseable](header, record, sstat, tstats):
                            sample["parseable"] = parseable
                            samples.append(sample)
''', '''                        rows = list(parsers[parseable](header, record, sstat, tstats))
                        for row in rows:
                            row["parseable"] = parseable
                        samples.extend(rows)
'''))
ref("rows_union", (R, '''                        for sample in parsers[parseable](header, record, sstat, tstats):
                            sample["parseable"] = parseable
                            samples.append(sample)
''', '''                        parser = parsers[parseable]
                        for row in parser(header, record, sstat, tstats):
                            samples.append({**row, "parseable": parseable})
'''))
ref("rows_union2", (R, '''                        for sample in parsers[parseable](header, record, sstat, tstats):
                            sample["parseable"] = parseable
                            samples.append(sample)
''', '''                        samples.extend(
                            row | {"parseable": parseable} for row in parsers[parseable](header, record, sstat, tstats)
                        )
'''))
ref("rows_dict_kw", (R, '''                            sample["parseable"] = parseable
                            samples.append(sample)
''', '''                            samples.append(dict(sample, parseable=parseable))
'''))
ref("rows_update", (R, '''                            sample["parseable"] = parseable
''', '''                            sample.update(parseable=parseable)
'''))
ref("functions_first", (R, '''            for record, sstat, tstats, cgroups in atoparser''', '''            selected = [(name, parsers[name]) for name in parseables or ()]
            for record, sstat, tstats, cgroups in atoparser'''), (R, '''                    for parseable in parseables:
                        for sample in parsers[parseable](header, record, sstat, tstats):
''', '''                    for parseable, parser in selected:
                        for sample in parser(header, record, sstat, tstats):
'''))
ref("group_unpack", (R, '''            for record, sstat, tstats, cgroups in atoparser.generate_statistics(
                raw_file,
                header,
                raise_on_truncation=False,
            ):
''', '''            for group in atoparser.generate_statistics(raw_file, header, False):
                record, sstat, tstats, cgroups = group
'''))
ref("group_list", (R, '''            for record, sstat, tstats, cgroups in atoparser.generate_statistics(
                raw_file,
                header,
                raise_on_truncation=False,
            ):
''', '''            groups = list(atoparser.generate_statistics(raw_file, header, raise_on_truncation=False))
            for record, sstat, tstats, cgroups in groups:
'''))
ref("dump_stdout", (R, "    print(json.dumps(samples, indent=2 if pretty_print else None))\n", '''    json.dump(samples, sys.stdout, indent=2 if pretty_print else None)
    sys.stdout.write("\\n")
'''), (R, "import json\n", "import json\nimport sys\n"))
ref("write_stdout", (R, "    print(json.dumps(samples, indent=2 if pretty_print else None))\n", '''    sys.stdout.write(json.dumps(samples, indent=2 if pretty_print else None) + "\\n")
'''), (R, "import json\n", "import json\nimport sys\n"))
ref("indent_if", (R, "    print(json.dumps(samples, indent=2 if pretty_print else None))\n", '''    indent = None
    if pretty_print:
        indent = 2
    document = json.dumps(samples, indent=indent)
    print(document)
'''))
ref("dumps_kwargs", (R, "    print(json.dumps(samples, indent=2 if pretty_print else None))\n", '''    options = {"indent": 2} if pretty_print else {}
    print(json.dumps(samples, **options))
'''))
ref("render_helper", (R, "    print(json.dumps(samples, indent=2 if pretty_print else None))\n", '''    print(_render(samples, pretty_print))


def _render(samples, pretty):
    """JSON text of a document."""
    return json.dumps(samples, indent=2) if pretty else json.dumps(samples)
'''))
MAIN = '''    for file in args.files:
        parse_file(
            file,
            args.parseables,
            args.pretty_print,
            args.show_tstats,
            args.show_cstats,
        )
'''
ref("main_kwargs", (R, MAIN, '''    for file in args.files:
        parse_file(
            file,
            parseables=args.parseables,
            pretty_print=args.pretty_print,
            show_tstats=args.show_tstats,
            show_cstats=args.show_cstats,
        )
'''))
ref("main_options", (R, MAIN, '''    options = (args.parseables, args.pretty_print, args.show_tstats, args.show_cstats)
    for file in args.files:
        parse_file(file, *options)
'''))
ref("main_options_dict", (R, MAIN, '''    options = {
        "parseables": args.parseables,
        "pretty_print": args.pretty_print,
        "show_tstats": args.show_tstats,
        "show_cstats": args.show_cstats,
    }
    for file in args.files:
        parse_file(file, **options)
'''))
ref("main_vars", (R, MAIN, '''    options = vars(args)
    for file in options.pop("files"):
        parse_file(file, **options)
'''))
ref("main_partial", (R, MAIN, '''    process = functools.partial(
        parse_file,
        parseables=args.parseables,
        pretty_print=args.pretty_print,
        show_tstats=args.show_tstats,
        show_cstats=args.show_cstats,
    )
    for file in args.files:
        process(file)
'''), (R, "import gzip\n", "import functools\nimport gzip\n"))
ref("main_index", (R, MAIN, '''    for index in range(len(args.files)):
        parse_file(args.files[index], args.parseables, args.pretty_print, args.show_tstats, args.show_cstats)
'''))
ref("args_return", (R, '''    args = parser.parse_args()
    return args
''', '''    return parser.parse_args()
'''))
ref("args_helper", (R, '''    args = parser.parse_args()
    return args
''', '''    return parser


def parse_args() -> argparse.Namespace:
    """Parse user arguments.

    Returns:
        Namespace with all the user arguments.
    """
    return _make_parser().parse_args()
'''), (R, '''def parse_args() -> argparse.Namespace:
    """Parse user arguments.

    Returns:
        Namespace with all the user arguments.
    """
    parser = arg''', '''def _make_parser() -> argparse.ArgumentParser:
    """Make the parser of the command line."""
    parser = arg'''))
ref("args_flags_loop", (R, '''    parser.add_argument(
        "--tstats",
        dest="show_tstats",
        action="store_true",
        help="Include TStats/PStats in output. Very verbose.",
    )
    parser.add_argument(
        "--cstats",
        dest="show_cstats",
        action="store_true",
        help="Include CGroup/CStats in output. Only available with Atop 2.11+ logs. Verbose.",
    )
''', '''    for option, text in (("tstats", "TStats/PStats"), ("cstats", "CGroup/CStats")):
        parser.add_argument(f"--{option}", dest=f"show_{option}", action="store_true", help=f"Include {text} in output.")
'''))
ref("args_swap", (R, '''    parser.add_argument(
        "--tstats",
        dest="show_tstats",
        action="store_true",
        help="Include TStats/PStats in output. Very verbose.",
    )
    parser.add_argument(
        "--cstats",
        dest="show_cstats",
        action="store_true",
        help="Include CGroup/CStats in output. Only available with Atop 2.11+ logs. Verbose.",
    )
''', '''    parser.add_argument("--cstats", dest="show_cstats", action="store_true", help="Include cgroups.")
    parser.add_argument("--tstats", dest="show_tstats", action="store_true", default=False, help="Include tasks.")
'''))
ref("args_group", (R, '''    parser.add_argument(
        "--tstats",
''', '''    verbose = parser.add_argument_group("verbose output")
    verbose.add_argument(
        "--tstats",
'''))
ref("map_literal", (R, '''PARSEABLE_MAP = {
    "1.26": {parseable: getattr(atop_1_26, f"parse_{parseable}") for parseable in PARSEABLES},
}
''', '''PARSEABLE_MAP = {"1.26": {}}
for _name in PARSEABLES:
    PARSEABLE_MAP["1.26"][_name] = getattr(atop_1_26, "parse_" + _name)
'''))
ref("map_helper", (R, '''PARSEABLE_MAP = {
    "1.26": {parseable: getattr(atop_1_26, f"parse_{parseable}") for parseable in PARSEABLES},
}
''', '''

def _parsers_of(module):
    """All parsers of a version by name."""
    return {name: getattr(module, f"parse_{name}") for name in PARSEABLES}


PARSEABLE_MAP = {"1.26": _parsers_of(atop_1_26)}
'''))
ref("map_explicit", (R, '''PARSEABLE_MAP = {
    "1.26": {parseable: getattr(atop_1_26, f"parse_{parseable}") for parseable in PARSEABLES},
}
''', '''PARSEABLE_MAP = {
    "1.26": dict(zip(PARSEABLES, (getattr(atop_1_26, f"parse_{name}") for name in PARSEABLES))),
}
'''))
ref("names_from_map", (R, re.compile(r"PARSEABLES = \[.*?\n\]\n", re.S), '''PARSEABLES = "cpu CPL CPU DSK LVM MDD MEM NETL NETU PAG PRC PRD PRG PRM PRN SWP".split()
'''))
# parsers
ref("p_common", *[(P, re.compile(r'            "timestamp": record.curtime,\n            "interval": record.interval,\n'), '            **_common(record),\n')],
    (P, re.compile(r'        "timestamp": record.curtime,\n        "interval": record.interval,\n'), '        **_common(record),\n'),
    (P, "def parse_cpu(", '''def _common(record):
    """Columns of every row."""
    return {"timestamp": record.curtime, "interval": record.interval}


def parse_cpu('''))
ref("p_drive_helper", (P, '''    for disk in sstat.dsk.dsk:
        if not disk.name:
            # Disk list contains 256 entries, but only up the first empty name are valid.
            break
        values = {
            "timestamp": record.curtime,
            "interval": record.interval,
            "name": disk.name.decode(errors="ignore"),
            "io_ms": disk.io_ms,
            "reads": disk.nread,
            "read_sectors": disk.nrsect,
            "writes": disk.nwrite,
            "write_sectors": disk.nwsect,
        }
        yield values
''', '''    yield from _drives(record, sstat.dsk.dsk)
'''), (P, '''    for lvm in sstat.dsk.lvm:
        if not lvm.name:
            # LVM list contains 256 entries, but only up the first empty name are valid.
            break
        values = {
            "timestamp": record.curtime,
            "interval": record.interval,
            "name": lvm.name.decode(errors="ignore"),
            "io_ms": lvm.io_ms,
            "reads": lvm.nread,
            "read_sectors": lvm.nrsect,
            "writes": lvm.nwrite,
            "write_sectors": lvm.nwsect,
        }
        yield values
''', '''    return _drives(record, sstat.dsk.lvm)
'''), (P, "def parse_cpu(", '''def _drives(record, drives):
    """Rows for all named drives."""
    for drive in drives:
        if not drive.name:
            return
        yield {
            "timestamp": record.curtime,
            "interval": record.interval,
            "name": drive.name.decode(errors="ignore"),
            "io_ms": drive.io_ms,
            "reads": drive.nread,
            "read_sectors": drive.nrsect,
            "writes": drive.nwrite,
            "write_sectors": drive.nwsect,
        }


def parse_cpu('''))
ref("p_text_helper", (P, re.compile(r'(\w+(?:\.\w+)*)\.decode\(errors="ignore"\)'), r'_text(\1)'), (P, "def parse_cpu(", '''def _text(raw):
    """Text of a field."""
    return raw.decode(errors="ignore")


def parse_cpu('''))
ref("p_text_str", (P, re.compile(r'(\w+(?:\.\w+)*)\.decode\(errors="ignore"\)'), r'str(\1, "utf-8", "ignore")'))
ref("p_cpu_slice", (P, '''    for index, cpu in enumerate(sstat.cpu.cpu):
        if index >= sstat.cpu.nrcpu:
            # Core list contains 100 entries, but only up the count specified in the cpu stat are valid.
            break
''', '''    for index, cpu in enumerate(sstat.cpu.cpu[: max(sstat.cpu.nrcpu, 0)]):
'''))
ref("p_cpu_range", (P, '''    for index, cpu in enumerate(sstat.cpu.cpu):
        if index >= sstat.cpu.nrcpu:
            # Core list contains 100 entries, but only up the count specified in the cpu stat are valid.
            break
''', '''    cores = sstat.cpu.cpu
    for index in range(min(sstat.cpu.nrcpu, len(cores))):
        cpu = cores[index]
'''))
ref("p_cpu_zip", (P, '''    for index, cpu in enumerate(sstat.cpu.cpu):
        if index >= sstat.cpu.nrcpu:
            # Core list contains 100 entries, but only up the count specified in the cpu stat are valid.
            break
''', '''    for index, cpu in zip(range(sstat.cpu.nrcpu), sstat.cpu.cpu):
'''))
ref("p_cpu_eq", (P, '''        if index >= sstat.cpu.nrcpu:
            # Core list contains 100 entries, but only up the count specified in the cpu stat are valid.
            break
''', '''        if not index < sstat.cpu.nrcpu:
            return
'''))
ref("p_cpu_var", (P, '''    for index, cpu in enumerate(sstat.cpu.cpu):
        if index >= sstat.cpu.nrcpu:
''', '''    core_count = sstat.cpu.nrcpu
    for index, cpu in enumerate(sstat.cpu.cpu):
        if index >= core_count:
'''))
ref("p_net_takewhile", (P, '''    for interface in sstat.intf.intf:
        if not interface.name:
            # Interface list contains 32 entries, but only up the first empty name are valid.
            break
''', '''    for interface in itertools.takewhile(lambda entry: entry.name, sstat.intf.intf):
'''), (P, "from atoparser import utils\n", "import itertools\n\nfrom atoparser import utils\n"))
ref("p_net_eq_empty", (P, "        if not interface.name:\n", '        if interface.name == b"":\n'))
ref("p_net_len", (P, "        if not interface.name:\n", "        if len(interface.name) == 0:\n"))
ref("p_net_name_var", (P, '''        if not interface.name:
            # Interface list contains 32 entries, but only up the first empty name are valid.
            break
''', '''        name = interface.name
        if not name:
            break
'''), (P, 'interface.name.decode(errors="ignore")', 'name.decode(errors="ignore")'))
ref("p_net_else", (P, '''        if not interface.name:
            # Interface list contains 32 entries, but only up the first empty name are valid.
            break
        values = {
            "timestamp": record.curtime,
            "interval": record.interval,
            "name": interface.name.decode(errors="ignore"),
            "pkt_received": interface.rpack,
            "byte_received": interface.rbyte,
            "pkt_transmitted": interface.spack,
            "bytes_transmitted": interface.sbyte,
            "speed": interface.speed,
            "duplex": int.from_bytes(interface.duplex, byteorder="big"),
        }
        yield values
''', '''        if interface.name:
            yield {
                "timestamp": record.curtime,
                "interval": record.interval,
                "name": interface.name.decode(errors="ignore"),
                "pkt_received": interface.rpack,
                "byte_received": interface.rbyte,
                "pkt_transmitted": interface.spack,
                "bytes_transmitted": interface.sbyte,
                "speed": interface.speed,
                "duplex": ord(interface.duplex),
            }
        else:
            break
'''))
ref("p_duplex_index", (P, 'int.from_bytes(interface.duplex, byteorder="big")', 'interface.duplex[0]'))
ref("p_duplex_little", (P, 'int.from_bytes(interface.duplex, byteorder="big")', 'int.from_bytes(interface.duplex, "little")'))
ref("p_flags_helper", (P, re.compile(r'"y" if header.supportflags & atop_1_26.(\w+) else "n"'), r'_flag(header, atop_1_26.\1)'), (P, "def parse_cpu(", '''def _flag(header, bit):
    """y or n."""
    if header.supportflags & bit:
        return "y"
    return "n"


def parse_cpu('''))
ref("p_flags_index", (P, re.compile(r'"y" if header.supportflags & atop_1_26.(\w+) else "n"'), r'"ny"[bool(header.supportflags & atop_1_26.\1)]'))
ref("p_flags_eq", (P, re.compile(r'"y" if header.supportflags & atop_1_26.(\w+) else "n"'), r'"n" if header.supportflags & atop_1_26.\1 == 0 else "y"'))
ref("p_flags_hoist", (P, '''    for stat in tstats:
        values = {
            "timestamp": record.curtime,
            "interval": record.interval,
            "pid": stat.gen.pid,
            "name": stat.gen.name.decode(errors="ignore"),
            "state": stat.gen.state.decode(errors="ignore"),
            "kernel_patch": "y" if header.supportflags & atop_1_26.PATCHSTAT else "n",
            "standard_io"''', '''    patched = "y" if header.supportflags & atop_1_26.PATCHSTAT else "n"
    for stat in tstats:
        values = {
            "timestamp": record.curtime,
            "interval": record.interval,
            "pid": stat.gen.pid,
            "name": stat.gen.name.decode(errors="ignore"),
            "state": stat.gen.state.decode(errors="ignore"),
            "kernel_patch": patched,
            "standard_io"'''))
ref("p_kib", (P, re.compile(r" \* 1024"), " << 10"))
ref("p_kib2", (P, re.compile(r"stat\.mem\.(\w+) \* 1024"), r"_KIB * stat.mem.\1"), (P, "def parse_cpu(", '''_KIB = 2**10


def parse_cpu('''))
ref("p_mem_loop", (P, '''            "vsize": stat.mem.vmem * 1024,
            "rsize": stat.mem.rmem * 1024,
            "ssize": stat.mem.shtext * 1024,
            "vgrowth": stat.mem.vgrow * 1024,
            "rgrowth": stat.mem.rgrow * 1024,
''', '''            **{column: getattr(stat.mem, field) * 1024 for column, field in _PRM_SIZES.items()},
'''), (P, "def parse_PRM(", '''_PRM_SIZES = {"vsize": "vmem", "rsize": "rmem", "ssize": "shtext", "vgrowth": "vgrow", "rgrowth": "rgrow"}


def parse_PRM('''))
ref("p_table", (P, '''    values = {
        "timestamp": record.curtime,
        "interval": record.interval,
        "page_size": header.pagesize,
        "swap": sstat.mem.totswap,
        "free_swap": sstat.mem.freeswap,
        "committed_space": sstat.mem.committed,
        "committed_limit": sstat.mem.commitlim,
    }
    yield values
''', '''    values = {"timestamp": record.curtime, "interval": record.interval, "page_size": header.pagesize}
    for column, field in _SWP_COLUMNS:
        values[column] = getattr(sstat.mem, field)
    yield values
'''), (P, "def parse_SWP(", '''_SWP_COLUMNS = (
    ("swap", "totswap"),
    ("free_swap", "freeswap"),
    ("committed_space", "committed"),
    ("committed_limit", "commitlim"),
)


def parse_SWP('''))
ref("p_locals", (P, '''    values = {
        "timestamp": record.curtime,
        "interval": record.interval,
        "page_size": header.pagesize,
        "swap": sstat.mem.totswap,
        "free_swap": sstat.mem.freeswap,
        "committed_space": sstat.mem.committed,
        "committed_limit": sstat.mem.commitlim,
    }
    yield values
''', '''    mem = sstat.mem
    values = dict(timestamp=record.curtime, interval=record.interval, page_size=header.pagesize)
    values["swap"] = mem.totswap
    values["free_swap"] = mem.freeswap
    values.update({"committed_space": mem.committed, "committed_limit": mem.commitlim})
    yield values
'''))
ref("p_sum", (P, "sstat.net.udpv4.InDatagrams + sstat.net.udpv6.Udp6InDatagrams", "sum((sstat.net.udpv4.InDatagrams, sstat.net.udpv6.Udp6InDatagrams))"))
ref("p_yield_gen", (P, '''    for stat in tstats:
        values = {
            "timestamp": record.curtime,
            "interval": record.interval,
            "pid": stat.gen.pid,
            "name": stat.gen.name.decode(errors="ignore"),
            "state": stat.gen.state.decode(errors="ignore"),
            "page": header.pagesize,
''', '''    for task in range(len(tstats)):
        stat = tstats[task]
        values = {
            "timestamp": record.curtime,
            "interval": record.interval,
            "pid": stat.gen.pid,
            "name": stat.gen.name.decode(errors="ignore"),
            "state": stat.gen.state.decode(errors="ignore"),
            "page": header.pagesize,
'''))
ref("p_proc_helper", (P, re.compile(r'''            "timestamp": record.curtime,
            "interval": record.interval,
            "pid": stat.gen.pid,
            "name": stat.gen.name.decode\(errors="ignore"\),
            "state": stat.gen.state.decode\(errors="ignore"\),
'''), '''            **_task(record, stat.gen),
'''), (P, "def parse_cpu(", '''def _task(record, gen):
    """Columns of every row about a task."""
    return {
        "timestamp": record.curtime,
        "interval": record.interval,
        "pid": gen.pid,
        "name": gen.name.decode(errors="ignore"),
        "state": gen.state.decode(errors="ignore"),
    }


def parse_cpu('''))
# structs
ref("s_field_const", ("atoparser/structs/atop_2_8.py", '''        ("numa", CPUPerNUMA * MAXNUMA),
    ]
    fields_limiters = {"numa": "nrnuma"}
''', '''        ("numa", MAXNUMA * CPUPerNUMA),
    ]
    fields_limiters = dict(numa="nrnuma")
'''))
ref("s_type_alias", (S, "count_t = ctypes.c_longlong\n", "count_t = ctypes.c_int64\n"))
ref("s_type_alias2", (S, "pid_t = ctypes.c_int\n", "pid_t = ctypes.c_int32\n"))
ref("s_fields_copy", ("atoparser/structs/atop_2_12.py", "    _fields_ = atop_2_11.Header._fields_  # pylint: disable=protected-access\n", "    _fields_ = list(atop_2_11.Header._fields_)\n"))
ref("s_fields_tuple", ("atoparser/structs/atop_2_8.py", '''    _fields_ = [
        ("nrnuma", count_t),
        ("numa", CPUPerNUMA * MAXNUMA),
    ]
''', '''    _fields_ = (
        ("nrnuma", count_t),
        ("numa", CPUPerNUMA * MAXNUMA),
    )
'''))
ref("s_import_name", ("atoparser/structs/atop_2_12.py", "PerLLC = atop_2_8.PerLLC\n", "PerLLC = atop_2_11.PerLLC\n"))
ref("s_mixin_order", ("atoparser/structs/atop_2_12.py", "class Header(ctypes.Structure, HeaderMixin):", "class Header(HeaderMixin, ctypes.Structure):"))
ref("s_mixin_cached_property", (S, "    def major_version(self) -> int:\n        \"\"\"The major version from the semantic version.\"\"\"\n        self.semantic_version  # Call the primary property to ensure population. pylint: disable=pointless-statement\n        return self._major_version\n",
    "    def major_version(self) -> int:\n        \"\"\"The major version from the semantic version.\"\"\"\n        return int(self.semantic_version.partition(\".\")[0])\n"))
ref("s_version_split", (U, '''        header_version = header.semantic_version
        major, minor = header_version.split(".")[:2]
        major, minor = int(major), int(minor)
''', '''        major, minor = header.major_version, header.minor_version
'''))
ref("s_version_hoist", (U, '''        header_version = header.semantic_version
        major, minor = header_version.split(".")[:2]
        major, minor = int(major), int(minor)
''', '''        has_cgroups = tuple(int(part) for part in header.semantic_version.split(".")[:2]) >= (2, 11)
'''), (U, "            if (major, minor) >= (2, 11):\n", "            if has_cgroups:\n"))
# utils
ref("u_record_from_buffer", (U, '''    record = header.Record()
    raw_file.readinto(record)
    return record
''', '''    record = header.Record()
    view = memoryview(record).cast("B")
    raw_file.readinto(view)
    return record
'''))
ref("u_header_magic_helper", (U, '''    if header.magic != MAGIC:
        msg = f"File does not contain raw atop output (wrong magic number): {hex(header.magic)}"
        raise ValueError(msg)
''', '''    _check_magic(header)
'''), (U, "def get_record(", '''def _check_magic(header):
    """Verify the magic number."""
    if header.magic != MAGIC:
        raise ValueError("File does not contain raw atop output (wrong magic number): %x" % header.magic)


def get_record('''))
ref("u_inflate", (U, re.compile(r"zlib\.decompress\(buffer\)"), "_inflate(buffer)"), (U, "def get_record(", '''def _inflate(buffer):
    """Decompress one block."""
    return zlib.decompress(buffer)


def get_record('''))
ref("u_pids_none", (U, '''        pid_array = pid_t * cstat.gen.nprocs
        pid_array_size = ctypes.sizeof(pid_array)
        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start : pidlist_start + pid_array_size])
        pidlist_start += pid_array_size
''', '''        pid_array = pid_t * cstat.gen.nprocs
        pidlist_end = pidlist_start + ctypes.sizeof(pid_array)
        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start:pidlist_end])
        pidlist_start = pidlist_end
'''))
ref("u_pids_offset", (U, '''        pidlist = pid_array.from_buffer_copy(decompressed_pidlist[pidlist_start : pidlist_start + pid_array_size])
''', '''        pidlist = pid_array.from_buffer_copy(decompressed_pidlist, pidlist_start)
'''))
ref("u_cstat_memoryview", (U, '''        cstat = header.CStat.from_buffer_copy(decompressed_cstats[cstat_start : cstat_start + cstatlen])
''', '''        cstat = header.CStat.from_buffer_copy(memoryview(decompressed_cstats)[cstat_start : cstat_start + cstatlen])
'''))
ref("u_tstat_memoryview", (U, '''        tstat = header.TStat.from_buffer_copy(decompressed[index * tstatlen : tstatlen * (index + 1)])
''', '''        tstat = header.TStat.from_buffer_copy(memoryview(decompressed)[index * tstatlen : tstatlen * (index + 1)])
'''))
ref("u_chunks_helper", (U, '''        tstat = header.TStat.from_buffer_copy(decompressed[index * tstatlen : tstatlen * (index + 1)])
''', '''        tstat = header.TStat.from_buffer_copy(_chunk(decompressed, index, tstatlen))
'''), (U, "def get_record(", '''def _chunk(data, index, length):
    """The n-th piece of some data."""
    start = index * length
    return data[start : start + length]


def get_record('''))
ref("u_read_parts", (U, '''            sstat = get_sstat(raw_file, header, record)
            tstats = get_tstat(raw_file, header, record)
            if (major, minor) >= (2, 11):
                cgroups = get_cstat(raw_file, header, record)
            else:
                cgroups = []
            yield record, sstat, tstats, cgroups
''', '''            cgroups = []
            sstat = get_sstat(raw_file, header, record)
            tstats = get_tstat(raw_file, header, record)
            if major > 2 or major == 2 and minor >= 11:
                cgroups = get_cstat(raw_file, header, record)
            group = (record, sstat, tstats, cgroups)
            yield group
'''))
ref("u_suppress", (U, '''    if header is None:
        # If''', '''    if not raise_on_truncation:
        if header is None:
            header = get_header(raw_file)
        with contextlib.suppress(zlib.error):
            yield from generate_statistics(raw_file, header, True, max_samples)
        return
    if header is None:
        # If'''), (U, "import ctypes\n", "import contextlib\nimport ctypes\n"))
ref("u_except_return", (U, '''        if raise_on_truncation:
            raise
''', '''        if not raise_on_truncation:
            return
        raise
'''))
ref("u_count", (U, "        for _ in range(max_samples):\n", "        for _ in itertools.repeat(None, max_samples):\n"), (U, "import io\n", "import io\nimport itertools\n"))
ref("u_islice", (U, '''        for _ in range(max_samples):
''', '''        for count in itertools.count():
            if count >= max_samples:
                break
'''), (U, "import io\n", "import io\nimport itertools\n"))
ref("u_dict_get", (U, '''                limiters = getattr(struct, "fields_limiters", {})
                limiter = limiters.get(field_name)
                if limiter:
''', '''                limiter = getattr(struct, "fields_limiters", {}).get(field_name)
                if limiter is not None:
'''))
ref("u_dict_try", (U, '''                limiters = getattr(struct, "fields_limiters", {})
                limiter = limiters.get(field_name)
                if limiter:
''', '''                try:
                    limiter = struct.fields_limiters.get(field_name)
                except AttributeError:
                    limiter = None
                if limiter:
'''))
ref("u_dict_prefetch", (U, '''    struct_dict = {}
    for field in struct._fields_:''', '''    struct_dict = {}
    limiters = getattr(type(struct), "fields_limiters", {})
    for field in struct._fields_:'''), (U, '''                limiters = getattr(struct, "fields_limiters", {})
''', ''))
ref("u_dict_listcomp", (U, '''                struct_dict[field_name] = []
''', ''), (U, '''                for sub_data in field_data:
                    if isinstance(sub_data, ctypes.Structure):
                        struct_dict[field_name].append(struct_to_dict(sub_data))
                    else:
                        struct_dict[field_name].append(sub_data)
''', '''                struct_dict[field_name] = [
                    struct_to_dict(sub_data) if isinstance(sub_data, ctypes.Structure) else sub_data
                    for sub_data in field_data
                ]
'''))
ref("u_dict_values_var", (U, '''                struct_dict[field_name] = []
''', '''                values = []
'''), (U, '''                        struct_dict[field_name].append(struct_to_dict(sub_data))
                    else:
                        struct_dict[field_name].append(sub_data)
''', '''                        values.append(struct_to_dict(sub_data))
                    else:
                        values.append(sub_data)
                struct_dict[field_name] = values
'''))
ref("u_decode_args", (U, 'field_data.decode(errors="ignore")', 'field_data.decode("utf-8", "ignore")'))
ref("u_decode_str", (U, 'field_data.decode(errors="ignore")', 'str(field_data, encoding="utf-8", errors="ignore")'))
ref("u_dict_skip_helper", (U, '''        elif "future" not in field_name:
''', '''        elif not _placeholder(field_name):
'''), (U, "def get_record(", '''def _placeholder(name):
    """Whether a field only reserves space."""
    return "future" in name


def get_record('''))

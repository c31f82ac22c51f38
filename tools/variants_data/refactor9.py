"""A ninth set of refactorings: things computed once and kept, in one call and between calls."""
import re

from variants_data.refactor3 import A, P, R, S, U, fn, imp

VARIANTS = []
DEC = "                struct_dict[field_name] = field_data.decode(errors=\"ignore\")\n"
PIDS = "        pid_array = pid_t * cstat.gen.nprocs\n"
MAGICDEF = "MAGIC = 0xFEEDBEEF\n"
START = "    struct_dict = {}\n"
CGSTART = "    cgroups = []\n    cstat_start = 0\n"


def ref(name, *edits):
    VARIANTS.append({"name": "s_" + name, "prop": None, "edits": list(edits)})


ref("text_memo_local", (U, START, START + "    texts = {}\n"), (U, DEC, "                if field_data not in texts:\n                    texts[field_data] = field_data.decode(errors=\"ignore\")\n                struct_dict[field_name] = texts[field_data]\n"))
ref("text_memo_module", (U, MAGICDEF, MAGICDEF + "\n_TEXTS = {}\n"), (U, DEC, "                text = _TEXTS.get(field_data)\n                if text is None:\n                    text = _TEXTS[field_data] = field_data.decode(errors=\"ignore\")\n                struct_dict[field_name] = text\n"))
ref("pids_memo_local", (U, CGSTART, "    pid_arrays = {}\n" + CGSTART), (U, PIDS, "        nprocs = cstat.gen.nprocs\n        if nprocs not in pid_arrays:\n            pid_arrays[nprocs] = pid_t * nprocs\n        pid_array = pid_arrays[nprocs]\n"))
ref("pids_memo_try", (U, CGSTART, "    pid_arrays = {}\n" + CGSTART), (U, PIDS, "        try:\n            pid_array = pid_arrays[cstat.gen.nprocs]\n        except KeyError:\n            pid_array = pid_arrays[cstat.gen.nprocs] = pid_t * cstat.gen.nprocs\n"))
ref("pids_memo_setdefault", (U, CGSTART, "    pid_arrays = {}\n" + CGSTART), (U, PIDS, "        pid_array = pid_arrays.setdefault(cstat.gen.nprocs, pid_t * cstat.gen.nprocs)\n"))
ref("p_name_memo", (P, re.compile(r"    for disk in sstat\.dsk\.dsk:\n"), "    names = {}\n    for disk in sstat.dsk.dsk:\n"), (P, "            \"name\": disk.name.decode(errors=\"ignore\"),\n            \"io_ms\": disk.io_ms,\n", "            \"name\": names.setdefault(disk.name, disk.name.decode(errors=\"ignore\")),\n            \"io_ms\": disk.io_ms,\n"))
ref("limits_memo", (U, MAGICDEF, MAGICDEF + "\n_LIMITERS = {}\n"), (U, "                limiters = getattr(struct, \"fields_limiters\", {})\n", "                if type(struct) not in _LIMITERS:\n                    _LIMITERS[type(struct)] = getattr(struct, \"fields_limiters\", {})\n                limiters = _LIMITERS[type(struct)]\n"))
ref("sizes_memo", (U, MAGICDEF, MAGICDEF + "\n_SIZES = {}\n\n\ndef _size_of(struct_type):\n    if struct_type not in _SIZES:\n        _SIZES[struct_type] = ctypes.sizeof(struct_type)\n    return _SIZES[struct_type]\n"), (U, "        pid_array_size = ctypes.sizeof(pid_array)\n", "        pid_array_size = _size_of(pid_array)\n"))
ref("version_memo", (U, MAGICDEF, MAGICDEF + "\n_PAIRS = {}\n"), (U, "        major, minor = header_version.split(\".\")[:2]\n        major, minor = int(major), int(minor)\n", "        if header_version not in _PAIRS:\n            major, minor = header_version.split(\".\")[:2]\n            _PAIRS[header_version] = int(major), int(minor)\n        major, minor = _PAIRS[header_version]\n"))
ref("parsers_memo", (R, "            parsers = PARSEABLE_MAP.get(header.semantic_version, PARSEABLE_MAP[\"1.26\"])\n", "            chosen = {}\n            parsers = PARSEABLE_MAP.get(header.semantic_version, PARSEABLE_MAP[\"1.26\"])\n"), (R, "                        for sample in parsers[parseable](header, record, sstat, tstats):\n", "                        if parseable not in chosen:\n                            chosen[parseable] = parsers[parseable]\n                        for sample in chosen[parseable](header, record, sstat, tstats):\n"))
ref("header_dict_once", (R, "            parsers = PARSEABLE_MAP.get(header.semantic_version, PARSEABLE_MAP[\"1.26\"])\n", "            header_dict = None\n            parsers = PARSEABLE_MAP.get(header.semantic_version, PARSEABLE_MAP[\"1.26\"])\n"), (R, "                    converted = {\n                        \"header\": atoparser.struct_to_dict(header),\n", "                    if header_dict is None:\n                        header_dict = atoparser.struct_to_dict(header)\n                    converted = {\n                        \"header\": header_dict,\n"))

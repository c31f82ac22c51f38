#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
U = "atoparser/utils.py"; SH = "atoparser/structs/shared.py"; R = "atoparser/reader.py"; PA = "atoparser/parsers/atop_1_26.py"
VERS = ["1_26", "2_3", "2_4", "2_5", "2_6", "2_7", "2_8", "2_9", "2_10", "2_11", "2_12"]
ST = [f"atoparser/structs/atop_{v}.py" for v in VERS]
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Every named field is decoded from its place in the log format",
 "For every supported Atop version, each named field of the header, record, system, task and cgroup data is decoded from exactly the byte position, with exactly the width, signedness, kind and element count, that the version's log format assigns to that name. No named field is missing, renamed, swapped with a neighbour, reinterpreted or shifted, whatever values the file holds.",
 ["inputs", "configurations"], "every supported version, every field of every structure, every byte content of the file",
 "The sample-file tests compare a handful of fields per version; most of the ~700 distinct fields are zero in the samples, so a swap, a signedness change or a shift inside reserved space of any of them goes unseen as long as the total sizes stay the same.",
 [SH] + ST, [("_fields_ of every struct class and the aliases between versions", "atoparser/structs/*.py"), ("shared C type definitions", SH)],
 observe=["attribute access on returned structures", "struct_to_dict output"])
prop("C02", "The version in the header selects that version's structures",
 "A log whose header states a supported major.minor version is decoded with that version's own header, record, system, task and cgroup structures, for every maintenance release and regardless of the flag bits stored with the version number. A log of a version that is not listed is judged and decoded with the newest supported layout.",
 ["inputs", "configurations"], "every value of the version word in the header, supported or not",
 "Tests read one or two sample files per supported version; none uses an unlisted version, other flag bits, or checks which structure classes were chosen.",
 [U, SH] + ST, [("version table and fallback", U + " _VERSIONS, _HEADER_BY_VERSION, _DEFAULT_VERSION, get_header"), ("version decoding", SH + " HeaderMixin.semantic_version"), ("per-version header classes", "atoparser/structs/*.py Header")])
prop("C03", "A header is accepted only if complete, genuine and compatible",
 "Reading a header succeeds exactly when all of its bytes are present, the magic number is Atop's, and every structure length it declares (header, record, system, task, and cgroup from version 2.11 on) equals the length of the structure that will be used to decode it; turning the compatibility check off waives only the length comparison. Every other input is rejected with ValueError and no other kind of error.",
 ["inputs"], "every byte string offered as a log file, including every truncation and every version word, with the compatibility check on or off",
 "Tests try one wrong magic number and one truncation point; no test has a length field that differs, a truncation after the length fields, or an unlisted version.",
 [U, SH], [("magic and completeness checks", U + " get_header"), ("length comparison", SH + " HeaderMixin.check_compatibility")])
prop("C04", "Reading a log consumes exactly the declared bytes, in order",
 "Iterating over a log reads, for every sample, exactly one record and then exactly the number of compressed bytes that record declares for system data, for task data and, only from version 2.11 on, for cgroup data and its process id list, in that order, and decodes each part from its own bytes. Nothing is skipped, re-read, sought or read ahead, so every record starts right after the previous sample whatever the data contains; if no header is supplied exactly one header is read first.",
 ["inputs", "configurations"], "every log content and version; every combination of declared lengths and counts",
 "Sample files have 5 samples with similar, non-zero lengths and counts; reads made conditional on particular lengths, counts or flags never show up in them.",
 [U], [("record loop", U + " generate_statistics"), ("block readers", U + " get_record, get_sstat, get_tstat, get_cstat")],
 state=[("file position", "must sit on a record boundary between samples", U)])
prop("C05", "Samples are yielded one per record, in order, until the end or the limit",
 "Iteration yields exactly one group per record, in file order, as soon as its own bytes have been read and before any byte of the next sample is read, each group made only of the structures decoded for that record; versions before 2.11 get an empty cgroup list. It stops at the first record without system data and never yields more than the requested maximum number of samples (86400, one per second of a day, when none is requested), with no other reason to skip, merge, repeat or end.",
 ["inputs", "histories"], "every sequence of records in a log, every version, every maximum",
 "Tests look at the last of five samples of well-formed files; no test uses a maximum, an interleaved consumer or unusual records.",
 [U], [("bounded loop, break on empty record, one yield per iteration", U + " generate_statistics")])
prop("C06", "Truncated or corrupt data surfaces exactly as requested",
 "When compressed data is cut short or corrupt, iteration raises the compression error if asked to raise on truncation (the default), and otherwise ends quietly after the complete samples that came before; in neither case is a partial sample yielded. No other error is ever swallowed: data that decompresses to fewer bytes than its structures need is always reported as ValueError, and header errors are always raised.",
 ["fault_sequences", "inputs"], "every truncation point and every corrupted block of every log, with either setting",
 "No existing test reads a truncated or corrupt log through the iteration, with either setting.",
 [U], [("try/except around the record loop", U + " generate_statistics"), ("whole-block decompression, copying struct constructors", U + " get_sstat, get_tstat, get_cstat")])
prop("C07", "The task list holds every task the record declares, in order",
 "For every sample the task list contains exactly as many tasks as the record declares for its version, in file order, the n-th decoded from the n-th consecutive slot of the decompressed task data using the task length of the header. If the data holds fewer tasks than declared, an error is raised instead of returning a shorter list.",
 ["inputs", "configurations"], "every version, every declared task count including zero, every task length accepted for the header",
 "Samples contain a few tasks each and tests look at the last task only, in particular its name and command line.",
 [U], [("count, stride and offset arithmetic", U + " get_tstat")])
prop("C08", "Every cgroup is paired with its own statistics and process ids",
 "For logs from version 2.11 on, the cgroup list contains exactly as many entries as the record declares, in file order; each entry's statistics start where the previous entry's own declared length ended, and its process id list holds exactly the number of ids its statistics declare (when the declared lengths are not negative), taken right after the ids of the previous entry. Missing bytes raise an error instead of yielding shorter or shifted entries.",
 ["inputs"], "every cgroup count, every mixture of name lengths and process counts, including groups without processes",
 "Tests check only the last cgroup of a small container sample; drift between statistics and id lists in other shapes of tree is not exercised.",
 [U, "atoparser/structs/atop_2_11.py"], [("running offsets for statistics and id lists", U + " get_cstat"), ("pairing object", "atoparser/structs/atop_2_11.py CGChainer")])
prop("C09", "Dictionary conversion keeps every field and only drops placeholders",
 "Converting any header, record, system, task or cgroup structure of any version to a dictionary produces exactly one entry per named field, under the field's own name and in field order, holding the field's own value, with nested structures converted recursively and arrays to lists element by element. Only placeholder fields (named as 'future') that are not structures are left out; a value that is zero, empty or negative is never a reason to drop or change an entry, and the structure itself is not modified.",
 ["inputs", "configurations"], "every structure class of every supported version, every field value",
 "Tests compare a few converted fields of sample files whose values are mostly zero or short ASCII text.",
 [U], [("recursive field walk", U + " struct_to_dict")])
prop("C10", "Lists show the populated entries and nothing else",
 "In dictionary output, every per-resource list (cores, NUMA nodes, disks, volumes, interfaces, mounts, containers, GPUs, ports, caches) of every version contains exactly the first n entries, n being the count the same structure records for that very list, and cgroup process lists contain every id. No version lists unused slots, drops populated ones or limits one list by another list's count.",
 ["inputs", "configurations"], "every array of structures in every supported version, every recorded count from zero to the capacity",
 "Tests only look at the first element of two of the lists; the lists of a container sample are empty or have one entry.",
 [U] + ST, [("fields_limiters tables", "atoparser/structs/*.py"), ("limited slice", U + " struct_to_dict")])
prop("C11", "No byte sequence in a text field can abort conversion",
 "Whatever bytes a name, command line, state or other text field holds, including text cut in the middle of a multi-byte character, conversion to a dictionary and every parseable output succeed, rendering the field as its UTF-8 text without the undecodable bytes.",
 ["inputs"], "every byte content of every text field, every version and parseable",
 "All sample files hold plain ASCII text.",
 [U, PA], [("decoding of bytes fields", U + " struct_to_dict; " + PA + " parse_*")])
prop("C12", "Every parseable column reports the statistic it is named after",
 "For every parseable format, each output column holds exactly the value of the log statistic it documents (own time stamp and interval from the record, clock rate, page size and support flags from the header, all others from the matching system or task field), in the documented unit: process memory sizes in bytes, upper-layer network counters summed over IPv4 and IPv6, flags as y or n. No column is missing, swapped or computed from another statistic, for any values in the log.",
 ["inputs"], "every parseable format and every value of the underlying statistics",
 "The parseable test compares one idle sample in which most columns are zero or equal to each other, so swapped or wrong sources are invisible; scaling and sums are mostly 0.",
 [PA], [("values dictionaries", PA + " parse_*")])
prop("C13", "Parseable formats emit one row per active item, in order",
 "Per-core output has one row for each core the sample counts, numbered from zero in order; per-disk, per-volume, per-device and per-interface output has one row for each entry up to the first unnamed one; per-process output has one row for every task of the sample; and the remaining formats have exactly one row per sample. No row is skipped, repeated or filtered by its values.",
 ["inputs"], "every number of cores, disks, volumes, devices, interfaces and tasks, every value",
 "The test compares only the last row of each format for one sample.",
 [PA], [("loops and stop conditions", PA + " parse_*")])
prop("C14", "Command line options control exactly the output they describe",
 "For every combination of options, each named file is processed in the order given with the same options: task data appears only and always with the task option, cgroup data only and always with the cgroup option, indentation only with the pretty option, and parseable rows instead of full structures exactly when parseables are requested, in the order requested, each labelled with its own name. Without parseables every sample of the file appears, with its header, record and system data.",
 ["inputs", "configurations"], "every combination of command line options and files",
 "Tests call the file-level function with default flags on single files; argument parsing, the main entry point, the task and cgroup options and several files are never run.",
 [R], [("argument definitions and their hand-over", R + " parse_args, main"), ("output assembly", R + " parse_file")])
prop("C15", "Every offered parseable is backed by its own parser, or refused cleanly",
 "The parseable names accepted on the command line are exactly the formats the library implements, and each one runs the implementation of that very format. Asking for parseables from a log of a version without implementations yields one error entry that names the version and the file, for any list of parseables, and no statistics are read or misinterpreted with another version's parsers.",
 ["configurations", "inputs"], "every parseable name, every log version",
 "Tests check that a function exists for each offered name and try a single unsupported version.",
 [R, PA], [("name list and version table", R + " PARSEABLES, PARSEABLE_MAP"), ("unsupported-version branch", R + " parse_file")])
prop("C16", "Returned samples are independent snapshots",
 "Every structure and list handed out belongs to that sample alone: reading further samples, re-using the file buffer, or modifying one returned object never changes another one. In particular samples collected in a list keep the values they had when they were yielded.",
 ["histories"], "every order of consuming, keeping and modifying samples",
 "Tests keep only converted copies and look at the last sample.",
 [U], [("fresh record per read, copying constructors, fresh lists", U + " get_record, get_sstat, get_tstat, get_cstat, generate_statistics")])
prop("C17", "Results depend only on the file being read",
 "Reading, converting or printing one log never changes what is produced for another log or for a second pass over the same data: there is no state shared between calls, so files may be read in any order, repeatedly or interleaved, with identical results.",
 ["histories", "schedules"], "every sequence or interleaving of API calls on any number of files",
 "Each test reads one file and never compares results across call histories.",
 [U, R, SH, PA], [("absence of writes to module, class, default-argument or closure state", "all functions of the package")])
prop("C18", "The library is self-contained and only ever reads",
 "Importing or using the library needs nothing beyond the Python standard library, starts no process, opens no network connection, executes no code taken from data, and opens files only for reading; it never creates, modifies or deletes anything on disk and writes only the requested output to standard output.",
 ["configurations", "inputs"], "every module of the package and every code path, whichever input is read",
 "Tests run in a fully equipped development environment and do not observe the effects of code paths.",
 ["atoparser/__init__.py", U, R, SH, PA] + ST, [("import lists and effectful calls", "all modules of the package")])
prop("C19", "Each input file is opened once, always closed, and printed as one document",
 "Processing a file opens it exactly once, as gzip when its name has the .gz suffix and as is when '.gz' is not in its name, closes it on every path including errors, and prints exactly one JSON array holding all results for that file. Nothing is printed for a file whose processing failed.",
 ["fault_sequences", "inputs"], "every file name and content, every error while reading",
 "Tests process three valid files and only see the tail of the output.",
 [R], [("with statement, opener selection, single print", R + " parse_file")])
prop("C20", "A version's published structure types are the ones its samples contain",
 "For every supported version, the structure types published in that version's module under a structure's name are the very types found inside the records, system, task and cgroup data decoded for that version, and the version's header refers to that module's own top-level structures. User code that checks or constructs structures through the version module therefore always agrees with decoded data.",
 ["configurations"], "every structure name of every supported version",
 "Tests never compare the classes of decoded data with the classes published by the version modules.",
 ST, [("aliases between version modules, Header class attributes", "atoparser/structs/*.py")])
prop("C21", "All output is made of JSON types only",
 "Converted structures and parseable rows of every version consist of dictionaries with text keys, lists, text, integers and floating point numbers only, so that serialising them to JSON can never fail on a type, whatever the log contains.",
 ["inputs", "configurations"], "every structure class, parseable format and value",
 "Tests serialise a few sample files; a type leak in a field or branch they do not reach stays unseen.",
 [U, PA, R] + ST, [("value branches of the conversion", U + " struct_to_dict"), ("column expressions", PA + " parse_*")])
# not claimed
prop("C90", "Decoded values equal what the matching Atop release itself reports",
 "For every log, the numbers produced equal those the Atop release that wrote the log prints for the same sample.",
 ["inputs", "programs"], "every log and every Atop release", "No test compares with Atop itself.", ST + [PA], [("struct definitions", "atoparser/structs/*.py")])
prop("C91", "Memory and time stay proportional to the log",
 "Reading a log never needs memory or time out of proportion to the size of the file, even for adversarial compressed data.",
 ["inputs"], "every log", "No test measures memory or time.", [U], [("whole-block decompression", U)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")

"""Write MANIFEST.json from the list of claimed properties."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VF = "abstract interpretation (value-flow terms) of the source"
TECH = {
    "C01": "abstract evaluation of the ctypes class bodies; computed layouts compared with a frozen wire table",
    "C02": VF + ", specialised to each version word",
    "C03": VF + ": path condition of every return and raise of get_header against the required condition",
    "C04": VF + ": position and size of every read, provenance of every decoded structure",
    "C05": VF + ": loop normal form, guards and order of yields and reads",
    "C06": "exception flow analysis: may-raise points, handlers, what completes afterwards",
    "C07": VF + ": loop summary of the task list",
    "C08": VF + ": loop summary and offset recurrences of the cgroup list",
    "C09": VF + ": struct_to_dict specialised to every structure class",
    "C10": VF + ": list bounds of struct_to_dict specialised to every structure class",
    "C11": "exception flow analysis of all text conversions",
    "C12": VF + ": provenance of every parseable column",
    "C13": VF + ": loop summary of every parseable format",
    "C14": VF + ": flow from command line options to output",
    "C15": VF + ": evaluation of the option and dispatch tables",
    "C16": "escape and aliasing analysis of yielded objects",
    "C17": "effect analysis: writes to objects that outlive a call, memoised results, sources of chance",
    "C18": "effect analysis: imports, effectful references and events over all modules",
    "C19": "typestate of opened files and of the printed document over all paths of parse_file",
    "C20": "abstract evaluation of the version modules; identity of published and decoded types",
    "C21": VF + ": types of all values in converted output",
}
LEVEL_NOTE = ("Static: decides the property for every input over the current sources, by abstract interpretation with no sampling and no execution; trusts the models "
              "of Python and of the standard library in sa/, the LP64 little endian layout rules and the frozen tables in spec/. Obligations on code it cannot follow are "
              "listed as undecided and raise no alarm (none on the current tree).")
EXTRA = {
    "C01": " The wire table was derived from the structures at the pinned commit and cross-checked against the struct lengths recorded in the sample logs' headers.",
    "C12": " The column table was derived from the documented parseable formats of Atop and cross-checked with the reference output in the repository.",
    "C18": " References reached only through computed attribute names are not seen.",
    "C17": " Code that computes a module level value on first use is listed as undecided unless the value depends on what was read.",
}
NA = {
    "C90": "Needs Atop itself (or its C sources) as the oracle for the numbers it reports; neither is present here, so no argument from this repository's source can relate them.",
    "C91": "Quantifies over run-time memory and time as a function of the decompressed sizes a file declares; no static argument in reach bounds those.",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8") as f:
        props = [json.loads(x) for x in f]
    ids = [p["id"] for p in props]
    doc = {
        "version": 1,
        "setup_cmd": "python3 -c \"import ast, sys; sys.exit(sys.version_info < (3, 10))\"",
        "checks": [{"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}", "technique": TECH[i], "level": "other",
                    "level_note": LEVEL_NOTE + EXTRA.get(i, "")} for i in ids if i not in NA],
        "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
        "notes": "All checks read /repo/atoparser only (VERIF_REPO overrides the location); nothing of it is imported or run. No hooks.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

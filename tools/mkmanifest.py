#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered property checks."""
import json, pathlib, sys
root = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(root / "fk"))
sys.dont_write_bytecode = True
import props
NA = {
 "P31": "Exact float/text conversion is done by CPython's float() and repr(); fastkml contains no code that decides it, so there is nothing in its source a static argument could bound.",
 "P32": "Escaping and well-formedness are decided inside lxml / ElementTree (third-party C code and stdlib), not in fastkml's source; a static check here could only restate that text is handed over unmodified, which P01 already does.",
 "P33": "Time and memory bounds quantify over run-time sizes (and over the cost of third-party parsers); no sound static bound is in reach for this dynamic Python code.",
 "P34": "fastkml documents no thread safety: the registry, the namespace table and the selected XML implementation are plain module globals without locks, and whether interleavings are safe depends on the interpreter's (GIL) atomicity, which a source-level analysis cannot decide.",
}
TECH = "path-sensitive abstract interpretation of the source over a provenance domain (custom static analyser, no execution, no solver)"
NOTE = json.load(open(root / "tools" / "notes.json"))
m = {
 "version": 1,
 "setup_cmd": "python3 -B fk/check.py --selftest",
 "checks": [],
 "not_applicable": [],
 "notes": "fk/engine.py interprets the syntax trees of /repo/fastkml abstractly; fk/models.py and fk/stubs model the libraries it calls; fk/spec.py is the hand-written schema oracle; fk/props_*.py hold the obligations per property. /repo is never imported or executed. FK_REPO selects another tree (development only).",
}
for line in open(root / "properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if i in props.PROPS:
        m["checks"].append({
            "property": i, "quick_cmd": f"python3 -B fk/check.py {i}", "thorough_cmd": f"python3 -B fk/check.py {i} --thorough",
            "technique": TECH, "level": "other",
            "level_note": NOTE.get(i, "") + " Sound up to the trusted models of lxml/ElementTree, pygeoif, arrow, datetime and Python builtins; undecided paths are counted in the evidence and stay quiet.",
            "evidence_file": f"evidence/{i}.json"})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "Check not built yet.")})
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "checks")

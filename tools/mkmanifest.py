#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
READWRITE = "abstract interpretation of the generator and of the code it emits, with trace partitioning, against a reference semantics"
T = {
 "C01": READWRITE + " (writer events)",
 "C02": READWRITE + " (expanded names)",
 "C03": READWRITE + " (declared types, reader, writer)",
 "C04": "abstract interpretation of xsd::decode over all lookup histories on documents with symbolic names, against a list of remaining children",
 "C05": READWRITE + " (reader, displaced elements)",
 "C06": READWRITE + " (reader, group entry)",
 "C07": READWRITE + " (attributes)",
 "C08": READWRITE + " (fixed values)",
 "C09": READWRITE + " (enumerations)",
 "C10": READWRITE + " (built-in types, symbolic type names)",
 "C11": "abstract interpretation of schema processing with trace partitioning over schemas with unknown constructs: no accepting path",
 "C18": "abstract interpretation of schema processing with trace partitioning over erroneous schemas: provenance of file, row and column",
 "C14": READWRITE + " (reader errors, panics)",
 "C17": READWRITE + " (identifiers)",
 "C12": "abstract interpretation of schema processing and generation of single definitions: closure of references in the emitted code",
 "C13": READWRITE + " (schemas of several files)",
 "C15": "abstract interpretation of schema processing with trace partitioning over erroneous and odd schemas: no panicking or endless path, no accepting path for unreadable ones",
 "C16": "abstract interpretation of schema processing with the orders of hash tables, time and environment as unknowns: equal outcomes for equal inputs",
 "C19": "abstract interpretation of the attribute macro over all kinds of modules and arguments, with models of syn and the environment",
 "C21": "abstract interpretation of schema processing over annotated schemas: provenance of documentation in the emitted code",
 "C22": "abstract interpretation of the generated conversions with trace partitioning over an unknown string or value, against the generated reader and writer",
 "C20": READWRITE + " (text flow, escaping operations)",
}
EXTRA = {}
T.update(EXTRA)
NOTE = ("Decided from the source alone, with nothing compiled or run: every path of the interpreted functions is partitioned by what it "
        "assumes about unknown names, values and documents, and each ends in an obligation against an independent reference. "
        "Bounded by the schema and document shapes of the templates (lists up to 2-3 items) and by the models of std, roxmltree, xml-rs, quote, "
        "syn and inflector; paths the interpreter cannot follow are counted as undecided in the evidence, not reported.")
NA = {
 "C90": "needs the parse/print functions of std (f32, integers, Decimal) to be inverse on every value: a fact about library numerics that no static rule over this repository can decide; the structural half of it is decided by C01-C03, C07-C10 and C20",
 "C91": "does not hold for any static reason in this code base (names that collide after case conversion overwrite each other by design: 'TODO: handle duplicates'), and whether two arbitrary names collide is a question about strings at run time",
 "C92": "not implemented by the repository (facets are parsed and deliberately ignored), so there is nothing to verify",
}
PENDING = "not claimed yet"
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash setup.sh",
  checks=[dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
               technique=T[i], level="other", level_note=NOTE) for i in ids if i in T],
  not_applicable=[dict(property=i, reason=NA.get(i, PENDING)) for i in ids if i not in T],
  notes="See DESIGN.md. The repairs of genuine defects are listed in known-findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

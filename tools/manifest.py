"""Writes MANIFEST.json: python3 tools/manifest.py (run in /verif)."""
import json
import os
import sys

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
from sa.run import registry  # noqa

TECH = {
    "D01": "interprocedural path enumeration (AST abstract interpretation) with forwarding and typestate obligations",
    "D02": "path-sensitive effect ordering and exception-edge analysis",
    "D03": "path-sensitive must-event analysis of every move implementation",
    "D04": "path-sensitive must-event and guard analysis",
    "D05": "static extraction and comparison of encoder and decoder tables, exception-edge analysis",
    "E02": "guard-dominance analysis over inlined abstract paths",
    "E03": "guard-dominance and counter-transition analysis over abstract paths",
    "E04": "who-may-raise audit plus guard analysis of every health check",
    "E01": "enumeration of exception handlers with exception-edge path analysis and outcome classification tables",
    "E05": "must-precede and provenance analysis of database writes over abstract paths",
    "E06": "guard-dominance analysis of every replacement of a best example",
    "E07": "path-sensitive accounting of clock readings",
    "E08": "symbolic composition of encoder and decoder paths, guard analysis of the replay",
    "E09": "must-raise analysis over abstract paths",
    "E10": "guard and value-flow analysis of score stores",
    "E11": "must-execute and argument-pairing analysis of explicit examples",
    "O01": "exactly-once effect analysis over normal and exceptional paths",
    "C01": "dispatch-table extraction and pairing analysis over abstract paths",
    "C02": "path enumeration of the draw functions with value-flow equality and who-writes audit",
    "C03": "typestate analysis: guard dominance of every write, who-writes audit",
    "C04": "counting automaton over all paths, exception edges included",
    "C05": "path-sensitive flow analysis of the data tree's bookkeeping",
    "C06": "cache key completeness and writer analysis",
    "S02": "symbolic path analysis of each rewrite with decision tables for operators, rounding and subnormal bounds",
    "S03": "path-sensitive obligation analysis with exact path enumeration of argument plumbing",
    "S04": "value-flow analysis over abstract paths",
    "S05": "decision tables of the validators, must-call analysis of all paths of the strategy functions, path tables of refused combinations",
    "S06": "path tables of registration and resolution, ownership of the registry, typestate of the cache protocol",
    "S07": "interprocedural value-flow analysis of bounds, with per-path tables and an inductive loop judgement",
    "T01": "per-iteration path analysis of the step loop (typestate and guard dominance)",
    "T02": "guard-dominance and effect analysis over abstract paths",
    "G01": "acquire/release analysis over exceptional control flow, who-may-call audits",
    "G02": "decision-table extraction, value-flow and entropy audits, key-completeness analysis",
    "G03": "per-field symbolic path analysis with inlined validators, decision tables, ownership and value-flow analysis",
    "G04": "reference audit of stream writers, decision tables over verbosity levels, ownership and path analysis",
    "T03": "exception-edge analysis with injected exceptions, must-event ordering",
}
NOTE = {}
NA = {
    "N01": "whether a generated string matches a pattern quantifies over the values produced by the regex compiler at run time; no sound static argument within reach relates the emitted alphabet sets to re's matcher",
    "N02": "bijectivity of the float/string index maps is arithmetic over bit patterns and run-time constraint values: a statement about numerical results, not about the shape of the code (the dispatch and pairing clauses are claimed under C01)",
    "N03": "local minimality and coverage quantify over the run-time interplay of shrink passes and random distributions; the acceptance discipline that makes shrinking sound is claimed under E06",
    "N04": "the correctness of generated source text depends on the run-time objects it is generated for",
    "N05": "evaluating the printed text gives back the value is a round-trip over run-time values and user-defined reprs",
}
PENDING = "not built yet"


def main():
    reg = registry()
    props = [json.loads(x) for x in open("properties.jsonl")]
    checks, na = [], []
    import importlib
    for p in props:
        i = p["id"]
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
        elif i in reg:
            doc = " ".join((reg[i].__doc__ or "").split())
            checks.append({
                "property": i, "quick_cmd": f"python3 -m sa.run {i}",
                "thorough_cmd": f"python3 -m sa.run {i} --thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": TECH.get(i) or getattr(reg[i], "technique", None) or "static analysis: path-sensitive abstract interpretation of the AST",
                "level": "other",
                "level_note": (NOTE.get(i) or doc)[:900] or "static analysis of the current source",
            })
        else:
            na.append({"property": i, "reason": PENDING})
    doc = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": na,
           "notes": "All checks parse /repo's current source with the standard library's ast module; nothing of the library under analysis is imported or executed. No hooks were added to /repo."}
    with open("MANIFEST.json", "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed,", len(na), "not applicable")


if __name__ == "__main__":
    main()

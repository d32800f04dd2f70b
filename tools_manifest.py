"""Writes MANIFEST.json (one check per property)."""
import json

TECH = {
    "M01": "stateful property-based testing against a sorted-dict model (Hypothesis)",
    "M02": "stateful property-based testing: snapshots of every earlier map, failing callbacks, open iterators (Hypothesis)",
    "M03": "property-based testing: equality/hash oracle over pairs of generated histories (Hypothesis)",
    "B01": "property-based testing of operation chains against Python lists (Hypothesis)",
    "S01": "differential property-based testing of operation chains against list computations (Hypothesis)",
    "S02": "property-based testing with instrumented sources and callbacks (demand, laziness, re-iteration) (Hypothesis)",
    "A01": "stateful property-based testing against a list model (Hypothesis)",
    "A02": "property-based testing of boundary values against machine-type ranges (Hypothesis)",
    "Y01": "differential property-based testing with generated suspension patterns and instrumented sources (Hypothesis)",
    "O01": "property-based testing: two-case reference, algebraic laws, call counts (Hypothesis)",
    "R01": "property-based testing: two-case reference, algebraic laws, call counts (Hypothesis)",
    "O02": "property-based testing of order/equality/hash laws over generated values (Hypothesis)",
    "U01": "property-based testing over generated union declarations against a reference model (Hypothesis)",
    "U02": "round-trip property-based testing (copy, deepcopy, pickle) over generated value trees (Hypothesis)",
    "J01": "round-trip and rejection property-based testing over generated pydantic models (Hypothesis)",
    "F01": "property-based testing against nested calls with call logs (Hypothesis)",
    "F02": "property-based testing against direct calls over arities, splits and keyword sets (Hypothesis)",
    "F03": "property-based testing of generated call scripts against an iterative interpreter (Hypothesis)",
    "E01": "grammar-based program generation, each program rendered for the library and as plain reference code (Hypothesis)",
    "E02": "grammar-based async program generation with suspensions, differential against reference code (Hypothesis)",
    "X01": "property-based testing against explicit binding loops with call logs (Hypothesis)",
    "X02": "property-based testing over generated exception hierarchies and wrapper stacks (Hypothesis)",
    "P01": "grammar-based fuzzing: generated parsers and inputs against a PEG reference interpreter (Hypothesis)",
    "C01": "model-based testing of scripts on an owned loop plus generated thread schedules (deterministic scheduler, Hypothesis)",
    "C02": "stateful model-based testing plus generated thread schedules (deterministic scheduler, Hypothesis)",
    "C03": "stateful model-based testing plus generated thread and task schedules (deterministic scheduler, Hypothesis)",
    "C04": "property-based testing of generated continuation/cancellation scripts, thread schedules and a virtual clock (Hypothesis)",
    "T01": "property-based testing of generated nested values against a reference printer and converter (Hypothesis)",
    "H01": "generated thread schedules (deterministic scheduler) and generated re-entrant uses, differential against uses run alone (Hypothesis)",
    "D01": "property-based testing over generated class hierarchies and value pools (Hypothesis)",
}
NOTE = {
    "C": "Searches generated histories and schedules, shrinks a failure to a replay file. Threads switch at the library's lines, bytecodes and lock operations; the schedule and the clock belong to the harness. Trusts CPython, asyncio, Hypothesis and the small reference model. Shows presence, not absence, of violations outside the explored cases.",
    "": "Searches generated cases against an independent oracle, with a fresh import of /repo's working tree, and shrinks a failure to a replay file. Trusts CPython, Hypothesis and the reference model. Explores a sample of the quantified space; absence beyond it is not established.",
}
checks = []
for line in open("/verif/properties.jsonl"):
    p = json.loads(line)["id"]
    checks.append(
        {
            "property": p,
            "quick_cmd": f"bash /verif/check.sh {p} quick",
            "thorough_cmd": f"bash /verif/check.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": TECH[p],
            "level": "exploration",
            "level_note": NOTE.get("C" if p == "H01" else p[0], NOTE[""]),
        }
    )
json.dump(
    {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'import hypothesis, pydantic'",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks in /repo; all /repo commits are fix: commits, listed in known_findings.json. See DESIGN.md.",
    },
    open("/verif/MANIFEST.json", "w"),
    indent=1,
)
print(len(checks))

"""Writes MANIFEST.json: `python3 tools/manifest.py`, from /verif."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BASE = (
    "Assurance: no counterexample among the generated and enumerated cases (counts, labels and samples in "
    "the evidence file); trusts the reference model named here, the generators' reach and CPython. "
)

CHECKS = {
    "C01": ("property-based testing against a reference RFC 9535 evaluator, with exhaustive slice and kind grids",
            "Oracle: vp/refq.py, written from RFC 9535 2.3 and 2.5."),
    "C02": ("property-based testing against a reference filter evaluator, with an exhaustive comparison table",
            "Oracle: vp/refq.py and the regular-expression matcher vp/rx.py."),
    "C03": ("property-based testing: match locations re-evaluated as paths, parts, pointers and parents",
            "Oracle: round-trips of each location, by object identity, and a reference normalized-path grammar."),
    "C04": ("property-based testing against a reference RFC 6901 evaluator, with near-miss pointer mutations",
            "Oracle: vp/refptr.py."),
    "C05": ("property-based and exhaustive small-scope testing against a reference RFC 6902 model",
            "Oracle: vp/refpatch.py."),
    "C06": ("grammar-aware fuzzing (mutation, token soup, raw text) with an exception-family and termination oracle",
            "Oracle: which exception class escapes, that its text renders, and a CPU-time limit per case."),
    "C07": ("property-based testing of typed and deliberately ill-typed queries against an independent classifier",
            "Oracle: an independent type checker over syntax trees."),
    "C08": ("differential property-based testing of the async API against the sync API",
            "Oracle: the sync API's own answers; schedules include several evaluations interleaved on one loop."),
    "C09": ("stateful property-based testing of reuse, caching and interleavings against fresh evaluations",
            "Oracle: a fresh environment's evaluation of the same (query, document, context)."),
    "C10": ("round-trip property-based testing of string forms, with generated and mutated accepted queries",
            "Oracle: str/compile round trip, evaluated on related documents."),
    "C11": ("differential property-based testing of all entry points, with a list model of compound queries",
            "Oracle: the entry points against one another and the list model of union and intersection."),
    "C12": ("model-based testing: exhaustive short and random long operation chains against a list model",
            "Oracle: Python list slicing."),
    "C13": ("property-based testing of extension syntax against the reference evaluator and its standard spellings",
            "Oracle: vp/refq.py with the documented extensions, and metamorphic alias relations."),
    "C14": ("property-based and exhaustive testing of pointer text, token and navigation laws",
            "Oracle: the RFC 6901 token list of vp/refptr.py."),
    "C15": ("stateful property-based testing of patch forms and repeated application",
            "Oracle: the forms against one another, and the model vp/refpatch.py."),
    "C16": ("property-based and exhaustive testing against a reference relative-pointer model",
            "Oracle: a model written from the Relative JSON Pointer draft."),
    "C17": ("metamorphic property-based testing over token assignments",
            "Oracle: the default environment's answer to the same tree in default spellings."),
    "C18": ("differential property-based testing of the command line against library calls",
            "Oracle: the library call's result, serialised; exit status, stderr shape and traceback absence."),
    "C19": ("property-based testing of projections against a reference projection model",
            "Oracle: a projection computed from the selected locations."),
    "C20": ("property-based testing of the match-pointer-patch pipeline against direct edits of a copy",
            "Oracle: the document edited at the match's location by the harness."),
}


def main():
    checks = []
    missing = []
    for pid, (tech, note) in CHECKS.items():
        if not os.path.exists(os.path.join(HERE, "vp", "checks", pid.lower() + ".py")):
            missing.append({"property": pid, "reason": "check not built yet"})
            continue
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 run.py {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {pid}",
            "technique": tech,
            "level": "exploration",
            "level_note": BASE + note,
        })
    out = {
        "version": 1,
        "setup_cmd": "true",
        "checks": checks,
        "not_applicable": missing,
        "notes": (
            "The code under test is imported from /repo's working tree; it is pure Python, so nothing is built. "
            "No hooks. known_findings.json lists recorded findings and the defects repaired by fix: commits."
        ),
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fd:
        json.dump(out, fd, indent=1)
        fd.write("\n")


main()

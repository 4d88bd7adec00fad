#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
CORE = ("Every public operation of the core is a transition of spec/Core.tla; TLC explores it exhaustively at small "
        "bounds with the laws as invariants, and TLC-generated behaviours are run in the code (ASan build) and each "
        "recorded answer is checked against the specification. Assurance is bounded by the generated behaviours; "
        "trusts TLC, the harness and the compiled pool of signatures.")
NAMES = ("Scopes, registry and traits are transitions of spec/Names.tla (checked exhaustively at small bounds by TLC); "
         "TLC-generated behaviours, with generated loaders and names, are run in the code (ASan build) and every "
         "recorded answer and listing is checked against the specification. Bounded by the generated behaviours.")
FIELDS = ("spec/Fields.tla models objects as memory regions and values as views of them; TLC checks it at small bounds "
          "and generates access histories over the harness's class hierarchies, whose recorded answers are checked "
          "against the specification. Bounded by the generated behaviours and the compiled classes.")
CONC = ("spec/%s.tla models the threads, their locks and the shared state; TLC checks it exhaustively at small bounds and "
        "refuses the broken designs. Spec-generated programs and schedules (and preemptions anywhere) are enforced on the "
        "code by a controlled scheduler that interposes the locks, static guards and allocations; each recorded history "
        "is checked by TLC, and free runs under ThreadSanitizer must show no race. Bounded by the schedules run.")
JSON = ("spec/JsonText.tla (lexer, escapes, UTF-8, error places), JsonVal.tla (parsing into and printing reflected types) and "
        "JsonOps.tla are explored by TLC over all short texts and small values with the laws as invariants; every short text over "
        "the significant bytes, long texts and TLC-generated documents, values and histories are run in the code (ASan build) and "
        "every recorded token, error place, value and document is checked against the specification. Bounded by the texts and "
        "types run; doubles come from a table of numerals.")
CONT = ("spec/Containers.tla models vectors, maps, unordered maps and pointers with their elements' identities; TLC checks "
        "it at small bounds and generates histories over all of the containers the harness compiles, whose recorded answers are checked "
        "against the specification (ASan build). Bounded by the generated behaviours and the compiled containers.")
PRIM = ("spec/Primitives.tla gives every built-in type its size, limits (exact bytes or bits), kind, functions and names on this "
        "ABI and the arithmetic of its values; TLC checks the laws of the tables and short histories, generates histories over all "
        "types and values, and checks every recorded answer (ASan build). Bounded by the values generated.")
DECL = ("A generator writes C++ classes for every combination of special members and random sets of members, operators and macros, and "
        "describes them to spec/Decl.tla, which says what each declaration registers and what every call and operator does; TLC checks "
        "the laws of the tables and short histories, generates histories, and checks every recorded answer, listing and object count "
        "(ASan build). Bounded by the classes and behaviours generated; the thorough check generates other classes.")
ERRS = ("spec/Errors.tla gives, for every misuse of the registry, scopes, members, calls, traits and values, what the refusal must name "
        "and that the state stays; TLC checks that at small bounds. Generated histories with names of any length are run with exceptions "
        "(snapshot of everything visible before and after) and without (a copy of the process must print one full message and abort); every "
        "answer is checked against the specification, and refusals of a kind must be worded alike. Bounded by the generated histories.")
NOTES = {
    "P19": ERRS,
    "P20": DECL, "P21": DECL,
    "P22": PRIM,
    "P18": CONT,
    "P12": JSON, "P13": JSON, "P14": JSON, "P15": JSON,
    "P10": CONC % "RegConc", "P16": CONC % "JsonConc",
    "P05": FIELDS, "P08": NAMES, "P09": NAMES, "P11": NAMES, "P23": NAMES,
    "P01": CORE, "P02": CORE, "P03": CORE, "P04": CORE, "P06": CORE, "P07": CORE, "P17": CORE,
}
TECH = "TLA+ specification, TLC model checking, spec-generated scripts replayed in the code, trace validation with TLC"
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in NOTES:
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH, "level": "model_checking", "level_note": NOTES[i]})
    else:
        m["not_applicable"].append(dict(property=i, reason="check under construction"))
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)

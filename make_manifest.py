#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the harnesses present and the notes below."""
import json
import os

VERIF = os.path.dirname(os.path.abspath(__file__))
EXH = ("Every execution within the bounds stated in DESIGN.md is run on the real code, compiled from the working "
       "tree with address and undefined behaviour sanitizers, in lockstep with a reference model; nothing is "
       "sampled. Values outside the alphabets and longer histories are not covered. Trusted: the reference model, "
       "the compiler and its sanitizers. ")
TECH = {
    "default": "bounded exhaustive exploration of the implementation against a reference model",
}
NOTES = {}
NOT_APPLICABLE = {
    "N01": "the generator is Java and needs zserio_core.jar, which is not in this sandbox; neither the generator "
           "nor the schema tests can be built or run here, so there is nothing to explore",
}


def main():
    props = [json.loads(line) for line in open(os.path.join(VERIF, "properties.jsonl"))]
    checks, absent = [], []
    for prop in props:
        ident = prop["id"]
        if not os.path.exists(os.path.join(VERIF, "harness", ident + ".cpp")):
            absent.append({"property": ident, "reason": NOT_APPLICABLE.get(ident, "no check built yet")})
            continue
        level = "model_checking"
        with open(os.path.join(VERIF, "harness", ident + ".cpp")) as f:
            if "level=fault_enumeration" in f.read(400):
                level = "fault_enumeration"
        checks.append({
            "property": ident,
            "quick_cmd": "python3 check.py " + ident,
            "thorough_cmd": "python3 check.py %s --thorough" % ident,
            "evidence_file": "evidence/%s.json" % ident,
            "technique": TECH.get(ident, TECH["default"]),
            "level": level,
            "level_note": EXH + NOTES.get(ident, ""),
        })
    manifest = {
        "version": 1,
        "setup_cmd": "python3 -c \"import subprocess; subprocess.check_call(['clang++', '--version'])\"",
        "checks": checks,
        "not_applicable": absent,
        "notes": "No hooks are needed: the harnesses drive the public interface of the unmodified runtime. "
                 "Each check compiles the runtime from /repo into /verif/build.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()

#!/usr/bin/env python3
"""Source of MANIFEST.json: every property with a rule is claimed, the others carry a reason."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import rules.all as R  # noqa: E402

VF = "value-flow analysis of compiler IR, normal forms compared with reference semantics"
CLI = "value-flow analysis of the program's compiler IR: conditions and contents of its file, thread and output actions"
TECH = {i: CLI for i in ("C23", "C24", "C25", "C26", "C27", "C28", "C36", "C37")}
NOTE = ("Holds for every input, configuration and history the statement quantifies over, provided the trusted base is right: "
        "rustc's MIR, the dump driver, the value-flow engine and its models of std and wyhash operations, and the reference functions.")
CLINOTE = ("Holds for every option value, input, job count and point of failure, provided the trusted base is right: rustc's MIR, "
           "the dump driver, the value-flow engine and its models of files, lines, threads and locks; the library operations are taken as given (their own properties).")
NOTES = {i: CLINOTE for i in TECH}
TECH["C29"] = "value-flow analysis of the binding's compiler IR, normal forms compared with the library operation's"
NOTES["C29"] = NOTE + " Python arguments of a wrong type or number are refused by pyo3 before the method and are not considered."
TECH["C42"] = "value-flow analysis of the option declarations and of the code that fills the commands' fields from them"
NOTES["C42"] = ("Holds for every command line, provided the trusted base is right: rustc's MIR, the dump driver, the value-flow engine, "
                "and clap, which is taken to read the command line as the declarations say.")
TECH["C22"] = "queries over the type-checked program (calls, globals, types, unsafe code) and witness programs the compiler must accept or refuse"
NOTES["C22"] = ("Holds for every run: each call, global, type and unsafe block of the library reachable from its public operations is examined; "
                "trusted: rustc's type checker and MIR, the dump driver and the list of modules whose operations depend on their operands only.")
REASONS = {
    "N01": "a statistical statement about hash quality; no static property of the code implies it",
    "N02": "accuracy of an estimator over random data; static analysis only fixes the formula that is computed (C12, C13, C34)",
    "N03": "the program writes the destination in place and makes no such promise; deciding it needs a crash model of the file system, not of the code",
}


def main():
    ps = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in ps:
        i = p["id"]
        if i in R.RULES:
            checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s" % i,
                               evidence_file="evidence/%s.json" % i, technique=TECH.get(i, VF), level="proof", level_note=NOTES.get(i, NOTE)))
        else:
            na.append(dict(property=i, reason=REASONS.get(i, "no check yet")))
    m = dict(version=1, setup_cmd="python3 build.py --setup", checks=checks, not_applicable=na,
             hooks=dict(guard="none: no hooks are needed in /repo", enable="nothing to enable", source_commits=[]),
             notes="Static analysis only: the compiler lowers /repo's current tree, a driver dumps monomorphic MIR, and the rules compare value-flow normal forms. Nothing of /repo is executed.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from checks import CHECKS  # noqa: E402

TECH = {
    "memory": "runtime monitors (canaries, contents, shadow model of the state) on random histories of the real code under "
              "ASan+UBSan and as shipped, above a recording system layer",
    "fork": "runtime monitor of forked executions: end of the process and standard error observed, ASan+UBSan and release",
    "thread": "ThreadSanitizer and a linearizability checker over recorded concurrent histories with injected delays",
    "parallel": "ThreadSanitizer on random histories of separate objects in threads and of first uses, and comparison of "
                "what each object did with what it does alone, with and without instrumentation",
    "effects": "runtime monitor around every call: replaced or hooked memory functions, process state, captured output and "
               "little stack, on random histories under ASan+UBSan and as shipped",
    "value": "runtime comparison with an independent oracle on random, boundary and exhaustive operands under ASan+UBSan and "
             "optimized builds; constant-expression results compared at run time",
    "object": "runtime monitors recording every construction, copy, move, assignment, call and destruction on random "
              "histories under ASan+UBSan",
    "uses": "generated programs that make a use and judge its effects at run time under ASan+UBSan (g++ and clang++); the "
            "senseless variants may instead be refused by the compiler, the sensible ones must run and be right",
    "types": "randomly generated programs whose results (as the compiler computed them with the library) a monitor compares "
             "at run time with the generator's independent model; g++ and clang++",
}
KIND = {"M04": "fork", "C07": "fork", "M08": "thread", "U02": "parallel", "U03": "effects", "M12": "object", "C05": "object", "C09": "object", "P01": "object",
        "P02": "object", "P03": "value", "P04": "types", "M10": "value", "M11": "value"}
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    kind = KIND.get(i) or {"M": "memory", "C": "value", "T": "types", "U": "types", "X": "uses"}[i[0]]
    checks.append(dict(
        property=i, quick_cmd="python3 run.py " + i, thorough_cmd="python3 run.py %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i, technique=TECH[kind], level=CHECKS[i].get("level", "exploration"),
        level_note=CHECKS[i]["rule"]))
out = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=[],
           notes="Every check builds its harnesses from /repo's working tree (header-only library) into a scratch folder "
                 "under build/ and removes it. No hooks in /repo: the harnesses observe through the public interface, "
                 "through their own system layer (sysops) and clocks, and through instrumented argument types.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")

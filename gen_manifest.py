"""Regenerates MANIFEST.json from sim/registry.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import registry
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
 "N01": "Which obligations a construct yields is a pure function of the program text: no schedule, clock, fault or I/O takes part. (Its end-to-end consequence under faults is covered by C08.)",
 "N02": "Printing an expression is a pure function of the expression. (Misprints that change what a synthesis run returns are seen by C01, C02, C04, C08.)",
 "N03": "Simplification is a pure function of the expression; nothing nondeterministic or faulty takes part.",
 "N04": "Static theory files with a fixed meaning; no execution to schedule or disturb.",
 "N05": "The native LLVM pass is a pure function of a module and cannot be built here (its LLVM version is absent).",
 "N06": "Target code generation is a pure function of the summary; no schedule, clock, fault or I/O takes part.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=registry.TECHNIQUE.get(i, registry.TECH), level="exploration", level_note=registry.NOTES.get(i, "") + " " + registry.NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No simulation for it has been built yet.")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo: every seam (subprocess.Popen, time, builtins.open, os file calls, model services) is replaced from outside by sim/osim.py. Deterministic simulation with fault injection; see DESIGN.md. Replay a violation with: python3 check.py --replay <file>."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

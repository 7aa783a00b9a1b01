#!/usr/bin/env python3
"""Writes MANIFEST.json from check.py's MODULES and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, root)
import check
EXTRA = {"C05": "Transactions.tla (with Concurrency.tla for the lock protocol and Atomic.tla for recorded concurrent runs)",
         "C09": "Operations.tla", "C10": "Resources.tla (and Operations.tla for resources used by triggers)",
         "C12": "Proxies.tla"}
SPEC = {"p_tx": "Transactions.tla", "p_ops": "Operations.tla", "p_res": "Resources.tla", "p_graph": "Graphs.tla",
        "p_lazy": "LazyDocuments.tla", "p_repo": "Repository.tla", "p_interval": "IntervalTree.tla",
        "p_date": "Dates.tla", "p_index": "IntervalIndex.tla"}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in check.MODULES:
        spec = EXTRA.get(pid, SPEC[check.MODULES[pid]])
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py %s quick" % pid,
            "thorough_cmd": "python3 check.py %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "TLA+ specification %s model-checked with TLC; its transitions and random behaviours replayed "
                         "into the real code, and recorded executions validated against it" % spec,
            "level": "model_checking",
            "level_note": "Exhaustive for the specification within the bounds listed in the evidence; every transition "
                          "of those bounded models and seeded random behaviours beyond them are compared step by step "
                          "with the real code. Trusts TLC, the driver that performs the actions, and that behaviour "
                          "beyond the explored bounds is like that within.",
        })
    else:
        na.append({"property": pid, "reason": "its specification and driver are not built yet"})
manifest = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "--cfg plotline_verif (rustc cfg flag)",
              "enable": "the driver in /verif/harness/index (and no other) is built with RUSTFLAGS='--cfg plotline_verif'; 097a683 removes what 401c6dd added",
              "source_commits": check.HOOK_COMMITS},
    "checks": checks, "not_applicable": na,
    "notes": "TLA+ specifications in spec/, drivers in harness/, see DESIGN.md. KNOWN_FINDINGS.txt lists the genuine "
             "defects found. Exit status 2 is an error of the tooling.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")

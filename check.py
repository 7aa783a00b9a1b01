#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property; see DESIGN.md."""
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import mbv  # noqa: E402

MODULES = {
    "C01": "p_tx", "C02": "p_tx", "C03": "p_tx", "C04": "p_tx", "C05": "p_tx",
    "C06": "p_ops", "C07": "p_ops", "C08": "p_ops", "C09": "p_ops",
    "C10": "p_res", "C11": "p_graph", "C12": "p_graph", "C13": "p_lazy", "C14": "p_repo", "C15": "p_repo",
    "C16": "p_interval", "C17": "p_interval", "C18": "p_date", "C19": "p_index", "C20": "p_res",
}

HOOK_COMMITS = ["401c6dd", "3f5ff9c", "097a683"]


def setup():
    for crate in sorted(os.listdir(os.path.join(mbv.VERIF, "harness"))):
        mbv.build(crate)
    return 0


def main():
    if sys.argv[1] == "--setup":
        return setup()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    started = time.time()
    stats = mbv.Stats()
    module = __import__(MODULES[pid])
    rng = random.Random("%s-%s-%d" % (pid, tier, seed))
    violations = module.check(pid, tier, rng, stats)
    known = getattr(stats, "known", [])
    for line in known:
        mbv.log("KNOWN-FINDING: property=%s %s" % (pid, line))

    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": stats.states, "transitions": stats.transitions,
            "traces_validated_against_impl": stats.tests + stats.recorded,
            "behaviours_replayed_into_impl": stats.tests, "steps_replayed": stats.steps,
            "recorded_executions_accepted": stats.recorded, "recorded_events_accepted": stats.events,
            "actions_performed": dict(sorted(stats.actions.items())),
            "runs": stats.runs, "samples": stats.samples[:4] or ["none"],
        },
        "assumptions": getattr(module, "ASSUMPTIONS", {}).get(pid, []) + [
            "the bounded models and seeded random programs named in coverage.runs are what was explored",
        ],
        "wall_s": round(time.time() - started, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(mbv.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(mbv.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    mbv.log("%s %s: %d states, %d transitions, %d behaviours replayed (%d steps), %d executions recorded (%d events), %.1f s"
            % (pid, tier, stats.states, stats.transitions, stats.tests, stats.steps, stats.recorded, stats.events,
               time.time() - started))
    if not violations:
        return 0
    shown = sorted(violations, key=lambda v: len(json.dumps(v.scenario)))
    os.makedirs(os.path.join(mbv.BUILD, "replays"), exist_ok=True)
    path = os.path.join(mbv.BUILD, "replays", "%s-%s.json" % (pid, tier))
    with open(path, "w") as f:
        json.dump([v.as_dict() for v in shown[:10]], f, indent=1)
        f.write("\n")
    mbv.log("%d differences; smallest: %s" % (len(violations), json.dumps(shown[0].as_dict())[:3000]))
    mbv.log("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


if __name__ == "__main__":
    try:
        code = main()
    except mbv.ToolError as e:
        mbv.log("ERROR: %s" % e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        mbv.cleanup()
    sys.exit(code)

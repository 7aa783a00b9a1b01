#!/usr/bin/env python3
"""selftest.py [PROPERTY...]: does what binds the specifications to the code notice a wrong observation?

Runs quick checks on the unchanged tree while it falsifies single observations: in every recorded batch one
value of one event, in every replayed batch one expected value of one test. Each falsification must be
noticed where it was made. Not a registered check; its outcome is in DESIGN.md."""
import json
import os
import random
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools")]
import check  # noqa: E402
import mbv  # noqa: E402

rng = random.Random(os.environ.get("VERIF_SEED", "1"))
made, noticed, missed = [], [], []


def leaves(value, path=()):
    if isinstance(value, dict):
        for k, v in value.items():
            yield from leaves(v, path + (k,))
    elif isinstance(value, list) and value:
        for k, v in enumerate(value):
            yield from leaves(v, path + (k,))
    elif isinstance(value, (int, bool, str)):
        yield path, value


def other(value):
    if isinstance(value, bool):
        return not value
    if isinstance(value, int):
        return value + rng.choice([1, 1, 2, -1])
    return value + "x"


def put(container, path, value):
    for k in path[:-1]:
        container = container[k]
    container[path[-1]] = value


RESULTS = {"r", "w", "ask", "q", "m", "out", "outn", "exit", "why"}


def candidates(event, mask):
    """Where an event says something the check looks at."""
    return [(p, v) for p, v in leaves(event)
            if p[0] in mask & RESULTS or p[0] == "x" and len(p) > 1 and p[1] in mask]


def falsify(events, mask):
    some = [k for k, e in enumerate(events) if candidates(e, mask)]
    if not some:
        return None
    k = rng.choice(some)
    path, value = rng.choice(candidates(events[k], mask))
    put(events[k], path, other(value))
    return {"step": k, "a": events[k].get("a"), "path": list(path), "was": value}


real = mbv.run_driver


def run_driver(binary, module, lines, mask, record=False, timeout=800):
    if record:
        reports, outputs, done, steps = real(binary, module, lines, mask, record, timeout)
        for n in rng.sample(range(len(outputs)), len(outputs)):
            what = falsify(outputs[n], mask)
            if what:
                outputs[n][what["step"]]["falsified"] = 1
                made.append(dict(what, module=module, kind="recorded"))
                break
        return reports, outputs, done, steps
    lines = list(lines)
    for n in rng.sample(range(len(lines)), min(len(lines), 50)):
        test = json.loads(lines[n])
        if isinstance(test, dict):      # the state after the last action, or its result
            both = [dict(test["h"][-1]), {"x": test["x"]}]
            what = falsify(both, mask)
            if what:
                test["h"][-1], test["x"] = both[0], both[1]["x"]
        else:
            what = falsify(test, mask)
        if what:
            lines[n] = json.dumps(test)
            what = dict(what, module=module, kind="replayed")
            made.append(what)
            break
    else:
        return real(binary, module, lines, mask, record, timeout)
    out = real(binary, module, lines, mask, record, timeout)
    (noticed if any(r["scenario"] == n for r in out[0]) else missed).append(dict(what, test=lines[n][:1500]))
    return out


mbv.run_driver = run_driver
for pid in sys.argv[1:] or sorted(check.MODULES):
    del made[:], noticed[:], missed[:]
    module = __import__(check.MODULES[pid])
    violations = module.check(pid, "quick", random.Random("selftest-" + pid), mbv.Stats())
    recorded = [v for v in violations if v.kind == "code->spec" and v.report.get("event", {}).get("falsified")]
    count = lambda kind: sum(m["kind"] == kind for m in made)
    print("%s: %d of %d falsified expectations and %d of %d falsified recordings noticed, %d other differences" % (
        pid, len(noticed), count("replayed"), len(recorded), count("recorded"),
        len(violations) - len(recorded) - len(noticed)), flush=True)
    for m in missed:
        print("  missed", json.dumps(m), flush=True)
    if len(recorded) < count("recorded"):
        got = [(v.spec, v.report["event"].get("a")) for v in recorded]
        print("  recorded:", json.dumps([m for m in made if m["kind"] == "recorded"])[:3000], got, flush=True)
mbv.cleanup()

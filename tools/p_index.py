"""C19: IntervalIndex.tla."""
import json
import os

import mbv
from mbv import CLOSED

ARMS = {"fBS", "fAS", "fBD", "fAD", "hide", "abort"}


def base(**kw):
    c = dict(NI=2, NV=5, NB=3, RegSet=1, MaxDepth=2, MaxLen=5, Arms=ARMS)
    c.update(kw)
    return c


INV = ["TypeOK", "SameUnlessUndone", "Mirrors"]
PROPS = ["FailedChangesNothing"]
PLAN = {
    "quick": [("changes", base(MaxLen=4)), ("values", base(NV=7, NI=1, MaxLen=5)), ("failures", base(RegSet=2, NV=3, MaxDepth=1, MaxLen=5)),
              ("nesting", base(RegSet=3, NI=3, NV=3, MaxDepth=1, MaxLen=4)),
              ("hidden", base(RegSet=4, NI=3, NV=2, MaxDepth=1, MaxLen=4)),
              ("transactions", base(RegSet=1, NV=2, NI=2, MaxDepth=2, MaxLen=6)),
              ("altered", base(RegSet=5, NV=3, NI=2, MaxDepth=1, MaxLen=4))],
    "thorough": [("changes", base(MaxLen=5)), ("values", base(NV=7, NI=2, MaxDepth=1, MaxLen=5)), ("failures", base(RegSet=2, NV=3, MaxDepth=1, MaxLen=CLOSED)),
                 ("nesting", base(RegSet=3, NI=3, NV=3, MaxDepth=1, MaxLen=5)),
                 ("hidden", base(RegSet=4, NI=3, NV=3, MaxDepth=1, MaxLen=5)),
                 ("transactions", base(RegSet=1, NV=2, NI=2, MaxDepth=2, MaxLen=8)),
                 ("altered", base(RegSet=5, NV=3, NI=3, MaxDepth=1, MaxLen=5))],
}
ASSUMPTIONS = {"C19": ["plugins/interval does not build on its own (it is outside the workspace and imports a trait "
                       "the library lacks); it is built with a crate that adds that trait",
                       "nodes change only through save and delete operations; one interval plugin per interval type"]}


LATE = {"lateval", "lateid", "delid"}
WHAT = {"undone": "the index keeps what an operation did to it that failed, or was rolled back, after the triggers of the "
                  "plugin ran",
        "altered": "the index gets the target of an operation as another trigger altered it after it was saved, or before "
                   "it was deleted, not what was saved or deleted"}


def finding(test):
    """Which known finding a history is of."""
    return "altered" if LATE & set(test["h"][0]["regs"]) else "undone"


def known(name):
    with open(os.path.join(mbv.VERIF, "KNOWN_FINDINGS.txt")) as f:
        return any(l.startswith("finding: property=C19 %s " % name) for l in f)


def replay(stats, binary, tests):
    """Where the index of the specification and the index as coded differ, what is known of a failing
    test is exactly that the code does what the specification says it does."""
    same, undone = [], []
    for t in tests:
        (undone if t["x"]["coded"] else same).append(t)
    violations = mbv.replay(stats, binary, "index", "IntervalIndex", same, {"i", "n", "r"}) if same else []
    if undone:
        for v in mbv.replay(stats, binary, "index", "IntervalIndex", undone, {"i"}):
            if known(finding(v.scenario)) and v.report.get("what") == "i" and v.report.get("got") == v.scenario["x"]["coded"][0]:
                stats.undone.append(v)
            else:
                violations.append(v)
    return violations


def lenient(behaviours):
    """Behaviours with every step's state: the index is judged where the two agree."""
    for b in behaviours:
        for e in b:
            if e.get("x", {}).pop("coded", []):
                del e["x"]
    return behaviours


def program(rng, ni, nb, length):
    ivs = []
    pool = [sorted([rng.randint(1, nb), rng.randint(1, nb)]) for _ in range(rng.choice([2, 3, 40]))]
    for _ in range(8):
        n = rng.choice([0, 1, 2, 2, 3, 3, 5] + [40] * (ni > 10))
        spans = [rng.choice(pool) for _ in range(n)]
        ivs.append(spans + spans[:1] * rng.randint(0, 1))
    # nothing fails after the triggers of the plugin ran
    regs = rng.choice([["P"], ["alter", "P"], ["P", "rename"], ["P", "fBS", "fBD"], ["fBS", "P", "alter", "fBD"]])
    g = [rng.choice([0, rng.randint(1, 8)]) for _ in range(ni)]
    steps = [{"a": "Init", "ni": ni, "nv": 8, "nb": nb, "regs": regs, "g": g, "ivs": ivs}]
    depth = 0
    while len(steps) < length:
        a = rng.choices(["Save", "Del", "Begin", "End"], [6, 3, 1 if depth < 3 else 0, 1.5 if depth else 0])[0]
        if a == "Save":
            arm = "fBS" if "fBS" in regs and rng.random() < .2 else ""
            steps.append({"a": a, "id": rng.randint(1, ni), "v": rng.randint(1, 8), "arm": arm})
        elif a == "Del":
            arm = "fBD" if "fBD" in regs and rng.random() < .2 else ""
            steps.append({"a": a, "id": rng.randint(1, ni), "arm": arm})
        elif a == "Begin":
            depth += 1
            steps.append({"a": a})
        else:
            depth -= 1
            steps.append({"a": a, "ok": True})
    return steps


def check(pid, tier, rng, stats):
    binary = mbv.build("index")
    deep = tier == "thorough"
    stats.undone = []
    mask = {"i", "n", "r"}
    jobs = [(mbv.model_check, stats, "IntervalIndex", name, c, INV, PROPS) for name, c in PLAN[tier]]
    sims = [(mbv.simulate, stats, "IntervalIndex", "random %d" % k, base(NI=4, NV=7, MaxDepth=3, RegSet=k), INV,
             150 if deep else 15, 30 if deep else 16, rng.randrange(1, 2**31)) for k in (1, 2, 3, 4, 5)]
    violations = []
    results = mbv.parallel(jobs + sims, 8)
    for tests in results[:len(jobs)]:
        violations += replay(stats, binary, tests)
    for behaviours in results[len(jobs):]:
        violations += mbv.replay(stats, binary, "index", "IntervalIndex", lenient(behaviours), mask)
    programs = [program(rng, rng.choice([3, 8, 8, 30]), 30, rng.choice([10, 40, 100])) for _ in range(500 if deep else 100)]
    for ni in (3, 8, 30):
        some = [p for p in programs if p[0]["ni"] == ni]
        violations += mbv.validate(stats, binary, "index", "IntervalIndex", some, mask,
                                   base(NI=ni, NV=8, NB=30, MaxDepth=4, MaxLen=10**6))
    stats.known = []
    for name in sorted(WHAT):
        some = [v for v in stats.undone if finding(v.scenario) == name]
        if some:
            v = min(some, key=lambda v: len(json.dumps(v.scenario)))
            stats.known.append("%s: %s (%d of the histories explored end like that; smallest: %s)"
                               % (name, WHAT[name], len(some), json.dumps(v.scenario["h"])))
    return violations

"""C06-C09: Operations.tla."""
import mbv
from mbv import CLOSED
from p_tx import wanted

INV = ["TypeOK", "BeforeAfter"]
PROPS = ["GraphOnlyByOutermostSuccess", "FailureLeavesNoTrace", "SavedAsLeft", "DeletesItsId", "NoopDelete",
         "TriggersInOrder", "FailureStops", "NestedFailure", "NestedSuccess", "AppendOnly", "ResourceKept", "KeptChangesTargetOnly"]


def base(**kw):
    c = dict(NI=2, NV=12, RegSet=1, MaxDepth=4, MaxLog=2, MaxLen=8, Acts=set(), Catches={"prop", "all"},
             FreshVals=True, InitAll=False)
    c.update(kw)
    return c


OPS = {"Tx", "Save", "Del"}
FAIL = {"Err", "Panic"}
EVERY = OPS | FAIL | {"Noop", "Sel", "CSave", "CDel", "WithTarget", "SetTgt", "Keep", "Burst", "Bump"}

PLAN = {
    "C06": dict(mask={"r", "t", "v", "tg", "k"}, keep={"Save"},
        quick=[("flat", base(RegSet=1, MaxLen=CLOSED, MaxDepth=2, Acts={"Save", "Err", "SetTgt", "Burst", "Panic"})),
               ("states", base(RegSet=1, MaxLen=CLOSED, MaxDepth=2, NV=2, FreshVals=False, InitAll=True, Acts={"Save", "SetTgt"})),
               ("nested", base(RegSet=1, MaxLen=6, MaxDepth=4, Acts={"Tx", "Save", "CSave", "CDel", "SetTgt"}, NI=2)),
               ("kept", base(RegSet=1, MaxLen=6, MaxDepth=4, Acts={"Save", "Keep", "Err", "Burst"}, NI=1))],
        thorough=[("flat", base(RegSet=1, MaxLen=CLOSED, MaxDepth=2, Acts={"Save", "Err", "SetTgt", "Burst", "Panic", "Noop"})),
                  ("states", base(RegSet=1, MaxLen=CLOSED, MaxDepth=2, NV=2, FreshVals=False, InitAll=True, Acts={"Save", "SetTgt", "Del"})),
                  ("kept", base(RegSet=1, MaxLen=8, MaxDepth=4, Acts={"Save", "Keep", "Err", "Burst"}, NI=1)),
                  ("nested", base(RegSet=1, MaxLen=7, MaxDepth=4, Acts={"Tx", "Save", "CSave", "CDel", "SetTgt", "Err"}, NI=2))]),
    "C07": dict(mask={"r", "t", "v", "tg", "k"}, keep={"Del"},
        quick=[("flat", base(RegSet=2, MaxLen=CLOSED, MaxDepth=2, Acts={"Del", "Err", "SetTgt", "Burst", "Panic"})),
               ("states", base(RegSet=2, MaxLen=CLOSED, MaxDepth=2, NV=2, FreshVals=False, InitAll=True, Acts={"Del", "SetTgt"})),
               ("nested", base(RegSet=2, MaxLen=6, MaxDepth=4, Acts={"Tx", "Del", "CSave", "CDel", "SetTgt"}, NI=2)),
               ("kept", base(RegSet=2, MaxLen=CLOSED, MaxDepth=4, Acts={"Del", "Keep", "Err", "Burst"}, NI=2))],
        thorough=[("flat", base(RegSet=2, MaxLen=CLOSED, MaxDepth=2, Acts={"Del", "Err", "SetTgt", "Burst", "Panic", "Noop"})),
                  ("states", base(RegSet=2, MaxLen=CLOSED, MaxDepth=2, NV=2, FreshVals=False, InitAll=True, Acts={"Del", "SetTgt", "Save"})),
                  ("kept", base(RegSet=2, MaxLen=7, MaxDepth=4, Acts={"Save", "Del", "Keep", "Err"}, NI=2)),
                  ("nested", base(RegSet=2, MaxLen=7, MaxDepth=4, Acts={"Tx", "Del", "CSave", "CDel", "SetTgt", "Err"}, NI=2))]),
    "C08": dict(mask={"r", "t", "v"},
        quick=[("order", base(RegSet=3, MaxLen=8, MaxDepth=4, NI=1, MaxLog=1, Catches={"prop", "all"},
                              Acts={"Tx", "Save", "Del", "Sel", "Err"})),
               ("failures", base(RegSet=3, MaxLen=6, MaxDepth=3, NI=1, Catches={"prop", "err", "all"},
                                 Acts={"Tx", "Save", "Del", "Sel", "Err", "Noop", "Panic"}))],
        thorough=[("order", base(RegSet=3, MaxLen=9, MaxDepth=4, NI=1, MaxLog=2, Catches={"prop", "all"},
                                 Acts={"Tx", "Save", "Del", "Sel", "Err"})),
                  ("failures", base(RegSet=3, MaxLen=7, MaxDepth=4, NI=1, Catches={"prop", "err", "all"},
                                    Acts={"Tx", "Save", "Del", "Sel", "Err", "Noop", "Panic"}))]),
    "C09": dict(mask={"r", "t", "v"},
        quick=[("nesting", base(RegSet=4, MaxLen=7, MaxDepth=6, NI=2, Acts={"Save", "Del", "Err"})),
               ("transactions", base(RegSet=4, MaxLen=7, MaxDepth=5, NI=1, Acts={"Tx", "Save", "CSave", "Err", "Panic"}))],
        thorough=[("nesting", base(RegSet=4, MaxLen=8, MaxDepth=8, NI=2, Acts={"Save", "Del", "Err"})),
                  ("transactions", base(RegSet=4, MaxLen=8, MaxDepth=6, NI=1,
                                        Acts={"Tx", "Save", "Del", "CSave", "Sel", "Err", "Panic"}))]),
}


def check(pid, tier, rng, stats):
    plan = PLAN[pid]
    binary = mbv.build("core")
    keep = wanted(plan.get("keep"))
    deep = tier == "thorough"
    jobs = [(mbv.model_check, stats, "Operations", name, c, INV, PROPS) for name, c in plan[tier]]
    for family in (1, 2, 3, 4):
        sim = base(RegSet=family, NI=3, NV=60, MaxLog=12, MaxDepth=9, Acts=EVERY, Catches={"prop", "err", "all"})
        jobs.append((mbv.simulate, stats, "Operations", "random %d" % family, sim, INV[:1],
                     150 if deep else 25, 40 if deep else 25, rng.randrange(1, 2**31)))
    violations = []
    for tests in mbv.parallel(jobs, 8):
        violations += mbv.replay(stats, binary, "ops", "Operations", tests, plan["mask"], keep)
    ni = 5
    programs = [[{"a": "Init", "seed": rng.randrange(2**31), "ni": ni, "depth": rng.choice([3, 5, 8, 8, 40]),
                  "len": rng.choice([20, 60, 100] if not deep else [40, 100, 250])}]
                for _ in range(1200 if deep else 200)]
    violations += mbv.validate(stats, binary, "ops", "Operations", programs, plan["mask"],
                               base(NI=ni, NV=10**6, MaxLog=10**6, MaxDepth=10**6, MaxLen=10**6, FreshVals=False), INV)
    return violations

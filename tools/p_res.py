"""C10 and C20: Resources.tla (and Operations.tla for resources used by triggers)."""
import mbv
from mbv import CLOSED
import p_ops
from p_tx import wanted

INV = ["TypeOK", "WriterAlone"]
PROPS = ["LastRegistered", "ChangedOnlyByWriters", "DiesOnlyByPanic", "AllOrNothing"]


def base(**kw):
    c = dict(NR=2, NH=3, NC=4, NV=12, MaxArity=1, MaxDepth=2, MaxLen=8, Acts=set(), AnySlot=False, Ready=False)
    c.update(kw)
    return c


EVERY = {"Target", "Drop", "Panic", "Contend"}
PLAN = {
    "C10": dict(
        quick=[("one type", base(NR=1, NC=3, MaxLen=9, Acts={"Panic", "Drop"})),
               ("two types", base(NR=2, NH=2, NC=3, MaxLen=CLOSED, Acts={"Panic"}))],
        thorough=[("one type", base(NR=1, NC=3, MaxLen=CLOSED, Acts={"Panic", "Drop"})),
                  ("two types", base(NR=2, NH=3, NC=4, MaxLen=9, Acts={"Panic"})),
                  ("three types", base(NR=3, NH=3, NC=4, MaxLen=8, Acts={"Panic"}))]),
    "C20": dict(
        quick=[("pairs", base(NR=2, NH=2, NC=3, MaxArity=2, MaxLen=8, Acts={"Panic"})),
               ("triples", base(NR=3, NH=3, NC=4, MaxArity=3, MaxDepth=2, MaxLen=5, Ready=True, Acts={"Panic"})),
               ("long", base(NR=6, NH=6, NC=6, NV=9, MaxArity=1, MaxDepth=2, MaxLen=6, Ready=True, Acts={"Panic", "Long"})),
               ("contention", base(NR=1, NH=2, NC=2, MaxArity=2, MaxDepth=1, MaxLen=CLOSED, Acts={"Target", "Contend"})),
               ("targets", base(NR=1, NH=3, NC=3, MaxArity=2, MaxDepth=1, MaxLen=7, Acts={"Panic", "Target"}))],
        thorough=[("pairs", base(NR=2, NH=2, NC=3, MaxArity=2, MaxLen=CLOSED, Acts={"Panic"})),
                  ("triples", base(NR=3, NH=3, NC=4, MaxArity=3, MaxDepth=2, MaxLen=6, Ready=True, Acts={"Panic"})),
                  ("quadruples", base(NR=4, NH=4, NC=4, NV=9, MaxArity=4, MaxDepth=1, MaxLen=5, Ready=True, Acts={"Panic"})),
                  ("nested", base(NR=2, NH=3, NC=3, MaxArity=2, MaxLen=8, MaxDepth=3, Acts={"Panic"})),
                  ("contention", base(NR=1, NH=3, NC=3, MaxArity=2, MaxDepth=1, MaxLen=7, Acts={"Target", "Contend"})),
                  ("targets", base(NR=1, NH=3, NC=3, MaxArity=2, MaxDepth=2, MaxLen=8, Acts={"Panic", "Target"}))]),
}


def tuples(test):
    return any(len(e.get("hs", ())) > 1 for e in (test["h"] if isinstance(test, dict) else test))


def sampled(tests, rng, most):
    """Contention costs wall time: a sample of the tests with it."""
    slow = [t for t in tests if isinstance(t, dict) and any(e["a"] == "Contend" for e in t["h"])]
    if len(slow) <= most:
        return tests
    keep = set(map(id, rng.sample(slow, most)))
    drop = set(map(id, slow)) - keep
    return [t for t in tests if id(t) not in drop]


def check(pid, tier, rng, stats):
    plan = PLAN[pid]
    binary = mbv.build("core")
    deep = tier == "thorough"
    mask = {"types", "hs", "s", "r"}
    seeds = [rng.randrange(1, 2**31) for _ in range(3)]
    jobs = [(mbv.model_check, stats, "Resources", name, c, INV, PROPS) for name, c in plan[tier]]
    arity = 1 if pid == "C10" else 3
    sim = base(NR=4, NH=6, NC=24, NV=80, MaxArity=arity, MaxDepth=3, AnySlot=True, Acts=EVERY)
    jobs.append((mbv.simulate, stats, "Resources", "random", sim, INV, 400 if deep else 60, 45 if deep else 30, seeds[0]))
    violations = []
    for tests in mbv.parallel(jobs, 8):
        tests = sampled(tests, rng, 40000 if deep else 4000)
        violations += mbv.replay(stats, binary, "res", "Resources", tests, mask, tuples if pid == "C20" else None)
    nr, nh = 6, 9
    programs = [[{"a": "Init", "seed": rng.randrange(2**31), "nr": nr, "nh": nh,
                  "len": rng.choice([20, 60, 100] if not deep else [40, 100, 150])}]
                for _ in range(1200 if deep else 200)]
    violations += mbv.validate(stats, binary, "res", "Resources", programs, mask,
                               base(NR=nr, NH=nh, NC=64, NV=10**6, MaxArity=6, MaxDepth=10, MaxLen=10**6, AnySlot=True),
                               INV)
    if pid == "C10":
        # resources used by triggers and across failing transactions
        opmask = {"c", "r", "t"}
        acts = {"Tx", "Save", "Del", "Bump", "Err", "Panic"}
        jobs = [(mbv.model_check, stats, "Operations", "triggers", p_ops.base(
                    RegSet=4, MaxLen=7 if deep else 6, MaxDepth=4, NI=1, Acts=acts), p_ops.INV, p_ops.PROPS)]
        jobs += [(mbv.simulate, stats, "Operations", "random %d" % k, p_ops.base(
                    RegSet=k, NI=2, NV=60, MaxLog=12, MaxDepth=7, Acts=p_ops.EVERY, Catches={"prop", "err", "all"}),
                    p_ops.INV[:1], 100 if deep else 20, 25, seeds[k]) for k in (1, 2)]
        for tests in mbv.parallel(jobs, 8):
            violations += mbv.replay(stats, binary, "ops", "Operations", tests, opmask, wanted({"Bump"}))
    return violations

"""C01-C05: Transactions.tla."""
import mbv
from mbv import CLOSED

ALL = ["TypeOK", "Exclusive", "Inside", "NoIdleWait"]
PROPS = ["CommitIsView", "LastWriteWins", "EndEffect", "Isolation", "ChildViewBecomesParents", "ReadYourWrites"]


def program(rng, nt, ni, length, acts, waits=0):
    """A random well-formed use of the API (the result is decided by the specification)."""
    slots = [dict(st="none", par=0, nctx=0, top=False) for _ in range(nt + 1)]
    wstack, steps, value, waiting, waited = [], [], 100, False, 0
    steps.append({"a": "Init", "g": [rng.choice([0, 1, 2, 3]) for _ in range(ni)], "nt": nt})

    def children(t):
        return [u for u in range(1, nt + 1) if slots[u]["st"] != "none" and slots[u]["par"] == t and not slots[u]["top"]]

    def holder():
        return next((t for t in range(1, nt + 1) if slots[t]["top"] and slots[t]["st"] in ("open", "run")), 0)

    def kill(t):
        slots[t] = dict(st="none", par=0, nctx=0, top=False)

    style = rng.random()
    while len(steps) < length:
        opts = []
        lock = holder()
        free = [t for t in range(1, nt + 1) if slots[t]["st"] == "none"]
        usable = [t for t in range(1, nt + 1) if slots[t]["st"] in ("open", "run")]
        if free:
            opts.append((1.5 if lock else 4, "Open"))
            if usable:
                opts.append((3, "Sub"))
        def acquirable(t):
            return not (slots[t]["top"] and slots[t]["st"] == "idle") or lock == 0
        ctxable = [t for t in range(1, nt + 1) if slots[t]["st"] in ("idle", "open") and slots[t]["nctx"] < 3 and acquirable(t)]
        withable = [t for t in range(1, nt + 1) if slots[t]["st"] in ("idle", "open") and not children(t) and acquirable(t)]
        droppable = [t for t in range(1, nt + 1) if slots[t]["st"] in ("idle", "open") and not children(t)]
        if ctxable: opts.append((2, "Ctx"))
        if withable: opts.append((2 + 2 * (style < .5), "With"))
        if usable:
            opts.append((9 if style < .8 else 25, "Save"))
            opts.append((5 if style < .8 else 15, "Del"))
            if "Bulk" in acts: opts.append((.6, "Bulk"))
        if wstack and not children(wstack[-1]): opts.append((3, "End"))
        if "Drop" in acts and droppable: opts.append((1, "Drop"))
        if "Panic" in acts and len(wstack) > 1: opts.append((.3, "PanicAll"))
        if not lock and "Direct" in acts: opts += [(1.5, "Put"), (1, "Rem")]
        if not lock and "PutPanic" in acts: opts.append((.5, "PutPanic"))
        if waits and lock and not waiting and waited < waits: opts.append((3, "Wait"))
        if waits and not lock: opts.append((1, "Peek"))
        if not opts:
            break
        a = rng.choices([o for _, o in opts], [w for w, _ in opts])[0]
        ident = lambda: rng.randint(1, ni)
        if a == "Open":
            t = rng.choice(free); slots[t] = dict(st="idle", par=0, nctx=0, top=True)
            steps.append({"a": a, "t": t})
        elif a == "Sub":
            t = rng.choice(free); p = rng.choice(usable + [max(usable)])
            slots[t] = dict(st="idle", par=p, nctx=0, top=False)
            steps.append({"a": a, "t": t, "p": p})
        elif a == "Ctx":
            t = rng.choice(ctxable); slots[t]["st"] = "open"; slots[t]["nctx"] += 1
            steps.append({"a": a, "t": t})
        elif a == "Bulk":
            t = rng.choice(usable)
            steps.append({"a": a, "t": t, "c": rng.randint(1, slots[t]["nctx"]), "m": rng.choice([1, rng.randint(1, ni), ni]),
                          "n": rng.choice([rng.randint(ni + 1, 80), rng.randint(100, 1000), rng.randint(1000, 9000), 70000])})
        elif a in ("Save", "Del"):
            t = rng.choice(usable); c = rng.randint(1, slots[t]["nctx"])
            e = {"a": a, "t": t, "c": c, "id": ident()}
            if a == "Save":
                value += 1; e["v"] = value
            steps.append(e)
        elif a == "With":
            t = rng.choice(withable)
            linger = slots[t]["nctx"] > 0 and rng.random() < .4
            slots[t]["st"] = "run"; slots[t]["nctx"] = 1; wstack.append(t)
            steps.append({"a": a, "t": t, "linger": linger})
        elif a == "End":
            hows = ["ok"] * 4 + ["err", "noop"] * ("Err" in acts) + ["panic"] * ("Panic" in acts)
            t = wstack.pop(); kill(t)
            steps.append({"a": a, "t": t, "how": rng.choice(hows)})
        elif a == "Drop":
            t = rng.choice(droppable); kill(t)
            steps.append({"a": a, "t": t})
        elif a == "PanicAll":
            def doomed(t):
                while t:
                    if t in wstack: return True
                    t = slots[t]["par"]
                return False
            for t in [t for t in range(1, nt + 1) if slots[t]["st"] != "none" and doomed(t)]:
                kill(t)
            wstack = []
            steps.append({"a": a})
        elif a in ("Put", "PutPanic"):
            value += 1
            steps.append({"a": a, "id": ident(), "v": value})
        elif a == "Rem":
            steps.append({"a": a, "id": ident()})
        elif a in ("Wait", "Peek"):
            steps.append({"a": a, "k": rng.choice(["read", "write", "tx"])})
            if a == "Wait":
                waiting = True; waited += 1
        if holder() == 0:
            waiting = False
    return steps


def deeper(rng, nt, ni, fails):
    """Transactions within transactions, many of them, ended from the innermost outwards."""
    depth, value = rng.randint(nt // 2, nt), 100
    steps = [{"a": "Init", "g": [rng.choice([0, 1, 2, 3]) for _ in range(ni)], "nt": nt}]

    def ops(t, contexts):
        nonlocal value
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            value += 1
            e = {"a": rng.choice(["Save", "Del"]), "t": t, "c": rng.randint(1, contexts), "id": rng.randint(1, ni)}
            steps.append(dict(e, v=value) if e["a"] == "Save" else e)
    for t in range(1, depth + 1):
        steps.append({"a": "Open", "t": t} if t == 1 else {"a": "Sub", "t": t, "p": t - 1})
        steps.append({"a": "Ctx", "t": t})
        ops(t, 1)
    for t in range(depth, rng.choice([0, 0, 0, depth // 2]), -1):
        steps.append({"a": "With", "t": t, "linger": False})
        ops(t, 1)
        how = rng.choice(fails) if fails and rng.random() < .06 else "ok"
        steps.append({"a": "End", "t": t, "how": how})
        if t > 1:
            ops(t - 1, 1)
    return steps


def base(**kw):
    c = dict(NI=2, NV=12, NT=3, MaxCtx=1, MaxLog=3, MaxLen=8, Acts=set(), AnySlot=False, FreshVals=True, InitAll=False)
    c.update(kw)
    return c


FAIL = {"Err", "Panic", "Drop"}
EVERY = FAIL | {"Linger", "Direct", "PutPanic", "Bulk"}

PLAN = {
    # exhaustive configs per tier: list of (name, constants); mask; filter; simulation acts
    "C01": dict(
        mask={"g", "r"}, acts={"Linger", "Direct", "Err", "Bulk"},
        quick=[("flat", base(NT=1, MaxCtx=2, MaxLog=4, MaxLen=CLOSED, Acts={"Linger"})),
               ("nested", base(NT=2, MaxLog=3, MaxLen=10, Acts={"Linger"})),
               ("many", base(NT=2, NI=3, MaxLog=6, MaxLen=7, Acts={"Bulk"})),
               ("values", base(NT=1, NV=2, MaxLog=3, MaxLen=7, FreshVals=False, InitAll=True, Acts={"Direct"}))],
        thorough=[("flat", base(NT=1, MaxCtx=2, MaxLog=6, MaxLen=11, Acts={"Linger"})),
                  ("nested", base(NT=2, MaxLog=4, MaxLen=11, Acts={"Linger"})),
                  ("deep", base(NT=3, MaxLog=3, MaxLen=11, NI=1, Acts=set())),
                  ("three ids", base(NT=1, NI=3, MaxLog=5, MaxLen=9, Acts=set())),
                  ("values", base(NT=1, NV=2, MaxLog=4, MaxLen=8, FreshVals=False, InitAll=True, Acts={"Direct"}))]),
    "C02": dict(
        mask={"g", "r", "v"}, acts=EVERY, keep={"End:err", "End:noop", "End:panic", "Drop", "PanicAll", "PutPanic"},
        quick=[("flat", base(NT=1, MaxLog=3, MaxLen=9, Acts=FAIL | {"PutPanic"})),
               ("many", base(NT=2, NI=3, MaxLog=6, MaxLen=7, Acts={"Err", "Bulk"})),
               ("nested", base(NT=2, MaxLog=2, MaxLen=9, Acts=FAIL))],
        thorough=[("flat", base(NT=1, MaxLog=4, MaxLen=10, MaxCtx=2, Acts=EVERY)),
                  ("nested", base(NT=2, MaxLog=3, MaxLen=10, Acts=FAIL)),
                  ("deep", base(NT=3, NI=1, MaxLog=2, MaxLen=11, Acts=FAIL))]),
    "C03": dict(
        mask={"v", "r"}, acts=EVERY,
        quick=[("contexts", base(NT=1, MaxCtx=2, MaxLog=4, MaxLen=9, Acts=set())),
               ("nested", base(NT=3, MaxLog=2, MaxLen=9, Acts={"Err"})),
               ("many", base(NT=2, NI=3, MaxLog=6, MaxLen=7, Acts={"Bulk"})),
               ("values", base(NT=1, NV=2, MaxLog=3, MaxLen=7, FreshVals=False, InitAll=True))],
        thorough=[("contexts", base(NT=1, MaxCtx=2, MaxLog=6, MaxLen=10, Acts=set())),
                  ("nested", base(NT=3, MaxLog=3, MaxLen=10, Acts={"Err"})),
                  ("deep", base(NT=4, NI=1, MaxLog=2, MaxLen=12, Acts=set())),
                  ("values", base(NT=2, NV=2, MaxLog=3, MaxLen=8, FreshVals=False, InitAll=True))]),
    "C04": dict(
        mask={"v", "g", "r"}, acts=EVERY, keep={"Sub"},
        quick=[("siblings", base(NT=3, NI=1, MaxLog=2, MaxLen=10, Acts={"Err"})),
               ("two ids", base(NT=2, MaxLog=3, MaxLen=9, Acts={"Err", "Drop"}))],
        thorough=[("siblings", base(NT=3, NI=2, MaxLog=3, MaxLen=10, Acts={"Err"})),
                  ("deep", base(NT=4, NI=1, MaxLog=2, MaxLen=12, Acts=set())),
                  ("two ids", base(NT=2, MaxLog=4, MaxLen=10, Acts={"Err", "Drop", "Linger"}))]),
    "C05": dict(
        mask={"f", "g", "r", "w"}, acts=EVERY | {"Wait", "Peek"}, keep={"Wait", "Peek"}, waits=3,
        quick=[("one", base(NT=1, NI=1, MaxLog=2, MaxLen=CLOSED, Acts=FAIL | {"Wait", "Peek", "PutPanic"})),
               ("two", base(NT=2, NI=1, MaxLog=1, MaxLen=8, Acts=FAIL | {"Wait"}))],
        thorough=[("one", base(NT=1, NI=2, MaxLog=3, MaxLen=9, Acts=EVERY | {"Wait", "Peek"})),
                  ("two", base(NT=2, NI=1, MaxLog=2, MaxLen=9, Acts=FAIL | {"Wait", "Peek"}))]),
}


def wanted(names):
    if not names:
        return None

    def keep(test):
        for e in (test["h"] if isinstance(test, dict) else test):
            if e["a"] in names or "%s:%s" % (e["a"], e.get("how")) in names:
                return True
        return False
    return keep


def threads(binary, tier, rng, stats):
    """C05: threads that use one schema at the same time; Concurrency.tla, Atomic.tla."""
    deep = tier == "thorough"
    parties = {1, 2, 3}
    jobs = [(mbv.verify, stats, "Concurrency", "safety", dict(Parties=parties, NG=2, MaxOps=3 if deep else 2, MaxUpdates=3 if deep else 2),
             ["TypeOK", "Alone", "NeverTorn", "AtRest"], ["Refines"]),
            (mbv.verify, stats, "Concurrency", "liveness", dict(Parties=parties, NG=2 if deep else 1, MaxOps=1, MaxUpdates=2),
             ["TypeOK"], ["EveryoneGetsIn"], "FairSpec")]
    mbv.parallel(jobs)
    groups = 3
    shapes = [(4, 1, 100), (3, 3, 60), (6, 2, 5), (1, 6, 20)]
    if deep:
        shapes = shapes * 8
    programs = [[{"a": "Init", "groups": groups, "width": width, "readers": readers, "writers": writers,
                  "updates": 6000 if deep else 1500, "millis": 3000 if deep else 1200, "seed": rng.randrange(10**6)}]
                for readers, writers, width in shapes]
    return mbv.validate(stats, binary, "stress", "Atomic", programs, {"s"}, dict(NG=groups), shards=1)


def check(pid, tier, rng, stats):
    plan = PLAN[pid]
    binary = mbv.build("core")
    keep = wanted(plan.get("keep"))
    deep = tier == "thorough"
    jobs = [(mbv.model_check, stats, "Transactions", name, c, ALL, PROPS) for name, c in plan[tier]]
    sim = base(NT=4, NI=3, NV=60, MaxLog=30, MaxCtx=2, AnySlot=True, Acts=plan["acts"])
    depth = 45 if deep else 30
    jobs.append((mbv.simulate, stats, "Transactions", "random", sim, ALL[1:],
                 400 if deep else 60, depth, rng.randrange(1, 2**31)))
    results = mbv.parallel(jobs, 8)
    violations = []
    for tests in results:
        if pid == "C05" and not deep and len(tests) > 4000:
            # every waiting test costs wall time: keep all short ones and a sample of the long ones
            tests = [t for t in tests if keep(t)]
            tests = tests[:2500] + rng.sample(tests[2500:], min(1500, max(0, len(tests) - 2500)))
        violations += mbv.replay(stats, binary, "tx", "Transactions", tests, plan["mask"], keep)
    nt, ni = 7, 6
    programs = [program(rng, nt, ni, rng.choice([20, 60, 120] if not deep else [40, 120, 300]), plan["acts"],
                        plan.get("waits", 0)) for _ in range(600 if deep else 120)]
    violations += mbv.validate(stats, binary, "tx", "Transactions", programs, plan["mask"],
                               base(NT=nt, NI=ni, NV=10**6, MaxLog=10**6, MaxCtx=3, MaxLen=10**6, AnySlot=True,
                                    FreshVals=False), ALL)
    # transactions nested deeper
    fails = ["err", "noop"] * ("Err" in plan["acts"]) + ["panic"] * ("Panic" in plan["acts"])
    nested = [deeper(rng, 40, 3, fails) for _ in range(60 if deep else 8)]
    violations += mbv.validate(stats, binary, "tx", "Transactions", nested, plan["mask"],
                               base(NT=40, NI=3, NV=10**6, MaxLog=10**6, MaxCtx=3, MaxLen=10**6, AnySlot=True,
                                    FreshVals=False), ALL)
    if pid == "C05":
        violations += threads(binary, tier, rng, stats)
    return violations

"""C13: LazyDocuments.tla."""
import mbv
from mbv import CLOSED

INV = ["TypeOK"]
PROPS = ["Keeps", "NeverAbsent", "NeverAbsentLater", "OnDemand", "FailureForgotten", "LoadsByAnswer"]
ALL = {"Make", "Clone", "Drop", "Panic"}


def base(**kw):
    c = dict(NI=1, NV=2, NH=2, NT=2, MaxDepth=1, MaxLen=7, Acts=set(), AnySlot=False)
    c.update(kw)
    return c


PLAN = dict(
    quick=[("two threads", base(NT=2, NH=2, MaxLen=CLOSED, Acts={"Clone"})),
           ("three threads", base(NT=3, NH=1, NV=3, MaxLen=CLOSED)),
           ("all actions", base(NT=2, NH=2, NI=2, MaxLen=CLOSED, Acts=ALL)),
           ("within loads", base(NT=2, NH=2, NI=2, MaxDepth=2, MaxLen=CLOSED)),
           ("panics", base(NT=2, NH=2, MaxLen=CLOSED, Acts={"Panic", "Clone"}))],
    thorough=[("two threads", base(NT=2, NH=3, NV=2, MaxLen=CLOSED, Acts={"Clone"})),
              ("three threads", base(NT=3, NH=2, NI=1, NV=2, MaxLen=CLOSED, Acts={"Clone"})),
              ("four threads", base(NT=4, NH=1, NV=4, MaxLen=CLOSED)),
              ("all actions", base(NT=2, NH=3, NI=2, MaxLen=CLOSED, Acts=ALL)),
              ("within loads", base(NT=2, NH=3, NI=2, MaxDepth=3, MaxLen=CLOSED)),
              ("panics", base(NT=3, NH=2, MaxLen=CLOSED, Acts={"Panic", "Clone"}))])


def program(rng, ni, nv, nh, nt, length):
    """Random schedules; the bookkeeping only keeps the program well-formed."""
    steps = [{"a": "Init", "nh": nh, "nt": nt}]
    slots = {h: None for h in range(1, nh + 1)}      # None | loaded?
    stk = {t: [] for t in range(1, nt + 1)}
    # a repository that has nothing for a long while
    absent = rng.choice([0, 0, .5, .97])
    few = rng.random() < .4
    while len(steps) < length:
        live = [h for h in slots if slots[h] is not None]
        free = [h for h in slots if slots[h] is None]
        if few and live: free = []
        loading = {h for s in stk.values() for h in s}
        idle = [h for h in live if h not in loading]
        begins = [(t, h) for t in stk for h in live if h not in stk[t] and len(stk[t]) < 3]
        pending = [t for t in stk if stk[t]]
        opts = []
        if free: opts += [(2, "Build"), (.5, "Make")]
        if free and live: opts.append((1.5, "Clone"))
        if idle: opts += [(.05, "Drop"), (.05, "Race")] if few else [(1.5, "Drop"), (1.5, "Race")]
        if begins: opts.append((6, "Begin"))
        if pending: opts.append((5, "Answer"))
        a = rng.choices([o for _, o in opts], [w for w, _ in opts])[0]
        if a in ("Build", "Make"):
            h = rng.choice(free)
            e = {"a": a, "h": h, "id": rng.randint(1, ni)}
            slots[h] = a == "Make"
            if a == "Make": e["v"] = rng.randint(1, nv)
        elif a == "Clone":
            h, q = rng.choice(live), rng.choice(free)
            slots[q] = slots[h]
            e = {"a": a, "h": h, "q": q}
        elif a == "Drop":
            h = rng.choice(idle); slots[h] = None
            e = {"a": a, "h": h}
        elif a == "Race":
            h = rng.choice(idle); slots[h] = True
            e = {"a": a, "h": h, "n": rng.randint(2, 8)}
        elif a == "Begin":
            t, h = rng.choice(begins)
            if not slots[h]: stk[t].append(h)
            e = {"a": a, "t": t, "h": h}
        else:
            t = rng.choice(pending); v = 0 if rng.random() < absent else rng.randint(0, nv)
            h = stk[t].pop()
            if v: slots[h] = True
            e = {"a": a, "t": t, "v": v, "p": not v and rng.random() < .3}
        steps.append(e)
    return steps


def check(pid, tier, rng, stats):
    binary = mbv.build("core")
    deep = tier == "thorough"
    mask = {"d", "r", "ask"}
    jobs = [(mbv.model_check, stats, "LazyDocuments", name, c, INV, PROPS) for name, c in PLAN[tier]]
    sim = base(NI=3, NV=9, NH=5, NT=4, MaxDepth=3, Acts=ALL, AnySlot=True)
    jobs.append((mbv.simulate, stats, "LazyDocuments", "random", sim, INV, 300 if deep else 40, 35 if deep else 25,
                 rng.randrange(1, 2**31)))
    violations = []
    for tests in mbv.parallel(jobs, 8):
        violations += mbv.replay(stats, binary, "lazy", "LazyDocuments", tests, mask)
    programs = [program(rng, 4, 30, 8, 6, rng.choice([20, 60, 150])) for _ in range(600 if deep else 150)]
    violations += mbv.validate(stats, binary, "lazy", "LazyDocuments", programs, mask,
                               base(NI=4, NV=10**6, NH=8, NT=6, MaxDepth=3, MaxLen=10**6, AnySlot=True), ())
    return violations

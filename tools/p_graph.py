"""C11: Graphs.tla. C12: Proxies.tla."""
import mbv
from mbv import CLOSED


def gbase(**kw):
    c = dict(NI=3, NV=2, MaxIter=2, MaxLen=6, Acts=set())
    c.update(kw)
    return c


def pbase(**kw):
    c = dict(NI=2, NV=4, NP=2, MaxLen=6, Acts={"Drop"}, AnySlot=False)
    c.update(kw)
    return c


PLAN = {
    "C11": dict(
        quick=[("three ids", gbase()), ("long iterators", gbase(NI=2, NV=2, MaxIter=4, MaxLen=3)),
               ("two ids", gbase(NI=2, NV=3, MaxIter=3, MaxLen=8))],
        thorough=[("three ids", gbase(NI=3, NV=3, MaxIter=3, MaxLen=8)),
                  ("long iterators", gbase(NI=3, NV=2, MaxIter=5, MaxLen=2)),
                  ("five ids", gbase(NI=5, NV=2, MaxIter=1, MaxLen=12))]),
    "C12": dict(
        quick=[("one", pbase(NI=2, NV=5, NP=1, MaxLen=CLOSED)), ("two", pbase(NI=1, NV=3, NP=2, MaxLen=CLOSED)),
               ("two ids", pbase(NI=2, NV=2, NP=2, MaxLen=CLOSED))],
        thorough=[("one", pbase(NI=2, NV=5, NP=1, MaxLen=CLOSED)), ("two", pbase(NI=1, NV=4, NP=3, MaxLen=CLOSED)),
                  ("two ids", pbase(NI=2, NV=4, NP=2, MaxLen=CLOSED))]),
}


def graph_program(rng, ni, length):
    steps = [{"a": "Init", "ni": ni, "host": rng.choice(["graph", "schema"])}]
    value = 0
    while len(steps) < length:
        a = rng.choices(["Insert", "WithNode", "Remove", "FromIter"], [8, 2, 5, 1])[0]
        value += 1
        if a == "FromIter":
            n = rng.choice([0, 1, 5, 12, 40, 100, 400])
            among = rng.choice([1, 3, ni])
            steps.append({"a": a, "nodes": [[rng.randint(1, among), value + k] for k in range(n)]})
            value += n
        elif a == "Remove":
            steps.append({"a": a, "id": rng.randint(1, ni)})
        else:
            steps.append({"a": a, "id": rng.randint(1, ni), "v": value})
    return steps


def edges(v, ni):
    if v >= 19:
        return [7 * k % (ni + 1) + 1 for k in range(1, (v - 18) * 300 + 1)]
    return {1: [1], 2: [2, 1], 3: [1, v % ni + 1, 1], 4: [ni + 1, 1], 0: []}[v % 5]


def proxy_program(rng, ni, nv, np, length):
    kind = rng.choice(["graph", "ctx", "sub", "custom", "alias"])
    src = {i: rng.choice([0, 0] + list(range(1, nv + 1))) for i in range(1, ni + 1)}
    steps = [{"a": "Init", "ni": ni, "np": np, "kind": kind, "g": [src[i] for i in range(1, ni + 1)],
              "edges": [edges(v, ni) for v in range(1, nv + 1)]}]
    slots = {p: None for p in range(1, np + 1)}

    def resolve(p):
        if slots[p][1] == -1:
            slots[p][1] = src.get(slots[p][0], 0)
        return slots[p][1]

    while len(steps) < length:
        live = [p for p in slots if slots[p]]
        free = [p for p in slots if not slots[p]]
        opts = []
        if free: opts.append((3, "New"))
        if live: opts += [(3, "Deref"), (4, "Succ"), (2 if free else 1, "Drop")]
        if live and free: opts.append((2, "Clone"))
        if kind != "graph": opts.append((4, "Set"))
        if live and kind not in ("ctx", "sub"): opts.append((1, "Race"))
        a = rng.choices([o for _, o in opts], [w for w, _ in opts])[0]
        if a == "New":
            p, i = rng.choice(free), rng.randint(1, ni + 1)
            slots[p] = [i, -1]
            steps.append({"a": a, "p": p, "id": i})
        elif a == "Deref":
            p = rng.choice(live); resolve(p)
            steps.append({"a": a, "p": p})
        elif a == "Clone":
            p, q = rng.choice(live), rng.choice(free)
            slots[q] = list(slots[p])
            steps.append({"a": a, "p": p, "q": q})
        elif a == "Drop":
            p = rng.choice(live); slots[p] = None
            steps.append({"a": a, "p": p})
        elif a == "Race":
            fresh = [p for p in live if slots[p][1] == -1]
            p = rng.choice(fresh or live); i = slots[p][0]
            v = rng.choice([0] + list(range(1, nv + 1)))
            if kind == "graph" or i not in src: resolve(p)
            else:
                if slots[p][1] == -1: slots[p][1] = 0       # either of two: not known here
                src[i] = v
            steps.append({"a": a, "p": p, "n": rng.randint(2, 6), "v": v})
        elif a == "Succ":
            p = rng.choice(live); v = resolve(p)
            n = len(edges(v, ni)) if v else 0
            k = rng.randint(0, n) if free else 0
            q = rng.choice(free) if k else p
            if k: slots[q] = [edges(v, ni)[k - 1], -1]
            steps.append({"a": a, "p": p, "k": k, "q": q})
        else:
            i = rng.randint(1, ni); src[i] = rng.choice([0, 0] + list(range(1, nv + 1)))
            steps.append({"a": a, "id": i, "v": src[i]})
    return steps


def check(pid, tier, rng, stats):
    binary = mbv.build("core")
    deep = tier == "thorough"
    if pid == "C11":
        spec, inv, props, mask = "Graphs", ["TypeOK"], ["OneId", "HandsOut", "LastOfIterator"], {"g", "r"}
        sim = gbase(NI=4, NV=9, MaxIter=1)
        recorded = dict(gbase(NI=30, NV=10**6, MaxIter=0, MaxLen=10**6))
        programs = [graph_program(rng, 30, rng.choice([20, 80, 200])) for _ in range(600 if deep else 120)]
    else:
        spec, inv, props, mask = "Proxies", ["TypeOK"], ["Keeps", "FirstAnswer", "Lazy"], {"g", "p", "r"}
        sim = pbase(NI=4, NV=10, NP=5, AnySlot=True)
        recorded = dict(pbase(NI=6, NV=20, NP=8, MaxLen=10**6, AnySlot=True))
        programs = [proxy_program(rng, 6, 20, 8, rng.choice([20, 80, 200])) for _ in range(900 if deep else 200)]
    jobs = [(mbv.model_check, stats, spec, name, c, inv, props) for name, c in PLAN[pid][tier]]
    jobs.append((mbv.simulate, stats, spec, "random", sim, inv, 400 if deep else 80, 40 if deep else 25,
                 rng.randrange(1, 2**31)))
    violations = []
    for tests in mbv.parallel(jobs, 8):
        violations += mbv.replay(stats, binary, "graph", spec, tests, mask)
    violations += mbv.validate(stats, binary, "graph", spec, programs, mask, recorded, inv)
    return violations

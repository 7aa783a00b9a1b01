"""C16, C17: IntervalTree.tla."""
import mbv

MAPS = ["plain", "negative", "extreme", "edges", "char", "pair"]


def base(**kw):
    c = dict(NB=3, NT=1, MaxSize=4, MaxLen=9, Acts=set())
    c.update(kw)
    return c


INV = ["Refines", "Shape", "Exact"]
PLAN = {
    "quick": [("three bounds", base(MaxSize=4, MaxLen=7)), ("tags", base(NB=2, NT=2, MaxSize=3, MaxLen=7)),
              ("points and pairs", base(NB=2, NT=1, MaxSize=6, MaxLen=9))],
    "thorough": [("three bounds", base(MaxSize=6, MaxLen=10)), ("tags", base(NB=2, NT=2, MaxSize=6, MaxLen=9)),
                 ("four bounds", base(NB=4, MaxSize=5, MaxLen=8)),
                 ("points and pairs", base(NB=2, NT=1, MaxSize=9, MaxLen=13))],
}
ASSUMPTIONS = {p: ["intervals with lo > hi are outside the property and not explored"] for p in ("C16", "C17")}


def vary(tests, rng):
    """Chooses the type of the bounds and the function that inserts."""
    for t in tests:
        steps = t["h"] if isinstance(t, dict) else t
        steps[0]["map"] = rng.choice(MAPS)
        for s in steps[1:]:
            if s["a"] == "Insert" and rng.random() < .2:
                s["via"] = "with"
    return tests


def program(rng, nb, nt, size, length):
    steps = [{"a": "Init", "nb": nb, "map": rng.choice(MAPS)}]
    held = []
    kind = rng.choice(["any", "short", "same", "ascending", "descending"])

    def element():
        if kind == "same":
            lo = rng.choice([1, nb // 2, nb])
            return [lo, rng.randint(lo, nb), rng.randint(1, nt)]
        lo = rng.randint(1, nb)
        if kind == "ascending": lo = min(nb, 1 + len(steps) * nb // length)
        if kind == "descending": lo = max(1, nb - len(steps) * nb // length)
        hi = rng.randint(lo, min(nb, lo + (nb if kind == "any" or rng.random() < .2 else 2)))
        return [lo, hi, rng.randint(1, nt)]

    while len(steps) < length:
        a = rng.choices(["Insert", "Delete", "Query", "Look"],
                        [5 if len(held) < size else 0, 3 if len(held) < size else 9, 4, 1.5])[0]
        if a == "Insert":
            e = rng.choice(held) if held and rng.random() < .1 else element()
            held.append(e)
            steps.append({"a": a, "e": e})
        elif a == "Delete":
            if held and rng.random() < .85:
                e = held.pop(rng.randrange(len(held)))
            elif held:
                e = list(rng.choice(held))
                if rng.random() < .5: e[2] = rng.randint(1, nt)
                else: e[1] = rng.randint(e[0], nb)
                if e in held: held.remove(e)
            else:
                e = element()
            steps.append({"a": a, "e": e})
        elif a == "Query":
            lo = rng.randint(0, nb + 1)
            steps.append({"a": a, "lo": lo, "hi": rng.choice([lo, min(nb + 1, lo + 1), rng.randint(lo, nb + 1)])})
        else:
            steps.append({"a": a})
    return steps


def check(pid, tier, rng, stats):
    binary = mbv.build("interval")
    deep = tier == "thorough"
    mask = {"C16": {"q", "i"}, "C17": {"m"}}[pid]
    jobs = [(mbv.model_check, stats, "IntervalTree", name, c, INV, ["OneOccurrence"]) for name, c in PLAN[tier]]
    jobs += [(mbv.simulate, stats, "IntervalTree", "random", base(NB=5, NT=2, MaxSize=12), INV,
              500 if deep else 150, 40 if deep else 25, rng.randrange(1, 2**31)) for _ in range(4 if deep else 2)]
    violations = []
    for tests in mbv.parallel(jobs, 8):
        violations += mbv.replay(stats, binary, "tree", "IntervalTree", vary(tests, rng), mask)
    programs = [program(rng, 30, 3, rng.choice([4, 12, 40]), rng.choice([20, 60, 150]))
                for _ in range(800 if deep else 160)]
    # many elements at once, also inserted in order
    programs += [program(rng, 30, 3, 300, 700 if deep else 450) for _ in range(40 if deep else 6)]
    violations += mbv.validate(stats, binary, "tree", "IntervalTree", programs, mask,
                               base(NB=30, NT=3, MaxSize=10**6, MaxLen=10**6))
    return violations

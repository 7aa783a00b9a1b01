"""C18: Dates.tla."""
import mbv

KINDS = ["u8", "i64", "negative", "str", "reverse", "pair"]
INV = ["MostSignificantDecides", "Total", "EqualWhenSame", "Transitive"]


def base(**kw):
    c = dict(Lengths={0, 1, 2, 3, 4}, NV=2, MaxDates=2, MaxLen=9)
    c.update(kw)
    return c


PLAN = {
    "quick": [("pairs", base()), ("triples", base(Lengths={1, 2}, NV=3, MaxDates=3)),
              ("three components", base(Lengths={3}, NV=3))],
    "thorough": [("pairs", base(Lengths={0, 1, 2, 3, 4, 5}, NV=2)), ("triples", base(Lengths={0, 1, 2, 3}, NV=2, MaxDates=3)),
                 ("wide triples", base(Lengths={1, 2}, NV=4, MaxDates=3)), ("four components", base(Lengths={4}, NV=3)),
                 ("three components", base(Lengths={3}, NV=5)), ("quadruples", base(Lengths={2}, NV=3, MaxDates=4))],
}


def vary(tests, rng):
    for t in tests:
        steps = t["h"] if isinstance(t, dict) else t
        two = max([v for s in steps[1:] for v in s["d"]], default=1) <= 2
        steps[0]["kind"] = rng.choice(KINDS + (["bool"] if two else []))
    return tests


def program(rng, length):
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 3, 4, 5, 6, 7, 8, 9, 12, 17])
    steps = [{"a": "Init", "endian": rng.choice(["big", "little"]), "n": n, "kind": rng.choice(KINDS)}]
    seen = []
    while len(steps) < length:
        if seen and rng.random() < .5 and n:
            d = list(rng.choice(seen))
            for _ in range(rng.choice([0, 1, 1, 2])):
                k = rng.randrange(n)
                d[k] = max(1, min(99, d[k] + rng.choice([-1, 1, 5])))
        else:
            d = [rng.randint(1, 99) for _ in range(n)]
        seen.append(d)
        steps.append({"a": "Add", "d": d})
    return steps


def check(pid, tier, rng, stats):
    binary = mbv.build("interval")
    deep = tier == "thorough"
    mask = {"c", "s", "p", "b"}
    jobs = [(mbv.model_check, stats, "Dates", name, c, INV, []) for name, c in PLAN[tier]]
    violations = []
    for tests in mbv.parallel(jobs, 8):
        violations += mbv.replay(stats, binary, "date", "Dates", vary(tests, rng), mask)
    programs = [program(rng, rng.choice([4, 8, 12])) for _ in range(800 if deep else 150)]
    violations += mbv.validate(stats, binary, "date", "Dates", programs, mask,
                               base(Lengths=set(range(18)), NV=99, MaxDates=99, MaxLen=10**6), INV)
    return violations

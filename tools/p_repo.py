"""C14 and C15: Repository.tla."""
import mbv
from mbv import CLOSED

INV = ["TypeOK", "OneToOne", "ListedIsFound"]
PROPS = ["OnlyThatId", "FailuresChangeNothing", "DeleteSucceeds", "ListsGraph", "FilesUntouched"]


def base(pool, **kw):
    c = dict(Pool=pool, MaxLen=5, NC=2, Acts=set())
    c.update(kw)
    return c


PLAN = {
    "C14": dict(
        quick=[("dots", base("dots", MaxLen=4, NC=2, Acts={"Mkdir"})), ("others", base("others", MaxLen=CLOSED, NC=1)),
               ("dirs", base("dirs", MaxLen=CLOSED, NC=1)), ("dotted", base("dotted", MaxLen=4)),
               ("plus", base("plus", MaxLen=CLOSED)), ("star", base("star", MaxLen=CLOSED, NC=1)), ("bracket", base("bracket", MaxLen=CLOSED, NC=1)),
               ("either", base("either", MaxLen=CLOSED, NC=1)), ("empty", base("empty", MaxLen=CLOSED)),
               ("leading dot", base("leading", MaxLen=CLOSED)), ("sizes", base("one", MaxLen=CLOSED, NC=5)),
               ("contexts", base("session", MaxLen=CLOSED, NC=4, Acts={"Contexts", "Remove", "Rename"})),
               ("ignored", base("session", MaxLen=CLOSED, NC=1, Acts={"Ignore"})), ("alike", base("alike", MaxLen=CLOSED, NC=1)),
               ("escaped", base("escaped", MaxLen=CLOSED, NC=1)),
               ("no files", base("dirs", MaxLen=3, NC=1, Acts={"Special", "Remove"})),
               ("many", base("one", MaxLen=CLOSED, NC=1, Acts={"Fill"}))],
        thorough=[("dots", base("dots", MaxLen=CLOSED, NC=2, Acts={"Mkdir"})),
                  ("others", base("others", MaxLen=6, NC=2)),
                  ("dirs", base("dirs", MaxLen=8, NC=1, Acts={"Remove", "Ignore"})),
                  ("dotted", base("dotted", MaxLen=CLOSED)),
                  ("plus", base("plus", MaxLen=CLOSED, Acts={"Contexts"})), ("star", base("star", MaxLen=CLOSED)),
                  ("bracket", base("bracket", MaxLen=CLOSED)), ("either", base("either", MaxLen=CLOSED)),
                  ("empty", base("empty", MaxLen=CLOSED)),
                  ("leading dot", base("leading", MaxLen=CLOSED)), ("alike", base("alike", MaxLen=7, NC=2)), ("escaped", base("escaped", MaxLen=CLOSED, NC=1, Acts={"Remove", "Rename"})), ("sizes", base("one", MaxLen=CLOSED, NC=5, Acts={"Rename", "Remove"})),
                  ("contexts", base("session", MaxLen=CLOSED, NC=4, Acts={"Contexts", "Remove", "Rename"})),
                  ("ignored", base("session", MaxLen=CLOSED, NC=1, Acts={"Ignore"})),
                  ("no files", base("dirs", MaxLen=5, NC=1, Acts={"Special", "Remove"})),
                  ("many", base("one", MaxLen=CLOSED, NC=2, Acts={"Fill"}))]),
    "C15": dict(
        quick=[("commands", base("one", MaxLen=CLOSED, NC=2, Acts={"Session", "Remove"})),
               ("more ids", base("session", MaxLen=5, NC=1, Acts={"Session"})),
               ("contents", base("one", MaxLen=4, NC=4, Acts={"Session"})),
               ("program", base("session", MaxLen=CLOSED, NC=1, Acts={"Prog", "Contexts"})),
               ("program with dots", base("dots", MaxLen=CLOSED, NC=1, Acts={"Prog"})),
               ("many", base("one", MaxLen=CLOSED, NC=1, Acts={"Fill", "Session"})),
               ("program and extension", base("leading", MaxLen=CLOSED, NC=1, Acts={"Prog"}))],
        thorough=[("commands", base("one", MaxLen=CLOSED, NC=2, Acts={"Session", "Remove", "Rename"})),
                  ("more ids", base("session", MaxLen=CLOSED, NC=1, Acts={"Session", "Remove"})),
                  ("contents", base("one", MaxLen=CLOSED, NC=4, Acts={"Session"})),
                  ("program", base("session", MaxLen=CLOSED, NC=2, Acts={"Prog", "Contexts"})),
                  ("program with dots", base("dots", MaxLen=CLOSED, NC=1, Acts={"Prog"})),
                  ("many", base("one", MaxLen=CLOSED, NC=1, Acts={"Fill", "Session"})),
               ("program and extension", base("leading", MaxLen=CLOSED, NC=1, Acts={"Prog"}))]),
}


def path(*names):
    return [list(n) for n in names]


def strip(p, ext):
    n = p[-1]
    if len(n) > len(ext) and n[-len(ext):] == ext and n[:-len(ext)] != [""]:
        return p[:-1] + [n[:-len(ext)]]
    return None


DIRS = ["d", "e", "a"] * 4 + ["target", "node_modules", "build", "vendor", "tmp", "trash", "CVS", "doc"]


def config(rng, files):
    """A random directory universe."""
    ext = rng.choice([["md"]] * 4 + [["txt"], ["tar", "gz"], ["c++"], ["m?d"], ["^md"], [""], ["(m)d"], ["", "md"]])
    parts = ["a", "b", "A", "a b", "md", "c", "\u00e9", "x-y", "", "raw", "1", " a", "a ", "e\u0301", "'", "-a", "n\nl", "md\nx"] + [ext[0] or "z"]
    if rng.random() < .5:      # names that are easily mixed up
        parts = rng.choice([["a", "A", "B", "b"], ["a", " a", "a "], ["\u00e9", "e\u0301", "e", "\u00c9"], ["a", "a b", "b"],
                            ["a", "a'", "'"], ["x-y", "x_y", "xy", "x"], ["1", "01", "10", "2"], ["a", "md", ""],
                            ["a", "n\nl", "l", "n"], ["\ufeffa", "a", "a\u200b"], ["a", "a\\", "\\a", "aa", "aaa"],
                            ["[a]", "a", "*", "?"], ["a%20b", "a b", "a+b", "%"], ["~", "a~", "~a", "#a#", "a"], ["$a", "{a,b}", "!a", "a"],
                            ["README", "LICENSE", "index", "mod", "main"], ["con", "a:b", "a|b", "a<b>"], ["_a", "a", "__a", "@a"],
                            ["a" * 80, "a" * 79 + "b", "a" * 79], ["\U0001f600", "\U0001f601", "\u4e2d", "\u65e5"], ["\t", "a\t", "a", "\x01"]])

    def name(hidden):
        while True:
            n = ([""] if rng.random() < hidden else []) + [rng.choice(parts) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
            if rng.random() < .7:
                n += ext
            if rng.random() < .1:
                n += rng.choice([["bak"], ["md"], ["MD"], ["mdx"]])
            if n[0] == "" and (len(n) == 1 or hidden == 0 or n[1] == ""):
                continue
            return n
    dirs, pool = [[]], []
    for _ in range(rng.randint(0, 5)):
        d = rng.choice(dirs) + [name(.1) if rng.random() < .5 else [rng.choice(DIRS)]]
        if d not in pool and len(d) < 5:
            dirs.append(d); pool.append(d)
    if rng.random() < .25:
        d = rng.choice(dirs)
        for _ in range(rng.randint(5, 20)):
            d = d + [name(.02) if rng.random() < .3 else [rng.choice(["d", "e", "a"])]]
            if d not in pool:
                dirs.append(d); pool.append(d)
        files += len(pool)
        dirs += [d] * len(dirs)
    while len(pool) < files:
        p = rng.choice(dirs) + [name(.08)]
        if p not in pool:
            pool.append(p)
    ids = []
    for p in pool:
        for i in (p, strip(p, ext)):
            if i is not None and i not in ids:
                ids.append(i)
    rng.shuffle(ids)
    dirs = [d for k, d in enumerate(dirs) if d not in dirs[:k]]
    return {"pool": pool, "ids": ids, "ext": ext, "ctx": rng.choice(["abs", "slash", "dot", "rel", "hidden", "up", "link"])}, dirs[1:]


def program(rng, length, acts):
    cfg, dirs = config(rng, rng.randint(3, 14))
    pool, ids, ext = cfg["pool"], cfg["ids"], cfg["ext"]
    steps = [{"a": "Init", "cfg": cfg}]
    at = {k: 0 for k in range(1, len(pool) + 1)}
    where = {repr(p): k for k, p in enumerate(pool, 1)}
    sess, ign, bulk = False, set(), 0
    # what can be given as an id on a command line
    plain = [j for j, i in enumerate(ids, 1) if not any("raw" in n for n in i) and not i[0][0].startswith("-")]

    def parent_ok(k):
        p = pool[k - 1]
        return len(p) == 1 or at[where[repr(p[:-1])]] == 9

    def leaf(k):
        return all(at[m] == 0 or m == k or pool[m - 1][:-1] != pool[k - 1] for m in at)

    while len(steps) < length:
        opts = []
        mk = [k for k in at if at[k] == 0 and parent_ok(k) and pool[k - 1] in dirs]
        wr = [k for k in at if at[k] < 6 and parent_ok(k) and (pool[k - 1] not in dirs or rng.random() < .1)]
        rm = [k for k in at if at[k] != 0 and leaf(k)]
        mv = [k for k in at if 0 < at[k] < 6]
        ig = [k for k in at if len(pool[k - 1]) == 1 and repr(pool[k - 1][0]) not in ign and "raw" not in pool[k - 1][0]
              and not any(c in ".".join(pool[k - 1][0]) for c in "?*[!# \\\n{}\t\ufeff")]
        sp = [k for k in at if at[k] == 0 and parent_ok(k)]
        if sp: opts.append((.7, "Special"))
        if bulk < 1500: opts.append((.06, "Fill"))
        if mk: opts.append((5, "Mkdir"))
        if wr: opts.append((8, "Write"))
        if rm: opts.append((1, "Remove"))
        if mv and wr: opts.append((1, "Rename"))
        if ig: opts.append((.3, "Ignore"))
        if "Session" in acts:
            opts.append((1.5 if sess else 3, "Start"))
            if sess:
                opts += [(3, "List"), (1, "NoId")]
                if plain: opts += [(3, "Save"), (4, "Delete"), (4, "Read")]
        if "Prog" in acts: opts.append((1.5, "Prog"))
        a = rng.choices([o for _, o in opts], [w for w, _ in opts])[0]
        if a == "Mkdir":
            k = rng.choice(mk); at[k] = 9; e = {"a": a, "k": k}
        elif a == "Write":
            k = rng.choice(wr); c = rng.choice([c for c in (1, 2, 3, 4) if c != at[k]] + [5] * (rng.random() < .02 and at[k] != 5)); at[k] = c
            e = {"a": a, "k": k, "c": c}
        elif a == "Remove":
            k = rng.choice(rm); at[k] = 0; e = {"a": a, "k": k}
        elif a == "Rename":
            k, m = rng.choice(mv), rng.choice(wr)
            if k == m: continue
            at[m], at[k] = at[k], 0
            e = {"a": a, "k": k, "m": m}
        elif a == "Ignore":
            k = rng.choice(ig); ign.add(repr(pool[k - 1][0]))
            e = {"a": a, "k": k, "how": rng.choice([".ignore", ".gitignore", "exclude"] + ["parent"] * (steps[0]["cfg"]["ctx"] == "abs"))}
        elif a == "Special":
            k = rng.choice(sp); at[k] = rng.choice([6, 7, 8, 10]); e = {"a": a, "k": k, "c": at[k]}
        elif a == "Fill":
            bulk = rng.choice([n for n in (3, 70, 600, 1500) if n > bulk]); e = {"a": a, "n": bulk}
        elif a == "Start":
            sess = True; e = {"a": a}
        elif a == "List":
            e = {"a": a}
        elif a == "NoId":
            e = {"a": a, "cmd": rng.choice(["save", "delete"])}
        elif a == "Save":
            e = {"a": a, "j": rng.choice(plain), "c": rng.randint(1, 3)}
        elif a in ("Delete", "Read"):
            e = {"a": a, "j": rng.choice(plain)}
        else:
            cmd = rng.choice(["list", "list", "save", "delete"])
            j = 0 if cmd == "list" or not plain or rng.random() < .1 else rng.choice(plain)
            e = {"a": a, "cmd": cmd, "j": j, "c": rng.randint(1, 3) if cmd == "save" else 0}
        steps.append(e)
    return steps


def check(pid, tier, rng, stats):
    binary = mbv.build("cli")
    deep = tier == "thorough"
    if pid == "C14":
        mask, acts = {"l", "b", "f", "n"}, {"Remove", "Rename", "Mkdir", "Contexts", "Ignore", "Special"}
    else:
        mask, acts = {"r", "g", "gn", "out", "outn", "exit", "why"}, {"Remove", "Rename", "Mkdir", "Contexts", "Session", "Prog"}
    jobs = [(mbv.model_check, stats, "Repository", name, c, INV, PROPS) for name, c in PLAN[pid][tier]]
    jobs.append((mbv.simulate, stats, "Repository", "random", base("big", NC=4, Acts=acts), INV[:1],
                 60 if deep else 8, 30 if deep else 20, rng.randrange(1, 2**31)))
    violations = []
    for tests in mbv.parallel(jobs, 8):
        violations += mbv.replay(stats, binary, "repo", "Repository", tests, mask)
    programs = [program(rng, rng.choice([15, 30, 60]), acts) for _ in range(500 if deep else 120)]
    violations += mbv.validate(stats, binary, "repo", "Repository", programs, mask,
                               base("one", NC=4, MaxLen=10**6), ())
    return violations

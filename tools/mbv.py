"""Common machinery: builds the drivers from /repo's working tree, runs TLC, replays behaviours of the
specifications into the real code and validates recordings of the real code against the specifications.

Outcomes are exit 0, exit 1 with a VIOLATION line, and exit 2 for anything that is neither (a tool that
does not work); see main() in check.py."""

import concurrent.futures
import fcntl
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class ToolError(Exception):
    pass


CLOSED = 60  # a bound on the length of histories that no history reaches: the state space is finite without it


def log(*args):
    print(*args, flush=True)


# ---------------------------------------------------------------------------------------------
# scratch space

_scratch = None
_scratch_lock = threading.Lock()


def scratch():
    global _scratch
    with _scratch_lock:
        if _scratch is None:
            os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
            _scratch = tempfile.mkdtemp(prefix="run-", dir=os.path.join(BUILD, "tmp"))
        return _scratch


_outside = None


def outside():
    """A scratch directory that is not below a git repository (whose ignore files would apply to it)."""
    global _outside
    with _scratch_lock:
        if _outside is None:
            _outside = tempfile.mkdtemp(prefix="plotline-verif-",
                                        dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")
        return _outside


def cleanup():
    for path in (_scratch, _outside):
        if path:
            shutil.rmtree(path, ignore_errors=True)


_names = iter(range(10**9))
_names_lock = threading.Lock()


def fresh(suffix):
    with _names_lock:
        n = next(_names)
    return os.path.join(scratch(), "%04d%s" % (n, suffix))


# ---------------------------------------------------------------------------------------------
# building

def build(crate):
    """Builds harness/<crate> against /repo's working tree and returns the path of its binary."""
    target = os.path.join(BUILD, crate)
    os.makedirs(target, exist_ok=True)
    env = dict(os.environ)
    env.update(
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_TARGET_DIR=target,
        RUSTC_WRAPPER="",
        RUSTFLAGS="--cfg plotline_verif" if crate == "index" else "",
    )
    with open(os.path.join(BUILD, crate + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        proc = subprocess.run(
            ["cargo", "build", "--offline", "--quiet"],
            cwd=os.path.join(VERIF, "harness", crate),
            env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
        )
    if proc.returncode != 0:
        raise ToolError("building harness/%s failed:\n%s" % (crate, proc.stdout[-6000:]))
    return os.path.join(target, "debug", crate + "-driver")


# ---------------------------------------------------------------------------------------------
# TLC

def tla(value):
    if isinstance(value, bool):
        return "TRUE" if value else "FALSE"
    if isinstance(value, int):
        return str(value)
    if isinstance(value, str):
        return '"%s"' % value
    if isinstance(value, (set, frozenset)):
        return "{%s}" % ", ".join(sorted(tla(v) for v in value))
    raise TypeError(value)


class Stats:
    """Counts accumulated over a check."""

    def __init__(self):
        self.lock = threading.Lock()
        self.states = 0          # distinct states found by TLC
        self.transitions = 0     # transitions generated by TLC
        self.tests = 0           # behaviours of a specification replayed into the code
        self.steps = 0           # steps of those
        self.recorded = 0        # executions of the code accepted by a specification
        self.events = 0          # events of those
        self.samples = []
        self.runs = []
        self.actions = {}

    def add(self, **kw):
        with self.lock:
            for k, v in kw.items():
                setattr(self, k, getattr(self, k) + v)

    def count(self, histories):
        with self.lock:
            for h in histories:
                for e in h:
                    self.actions[e.get("a", "?")] = self.actions.get(e.get("a", "?"), 0) + 1


def write_cfg(path, spec, constants, invariants=(), properties=(), extra=""):
    with open(path, "w") as f:
        f.write("SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec)
        if constants:
            f.write("CONSTANTS\n")
            for k, v in constants.items():
                f.write("  %s = %s\n" % (k, tla(v)))
        if invariants:
            f.write("INVARIANTS %s\n" % " ".join(invariants))
        if properties:
            f.write("PROPERTIES %s\n" % " ".join(properties))
        f.write(extra)


def tlc(module, cfg, args=(), env=None, timeout=840, heap="3g", workers=1):
    meta = fresh(".meta")
    cmd = ["java", "-Djava.io.tmpdir=" + scratch(), "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", JARS, "tlc2.TLC",
           "-noTE", "-workers", str(workers), "-metadir", meta, "-config", cfg] + list(args)
    cmd.append(os.path.join(SPEC, module + ".tla"))
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    out = fresh(".out")
    try:
        with open(out, "w") as f:
            proc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=scratch(), timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    shutil.rmtree(meta, ignore_errors=True)
    return proc.returncode, out


def tail(path, n=40):
    with open(path, errors="replace") as f:
        lines = [l for l in f if not l.startswith('"@')]
    return "".join(lines[-n:])


def tlc_counts(out):
    """(generated, distinct) reported by TLC."""
    generated = distinct = 0
    with open(out, errors="replace") as f:
        for line in f:
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                generated, distinct = int(m.group(1)), int(m.group(2))
            m = re.match(r"The number of states generated: (\d+)", line)
            if m:
                generated = int(m.group(1))
    return generated, distinct


def emitted(out, tag):
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"@' + tag):
                yield json.loads(json.loads(line)[2:])


def model_check(stats, module, name, constants, invariants, properties, view="core", spec="BSpec", timeout=840):
    """Exhaustive bounded check; returns one test per transition of the state graph."""
    cfg = fresh(".cfg")
    write_cfg(cfg, spec, dict(constants, Mode="test"), invariants, properties,
              "VIEW %s\nACTION_CONSTRAINT Emit\n" % view)
    started = time.time()
    rc, out = tlc(module, cfg, timeout=timeout)
    if rc != 0:
        raise ToolError("TLC does not accept %s (%s):\n%s" % (module, name, tail(out)))
    tests = list(emitted(out, "T"))
    generated, distinct = tlc_counts(out)
    depth = re.search(r"The depth of the complete state graph search is (\d+)", tail(out, 10**6))
    os.remove(out)
    stats.add(states=distinct, transitions=generated)
    # If no state is as far away as the bound allows, the bound does not cut anything off: every transition
    # of the model is among the tests, and what holds holds after histories of any length.
    closed = bool(depth) and int(depth.group(1)) < constants["MaxLen"]
    stats.runs.append({"kind": "model checking", "spec": module, "config": name, "constants": show(constants),
                       "distinct_states": distinct, "transitions": generated, "tests": len(tests), "closed": closed,
                       "wall_s": round(time.time() - started, 1)})
    if not tests:
        raise ToolError("%s (%s) generated no tests" % (module, name))
    return tests


def verify(stats, module, name, constants, invariants, properties, spec="Spec", timeout=840):
    """Exhaustive bounded check of a specification from which no tests are drawn."""
    cfg = fresh(".cfg")
    write_cfg(cfg, spec, constants, invariants, properties)
    started = time.time()
    rc, out = tlc(module, cfg, timeout=timeout)
    if rc != 0:
        raise ToolError("TLC does not accept %s (%s):\n%s" % (module, name, tail(out)))
    generated, distinct = tlc_counts(out)
    os.remove(out)
    stats.add(states=distinct, transitions=generated)
    stats.runs.append({"kind": "model checking", "spec": module, "config": name, "constants": show(constants),
                       "distinct_states": distinct, "transitions": generated,
                       "wall_s": round(time.time() - started, 1)})


def simulate(stats, module, name, constants, invariants, num, depth, seed, spec="BSpec", timeout=840):
    """Random behaviours of a specification beyond the exhaustive bounds."""
    cfg = fresh(".cfg")
    write_cfg(cfg, spec, dict(constants, Mode="sim", MaxLen=depth), list(invariants) + ["EmitSim"])
    started = time.time()
    rc, out = tlc(module, cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(seed)],
                  timeout=timeout)
    if rc != 0:
        raise ToolError("TLC -simulate fails on %s (%s):\n%s" % (module, name, tail(out)))
    behaviours = list(emitted(out, "S"))
    generated, _ = tlc_counts(out)
    os.remove(out)
    seen, unique = set(), []
    for b in behaviours:
        key = json.dumps(b, sort_keys=True)
        if key not in seen:
            seen.add(key)
            unique.append(b)
    stats.add(transitions=sum(len(b) for b in unique))
    stats.runs.append({"kind": "simulation", "spec": module, "config": name, "constants": show(constants),
                       "behaviours": len(unique), "depth": depth, "wall_s": round(time.time() - started, 1)})
    if not unique:
        raise ToolError("%s (%s) generated no behaviours: %s" % (module, name, tail(out)))
    return unique


def show(constants):
    return {k: sorted(v) if isinstance(v, (set, frozenset)) else v for k, v in constants.items()}


# ---------------------------------------------------------------------------------------------
# running drivers

_hangs = []     # a hang costs half a minute: a few of them are enough


def run_driver(binary, module, lines, mask, record=False, timeout=800):
    """Runs scenarios; survives crashes and hangs of the code under test. Returns (reports, outputs,
    done, steps) where reports describe differences and outputs are the recorded executions."""
    reports, outputs, done, steps = [], [], 0, 0
    start = 0
    while start < len(lines) and len(_hangs) < 3:
        path = fresh(".ndjson")
        with open(path, "w") as f:
            f.write("\n".join(lines[start:]) + "\n")
        cmd = [binary, module, path, ",".join(sorted(mask))] + (["--record"] if record else [])
        errpath = fresh(".err")
        with open(errpath, "wb") as err:
            try:
                proc = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=err, timeout=timeout, cwd=scratch(),
                                      env=dict(os.environ, PLOTLINE_SCRATCH=outside(),
                                               RUST_BACKTRACE="0", RUST_LIB_BACKTRACE="0"))
            except subprocess.TimeoutExpired:
                raise ToolError("driver %s timed out" % module)
        with open(errpath, "rb") as f:
            err = f.read()
        os.remove(errpath)
        os.remove(path)
        finished = False
        for line in proc.stdout.decode(errors="replace").split("\n"):
            if line.startswith("@M"):
                rep = json.loads(line[2:])
                rep["scenario"] += start
                reports.append(rep)
            elif line.startswith("@D"):
                d = json.loads(line[2:])
                finished = True
                done += d["scenarios"]
                steps += d["steps"]
            elif line.startswith("@H"):
                rep = json.loads(line[2:])
                reports.append({"scenario": rep["scenario"] + start, "what": "hang"})
                _hangs.append(rep)
            elif record and line.startswith("["):
                outputs.append(json.loads(line))
        if finished:
            if proc.returncode != 0:
                raise ToolError("driver %s: exit %d after finishing" % (module, proc.returncode))
            break
        marks = re.findall(rb"(?m)^(\d+)$", err)
        if not marks:
            raise ToolError("driver %s failed before its first scenario: %s" % (module, err[-2000:]))
        current = int(marks[-1]) + start
        if b"HARNESS" in err[-3000:]:
            raise ToolError("driver %s: %s" % (module, err[-2000:]))
        if not any(r["scenario"] == current and r["what"] == "hang" for r in reports):
            reports.append({"scenario": current, "what": "crash", "exit": proc.returncode,
                            "stderr": err[-400:].decode(errors="replace")})
        done += current - start + 1
        start = current + 1
        if sum(r["what"] in ("crash", "hang") for r in reports) >= 5:
            break
    for r in reports:
        if "HARNESS" in json.dumps(r):
            raise ToolError("driver %s misbehaved: %s" % (module, json.dumps(r)[:2000]))
    return reports, outputs, done, steps


def parallel(jobs, workers=CORES):
    with concurrent.futures.ThreadPoolExecutor(workers) as pool:
        return [f.result() for f in [pool.submit(*job) for job in jobs]]


class Violation:
    def __init__(self, kind, spec, scenario, report):
        self.kind, self.spec, self.scenario, self.report = kind, spec, scenario, report

    def as_dict(self):
        return {"kind": self.kind, "spec": self.spec, "scenario": self.scenario, "difference": self.report}


def replay(stats, binary, module, spec, tests, mask, keep=None, shards=CORES):
    """Replays behaviours of the specification into the code, returns violations."""
    if keep:
        tests = [t for t in tests if keep(t)]
    if not tests:
        raise ToolError("no behaviours of %s to replay" % spec)
    lines = [json.dumps(t) for t in tests]
    stats.count([t["h"] if isinstance(t, dict) else t for t in tests])
    size = (len(lines) + shards - 1) // shards
    chunks = [(k, lines[k:k + size]) for k in range(0, len(lines), size)]
    started = time.time()
    results = parallel([(run_driver, binary, module, chunk, mask) for _, chunk in chunks])
    if os.environ.get("MBV_VERBOSE"):
        log("replayed %d behaviours of %s in %.1f s" % (len(tests), spec, time.time() - started))
    violations = []
    for (base, _), (reports, _, done, steps) in zip(chunks, results):
        stats.add(tests=done, steps=steps)
        for r in reports:
            violations.append(Violation("spec->code", spec, tests[base + r["scenario"]], r))
    sample = tests[len(tests) // 2]
    stats.samples.append({"from": spec, "replayed": sample})
    return violations


def validate(stats, binary, module, spec, programs, mask, constants, invariants=(), timeout=840, shards=4):
    """Performs programs on the code, records them and lets TLC decide whether the recording is a
    behaviour of the specification."""
    stats.count(programs)
    size = (len(programs) + shards - 1) // shards
    chunks = [programs[k:k + size] for k in range(0, len(programs), size)]

    def one(chunk):
        reports, outputs, done, _ = run_driver(binary, module, [json.dumps(p) for p in chunk], mask, record=True)
        violations = [Violation("code->spec", spec, chunk[r["scenario"]], r) for r in reports]
        events, index, texts = [], [], []
        for n, out in enumerate(outputs):
            bad = [e for e in out if "unexpected" in e]
            out = [e for e in out if "truncated" not in e or e in bad]
            if bad:
                if "HARNESS" in json.dumps(bad):
                    raise ToolError("driver misbehaved: %s" % json.dumps(bad)[:2000])
                violations.append(Violation("code->spec", spec, out, {"what": "unexpected", "event": bad[0]}))
                continue
            for k, e in enumerate(out):
                events.append(e)
                index.append((n, k))
        while events:
            path = fresh(".trace")
            with open(path, "w") as f:
                for e in events:
                    f.write(json.dumps(e) + "\n")
            cfg = fresh(".cfg")
            write_cfg(cfg, "TraceSpec", dict(constants, Mode="trace", Mask=frozenset(mask)), invariants, extra=
                      "VIEW TraceView\nPOSTCONDITION TraceAccepted\n")
            rc, out = tlc(spec + "Trace", cfg, env={"TRACE": path}, timeout=timeout)
            os.remove(path)
            textout = tail(out, 10**6)
            os.remove(out)
            if rc == 0:
                stats.add(events=len(events), recorded=len({n for n, _ in index}))
                break
            m = re.search(r"The depth of the complete state graph search is (\d+)", textout)
            # a comparison of unlike values (a driver's description of a contradiction) rejects, too
            if not m or not ("TraceAccepted" in textout or "Attempted to" in textout):
                raise ToolError("trace validation of %s broke down:\n%s" % (spec, textout[-3000:]))
            at = int(m.group(1)) - 1
            n, k = index[at]
            violations.append(Violation("code->spec", spec, outputs[n][:k + 1], {
                "what": "rejected", "event": events[at], "step": k}))
            # check the rest
            rest = [j for j in range(len(events)) if index[j][0] > n]
            stats.add(events=at, recorded=len({i for i, _ in index[:at]}) - 1)
            events = [events[j] for j in rest]
            index = [index[j] for j in rest]
            if len(violations) >= 5:
                break
        if outputs:
            stats.samples.append({"from": spec + "Trace", "recorded": outputs[len(outputs) // 2][:12]})
        return violations

    out = []
    for vs in parallel([(one, c) for c in chunks], workers=shards):
        out.extend(vs)
    return out

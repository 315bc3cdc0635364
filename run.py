#!/usr/bin/env python3
"""Builds the simulator against /repo and runs checks with it.

    run.py check C01 [--tier quick|thorough]   decides a property (VERIF_SEED, VERIF_TIER)
    run.py replay FILE                         repeats a recorded violation
    run.py build                               builds the simulator
    run.py selftest                            shows that runs are repeatable
"""
import fcntl
import glob
import hashlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
CRATES = ["deser", "deser-derive", "deser-json", "deser-path", "deser-debug"]
JOBS = max(1, len(os.sched_getaffinity(0)))

# The limits of a single run: the time of the processor without any progress, and the time
# on the clock (for the case that nobody runs at all).
HANG_CPU_S = 25
HANG_WALL_S = 120

FAULTS = {
    "callback_error": "a callback of a sink, emitter or serializable fails before or after its work",
    "callback_panic": "a callback (or a comparison, hash or default function) panics",
    "alloc_failure": "a heap allocation of the code under test fails and unwinds",
    "cancellation": "the driver is dropped in the middle of the session",
    "relocation": "the driver is moved in memory between two events",
    "use_after_failure": "an operation on the driver after it failed or was abandoned",
    "loss": "an entry, event or byte gets lost",
    "duplication": "an entry, event or byte arrives twice",
    "reorder": "entries, events or bytes arrive in another order",
    "insertion": "unknown entries, events or bytes arrive",
    "replacement": "something else arrives in the place of an entry, event or number",
    "bit_flip": "a bit of the document is flipped",
    "truncation": "the document ends early",
    "write_error": "the writer fails, and all later writes with it",
    "transient_write_error": "one write fails, later ones work",
    "short_write": "the writer runs full in the middle of a write",
    "writer_panic": "the writer panics",
    "reentrancy": "another session (or formatting) is executed in the middle of a callback",
}

RULES = {
    "C01": "a run draws a type, a document (perhaps damaged), layers and one fault with its place; it counts if the fault fired or the session failed",
    "C02": "a run draws a type, a document (perhaps damaged), layers and one fault with its place; it counts if the fault fired or the session failed",
    "C03": "a run draws a value, layers and one fault with its place; it counts if the fault fired",
    "C04": "a run draws a value and layers, and perhaps the place of a callback failure; it counts if there is more than one event",
    "C05": "a run draws a type and a document (perhaps changed), and perhaps the place of a callback failure; it counts if there is more than one event or the failure fired",
    "C06": "a run draws a type, a document (perhaps damaged) and one fault; it counts if the session did not come to a good end",
    "C07": "a run draws a document and damages its text; it counts if more than three bytes are left or the text is malformed",
    "C08": "a run draws a value and a way to transport it; it counts if the value takes more than two events",
    "C09": "a run draws a value or document and perhaps a failure; it counts if there are more than two events",
    "C10": "a run draws a value or document and perhaps a failure; it counts if there are more than two events",
    "C11": "a run draws a kind of nesting, a depth and one fault; all count",
    "C12": "a run draws a value, a format and writers with troubles; it counts if a writer failed",
    "C13": "a run draws up to four sessions with faults and how they are interleaved; all count",
    "C14": "a run draws a document and loses, repeats, reorders, replaces or inserts parts of it; all count",
    "C15": "a run draws a value and one fault; it counts if there is more than one event or the fault fired",
    "C16": "a run draws a type, a stream and a kind of trouble, and executes it with n and 4n items; it counts if both came to the expected end",
}

# The number of simulated runs; the wall clock limits are for slow machines only.
QUICK = {
    "C01": 300_000, "C02": 300_000, "C03": 300_000, "C04": 250_000, "C05": 250_000,
    "C06": 300_000, "C07": 300_000, "C08": 250_000, "C09": 225_000, "C10": 225_000,
    "C11": 30_000, "C12": 100_000, "C13": 75_000, "C14": 300_000, "C15": 250_000, "C16": 45_000,
}
QUICK_WALL_S = 120
THOROUGH_FACTOR = 20
THOROUGH_WALL_S = 1500

# The optional number formatting of the JSON writer is a build of its own.
VARIANTS = {"C08": ["plain", "speedups"], "C15": ["plain", "speedups"]}

REAL = [
    "deser (drivers, sinks, emitters, all provided types)",
    "deser-derive (the derive macros, compiled into the types of the catalog)",
    "deser-json (reader and writer)",
    "deser-path (path tracking)",
    "deser-debug (debug formatting)",
]
STUB = [
    "the global allocator (counts, tracks and fails allocations on request)",
    "getrandom (seeded, decides the order of standard hash maps)",
    "the scheduler of the sessions (threads are parked and released one at a time)",
    "user code: values, sinks, emitters and writers of the harness",
    "the link: documents are delivered, damaged and lost by the simulator",
]


class HarnessError(Exception):
    pass


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST"))}
    e.update(
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        RUSTC_BOOTSTRAP="1",
        CARGO_HOME=os.environ.get("CARGO_HOME", "/root/.cargo"),
        CARGO_NET_OFFLINE="true",
        RUSTFLAGS="-Zsanitizer=address",
        HOME=os.environ.get("HOME", "/root"),
    )
    for k in ("RUSTUP_HOME",):
        if k in os.environ:
            e[k] = os.environ[k]
    return e


def sim_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = (
        "detect_leaks=0:abort_on_error=0:exitcode=86:handle_abort=0:symbolize=0:"
        "quarantine_size_mb=48:malloc_context_size=0:allocator_may_return_null=0"
    )
    e["RUST_BACKTRACE"] = "0"
    return e


def source_hash(variant):
    """A hash over everything that is compiled."""
    h = hashlib.sha256(variant.encode())
    files = []
    for crate in CRATES:
        for root, dirs, names in os.walk(os.path.join(REPO, crate)):
            dirs[:] = sorted(d for d in dirs if d not in ("target", "tests", "benches", ".git"))
            files += [os.path.join(root, n) for n in names]
    files += [os.path.join(REPO, "Cargo.toml")]
    for root, dirs, names in os.walk(os.path.join(HERE, "sim")):
        dirs[:] = sorted(d for d in dirs if d != "target")
        files += [os.path.join(root, n) for n in names]
    for f in sorted(files):
        try:
            with open(f, "rb") as fh:
                data = fh.read()
        except OSError:
            continue
        h.update(f.encode() + b"\0" + str(len(data)).encode() + b"\0" + data)
    return h.hexdigest()[:16]


def build(variant):
    """Returns the path of the simulator for the current tree."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock-" + variant), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        digest = source_hash(variant)
        out = os.path.join(TARGET, "%s-%s" % (variant, digest))
        exe = os.path.join(out, TRIPLE, "debug", "sim")
        stamp = os.path.join(out, ".complete")
        if os.path.exists(stamp) and os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(TARGET, variant + "-*")):
            shutil.rmtree(old, ignore_errors=True)
        cmd = ["cargo", "build", "--offline", "--locked", "--target", TRIPLE, "--target-dir", out]
        if variant == "speedups":
            cmd += ["--features", "speedups"]
        rv = subprocess.run(
            cmd, cwd=os.path.join(HERE, "sim"), env=env(),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        )
        if rv.returncode != 0:
            sys.stderr.write(rv.stdout.decode("utf-8", "replace")[-6000:])
            raise HarnessError("the simulator can't be built")
        with open(stamp, "w"):
            pass
        return exe


# ---------------------------------------------------------------- processes

def cpu_time(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            fields = f.read().rsplit(")", 1)[1].split()
        return (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return None


def limits(cpu):
    def apply():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
    return apply


def describe_death(code, stderr):
    """The class of the violation for a process which died, with a message."""
    text = stderr.decode("utf-8", "replace")
    if "SIM-ABORT memory" in text:
        return "memory-runaway", "more and more memory is allocated"
    if "stack-overflow" in text:
        return "stack-overflow", "the stack overflowed"
    for line in text.splitlines():
        if "ERROR: AddressSanitizer" in line:
            what = line.split("AddressSanitizer:", 1)[1].strip().split(" on ")[0].split(" (")[0]
            return "memory-error", "AddressSanitizer: " + what
        if "has overflowed its stack" in line:
            return "stack-overflow", "the stack overflowed"
    if code in (-signal.SIGXCPU, -signal.SIGKILL):
        return "hang", "the run does not come to an end"
    if "harness panic" in text and code == 101:
        return None, text.strip()[-500:]
    if code < 0:
        return "crash", "killed by signal %d" % -code
    tail = [x for x in text.strip().splitlines() if x][-3:]
    return "crash", "ended with code %d: %s" % (code, " / ".join(tail)[:400])


def run_one(exe, prop, seed=None, run=None, choices=None, trace=False, record=None, cpu=HANG_CPU_S):
    """One run in a fresh process: (class or None, message, details)."""
    tmp = None
    cmd = [exe, "one", "--prop", prop]
    if choices is not None:
        fd, tmp = tempfile.mkstemp(prefix="sim-choices-")
        with os.fdopen(fd, "w") as f:
            f.write("\n".join(map(str, choices)))
        cmd += ["--choices", tmp]
    else:
        cmd += ["--seed", str(seed), "--run", str(run)]
    if trace:
        cmd.append("--trace")
    if record:
        cmd += ["--record", record]
    try:
        try:
            p = subprocess.run(
                cmd, env=sim_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                preexec_fn=limits(cpu), timeout=HANG_WALL_S,
            )
            code, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            return "hang", "the run does not come to an end", {}
    finally:
        if tmp:
            os.unlink(tmp)
    if code == 0:
        d = json.loads(out)
        v = d["violation"]
        return (v["class"] if v else None), (v["message"] if v else ""), d
    cls, msg = describe_death(code, err)
    if cls is None:
        raise HarnessError(msg)
    return cls, msg, {}


def same_class(a, b):
    dead = {"crash", "memory-error"}
    return a == b or (a in dead and b in dead)


# ---------------------------------------------------------------- batches

class Worker:
    def __init__(self, exe, prop, seed, first, step, end, millis, tmp, tag):
        self.first, self.step, self.end = first, step, end
        self.base = os.path.join(tmp, "%s-%d" % (tag, first))
        self.prop, self.seed = prop, seed
        self.out = open(self.base + ".out", "wb+")
        self.err = open(self.base + ".err", "wb+")
        cmd = [exe, "chunk", "--prop", prop, "--seed", str(seed), "--first", str(first),
               "--step", str(step), "--end", str(end), "--millis", str(millis),
               "--progress", self.base + ".pos", "--sigs", self.base + ".sigs"]
        self.p = subprocess.Popen(cmd, env=sim_env(), stdout=self.out, stderr=self.err,
                                  preexec_fn=limits(None))
        self.seen = None
        self.seen_cpu = 0.0
        self.seen_wall = time.time()
        self.hung = False

    def position(self):
        try:
            with open(self.base + ".pos") as f:
                return int(f.read() or self.first)
        except (OSError, ValueError):
            return self.first

    def watch(self):
        """True while it is running."""
        if self.p.poll() is not None:
            return False
        pos = self.position()
        cpu = cpu_time(self.p.pid)
        if pos != self.seen:
            self.seen, self.seen_cpu, self.seen_wall = pos, cpu or 0.0, time.time()
        elif (cpu or 0.0) - self.seen_cpu > HANG_CPU_S or time.time() - self.seen_wall > HANG_WALL_S:
            self.hung = True
            self.p.kill()
            self.p.wait()
            return False
        return True

    def result(self):
        self.p.wait()
        self.out.seek(0)
        self.err.seek(0)
        out, err = self.out.read(), self.err.read()
        self.out.close()
        self.err.close()
        if self.hung:
            return {"dead": ("hang", "the run does not come to an end"), "run": self.position()}
        if self.p.returncode == 0:
            return json.loads(out)
        cls, msg = describe_death(self.p.returncode, err)
        if cls is None:
            raise HarnessError(msg)
        return {"dead": (cls, msg), "run": self.position()}


def batch(exe, prop, seed, start, end, wall, tmp, tag):
    """Distributes the runs over processes."""
    workers = [Worker(exe, prop, seed, start + k, JOBS, end, int(wall * 1000), tmp, tag)
               for k in range(JOBS) if start + k < end]
    active = list(workers)
    failed = False
    while active:
        time.sleep(0.02)
        still = []
        for w in active:
            if w.watch():
                still.append(w)
            elif w.hung or w.p.returncode != 0:
                failed = True
        active = still
    total = {"runs": 0, "nontrivial": 0, "steps": 0, "counters": {}, "samples": [], "hash": 0}
    sigs = set()
    bad = []
    for w in workers:
        r = w.result()
        if "dead" in r:
            bad.append((r["run"], r["dead"][0], r["dead"][1], w.first))
            total["runs"] += (r["run"] - w.first) // w.step + 1
            continue
        total["runs"] += r["runs"]
        total["nontrivial"] += r["nontrivial"]
        total["steps"] += r["steps"]
        total["hash"] ^= int(r["hash"], 16)
        total["samples"] += r["samples"]
        for k, v in r["counters"].items():
            total["counters"][k] = total["counters"].get(k, 0) + v
        try:
            with open(w.base + ".sigs", "rb") as f:
                data = f.read()
            sigs.update(data[i:i + 8] for i in range(0, len(data), 8))
        except OSError:
            pass
        if r["violation"]:
            v = r["violation"]
            bad.append((v["run"], v["class"], v["message"], w.first))
    return total, sigs, sorted(bad)


# ---------------------------------------------------------------- minimisation

def minimise(exe, prop, cls, choices, budget_s):
    """Shortens and simplifies the choices as long as the violation is of the same class."""
    from concurrent.futures import ThreadPoolExecutor
    deadline = time.time() + budget_s
    cpu = 6 if cls == "hang" else HANG_CPU_S
    tried = 0

    def fails(c):
        try:
            got, _, _ = run_one(exe, prop, choices=c, cpu=cpu)
        except HarnessError:
            return False
        return got is not None and same_class(got, cls)

    def first_failing(pool, candidates):
        nonlocal tried
        for i in range(0, len(candidates), JOBS):
            if time.time() > deadline:
                return None
            group = candidates[i:i + JOBS]
            tried += len(group)
            for c, bad in zip(group, pool.map(fails, group)):
                if bad:
                    return c
        return None

    with ThreadPoolExecutor(JOBS) as pool:
        best = list(choices)
        while best and best[-1] == 0:
            best.pop()
        # a shorter beginning, with zeros after it
        while best and time.time() < deadline:
            n = len(best)
            cuts = sorted({n * k // 8 for k in range(8)})
            c = first_failing(pool, [best[:k] for k in cuts if k < n])
            if c is None:
                break
            best = c
        changed = True
        while changed and time.time() < deadline:
            changed = False
            size = max(1, len(best) // 2)
            while size >= 1 and time.time() < deadline:
                at = 0
                while at < len(best) and time.time() < deadline:
                    group = [p for p in range(at, len(best), size)][:JOBS]
                    cands = []
                    for p in group:
                        cands.append(best[:p] + best[p + size:])
                    for p in group:
                        if any(best[p:p + size]):
                            cands.append(best[:p] + [0] * len(best[p:p + size]) + best[p + size:])
                    c = first_failing(pool, cands)
                    if c is not None:
                        best = c
                        changed = True
                        while best and best[-1] == 0:
                            best.pop()
                    else:
                        at += size * JOBS
                size //= 2
            # smaller numbers
            for i in range(len(best)):
                if time.time() > deadline:
                    break
                v = best[i] if i < len(best) else 0
                if v > 1:
                    c = first_failing(pool, [best[:i] + [x] + best[i + 1:] for x in sorted({1, v // 2, v - 1})])
                    if c is not None:
                        best = c
                        changed = True
    return best, tried


def record_choices(exe, prop, seed, run, tmp):
    path = os.path.join(tmp, "record")
    cls, msg, d = run_one(exe, prop, seed=seed, run=run, record=path)
    if d:
        return cls, msg, d["choices"]
    with open(path) as f:
        return cls, msg, [int(x) for x in f.read().split("\n")[:-1]]


# ---------------------------------------------------------------- known findings

def known_findings(prop):
    """The open findings: lines `finding: property=<id> replay=<file> <what fails>`."""
    rv = []
    try:
        with open(os.path.join(HERE, "known-findings.txt")) as f:
            for line in f:
                if line.startswith("finding: property=%s " % prop):
                    rv.append(line[len("finding: "):].strip())
    except OSError:
        pass
    return rv


# ---------------------------------------------------------------- commands

def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    variants = VARIANTS.get(prop, ["plain"])
    runs = QUICK[prop] * (THOROUGH_FACTOR if tier == "thorough" else 1)
    wall = THOROUGH_WALL_S if tier == "thorough" else QUICK_WALL_S
    print("property %s, tier %s, seed %d" % (prop, tier, seed), flush=True)
    exes = [(v, build(v)) for v in variants]
    built = time.time()
    total = {"runs": 0, "nontrivial": 0, "steps": 0, "counters": {}, "samples": []}
    sigs = set()
    found = None
    ranges = []
    with tempfile.TemporaryDirectory(prefix="sim-") as tmp:
        for i, (variant, exe) in enumerate(exes):
            start, end = runs * i // len(exes), runs * (i + 1) // len(exes)
            r, s, bad = batch(exe, prop, seed, start, end, wall / len(exes), tmp, variant)
            for k in ("runs", "nontrivial", "steps"):
                total[k] += r[k]
            for k, v in r["counters"].items():
                total["counters"][k] = total["counters"].get(k, 0) + v
            total["samples"] += r["samples"]
            sigs |= s
            ranges.append("%s: %d of %d runs from index %d" % (variant, r["runs"], end - start, start))
            if bad:
                found = (variant, exe, bad)
                break
        simulated = time.time()
        violations = 0
        line = None
        if found:
            violations = 1
            line = report(prop, seed, found, tmp, tier)
        for text in known_findings(prop):
            print("KNOWN-FINDING: " + text)
    wall_s = time.time() - t0
    sim_s = max(simulated - built, 1e-3)
    faults = {k[6:]: v for k, v in sorted(total["counters"].items()) if k.startswith("fault.")}
    reach = {k: v for k, v in sorted(total["counters"].items()) if not k.startswith("fault.")}
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total["runs"],
            "distinct_nontrivial": len(sigs),
            "rule": RULES[prop] + "; distinct means that the hash over all draws that matter, "
                    "callbacks, events and object lives of the run is different",
            "samples": total["samples"][:8] or ["(none: the batch was too small)"],
            "nontrivial_runs": total["nontrivial"],
            "runs_per_hour": int(total["runs"] / sim_s * 3600),
            "seeds_per_hour": int(total["runs"] / sim_s * 3600),
            "run_indices": ranges,
            "simulated_steps": total["steps"],
            "simulated_time": "there is no clock in the code under test: time is counted in "
                              "steps (callbacks at which the scheduler and the fault plan decide)",
            "faults_injected": faults,
            "fault_kinds": {k: FAULTS.get(k, "") for k in faults},
            "reached": reach,
            "real_components": REAL,
            "stubbed_components": STUB,
            "processes": JOBS,
            "build_s": round(built - t0, 1),
            "simulation_s": round(sim_s, 1),
        },
        "assumptions": [
            "types are drawn from the catalog of the harness; documents are small except in C11",
            "memory errors are those AddressSanitizer and the object ledger can see",
        ],
        "wall_s": round(wall_s, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write("\n")
    print("%d runs, %d distinct, %d steps in %.1f s (build %.1f s)"
          % (total["runs"], len(sigs), total["steps"], sim_s, built - t0))
    if line:
        print(line, flush=True)
        return 1
    if total["runs"] == 0:
        raise HarnessError("nothing was simulated")
    return 0


def report(prop, seed, found, tmp, tier):
    """Confirms, minimises and writes the violation; returns the line."""
    variant, exe, bad = found
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for run, cls, msg, first in bad:
        got, gmsg, choices = record_choices(exe, prop, seed, run, tmp)
        if got is not None:
            break
    else:
        # It needs the runs before it in the same process (corrupted memory, for example).
        run, cls, msg, first = bad[0]
        replay = {"property": prop, "seed": seed, "variant": variant, "class": cls, "message": msg,
                  "batch": {"first": first, "step": JOBS, "end": run + 1}}
        path = os.path.join(HERE, "replays", "%s-%d-%d.json" % (prop, seed, run))
        with open(path, "w") as f:
            json.dump(replay, f, indent=1)
        print("%s: %s (only after the runs before it)" % (cls, msg[:600]))
        return "VIOLATION property=%s replay=%s" % (prop, path)
    print("run %d of seed %d (%s): %s: %s" % (run, seed, variant, got, gmsg[:600]), flush=True)
    best, tried = minimise(exe, prop, got, choices, 120 if tier == "thorough" else 40)
    fcls, fmsg, d = run_one(exe, prop, choices=best, trace=True)
    if fcls is None or not same_class(fcls, got):
        best = choices
        fcls, fmsg, d = run_one(exe, prop, choices=best, trace=True)
    replay = {
        "property": prop,
        "seed": seed,
        "run": run,
        "variant": variant,
        "class": fcls,
        "message": fmsg,
        "hash": d.get("hash"),
        "choices": best,
        "choices_before": len(choices),
        "tried": tried,
        "trace": d.get("trace", [])[:2000],
    }
    path = os.path.join(HERE, "replays", "%s-%d-%d.json" % (prop, seed, run))
    with open(path, "w") as f:
        json.dump(replay, f, indent=1)
    print("minimised from %d to %d choices with %d executions" % (len(choices), len(best), tried))
    for t in replay["trace"][-25:]:
        print("   | " + t[:200])
    print("%s: %s" % (fcls, fmsg[:1000]))
    print("repeat it with: ./run.py replay %s" % path)
    return "VIOLATION property=%s replay=%s" % (prop, path)


def replay(path):
    with open(path) as f:
        r = json.load(f)
    exe = build(r["variant"])
    if "batch" in r:
        b = r["batch"]
        with tempfile.TemporaryDirectory(prefix="sim-") as tmp:
            w = Worker(exe, r["property"], r["seed"], b["first"], b["step"], b["end"], 10 ** 9, tmp, "replay")
            while w.watch():
                time.sleep(0.02)
            res = w.result()
        cls = res["dead"][0] if "dead" in res else (res["violation"] or {}).get("class")
        msg, d = "", {}
    else:
        cls, msg, d = run_one(exe, r["property"], choices=r["choices"], trace=True)
    for t in d.get("trace", []):
        print("   | " + t[:300])
    if cls is None:
        print("the violation does not occur (any more)")
        return 0
    print("%s: %s" % (cls, msg[:2000]))
    if r.get("hash") and d.get("hash"):
        print("the execution is %s one which was recorded" % ("exactly the" if r["hash"] == d["hash"] else "NOT the"))
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1


def selftest():
    """Every property: the same seed gives the same executions, whoever runs them."""
    global JOBS
    exe = build("plain")
    seeds = [int(x) for x in os.environ.get("SELFTEST_SEEDS", "1 2 3").split()]
    runs = int(os.environ.get("SELFTEST_RUNS", "1500"))
    bad = 0
    for prop in sorted(QUICK):
        n = runs if prop not in ("C11", "C13", "C12") else runs // 4
        for seed in seeds:
            hashes = []
            for jobs in (1, 3, 8, 8):
                JOBS = jobs
                with tempfile.TemporaryDirectory(prefix="sim-") as tmp:
                    r, s, v = batch(exe, prop, seed, 0, n, 600, tmp, "self")
                    hashes.append((r["runs"], r["steps"], len(s), hash(frozenset(s)), tuple(sorted(r["counters"].items())), len(v)))
            ok = len(set(hashes)) == 1
            bad += not ok
            print("%s seed %d: %d runs, %d steps, four executions with 1, 3, 8 and 8 processes: %s"
                  % (prop, seed, hashes[0][0], hashes[0][1], "identical" if ok else "DIFFERENT"), flush=True)
    return 2 if bad else 0


def main():
    args = sys.argv[1:]
    try:
        if args[:1] == ["check"]:
            tier = os.environ.get("VERIF_TIER", "quick")
            if "--tier" in args:
                tier = args[args.index("--tier") + 1]
            return check(args[1], "thorough" if tier == "thorough" else "quick")
        if args[:1] == ["replay"]:
            return replay(args[1])
        if args[:1] == ["build"]:
            for v in args[1:] or ["plain", "speedups"]:
                print(build(v))
            return 0
        if args[:1] == ["selftest"]:
            return selftest()
    except HarnessError as e:
        print("harness error: %s" % e, file=sys.stderr)
        return 3
    print(__doc__)
    return 3


if __name__ == "__main__":
    sys.exit(main())

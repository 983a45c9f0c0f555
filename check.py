#!/usr/bin/env python3
"""Run the monitors of one property against the library in /repo.

usage: check.py <property id> [--tier quick|thorough]

Rebuilds the monitored library from /repo's working tree in every
configuration the property needs, runs the workload under the monitors,
merges what they observed into evidence/<id>.json.

exit 0: no violation observed; 1: violation (VIOLATION line); 2: no answer.
"""
import json, os, re, resource, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, ".build")
TARGET = "x86_64-unknown-linux-gnu"
T0 = time.time()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- builds

class Build:
    def __init__(self, name, cargo, flags="", subdir="debug", env=None, memlimit=True, miri=False, run_env=None):
        self.name, self.cargo, self.flags, self.subdir = name, cargo, flags, subdir
        self.env, self.memlimit, self.miri, self.run_env = env or {}, memlimit, miri, run_env or {}

    def dir(self):
        return os.path.join(BUILD, self.name)

    def environ(self):
        e = dict(os.environ)
        for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "MIRIFLAGS", "MIRI_SYSROOT"):
            e.pop(k, None)
        e["CARGO_TARGET_DIR"] = self.dir()
        e["CARGO_TERM_COLOR"] = "never"
        if self.flags:
            e["RUSTFLAGS"] = self.flags
        e.update(self.env)
        return e

    def binary(self):
        return os.path.join(self.dir(), self.subdir, "monitor")

    def build(self):
        t = time.time()
        p = subprocess.run(self.cargo, cwd=HARNESS, env=self.environ(), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=800)
        self.seconds = time.time() - t
        if p.returncode != 0:
            self.error = p.stdout
            return False
        self.error = None
        return True


SAN = ["cargo", "+nightly", "build", "--offline", "--target", TARGET]
STD = SAN + ["-Zbuild-std"]
BUILDS = {
    # debug assertions: overflow checks and the precondition checks of unchecked accesses
    "default": Build("default", ["cargo", "build", "--offline"]),
    # the AVX code paths, optimised
    "avx": Build("avx", ["cargo", "build", "--release", "--offline", "--target", TARGET], "-C target-feature=+avx",
                 TARGET + "/release"),
    "asan": Build("asan", SAN, "-Zsanitizer=address --cfg only_c01", TARGET + "/debug", memlimit=False,
                  run_env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1"}),
    "asan-avx": Build("asan-avx", SAN, "-Zsanitizer=address -C target-feature=+avx --cfg only_c01", TARGET + "/debug", memlimit=False,
                      run_env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1"}),
    "tsan": Build("tsan", STD, "-Zsanitizer=thread --cfg only_c01", TARGET + "/debug", memlimit=False,
                  run_env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1"}),
    "msan": Build("msan", STD, "-Zsanitizer=memory -Zsanitizer-memory-track-origins -C target-feature=+avx --cfg monitor_msan --cfg only_c01",
                  TARGET + "/debug", memlimit=False, run_env={"MSAN_OPTIONS": "exitcode=77"}),
    "miri-avx": Build("miri-avx", ["cargo", "+nightly", "miri", "run", "--offline", "--", "noop"], "-C target-feature=+avx --cfg only_c01",
                      miri=True, memlimit=False, env={"XDG_CACHE_HOME": os.path.join(BUILD, "cache"), "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-tree-borrows"}),
    "miri": Build("miri", ["cargo", "+nightly", "miri", "run", "--offline", "--", "noop"], "--cfg only_c01",
                  miri=True, memlimit=False, env={"XDG_CACHE_HOME": os.path.join(BUILD, "cache"), "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-tree-borrows"}),
}


# ---------------------------------------------- numbers named in the sources

NUM = re.compile(r"(?<![\w.])(\d[\d_]*\.?\d*(?:[eE][-+]?\d+)?)(?:_?(?:f32|f64|usize|u8|u16|u32|u64|i32|i64))?(?![\w])")


def literals():
    """(all numbers outside tables, every number) in the sources under test"""
    prose, every = set(), set()
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith(".rs"):
                continue
            for line in open(os.path.join(root, f), errors="replace"):
                code = line.split("//")[0]
                found = []
                for m in NUM.finditer(code):
                    try:
                        text = m.group(1).replace("_", "").rstrip(".")
                        every.add(float(text))
                        # measured data carries many digits, thresholds do not
                        if len(re.sub(r"^0+|[eE].*", "", text.replace(".", ""))) <= 7:
                            found.append(float(text))
                    except ValueError:
                        pass
                # a line of a data table is mostly digits
                letters = len(re.findall(r"[A-Za-z]", code))
                if found and (letters >= 3 or len(found) <= 1 and not re.match(r"^\s*[\d.,\-\s]+$", code)):
                    prose.update(found)
    return prose, every


def write_dict(path):
    prose, every = literals()
    base = set()
    try:
        base = {float(x) for x in open(os.path.join(HERE, "golden", "literals.txt")).read().split()}
    except OSError:
        pass
    novel = sorted(every - base)[:400]
    with open(path, "w") as f:
        for v in novel:
            f.write("n %r\n" % v)
        for v in sorted(prose):
            f.write("a %r\n" % v)
    return len(novel), len(prose)


# --------------------------------------------------------------------- runs

def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def no_core():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Run:
    """One monitored process."""

    def __init__(self, build, prop, tier, seed, scale, budget, threads, part="", tag="", hard=None, miri_seed=None):
        self.b, self.prop, self.tier, self.seed = build, prop, tier, seed
        self.scale, self.budget, self.threads, self.part = scale, budget, threads, part
        self.tag = build.name + ("-" + tag if tag else "")
        self.hard = hard or budget + 300
        self.miri_seed = miri_seed
        self.report = None
        self.violations = []
        self.problem = None

    def run(self, scratch):
        out = os.path.join(scratch, self.tag + ".json")
        for f in (out, out + ".crumb"):
            if os.path.exists(f):
                os.remove(f)
        env = self.b.environ()
        env.update(self.b.run_env)
        env["MONITOR_PART"] = self.part
        env["RUST_BACKTRACE"] = "0"
        args = [self.prop, "--tier", self.tier, "--seed", str(self.seed), "--build", self.b.name, "--out", out,
                "--dict", os.path.join(scratch, "dict.txt"), "--budget", str(self.budget),
                "--threads", str(self.threads), "--scale", str(self.scale)]
        if self.b.miri:
            cmd = self.b.cargo[:-1] + args
            if self.miri_seed is not None:
                env["MIRIFLAGS"] += " -Zmiri-seed=%d" % self.miri_seed
        else:
            cmd = [self.b.binary()] + args
        self.cmd = " ".join(cmd)
        t = time.time()
        err = open(os.path.join(scratch, self.tag + ".err"), "w+", errors="replace")
        p = subprocess.Popen(cmd, cwd=HARNESS if self.b.miri else scratch, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err,
                             preexec_fn=limit_memory if self.b.memlimit else no_core, start_new_session=True)
        hung = False
        try:
            rc = p.wait(timeout=self.hard)
        except subprocess.TimeoutExpired:
            hung = True
            os.killpg(p.pid, signal.SIGKILL)
            rc = p.wait()
        self.seconds = time.time() - t
        err.seek(0)
        text = err.read()
        err.close()
        crumb = ""
        try:
            crumb = open(out + ".crumb", errors="replace").read().strip()
        except OSError:
            pass
        try:
            self.report = json.load(open(out))
            self.violations = list(self.report["violations"])
        except (OSError, ValueError):
            pass
        if hung:
            if self.b.miri:
                self.problem = "Miri run %s exceeded %ds" % (self.tag, self.hard)
            else:
                self.violations.append({"sig": "hang", "detail": "no progress for %d s; last call: %s" % (self.hard, crumb)})
        elif rc in (0, 1) and self.report is not None and (rc == 1) == bool(self.report["violations"]):
            pass
        elif self.b.miri and "Undefined Behavior" in text or self.b.miri and re.search(r"error: .*(abnormal|abort|data race|deadlock)", text, re.I):
            i = text.find("Undefined Behavior")
            self.violations.append({"sig": "miri", "detail": text[max(0, i - 20):i + 1500] if i >= 0 else text[-1500:]})
        elif self.b.miri:
            self.problem = "Miri gave no verdict (%s): %s" % (rc, text[-1500:])
        elif rc == 77 or "Sanitizer" in text and ("ERROR" in text or "WARNING" in text):
            i = max(text.find("ERROR: "), text.find("WARNING: "), 0)
            self.violations.append({"sig": "sanitizer", "detail": "%s; last call: %s; %s" % (self.b.name, crumb, text[i:i + 2500])})
        elif rc < 0:
            try:
                name = signal.Signals(-rc).name
            except ValueError:
                name = str(-rc)
            if name == "SIGKILL":
                self.problem = "%s was killed (out of memory?); last call: %s" % (self.tag, crumb)
            else:
                self.violations.append({"sig": "crash", "detail": "%s: %s; last call: %s; %s" % (self.b.name, name, crumb, text[-800:])})
        else:
            self.problem = "%s ended with status %s: %s" % (self.tag, rc, text[-1500:])
        return self


def plan(prop, tier, seed):
    """The builds and runs of a property."""
    thorough = tier == "thorough"
    B = BUILDS
    if prop == "C01":
        runs = [
            Run(B["default"], prop, tier, seed, 2, 25 if not thorough else 120, 1),
            Run(B["avx"], prop, tier, seed + 1, 2, 25 if not thorough else 120, 1),
            Run(B["asan-avx"], prop, tier, seed + 2, 8, 25 if not thorough else 150, 1),
            Run(B["msan"], prop, tier, seed + 3, 8, 25 if not thorough else 150, 1),
        ]
        # every process is one race for the first use of everything
        for k in range(40 if thorough else 8):
            runs.append(Run(B["tsan"], prop, tier, seed * 100 + k, 4 if k == 0 else 0.01, 20 if not thorough else 100, 1, "" if k == 0 else "threads", "t%d" % k))
        for part in ["casts", "bulk", "planes", "spd", "spectra"]:
            runs.append(Run(B["miri-avx"], prop, "quick", seed, 1, 300, 1, part, part))
        for k in range(12 if thorough else 2):
            runs.append(Run(B["miri-avx"], prop, "quick", seed + k, 1, 300, 1, "threads", "threads%d" % k, miri_seed=seed * 64 + k))
        if thorough:
            runs.append(Run(B["asan"], prop, tier, seed + 4, 8, 150, 1))
            runs.append(Run(B["miri-avx"], prop, "quick", seed, 1, 900, 1, "integrate", "integrate"))
            for k in range(4):
                runs.append(Run(B["miri-avx"], prop, "quick", seed + 10 + k, 1, 300, 1, "spectra", "spectra%d" % k))
            for part in ["casts", "bulk", "spd", "spectra", "threads"]:
                runs.append(Run(B["miri"], prop, "quick", seed, 1, 300, 1, part, part))
        return runs
    if thorough:
        runs = []
        for k in range(3):
            runs.append(Run(B["default"], prop, tier, seed * 10 + k, 4, 90, 8, tag="s%d" % k))
            runs.append(Run(B["avx"], prop, tier, seed * 10 + 5 + k, 4, 90, 8, tag="s%d" % k))
        return runs
    return [
        Run(B["default"], prop, tier, seed, 250, 20, 8),
        Run(B["avx"], prop, tier, seed + 1, 250, 14, 8),
    ]


# ------------------------------------------------------------------ findings

def known_findings(prop):
    """finding: property=<id> sig=<signature> match=<text of the detail> :: <what fails>"""
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) sig=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    except OSError:
        pass
    return out


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    prop = args[0]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed = abs(seed) % 1_000_000
    meta = json.load(open(os.path.join(HERE, "checks.json")))[prop]

    scratch = os.path.join(BUILD, "run-" + prop)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    evidence = os.path.join(evdir, prop + ".json")
    replay = os.path.join(evdir, prop + ".replay.json")
    for f in (evidence, replay):
        if os.path.exists(f):
            os.remove(f)

    novel, prose = write_dict(os.path.join(scratch, "dict.txt"))
    runs = plan(prop, tier, seed)
    names = []
    for r in runs:
        if r.b.name not in names:
            names.append(r.b.name)

    # build everything from the current tree, side by side
    errors = {}

    def do(n):
        try:
            if not BUILDS[n].build():
                errors[n] = BUILDS[n].error
        except Exception as e:  # timeout and the like
            errors[n] = repr(e)
    if any(BUILDS[n].miri for n in names):
        e = BUILDS["miri"].environ()
        e.pop("CARGO_TARGET_DIR")
        e.pop("RUSTFLAGS", None)
        subprocess.run(["cargo", "+nightly", "miri", "setup"], cwd=HARNESS, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ts = [threading.Thread(target=do, args=(n,)) for n in names]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        for n, e in errors.items():
            log("BUILD FAILED: %s\n%s" % (n, e[-4000:]))
        sys.exit(2)
    log("%s: built %s in %.0f s" % (prop, ", ".join(names), time.time() - T0))

    # single-threaded runs go side by side; the others have the machine alone
    solo = [r for r in runs if r.threads > 1]
    side = [r for r in runs if r.threads <= 1]
    for r in solo:
        r.run(scratch)
        if r.violations:
            break
    sem = threading.Semaphore(6)

    def go(r):
        with sem:
            r.run(scratch)
    ts = [threading.Thread(target=go, args=(r,)) for r in side]
    for t in ts:
        t.start()
    for t in ts:
        t.join()

    ran = [r for r in runs if hasattr(r, "seconds")]
    known = known_findings(prop)
    bad, seen_known = [], {}
    for r in ran:
        for v in r.violations:
            k = next((k for k in known if k[0] == v["sig"] and k[1] in v["detail"]), None)
            if k:
                seen_known[k] = seen_known.get(k, 0) + 1
            else:
                bad.append({"run": r.tag, "command": r.cmd, "sig": v["sig"], "detail": v["detail"]})
    problems = [r.problem for r in ran if r.problem]

    reports = [r for r in ran if r.report]
    cats, notes, samples = {}, {}, []
    for r in reports:
        for k, v in r.report["categories"].items():
            cats[k] = cats.get(k, 0) + v
        for k, v in r.report["notes"].items():
            notes[r.tag + ": " + k] = v
    for i in range(14):
        for r in reports:
            if i < len(r.report["samples"]) and len(samples) < 16 and r.report["samples"][i] not in samples:
                samples.append(r.report["samples"][i])
    if not samples:
        samples = ["%s: %d executions" % kv for kv in sorted(cats.items())[:12]]
    cov = {
        "evaluations": sum(r.report["evaluations"] for r in reports),
        "distinct_nontrivial": max([r.report["distinct"] for r in reports] or [0]),
        "rule": meta["rule"] + " distinct_nontrivial is the largest count of one run (the runs overlap).",
        "oracle_checks": sum(r.report["checks"] for r in reports),
        "categories": cats,
        "measured": notes,
        "novel_source_numbers": novel,
        "source_numbers": prose,
        "runs": [{"run": r.tag, "seed": r.seed, "part": r.part, "seconds": round(r.seconds, 2),
                  "executions": r.report["evaluations"] if r.report else 0,
                  "distinct": r.report["distinct"] if r.report else 0,
                  "steps": "%s of %s" % (r.report["steps_done"], r.report["steps_planned"]) if r.report else "-"} for r in ran],
        "samples": samples,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": meta["assumptions"], "wall_s": round(time.time() - T0, 2), "violations": len(bad)}
    json.dump(ev, open(evidence, "w"), indent=1)

    for (sig, match, what), n in seen_known.items():
        print("KNOWN-FINDING: property=%s %s (seen %d times)" % (prop, what, n))
    if bad:
        json.dump({"property": prop, "tier": tier, "seed": seed, "violations": bad}, open(replay, "w"), indent=1)
        for v in bad[:8]:
            log("  %s [%s] %s" % (v["run"], v["sig"], v["detail"][:700]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        sys.exit(1)
    if problems:
        for p in problems:
            log("NO ANSWER: " + p)
        sys.exit(2)
    print("OK property=%s executions=%d distinct=%d checks=%d" % (prop, cov["evaluations"], cov["distinct_nontrivial"], cov["oracle_checks"]))


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [quick|thorough]

Builds the monitors against /repo's working tree, runs them, and reports.
Exit status 0: held on everything explored; 1: violated (with a VIOLATION line);
2: no verdict (something failed that says nothing about the property).
"""

import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
REPO_SRC = "/repo/src"
KNOWN = os.path.join(HERE, "known-findings.txt")
TRIPLE = "x86_64-unknown-linux-gnu"
GB = 1 << 30

started = time.time()


class NoVerdict(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def env_for_build(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "MIRI", "RUST_"))}
    if "CARGO_HOME" in os.environ:
        e["CARGO_HOME"] = os.environ["CARGO_HOME"]
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(extra or {})
    return e


def build(what, cmd, extra=None, log=None):
    """Builds; a tree that doesn't build gives no verdict."""
    p = subprocess.run(cmd, cwd=HARNESS, env=env_for_build(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise NoVerdict("building %s failed:\n%s" % (what, "\n".join(l for l in p.stdout.splitlines() if "warning" not in l)[-4000:]))


def scratch_dir():
    for base in ("/dev/shm", None):
        try:
            d = tempfile.mkdtemp(prefix="scribe-monitor-", dir=base)
            st = os.statvfs(d)
            if base is None or st.f_bavail * st.f_frsize > GB:
                return d
            shutil.rmtree(d, ignore_errors=True)
        except OSError:
            pass
    raise NoVerdict("no scratch folder to be had")


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (24 * GB, 24 * GB))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    # A file that grows without end is a defect, not a reason to fill the disk.
    resource.setrlimit(resource.RLIMIT_FSIZE, (2 * GB, 2 * GB))


def limits_sanitized():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (2 * GB, 2 * GB))


def write_replay(prop, tier, seed, info):
    folder = os.path.join(HERE, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, "%s-%s-%s.json" % (prop, tier, info.get("case_seed", info.get("kind", seed))))
    doc = {"property": prop, "tier": tier, "seed": seed}
    doc.update(info)
    doc["how"] = "python3 /verif/replay.py " + path
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)
    return path


def known_findings(prop):
    """Open findings: lines `finding: property=ID match=<regular expression> | what fails`."""
    out = []
    try:
        for line in open(KNOWN, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) match=(.*?) \| (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    except FileNotFoundError:
        pass
    return out


def evidence(prop, tier, seed, level, coverage, assumptions, violations):
    folder = os.path.join(HERE, "evidence")
    os.makedirs(folder, exist_ok=True)
    doc = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": assumptions,
        "wall_s": round(time.time() - started, 2),
        "violations": violations,
    }
    path = os.path.join(folder, prop + ".json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)
    os.replace(tmp, path)


ASSUMPTIONS = [
    "the harness's reference model (plain strings split into lines and, with the unicode-segmentation crate, into grapheme clusters) states the intended behaviour",
    "what is not executed by the generated histories is not covered",
]


DEEP = ("R02",)
BARE = ("D01",)


def build_monitor(prop, profile=None):
    # R02 measures the stack of the library as it is written, without tail calls optimised away.
    profile = profile or ("deep" if prop in DEEP else "release")
    # D01 has processes of both builds tell the same.
    for profile in (["bare"] if prop in BARE else []) + [profile]:
        build("the monitors", ["cargo", "build", "--offline", "--profile", profile, "--bin", "monitor", "--target-dir", TARGET])
    return os.path.join(TARGET, profile, "monitor")

def behavioural(prop, tier, seed, scratch, patient=False, profile=None):
    monitor = build_monitor(prop, profile)
    out = os.path.join(scratch, "report.json")
    progress = os.path.join(scratch, "progress")
    os.makedirs(progress)
    work = os.path.join(scratch, "work")
    cmd = [monitor, "run", prop, "--seed", str(seed), "--tier", tier, "--out", out, "--scratch", work, "--progress", progress, "--repo", REPO_SRC]
    if os.environ.get("MONITOR_SECS"):
        cmd += ["--secs", os.environ["MONITOR_SECS"]]
    wall = 420 if tier == "quick" else 3600
    if patient:
        cmd += ["--patience", "4"]
        wall = 360
    try:
        p = subprocess.run(cmd, preexec_fn=limits, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=wall)
    except subprocess.TimeoutExpired:
        try:
            with open(os.path.join(progress, "found")) as f:
                case, message = f.read().split("\n", 1)
            return [{"kind": "case", "case_seed": int(case), "message": message, "trace": []}], None
        except (OSError, ValueError):
            raise NoVerdict("the monitors did not finish within %d s" % wall)

    def alone(case, cpu):
        """Replays one case by itself, with a limit on processor time."""

        def lim():
            limits()
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))

        w = tempfile.mkdtemp(dir=scratch)
        c = [monitor, "replay", prop, "--seed", str(case), "--tier", tier, "--scratch", w, "--repo", REPO_SRC]
        log = open(os.path.join(scratch, "alone"), "w+", errors="replace")
        q = subprocess.Popen(c, preexec_fn=lim, stdout=log, stderr=subprocess.STDOUT)
        try:
            looks = slept = 0
            end = time.time() + 270
            used = None
            while q.poll() is None:
                if time.time() > end:
                    return None, ""
                time.sleep(0.1)
                try:
                    with open("/proc/%d/stat" % q.pid) as f:
                        state = f.read().rsplit(")", 1)[1].split()
                    # A thread may be waiting for another, which isn't waiting.
                    states = set()
                    for t in os.listdir("/proc/%d/task" % q.pid):
                        with open("/proc/%d/task/%s/stat" % (q.pid, t)) as f:
                            states.add(f.read().rsplit(")", 1)[1].split()[0])
                        # Or for a process, which has limits of its own.
                        with open("/proc/%d/task/%s/children" % (q.pid, t)) as f:
                            if f.read().strip():
                                states.add("child")
                    before, used = used, (state[11], state[12])
                except (OSError, IndexError):
                    continue
                looks += 1
                slept += states == {"S"} and used == before
                if slept > 400 and slept * 10 > looks * 9:
                    return "asleep", ""
            log.seek(0)
            return q.returncode, log.read()
        finally:
            if q.poll() is None:
                q.kill()
                q.wait()
            log.close()
            shutil.rmtree(w, ignore_errors=True)

    report = None
    if os.path.exists(out):
        with open(out) as f:
            report = json.load(f)
    if p.returncode == 4 and report and "hang" in report:
        case = int(report["hang"])
        rc, text = alone(case, 200)
        if rc == -signal.SIGXCPU or rc == -signal.SIGKILL:
            info = {"kind": "hang", "case_seed": case, "message": "the case never ends (more than 200 s of processor time; cases take milliseconds)"}
            return [info], None
        if rc == "asleep":
            info = {"kind": "hang", "case_seed": case, "message": "the case never ends (it waits for something that doesn't come; cases take milliseconds)"}
            return [info], None
        if rc == 1:
            return [{"kind": "case", "case_seed": case, "message": text.strip().splitlines()[-1], "trace": text.splitlines()}], None
        if rc == 0 and not patient:
            # Slow, but not without end.
            for d in (progress, work):
                shutil.rmtree(d, ignore_errors=True)
            os.unlink(out)
            return behavioural(prop, tier, seed, scratch, patient=True, profile=profile)
        raise NoVerdict("case %d exceeded its processor time, but not when repeated alone" % case)
    if p.returncode < 0 or p.returncode in (101, 134):
        cases = []
        for name in sorted(n for n in os.listdir(progress) if n != "found"):
            with open(os.path.join(progress, name)) as f:
                t = f.read().strip()
                if t:
                    cases.append(int(t))
        for case in cases:
            rc, text = alone(case, 100)
            if rc == 1 or (isinstance(rc, int) and rc < 0):
                how = "dies of signal %d" % -rc if rc < 0 else text.strip().splitlines()[-1]
                return [{"kind": "crash", "case_seed": case, "message": "the case " + how, "trace": text.splitlines()[-60:]}], None
        raise NoVerdict("the monitors ended with status %d, which no single case repeats\n%s" % (p.returncode, p.stdout[-2000:]))
    if report is None or p.returncode not in (0, 1):
        raise NoVerdict("the monitors ended with status %d\n%s\n%s" % (p.returncode, (report or {}).get("harness_error", ""), p.stdout[-2000:]))
    coverage = {
        "evaluations": report["cases"],
        "distinct_nontrivial": report["distinct"],
        "rule": "cases are histories drawn at random from the seed; one is non-trivial if it contains " + report["rule"]
        + "; distinct ones differ in their calls or in what was observed",
        "samples": report["samples"],
        "observed": {k: v for k, v in report["counters"].items() if v},
        "threads": report["threads"],
        "monitoring_s": round(report["wall"], 2),
    }
    evidence_of = (report["level"], coverage, ASSUMPTIONS + report["assumptions"])
    if report["found"]:
        f = report["found"]
        return [{"kind": "case", "case_seed": int(f["seed"]), "keep": f["keep"], "message": f["message"], "trace": f["trace"]}], evidence_of
    if report["missing"]:
        raise NoVerdict("too little was observed: " + "; ".join(report["missing"]))
    if tier == "thorough" and profile is None and prop not in DEEP + BARE:
        # Once more with the library as others build it, without assertions and overflow checks.
        for d in (progress, work):
            shutil.rmtree(d, ignore_errors=True)
        os.unlink(out)
        found, again = behavioural(prop, "quick", seed + 1, scratch, profile="bare")
        if found:
            return [dict(f, profile="bare", tier="quick") for f in found], again
        coverage["observed"]["cases with the library built without assertions and overflow checks"] = again[1]["evaluations"]
    return [], evidence_of


# The memory property: one workload under several tools.

ASAN_OPTIONS = "detect_leaks=1:halt_on_error=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=0"


def memory(prop, tier, seed, scratch):
    quick = tier == "quick"
    secs = int(os.environ.get("MONITOR_SECS") or (40 if quick else 560))
    asan_target = os.path.join(TARGET, "asan")
    miri_target = os.path.join(TARGET, "miri")
    miri_env = {"MIRIFLAGS": "-Zmiri-disable-isolation"}
    asan_env = {"RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers=yes"}
    # The three builds side by side.
    builds = [
        ("memwork", ["cargo", "build", "--offline", "--release", "--bin", "memwork", "--target-dir", TARGET], None),
        (
            "memwork with the address sanitizer",
            ["cargo", "+nightly", "build", "--offline", "--release", "--target", TRIPLE, "--bin", "memwork", "--target-dir", asan_target],
            asan_env,
        ),
        (
            "memwork for Miri",
            ["cargo", "+nightly", "miri", "run", "--offline", "--bin", "memwork", "--target-dir", miri_target, "--", "histories", "--seed", "0", "--count", "0"],
            miri_env,
        ),
    ]
    running = []
    for what, cmd, extra in builds:
        log = open(os.path.join(scratch, "build-%d" % len(running)), "w+")
        running.append((what, log, subprocess.Popen(cmd, cwd=HARNESS, env=env_for_build(extra), stdout=log, stderr=subprocess.STDOUT)))
    for what, log, q in running:
        if q.wait() != 0:
            log.seek(0)
            raise NoVerdict("building %s failed:\n%s" % (what, log.read()[-4000:]))

    plain = os.path.join(TARGET, "release", "memwork")
    asan = os.path.join(asan_target, TRIPLE, "release", "memwork")
    # Reading words off the source is slow under Miri, which does without.
    base = ["--seed", str(seed)]
    words = ["--repo", REPO_SRC]
    jobs = []

    def job(tool, cmd, env=None, cwd=None):
        log = open(os.path.join(scratch, "job-%d" % len(jobs)), "w+")
        e = dict(os.environ)
        e.update(env or {})
        jobs.append((tool, cmd, log, subprocess.Popen(cmd, cwd=cwd or scratch, env=e, stdout=log, stderr=subprocess.STDOUT, preexec_fn=limits_sanitized)))

    miri_jobs = 5
    for k in range(miri_jobs):
        job(
            "Miri",
            ["cargo", "+nightly", "miri", "run", "--offline", "--bin", "memwork", "--target-dir", miri_target, "--", "histories"]
            + base
            + ["--from", str(k), "--step", str(miri_jobs), "--small", "--secs", str(secs)],
            env_for_build(miri_env),
            cwd=HARNESS,
        )
    job("AddressSanitizer", [asan, "histories"] + base + words + ["--from", "1000000", "--secs", str(secs)], {"ASAN_OPTIONS": ASAN_OPTIONS})
    job(
        "AddressSanitizer",
        [asan, "cases"] + base + words + ["--from", "2000000", "--secs", str(secs), "--scratch", os.path.join(scratch, "cases")],
        {"ASAN_OPTIONS": ASAN_OPTIONS},
    )
    job(
        "memcheck",
        ["valgrind", "-q", "--error-exitcode=9", "--leak-check=full", "--errors-for-leak-kinds=definite", "--num-callers=30", plain, "histories"]
        + base
        + words
        + ["--from", "3000000", "--secs", str(secs)],
    )

    found = []
    totals = {}
    observed = {}
    deadline = time.time() + secs * 4 + 300
    samples = []
    for tool, cmd, log, q in jobs:
        try:
            q.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            q.kill()
            for _, _, _, other in jobs:
                other.kill()
            raise NoVerdict("%s did not finish in time" % tool)
        log.seek(0)
        text = log.read()
        lines = text.splitlines()
        cases = [l for l in lines if l.startswith("case ")]
        last = cases[-1] if cases else "no case"
        done = [l for l in lines if l.startswith("done ")]
        violation = [l for l in lines if l.startswith("violation ")]
        report = None
        if violation:
            report = violation[0][len("violation ") :]
        elif tool == "Miri" and "error: Undefined Behavior" in text:
            report = next(l for l in lines if "error: Undefined Behavior" in l)
        elif tool == "Miri" and "error: memory leaked" in text:
            report = next(l for l in lines if "error: memory leaked" in l)
        elif tool == "Miri" and re.search(r"^error: abnormal termination", text, re.M):
            report = "abnormal termination"
        elif tool == "AddressSanitizer" and re.search(r"ERROR: (Address|Leak)Sanitizer: ", text) and "LeakSanitizer has encountered a fatal error" not in text:
            report = re.search(r"ERROR: (?:Address|Leak)Sanitizer: .*", text).group(0)
        elif tool == "memcheck" and q.returncode == 9:
            report = next((l for l in lines if re.match(r"==\d+== \S", l)), "errors")
        elif tool != "Miri" and q.returncode in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT, -signal.SIGILL):
            report = "killed by signal %d" % -q.returncode
        if report:
            found.append(
                {
                    "kind": "memory",
                    "case_seed": "%s-%d" % (tool, len(found)),
                    "message": "%s, at %s: %s" % (tool, last, report),
                    "command": cmd,
                    "trace": [l for l in lines if not l.startswith("case ")][-120:] + cases[-1:],
                }
            )
            continue
        if q.returncode != 0 or not done:
            raise NoVerdict("%s ended with status %s\n%s" % (tool, q.returncode, text[-3000:]))
        counts = {k: int(v) for k, v in re.findall(r"(\w+)=(\d+)", done[0])}
        for k, v in counts.items():
            key = "%s: %s" % (tool, k)
            observed[key] = max(observed.get(key, 0), v) if k == "longest" else observed.get(key, 0) + v
        totals[tool] = totals.get(tool, 0) + counts.get("histories", counts.get("cases", 0))
        samples.append("%s: %s, %s" % (tool, " ".join(cmd[-12:]), done[0]))
    n = sum(totals.values())
    distinct = sum(v for k, v in observed.items() if k.endswith(": distinct"))
    coverage = {
        "evaluations": n,
        "distinct_nontrivial": distinct,
        "rule": "evaluations are random histories on text stores, buffers, cursors and lines, and cases of the other properties; "
        "the distinct non-trivial ones are histories of the former kind whose strings handed out were inspected byte by byte and differ",
        "samples": samples,
        "observed": observed,
    }
    ev = (
        "exploration",
        coverage,
        [
            "Miri (uninitialised reads, aliasing, bounds, leaks), the address and leak sanitizer, and memcheck report what they see of the executed paths",
            "small histories only under Miri",
            "the shared object code of the C library isn't instrumented",
        ],
    )
    if not found:
        for tool in ("Miri", "AddressSanitizer", "memcheck"):
            if totals.get(tool, 0) < 3:
                raise NoVerdict("too little was observed under %s" % tool)
    return found, ev


def setup():
    """Builds everything once, and says whether the tools are there."""
    build("the monitors", ["cargo", "build", "--offline", "--release", "--bins", "--target-dir", TARGET])
    build("the monitors with the library unoptimised", ["cargo", "build", "--offline", "--profile", "deep", "--bin", "monitor", "--target-dir", TARGET])
    build("the monitors without checks", ["cargo", "build", "--offline", "--profile", "bare", "--bin", "monitor", "--target-dir", TARGET])
    p = subprocess.run([os.path.join(TARGET, "release", "monitor"), "list"], stdout=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise NoVerdict("the monitors don't run")
    for tool in (["cargo", "+nightly", "miri", "--version"], ["valgrind", "--version"]):
        if shutil.which(tool[0]) is None or subprocess.run(tool, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 0:
            raise NoVerdict("%s is missing" % " ".join(tool[:-1]))
    say("built")
    return 0


def main():
    if len(sys.argv) < 2:
        say("usage: check.py setup | ID [quick|thorough]")
        return 2
    prop = sys.argv[1]
    if prop == "setup":
        return setup()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        raise NoVerdict("unknown tier " + tier)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scratch = scratch_dir()
    try:
        found, ev = (memory if prop == "M01" else behavioural)(prop, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    fresh = []
    for f in found:
        hits = [what for pattern, what in known_findings(prop) if pattern.search(f["message"])]
        if hits:
            say("KNOWN-FINDING: property=%s %s" % (prop, hits[0]))
        else:
            fresh.append(f)
    if ev:
        evidence(prop, tier, seed, ev[0], ev[1], ev[2], len(fresh))
    if fresh:
        for f in fresh:
            path = write_replay(prop, tier, seed, f)
            say("%s: %s" % (prop, f["message"]))
            for line in f.get("trace", [])[-25:]:
                say("    " + line)
            say("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    c = ev[1]
    say("%s: held on %d cases (%d distinct, non-trivial) in %.1f s" % (prop, c["evaluations"], c["distinct_nontrivial"], time.time() - started))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as e:
        say("NO VERDICT: %s" % e)
        sys.exit(2)

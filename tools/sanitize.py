#!/usr/bin/env python3
"""Sanitizer and interpreter stages of the checks C23 (data races) and C24 (memory).

sanitize.py ID TIER SEED: builds the monitors with each tool, runs their cases ("solo") in parallel
processes, and counts as a violation only a report of the tool itself. What a stage observed is
added to evidence/ID.json, which the native stage has just written.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ID, TIER, SEED = sys.argv[1], sys.argv[2], sys.argv[3]
THOROUGH = TIER == "thorough"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
TARGET = "x86_64-unknown-linux-gnu"
# the cases which need neither the interposition of the system calls nor large sparse files
FILES = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C20", "C21", "C25"]
DEFS = ["C12", "C13", "C15", "C22"]
REPORT = re.compile(
    r"ERROR: AddressSanitizer|WARNING: MemorySanitizer|WARNING: ThreadSanitizer|runtime error:"
    r"|ERROR: LeakSanitizer|error: Undefined Behavior|error: memory leaked|unsafe precondition\(s\) violated"
    r"|error: the evaluated program leaked memory"
)


def stages():
    k = 8 if THOROUGH else 1
    if ID == "C23":
        return [
            Stage("ThreadSanitizer", "thread", [("C23", 150 * k)] * 8, True),
            Stage("Miri", None, [("C23", 2 * k)] * 8, False),
        ]
    sanit = [(p, 700 * k) for p in FILES + DEFS] + [("C24", 2000 * k), ("C23", 100 * k), ("C11", 60 * k)]
    miri = [(p, 20 * k) for p in FILES + DEFS]
    return [
        Stage("AddressSanitizer", "address", sanit, False),
        Stage("MemorySanitizer", "memory", sanit, True),
        Stage("Miri", None, miri + [("C24", 30 * k)] * 6, False),
    ]


class Stage:
    def __init__(self, name, sanitizer, jobs, build_std):
        self.name, self.sanitizer, self.jobs, self.build_std = name, sanitizer, jobs, build_std
        self.problem = None
        self.reports = []
        self.cases = self.events = self.distinct = 0
        self.functional = []
        self.wall = 0.0

    def seconds(self):
        """The time after which a job begins no other case."""
        return (600 if THOROUGH else 35) if self.sanitizer is None else (1000 if THOROUGH else 120)

    def target_dir(self):
        return os.path.join(HARNESS, "target-" + (self.sanitizer or "miri"))

    def env(self):
        e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
        if self.sanitizer:
            e["RUSTFLAGS"] = "-Zsanitizer=" + self.sanitizer
            if self.sanitizer == "memory":
                e["RUSTFLAGS"] += " -Zsanitizer-memory-track-origins"
            e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=1"
            e["MSAN_OPTIONS"] = "exitcode=66:allocator_may_return_null=1"
            e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:allocator_may_return_null=1"
        else:
            e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-symbolic-alignment-check"
            e["RUSTFLAGS"] = "-Awarnings"
        return e

    def cargo(self):
        base = ["cargo", "+nightly"]
        common = ["--no-default-features", "--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--target-dir", self.target_dir()]
        if self.sanitizer:
            extra = ["-Zbuild-std"] if self.build_std else []
            return base + ["build", "--release", "--target", TARGET] + extra + common
        return base + ["miri", "run", "-q"] + common + ["--"]

    def build(self):
        t = time.time()
        cmd = self.cargo() + ([] if self.sanitizer else ["list"])
        try:
            p = subprocess.run(cmd, env=self.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=480)
        except (OSError, subprocess.TimeoutExpired) as e:
            self.problem = "cannot build: %s" % str(e)[:300]
            return
        if p.returncode != 0:
            errors = [l for l in p.stdout.splitlines() if l.startswith("error")]
            self.problem = "cannot build: " + "; ".join(errors[:3] or p.stdout.splitlines()[-3:])
        self.wall += time.time() - t

    def command(self, prop, count, first):
        tail = ["solo", "--prop", prop, "--count", str(count), "--first", str(first), "--seed", SEED, "--seconds", str(self.seconds())]
        if self.sanitizer:
            return [os.path.join(self.target_dir(), TARGET, "release", "ncmon")] + tail
        return self.cargo() + tail

    def run_one(self, job):
        index, (prop, count) = job
        # each job of a property has its own cases
        first = sum(c for _, (p, c) in list(enumerate(self.jobs))[:index] if p == prop)
        d = tempfile.mkdtemp(prefix="ncmon-solo-", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
        # the harness removes its own directory at the end, the log lies beside it
        cmd = self.command(prop, count, first) + ["--dir", os.path.join(d, "work")]
        out = os.path.join(d, "log")
        limit = (1500 if THOROUGH else 420)
        try:
            with open(out, "wb") as f:
                p = subprocess.run(cmd, env=self.env(), stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=limit)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        except OSError as e:
            rc = "error %s" % e
        text = ""
        try:
            with open(out, "rb") as f:
                text = f.read(4 << 20).decode("utf-8", "replace")
        except OSError:
            pass
        shutil.rmtree(d, ignore_errors=True)
        return cmd, prop, rc, text

    def run(self):
        if self.problem:
            return
        t = time.time()
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as pool:
            for cmd, prop, rc, text in pool.map(self.run_one, list(enumerate(self.jobs))):
                for m in re.finditer(r"^SOLO (\S+) cases (\d+) distinct (\d+) events (\d+)", text, re.M):
                    self.cases += int(m.group(2))
                    self.distinct += int(m.group(3))
                    self.events += int(m.group(4))
                self.functional += re.findall(r"^FUNCTIONAL-VIOLATION .*", text, re.M)
                hit = REPORT.search(text)
                if hit:
                    self.reports.append((cmd, text))
                elif isinstance(rc, int) and rc < 0:
                    # killed by a signal without report: a crash is one of the memory, an abort (6) or
                    # the time limit (27, 9) is not
                    if -rc in (4, 7, 11):
                        self.reports.append((cmd, text + "\nended by signal %d" % -rc))
                    else:
                        self.functional.append("%s ended by signal %d" % (prop, -rc))
                elif rc == "timeout" and not self.sanitizer:
                    # the interpreter is slow: the other cases decide
                    self.functional.append("%s: not finished" % prop)
                elif isinstance(rc, str):
                    self.problem = "%s on %s: %s" % (self.name, prop, rc)
                elif rc not in (0, 10):
                    if "unsupported operation" in text:
                        self.functional.append("%s: the interpreter does not support an operation" % prop)
                    else:
                        self.problem = "%s on %s ended with %s: %s" % (self.name, prop, rc, text[-400:])
        self.wall += time.time() - t


def main():
    todo = stages()
    with concurrent.futures.ThreadPoolExecutor(max_workers=len(todo)) as pool:
        list(pool.map(Stage.build, todo))
    for s in todo:
        s.run()
    path = os.path.join(VERIF, "evidence", ID + ".json")
    with open(path) as f:
        evidence = json.load(f)
    bad = [s for s in todo if s.reports]
    cov = evidence["coverage"]
    cov["instrumented_runs"] = {
        s.name: {
            "cases": s.cases,
            "distinct": s.distinct,
            "events": s.events,
            "reports": len(s.reports),
            "wall_s": round(s.wall, 1),
            "problem": s.problem,
            "functional violations left to the other checks": s.functional[:5],
        }
        for s in todo
    }
    cov["evaluations"] += sum(s.cases for s in todo)
    evidence["wall_s"] = round(evidence["wall_s"] + sum(s.wall for s in todo), 3)
    evidence["violations"] = len(bad)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    os.rename(tmp, path)
    for s in todo:
        print("%s: %d cases, %d events, %d reports, %.0f s%s" % (s.name, s.cases, s.events, len(s.reports), s.wall, " (%s)" % s.problem if s.problem else ""))
    if bad:
        s = bad[0]
        cmd, text = s.reports[0]
        replay = os.path.join("replays", "%s-%s.log" % (ID, s.name))
        with open(os.path.join(VERIF, replay), "w") as f:
            f.write("# %s\n# %s\n%s\n" % (s.name, " ".join(cmd), text))
        m = REPORT.search(text)
        at = m.start() if m else max(0, len(text) - 600)
        print(text[at : at + 900])
        print("VIOLATION property=%s replay=%s" % (ID, replay))
        return 1
    done = [s for s in todo if not s.problem and s.cases > 0]
    if not done:
        print("ERROR (inconclusive): no instrumented run: " + "; ".join(str(s.problem) for s in todo), file=sys.stderr)
        return 2
    return 0


sys.exit(main())

#!/usr/bin/env python3
"""Supervisor of the monitors.

  check.py C02                 run the check of property C02 (VERIF_SEED, VERIF_TIER)
  check.py --setup             build everything once
  check.py --replay FILE       run the recorded case again, on its own

Exit 0: held on everything observed. Exit 1 and a VIOLATION line: broken. Anything else (2): no answer.
"""
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target")
EVIDENCE = os.path.join(HERE, "evidence")
REPO = os.path.join(os.path.dirname(HERE), "repo")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
LINT = "--warn=semicolon_in_expressions_from_macros"
TRIPLE = "x86_64-unknown-linux-gnu"
GB = 1 << 30


class NoAnswer(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def base_env(extra=None):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("CARGO_", "RUST")) or k in ("LD_PRELOAD", "MIRIFLAGS"):
            if k not in ("CARGO_HOME", "RUSTUP_HOME"):
                del env[k]
    home = env.get("HOME") or "/root"
    if not os.path.isdir(os.path.join(home, ".cargo")) and os.path.isdir("/root/.cargo"):
        home = "/root"
    env["HOME"] = home
    env["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.update(
        RUSTUP_TOOLCHAIN=STABLE,
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        RUSTFLAGS=LINT,
        RUST_BACKTRACE="0",
    )
    env.update(extra or {})
    return env


def build(args, env, what, timeout=600):
    t = time.time()
    p = subprocess.run(args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=HERE)
    if p.returncode != 0:
        log(p.stdout.decode("utf8", "replace")[-6000:])
        raise NoAnswer("%s does not build" % what)
    log("built %s in %.1f s" % (what, time.time() - t))


def build_mon():
    build(
        ["cargo", "build", "--release", "--offline", "--locked", "--bin", "mon", "--manifest-path",
         HERE + "/harness/Cargo.toml"],
        base_env({"CARGO_TARGET_DIR": TARGET + "/mon"}),
        "the monitors",
    )
    return TARGET + "/mon/release/mon"


def build_asan():
    build(
        ["cargo", "build", "--release", "--offline", "--locked", "--bin", "mon", "--target", TRIPLE,
         "--manifest-path", HERE + "/harness/Cargo.toml"],
        base_env({
            "CARGO_TARGET_DIR": TARGET + "/asan",
            "RUSTC_BOOTSTRAP": "1",
            "RUSTFLAGS": LINT + " -Zsanitizer=address",
        }),
        "the monitors with AddressSanitizer",
    )
    return TARGET + "/asan/" + TRIPLE + "/release/mon"


def build_tsan():
    build(
        ["cargo", "build", "--release", "--offline", "--locked", "--bin", "mon", "--target", TRIPLE, "-Zbuild-std",
         "--manifest-path", HERE + "/harness/Cargo.toml"],
        base_env({
            "CARGO_TARGET_DIR": TARGET + "/tsan",
            "RUSTUP_TOOLCHAIN": NIGHTLY,
            "RUSTFLAGS": LINT + " -Zsanitizer=thread",
        }),
        "the monitors with ThreadSanitizer",
    )
    return TARGET + "/tsan/" + TRIPLE + "/release/mon"


def miri_env():
    return base_env({
        "CARGO_TARGET_DIR": TARGET + "/miri",
        "RUSTUP_TOOLCHAIN": NIGHTLY,
        "MIRIFLAGS": "-Zmiri-disable-isolation",
        "XDG_CACHE_HOME": TARGET + "/miri-cache",
    })


def miri_args(seed, a, b):
    return ["cargo", "miri", "run", "--bin", "mirimon", "--offline", "--locked", "--manifest-path",
            HERE + "/harness/Cargo.toml", "--", str(seed), str(a), str(b)]


def build_cli():
    build(
        ["cargo", "build", "--offline", "--locked", "-p", "fecl", "--manifest-path", REPO + "/Cargo.toml"],
        base_env({"CARGO_TARGET_DIR": TARGET + "/cli"}),
        "the command line program",
    )
    return TARGET + "/cli/debug/fecl"


def limits(as_bytes):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if as_bytes:
            resource.setrlimit(resource.RLIMIT_AS, (as_bytes, as_bytes))
        resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    return f


def run(args, env, timeout, errfile, as_bytes=24 * GB):
    """Returns (return code or None on a timeout)"""
    with open(errfile, "wb") as err:
        p = subprocess.Popen(args, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err,
                             preexec_fn=limits(as_bytes), cwd="/")
        try:
            return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            return None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()


def tail(path, n=4000):
    try:
        with open(path, "rb") as f:
            return f.read().decode("utf8", "replace")[-n:]
    except OSError:
        return ""


def how(rc):
    if rc is not None and rc < 0:
        try:
            return signal.Signals(-rc).name
        except ValueError:
            return "signal %d" % -rc
    return "exit %s" % rc


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        self.t0 = time.time()
        self.fails = []
        self.observed = []
        self.notes = []
        self.cov = None
        self.budget = 780.0 if self.tier == "quick" else 6 * 3600.0

    def left(self):
        return max(10.0, self.budget - (time.time() - self.t0))

    # -- one pass of the monitors ------------------------------------------------------------
    def mon(self, binary, work, env=None, extra=(), label="", as_bytes=24 * GB, threads=8):
        tag = label or "main"
        out = os.path.join(work, tag + ".json")
        journal = os.path.join(work, tag + ".journal")
        err = os.path.join(work, tag + ".err")
        scratch = os.path.join(work, tag + ".scratch")
        os.makedirs(scratch)
        base = [binary, "--prop", self.prop, "--seed", str(self.seed), "--tier", self.tier, "--work", scratch,
                "--cli", self.cli, "--threads", str(threads)] + list(extra)
        rc = run(base + ["--out", out, "--journal", journal], base_env(env), self.left(), err, as_bytes)
        if rc is None:
            raise NoAnswer("no result after %d s" % self.budget)
        if rc in (0, 1) and os.path.exists(out):
            with open(out) as f:
                o = json.load(f)
            self.fails += o["fails"]
            self.observed += o["observed"]
            return o
        # The process died. Which of the cases under way does it, on its own?
        log("the monitors died: %s\n%s" % (how(rc), tail(err)))
        report = sanitizer_report(tail(err, 200000))
        cases = []
        try:
            with open(journal, "rb") as f:
                b = f.read()
            cases = [v - 1 for v in struct.unpack("<%dQ" % (len(b) // 8), b) if v]
        except (OSError, struct.error):
            pass
        for c in cases:
            out1 = os.path.join(work, "%s.case%d.json" % (tag, c))
            err1 = os.path.join(work, "%s.case%d.err" % (tag, c))
            jn = os.path.join(work, "%s.case%d.journal" % (tag, c))
            rc1 = run(base + ["--case", str(c), "--out", out1, "--journal", jn], base_env(env), min(180.0, self.left()),
                      err1, as_bytes and min(as_bytes, 8 * GB))
            if rc1 is None:
                self.notes.append("case %d: no result alone" % c)
                continue
            if rc1 in (0, 1) and os.path.exists(out1):
                with open(out1) as f:
                    o1 = json.load(f)
                self.fails += o1["fails"]
                continue
            rep1 = sanitizer_report(tail(err1, 200000))
            self.fails.append({
                "sig": "memory-error" if rep1 else "crash",
                "case": c,
                "msg": "the process dies (%s) in this case, on its own as well\n%s" % (how(rc1), rep1 or tail(err1)),
                "input": "",
                "label": tag,
            })
        if report and not any(f["sig"] == "memory-error" for f in self.fails):
            self.fails.append({"sig": "memory-error", "case": cases[0] if cases else 0,
                               "msg": report, "input": "", "label": tag})
        if not self.fails and rc in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL):
            self.fails.append({"sig": "crash", "case": cases[0] if cases else 0, "input": "",
                               "msg": "the process dies (%s), though not with any single case\n%s" % (how(rc), tail(err))})
        if not self.fails:
            raise NoAnswer("the monitors died (%s), and no single case does it again" % how(rc))
        return None

    # -- verdict -----------------------------------------------------------------------------
    def finish(self, o, assumptions=()):
        known, _fixed = known_findings(self.prop)
        for s in self.observed:
            if s in known:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, s, known[s]), flush=True)
            else:
                self.fails.append({"sig": s, "case": 0, "msg": "a failure the list of known findings does not contain: " + s,
                                   "input": ""})
        harness = [f for f in self.fails if "harness:" in f["msg"]]
        if harness and len(harness) == len(self.fails):
            raise NoAnswer("the harness itself failed: " + harness[0]["msg"])
        self.fails = [f for f in self.fails if f not in harness]
        cov = dict(self.cov or {})
        if o:
            cov.update(
                evaluations=o["evaluations"],
                distinct_nontrivial=o["distinct_nontrivial"],
                rule=o["rule"],
                samples=o["samples"] or ["(the cases are listed by the counters)"],
                exhaustive=o["exhaustive"],
                counters=o["counters"],
            )
            zero = [n for n in o["need"] if not o["counters"].get(n)]
            if zero and not self.fails:
                raise NoAnswer("nothing was observed of: " + ", ".join(zero))
        cov.setdefault("evaluations", len(self.fails))
        cov.setdefault("distinct_nontrivial", len(self.fails))
        cov.setdefault("rule", "the run was cut short by a crash")
        cov.setdefault("samples", [f["input"][:400] or f["sig"] for f in self.fails[:3]] or ["none"])
        if self.observed:
            cov["known_findings_seen"] = sorted(set(self.observed))
        if self.notes:
            cov["notes"] = self.notes
        ev = {
            "property": self.prop,
            "tier": "thorough" if self.tier == "thorough" else "quick",
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": list(assumptions),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.fails),
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        seen = set()
        for f in self.fails:
            if f["sig"] in seen:
                continue
            seen.add(f["sig"])
            rdir = os.path.join(EVIDENCE, "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s.json" % (self.prop, re.sub(r"[^A-Za-z0-9_.+-]+", "_", f["sig"])[:80]))
            with open(path, "w") as fh:
                json.dump(dict(f, property=self.prop, seed=self.seed, tier=self.tier), fh, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            log("  %s (case %s): %s" % (f["sig"], f["case"], f["msg"][:1500]))
            if f["input"]:
                log("  input: %r" % f["input"][:600])
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")
        log("%s: %d evaluations, %d distinct, %.1f s" % (self.prop, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
        return 1 if self.fails else 0

    def main(self, only=None):
        work = tempfile.mkdtemp(prefix="ferrous-mon-")
        os.chmod(work, 0o755)
        try:
            self.cli = build_cli() if self.prop in NEED_CLI else ""
            special = SPECIAL.get(self.prop)
            if special:
                o, assumptions = special(self, work)
            else:
                o, assumptions = self.mon(build_mon(), work, extra=only or ()), ASSUME
            return self.finish(o, assumptions)
        finally:
            shutil.rmtree(work, ignore_errors=True)


ASSUME = [
    "The monitors judge the executions they produce, no others.",
    "Reference models and generators in /verif/harness/src are trusted.",
]
NEED_CLI = {"C17"}


def merge_counters(o, o2, prefix):
    for k, v in o2["counters"].items():
        o["counters"][prefix + k] = v
    o["evaluations"] += o2["evaluations"]


def c19(check, work):
    """The history and schedule monitor; then the same under ThreadSanitizer"""
    native = build_mon()
    try:
        tsan = build_tsan()
    except (NoAnswer, subprocess.TimeoutExpired) as e:
        tsan = None
        check.notes.append("ThreadSanitizer unavailable: %s" % e)
    o = check.mon(native, work)
    if tsan and o is not None:
        n = 6000 if check.tier == "thorough" else 240
        o2 = check.mon(tsan, work, env={"TSAN_OPTIONS": "exitcode=97:halt_on_error=1:report_signal_unsafe=0:report_thread_leaks=0"},
                       extra=["--cases", str(n)], label="tsan", as_bytes=0)
        if o2:
            merge_counters(o, o2, "tsan:")
    return o, ASSUME + ["ThreadSanitizer sees the accesses of the runs it watched."]


# Workloads of other properties, run again under AddressSanitizer: (property, cases)
OTHERS = [("C11", 1500), ("C12", 1200), ("C13", 1500), ("C14", 2500), ("C15", 1500), ("C26", 2500), ("C10", 800), ("C25", 1500),
          ("C24", 3000), ("C16", 500), ("C23", 1500), ("C05", 3000), ("C06", 3000), ("C21", 1000)]


def others(check, asan, work, o):
    """What else the monitors do with the crate. Here only memory errors count: the rest is judged elsewhere."""
    env = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=98:detect_stack_use_after_return=1:allocator_may_return_null=1"}
    for prop, cases in OTHERS:
        if check.tier != "thorough" and check.left() < 420:
            check.notes.append("the workloads from %s on were left out for want of time" % prop)
            break
        side = Check(prop)
        side.budget = side.left() if check.tier == "thorough" else 60.0
        side.cli = check.cli
        try:
            o2 = side.mon(asan, work, as_bytes=0, env=env, label="of-" + prop,
                          extra=["--cases", str(cases * (10 if check.tier == "thorough" else 1))])
        except NoAnswer as e:
            check.notes.append("the workload of %s: %s" % (prop, e))
            continue
        check.fails += [f for f in side.fails if f["sig"] == "memory-error"]
        if o2:
            o["counters"]["workload_" + prop] = o2["evaluations"]
            o["evaluations"] += o2["evaluations"]


def c20(check, work):
    """The memory workload under AddressSanitizer, then a smaller one interpreted by Miri"""
    asan = build_asan()
    miri = True
    try:
        p = subprocess.run(miri_args(check.seed, 0, 0), env=miri_env(), stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, timeout=300, cwd=HERE)
        if b"mirimon done" not in p.stderr:
            raise NoAnswer(p.stderr.decode("utf8", "replace")[-300:])
    except (NoAnswer, subprocess.TimeoutExpired) as e:
        miri = False
        check.notes.append("Miri unavailable: %s" % e)
    o = check.mon(asan, work, as_bytes=0, env={
        "ASAN_OPTIONS": "detect_leaks=0:exitcode=98:detect_stack_use_after_return=1:allocator_may_return_null=1"})
    if o is not None:
        others(check, asan, work, o)
    if not miri or o is None:
        return o, ASSUME
    total = 1200 if check.tier == "thorough" else 24
    workers, per = 8, 2
    nexts = list(range(0, total, per))
    running, done, seen = [], 0, set()
    deadline = time.time() + (3 * 3600 if check.tier == "thorough" else 240)
    while nexts or running:
        while nexts and len(running) < workers and time.time() < deadline:
            a = nexts.pop(0)
            err = os.path.join(work, "miri.%d.err" % a)
            with open(err, "wb") as f:
                running.append((a, err, subprocess.Popen(miri_args(check.seed, a, min(total, a + per)), env=miri_env(),
                                                         stdout=subprocess.DEVNULL, stderr=f, cwd=HERE,
                                                         preexec_fn=os.setsid)))
        if time.time() >= deadline:
            nexts = []
        still = []
        for a, err, p in running:
            rc = p.poll()
            if rc is None:
                if time.time() > deadline + 60:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    check.notes.append("Miri: cases from %d on were cut short" % a)
                else:
                    still.append((a, err, p))
                continue
            text = tail(err, 400000)
            lines = re.findall(r"^mirimon case (\d+) (\S+)", text, re.M)
            done += len(lines)
            seen.update(h for _, h in lines)
            m = re.search(r"^error: (Undefined Behavior|memory leaked|the evaluated program leaked|abnormal termination).*",
                          text, re.M)
            if m and "mirimon done" not in text or m and "leaked" in m.group(0):
                check.fails.append({"sig": "miri", "case": a + len(lines), "msg": text[m.start():m.start() + 3000],
                                    "input": "mirimon %d %d" % (check.seed, a + len(lines)), "label": "miri"})
            elif rc != 0:
                check.notes.append("Miri: cases from %d on end with %s: %s" % (a, how(rc), text[-300:]))
        running = still
        time.sleep(0.05)
    o["counters"]["miri_cases"] = done
    o["counters"]["miri_distinct_texts"] = len(seen)
    o["evaluations"] += done
    return o, ASSUME + ["AddressSanitizer sees heap, stack and global accesses of the runs it watched; Miri the smaller workload."]


SPECIAL = {"C19": c19, "C20": c20}


def sanitizer_report(text):
    m = re.search(r"(==\d+==\s*ERROR: AddressSanitizer|SUMMARY: AddressSanitizer|ERROR: LeakSanitizer|"
                  r"WARNING: ThreadSanitizer: )", text)
    if not m:
        return ""
    if "stack-overflow" in text[m.start():m.start() + 300]:
        return ""
    return text[m.start():m.start() + 3000]


def known_findings(prop):
    known, fixed = {}, []
    try:
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    known[m.group(2)] = m.group(3)
                m = re.match(r"fixed: property=(\S+) ", line)
                if m and m.group(1) == prop:
                    fixed.append(line.strip())
    except OSError:
        pass
    return known, fixed


def setup():
    build_mon()
    build_cli()
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    os.environ["VERIF_SEED"] = str(r["seed"])
    os.environ["VERIF_TIER"] = r["tier"]
    c = Check(r["property"])
    return c.main(only=["--case", str(r["case"])])


def main():
    try:
        if sys.argv[1:] == ["--setup"]:
            return setup()
        if sys.argv[1:2] == ["--replay"]:
            return replay(sys.argv[2])
        if len(sys.argv) != 2:
            print(__doc__)
            return 2
        return Check(sys.argv[1]).main()
    except NoAnswer as e:
        log("NO ANSWER: %s" % e)
        return 2
    except subprocess.TimeoutExpired as e:
        log("NO ANSWER: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())

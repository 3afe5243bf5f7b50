#!/usr/bin/env python3
"""Decides one property of /repo: check.py P01 [--tier quick|thorough] [--seed N]
Repeats one failing case: check.py replay FILE

Builds the harness against /repo's working tree in the supported build configurations, runs the
property's generated-input search in each, and writes evidence/<id>.json.
Exit 0: held on everything explored. Exit 1: "VIOLATION property=<id> replay=<path>" was printed.
Exit 2: no verdict (build failure, harness error, no answer in time).
"""
import argparse
import array
import json
import os
import resource
import shutil
import signal
import struct
import subprocess
import sys
import threading
import time

from tools.dictionary import dictionary

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-2026-08-21-x86_64-unknown-linux-gnu"
CONFIGS = [
    (tc, order, opt)
    for tc in ("stable", "nightly")
    for order in ("pemdas", "pejmdas")
    for opt in (True, False)
]
TOOLCHAIN = {"stable": STABLE, "nightly": NIGHTLY}

# cases per build configuration: quick tier, one round of the thorough tier
CASES = {
    "P01": (10000, 20000),
    "P02": (75000, 150000),
    "P03": (45000, 90000),
    "P04": (60000, 120000),
    "P05": (60000, 120000),
    "P06": (60000, 120000),
    "P07": (30000, 60000),
    "P08": (24000, 48000),
    "P09": (45000, 90000),
    "P10": (75000, 150000),
    "P11": (60000, 120000),
    "P12": (120000, 240000),
    "P13": (80000, 160000),
    "P14": (120000, 240000),
    "P15": (120000, 240000),
    "P16": (60000, 120000),
    "P17": (24000, 48000),
    "P18": (75000, 150000),
    "P19": (36000, 72000),
    "P20": (45000, 90000),
    "P21": (700, 3000),
    "P22": (45000, 90000),
    "P23": (36000, 72000),
    "P24": (12000, 24000),
    "P25": (60000, 120000),
}
THOROUGH_SECONDS = 600
# a case of any check takes well under a second; one that uses this much is not going to end
CASE_CPU_LIMIT = 60
# address space of one process; the largest use is about 1.4 GiB, nearly all of it reserved stack
MEMORY_LIMIT = 3 << 30


def name(c):
    return "%s,%s%s" % (c[0], c[1], ",opt" if c[2] else "")


def log(msg):
    print(msg, flush=True)


class Trouble(Exception):
    """No verdict."""


# ------------------------------------------------------------------------------------ building


def build_chain(configs, repl, bins, errors, logdir):
    for c in configs:
        feats = [c[1]] + (["opt"] if c[2] else []) + (["repl"] if repl else [])
        env = dict(os.environ)
        for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
            env.pop(k, None)
        env["RUSTUP_TOOLCHAIN"] = TOOLCHAIN[c[0]]
        env["CARGO_NET_OFFLINE"] = "true"
        env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
        tdir = os.path.join(TARGET, c[0])
        cmd = ["cargo", "build", "--offline", "--features", ",".join(feats), "--target-dir", tdir]
        logfile = os.path.join(logdir, "build-%s.log" % name(c))
        with open(logfile, "w") as f:
            r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=f, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            with open(logfile) as f:
                errors.append("build of %s failed:\n%s" % (name(c), f.read()[-3000:]))
            return
        out = os.path.join(TARGET, "bin")
        os.makedirs(out, exist_ok=True)
        paths = {}
        for b in ["xv"] + (["repl"] if repl else []):
            dst = os.path.join(out, "%s-%s" % (b, name(c)))
            tmp = dst + ".new"
            shutil.copy2(os.path.join(tdir, "debug", b), tmp)
            os.replace(tmp, dst)
            paths[b] = dst
        bins[name(c)] = paths


def build(configs, repl, logdir):
    bins, errors, threads = {}, [], []
    for tc in ("stable", "nightly"):
        cs = [c for c in configs if c[0] == tc]
        if cs:
            t = threading.Thread(target=build_chain, args=(cs, repl, bins, errors, logdir))
            t.start()
            threads.append(t)
    for t in threads:
        t.join()
    if errors:
        raise Trouble("\n".join(errors))
    return bins


# ------------------------------------------------------------------------------------ running


def cpu_seconds(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            w = f.read().rsplit(")", 1)[1].split()
        return (int(w[11]) + int(w[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return None


def read_current(path):
    try:
        b = open(path, "rb").read()
        n = struct.unpack("<I", b[:4])[0]
        return list(struct.unpack("<%dH" % n, b[4 : 4 + 2 * n]))
    except (OSError, struct.error):
        return None


class Job:
    """One run of one check in one configuration."""

    def __init__(self, prop, label, exe, env, seed, cases, scale, work):
        self.prop, self.label, self.exe, self.env = prop, label, exe, env
        self.tag = "%s-%s-%d" % (prop, label.replace(",", "-"), seed)
        self.out = os.path.join(work, self.tag + ".json")
        self.keys = os.path.join(work, self.tag + ".keys")
        self.current = os.path.join(work, self.tag + ".cur")
        self.err = os.path.join(work, self.tag + ".err")
        self.replays = os.path.join(work, "replays")
        self.seed = seed
        self.cmd = [
            exe, "run", prop, "--seed", str(seed), "--cases", str(cases), "--config", label,
            "--scale", str(scale), "--out", self.out, "--keys", self.keys,
            "--replay-dir", self.replays, "--current", self.current,
        ]
        self.stats = None
        self.violation = None
        self.trouble = None

    def run(self):
        try:
            self._run()
        except Exception as e:  # a driver bug is no verdict either
            self.trouble = "driver: %r" % e

    def _run(self):
        for p in (self.out, self.keys, self.current):
            if os.path.exists(p):
                os.unlink(p)
        with open(self.err, "wb") as err:
            p = subprocess.Popen(self.cmd, env=self.env, stdin=subprocess.DEVNULL, stdout=err, stderr=err)
            stuck_since, stuck_cpu, seen, hung = time.time(), 0.0, None, False
            while True:
                try:
                    p.wait(0.5)
                    break
                except subprocess.TimeoutExpired:
                    pass
                try:
                    st = os.stat(self.current)
                    mark = (st.st_mtime_ns, st.st_size)
                except OSError:
                    mark = None
                if mark != seen:
                    seen, stuck_since, stuck_cpu = mark, time.time(), cpu_seconds(p.pid) or 0.0
                    continue
                used = (cpu_seconds(p.pid) or 0.0) - stuck_cpu
                if used > CASE_CPU_LIMIT or time.time() - stuck_since > 300:
                    hung = True
                    p.kill()
                    p.wait()
                    break
        rc = p.returncode
        with open(self.err, errors="replace") as f:
            tail = f.read()[-2000:]
        if hung:
            self.after_hang()
        elif rc < 0:
            self.after_signal(-rc, tail)
        elif rc in (0, 1):
            with open(self.out) as f:
                self.stats = json.load(f)
            if rc == 1:
                self.violation = (self.stats["replay"], self.stats["failure"])
        else:
            self.trouble = tail.strip() or "exit status %d" % rc

    # -- crashes and hangs: the case that was running is replayed in a process of its own

    def replay_file(self, choices, message, shown=""):
        os.makedirs(self.replays, exist_ok=True)
        path = os.path.join(self.replays, "%s-%s.txt" % (self.prop, self.label.replace(",", "-")))
        with open(path, "w") as f:
            f.write("property=%s\nconfig=%s\ndict=%s\nmessage=%s\ninput=%s\nchoices=%s\n"
                    % (self.prop, self.label, self.env.get("XV_DICT", ""), message, shown,
                       ",".join(map(str, choices))))
        return path

    def replay(self, choices, cpu=CASE_CPU_LIMIT):
        path = self.replay_file(choices, "")
        def limit():
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        try:
            r = subprocess.run([self.exe, "replay", path], env=self.env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                               preexec_fn=limit, timeout=cpu * 5)
        except subprocess.TimeoutExpired:
            return None
        return r.returncode

    def shown(self, choices, seconds=60):
        """What the choices stand for, from a process that only decodes up to the crash."""
        path = self.replay_file(choices, "")
        env = dict(self.env, XV_TRACE="1")
        try:
            r = subprocess.run([self.exe, "replay", path], env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=seconds)
        except subprocess.TimeoutExpired as e:
            return (e.stderr or b"").decode(errors="replace")[-1500:].replace("\n", " ")
        return r.stderr.decode(errors="replace")[:1500].replace("\n", "; ")

    def shrink(self, choices, bad, seconds):
        """Removes chunks, then lowers single choices, as long as `bad` holds."""
        end = time.time() + seconds
        size = max(1, len(choices) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(choices) and time.time() < end:
                c = choices[:i] + choices[i + size:]
                if bad(c):
                    choices = c
                else:
                    i += size
            size //= 2
        for i in range(len(choices)):
            for v in (0, choices[i] // 2):
                if time.time() < end and v < choices[i] and bad(choices[:i] + [v] + choices[i + 1:]):
                    choices = choices[:i] + [v] + choices[i + 1:]
        return choices

    def after_signal(self, sig, tail):
        try:
            sname = signal.Signals(sig).name
        except ValueError:
            sname = str(sig)
        if sig not in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
            self.trouble = "ended by %s" % sname
            return
        choices = read_current(self.current)
        if choices is None:
            self.trouble = "crash before the first case: %s\n%s" % (sname, tail)
            return
        def crashes(c):
            rc = self.replay(c)
            return rc is not None and rc < 0 and -rc not in (signal.SIGKILL, signal.SIGXCPU)
        message = "the process crashed (%s)" % sname
        if crashes(choices):
            choices = self.shrink(choices, crashes, 60)
        elif "memory allocation of" in tail:
            # the memory of this process, not of the case
            self.trouble = "out of memory after many cases: " + tail
            return
        else:
            message += ", only after the cases before it: %s" % " ".join(self.cmd)
        shown = self.shown(choices)
        self.violation = (self.replay_file(choices, message, shown), message + " [" + shown + "]")

    def after_hang(self):
        choices = read_current(self.current)
        rc = self.replay(choices) if choices is not None else 0
        if rc in (-signal.SIGXCPU, -signal.SIGKILL):
            def hangs(c):
                return self.replay(c, 5) in (-signal.SIGXCPU, -signal.SIGKILL)
            choices = self.shrink(choices, hangs, 60)
            message = "a single case did not end within %d s of processor time" % CASE_CPU_LIMIT
            shown = self.shown(choices, 10)
            self.violation = (self.replay_file(choices, message, shown), message + " [" + shown + "]")
        else:
            self.trouble = "a case did not end in time, but ends when repeated"


def run_jobs(jobs):
    ts = [threading.Thread(target=j.run) for j in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


# ------------------------------------------------------------------------------------ known findings


def known_findings(prop):
    """Runs the recorded inputs of the property; prints a line for each that still fails."""
    res = []
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            w = line.split()
            if not w or w[0] != "finding:" or w[1] != "property=" + prop:
                continue
            kv = dict(t.split("=", 1) for t in w[1:4])
            res.append((kv["probe"], kv["n"], " ".join(w[4:])))
    return res


def run_findings(prop, exe):
    still = []
    for probe, n, what in known_findings(prop):
        r = subprocess.run([exe, "probe", "--kind", probe, "--n", n], stdin=subprocess.DEVNULL,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        if r.returncode < 0:
            log("KNOWN-FINDING: property=%s probe=%s n=%s %s" % (prop, probe, n, what))
            still.append("%s n=%s" % (probe, n))
    return still


# ------------------------------------------------------------------------------------ evidence

RULES = json.load(open(os.path.join(VERIF, "tools", "rules.json")))


class Totals:
    def __init__(self):
        self.cases = 0
        self.oracle = 0
        self.keys = set()
        self.classes = {}
        self.per_config = {}
        self.samples = []

    def add(self, job):
        s = job.stats
        if not s:
            return
        self.cases += s["cases"]
        self.oracle += s["oracle_evals"]
        pc = self.per_config.setdefault(job.label, {"cases": 0, "nontrivial": 0})
        pc["cases"] += s["cases"]
        pc["nontrivial"] += s["nontrivial"]
        for k, v in s["classes"].items():
            self.classes[k] = self.classes.get(k, 0) + v
        a = array.array("Q")
        with open(job.keys, "rb") as f:
            a.frombytes(f.read())
        self.keys.update(a)
        if len(self.samples) < 24:
            self.samples += ["%s: %s" % (job.label, t) for t in s["samples"][1:4]]
        os.unlink(job.keys)


def write_evidence(prop, tier, seed, tot, wall, violations, findings, extra):
    cov = {
        "evaluations": tot.cases,
        "distinct_nontrivial": len(tot.keys),
        "rule": RULES["how"] + " " + RULES[prop],
        "samples": tot.samples[:24] or ["(no case was non-trivial)"],
        "oracle_comparisons": tot.oracle,
        "classes": dict(sorted(tot.classes.items())),
        "per_configuration": tot.per_config,
    }
    cov.update(extra)
    if findings:
        cov["known_findings_still_failing"] = findings
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": RULES["assumptions"],
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + ".json.new")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    os.replace(tmp, os.path.join(d, prop + ".json"))


# ------------------------------------------------------------------------------------ main


def limit_memory():
    """Of this process and of everything it starts: a runaway allocation fails in its own process."""
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))


def jobs_for(prop, bins, seed, cases, scale, work):
    env = dict(os.environ, NO_COLOR="1", XV_DICT=dictionary("/repo/src"))
    if prop == "P22":
        env["XV_PEERS"] = ";".join("%s=%s" % (l, bins[l]["xv"]) for l in sorted(bins))
        # two orchestrators, each with a peer per configuration
        return [
            Job(prop, "all-%d" % k, bins["stable,pemdas,opt"]["xv"], env, seed, cases, scale, work)
            for k in (1, 2)
        ]
    jobs = []
    for c in CONFIGS:
        e = dict(env)
        if prop == "P21":
            e["XV_REPL"] = bins[name(c)]["repl"]
        jobs.append(Job(prop, name(c), bins[name(c)]["xv"], e, seed, cases, scale, work))
    return jobs


def check(prop, tier, seed):
    start = time.time()
    work = os.path.join(VERIF, "out", prop)
    os.makedirs(work, exist_ok=True)
    bins = build(CONFIGS, prop == "P21", work)
    built = time.time()
    limit_memory()
    tot, extra = Totals(), {}
    violations, troubles = [], []
    findings = run_findings(prop, bins["stable,pemdas,opt"]["xv"])
    rounds = 0
    while True:
        cases = CASES[prop][0 if tier == "quick" else 1]
        # later rounds use longer choice lists: larger expressions and histories
        scale = 1 if tier == "quick" else (1, 1, 2, 4)[rounds % 4]
        jobs = jobs_for(prop, bins, seed if rounds == 0 else seed * 1000003 + rounds,
                        cases // scale, scale, work)
        run_jobs(jobs)
        rounds += 1
        for j in jobs:
            tot.add(j)
            if j.violation:
                violations.append(j.violation)
            if j.trouble:
                troubles.append("%s: %s" % (j.label, j.trouble))
        if violations or troubles or tier == "quick" or time.time() - built > THOROUGH_SECONDS:
            break
    extra["rounds"] = rounds
    extra["build_s"] = round(built - start, 1)
    write_evidence(prop, tier, seed, tot, time.time() - start, len(violations), findings, extra)
    for path, message in violations:
        log("  " + message.replace("\n", " ")[:1500])
        log("VIOLATION property=%s replay=%s" % (prop, path))
    for t in troubles:
        log("NO VERDICT %s %s" % (prop, t[:1500]))
    log("%s %s: %d cases, %d distinct non-trivial, %d oracle comparisons, %.1f s (build %.1f s)"
        % (prop, tier, tot.cases, len(tot.keys), tot.oracle, time.time() - start, built - start))
    if violations:
        return 1
    return 2 if troubles else 0


def replay_cmd(path):
    """Repeats the case of a replay file on the current tree: exit 1 if it still fails."""
    with open(path) as f:
        kv = dict(line.rstrip("\n").split("=", 1) for line in f if "=" in line)
    prop = kv["property"]
    work = os.path.join(VERIF, "out", prop)
    os.makedirs(work, exist_ok=True)
    if prop == "P22":
        cs = CONFIGS
    else:
        cs = [c for c in CONFIGS if name(c) == kv["config"]]
    bins = build(cs, prop == "P21", work)
    limit_memory()
    env = dict(os.environ, NO_COLOR="1")
    env["XV_PEERS"] = ";".join("%s=%s" % (l, bins[l]["xv"]) for l in sorted(bins))
    first = bins[name(cs[0])]
    env["XV_REPL"] = first.get("repl", "")
    return 1 if subprocess.run([first["xv"], "replay", os.path.abspath(path)], env=env).returncode else 0


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return replay_cmd(sys.argv[2])
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", choices=sorted(CASES))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a = ap.parse_args()
    try:
        return check(a.prop, a.tier, a.seed)
    except Trouble as e:
        log("NO VERDICT %s %s" % (a.prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())

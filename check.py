#!/usr/bin/env python3
"""Decide one property: check.py <Cxx> quick|thorough   (or --replay FILE).

Builds the property's binary from /repo's working tree, runs its generated
cases in parallel shards, confirms and minimises whatever fails, and writes
evidence/<id>.json.

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2/3: this check could not give an answer (build failure, timeout).
"""
import concurrent.futures as cf
import hashlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(ROOT, "harness")
sys.path.insert(0, ROOT)
import props  # noqa: E402

NSHARDS = 8
CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}
START = time.time()


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST", "MIRI"))}
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(extra or {})
    return e


def tree_key():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), HARNESS):
        for d, ds, fs in sorted(os.walk(base)):
            ds[:] = sorted(x for x in ds if x != "target")
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:16]


def target_dir():
    base = os.path.join(ROOT, "target")
    os.makedirs(base, exist_ok=True)
    mine = "t-" + tree_key()
    for d in sorted(os.listdir(base)):
        if d.startswith("t-") and d != mine:
            shutil.rmtree(os.path.join(base, d), ignore_errors=True)
    return os.path.join(base, mine)


CONFIGS = {
    # name: (cargo args, environment, sub-directory of the target dir)
    "dbg": (["--profile", "dbg"], {}, "dbg"),
    "rel": (["--profile", "rel"], {}, "rel"),
    "rel-nostd": (["--profile", "rel", "--no-default-features", "--features", "rb"], {}, "rel"),
    "dbg-nostd": (["--profile", "dbg", "--no-default-features", "--features", "rb"], {}, "dbg"),
    "dbg-bare": (["--profile", "dbg", "--no-default-features", "--features", "std"], {}, "dbg"),
    "rel-bare": (["--profile", "rel", "--no-default-features", "--features", "std"], {}, "rel"),
    "asan": (["--profile", "rel", "--target", "x86_64-unknown-linux-gnu"],
             {"RUSTFLAGS": "-Zsanitizer=address --cap-lints warn", "RUSTUP_TOOLCHAIN": "nightly"},
             "x86_64-unknown-linux-gnu/rel"),
}


MIRI = {
    # invalid accesses only; aliasing is C19's subject
    "miri": "-Zmiri-disable-stacked-borrows",
    "miri-tree": "-Zmiri-tree-borrows",
}


def build_miri(config, binary):
    """A script that interprets the binary; with `list` once, so that it is compiled."""
    td = os.path.join(target_dir(), "miri")
    os.makedirs(td, exist_ok=True)
    path = os.path.join(td, "%s-%s.sh" % (config, binary))
    flags = "%s -Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-backtrace=full" % MIRI[config]
    with open(path, "w") as f:
        f.write("#!/bin/sh\ncd %s\nexport MIRIFLAGS='%s' RUSTFLAGS='-Awarnings'\n"
                "exec cargo +nightly miri run --offline --quiet --manifest-path %s --target-dir %s --bin %s -- \"$@\"\n"
                % (HARNESS, flags, os.path.join(HARNESS, "Cargo.toml"), td, binary))
    os.chmod(path, 0o755)
    r = subprocess.run([path, "list"], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        raise Inconclusive("build failed (%s, %s)" % (binary, config))
    return path


def build(config, binary):
    if config in MIRI:
        return build_miri(config, binary)
    args, extra, sub = CONFIGS[config]
    td = target_dir()
    if config not in ("dbg", "rel"):
        td = os.path.join(td, config)
    e = {"RUSTFLAGS": "--cap-lints warn"}
    e.update(extra)
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
           "--bin", binary, "--target-dir", td] + args
    r = subprocess.run(cmd, env=env(e), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        raise Inconclusive("build failed (%s, %s)" % (binary, config))
    return os.path.join(td, sub, binary)


# A case takes microseconds to milliseconds. One that uses this much processor
# time (seconds) does not end, one that uses this much memory (bytes) runs away.
CASE_CPU = 20
CASE_MEM = 3 << 30


def limits(config, cpu=None):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if config in MIRI:
        return
    if config != "asan":
        resource.setrlimit(resource.RLIMIT_AS, (CASE_MEM, CASE_MEM))
    if cpu:
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))


def run_env(config):
    e = {}
    if config == "asan":
        e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1"
    return env(e)


def run(cmd, config, timeout, cpu=None):
    try:
        return subprocess.run(cmd, env=run_env(config), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              timeout=timeout, preexec_fn=lambda: limits(config, cpu))
    except subprocess.TimeoutExpired:
        return None


def run_until(cmd, config, deadline):
    """Like run(), with a deadline that may come nearer while the process runs."""
    with tempfile.TemporaryFile() as err, tempfile.TemporaryFile() as out:
        p = subprocess.Popen(cmd, env=run_env(config), stdout=out, stderr=err, preexec_fn=lambda: limits(config))
        while True:
            try:
                p.wait(timeout=0.5)
                break
            except subprocess.TimeoutExpired:
                if time.time() > deadline():
                    p.kill()
                    p.wait()
                    return None
        out.seek(0)
        err.seek(max(0, err.seek(0, 2) - 200000))
        return subprocess.CompletedProcess(cmd, p.returncode, out.read(), err.read())


def crashed(r):
    """Why the process died, if it died of a memory fault: a signal, or the interpreter's verdict."""
    for l in r.stderr.decode(errors="replace").splitlines():
        if l.startswith("error: Undefined Behavior:"):
            return l[7:]
    if r.returncode < 0 and signal.Signals(-r.returncode) in CRASH:
        if b"memory allocation of" in r.stderr and b"failed" in r.stderr:
            return "no end to the memory it asked for"
        return signal.Signals(-r.returncode).name
    if r.returncode == -signal.SIGXCPU:
        return "no end in sight (SIGXCPU)"
    return None


def known_findings(pid):
    """Lines "known: property=<id> case=<name> <text>" of known_findings.txt."""
    out = {}
    for l in open(os.path.join(ROOT, "known_findings.txt")):
        w = l.split(None, 3)
        if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + pid and w[2].startswith("case="):
            out[w[2][5:]] = w[3].strip()
    return out


def minimise(choices, fails, end):
    """Shrink a choice sequence; fails(c) gives the choices used if c still fails, else None."""
    best = list(choices)

    def ok(c):
        used = fails(c)
        return used if used is not None and (len(used), used) < (len(best), best) else None

    changed = True
    while changed and time.time() < end:
        changed = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = len(best) - size
            while i >= 0 and time.time() < end:
                u = ok(best[:i] + best[i + size:])
                if u is not None:
                    best, changed = u, True
                i -= max(1, size if size > 4 else 1)
                i = min(i, len(best) - size)
            size //= 2
        for i in range(len(best)):
            if time.time() > end or i >= len(best):
                break
            for v in (0, best[i] // 2, best[i] - 1):
                if i < len(best) and 0 <= v < best[i]:
                    u = ok(best[:i] + [v] + best[i + 1:])
                    if u is not None:
                        best, changed = u, True
                        break
    return best


class Failure:
    def __init__(self, config, suite, choices, message, trace):
        self.config, self.suite, self.choices, self.message, self.trace = config, suite, choices, message, trace


class Session:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.spec = props.CHECKS[pid]
        self.tmp = tempfile.mkdtemp(prefix="vcase-%s-" % pid)
        self.limit = int(os.environ.get("VERIF_LIMIT", "700" if tier == "quick" else "3000"))
        self.suites = {}
        self.hashes = []
        self.failures = []
        self.exes = {}
        self.notes = []
        self.extra = {}
        self.deadline = START + self.limit
        self.crashes = 0

    def left(self):
        return max(5, self.limit - (time.time() - START))

    # -- one worker ------------------------------------------------------
    def worker(self, config, exe, shard, args):
        tag = "%s-%d-%s" % (config, shard, hashlib.md5(" ".join(args).encode()).hexdigest()[:6])
        out, status, hashes = (os.path.join(self.tmp, tag + x) for x in (".json", ".status", ".hash"))
        cmd = [exe, "run", "--tier", self.tier, "--seed", str(self.seed), "--salt", config, "--shard", str(shard),
               "--nshards", str(NSHARDS), "--out", out, "--status", status, "--hashes", hashes] + args
        r = run_until(cmd, config, lambda: max(self.deadline, START + 5))
        if r is not None and (r.returncode in (10, 12) or crashed(r)):
            # something is wrong for sure: the others need not take forever over it
            self.deadline = min(self.deadline, time.time() + 40)
        return config, exe, shard, cmd, r, out, status, hashes

    def run_configs(self, jobs):
        """jobs: list of (config, exe, extra args). Fills suites/failures."""
        with cf.ThreadPoolExecutor(NSHARDS) as ex:
            futs = [ex.submit(self.worker, c, exe, s, a) for c, exe, a in jobs for s in range(NSHARDS)]
            results = [f.result() for f in futs]
        unclear = []
        for config, exe, shard, cmd, r, out, status, hashes in results:
            data = None
            if os.path.exists(out):
                try:
                    data = json.load(open(out))
                except ValueError:
                    data = None
            found = data["fails"][0] if data and data["fails"] else None
            sig = crashed(r) if r is not None else None
            if r is not None and r.returncode == 12:
                sig = "no end in sight"
            why = None
            if r is None:
                st = open(status).read().strip() if os.path.exists(status) else ""
                why = "worker timed out (%s shard %d at %s)" % (config, shard, st)
            elif sig and not found:
                if not self.failures or not self.crashes:
                    try:
                        self.crash(config, exe, cmd, status, sig, r)
                        self.crashes += 1
                    except Inconclusive as e:
                        why = str(e)
            elif r.returncode not in (0, 10) and not sig:
                log(r.stderr.decode(errors="replace")[-3000:])
                why = "worker ended with %s (%s shard %d)" % (r.returncode, config, shard)
            if found:
                # it may have got stuck or killed while minimising: what it wrote before stands
                self.failures.append((exe, cmd, Failure(config, found["suite"], found["choices"], found["message"], found["trace"])))
            elif why:
                unclear.append(why)
            if data:
                for s in data["suites"]:
                    self.add_suite(config, s)
            if os.path.exists(hashes):
                self.hashes.append(hashes)
        # another worker's failure that stands outweighs a worker without an answer
        if unclear and not self.failures:
            raise Inconclusive("; ".join(unclear[:3]))

    def add_suite(self, config, s):
        d = self.suites.setdefault(s["name"], {"mode": s["mode"], "evaluations": 0, "nontrivial": 0, "complete": True,
                                               "labels": {}, "samples": [], "configs": []})
        d["evaluations"] += s["evaluations"]
        d["nontrivial"] += s["nontrivial"]
        d["complete"] = d["complete"] and s["complete"]
        for k, v in s["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        for x in s["samples"]:
            if len(d["samples"]) < 2:
                d["samples"].append("[%s] %s" % (s["name"], x[:1500]))
        if config not in d["configs"]:
            d["configs"].append(config)

    # -- failures ----------------------------------------------------------
    def attempt(self, exe, config, suite, choices, timeout=90, index=None, salt=None, trace=False, cpu=CASE_CPU):
        """Run one case in a fresh process: (message or None, choices, trace)."""
        out = os.path.join(self.tmp, "attempt.json")
        rec = os.path.join(self.tmp, "attempt.rec")
        for p in (out, rec):
            if os.path.exists(p):
                os.unlink(p)
        cmd = [exe, "replay", "--tier", self.tier, "--suite", suite, "--out", out, "--record", rec]
        if index is not None:
            cmd += ["--index", str(index), "--seed", str(self.seed), "--salt", salt]
        else:
            cmd += ["--choices", ",".join(map(str, choices))]
        if trace:
            cmd += ["--trace", "1"]
        r = run(cmd, config, timeout, cpu)
        if r is None:
            return None, choices, []
        used = [int(x) for x in open(rec).read().split()] if os.path.exists(rec) else choices
        sig = crashed(r)
        if sig:
            tr = [l[6:] for l in r.stderr.decode(errors="replace").splitlines() if l.startswith("TRACE ")]
            tail = [l for l in r.stderr.decode(errors="replace").splitlines() if not l.startswith("TRACE ")]
            why = next((l.strip() for l in tail if "ERROR: AddressSanitizer" in l or "panicked" in l), "")
            if config in MIRI:
                why = "".join("\n    " + l.strip() for l in tail if l.strip().startswith("at " + REPO + "/src/"))[:1500]
            return ("%s %s" % (sig if config in MIRI or sig.startswith("no end") else "the process died with " + sig, why)).strip(), used, tr
        if r.returncode == 10:
            d = json.load(open(out))
            return d["fail"]["message"], d["fail"]["choices"], d["fail"]["trace"]
        return None, used, []

    def crash(self, config, exe, cmd, status, sig, r):
        """A worker was killed by a signal: find the case, minimise it."""
        st = open(status).read().strip().split()
        if not st:
            raise Inconclusive("worker crashed with %s before its first case" % sig)
        suite, what = st[0], (st[1] if len(st) > 1 else "")
        if what.startswith("#"):
            msg, choices, trace = self.attempt(exe, config, suite, [], index=int(what[1:]), salt=config)
        else:
            msg, choices, trace = self.attempt(exe, config, suite, [int(x) for x in what.split(",") if x])
        if msg is None:
            # it takes what earlier cases left in memory: confirm() runs the whole shard again
            log(r.stderr.decode(errors="replace")[-3000:])
            self.failures.append((exe, cmd, Failure(config, suite, choices, "the process died with %s in this case, "
                                                    "after the cases before it" % sig, [])))
            return
        small = self.shrink_out(exe, config, suite, choices)
        small = self.attempt(exe, config, suite, small, trace=True)
        if small[0] is not None:
            msg, choices, trace = small
        self.failures.append((exe, None, Failure(config, suite, choices, msg, trace)))

    def shrink_out(self, exe, config, suite, choices):
        """Minimise a crashing case with one process per attempt."""
        end = time.time() + (100 if config in MIRI else 25)

        def ok(c):
            m, used, _ = self.attempt(exe, config, suite, c, timeout=30 if config in MIRI else 10, cpu=1)
            return None if m is None else used

        return minimise(choices, ok, end)

    def confirm(self):
        """Replay the first failure in fresh processes; return it if it stands."""
        for exe, cmd, f in self.failures:
            m, c, t = self.attempt(exe, f.config, f.suite, f.choices)
            if m is not None:
                f.message, f.trace = m, t or f.trace
                return f, None
        for exe, cmd, f in self.failures:
            # not reproducible alone (for instance it depends on what earlier
            # cases left in freed memory): the whole shard must fail again
            if cmd:
                r = run(cmd, f.config, self.left())
                if r is not None and (r.returncode == 10 or crashed(r)):
                    return f, cmd[1:]
        return None, None

    # -- results -----------------------------------------------------------
    def evidence(self, violations):
        distinct = 0
        native = [e for c, e in self.exes.items() if c not in MIRI]
        if self.hashes and native:
            r = subprocess.run([native[0], "merge"] + self.hashes, stdout=subprocess.PIPE, text=True)
            distinct = int(r.stdout.strip() or 0)
        distinct += self.extra.pop("distinct", 0)
        evals = sum(s["evaluations"] for s in self.suites.values()) + self.extra.pop("evaluations", 0)
        samples = [x for s in self.suites.values() for x in s.pop("samples")] + self.extra.pop("samples", [])
        cov = {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": self.spec["rule"],
            "samples": samples[:24],
            "suites": self.suites,
        }
        cov.update(self.extra)
        doc = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
               "assumptions": self.spec.get("assumptions", []), "wall_s": round(time.time() - START, 2), "violations": violations}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(doc, f, indent=1)

    def violation(self, f, shard_cmd=None, kind="case"):
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        path = os.path.join(ROOT, "replay", "%s.json" % self.pid)
        with open(path, "w") as fh:
            json.dump({"property": self.pid, "kind": kind, "tier": self.tier, "seed": self.seed, "config": f.config,
                       "bin": self.spec["bin"], "suite": f.suite, "choices": f.choices, "shard": shard_cmd,
                       "message": f.message, "trace": f.trace}, fh, indent=1)
        print("suite %s (%s build)" % (f.suite, f.config))
        for l in f.trace:
            print("  " + l)
        print("failed: " + f.message)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        return 1

    def main(self):
        spec = self.spec
        configs = list(spec.get("configs", ["dbg", "rel"]))
        if self.tier == "thorough" and spec.get("asan", True) and "asan" not in configs:
            configs.append("asan")
        if self.tier == "thorough":
            configs += spec.get("thorough_configs", [])
        with cf.ThreadPoolExecutor(4) as ex:
            exes = list(ex.map(lambda c: build(c, spec["bin"]), configs))
        self.exes = dict(zip(configs, exes))
        log("built in %.1f s" % (time.time() - START))
        special = spec.get("special")
        if special:
            import importlib
            code = importlib.import_module("special_" + special).run(self, dict(zip(configs, exes)))
            if code is not None:
                return code
        else:
            scale = spec.get("scale", {})
            self.run_configs([(c, e, ["--scale", str(scale.get(c, 100))]) for c, e in zip(configs, exes)])
        self.known(dict(zip(configs, exes)))
        return self.settle()

    def known(self, exes):
        """Replay the defects which are recorded but not repaired."""
        for case, suite, config in self.spec.get("known", []):
            exe = exes[config]
            msg, choices, trace = self.attempt(exe, config, suite, [], timeout=120)
            if msg is None:
                continue
            if case in known_findings(self.pid):
                print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, case, known_findings(self.pid)[case]))
                self.extra.setdefault("known_findings", []).append(case)
            else:
                self.failures.append((exe, None, Failure(config, suite, choices, msg, trace)))

    def settle(self):
        if self.failures:
            f, shard = self.confirm()
            if f is None:
                raise Inconclusive("a failure did not reproduce: " + self.failures[0][2].message)
            self.evidence(1)
            return self.violation(f, shard)
        for w in self.spec.get("require", []):
            if not any(w in s["labels"] for s in self.suites.values()):
                raise Inconclusive("the generator never reached: " + w)
        self.evidence(0)
        n = sum(s["evaluations"] for s in self.suites.values())
        print("PASS property=%s tier=%s evaluations=%d wall=%.1fs" % (self.pid, self.tier, n, time.time() - START))
        return 0


def replay(path):
    d = json.load(open(path))
    s = Session(d["property"], d["tier"], d["seed"])
    try:
        if d["kind"] != "case":
            import importlib
            return importlib.import_module("special_" + s.spec["special"]).replay(s, d)
        exe = build(d["config"], d["bin"])
        if d.get("shard"):
            r = run([exe] + d["shard"], d["config"], 900)
            bad = r is not None and (r.returncode == 10 or crashed(r))
            print("FAIL" if bad else "PASS")
            return 1 if bad else 0
        m, c, t = s.attempt(exe, d["config"], d["suite"], d["choices"], trace=True)
        for l in t:
            print("  " + l)
        print("FAIL " + m if m else "PASS")
        return 1 if m else 0
    finally:
        shutil.rmtree(s.tmp, ignore_errors=True)


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    s = Session(pid, tier, seed)
    try:
        return s.main()
    except Inconclusive as e:
        print("ERROR property=%s no answer: %s" % (pid, e), flush=True)
        return 2
    finally:
        shutil.rmtree(s.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

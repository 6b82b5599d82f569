"""C22: run the same cases in every build and compare what they observed."""
import concurrent.futures as cf
import json
import os
import sys
import time

check = sys.modules.get("__main__") if hasattr(sys.modules.get("__main__"), "Session") else __import__("check")
SALT = "builds"
N = check.NSHARDS


def one(session, config, exe, shard):
    base = os.path.join(session.tmp, "%s-%d" % (config, shard))
    cmd = [exe, "run", "--tier", session.tier, "--seed", str(session.seed), "--salt", SALT, "--shard", str(shard), "--nshards", str(N),
           "--out", base + ".json", "--status", base + ".status", "--hashes", base + ".hash", "--digests", base + ".dig"]
    r = check.run(cmd, config, session.left())
    return config, shard, r, base


def observe(session, exe, config, suite, choices=None, index=None, trace=None):
    """What one case observes in one build: (verdict, choices used, trace lines)."""
    base = os.path.join(session.tmp, "obs-%s" % config)
    for x in (".json", ".rec"):
        if os.path.exists(base + x):
            os.unlink(base + x)
    cmd = [exe, "replay", "--tier", session.tier, "--suite", suite, "--out", base + ".json", "--record", base + ".rec"]
    if index is not None:
        cmd += ["--index", str(index), "--seed", str(session.seed), "--salt", SALT]
    else:
        cmd += ["--choices", ",".join(map(str, choices))]
    if trace:
        cmd += ["--trace", str(trace)]
    r = check.run(cmd, config, 90, cpu=10)
    if r is None:
        return None, choices, []
    lines = [l for l in r.stderr.decode(errors="replace").splitlines() if l.startswith(("TRACE ", "OBS "))]
    used = [int(x) for x in open(base + ".rec").read().split()] if os.path.exists(base + ".rec") else choices
    sig = check.crashed(r)
    if sig:
        return "dies with " + sig, used, lines
    if r.returncode not in (0, 10):
        return None, used, lines
    out = r.stdout.decode(errors="replace").splitlines()
    return next((l for l in out if l.startswith("obs ")), None), used, lines


def differs(session, pair, exes, suite, choices):
    """Do two builds disagree about this case? The choices used, or None."""
    with cf.ThreadPoolExecutor(2) as ex:
        (a, used, _), (b, _, _) = ex.map(lambda c: observe(session, exes[c], c, suite, choices), pair)
    return used if a is not None and b is not None and a != b else None


def explain(session, pair, exes, suite, choices):
    (a, _, la), (b, _, lb) = [observe(session, exes[c], c, suite, choices, trace=2) for c in pair]
    i = 0
    while i < min(len(la), len(lb)) and la[i] == lb[i]:
        i += 1
    show = [l[i] if i < len(l) else "(nothing more: %s)" % v for l, v in ((la, a), (lb, b))]
    return "the builds differ: %s: %s, but %s: %s" % (pair[0], show[0], pair[1], show[1]), [l[6:] for l in la[:i] if l.startswith("TRACE ")]


def settle(session, pair, exes, suite, index):
    """Confirm a difference in fresh processes and minimise it."""
    ref, other = pair
    a, used, _ = observe(session, exes[ref], ref, suite, index=index)
    if used is None:
        return None
    for _ in range(2):
        # each build must agree with itself
        for c in pair:
            if observe(session, exes[c], c, suite, used)[0] != observe(session, exes[c], c, suite, used)[0]:
                return None
    if differs(session, pair, exes, suite, used) is None:
        return None
    best = check.minimise(used, lambda c: differs(session, pair, exes, suite, c), time.time() + 40)
    msg, trace = explain(session, pair, exes, suite, best)
    f = check.Failure("%s against %s" % pair, suite, best, msg, trace)
    f.pair = list(pair)
    return f


def run(session, exes):
    configs = list(exes)
    ref = configs[0]
    with cf.ThreadPoolExecutor(N) as ex:
        done = list(ex.map(lambda j: one(session, j[0], exes[j[0]], j[1]), [(c, s) for c in configs for s in range(N)]))
    digests = {}
    suspects = []
    unclear = []
    for config, shard, r, base in done:
        st = open(base + ".status").read().split() if os.path.exists(base + ".status") else []
        if r is None:
            unclear.append("worker timed out (%s shard %d at %s)" % (config, shard, " ".join(st[:2])))
            continue
        sig = "no end in sight" if r.returncode == 12 else check.crashed(r)
        if sig and len(st) > 1:
            for c in configs:
                if c != config:
                    suspects.append(((c, config), st[0], int(st[1][1:])))
            unclear.append("worker died with %s (%s shard %d at %s)" % (sig, config, shard, " ".join(st[:2])))
            continue
        if r.returncode not in (0, 10) or not os.path.exists(base + ".dig"):
            unclear.append("worker ended with %s (%s shard %d)" % (r.returncode, config, shard))
            continue
        data = json.load(open(base + ".json"))
        raw = open(base + ".dig", "rb").read()
        pos = 0
        for s in data["suites"]:
            n = s["digests"]
            digests[config, shard, s["name"]] = raw[8 * pos:8 * (pos + n)]
            pos += n
            session.add_suite(config, s)
        session.hashes.append(base + ".hash")
    # every pair with the first build that has the suite
    compared = 0
    for shard in range(N):
        for suite in sorted({k[2] for k in digests}):
            have = [c for c in configs if (c, shard, suite) in digests]
            for c in have[1:]:
                x, y = digests[have[0], shard, suite], digests[c, shard, suite]
                compared += min(len(x), len(y)) // 8
                if x != y:
                    j = next((j for j in range(0, min(len(x), len(y)), 8) if x[j:j + 8] != y[j:j + 8]), None)
                    if j is None:
                        unclear.append("%s and %s ran different numbers of %s" % (have[0], c, suite))
                    else:
                        suspects.append(((have[0], c), suite, shard + N * (j // 8)))
    session.extra["compared_pairs"] = compared
    end = time.time() + 150
    for pair, suite, index in suspects[:60]:
        if time.time() > end:
            break
        f = settle(session, pair, exes, suite, index)
        if f:
            session.evidence(1)
            return violation(session, f)
    if suspects:
        unclear.append("%d differences, none of which can be repeated" % len(suspects))
    if unclear:
        raise check.Inconclusive("; ".join(unclear[:3]))
    return None


def violation(session, f):
    os.makedirs(os.path.join(check.ROOT, "replay"), exist_ok=True)
    path = os.path.join(check.ROOT, "replay", "%s.json" % session.pid)
    with open(path, "w") as fh:
        json.dump({"property": session.pid, "kind": "builds", "tier": session.tier, "seed": session.seed, "pair": f.pair,
                   "bin": session.spec["bin"], "suite": f.suite, "choices": f.choices, "message": f.message, "trace": f.trace}, fh, indent=1)
    print("suite %s (%s)" % (f.suite, f.config))
    for l in f.trace:
        print("  " + l)
    print("failed: " + f.message)
    print("VIOLATION property=%s replay=%s" % (session.pid, path), flush=True)
    return 1


def replay(session, d):
    exes = {c: check.build(c, d["bin"]) for c in d["pair"]}
    if differs(session, d["pair"], exes, d["suite"], d["choices"]) is None:
        print("PASS")
        return 0
    msg, trace = explain(session, d["pair"], exes, d["suite"], d["choices"])
    for l in trace:
        print("  " + l)
    print("FAIL " + msg)
    return 1

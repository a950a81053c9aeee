#!/usr/bin/env python3
"""Runs the check of one property against the working tree of /repo.

  check.py ID [quick|thorough]     run it (default: $VERIF_TIER or quick)
  check.py --replay FILE           run the one case a replay file holds

Exit 0: the property held on everything explored. Exit 1 with a line
"VIOLATION property=ID replay=PATH": it's broken. Exit 2: no answer.
"""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
GO = "/opt/veriftools/go1.27.3/bin"
SHARDS = 8

sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402


def env():
    e = dict(os.environ)
    e.update(
        PATH=GO + ":" + e.get("PATH", "/usr/bin:/bin"),
        GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off",
        HOME=e.get("HOME") or "/root",
    )
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def error(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def build(work, race, fuzz=False):
    out = os.path.join(work, "fuzz.test" if fuzz else "check.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + (["-fuzz=Fuzz"] if fuzz else []) + ["."]
    p = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        error("the harness does not build with the tree in /repo:\n" + p.stdout)
    return out


def known_findings(pid):
    """Lines of KNOWN_FINDINGS.txt about findings that are not fixed."""
    out = []
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    except FileNotFoundError:
        pass
    return out


def classify(code, log):
    """ok, violation or error, and why."""
    if code == 0:
        return "ok", ""
    if code == 67 and "VERIF-HANG" in log:
        return "violation", "a call that doesn't return"
    if code == 66 and "DATA RACE" in log:
        return "violation", "a data race"
    if "VERIF-ERROR" in log:
        return "error", "harness"
    if code == 1 and "--- FAIL" in log:
        return "violation", "a failing case"
    if code == 2:
        if "out of memory" in log or "cannot allocate memory" in log or "errno=12" in log:
            return "error", "out of memory"
        if re.search(r"^(panic:|fatal error:)", log, re.M) and "go-sqlf/v2" in log:
            return "violation", "a crash"
    return "error", "exit code %d" % code


def save_replay(pid, tier, seed, shard, checks, cwd, log, why, race, **more):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    test, failfile = "", ""
    for root, _, files in os.walk(os.path.join(cwd, "testdata", "rapid")):
        for f in sorted(files):
            if f.endswith(".fail"):
                failfile = open(os.path.join(root, f), errors="surrogateescape").read()
                test = os.path.basename(root)
    if not test:
        m = re.search(r"--- FAIL: (Test\w+)", log)
        test = m.group(1) if m else ""
    path = os.path.join(d, "%s-%s-%d-%d.json" % (pid, tier, seed, shard))
    with open(path, "w", errors="surrogateescape") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "shard": shard, "shards": SHARDS, "checks": checks, "race": race,
                   "why": why, "test": test, "failfile": failfile, "log": log[-60000:], **more}, f, indent=1)
    return path


def shard_seed(pid, seed, shard):
    h = hashlib.sha256(("%s/%d/%d" % (pid, seed, shard)).encode()).digest()
    return struct.unpack("<Q", h[:8])[0] >> 2 | 1


def shard_cmd(binary, pid, seed, shard, checks):
    return [binary, "-test.run", "^Test%s_" % pid, "-test.timeout=0", "-test.count=1", "-rapid.checks=%d" % checks,
            "-rapid.seed=%d" % shard_seed(pid, seed, shard), "-rapid.shrinktime=15s"]


def shard_env(tier, shard, cwd, race):
    e = env()
    e.update(VERIF_TIER=tier, VERIF_SHARD="%d/%d" % (shard, SHARDS), VERIF_STATS_OUT=os.path.join(cwd, "stats.json"),
             GOMAXPROCS="4" if race else "2", GORACE="halt_on_error=1 exitcode=66")
    return e


def fuzz(pid, seed, work, seconds):
    """Coverage-guided fuzzing: the number of executions, and what failed, if anything."""
    binary = build(work, False, fuzz=True)
    execs, new = {}, {}
    for target in ("FuzzText", "FuzzProps"):
        cwd = os.path.join(work, target)
        os.mkdir(cwd)
        e = env()
        e.update(VERIF_TIER="thorough", VERIF_FUZZ=pid, VERIF_SEED=str(seed))
        cmd = [binary, "-test.run=^$", "-test.fuzz=^%s$" % target, "-test.fuzztime=%ds" % seconds, "-test.fuzzminimizetime=50x", "-test.parallel=8",
               "-test.fuzzcachedir=" + os.path.join(cwd, "cache"), "-test.timeout=0"]
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        try:
            log = p.communicate(timeout=seconds + 600)[0]
        except subprocess.TimeoutExpired:
            stop(p)
            log = p.communicate()[0]
        finally:
            stop(p)
        done = re.findall(r"execs: (\d+) .*new interesting: (\d+)", log)
        if done:
            execs[target], new[target] = int(done[-1][0]), int(done[-1][1])
        m = re.search(r"Failing input written to testdata/fuzz/\w+/(\w+)", log)
        first = re.search(r"%s/(seed#\d+)" % target, log)
        if m or first:
            if m:
                path = os.path.join(cwd, "testdata", "fuzz", target, m.group(1))
            else:
                path = os.path.join(cwd, first.group(1))
                e["VERIF_DUMP"] = path
                subprocess.run([os.path.join(work, "check.test"), "-test.run=^%s$" % target], cwd=cwd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            case = open(path, errors="surrogateescape").read()
            code, out = fuzz_case(os.path.join(work, "check.test"), pid, target, case, work)
            kind, why = classify(code, out)
            if kind == "violation":
                smaller = minimize(os.path.join(work, "check.test"), pid, case, work)
                code2, out2 = fuzz_case(os.path.join(work, "check.test"), pid, target, smaller, work)
                kind2, why2 = classify(code2, out2)
                if kind2 == "violation":
                    case, out, why = smaller, out2, why2
                return execs, new, (target, case, out, why)
            print("a failure of %s that doesn't happen again is no finding:\n%s" % (target, log[-2000:]))
    return execs, new, None


def minimize(binary, pid, case, work):
    """A smaller input that fails, if there is one."""
    cwd = tempfile.mkdtemp(prefix="minimize-", dir=work)
    path = os.path.join(cwd, "case")
    open(path, "w", errors="surrogateescape").write(case)
    e = env()
    e.update(VERIF_TIER="thorough", VERIF_FUZZ=pid, VERIF_MINIMIZE=path)
    p = subprocess.Popen([binary, "-test.run=^TestFuzzMinimize$", "-test.timeout=0"], cwd=cwd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    try:
        p.wait(timeout=90)
    except subprocess.TimeoutExpired:
        pass
    finally:
        stop(p)
        p.wait()
    return open(path, errors="surrogateescape").read()


def fuzz_case(binary, pid, target, case, work):
    cwd = tempfile.mkdtemp(prefix="case-", dir=work)
    d = os.path.join(cwd, "testdata", "fuzz", target)
    os.makedirs(d)
    open(os.path.join(d, "case"), "w", errors="surrogateescape").write(case)
    e = env()
    e.update(VERIF_TIER="thorough", VERIF_FUZZ=pid)
    p = subprocess.run([binary, "-test.run=^%s$/^case$" % target, "-test.timeout=0"], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def run(pid, tier):
    if pid not in CHECKS:
        error("no property " + pid)
    c = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    start = time.time()
    race = c.get("race", False)
    base = os.path.join(VERIF, "build")
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=base)
    procs, result = [], None
    try:
        binary = build(work, race)
        checks = c[tier]
        limit = 840 if tier == "quick" else 3 * 3600
        for i in range(SHARDS):
            cwd = os.path.join(work, "s%d" % i)
            os.mkdir(cwd)
            log = open(os.path.join(cwd, "log"), "wb")
            procs.append((i, cwd, subprocess.Popen(shard_cmd(binary, pid, seed, i, checks), cwd=cwd, env=shard_env(tier, i, cwd, race),
                                                   stdout=log, stderr=subprocess.STDOUT, start_new_session=True)))
        pending = list(procs)
        while pending and not (result and result[0] == "violation"):
            time.sleep(0.05)
            if time.time() - start > limit:
                result = result or ("error", "time ran out", None)
                break
            for item in list(pending):
                i, cwd, p = item
                if p.poll() is None:
                    continue
                pending.remove(item)
                log = open(os.path.join(cwd, "log"), errors="replace").read()
                kind, why = classify(p.returncode, log)
                if kind == "violation":
                    path = save_replay(pid, tier, seed, i, checks, cwd, log, why, race)
                    result = (kind, why, path, log)
                    break
                if kind == "error" and not result:
                    result = (kind, "shard %d: %s\n%s" % (i, why, log[-4000:]), None)
        for _, _, p in procs:
            if p.poll() is None:
                stop(p)
                p.wait()
        fuzzed = None
        if tier == "thorough" and not result:
            execs, new, failed = fuzz(pid, seed, work, int(os.environ.get("VERIF_FUZZ_SECONDS") or 90))
            fuzzed = {"executions": execs, "new_coverage": new}
            if failed:
                target, case, log, why = failed
                path = save_replay(pid, tier, seed, 0, checks, procs[0][1], log, why, race, fuzz=target, case=case)
                result = ("violation", why, path, log)
        write_evidence(pid, tier, seed, c, checks, procs, start, fuzzed, 1 if result and result[0] == "violation" else 0)
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                stop(p)
        shutil.rmtree(work, ignore_errors=True)
    for line in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, line))
    if result and result[0] == "violation":
        print(clip(result[3]))
        print("%s: %s" % (pid, result[1]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(result[2], VERIF)))
        sys.exit(1)
    if result:
        error(result[1])
    sys.exit(0)


def clip(log):
    return log if len(log) < 8000 else log[:5000] + "\n...\n" + log[-3000:]


def write_evidence(pid, tier, seed, c, checks, procs, start, fuzzed, violations):
    total, nontrivial, classes, samples, hashes, saturated, shards = 0, 0, {}, [], set(), False, 0
    for i, cwd, _ in procs:
        try:
            s = json.load(open(os.path.join(cwd, "stats.json")))
            data = open(os.path.join(cwd, "stats.json.hashes"), "rb").read()
        except (FileNotFoundError, ValueError):
            continue
        shards += 1
        total += s["evaluations"]
        nontrivial += s["nontrivial"]
        saturated = saturated or s["saturated"]
        for k, v in s["classes"].items():
            classes[k] = classes.get(k, 0) + v
        if s["samples"]:
            samples.append(s["samples"][-1 - i % len(s["samples"])])
        hashes.update(struct.unpack("<%dQ" % (len(data) // 8), data))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
        "coverage": {
            "evaluations": total, "distinct_nontrivial": len(hashes), "rule": c["rule"],
            "samples": samples[:8], "nontrivial": nontrivial, "classes": dict(sorted(classes.items())),
            "shards_completed": shards, "checks_per_test_and_shard": checks,
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - start, 2), "violations": violations,
    }
    if fuzzed:
        ev["coverage"]["coverage_guided"] = fuzzed
    if saturated:
        ev["coverage"]["note"] = "the count of distinct cases is a lower bound"
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    os.replace(tmp, os.path.join(d, pid + ".json"))


def replay(path):
    r = json.load(open(path))
    base = os.path.join(VERIF, "build")
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay-", dir=base)
    try:
        binary = build(work, r["race"])
        if r.get("fuzz"):
            code, out = fuzz_case(binary, r["property"], r["fuzz"], r["case"], work)
            kind, why = classify(code, out)
            print(clip(out))
            if kind == "violation":
                print("VIOLATION property=%s replay=%s" % (r["property"], path))
                return 1
            return 0 if kind == "ok" else 2
        if r["failfile"]:
            ff = os.path.join(work, "case.fail")
            open(ff, "w", errors="surrogateescape").write(r["failfile"])
            cmd = [binary, "-test.run", "^%s$" % r["test"], "-test.v", "-rapid.failfile=" + ff, "-rapid.checks=1"]
        else:
            cmd = shard_cmd(binary, r["property"], r["seed"], r["shard"], r["checks"])
        p = subprocess.run(cmd, cwd=work, env=shard_env(r["tier"], r["shard"], work, r["race"]), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        kind, why = classify(p.returncode, p.stdout)
        print(clip(p.stdout))
        if kind == "violation":
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            return 1
        return 0 if kind == "ok" else 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == "--replay":
        sys.exit(replay(a[1]))
    if a == ["--setup"]:
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        for race in (False, True):  # fills the build cache
            work = tempfile.mkdtemp(prefix="setup-", dir=base)
            try:
                build(work, race)
            finally:
                shutil.rmtree(work, ignore_errors=True)
        sys.exit(0)
    if not a:
        error(__doc__)
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        error("no tier " + tier)
    run(a[0], tier)

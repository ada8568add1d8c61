#!/usr/bin/env python3
"""Decides one property of go-eosio by property-based testing.

usage: check.py <property id> [--replay FILE]

Builds the harness (/verif/harness) against /repo's working tree, runs the
property's test in several processes with different seeds, merges what they
covered into /verif/evidence/<id>.json.

exit 0: held on everything explored
exit 1: VIOLATION line printed, replay file written
exit 2: no answer (build failed, time ran out, ...)
"""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from config import CHECKS  # noqa: E402

GIB = 1 << 30


def go_env():
    e = dict(os.environ)
    for k in ("GOFLAGS", "GOWORK", "GOTOOLCHAIN", "GOEXPERIMENT", "GODEBUG", "GOMEMLIMIT", "GOGC"):
        e.pop(k, None)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off", GOFLAGS="-mod=readonly", TZ="UTC")
    e.setdefault("HOME", "/root")
    return e


def build(scratch, race, fuzz=False):
    out = os.path.join(scratch, "fuzz.test" if fuzz else "props.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if fuzz:
        cmd.append("-fuzz=FuzzProp")
    if race:
        cmd.append("-race")
    cmd.append("./props")
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout)
        print("ERROR: the harness does not build against /repo")
        sys.exit(2)
    return out


def setup():
    """Builds the harness once so that the checks find a warm build cache."""
    scratch = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        for race in (False, True):
            build(scratch, race)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(0)


def limits(race):
    def f():
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not race:
            resource.setrlimit(resource.RLIMIT_AS, (6 * GIB, 6 * GIB))
    return f


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


FATAL = re.compile(r"^(fatal error: .*|runtime: goroutine stack exceeds.*|WATCHDOG .*|SIGSEGV.*|unexpected fault address.*|WARNING: DATA RACE|panic: .*)", re.M)


def classify(rc, log):
    """-> (violated, summary); violated None means no answer."""
    if rc == 0:
        return False, ""
    m = FATAL.search(log)
    rapid = re.search(r"\[rapid\] (?:failed|panic|flaky).*", log)
    if rapid or re.search(r"^\s*--- FAIL", log, re.M) and "HARNESS-ERROR" not in log:
        return True, (rapid.group(0) if rapid else "test failed")
    if m and "HARNESS-ERROR" not in log:
        # the process died: only code under test on the stack makes it a violation
        if "greymass/go-eosio/pkg/" in log:
            return True, m.group(1)
    return None, (m.group(1) if m else "exit status %s" % rc)


def tail(s, n):
    return s if len(s) <= n else s[: n // 2] + "\n...\n" + s[-n // 2:]


def fuzz(pid, seed, scratch, binary, total):
    """Coverage-guided fuzzing of each sub-check. -> (executions by check, failure or None)

    A failure counts when its input fails again in a plain run of the binary."""
    fb = build(scratch, False, fuzz=True)
    env = go_env()
    env.update(VERIF_FUZZ=pid, VERIF_TIER="thorough", GOMAXPROCS="8", VERIF_RSEED=str(seed), TMPDIR=scratch, GOTRACEBACK="all")
    out = subprocess.run([binary, "-test.run=^TestFuzzTargets$"], cwd=scratch, env=env, stdout=subprocess.PIPE, text=True).stdout
    names = re.findall(r"^FUZZ-TARGET (.*)$", out, re.M)
    execs = {}
    for k, name in enumerate(names):
        d = os.path.join(scratch, "fuzz%d" % k)
        os.mkdir(d)
        env["VERIF_FUZZ"] = pid + "/" + name
        cmd = [fb, "-test.run=^$", "-test.fuzz=^FuzzProp$", "-test.fuzztime=%ds" % max(10, total // len(names)), "-test.fuzzcachedir=" + os.path.join(d, "corpus"),
               "-test.fuzzminimizetime=20s", "-test.parallel=8", "-test.timeout=0"]
        log = open(os.path.join(d, "log.txt"), "w")
        p = subprocess.Popen(cmd, cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT, preexec_fn=limits(False))
        try:
            rc = p.wait(timeout=total + 600)
        except subprocess.TimeoutExpired:
            rc = 0
        kill(p)
        text = open(os.path.join(d, "log.txt"), errors="replace").read()
        n = re.findall(r"execs: (\d+)", text)
        execs[name] = int(n[-1]) if n else 0
        cases = os.path.join(d, "testdata", "fuzz", "FuzzProp")
        if rc != 0:
            # without a file, one of the starting inputs failed
            case = open(os.path.join(cases, os.listdir(cases)[0])).read() if os.path.isdir(cases) and os.listdir(cases) else ""
            rc, text = fuzz_replay(pid, name, case, seed, os.path.join(scratch, "again%d" % k), binary)
            v, why = classify(rc, text)
            if v:
                return execs, dict(property=pid, tier="thorough", verif_seed=seed, fuzz=name, failfile=case, why=why, log=tail(text, 40000))
            print("note: fuzzing %s stopped early, its input does not fail again" % name)
        shutil.rmtree(d, ignore_errors=True)
    return execs, None


def fuzz_replay(pid, name, case, seed, d, binary):
    cases = os.path.join(d, "testdata", "fuzz", "FuzzProp")
    os.makedirs(cases)
    if case:
        open(os.path.join(cases, "case"), "w").write(case)
    env = go_env()
    env.update(VERIF_FUZZ=pid + "/" + name, VERIF_TIER="thorough", VERIF_RSEED=str(seed), TMPDIR=d, GOTRACEBACK="all")
    with open(os.path.join(d, "log.txt"), "w") as log:
        p = subprocess.Popen([binary, "-test.v", "-test.run=^FuzzProp$" + ("/^case$" if case else ""), "-test.timeout=0"], cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT, preexec_fn=limits(False))
        rc = p.wait()
    kill(p)
    return rc, open(os.path.join(d, "log.txt"), errors="replace").read()


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        setup()
    pid = args[0]
    cfg = CHECKS[pid]
    replay = None
    if "--replay" in args:
        path = os.path.abspath(args[args.index("--replay") + 1])
        replay = json.load(open(path))
        replay["path"] = path
    seed = int(os.environ.get("VERIF_SEED") or "1")
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        rc = run(pid, cfg, seed, tier, scratch, replay, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(pid, cfg, seed, tier, scratch, replay, t0):
    race = cfg.get("race", False)
    binary = build(scratch, race)
    shards = cfg.get("shards", 8)
    scale = cfg.get("scale", 1.0)
    limit, soft = 780, 300  # past soft, no further cases are started
    # (the fuzzing stage of the thorough tier comes on top of that)
    if tier == "thorough":
        scale *= float(os.environ.get("VERIF_DEEP") or cfg.get("deep", 20.0))
        limit, soft = 7200, 6600
    if replay and replay.get("fuzz"):
        rc, text = fuzz_replay(pid, replay["fuzz"], replay["failfile"], replay["verif_seed"], os.path.join(scratch, "replay"), binary)
        v, why = classify(rc, text)
        print(tail(text, 6000))
        if v:
            print("VIOLATION property=%s replay=%s" % (pid, replay["path"]))
        return {True: 1, False: 0, None: 2}[v]
    if replay:
        shards = 1
    procs = []
    for i in range(shards):
        d = os.path.join(scratch, "shard%d" % i)
        os.mkdir(d)
        env = go_env()
        tmp = os.path.join(d, "tmp")
        os.mkdir(tmp)
        rseed = (seed * 1000003 + i * 7919 + 1) & 0x7FFFFFFFFFFFFFFF or 1
        env.update(VERIF_TIER=tier, VERIF_SHARD=str(i), VERIF_SCALE=repr(scale), VERIF_STATS=os.path.join(d, "stats.json"), VERIF_JOURNAL=os.path.join(d, "journal.txt"),
                   VERIF_RSEED=str(rseed), TMPDIR=tmp, GOMAXPROCS=str(cfg.get("procs", 2)), GOTRACEBACK="all", VERIF_DIR=VERIF, GORACE="halt_on_error=1 exitcode=66")
        test = "^Test%s$" % pid
        cmd = [binary, "-test.v", "-test.count=1", "-test.timeout=0", "-rapid.shrinktime=15s", "-rapid.seed=%d" % rseed]
        if not replay:
            env["VERIF_DEADLINE"] = str(int(t0) + soft)
        if replay:
            env.update(VERIF_SHARD=str(replay["shard"]), VERIF_SCALE=replay["scale"], VERIF_RSEED=str(replay["seed"]), VERIF_TIER=replay["tier"])
            cmd[-1] = "-rapid.seed=%d" % replay["seed"]
            if replay.get("subtest"):
                test = "^Test%s$/^%s$" % (pid, re.escape(replay["subtest"]))
            if replay.get("failfile"):
                ff = os.path.join(d, "case.fail")
                open(ff, "w").write(replay["failfile"])
                cmd.append("-rapid.failfile=" + ff)
        cmd.append("-test.run=" + test)
        log = open(os.path.join(d, "log.txt"), "w")
        p = subprocess.Popen(cmd, cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT, preexec_fn=limits(race))
        procs.append(dict(i=i, d=d, p=p, seed=rseed, rc=None))
    failed_at = None
    timed_out = False
    while any(x["rc"] is None for x in procs):
        for x in procs:
            if x["rc"] is None:
                x["rc"] = x["p"].poll()
                if x["rc"] is not None and x["rc"] != 0 and failed_at is None:
                    failed_at = time.time()
        now = time.time()
        if failed_at and now - failed_at > 20:
            for x in procs:
                if x["rc"] is None:
                    kill(x["p"])
                    x["p"].wait()
                    x["rc"], x["killed"] = 0, True
        if now - t0 > limit:
            timed_out = True
            for x in procs:
                if x["rc"] is None:
                    kill(x["p"])
                    x["p"].wait()
                    x["rc"], x["killed"] = 0, True
        time.sleep(0.05)
    for x in procs:
        kill(x["p"])

    # merge what was covered
    evals, hashes, labels, samples = 0, set(), {}, []
    for x in procs:
        try:
            s = json.load(open(os.path.join(x["d"], "stats.json")))
        except (OSError, ValueError):
            continue
        evals += s["evaluations"]
        hashes.update(s["hashes"] or ())
        for k, v in (s["labels"] or {}).items():
            labels[k] = labels.get(k, 0) + v
        if len(samples) < 40:
            samples += (s["samples"] or [])[: 40 - len(samples)]
    violations = []
    unknown = []
    for x in procs:
        log = open(os.path.join(x["d"], "log.txt"), errors="replace").read()
        if x.get("killed"):
            continue
        v, why = classify(x["rc"], log)
        if v:
            violations.append((x, log, why))
        elif v is None:
            unknown.append((x, log, why))
    fuzzed = None
    if tier == "thorough" and not replay and not violations and not unknown and not timed_out and cfg.get("fuzz", True):
        execs, fuzzed = fuzz(pid, seed, scratch, binary, int(os.environ.get("VERIF_FUZZ_SECONDS") or "900"))
        for k, v in execs.items():
            labels["coverage-guided executions: " + k] = v
    if not replay:
        ev = dict(property=pid, tier=tier, seed=seed, level=cfg["level"],
                  coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=cfg["rule"], samples=samples or ["none: the run ended before the first case"], labels=labels, processes=len(procs)),
                  assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(violations) + (fuzzed is not None))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))

    if violations or fuzzed:
        best = fuzzed
        for x, log, why in violations:
            r = dict(property=pid, tier=tier, verif_seed=seed, shard=x["i"], seed=x["seed"], scale=repr(scale), why=why)
            m = re.search(r"--- FAIL: Test%s/(\S+)" % pid, log)
            r["subtest"] = m.group(1) if m else ""
            m = re.search(r"-rapid\.failfile=\"?([^\s\"]+)", log)
            r["failfile"] = ""
            if m:
                try:
                    r["failfile"] = open(os.path.join(x["d"], m.group(1))).read()
                except OSError:
                    pass
            try:
                r["case_running_when_the_process_died"] = tail(open(os.path.join(x["d"], "journal.txt"), errors="replace").read(), 20000) if not m else ""
            except OSError:
                pass
            for extra in ("repro.go.txt",):
                try:
                    r[extra] = open(os.path.join(x["d"], extra)).read()
                except OSError:
                    pass
            r["log"] = tail(log, 40000)
            if best is None or (len(r["failfile"]) or 1 << 40) < (len(best["failfile"]) or 1 << 40):
                best = r
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (pid, tier, seed))
        json.dump(best, open(path, "w"), indent=1)
        print(tail(best["log"], 6000))
        print("%s: %s" % (pid, best["why"]))
        print("to replay: %s/check.py %s --replay %s" % (VERIF, pid, path))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if unknown or timed_out:
        for x, log, why in unknown[:2]:
            print(tail(log, 6000))
            print("ERROR: shard %d: %s" % (x["i"], why))
        if timed_out:
            print("ERROR: time ran out after %d s" % limit)
        return 2
    print("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (pid, evals, len(hashes), time.time() - t0))
    return 0


if __name__ == "__main__":
    main()

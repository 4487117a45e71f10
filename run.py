#!/usr/bin/env python3
"""run.py check ID TIER | replay FILE | build : drives the generated checks.

Exit 0: held on everything explored. Exit 1 (with a VIOLATION line): broken.
Anything else: the check could not give an answer."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARN = os.path.join(HERE, "harness")
sys.path.insert(0, HERE)
GO = "/opt/veriftools/go1.23.12"


def env():
    e = dict(os.environ)
    e.update(HOME="/root", GOROOT=GO, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("VH_GOCACHE", "/root/.cache/go-build"),
             PATH=GO + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    for k in list(e):
        if k.startswith("RAPID_") or k in ("VH_INDEX",):
            e.pop(k)
    return e


def table():
    with open(os.path.join(HERE, "checks.json")) as f:
        return {c["id"]: c for c in json.load(f)}


def build(pkg, out, race=False, pure=False):
    e = env()
    flags = ["-tags", "purego"] if pure else []
    if race:
        e["CGO_ENABLED"] = "1"
        flags.append("-race")
    r = subprocess.run(["go", "test", "-c", "-vet=off"] + flags + ["-o", out, "./checks/" + pkg], cwd=HARN, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        print(r.stdout)
        print("ERROR: the harness does not build against /repo")
        sys.exit(3)


def kill(procs):
    for p in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def check(pid, tier):
    t0 = time.time()
    c = table()[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    work = tempfile.mkdtemp(prefix="vh-%s-" % pid)
    try:
        return check_in(pid, tier, c, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check_in(pid, tier, c, seed, work, t0):
    binp = os.path.join(work, "t.test")
    build(c["pkg"], binp, c.get("race", False))
    pure = binp
    if c.get("purego"):  # every second shard runs the code for platforms without assembly
        pure = os.path.join(work, "p.test")
        build(c["pkg"], pure, c.get("race", False), True)
    tb = time.time() - t0
    shards = c.get("shards", 8)
    kf = known_findings(pid)
    limit = 820 if tier == "quick" else int(c.get("thorough_limit", 7200))
    procs = []
    for i in range(shards):
        d = os.path.join(work, "s%d" % i)
        os.makedirs(d)
        e = env()
        e.update(VH_SHARD=str(i), VH_SHARDS=str(shards), VERIF_SEED=str(seed), VERIF_TIER=tier,
                 VH_STATS=os.path.join(d, "stats.json"), TMPDIR=d, VH_KNOWN=",".join(k for k, _ in kf),
                 GOMAXPROCS=str(c.get("procs", 2)), GOMEMLIMIT="3GiB", GOGC="200")
        log = open(os.path.join(d, "log"), "w")
        procs.append(subprocess.Popen([pure if i % 2 else binp, "-test.v", "-test.timeout=0", "-test.run", "^Test%s_" % pid],
                                      cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT, start_new_session=True))
    deadline = t0 + limit
    timed = False
    while any(p.poll() is None for p in procs):
        if time.time() > deadline:
            timed = True
            break
        # a failed shard decides: leave the others a moment, then stop
        if any(p.poll() not in (None, 0) for p in procs):
            time.sleep(1)
            break
        time.sleep(0.05)
    kill(procs)
    for p in procs:
        p.wait()
    ev, hashes, labels, samples, known = 0, set(), {}, [], []
    peak = [0, 0]  # longest case in seconds, most live heap in MB
    fails, errors, tests, exh = [], [], {}, {}
    for i, p in enumerate(procs):
        d = os.path.join(work, "s%d" % i)
        sp = os.path.join(d, "stats.json")
        log = open(os.path.join(d, "log"), errors="replace").read()
        for a, b in re.findall(r"^VH_PEAK (\d+)s (\d+)MB", log, re.M):
            peak = [max(peak[0], int(a)), max(peak[1], int(b))]
        if os.path.exists(sp):
            st = json.load(open(sp))
            for s in st["stats"]:
                ev += s["evaluations"]
                tests[s["test"]] = tests.get(s["test"], 0) + s["evaluations"]
                exh[s["test"]] = bool(s.get("exhaustive"))
                for h in s["hashes"] or []:
                    hashes.add((s["test"], h))
                for k, v in (s.get("labels") or {}).items():
                    labels[s["test"] + ": " + k] = labels.get(s["test"] + ": " + k, 0) + v
                samples += s.get("samples") or []
                known += s.get("known") or []
            if st["rc"] != 0:
                fails.append((i, log))
            continue
        rc = p.returncode
        if rc in (-signal.SIGKILL, -signal.SIGTERM):
            errors.append("shard %d was stopped" % i)
        elif "out of memory" in log or "cannot allocate memory" in log:
            errors.append("shard %d ran out of memory" % i)
        elif rc in (1, 2):  # the code under test ended the process: log.Fatal, os.Exit, fatal runtime error
            fails.append((i, log))
        else:
            errors.append("shard %d ended with %d" % (i, rc))
    uniq = []
    per = {}
    for s in samples:
        t = s.split(":")[0]
        per[t] = per.get(t, 0) + 1
        if per[t] <= 3 and s not in uniq:
            uniq.append(s)
    cov = {"evaluations": ev, "distinct_nontrivial": len(hashes), "rule": c["rule"], "samples": uniq,
           "tests": tests, "classes": labels}
    if tests and all(exh.get(t) for t in tests):
        cov["exhaustive"] = True
    out = {"property": pid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"), "coverage": cov,
           "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fails)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")
    if fails:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        i, log = fails[0]
        d = os.path.join(work, "s%d" % i)
        m = re.findall(r"^\s*--- FAIL: (\S+)", log, re.M) or re.findall(r"^=== RUN\s+(\S+)", log, re.M)[-1:]
        test = m[0] if m else "?"
        rep = {"property": pid, "test": test, "tier": tier, "seed": seed, "shard": i, "shards": shards,
               "pkg": c["pkg"], "race": c.get("race", False), "purego": bool(c.get("purego")) and i % 2 == 1,
               "log": log[-20000:]}
        x = re.findall(r"VH_INDEX=(-?\d+)", log)
        if x:
            rep["index"] = x[-1]
        ff = []
        for root, _, files in os.walk(os.path.join(d, "testdata")):
            ff += [os.path.join(root, f) for f in files if f.endswith(".fail")]
        ff = [f for f in ff if os.path.basename(os.path.dirname(f)) == test.replace("/", "_")] or ff
        if ff:
            rep["failfile"] = open(ff[0], errors="replace").read()
        path = os.path.join(rdir, "%s-%s-%d-%d.json" % (pid, test.replace("/", "_"), seed, i))
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
        tail = [l for l in log.splitlines() if l.strip()]
        print("\n".join(tail[-60:])[-6000:])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if timed:
        print("ERROR: time limit of %ds reached, no answer" % limit)
        return 3
    if errors:
        print("ERROR: " + "; ".join(errors))
        return 3
    if ev == 0:
        print("ERROR: nothing was evaluated")
        return 3
    for k, what in kf:
        if k in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, what))
        else:
            print("note: known finding %s did not reproduce" % k)
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d build=%.1fs wall=%.1fs longest_case=%ds heap=%dMB"
          % (pid, tier, seed, ev, len(hashes), tb, time.time() - t0, peak[0], peak[1]))
    return 0


def replay(path):
    rep = json.load(open(path))
    work = tempfile.mkdtemp(prefix="vh-replay-")
    try:
        binp = os.path.join(work, "t.test")
        build(rep["pkg"], binp, rep.get("race", False), rep.get("purego", False))
        e = env()
        e.update(VH_SHARD=str(rep["shard"]), VH_SHARDS=str(rep["shards"]), VERIF_SEED=str(rep["seed"]),
                 VERIF_TIER=rep["tier"], TMPDIR=work, VH_KNOWN=",".join(k for k, _ in known_findings(rep["property"])))
        args = [binp, "-test.v", "-test.timeout=0", "-test.run", "^%s$" % rep["test"]]
        if "index" in rep:
            e["VH_INDEX"] = rep["index"]
        if "failfile" in rep:
            ff = os.path.join(work, "case.fail")
            open(ff, "w").write(rep["failfile"])
            args.append("-rapid.failfile=" + ff)
        r = subprocess.run(args, cwd=work, env=e)
        if r.returncode:
            print("VIOLATION property=%s replay=%s" % (rep["property"], path))
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    want = {(c["pkg"], c.get("race", False), False) for c in table().values()}
    want |= {(c["pkg"], c.get("race", False), True) for c in table().values() if c.get("purego")}
    for pkg, race, pure in sorted(want):
        with tempfile.TemporaryDirectory() as d:
            build(pkg, os.path.join(d, "t.test"), race, pure)
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "check":
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(sys.argv[2], tier))
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "setup":
        sys.exit(setup())
    sys.exit(2)

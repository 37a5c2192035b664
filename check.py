#!/usr/bin/env python3
"""Runs one property check: check.py <PROPERTY> [quick|thorough] [--replay FILE] [--scale X]

Builds the check binary (and, where needed, the command binaries) from /repo's
working tree, runs every suite over several processes with seeds derived from
VERIF_SEED, confirms a failure in a fresh process, writes the evidence file.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken;
exit 2: the check could not be built or run (no answer).
"""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
WORKERS = 8
HARNESS_ERROR = 3  # exit status of a suite that could not do its work
BUDGET = {"quick": 780, "thorough": 6 * 3600}


def load_conf():
    with open(os.path.join(VERIF, "checks.json")) as f:
        return json.load(f)


def go_env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off",
             GOENV="off", GOFLAGS="-mod=mod", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE="/root/.cache/go-build", GOFLAGS_="")
    e["GOFLAGS"] = "-mod=readonly"
    if e.get("VERIF_OVERLAY"):  # development only: tools/seedrun.sh tries changes without touching /repo
        e["GOFLAGS"] += " -overlay=" + e["VERIF_OVERLAY"]
    for k in list(e):
        if k.startswith("RAPID_") or k in ("GOMEMLIMIT", "GODEBUG", "GOGC", "GOMAXPROCS", "GOFLAGS_"):
            del e[k]
    return e


def err(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def build(prop, conf, scratch):
    env = go_env()
    exe = os.path.join(scratch, "check")
    cmd = ["go", "build", "-buildvcs=false", "-o", exe]
    if conf.get("race"):
        cmd.insert(2, "-race")
    cmd.append("./cmd/" + prop.lower())
    r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        err("build of the check failed:\n" + r.stdout[-4000:])
    cli = ""
    if conf.get("cli"):
        cli = os.path.join(scratch, "cli")
        os.makedirs(cli)
        mod = "github.com/msnoigrs/gosudachi/"
        pk = [mod + n for n in ("gosudachicli", "dicbuilder", "userdicbuilder", "printdic", "printdicheader", "dicconv")]
        r = subprocess.run(["go", "build", "-buildvcs=false", "-o", cli + "/"] + pk, cwd=HARNESS, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            err("build of the commands failed:\n" + r.stdout[-4000:])
    return exe, cli


def run_env(conf, outdir):
    e = go_env()
    e["TMPDIR"] = outdir
    e["TZ"] = "UTC"
    e["GOMAXPROCS"] = str(conf.get("gomaxprocs", 2))
    if conf.get("race"):
        e["GORACE"] = "halt_on_error=1 exitcode=66"
    return e


class Job:
    def __init__(self, suite, shard, seed, checks, out):
        self.suite, self.shard, self.seed, self.checks, self.out = suite, shard, seed, checks, out
        self.rc, self.stderr = None, ""


def describe_crash(rc, text):
    """Is the end of the process a crash of the Go runtime (not a kill from outside)?"""
    if rc == 66 and "DATA RACE" in text:
        return "data race"
    m = re.search(r"^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*|SIGSEGV.*|unexpected fault address.*|signal arrived.*)$", text, re.M)
    if rc in (2, 66) and m and "out of memory" not in m.group(1) and "cannot allocate" not in m.group(1) \
            and "failed to create new OS thread" not in text and "HarnessError" not in text:
        return m.group(1)
    return None


def kill_tree(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def run_proc(cmd, env, cwd, timeout, register=None):
    with tempfile.TemporaryFile(dir=cwd) as so, tempfile.TemporaryFile(dir=cwd) as se:
        p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=so, stderr=se, start_new_session=True)
        if register:
            register(p)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            kill_tree(p)
            p.wait()
            rc = None
        so.seek(0), se.seek(0)
        return rc, so.read().decode("utf-8", "replace"), se.read().decode("utf-8", "replace")


def replay_file(exe, cli, conf, path, scratch, timeout):
    d = tempfile.mkdtemp(dir=scratch)
    rc, so, se = run_proc([exe, "-mode=replay", "-file=" + path, "-out=" + d, "-cli=" + cli], run_env(conf, d), d, timeout)
    shutil.rmtree(d, ignore_errors=True)
    if rc == 0:
        return False, "the case passes"
    if rc == 1:
        m = re.search(r"REASON (.*)", so, re.S)
        return True, (m.group(1).strip() if m else "fails")
    if rc == 7:
        m = re.search(r"REASON (.*)", so, re.S)
        return True, (m.group(1).strip() if m else "hang")
    c = describe_crash(rc, se) if rc is not None else None
    if c:
        return True, "the process dies: " + c + "\n" + se[:3000]
    return None, "replay ended with %s: %s" % (rc, se[-2000:])


def main():
    args = sys.argv[1:]
    prop = args[0].upper()
    tier = "quick"
    replay = None
    scale = 1.0
    only = None
    i = 1
    while i < len(args):
        a = args[i]
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            i += 1
            replay = os.path.abspath(args[i])
        elif a == "--scale":
            i += 1
            scale = float(args[i])
        elif a == "--suite":
            i += 1
            only = args[i]
        else:
            err("unknown argument " + a)
        i += 1
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        err("VERIF_SEED is not a number")
    conf = load_conf().get(prop)
    if conf is None:
        err("unknown property " + prop)
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=base)
    try:
        sys.exit(work(prop, tier, seed, conf, scratch, replay, scale, only))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def work(prop, tier, seed, conf, scratch, replay, scale, only):
    t0 = time.time()
    exe, cli = build(prop, conf, scratch)
    t_build = time.time() - t0
    if replay:
        bad, why = replay_file(exe, cli, conf, replay, scratch, BUDGET[tier])
        print(why)
        if bad is None:
            return 2
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        return 0
    suites = json.loads(subprocess.run([exe, "-mode=list"], stdout=subprocess.PIPE, check=True, text=True).stdout)
    if only:
        suites = [s for s in suites if s["name"] == only]
    jobs = []
    for s in suites:
        n = max(1, int(s[tier] * scale)) if s[tier] > 0 else 0
        if n == 0:
            continue
        k = WORKERS if tier == "quick" else WORKERS * 4
        if s["max_shards"]:
            k = min(k, s["max_shards"])
        k = min(k, n)
        for sh in range(k):
            c = n // k + (1 if sh < n % k else 0)
            h = hashlib.sha256(("%d:%s:%s:%d" % (seed, prop, s["name"], sh)).encode()).digest()
            sd = struct.unpack("<Q", h[:8])[0] >> 1 or 1
            d = os.path.join(scratch, "job-%s-%d" % (s["name"], sh))
            os.makedirs(d)
            jobs.append(Job(s["name"], sh, sd, c, d))
    # interleave suites so that all are under way early
    jobs.sort(key=lambda j: j.shard)
    deadline = t0 + BUDGET[tier]
    lock = threading.Lock()
    running, queue, failed = set(), list(jobs), []
    stop = threading.Event()

    def reg(p):
        with lock:
            running.add(p)
            if stop.is_set():
                kill_tree(p)

    def worker():
        while True:
            with lock:
                if stop.is_set() or not queue:
                    return
                j = queue.pop(0)
            env = run_env(conf, j.out)
            cmd = [exe, "-mode=run", "-suite=" + j.suite, "-seed=%d" % j.seed, "-checks=%d" % j.checks, "-out=" + j.out, "-cli=" + cli]
            rc, so, se = run_proc(cmd, env, j.out, max(5, deadline - time.time()), reg)
            j.rc, j.stderr = rc, se
            if rc != 0:
                with lock:
                    if not stop.is_set() and rc == HARNESS_ERROR:
                        # such as too many skipped cases: another suite may still find a violation
                        failed.append(j)
                    elif not stop.is_set():
                        failed.insert(0, j)
                        stop.set()
                        for p in running:
                            if p.poll() is None:
                                kill_tree(p)

    nworkers = conf.get("workers", WORKERS)
    ths = [threading.Thread(target=worker) for _ in range(nworkers)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()

    verdict = 0
    if failed:
        verdict = judge(prop, failed[0], exe, cli, conf, scratch, deadline)
    write_evidence(prop, tier, seed, conf, suites, jobs, verdict, time.time() - t0, t_build)
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    return verdict


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def judge(prop, j, exe, cli, conf, scratch, deadline):
    """A job did not end with 0: decide between a violation and an error of the check."""
    cands = [os.path.join(j.out, n) for n in ("violation.json", "first.json")]
    have = any(os.path.exists(c) for c in cands)
    if j.rc == 7:
        cands.append(os.path.join(j.out, "hang.json"))
    elif j.rc is None:
        if not have:
            print("ERROR: time budget used up (suite %s shard %d)" % (j.suite, j.shard))
            return 2
    elif j.rc != 1:
        c = describe_crash(j.rc, j.stderr)
        if not c and not have:
            print("ERROR: suite %s shard %d ended with %s\n%s" % (j.suite, j.shard, j.rc, j.stderr[:1500] + j.stderr[-1500:]))
            return 2
        if c:
            print("the process of suite %s died: %s" % (j.suite, c))
            cands.append(os.path.join(j.out, "cur.json"))
    left = lambda: max(10, deadline + 60 - time.time())
    for c in cands:
        if not os.path.exists(c):
            continue
        bad, why = None, ""
        for _ in range(conf.get("confirm", 1)):
            bad, why = replay_file(exe, cli, conf, c, scratch, left())
            if bad:
                break
        if bad:
            return report(prop, c, why)
        if bad is None:
            print("note: " + why)
    # Not reproducible from the single case: is it reproducible from the whole deterministic run?
    sp = os.path.join(scratch, "shard.json")
    with open(sp, "w") as f:
        json.dump({"property": prop, "suite": j.suite, "mode": "shard", "reason": "fails only after the earlier cases of the same process", "seed": j.seed, "checks": j.checks}, f)
    bad, why = replay_file(exe, cli, conf, sp, scratch, left())
    if bad:
        return report(prop, sp, why)
    print("ERROR: a failure of suite %s (shard %d) could not be reproduced in a fresh process" % (j.suite, j.shard))
    return 2


def report(prop, path, why):
    with open(path) as f:
        r = json.load(f)
    r["reason"] = why[:6000]
    text = json.dumps(r, ensure_ascii=False, indent=1)
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(text.encode("utf-8", "surrogatepass")).hexdigest()[:12]))
    with open(dst, "w", encoding="utf-8", errors="surrogatepass") as f:
        f.write(text)
    print("suite %s: %s" % (r["suite"], why[:3000]))
    c = json.dumps(r.get("case"), ensure_ascii=False)
    print("case: " + (c if len(c) < 2500 else c[:2500] + "...").encode("utf-8", "replace").decode())
    print("VIOLATION property=%s replay=%s" % (prop, dst), flush=True)
    return 1


def write_evidence(prop, tier, seed, conf, suites, jobs, verdict, wall, t_build):
    ev = distinct = 0
    per, samples = {}, []
    rules = []
    for s in suites:
        hs, n, classes, cand = set(), 0, {}, []
        for j in jobs:
            if j.suite != s["name"]:
                continue
            try:
                with open(os.path.join(j.out, "out.json"), encoding="utf-8") as f:
                    o = json.load(f)
                with open(os.path.join(j.out, "hashes.bin"), "rb") as f:
                    b = f.read()
            except (OSError, ValueError):
                continue
            hs.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            n += o["evaluations"]
            for k, v in (o["classes"] or {}).items():
                classes[k] = classes.get(k, 0) + v
            cand += o["samples"] or []
        ev += n
        distinct += len(hs)
        per[s["name"]] = {"evaluations": n, "distinct_nontrivial": len(hs), "classes": dict(sorted(classes.items()))}
        rules.append("%s: %s" % (s["name"], s["rule"]))
        cand.sort(key=lambda c: len(json.dumps(c)))
        pick = [cand[k * (len(cand) - 1) // 2] for k in range(3)] if len(cand) > 2 else cand
        for c in pick:
            t = json.dumps(c, ensure_ascii=False)
            samples.append({"suite": s["name"], "case": c if len(t) <= 2500 else t[:2500] + "...(truncated)"})
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": ev, "distinct_nontrivial": distinct, "rule": " | ".join(rules), "samples": samples, "suites": per},
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": 1 if verdict == 1 else 0,
    }
    while len(json.dumps(doc)) > 55000 and samples:
        samples.pop(max(range(len(samples)), key=lambda k: len(json.dumps(samples[k]))))
    d = os.path.join(VERIF, "evidence")
    if os.environ.get("VERIF_OVERLAY"):
        d = tempfile.gettempdir()
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + ".json.tmp")
    with open(tmp, "w", encoding="utf-8", errors="replace") as f:
        json.dump(doc, f, ensure_ascii=True, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs (build %.1fs)" % (prop, tier, seed, ev, distinct, wall, t_build))


if __name__ == "__main__":
    main()

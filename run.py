#!/usr/bin/env python3
"""Runs the check of one property: run.py <ID> [--tier quick|thorough] [--seed N].

Builds the generated-input tests from /repo's working tree (overlay, copied
modfile), runs them in scratch directories, merges what they measured into
evidence/<ID>.json and decides: exit 0 (held on everything explored), exit 1
with a VIOLATION line, exit 2 (no answer: the check itself failed)."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

# the public parameters of the model server's zero-knowledge group system (its
# secret parameters come from the seed in harness/root/zk_test.go)
ZKPUB = "AGZyJOI3JWqfVkc4eTKCJGnbeLHwi6Vekj3Y8dKEdlE+0j9NvfLeUPIi4YT2DcXEg0F7BR/gzKlnRUDFtK8QXReWW2Lk4WHNk6xTbHfMliwf5p4goLM7LlYugMGdpCt+bdyPufhUCmg9QR4Gr1eZOBHAgySfnBH7SQn4dSKKIdg9KPaVVlfK0UJVeJErJETHlb3QabJdMiLBkxC2LQiFHE/yJ9TbBxzP/Y96yiNbPmTg03j6FnlT4bWEBuCv6LMBb64RIgs4W8zVA0h2uVn8PzQMmJEgcI792U0vTA8ntCI6JFefTZ3FzDBi55rNO7ZY9yKWGyB4GECKq0oZ1f9UeGlINHR5eumGlMm+QgDh6FpVPO1esvIPugaN7w3JcoNpBA=="

MOD = "github.com/signal-golang/textsecure"


def go_env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="1",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOWORK="off")
    e["PATH"] = "/usr/local/go/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def make_modfile(d):
    mod = open(os.path.join(REPO, "go.mod")).read()
    mod += "\nrequire pgregory.net/rapid v1.3.0\n"
    open(os.path.join(d, "go.mod"), "w").write(mod)
    s = open(os.path.join(REPO, "go.sum")).read()
    if not s.endswith("\n"):
        s += "\n"
    s += open(os.path.join(VERIF, "harness", "rapid.sum")).read()
    open(os.path.join(d, "go.sum"), "w").write(s)
    return os.path.join(d, "go.mod")


def overlay(d, unit):
    """All Go test files of the package are hidden; the harness files are added."""
    rep = {}
    for sub in ("kit", "ref"):
        hd = os.path.join(VERIF, "harness", sub)
        for f in sorted(os.listdir(hd)):
            rep[os.path.join(REPO, "zzverif", sub, f)] = os.path.join(hd, f)
    pkg = os.path.normpath(os.path.join(REPO, unit["pkg"]))
    if os.path.isdir(pkg):
        for f in os.listdir(pkg):
            if f.endswith("_test.go"):
                rep[os.path.join(pkg, f)] = ""
    for f in unit["files"]:
        rep[os.path.join(pkg, "zz_" + os.path.basename(f))] = os.path.join(VERIF, "harness", f)
    # the server's public parameters are a constant: put the model server's there
    cd = os.path.join(REPO, "config")
    for f in sorted(os.listdir(cd)) if os.path.isdir(cd) else []:
        p = os.path.join(cd, f)
        if f.endswith(".go") and not f.endswith("_test.go") and p not in rep:
            t = open(p, encoding="utf-8", errors="surrogateescape").read()
            n = re.sub(r'(\bZKGROUP_SERVER_PUBLIC_PARAMS\b[^\n"`]*=\s*)"[^"\n]*"', lambda m: m.group(1) + '"' + ZKPUB + '"', t)
            if n != t:
                q = os.path.join(d, "config-" + unit["name"] + "-" + f)
                open(q, "w", encoding="utf-8", errors="surrogateescape").write(n)
                rep[p] = q
    p = os.path.join(d, "overlay-%s.json" % unit["name"])
    json.dump({"Replace": rep}, open(p, "w"))
    return p


def build(d, unit, env):
    out = os.path.join(d, unit["name"] + ".test")
    # its own copy: the go command may rewrite the file while building
    md = os.path.join(d, "mod-" + unit["name"])
    os.makedirs(md)
    modfile = make_modfile(md)
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", overlay(d, unit), "-modfile", modfile, "-o", out]
    if unit.get("race"):
        cmd.append("-race")
    if unit.get("tags"):
        cmd += ["-tags", unit["tags"]]
    cmd.append("./" + os.path.normpath(unit["pkg"]))
    r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        die("build of %s failed:\n%s%s" % (unit["name"], r.stdout, r.stderr))
    if not os.path.exists(out):
        die("build of %s made no binary:\n%s%s" % (unit["name"], r.stdout, r.stderr))
    return out


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--seed" in args:
        seed = int(args[args.index("--seed") + 1])
    if pid not in CHECKS:
        die("unknown property " + pid)
    chk = CHECKS[pid]
    t0 = time.time()
    env = go_env()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    rc = 2
    try:
        rc = run(pid, chk, tier, seed, env, scratch, t0)
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def run(pid, chk, tier, seed, env, scratch, t0):
    bd = os.path.join(scratch, "build")
    evd = os.path.join(scratch, "ev")
    os.makedirs(bd)
    os.makedirs(evd)
    make_modfile(bd)
    zk = subprocess.run(["go", "list", "-modfile", os.path.join(bd, "go.mod"), "-m", "-f", "{{.Dir}}", "github.com/nanu-c/zkgroup"],
                        cwd=REPO, env=env, capture_output=True, text=True)
    env["LD_LIBRARY_PATH"] = zk.stdout.strip() + "/lib"
    known = known_findings(pid)
    env["VERIF_TIER"] = tier
    env["VERIF_EV_OUT"] = evd
    env["VERIF_KNOWN"] = ",".join(k for k, _ in known)
    env["VERIF_REPO"] = REPO

    # build each unit (in parallel)
    bins, errs = {}, []

    def b(u):
        try:
            bins[u["name"]] = build(bd, u, env)
        except SystemExit:
            errs.append(u["name"])
    ths = [threading.Thread(target=b, args=(u,)) for u in chk["units"]]
    for t in ths: t.start()
    for t in ths: t.join()
    if errs:
        return 2
    for name, path in bins.items():
        env["VERIF_BIN_" + name] = path

    # the list of runs
    runs = []
    for u in chk["units"]:
        for t in u["tests"]:
            n = t["quick"] if tier == "quick" else t.get("thorough", t["quick"] * 20)
            shards = t.get("shards", 1) if tier == "quick" else t.get("tshards", t.get("shards", 1) * 2)
            for s in range(shards):
                runs.append((u, t, max(1, n // shards), s))
    limit = chk.get("limit", 240) if tier == "quick" else chk.get("tlimit", 3000)
    results = []
    sem = threading.Semaphore(int(os.environ.get("VERIF_JOBS", chk.get("jobs", 8))))
    lock = threading.Lock()
    stop = threading.Event()

    def one(i, u, t, n, shard):
        with sem:
            if stop.is_set():
                return
            cwd = os.path.join(scratch, "run%d" % i)
            os.makedirs(os.path.join(cwd, "tmp"))
            e = dict(env)
            e["VERIF_SCRATCH"] = os.path.join(cwd, "tmp")
            e["TMPDIR"] = os.path.join(cwd, "tmp")
            for k, v in t.get("env", {}).items():
                e[k] = str(v)
            rs = (seed * 1000003 + shard * 7919 + i * 101 + 1) & 0x7fffffffffffffff or 1
            log = os.path.join(cwd, "log.txt")
            cmd = [bins[u["name"]], "-test.run", "^%s$" % t["name"], "-test.timeout", "%ds" % limit, "-test.v",
                   "-rapid.checks=%d" % n, "-rapid.seed=%d" % rs, "-rapid.shrinktime=%s" % ("10s" if tier == "quick" else "60s")]
            with open(log, "wb") as f:
                p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
                try:
                    code = p.wait(timeout=limit + 60)
                except subprocess.TimeoutExpired:
                    code = "timeout"
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
            text = open(log, errors="replace").read()
            with lock:
                results.append((u, t, shard, code, text, cwd, cmd, rs, n))
            if code != 0 and "VERIF-VIOLATION" in text:
                stop.set()
    ths = [threading.Thread(target=one, args=(i,) + r) for i, r in enumerate(runs)]
    for t in ths: t.start()
    for t in ths: t.join()

    violations, errors = [], []
    for r in results:
        u, t, shard, code, text, cwd, cmd, rs, n = r
        kind = classify(code, text)
        if kind == "violation":
            violations.append(r)
        elif kind == "error":
            errors.append(r)

    cov = merge(evd, chk)
    if violations:
        replay = save_replay(pid, violations[0], env)
    if not violations and not errors and cov["distinct_nontrivial"] == 0:
        print("CHECK-ERROR: nothing non-trivial was generated")
        return 2
    for k, what in known:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, what, k))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": chk.get("level", "exploration"), "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations),
          "assumptions": chk.get("assumptions", [])}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if violations:
        u, t, shard, code, text, cwd, cmd, rs, n = violations[0]
        m = re.search(r"VERIF-VIOLATION: (.*)", text)
        print("%s: %s" % (t["name"], m.group(1) if m else last_lines(text)))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if errors:
        for r in errors[:3]:
            print("CHECK-ERROR: %s ended with %s\n%s" % (r[1]["name"], r[3], r[4][-6000:]))
        return 2
    print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


def last_lines(text):
    return " / ".join(text.strip().splitlines()[-5:])


def classify(code, text):
    if code == 0:
        return "ok" if re.search(r"^--- PASS", text, re.M) else "error"
    if "VERIF-VIOLATION" in text:
        return "violation"
    if "VERIF-HARNESS" in text or code == "timeout" or "panic: test timed out" in text:
        return "error"
    if "out of memory" in text or "cannot allocate memory" in text or "no space left" in text:
        return "error"
    # a crash counts if the code under test is on the stack
    if re.search(r"\[rapid\] panic after|^panic: |^fatal error: |SIGSEGV|SIGABRT|WARNING: DATA RACE", text, re.M):
        for line in text.splitlines():
            m = re.match(r"\s+(/repo/\S+\.go|%s/\S+\.go):\d+" % re.escape(REPO), line)
            if m and "/zzverif/" not in m.group(1) and "/zz_" not in m.group(1):
                return "violation"
        if "rapid" in text and re.search(r"textsecure/(?!zzverif)", text) and "runtime error" in text:
            return "violation"
    return "error"


def save_replay(pid, r, env):
    u, t, shard, code, text, cwd, cmd, rs, n = r
    d = os.path.join(VERIF, "replay", "%s-%s-seed%d" % (pid, t["name"], rs))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "log.txt"), "w").write(text)
    fail = None
    td = os.path.join(cwd, "testdata", "rapid")
    if os.path.isdir(td):
        for root, _, files in os.walk(td):
            for f in files:
                if f.endswith(".fail"):
                    shutil.copy(os.path.join(root, f), os.path.join(d, "case.fail"))
                    fail = os.path.join(d, "case.fail")
    info = {"property": pid, "unit": u["name"], "test": t["name"], "rapid_seed": rs, "checks": n, "env": t.get("env", {}),
            "failfile": fail, "how": "python3 /verif/replay.py " + d}
    p = os.path.join(d, "replay.json")
    json.dump(info, open(p, "w"), indent=1)
    return p


def merge(evd, chk):
    ev, nt, hashes, classes, excl, samples, rules = 0, 0, set(), {}, {}, [], []
    per = {}
    for f in sorted(os.listdir(evd)):
        j = json.load(open(os.path.join(evd, f)))
        ev += j["evaluations"]
        nt += j["nontrivial"]
        hashes.update((j["test"], h) for h in (j["hashes"] or []))
        pt = per.setdefault(j["test"], {"evaluations": 0, "nontrivial": 0})
        pt["evaluations"] += j["evaluations"]
        pt["nontrivial"] += j["nontrivial"]
        for k, v in j["classes"].items():
            classes[j["test"] + "/" + k] = classes.get(j["test"] + "/" + k, 0) + v
        for k, v in (j.get("excluded") or {}).items():
            excl[k] = excl.get(k, 0) + v
        for s in (j["samples"] or [])[:4]:
            samples.append(j["test"] + ": " + s)
        if j["rule"] not in rules:
            rules.append(j["rule"])
    per_test, keep = {}, []
    for s in samples:
        k = s.split(":")[0]
        per_test[k] = per_test.get(k, 0) + 1
        if per_test[k] <= 3:
            keep.append(s)
    c = {"evaluations": ev, "distinct_nontrivial": len(hashes), "nontrivial": nt, "rule": " || ".join(rules),
         "samples": keep[:16] or ["none"], "classes": dict(sorted(classes.items())), "tests": per}
    if excl:
        c["excluded_by_known_finding"] = excl
    return c


if __name__ == "__main__":
    main()

"""Mutation testing of the checks: mutrun.py OUT.jsonl SEED COUNT [file substrings].

Draws mutants of /repo's files (tools/mutate), keeps those that build and pass the stable tests, and runs the
checks that ought to see them, in scratch worktrees. Survivors are for reading, not a verdict."""
import json, os, random, subprocess, sys, threading, tempfile, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
    (r"axolotl/session", "C01 C02 C03 C04 C05 C06 C07 C08 C13 C14"), (r"axolotl/ratchet", "C01 C02 C06 C03"), (r"axolotl/messages", "C07 C02 C06 C01"),
    (r"axolotl/prekeys", "C09 C04 C22 C06 C07"), (r"axolotl/keys", "C01 C06 C37 C03"), (r"axolotl/crypto", "C06 C02 C01"), (r"axolotl", "C01 C06 C07"),
    (r"curve25519sign", "C15 C04"), (r"fingerprint", "C16"), (r"^store", "C09 C10 C11 C12 C13 C26"), (r"^prekeys", "C14 C09 C37 C04 C07"),
    (r"^attachments", "C17 C18 C19"), (r"^crypto.go", "C17 C10 C18 C24 C34 C37"), (r"^groups.go", "C25 C19 C23 C32"), (r"^link", "C24"),
    (r"^sync", "C23 C19 C21 C25"), (r"^handler", "C19 C21 C23 C20 C32"), (r"^sender", "C19 C20 C23"), (r"^server", "C20 C19 C14 C24 C28 C33 C22 C32 C21 C29"),
    (r"^textsecure", "C19 C21 C34 C22 C37 C25 C20 C24 C32 C35"), (r"^websocket", "C34 C21"), (r"^config", "C26"), (r"contacts/", "C26 C28"),
    (r"config/", "C26"), (r"contactsDiscovery|contactDiscoveryCrypto", "C28 C29"), (r"crayfish", "C36"), (r"groupsv2/groupMod", "C30 C32"),
    (r"groupsv2/groupValid", "C31 C32"), (r"groupsv2/groupAction", "C30 C32"), (r"groupsv2", "C32 C30 C31"), (r"profiles", "C27 C17"), (r"^profile", "C27"),
    (r"crypto/", "C27 C28"), (r"transport", "C33 C20"), (r"unidentifiedAccess", "C35 C33"), (r"rootCa", "C33"), (r"helpers|utils|entities", "C33 C20 C32 C19"),
]


def checks(f):
    for p, c in MAP:
        if re.search(p, f):
            return c.split()
    return []


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), env=env, capture_output=True, text=True, timeout=timeout)


def main():
    out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    subs = sys.argv[4:]
    workers = int(os.environ.get("MUT_WORKERS", "2"))
    sh("go build -o /tmp/mutate .", V + "/tools/mutate")
    files = [f for f in sh("git ls-files '*.go'", "/repo").stdout.split()
             if not f.endswith("_test.go") and ".pb." not in f and not f.startswith("cmd/") and checks(f) and (not subs or any(s in f for s in subs))]
    ms = []
    for f in files:
        for l in sh(["/tmp/mutate", f], "/repo").stdout.splitlines():
            m = json.loads(l)
            m["file"] = f
            ms.append(m)
    rnd = random.Random(seed)
    rnd.shuffle(ms)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["Start"], d["New"], d["Desc"]))
    ms = [m for m in ms[:count] if (m["file"], m["Start"], m["New"], m["Desc"]) not in done]
    lock = threading.Lock()

    def worker(i):
        wt = "/tmp/mutwt%d" % i
        sh("git -C /repo worktree remove --force %s" % wt, "/repo")
        sh("git -C /repo worktree add --detach %s HEAD" % wt, "/repo")
        while True:
            with lock:
                if not ms:
                    break
                m = ms.pop(0)
            sh("git checkout -q -- .", wt)
            p = os.path.join(wt, m["file"])
            b = open(p, "rb").read()
            open(p, "wb").write(b[:m["Start"]] + m["New"].encode() + b[m["End"]:])
            env = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="1", GOWORK="off",
                       LD_LIBRARY_PATH="/root/go/pkg/mod/github.com/nanu-c/zkgroup@v0.9.0/lib", VERIF_REPO=wt, VERIF_JOBS=os.environ.get("MUT_JOBS", "4"))
            r = sh("go build ./... && go vet -vettool=/bin/true . >/dev/null 2>&1; true", wt, env)
            res = {"killed": None, "ran": []}
            r = sh("go build ./... ", wt, env)
            if r.returncode:
                res["killed"] = "build"
            else:
                try:
                    r = sh("go test -vet=off ./... 2>&1 | grep -E '^(--- FAIL|panic|FAIL.*build)' | grep -v axolotl | head -3", wt, env)
                    if "--- FAIL" in r.stdout or "panic" in r.stdout:
                        res["killed"] = "tests"
                except subprocess.TimeoutExpired:
                    res["killed"] = "tests"
            if not res["killed"]:
                for c in checks(m["file"]):
                    try:
                        r = sh(["python3", V + "/run.py", c, "--seed", "1"], V, env)
                    except subprocess.TimeoutExpired:
                        res["ran"].append(c + ":timeout")
                        continue
                    res["ran"].append("%s:%d" % (c, r.returncode))
                    if r.returncode == 1:
                        res["killed"] = c
                        mm = re.search(r"^(Test\w+: .*)$", r.stdout, re.M)
                        res["how"] = mm.group(1)[:300] if mm else ""
                        break
            m.update(res)
            with lock:
                open(out, "a").write(json.dumps(m) + "\n")
        sh("git -C /repo worktree remove --force %s" % wt, "/repo")

    ths = [threading.Thread(target=worker, args=(i,)) for i in range(workers)]
    for t in ths: t.start()
    for t in ths: t.join()


main()

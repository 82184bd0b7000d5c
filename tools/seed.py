"""Make a planted bug: seed(id, prop, edits, needs, breaks, pkg, demo) in a scratch worktree.

edits: list of (file, old, new). demo: Go test source (package clause included), placed in pkg
through an overlay that hides the package's own tests. Nothing is kept unless the patched tree
builds, passes the stable tests, and the demo tells the two trees apart.
"""
import json, os, shutil, subprocess, sys, tempfile, time
REPO, OUT, WT = "/repo", "/verif/seeded", "/tmp/seedwt"

DEMO = '''#!/bin/bash
# Run with the repository as the working directory: exit 0 when the behaviour is right.
export PATH=$PATH:/usr/local/go/bin HOME=${HOME:-/root} CGO_ENABLED=1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
exec python3 "$(dirname "$0")/run_demo.py" PKG
'''
RUN = '''import glob, json, os, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
repo = os.getcwd()
pkg = sys.argv[1]
zk = subprocess.run(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/nanu-c/zkgroup"], capture_output=True, text=True).stdout.strip()
env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(zk, "lib"))
with tempfile.TemporaryDirectory() as tmp:
    rep = {f: "" for f in glob.glob(os.path.join(repo, pkg, "*_test.go"))}
    rep[os.path.join(repo, pkg, "zz_demo_test.go")] = os.path.join(here, "demo_test.go.txt")
    ov = os.path.join(tmp, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    env["TMPDIR"] = tmp
    os.makedirs(os.path.join(tmp, "cwd"))
    bin = os.path.join(tmp, "demo.test")
    r = subprocess.run(["go", "test", "-vet=off", "-c", "-o", bin, "-overlay", ov, "./" + pkg], env=env)
    if r.returncode:
        sys.exit(3)
    r = subprocess.run([bin, "-test.run", "TestDemo", "-test.timeout", "120s"], env=env, cwd=os.path.join(tmp, "cwd"))
    sys.exit(1 if r.returncode else 0)
'''

def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)

def worktree():
    if not os.path.isdir(WT):
        r = sh(["git", "-C", REPO, "worktree", "add", "--detach", WT, "HEAD"]); assert r.returncode == 0, r.stderr
    head = sh(["git", "-C", REPO, "rev-parse", "HEAD"]).stdout.strip()
    r = sh(["git", "-C", WT, "checkout", "-f", "--detach", head]); assert r.returncode == 0, r.stderr

def original(f, old, base="3df2f9d"):
    """The changed lines must be lines of the original repository."""
    t = sh(["git", "-C", REPO, "show", base + ":" + f]).stdout
    lines = [l.strip() for l in t.split("\n")]
    return any(l.strip() and l.strip() in lines for l in old.split("\n"))

def stable(wt):
    env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
    zk = sh(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/nanu-c/zkgroup"], cwd=wt, env=env).stdout.strip()
    env["LD_LIBRARY_PATH"] = zk + "/lib"
    r = sh(["go", "build", "./..."], cwd=wt, env=env)
    if r.returncode: return "does not build: " + r.stderr[:1500]
    r = sh("go test -json -vet=off -count=1 -timeout 5m ./...", cwd=wt, env=env, shell=True)
    passed = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): passed.add(e["Package"] + "/" + e["Test"])
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return "" if want <= passed else "stable tests fail: %s" % sorted(want - passed)

def seed(id, prop, edits, needs, breaks, pkg, demo, extra=None):
    worktree()
    for f, a, b in edits:
        if not original(f, a): print(id, "NOT ORIGINAL?", f)
        p = os.path.join(WT, f); t = open(p).read()
        assert t.count(a) == 1, (id, f, t.count(a))
        open(p, "w").write(t.replace(a, b))
    diff = sh(["git", "-C", WT, "diff"]).stdout
    d = tempfile.mkdtemp()
    open(d + "/demo_test.go.txt", "w").write(demo)
    open(d + "/run_demo.py", "w").write(RUN)
    open(d + "/demo.sh", "w").write(DEMO.replace("PKG", pkg)); os.chmod(d + "/demo.sh", 0o755)
    for name, text in (extra or {}).items(): open(d + "/" + name, "w").write(text)
    msg = stable(WT)
    bad = sh(["bash", d + "/demo.sh"], cwd=WT)
    sh(["git", "-C", WT, "checkout", "-f", "."])
    good = sh(["bash", d + "/demo.sh"], cwd=WT)
    if msg or bad.returncode != 1 or good.returncode != 0:
        print(id, "REJECTED", msg, "patched:", bad.returncode, "unpatched:", good.returncode)
        print((bad.stdout + bad.stderr)[-1500:] if bad.returncode != 1 else "")
        print((good.stdout + good.stderr)[-2500:] if good.returncode else "")
        shutil.rmtree(d); return
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    out = os.path.join(OUT, id)
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(d, out); os.chmod(out, 0o755); shutil.rmtree(d)
    print(id, "kept")

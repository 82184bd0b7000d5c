#!/usr/bin/env python3
"""replay.py <replay dir>: rebuilds the test and re-runs the recorded failing case."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import run as R
d = sys.argv[1]
d = os.path.dirname(d) if d.endswith(".json") else d
info = json.load(open(os.path.join(d, "replay.json")))
unit = next(u for u in R.CHECKS[info["property"]]["units"] if u["name"] == info["unit"])
env = R.go_env()
s = tempfile.mkdtemp(prefix="verif-replay-")
try:
    R.make_modfile(s)
    zk = subprocess.run(["go", "list", "-modfile", os.path.join(s, "go.mod"), "-m", "-f", "{{.Dir}}", "github.com/nanu-c/zkgroup"], cwd=R.REPO, env=env, capture_output=True, text=True)
    env["LD_LIBRARY_PATH"] = zk.stdout.strip() + "/lib"
    env["VERIF_KNOWN"] = ",".join(k for k, _ in R.known_findings(info["property"]))
    b = R.build(s, unit, env)
    env["VERIF_BIN_" + unit["name"]] = b
    for u in R.CHECKS[info["property"]]["units"]:
        if u.get("tags"):  # a binary for child processes
            env["VERIF_BIN_" + u["name"]] = R.build(s, u, env)
    env["VERIF_SCRATCH"] = env["TMPDIR"] = s
    env.update({k: str(v) for k, v in info["env"].items()})
    cmd = [b, "-test.run", "^%s$" % info["test"], "-test.v"]
    if info["failfile"] and os.path.exists(os.path.join(d, "case.fail")):
        cmd.append("-rapid.failfile=" + os.path.join(d, "case.fail"))
    else:
        cmd += ["-rapid.seed=%d" % info["rapid_seed"], "-rapid.checks=%d" % info["checks"]]
    sys.exit(subprocess.run(cmd, cwd=s, env=env).returncode)
finally:
    shutil.rmtree(s, ignore_errors=True)

"""Run the checks of the planted bugs (default: their own property) against each patch in a worktree: trybug.py [ids...]"""
import json, os, subprocess, sys
WT = "/tmp/trywt"
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
if not os.path.isdir(WT):
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "--detach", WT, "HEAD"], check=True, capture_output=True)
for i in ids:
    head = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True, text=True).stdout.strip()
    subprocess.run(["git", "-C", WT, "checkout", "-f", "--detach", head], check=True, capture_output=True)
    d = "/verif/seeded/" + i
    r = subprocess.run(["git", "-C", WT, "apply", d + "/patch.diff"])
    if r.returncode: print(i, "patch does not apply"); continue
    m = json.load(open(d + "/meta.json"))
    env = dict(os.environ, VERIF_REPO=WT, VERIF_TIER="quick", VERIF_SEED="1")
    r = subprocess.run(["python3", "/verif/run.py", m["property"], "quick"], cwd="/verif", env=env, capture_output=True, text=True)
    lines = [l for l in (r.stdout + r.stderr).splitlines() if "VIOLATION" in l]
    print(i, m["property"], "exit", r.returncode, "CAUGHT" if r.returncode == 1 and lines else "MISSED", lines[:1], flush=True)
subprocess.run(["git", "-C", WT, "checkout", "-f", "."], capture_output=True)

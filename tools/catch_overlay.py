#!/usr/bin/env python3
"""Run a quick check against a planted bug without touching /repo.

usage: catch_overlay.py BUG [CHECK...]   (default: the bug's own property)
The patched files are laid over /repo with 'go build -overlay'.
"""
import json, os, subprocess, sys, tempfile, shutil
bug = sys.argv[1]
here = f"/verif/seeded/{bug}"
meta = json.load(open(here + "/meta.json"))
checks = sys.argv[2:] or [meta["property"]]
wd = tempfile.mkdtemp(prefix="catch")
try:
    files = [l[6:].strip() for l in open(here + "/patch.diff") if l.startswith("+++ b/")]
    for f in files:
        os.makedirs(os.path.dirname(f"{wd}/src/{f}"), exist_ok=True)
        shutil.copy("/repo/" + f, f"{wd}/src/{f}")
    subprocess.run(["git", "apply", "--unsafe-paths", f"--directory={wd}/src", here + "/patch.diff"], check=True, cwd="/")
    json.dump({"Replace": {"/repo/" + f: f"{wd}/src/{f}" for f in files}}, open(wd + "/o.json", "w"))
    os.makedirs(wd + "/root")
    shutil.copy("/verif/known_findings.txt", wd + "/root")
    for c in checks:
        low = c.lower()
        race = "-race" if os.path.exists(f"/verif/harness/checks/{low}/RACE") else ""
        r = subprocess.run(["bash", "-c", f". /verif/env.sh; cd /verif/harness && go build {race} -overlay {wd}/o.json -o {wd}/chk ./checks/{low} && VERIF_ROOT={wd}/root VERIF_TIER=quick VERIF_SEED=${{VERIF_SEED:-1}} VERIF_NO_EVIDENCE=1 {wd}/chk"], capture_output=True, text=True)
        out = (r.stdout + r.stderr).strip().splitlines()
        print(bug, c, {0: "MISSED", 1: "caught"}.get(r.returncode, f"exit {r.returncode}"))
        if r.returncode:
            print("\n".join(out[-12:]))
finally:
    shutil.rmtree(wd)

#!/usr/bin/env python3
"""Runs checks against the planted bugs, in a copy of /verif and /repo (development aid; no check reads this).

seeds.py DIR own [SEED...]     each bug against the check of its own property
seeds.py DIR all [SEED...]     each bug against every check
seeds.py DIR C01,C02 [SEED...] each bug against these checks
SEEDED=DIR takes the patches from another directory (refactorings, which every check must ignore).
Appends lines "seed check rc seconds signature" to DIR/results.txt.
"""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, which, names = sys.argv[1], sys.argv[2], sys.argv[3:]
SEEDED = os.environ.get("SEEDED", HERE + "/seeded")
V, R = D + "/verif", D + "/repo"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)

os.makedirs(D, exist_ok=True)
sh(f"mkdir -p {V} {R}; rsync -a --delete --exclude /seeded --exclude /.git --exclude '/harness/target' {HERE}/ {V}/; "
   f"rsync -a --delete --exclude /target --exclude .git /repo/ {R}/")
sh(f"cd {R} && rm -rf .git && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x")
sh(f"sed -i 's#\"/repo\"#\"{R}\"#' {V}/harness/Cargo.toml; sed -i 's#cd /repo #cd {R} #' {V}/check.sh; grep -rl '\"/repo' {V}/harness/src | xargs -r sed -i 's#\"/repo#\"{R}#'")
allids = [f"C{i:02}" for i in range(1, 27)]
seeds = names or sorted(os.listdir(SEEDED))
for s in seeds:
    meta = json.load(open(f"{SEEDED}/{s}/meta.json"))
    ids = [meta["property"]] if which == "own" else allids if which == "all" else which.split(",")
    r = sh(f"git -C {R} checkout -q -- . && git -C {R} apply {SEEDED}/{s}/patch.diff")
    assert r.returncode == 0, r.stderr
    for i in ids:
        t = time.time()
        try:
            r = sh(f"./check.sh {i} quick", cwd=V, env={**os.environ, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")}, timeout=900)
            rc, out = r.returncode, r.stdout + r.stderr
        except subprocess.TimeoutExpired:
            rc, out = "TO", ""
        sig = " / ".join(l for l in out.splitlines() if not l.startswith(("VIOLATION", "EVID")))[-160:]
        with open(D + "/results.txt", "a") as f:
            f.write(f"{s} {meta['property']} {i} {rc} {time.time()-t:.0f}s {sig}\n")
sh(f"git -C {R} checkout -q -- .")

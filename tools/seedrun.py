#!/usr/bin/env python3
"""Runs checks against the planted bugs in a scratch copy (development tool, not part of any check).

seedrun.py WORKDIR [--own] [--tests] [ID...]: for every bug in /verif/seeded, applies its patch to a copy of
/repo, rebuilds a copy of the harness against it and runs the bug's own check, or all of them.
"""
import json, os, shutil, subprocess, sys, glob
W = sys.argv[1]
SD = os.environ.get("SEEDED", "/verif/seeded")
own = "--own" in sys.argv
ids = [a for a in sys.argv[2:] if a[0] != "-"] or sorted(os.path.basename(d) for d in glob.glob(SD + "/*"))
V, R = W + "/verif", W + "/repo"
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
os.makedirs(W, exist_ok=True)
sh(f"rsync -a --delete --exclude target /repo/ {R}/ || (rm -rf {W}/repo; cp -a /repo {R})")
os.makedirs(V, exist_ok=True)
sh(f"mkdir -p {V}/harness; cp /verif/check.sh /verif/known_findings.json {V}/; cp -r /verif/tools {V}/; cp -r /verif/harness/src /verif/harness/variants /verif/harness/Cargo.toml /verif/harness/Cargo.lock {V}/harness/")
sh(f"sed -i 's#/repo#{R}#' {V}/tools/build.sh; find {V}/harness -name Cargo.toml -not -path '*/target*' | xargs sed -i 's#\"/repo#\"{R}#'")
checks = ["C%02d" % i for i in range(1, 29)]
for b in ids:
    d = f"{SD}/{b}"
    prop = json.load(open(d + "/meta.json"))["property"]
    r = sh(f"git -C {R} apply {d}/patch.diff")
    if r.returncode:
        print(b, "does not apply", r.stderr, flush=True)
        continue
    got = []
    for c in [prop] if own else [prop] + [c for c in checks if c != prop]:
        r = sh(f"VERIF_SEED=1 VERIF_TIER=quick {V}/check.sh {c}", cwd=V)
        if r.returncode == 1 and f"VIOLATION property={c} " in r.stdout:
            got.append(c)
        elif r.returncode:
            got.append(f"{c}:rc{r.returncode}")
    sh(f"git -C {R} checkout -q -- .")
    print(b, prop, "CAUGHT" if prop in got else "MISSED", " ".join(got), flush=True)

"""Builds a driver on an instrumented copy (an overlay) of the code under test.
usage: build_sched.py area output rundir [packages...]"""
import json, os, subprocess, sys

PK = {"worker": ["utils"], "collect": [], "reqlog": [".", "inject", "utils", "request-logger"], "isolation": [".", "inject", "utils", "params", "gzip", "request-logger"]}
CLOCK = {"cache": ["caches"], "session": ["sessions", "caches"]}      # these only get another clock
area, out, rundir = sys.argv[1:4]
ov = os.path.join(rundir, "ov")
os.makedirs(ov, exist_ok=True)
for cmd in (["go", "run", "./instr", os.environ.get("VERIF_REPO", "/repo"), ov] + PK[area] if area in PK
            else ["go", "run", "./instr", "-time", os.environ.get("VERIF_REPO", "/repo"), ov] + CLOCK[area],
            ["go", "build", "-ldflags=-checklinkname=0", "-overlay", os.path.join(ov, "overlay.json"), "-o", out, "./cmd/" + area]):
    p = subprocess.run(cmd)
    if p.returncode:
        sys.exit(1)

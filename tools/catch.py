#!/usr/bin/env python3
"""Runs the checks of the planted bugs: applies each patch to /repo, runs the check of its property (or those named with --checks A,B), undoes it.
usage: catch.py [--checks C01,C02|all] [ID...]"""
import json, os, subprocess, sys, time
SEED = "/verif/seeded"
REPO = os.environ.get("TS_REPO", "/repo")  # a copy may stand in; give it a TS_BUILD of its own
args = sys.argv[1:]
checks = None
if args[:1] == ["--checks"]:
    checks = args[1].split(",")
    args = args[2:]
if checks == ["all"]:
    checks = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
for b in args or sorted(os.listdir(SEED)):
    d = os.path.join(SEED, b)
    meta = json.load(open(d + "/meta.json"))
    assert subprocess.run("git -C %s diff --quiet" % REPO, shell=True).returncode == 0
    if subprocess.run(["git", "-C", REPO, "apply", d + "/patch.diff"]).returncode:
        print(b, "DOES NOT APPLY")
        continue
    try:
        res = []
        for c in checks or [meta["property"]]:
            t = time.time()
            o = subprocess.run(["python3", "/verif/run.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/verif", env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            hit = "VIOLATION property=%s" % c in o.stdout
            res.append("%s:%s(%d,%.0fs)" % (c, "CAUGHT" if hit and o.returncode == 1 else "missed" if o.returncode == 0 else "BROKEN", o.returncode, time.time() - t))
            why = [l for l in o.stdout.split("\n") if l.startswith(c + " [")]
            if os.environ.get("WHY") and why:
                print("    ", why[0][:300])
            if o.returncode not in (0, 1):
                print(o.stdout[-800:])
        print(b, meta["property"], " ".join(res), flush=True)
    finally:
        subprocess.run("git -C %s checkout -- ." % REPO, shell=True)

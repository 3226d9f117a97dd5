#!/usr/bin/env python3
"""run.py <property> | run.py --replay <file> | run.py --setup
Decides one property: model-checks the specification modules it rests on, generates stimuli (from the specification
with TLC, and seeded), executes them on the real code and checks the recorded behaviour against the specification."""
import hashlib, json, os, shutil, sys, tempfile, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, props, props2, props3

ROOT = core.ROOT


def findings():
    """known (unrepaired) findings: lines "known: property=<id> match=<regex> <what>" """
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                f = dict(x.split("=", 1) for x in line[7:].split(" ", 2)[:2])
                out.append((f["property"], f["match"], line.split(" ", 3)[3].strip()))
    return out


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        core.build(list(core.EDITIONS))
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="ts-%s-" % pid)
    try:
        return check(pid, tier, seed, t0, work)
    except core.Broken as e:
        print("BROKEN", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("TS_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


def check(pid, tier, seed, t0, work):
    P = props.PROPS[pid]
    stats = core.Stats()
    exes = core.build(sorted(set(P.editions)))
    t1 = time.time()
    budget = float(os.environ.get("TS_BUDGET", "40" if tier == "quick" else "600"))
    ctx = props.Ctx(pid, tier, seed, work, stats, exes)
    violations, samples, rounds = [], [], 0
    for m in P.models(ctx):
        core.model_check(m, work, stats)
    t2 = time.time()
    while True:
        ctx.round = rounds
        v, s = P.round(ctx)
        violations += v
        if not samples:
            samples = s
        rounds += 1
        t = (time.time() - t2) / rounds
        if violations or time.time() - t1 + (t if tier == "quick" else 0) > budget or not P.repeat:
            break
    t3 = time.time()
    confirmed = P.confirm(ctx, violations)
    # known findings
    kf = findings()
    import re
    listed, new = [], []
    for x in confirmed:
        hit = [w for (p, rx, w) in kf if p == pid and re.search(rx, x["why"])]
        (listed if hit else new).append((x, hit))
    seen = set()
    for p, rx, w in kf:
        if p == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, w))
    rc = 0
    for x, _ in new[:10]:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        body = json.dumps(x, indent=0, sort_keys=True)
        path = os.path.join(ROOT, "replays", "%s-%s.json" % (pid, hashlib.sha256(body.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write(body)
        print("%s [%s] %s" % (pid, x.get("edition"), x["why"][:1200]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2), "violations": len(new),
          "coverage": {"states": stats.states, "transitions": stats.transitions,
                       "traces_validated_against_impl": stats.traces, "samples": samples[:4],
                       "events_validated": stats.events, "values_judged": stats.judged, "values_undecided": stats.undecided, "rounds": rounds, "editions": P.editions,
                       "models": stats.mc, "stimuli": ctx.notes, "exhaustive": False},
          "assumptions": P.assumptions}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: build %.0fs models %.0fs (%d) traces %.0fs: %d traces, %d events, %d states, values %d judged %d undecided; %d rejected, %d confirmed; %.0fs" %
          (pid, tier, t1 - t0, t2 - t1, len(stats.mc), t3 - t2, stats.traces, stats.events, stats.states, stats.judged, stats.undecided, len(violations),
           len(confirmed), wall))
    if violations and not confirmed:
        print("BROKEN: a rejection did not repeat:", violations[:2])
        return 2
    return rc


def replay(path):
    x = json.load(open(path))
    P = props.PROPS[x["property"]]
    work = tempfile.mkdtemp(prefix="ts-replay-")
    try:
        exes = core.build(sorted(set(P.editions)))
        ctx = props.Ctx(x["property"], "quick", 1, work, core.Stats(), exes)
        got = P.confirm(ctx, [dict(x)])
        for g in got:
            print(g["edition"], g["why"])
        if got:
            print("VIOLATION property=%s replay=%s" % (x["property"], path))
        return 1 if got else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

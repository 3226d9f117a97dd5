"""Building the drivers, executing sessions against the real code, and checking the recorded events with TLC."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TS_REPO", "/repo")
BUILD = os.environ.get("TS_BUILD", os.path.join(ROOT, ".build"))
SPEC = os.path.join(ROOT, "spec")
JOBS = int(os.environ.get("TS_JOBS", "8"))
CP = ":".join([os.path.join(BUILD, "java"), "/opt/veriftools/tla/tla2tools.jar",
               "/opt/veriftools/tla/CommunityModules-deps.jar"])


class Broken(Exception):
    """the check itself failed (not a verdict)"""


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------------------------------------------ building
EDITIONS = {
    # the library sources: debug, assertions, sanitizers
    "lib": dict(inc="src", flags="-DTS_LIBRARY -O0 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined", lib=True),
    # the single header: release
    "single": dict(inc="single/include", flags="-O1 -DNDEBUG", lib=False),
    # release build of the library and debug build of the header, without sanitizers
    "librel": dict(inc="src", flags="-DTS_LIBRARY -O1 -DNDEBUG", lib=True),
    "singledbg": dict(inc="single/include", flags="-O0", lib=False),
}


def sources(inc):
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, inc)):
        for f in fs:
            if f.endswith((".h", ".cpp", ".hpp", ".inl")):
                out.append(os.path.join(d, f))
    return sorted(out)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def sh(cmd):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Broken("failed: %s\n%s" % (cmd, r.stdout[-4000:]))


def build_java():
    src = os.path.join(ROOT, "java", "Num754.java")
    cls = os.path.join(BUILD, "java", "Num754.class")
    stamp = os.path.join(BUILD, "java", "stamp")
    key = digest([src])
    if os.path.exists(cls) and os.path.exists(stamp) and open(stamp).read() == key:
        return
    os.makedirs(os.path.join(BUILD, "java"), exist_ok=True)
    sh("javac -cp /opt/veriftools/tla/tla2tools.jar -d %s/java %s" % (BUILD, src))
    with open(stamp, "w") as f:
        f.write(key)


def build_edition(name):
    e = EDITIONS[name]
    drv = os.path.join(ROOT, "driver", "driver.cpp")
    key = digest(sources(e["inc"]) + [drv], name + e["flags"])
    exe = os.path.join(BUILD, "drv-%s-%s" % (name, key))
    if os.path.exists(exe):
        return exe
    tmp = tempfile.mkdtemp(prefix="b-%s-" % name, dir=BUILD)
    try:
        base = "g++ -std=c++14 %s -I%s" % (e["flags"], os.path.join(REPO, e["inc"]))
        units = [drv] + ([p for p in sources(e["inc"]) if p.endswith(".cpp")] if e["lib"] else [])
        objs = [os.path.join(tmp, "%d.o" % i) for i in range(len(units))]
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda uo: sh("%s -c %s -o %s" % (base, uo[0], uo[1])), zip(units, objs)))
        sh("%s %s -o %s/exe" % (base, " ".join(objs), tmp))
        for old in os.listdir(BUILD):  # keep the build folder small
            p = os.path.join(BUILD, old)
            if old.startswith("drv-%s-" % name) and time.time() - os.path.getmtime(p) > 6 * 3600:
                os.unlink(p)
        os.rename(tmp + "/exe", exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def build(editions):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(4) as ex:
            j = ex.submit(build_java)
            exes = dict(zip(editions, ex.map(build_edition, editions)))
            j.result()
    return exes


# ----------------------------------------------------------------------------------------------------- execution
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=6000",
           UBSAN_OPTIONS="print_stacktrace=1", LC_ALL="C")


def execute(exe, sessions, tag, work, limit=20, stack=None, hung=None):
    """runs the sessions (lists of commands) and returns their events, sessions kept apart; hung counts what did not end,
    in all groups: a few of them settle the matter and the rest is left out, since each costs the limit"""
    hung = [] if hung is None else hung
    lines = [json.dumps(c, separators=(",", ":")) for s in sessions for c in s]
    starts, p = [], 0
    for s in sessions:
        starts.append(p)
        p += len(s)
    events = [None] * len(lines)
    pos, crashes, hangs = 0, 0, 0
    fin, fout, ferr = (os.path.join(work, tag + x) for x in (".in", ".out", ".err"))
    while pos < len(lines):
        with open(fin, "w") as f:
            f.write("\n".join(lines[pos:]) + "\n")
        if os.path.exists(fout):
            os.unlink(fout)
        with open(ferr, "w") as er:
            r = subprocess.run((["prlimit", "--stack=%d" % stack] if stack else []) + [exe, fin, fout, str(limit)], stdout=subprocess.DEVNULL, stderr=er, env=ENV)
        got = []
        if os.path.exists(fout):
            with open(fout, errors="replace") as f:
                got = f.read().split("\n")
        full = got[:-1]  # the last piece is empty or a partial line
        for i, g in enumerate(full):
            events[pos + i] = g
        if r.returncode == 0 and len(full) == len(lines) - pos:
            break
        if r.returncode == 97 or len(full) >= len(lines) - pos:
            raise Broken("driver %s: rc %s %s" % (exe, r.returncode, open(ferr).read()[-500:]))
        at = pos + len(full)
        kind = "hang" if r.returncode == -26 else "crash"
        why = re.sub(r"[^ -~]", " ", open(ferr, errors="replace").read()[:300])
        events[at] = lines[at][:-1] + ',"out":' + json.dumps({"k": kind, "rc": r.returncode, "err": why}) + "}"
        crashes += 1
        hangs += kind == "hang"
        if kind == "hang":
            hung.append(at)
        nxt = [b for b in starts if b > at]
        if not nxt or crashes >= 25 or hangs >= 2 or len(hung) >= 4:
            break
        pos = nxt[0]
    out = []
    for i, b in enumerate(starts):
        e = b + len(sessions[i])
        out.append([x for x in events[b:e] if x is not None])
    return out


# ------------------------------------------------------------------------------------------------------------ TLC
class Stats:
    def __init__(self):
        self.states = self.transitions = self.events = self.traces = self.judged = self.undecided = 0
        self.mc = []
        self.lock = threading.Lock()


def tlc(module, cfg, work, tag, env=None, workers="1", extra=(), timeout=800, heap="3g"):
    meta = os.path.join(work, "meta-" + tag)
    cmd = ["java", "-Xmx" + heap, "-Xss256m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, **(env or {})), timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    gen = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    return r.returncode, r.stdout, (int(gen[-1][0]), int(gen[-1][1])) if gen else (0, 0)


def validate(sessions_events, work, tag, stats, module="Trace"):
    """checks events (lists of lines per session) and returns [(session index, event index, reason)]"""
    path = os.path.join(work, tag + ".ndjson")
    where = []
    with open(path, "w") as f:
        for i, evs in enumerate(sessions_events):
            for k, e in enumerate(evs):
                f.write(e + "\n")
                where.append((i, k))
    if not where:
        return []
    rc, out, (gen, dist) = tlc(module + ".tla", module + ".cfg", work, tag, env={"TRACE": path})
    done = re.findall(r'"DONE (\d+) (\d+) (\d+) (\d+)"', out)
    if not done or int(done[-1][0]) != len(where):
        m = re.search(r"Error:.*", out, re.S)
        n = re.findall(r'l \|-> (\d+)', out)
        at = ""
        if n and int(n[-1]) <= len(where):
            i, k = where[int(n[-1]) - 1]
            at = "\nat event " + sessions_events[i][k][:1500]
        raise Broken("trace validation did not finish: %s%s" % ((m.group(0) if m else out)[-6000:], at))
    with stats.lock:
        stats.states += dist
        stats.transitions += max(0, gen - 1)
        stats.events += len(where)
        stats.traces += len(sessions_events)
        stats.judged += int(done[-1][2])
        stats.undecided += int(done[-1][3])
    res = []
    for m in re.finditer(r'"BAD (\d+) (\w+) (.*)"', out):
        i, k = where[int(m.group(1)) - 1]
        res.append((i, k, m.group(3)[:1500]))
    os.unlink(path)
    return res


def shards(sessions, n):
    """splits sessions into at most n groups of similar weight, keeping the indices"""
    order = sorted(range(len(sessions)), key=lambda i: -weight(sessions[i]))
    groups = [[0, []] for _ in range(max(1, min(n, len(sessions))))]
    for i in order:
        g = min(groups, key=lambda g: g[0])
        g[0] += weight(sessions[i])
        g[1].append(i)
    return [sorted(g[1]) for g in groups if g[1]]


def weight(s):
    return sum(1 + len(json.dumps(c)) / 200 for c in s)


def canon(line):
    return line


def conform(sessions, exes, work, stats, limit=20, editions=("lib", "single"), jobs=None, stack=None):
    """executes the sessions on every edition and validates the events; returns violations
    [(edition, session, event index, reason)]"""
    groups = shards(sessions, jobs or JOBS)
    bad, hung = [], []

    def one(gi):
        g = groups[gi]
        ss = [sessions[i] for i in g]
        seen, res = {}, []
        for ed in editions:
            if len(hung) >= 4:
                break
            evs = execute(exes[ed], ss, "x%d-%s" % (gi, ed), work, limit, stack, hung)
            todo = []
            for k, e in enumerate(evs):
                key = "\n".join(e)
                if seen.get(k) == key:
                    continue  # the same behaviour was already judged for another edition
                seen[k] = key
                todo.append(k)
            for (i, k, why) in validate([evs[k] for k in todo], work, "v%d-%s" % (gi, ed), stats):
                res.append((ed, g[todo[i]], k, why))
        return res

    with ThreadPoolExecutor(jobs or JOBS) as ex:
        for r in ex.map(one, range(len(groups))):
            bad += r
    return bad


def model_check(m, work, stats):
    """m: dict(module, cfg?, env?, workers?, simulate?) - a specification of its own, which must hold"""
    t = time.time()
    extra = m.get("extra", [])
    rc, out, (gen, dist) = tlc(m["module"] + ".tla", m.get("cfg", m["module"] + ".cfg"), work, "mc-" + m["module"], env=m.get("env"),
                               workers=m.get("workers", JOBS), extra=extra, heap="6g", timeout=m.get("timeout", 800))
    if rc != 0:
        raise Broken("model %s: rc %d\n%s" % (m["module"], rc, out[-5000:]))
    with stats.lock:
        stats.states += dist
        stats.transitions += gen
        stats.mc.append({"module": m["module"], "env": m.get("env", {}), "states": dist, "transitions": gen, "wall_s": round(time.time() - t, 1)})

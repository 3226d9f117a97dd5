#!/usr/bin/env python3
"""Plants bugs: reads tools/bugs/*.py-like definitions (a list BUGS), applies each in a scratch copy of /repo, confirms that it builds,
passes the tests and that its demonstration tells the two apart, and keeps it under seeded/. usage: plant.py FILE [ID...]"""
import json, os, shutil, subprocess, sys
SEED = "/verif/seeded"
DEMO = r'''#!/bin/bash
# run with cwd /repo after the build: exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 0
trap 'rm -rf "$t"' EXIT
%s
timeout %d "$t/demo"
'''
COMPILE = {"lib": 'g++ -std=c++14 -g -I src -I src/tomsolver "$here/demo.cpp" _build/libtomsolver.a -o "$t/demo" || exit 3',
           "ndebug": 'g++ -std=c++14 -O1 -DNDEBUG -I single/include "$here/demo.cpp" -o "$t/demo" || exit 3',
           "single": 'g++ -std=c++14 -g -I single/include "$here/demo.cpp" -o "$t/demo" || exit 3'}


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    R = "/tmp/plantrepo"
    if not os.path.isdir(R):
        sh("cp -a /repo %s && rm -rf %s/_build" % (R, R))
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh("cd %s && git fetch -q /repo HEAD; git checkout -q -f %s; git clean -qfd -e _build" % (R, head))
    stable = json.load(open("/opt/vp/BASELINE.json"))
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        sh("cd %s && git checkout -q -f -- ." % R)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(R, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT MATCHES", s.count(old), f, repr(old[:60]))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        if b.get("header", True) and not any("single/" in e[0] for e in b["edits"]):
            sh("cd %s/scripts && python3 combine_src_to_header_only.py" % R)
        patch = sh("cd %s && git diff" % R).stdout
        # changed lines must be of the original repository
        mine = sh("git -C /repo diff 24357c7 HEAD -- src | grep '^+' | cut -c2-").stdout.split("\n")
        for line in patch.split("\n"):
            if line.startswith("-") and not line.startswith("---") and line[1:] in mine and line[1:].strip() not in ("}", "", "return;", "});", "{"):
                print(b["id"], "changes a line of a fix:", line)
                ok = False
        # build and tests in the copy
        o = sh("sed 's#/repo#%s#g' /opt/vp/build.sh > /tmp/plant_build.sh; bash /tmp/plant_build.sh" % R)
        if o.returncode:
            print(b["id"], "DOES NOT BUILD", o.stdout[-1500:])
            continue
        d = os.path.join(SEED, b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(patch)
        code = ns.get("PRE", "") + b["demo"]
        kind = b.get("edition", "lib")
        open(d + "/demo.cpp", "w").write(code)
        open(d + "/demo.sh", "w").write(DEMO % (COMPILE[kind], b.get("timeout", 60)))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        bad = []
        for x in ("tests", "single/test"):
            xml = "/tmp/plant.xml"
            sh("ctest --test-dir %s/_build/%s -j8 --timeout 300 --output-junit %s" % (R, x, xml))
            import xml.etree.ElementTree as ET
            for case in ET.parse(xml).getroot().iter("testcase"):
                if case.get("status") == "run" and (case.find("failure") is not None or case.find("error") is not None) or case.get("status") == "fail":
                    bad.append(x + "::" + case.get("name"))
        with_ = sh("bash %s/demo.sh" % d, cwd=R)
        without = sh("bash %s/demo.sh" % d, cwd="/repo")
        verdict = "OK" if not bad and with_.returncode not in (0, 3) and without.returncode == 0 else "BAD"
        print(b["id"], b["property"], verdict, "tests", bad[:4], "demo", with_.returncode, without.returncode)
        if verdict == "BAD":
            print("   ", with_.stdout[-300:], "|", without.stdout[-300:])
            shutil.rmtree(d)
        sys.stdout.flush()


main()

#!/usr/bin/env python3
"""try.py '<JSON command>' ... : executes one session (reset in front) on an edition (ED, lib) and validates it; for debugging"""
import json, os, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core
work = tempfile.mkdtemp(prefix="ts-try-")
ed = os.environ.get("ED", "lib")
exes = core.build([ed])
ss = [[{"op": "reset"}] + [json.loads(a) for a in sys.argv[1:]]]
evs = core.execute(exes[ed], ss, "t", work, 60)
for e in evs[0]:
    print(e[:3000])
st = core.Stats()
print(core.validate(evs, work, "t", st), "judged", st.judged, "undecided", st.undecided)

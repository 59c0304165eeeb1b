#!/usr/bin/env python3
"""seed.py new ID PROP 'needs' 'breaks' < demo.cpp : the uncommitted change of /repo becomes seeded/ID, is verified (build, tests, demo with and without), and /repo is restored.
seed.py run ID [checks...] : runs the property's (or the named) checks with the change applied."""
import json, os, shutil, subprocess, sys
V = "/verif"; R = "/repo"
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def restore(): sh("git -C /repo checkout -- .")
def verify(d):
    ok = True
    p = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
    t = json.load(open("/tmp/seedtest.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base if isinstance(base, list) else base.get("stable") or base.get("passed") or []
    miss = [n for n in names if n not in t["passed"]]
    if t["failed"] or miss or len(t["passed"]) < 79: print("TESTS FAIL", t["failed"], miss[:3], p.stdout[-1500:] if not t["passed"] else ""); ok = False
    q = sh("bash %s/demo.sh" % d, cwd=R)
    if q.returncode == 0: print("DEMO PASSES WITH PATCH", q.stdout[-600:]); ok = False
    else: print("demo with patch: rc %d %s" % (q.returncode, (q.stdout + q.stderr)[-300:]))
    return ok
if sys.argv[1] == "new":
    i, prop, needs, breaks = sys.argv[2:6]
    d = os.path.join(V, "seeded", i); os.makedirs(d, exist_ok=True)
    diff = sh("git -C /repo diff").stdout
    assert diff.strip(), "no change in /repo"
    open(d + "/patch.diff", "w").write(diff)
    src = sys.stdin.read()
    open(d + "/demo.cpp", "w").write('#include "demo.h"\n' + src if "demo.h" not in src else src)
    shutil.copy(V + "/tools/seedlib/demo.sh", d); shutil.copy(V + "/tools/seedlib/demo.h", d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    ok = verify(d)
    restore()
    sh("bash /opt/vp/build.sh")
    q = sh("bash %s/demo.sh" % d, cwd=R)
    if q.returncode: print("DEMO FAILS WITHOUT PATCH", (q.stdout + q.stderr)[-800:]); ok = False
    print("SEED OK" if ok else "SEED BAD")
    sys.exit(not ok)
else:
    i = sys.argv[2]; d = os.path.join(V, "seeded", i)
    checks = sys.argv[3:] or [json.load(open(d + "/meta.json"))["property"]]
    a = sh("git -C /repo apply %s/patch.diff" % d); assert a.returncode == 0, a.stderr
    try:
        for c in checks:
            p = sh("python3 tools/check.py " + c, cwd=V)
            lines = p.stdout.strip().splitlines()
            print(i, c, "CAUGHT" if p.returncode == 1 and any(l.startswith("VIOLATION property=" + c) for l in lines) else "MISSED rc=%d" % p.returncode)
            print("   " + "\n   ".join(l[:300] for l in lines[-4:]))
            if p.returncode not in (0, 1): print(p.stderr[-1500:])
    finally:
        restore()

#!/usr/bin/env python3
"""seed.py SPEC.py : creates and confirms planted bugs.
SPEC.py defines a list SEEDS of dicts: id, property, needs, breaks, edits=[(file, old, new)], demo (C text).
Applies each to /repo, builds, runs the stable tests and the demo, and undoes it."""
import json, os, subprocess, sys
R = "/repo"; V = "/verif/seeded"
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -f "$T/demo"; rmdir "$T"' EXIT
gcc -std=gnu99 -w -I/repo/src -o "$T/demo" "$D/demo.c" -L/repo/_build/buzz -lbuzz -lm -Wl,-rpath,/repo/_build/buzz || exit 3
timeout 60 "$T/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def undo(): sh("git -C /repo checkout -- ."); sh("bash /opt/vp/build.sh")
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns["SEEDS"]:
    if only and s["id"] not in only: continue
    d = "%s/%s" % (V, s["id"]); os.makedirs(d, exist_ok=True)
    open(d + "/demo.c", "w").write(s["demo"]); open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    assert not sh("git -C /repo status --porcelain").stdout
    sh("bash /opt/vp/build.sh")
    r0 = sh("bash %s/demo.sh" % d, cwd=R)
    try:
        for f, old, new in s["edits"]:
            p = R + "/src/buzz/" + f; t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        b = sh("bash /opt/vp/build.sh")
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        res = json.load(open("/tmp/seedtest.json"))
        r1 = sh("bash %s/demo.sh" % d, cwd=R)
    finally:
        undo()
    bl = json.load(open("/opt/vp/BASELINE.json"))
    print(s["id"], "build", b.returncode, "tests", {k: (len(v) if isinstance(v, list) else v) for k, v in res.items() if k in ("passed", "failed")}, "demo base", r0.returncode, "bug", r1.returncode)
    if r0.returncode: print(r0.stdout[-300:], r0.stderr[-500:])
    if b.returncode: print(b.stdout[-600:])

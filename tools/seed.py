#!/usr/bin/env python3
"""Writes and verifies planted bugs.  seed.py write <id>...   seed.py verify <id>...   (ids of tools/seeds.py; none = all)

write: builds seeded/<id>/ (patch.diff against /repo's HEAD, demo, meta); verify: demo passes on the clean tree, fails with the
patch, the patched tree builds and passes the stable tests, and the property's check reports it."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"; R = "/repo"
sys.path.insert(0, V + "/tools")
from seeds import SEEDS
DEMO = r'''#!/bin/bash
# run in the repository's root: exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) && trap 'rm -rf "$T"' EXIT
F="-std=c++17 -O0 -march=haswell -mno-avx512f -maes -mrdseed -DNDEBUG -w -pthread @EXTRA@ -include $D/shim/prelude.h -I$D -I$D/shim -I."
(ls @SOURCES@; echo "$D/demo.cpp") | awk '{print NR, $0}' | xargs -P 8 -L 1 bash -c 'g++ '"$F"' -c "$1" -o '"$T"'/$0.o' || exit 1
g++ -pthread @EXTRA@ "$T"/*.o -o "$T/demo" -lcrypto -lssl -lre2 -ldl @LIBS@ || exit 1
mkdir "$T/w" && cd "$T/w" && timeout 200 "$T/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def write(i, s):
    d = f"{V}/seeded/{i}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp(dir="/tmp")
    sh(f"git -C {R} archive HEAD | tar -x -C {t} && cd {t} && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x")
    for f, old, new in s["edits"]:
        base = set(l.strip() for l in sh(f"git -C {R} show 8f0cbab:{f}").stdout.splitlines()); gone = [l for l in old.splitlines() if l.strip() and l not in new.splitlines()]
        if [l for l in gone if not any(l.strip() in b for b in base)]: print(i, "NOTE changes lines of our own:", gone)
        x = open(f"{t}/{f}").read(); assert x.count(old) == 1, (i, f, x.count(old)); open(f"{t}/{f}", "w").write(x.replace(old, new))
    open(f"{d}/patch.diff", "w").write(sh(f"cd {t} && git diff").stdout); shutil.rmtree(t)
    shutil.copytree(f"{V}/shim", f"{d}/shim"); 
    if os.path.exists(f"{V}/tools/two.h"): shutil.copy(f"{V}/tools/two.h", d)
    open(f"{d}/demo.cpp", "w").write(s["demo"])
    open(f"{d}/demo.sh", "w").write(DEMO.replace("@SOURCES@", " ".join(s["sources"]) or "/dev/null/none 2>/dev/null").replace("@LIBS@", s.get("libs", "")).replace("@EXTRA@", s.get("extra", "")))
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
def verify(i, s):
    d = f"{V}/seeded/{i}"; r = {}
    assert not sh(f"git -C {R} status --short").stdout.strip(), "repo not clean"
    a = sh(f"bash {d}/demo.sh", cwd=R); r["clean"] = a.returncode
    if a.returncode: print(a.stdout[-1500:], a.stderr[-1500:])
    p = sh(f"git -C {R} apply {d}/patch.diff"); assert p.returncode == 0, p.stderr
    try:
        b = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seed_o.json"); r["build"] = b.returncode
        try: o = json.load(open("/tmp/seed_o.json")); r["tests"] = (len(o.get("passed", [])), len(o.get("failed", [])))
        except Exception as e: r["tests"] = str(e)
        a = sh(f"bash {d}/demo.sh", cwd=R); r["patched"] = a.returncode; r["out"] = (a.stdout + a.stderr)[-200:]
        if "nocheck" not in sys.argv:
            c = sh(f"python3 {V}/run.py {s['property']}"); r["check"] = c.returncode; r["viol"] = [l for l in c.stdout.splitlines() if "VIOLATION" in l or " | " in l][:3]
            if c.returncode == 1:
                k = json.load(open(V + "/tools/caught.json")); f = [l.strip().split(": ")[0] for l in r["viol"] if " | " in l]
                if i not in k: k[i] = s["property"] + (", " + f[0] if f else ""); json.dump(k, open(V + "/tools/caught.json", "w"), indent=1, sort_keys=True)
    finally: sh(f"git -C {R} checkout -- .")
    ok = r["clean"] == 0 and r["build"] == 0 and r["tests"] == (17, 0) and r["patched"] != 0
    print(i, "OK" if ok else "NOT-OK", "caught" if r.get("check") == 1 else "MISSED" if "check" in r else "", r, flush=True)
ids = [a for a in sys.argv[2:] if a != "nocheck"] or list(SEEDS)
for i in ids: (write if sys.argv[1] == "write" else verify)(i, SEEDS[i])

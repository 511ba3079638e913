#!/usr/bin/env python3
"""tools/mkseed.py ID...: build /verif/seeded/ID from tools/seeds/ID.py in a scratch copy, confirm it, run its check."""
import json, os, shutil, subprocess, sys
V = "/verif"; S = "/tmp/sd"; R = S + "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def fresh():
    os.makedirs(S, exist_ok=True)
    if not os.path.exists(R): sh("git clone -q /repo " + R)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=R)
DEMO = """#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d); trap 'find "$T" -delete' EXIT
g++ -std=gnu++17 -O0 -w -fpermissive %(flags)s -I"$D" -I"$D/stubs" -I"$R" -I"$R/msf_core/include" -I"$R/msf_timing/include" -I"$R/msf_updates/include" -I"$R/msf_updates/src" -I/usr/include/eigen3 "$D/demo.cc" -o "$T/demo" -lglog -lboost_thread -lboost_system -lpthread || { echo "demo does not compile"; exit %(cfail)d; }
cd "$T" && timeout 200 ./demo
"""
for sid in sys.argv[1:]:
    src = open("%s/tools/seeds/%s.py" % (V, sid)).read(); g = {}; exec(src, g)
    fresh()
    for e in g["edits"]:   # (file, old, new[, which occurrence counted from 0])
        f, a, b = e[:3]; t = open(R + "/" + f).read()
        if t.count(a) != (g.get("count", 1) if len(e) < 4 else max(t.count(a), e[3] + 1)): print(sid, "EDIT MATCHES", t.count(a), f, a[:60]); sys.exit(1)
        if len(e) > 3:
            i = -1
            for _ in range(e[3] + 1): i = t.index(a, i + 1)
            t = t[:i] + b + t[i + len(a):]
        else: t = t.replace(a, b)
        open(R + "/" + f, "w").write(t)
    D = V + "/seeded/" + sid; os.makedirs(D, exist_ok=True)
    diff = sh("git diff", cwd=R).stdout; open(D + "/patch.diff", "w").write(diff)
    open(D + "/demo.cc", "w").write(g["demo"].lstrip("\n"))
    open(D + "/demo.sh", "w").write(DEMO % dict(flags=g.get("flags", ""), cfail=99)); os.chmod(D + "/demo.sh", 0o755)
    if g.get("stubs", True):
        for d in ("stubs",):
            sh("mkdir -p %s/stubs && cp -r %s/stubs/. %s/stubs/" % (D, V, D))
        shutil.copy(V + "/engine/prelude.h", D + "/prelude.h")
    for f in g.get("files", []):
        shutil.copy(V + "/engine/" + f if os.path.exists(V + "/engine/" + f) else V + "/harness/" + f, D + "/" + f)
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(D + "/meta.json", "w"), indent=1)
    d1 = sh(D + "/demo.sh", cwd="/repo"); d2 = sh(D + "/demo.sh", cwd=R)
    print(sid, "demo clean rc", d1.returncode, "patched rc", d2.returncode)
    if d1.returncode or d2.returncode in (0, 99): print(d1.stdout[-1500:]); print(d2.stdout[-1500:])
    if "--nobuild" not in os.environ.get("SEED", ""):
        b = sh("git -C /repo apply %s/patch.diff && bash /opt/vp/build.sh >/tmp/sd/b.log 2>&1 && bash /opt/vp/test.sh /tmp/sd/t.json >/dev/null 2>&1; echo $?; cat /tmp/sd/t.json; git -C /repo checkout -q -- ." % D)
        print("  build/test:", b.stdout.replace("\n", " ")[:200])
    c = sh("VC_REPO=%s timeout 900 %s/bin/check %s" % (R, V, g["prop"]))
    cj = V + "/tools/caught.json"; cd = json.load(open(cj)) if os.path.exists(cj) else {}
    vl = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
    cd[sid] = (g["prop"] + (" (no-failing-input-found)" if vl and all("no-failing" in l for l in vl) else "")) if c.returncode == 1 else "missed" if c.returncode == 0 else "no answer"
    json.dump(cd, open(cj, "w"), indent=1, sort_keys=True)
    print("  check rc", c.returncode, "|", "\n".join(c.stdout.strip().splitlines()[-3:])[:600])

#!/usr/bin/env python3
"""tools/mut.py FILE [NAME...]: like refac.py for the behaviour-breaking edits of tools/mut/FILE.py; every check named must alarm (rc 1)."""
import subprocess, sys, os, time
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
g = {}; exec(open("%s/tools/mut/%s.py" % (V, sys.argv[1])).read(), g)
for name, (checks, edits) in g["R"].items():
    if sys.argv[2:] and name not in sys.argv[2:]: continue
    S = "/tmp/mu_" + name; sh("mkdir -p %s; find %s -mindepth 1 -delete; git clone -q /repo %s/repo" % (S, S, S)); R = S + "/repo"
    ok = True
    for e in edits:
        f, a, b = e[:3]; t = open(R + "/" + f).read()
        if t.count(a) != (e[3] if len(e) > 3 else 1): print(name, "EDIT MATCHES", t.count(a), f, a[:80]); ok = False; continue
        open(R + "/" + f, "w").write(t.replace(a, b))
    if ok:
        for c in checks:
            t = time.time(); r = sh("VC_REPO=%s timeout 900 %s/bin/check %s" % (R, V, c))
            print(name, c, "rc", r.returncode, "%.0f s" % (time.time() - t), ([l for l in r.stdout.splitlines() if "VIOLATION" in l] or [r.stdout[-600:]])[0][:160] if r.returncode else "MISSED"); sys.stdout.flush()
    sh("find %s -delete" % S)

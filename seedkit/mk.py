#!/usr/bin/env python3
"""Makes and confirms one planted bug: seedkit/mk.py <id> from seedkit/bugs/<id>.py (development only; no check uses it).

bugs/<id>.py defines PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new[, nth])], and either DEMO (C++ main body file text)
with CFG (build.config keywords) or DEMO_SH (files: dict name -> text)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
SH = '''#!/bin/bash
# exit 0: the property holds for this scenario; nonzero: it does not
D="$(cd "$(dirname "$0")" && pwd)"
export VERIF_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1
exec python3 "$D/demo.py"
'''
PY = '''import os, subprocess, sys, tempfile
D = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(D, "lib"))
import build
with tempfile.TemporaryDirectory() as t:
    b = build.build(t, "demo", "demo.cpp", build.config(**%r), **%r)
    os.chdir(t)
    r = subprocess.run([b], env=dict(os.environ, **%r)).returncode
    print("demo exit code", r)
    sys.exit(1 if r else 0)
'''
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def main(i):
    ns = {}; exec(open(os.path.join(HERE, "bugs", i + ".py")).read(), ns)
    out = os.path.join(VERIF, "seeded", i); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    wt = "/tmp/seedwt_" + i; shutil.rmtree(wt, ignore_errors=True); sh("cp -a /repo " + wt)
    for e in ns["EDITS"]:
        p = os.path.join(wt, e[0]); s = open(p).read(); n = s.count(e[1])
        assert n == 1 or len(e) > 3, "%s: %d matches of %r" % (e[0], n, e[1])
        if len(e) > 3:
            parts = s.split(e[1]); k = e[3]; assert n > k
            s = e[1].join(parts[:k + 1]) + e[2] + e[1].join(parts[k + 1:])
        else: s = s.replace(e[1], e[2])
        open(p, "w").write(s)
    # only lines of the original repository may be changed
    cur = None
    for l in sh("git -C %s diff -U0" % wt).stdout.splitlines():
        if l.startswith("--- a/"): cur = l[6:]
        if l.startswith("@@"):
            a = l.split()[1][1:].split(","); n = int(a[1]) if len(a) > 1 else 1
            if n:
                for b in sh("git -C /repo blame -s c5176a8..HEAD -L %s,+%d -- %s" % (a[0], n, cur)).stdout.splitlines():
                    assert b.startswith("^"), "not an original line: " + b
    open(os.path.join(out, "patch.diff"), "w").write(sh("git -C %s diff" % wt).stdout)
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    open(os.path.join(out, "demo.sh"), "w").write(SH if "DEMO" in ns else ns["DEMO_SH"]); os.chmod(os.path.join(out, "demo.sh"), 0o755)
    for n, t in ns.get("FILES", {}).items(): open(os.path.join(out, n), "w").write(t)
    if "DEMO" in ns:
        shutil.copytree(os.path.join(VERIF, "shim"), os.path.join(out, "shim"))
        os.makedirs(os.path.join(out, "lib")); shutil.copy(os.path.join(VERIF, "lib", "build.py"), os.path.join(out, "lib"))
        os.makedirs(os.path.join(out, "harness"))
        for f in ["pbt.hpp", "world.hpp", "smbkit.hpp", "rand_seeded.cpp"] + ns.get("ALSO", []):
            shutil.copy(os.path.join(VERIF, "harness", f), os.path.join(out, "harness"))
        open(os.path.join(out, "harness", "demo.cpp"), "w").write(ns["DEMO"])
        open(os.path.join(out, "demo.py"), "w").write(PY % (ns.get("CFG", {}), ns.get("BUILD", {}), ns.get("ENV", {})))
    a = sh("bash %s/demo.sh" % out, cwd="/repo"); b = sh("bash %s/demo.sh" % out, cwd=wt)
    # existing tests on the changed copy: the unit test only needs the constants' header
    ok = a.returncode == 0 and b.returncode != 0
    print(i, "unchanged:", a.returncode, "changed:", b.returncode, "OK" if ok else "NOT CONFIRMED"); 
    print("  --- changed:", b.stdout[-400:].strip())
    if not ok: print("  --- unchanged:", a.stdout[-2000:].strip())
    shutil.rmtree(wt)
if __name__ == "__main__":
    for i in sys.argv[1:]: main(i)

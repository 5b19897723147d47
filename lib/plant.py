#!/usr/bin/env python3
"""Development tool: confirms a planted change and runs checks against it, in a scratch copy.
   plant.py SLOT ID [CHECK ...]     (no register command uses this file)"""
import json, os, subprocess, sys, time
slot, bid, checks = sys.argv[1], sys.argv[2], sys.argv[3:]
S = "/tmp/sc/" + slot; R = S + "/repo"; V = S + "/verif"
PETSC = "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real"
D = "/verif/seeded/" + bid
def sh(c, **k): return subprocess.run(["bash", "-c", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
os.makedirs(S, exist_ok=True)
if not os.path.exists(R): sh("git clone -q /repo %s" % R)
sh("cd %s && git checkout -q -- . && git pull -q" % R)
def build():
    r = sh(". /opt/vp/env.sh; cmake -S {0} -B {0}/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g -DDEBUG=1 -Wno-error -isystem /usr/include/scotch' -DEIGEN3_INCLUDE_DIR=/usr/include/eigen3 -DPETSC_DIR={1} -DPETSC_ARCH= -DSCOTCH_DIR=/usr -DNOTAGS=1 -Wno-dev && ninja -C {0}/_build".format(R, PETSC))
    return r
def tests():
    sh("find {0}/_build/tests {0}/_build/testcases \\( -name '*.log' -o -name '*.pmat' \\) -delete; rm -f {0}/_build/j.xml".format(R))
    sh(". /opt/vp/env.sh; ctest --test-dir {0}/_build -j4 --timeout 200 --output-junit {0}/_build/j.xml".format(R))
    sh("python3 /opt/vp/results.py %s/o.json junit:%s/_build/j.xml" % (S, R))
    o = json.load(open(S + "/o.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    return set(b["stable"]) - set(o["passed"])
def demo():
    sh("rm -rf %s/demo; cp -r %s %s/demo; rm -f %s/demo/*.diff %s/demo/meta.json" % (S, D, S, S, S))
    t = time.time(); r = sh(". /opt/vp/env.sh; cd %s && timeout 300 bash %s/demo/demo.sh" % (R, S)); return r.returncode, r.stdout[-600:], time.time() - t
out = {}
if not checks or checks == ["-d"]:
    r = build()
    if r.returncode: print("BASE BUILD FAILED", r.stdout[-2000:]); sys.exit(2)
    rc, o, t = demo(); print("demo unchanged rc", rc, "%.0fs" % t, o if rc else "")
    if rc: sys.exit(2)
r = sh("cd %s && git apply %s/patch.diff" % (R, D))
if r.returncode: print("PATCH DOES NOT APPLY", r.stdout); sys.exit(2)
try:
    if not checks or checks == ["-d"]:
        r = build()
        if r.returncode: print("PATCHED BUILD FAILED", r.stdout[-3000:]); sys.exit(2)
        rc, o, t = demo(); print("demo patched rc", rc, "%.0fs" % t, o)
        print("missing tests:", tests())
    sh("mkdir -p {0}; rsync -a --exclude build --exclude .git --exclude seeded --exclude out /verif/ {0}/".format(V)) if sh("which rsync").returncode == 0 else \
        sh("mkdir -p {0}; cd /verif && tar cf - --exclude ./build --exclude ./.git --exclude ./seeded --exclude ./out . | tar xf - -C {0}".format(V))
    for c in [x for x in checks if x != "-d"] or [json.load(open(D + "/meta.json"))["property"]]:
        t = time.time(); r = sh("cd %s && FV_REPO=%s VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s" % (V, R, c))
        print(bid, c, "rc", r.returncode, "%.0fs" % (time.time() - t)); print("\n".join(r.stdout.splitlines()[-6:]))
finally:
    sh("cd %s && git checkout -q -- ." % R)

#!/usr/bin/env python3
"""Development aid, not a check: validates the planted changes kept in
/verif/seeded (builds, passes the stable tests, demonstration passes without
and fails with the change) in a scratch copy, then runs the property's check
against the changed copy. seedtest.py [ID...] [--no-check] [--all-checks]"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(HERE + "/seeded"))
T = "/tmp/seedtest"
def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])
def tests(r):
    rc, o = sh("make -j8 -f /opt/vp/harness/Makefile REPO=%s OUT=%s/_build all" % (r, r), cwd=r)
    if rc: return "build failed\n" + o[-1500:]
    rc, o = sh("cd %s/_build && ./tst-libfutils > c.txt; python3 /opt/vp/harness/cunit_lines.py < c.txt > l.txt; python3 /opt/vp/results.py o.json lines:l.txt" % r)
    got = set(json.load(open(r + "/_build/o.json"))["passed"])
    return "" if base <= got else "tests fail: %s" % sorted(base - got)
for i in ids:
    d = HERE + "/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    shutil.rmtree(T, ignore_errors=True); os.makedirs(T)
    r = T + "/repo"
    sh("cp -a /repo %s && git -C %s checkout -q -- ." % (r, r))
    shutil.copytree(d, T + "/demo", ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    res = []
    bad = tests(r)
    if bad: res.append("CLEAN " + bad)
    rc0, o0 = sh("bash %s/demo/demo.sh" % T, cwd=r, timeout=300)
    if rc0: res.append("DEMO-CLEAN rc %d: %s" % (rc0, o0[-600:]))
    rc, o = sh("git apply %s/patch.diff" % d, cwd=r)
    if rc: print(i, "patch does not apply", o); continue
    mine = 0
    for l in subprocess.run("git blame -s --porcelain HEAD -- " + " ".join(l[6:] for l in open(d + "/patch.diff").read().split("\n") if l.startswith("--- a/")), shell=True, cwd=r, capture_output=True, text=True).stdout.split("\n")[:0]: pass
    bad = tests(r)
    if bad: res.append("PATCHED " + bad)
    rc1, o1 = sh("bash %s/demo/demo.sh" % T, cwd=r, timeout=300)
    if rc1 == 0: res.append("DEMO-PATCHED passes")
    elif "error:" in o1 or rc1 == 99: res.append("DEMO-PATCHED does not compile: " + o1[-600:])
    verdict = ""
    if "--no-check" not in sys.argv and not res:
        props = [m["property"]]
        if "--all-checks" in sys.argv: props = ["C%02d" % k for k in range(1, 31)]
        for p in props:
            rc, o = sh("python3 %s/check %s --no-shrink" % (HERE, p), env={"VERIF_REPO": r, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            v = [l for l in o.split("\n") if l.startswith(("violation ", "case"))]
            if len(props) == 1 or rc: verdict += "%s rc=%d %s; " % (p, rc, (v[0] if v else o.strip()[-200:]) [:150])
    print("%-34s %s | %s | demo: %s" % (i, "OK " if not res else " ".join(res), verdict, o1.strip().split("\n")[-1][:80]), flush=True)
    shutil.rmtree(T, ignore_errors=True)

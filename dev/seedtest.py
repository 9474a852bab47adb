#!/usr/bin/env python3
"""dev/seedtest.py [-n] ID...: confirm planted bugs: applies, builds, stable tests pass, demo 0/nonzero, and whether the check catches it (-n: skip the test suite)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = json.load(open("/opt/vp/BASELINE.json"))


def ids(o):
    if isinstance(o, dict):
        for k in ("passed", "stable", "tests"):
            if k in o:
                return set(o[k])
    return set(o)


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


a = sys.argv[1:]
notest = "-n" in a
for id in [x for x in a if x != "-n"] or sorted(os.listdir(V + "/seeded")):
    d = V + "/seeded/" + id
    prop = json.load(open(d + "/meta.json"))["property"]
    out = [id, prop]
    assert not sh("git -C /repo status --porcelain").stdout, "dirty /repo"
    r = sh("git -C /repo apply %s/patch.diff" % d)
    try:
        out.append("apply ok" if r.returncode == 0 else "APPLY FAILED " + r.stderr)
        b = sh("bash /opt/vp/build.sh")
        out.append("build ok" if b.returncode == 0 else "BUILD FAILED " + b.stderr[-1500:])
        if not notest:
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            got = ids(json.load(open("/tmp/seedtest.json")))
            miss = sorted(ids(B) - got)
            out.append("tests ok" if not miss else "TESTS FAIL %d %s" % (len(miss), miss[:4]))
        p = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
        out.append("demo fails" if p.returncode else "DEMO PASSES ON BUG")
        c = sh("python3 check.py %s quick" % prop, cwd=V)
        out.append({0: "MISSED", 1: "caught"}.get(c.returncode, "ERROR"))
        out.append(next((l for l in c.stdout.splitlines() if l.startswith("[")), c.stdout[-300:] if c.returncode == 2 else ""))
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    p = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
    out.append("clean ok" if p.returncode == 0 else "DEMO FAILS ON CLEAN TREE " + p.stdout[-500:] + p.stderr[-500:])
    print(" | ".join(out), flush=True)

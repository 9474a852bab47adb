#!/usr/bin/env python3
"""dev/mut.py CHECKS FILE 'old' 'new' [FILE old new ...]: run checks on a scratch copy of /repo with a textual change."""
import os, shutil, subprocess, sys, tempfile
checks = sys.argv[1].split(",")
d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
try:
    subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % d, shell=True, check=True)
    subprocess.run("cd %s && git init -q . && git add -A" % d, shell=True, check=True)
    a = sys.argv[2:]
    while a:
        f, old, new = a[:3]
        a = a[3:]
        p = os.path.join(d, f)
        s = open(p).read()
        old = old.encode().decode("unicode_escape"); new = new.encode().decode("unicode_escape")
        assert s.count(old) >= 1, "pattern not found: " + old
        s = s.replace(old, new, 1)
        open(p, "w").write(s)
    for c in checks:
        r = subprocess.run(["python3", "/verif/check.py", c], env=dict(os.environ, BFS_REPO=d), capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if l.startswith("[") or l.startswith(("ERROR", "KNOWN"))]
        print(c, "exit %d" % r.returncode, *lines[:6], sep="\n   ")
        if r.returncode == 2: print(r.stdout[-800:], r.stderr[-500:])
finally:
    shutil.rmtree(d)

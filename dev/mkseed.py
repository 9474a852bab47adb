"""from mkseed import seed: write /verif/seeded/<id>/ from textual edits against /repo's HEAD."""
import json, os, subprocess, tempfile, shutil
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")


def seed(id, prop, needs, breaks, edits, demo, files={}):
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (d, d), shell=True, check=True)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(d)
    o = os.path.join(S, id)
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    open(o + "/demo.sh", "w").write("#!/bin/bash\n" + demo.lstrip("\n"))
    os.chmod(o + "/demo.sh", 0o755)
    for n, t in files.items():
        open(os.path.join(o, n), "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
    open(o + "/meta.json", "a").write("\n")

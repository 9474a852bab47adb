#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: python3 dev/spec.py regenerates both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe or []))


IR = "whole-program LLVM IR (clang -O0 + mem2reg) rebuilt from the working tree; nothing is executed. "
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props.py")).read())

with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in sorted(P, key=lambda p: p["id"]):
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"], "level": "other", "level_note": IR + p["note"]})
m = {"version": 1, "setup_cmd": "python3 -c 'from sa import build; build.ensure_tool()'",
     "checks": checks, "not_applicable": na,
     "notes": "All checks are static analyses of /repo's current source. quick analyses the default configuration, thorough also "
              "NDEBUG, no-io_uring and portable (fstatat/readdir) configurations. No hooks are used in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(P), "properties,", len(checks), "claimed")

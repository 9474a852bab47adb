#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property statically on /repo's current tree."""
import importlib, json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
from sa import build, ir, result

LEVEL = "other"


def load_known(pid):
    """known_findings.txt: lines 'known: property=<id> key=<rule|function|message>' (see DESIGN.md)."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                out.append(line.split("key=", 1)[1])
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    rmod = importlib.import_module("sa.rules." + pid.lower())
    R = result.Result(pid, tier)
    variants = ["default"]
    broken = False
    if tier == "thorough":
        variants += [v for v in build.VARIANTS if v != "default" and v not in getattr(rmod, "SKIP_VARIANTS", ())]
    try:
        for v in variants:
            R.variant = v
            m = ir.Module(build.build(v))
            R.count("translation units", m.units)
            R.count("IR instructions", m.ninstr)
            R.require(not m.unresolved, "unresolved indirect calls: %s" % m.unresolved)
            rmod.check(m, R)
            R.count("functions in the program", len(m.defined))
    except (build.BuildError, result.AnalysisBroken) as e:
        if R.viol:
            print("note: analysis stopped early: %s" % e)
            broken = True
        else:
            print("ERROR: analysis of %s could not be completed: %s" % (pid, e))
            return 2
    except Exception:
        traceback.print_exc()
        print("ERROR: analysis of %s failed" % pid)
        return 2
    known = load_known(pid)
    fresh = []
    for v in R.viol:
        if v[0] in known:
            R.known.append(v)
        else:
            fresh.append(v)
    if R.funcs:
        R.counts["functions analysed path-sensitively"] = len(R.funcs)
    R.counts = {k: v for k, v in R.counts.items() if v}
    cov = {
        "explanation": "Static analysis of the whole program's LLVM IR (clang -O0 + mem2reg) rebuilt from the working tree; nothing is executed. Rules: " + " // ".join(R.rules),
        "obligations_examined": R.obl,
        "obligations_violated": len(R.viol),
        "counts": R.counts,
        "configurations": variants,
        "samples": R.samples[:40],
    }
    ev = {"property": pid, "tier": "thorough" if tier == "thorough" else "quick", "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
          "level": LEVEL, "coverage": cov, "assumptions": R.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations examined, %d functions in program, configurations: %s" % (
        pid, R.obl, R.counts.get("functions in the program", 0), ",".join(variants)))
    for k, n in sorted(R.counts.items()):
        print("  %s: %d" % (k, n))
    for v in R.known:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, v[1], v[2]))
    if not fresh and broken:
        print("ERROR: analysis of %s could not be completed" % pid)
        return 2
    if not fresh:
        print("%s: held (%.1fs)" % (pid, time.time() - t0))
        return 0
    os.makedirs(os.path.join(VERIF, "reports"), exist_ok=True)
    rp = os.path.join(VERIF, "reports", pid + ".txt")
    with open(rp, "w") as f:
        for key, loc, msg, trail, variant, fn, rule in fresh:
            text = "%s: in %s(): %s%s\n" % (loc, fn, msg, " [configuration %s]" % variant if variant != "default" else "")
            if rule:
                text = "[%s] %s" % (rule, text)
            print(text, end="")
            f.write(text)
            for t in trail:
                f.write("    via %s\n" % t)
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1


if __name__ == "__main__":
    sys.exit(main())

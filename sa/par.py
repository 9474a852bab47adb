"""Run many independent engine analyses on all cores (each is deterministic; results are merged in order)."""
import multiprocessing, os, sys
from .engine import Engine
from .result import AnalysisBroken

JOBS = []
M = None


class Where:
    """The site of a report, as it comes back from another process."""
    def __init__(self, loc, fn):
        self._loc = loc
        self.fn = type("F", (), {"name": fn})

    def loc(self):
        return self._loc


def one(n):
    rule, rname = JOBS[n]
    eng = Engine(M, rule)
    try:
        eng.run(rule.entry, rule.setup)
    except AnalysisBroken as e:
        return n, str(e), None
    return n, None, (rule.leaves, eng.steps, eng.paths, sorted(eng.visited_funcs), [(i.loc(), i.fn.name, msg, t) for i, msg, t in eng.reports.values()], getattr(rule, "tally", 0))


def runall(m, R, jobs):
    """jobs: (rule, rule name). Returns the tally of each."""
    global M
    M = m
    JOBS[:] = jobs
    tally = [0] * len(jobs)
    sys.setrecursionlimit(20000)
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        got = pool.map(one, range(len(jobs)), chunksize=max(1, min(20, len(jobs) // 32)))
    JOBS[:] = []
    for n, err, r in got:
        rule, rname = jobs[n]
        if err:
            raise AnalysisBroken(err)
        leaves, steps, paths, funcs, reports, tally[n] = r
        R.count("functions analysed path-sensitively", 0)
        R.funcs |= set(funcs)
        R.count("abstract transfer steps", steps)
        R.count("abstract return paths", paths)
        for loc, fn, msg, trail in reports:
            R.violation(Where(loc, fn), msg, trail, rule=rname)
        R.require(leaves, "%s() is not analysable (%s)" % (rule.entry, rule.text))
    return tally

"""Demand-driven scope widening: prove an obligation in the function that owns it; where that fails, prove it in every caller instead."""
from .engine import Engine, Budget


def demand_run(m, R, starts, mkrule, tag, limit=12, stop=lambda f: False, setup=None, maxdepth=3, widebudget=250000):
    """starts: function names. mkrule(): a fresh rule. Reports that remain once no (further) caller exists are violations.
    Returns the rules that ran."""
    rules = []
    verdict = {}

    def judge(f, depth):
        """Reports that stand for f: (engine, reports) or None when proved (here or in all callers)."""
        if f in verdict:
            return verdict[f]
        verdict[f] = []
        rule = mkrule()
        if depth:
            rule.budget = min(rule.budget, widebudget)
        eng = Engine(m, rule)
        try:
            eng.run(f, setup)
        except Budget:
            if depth:
                verdict[f] = None
                return None
            raise
        R.funcs |= eng.visited_funcs
        rules.append((f, rule))
        verdict[f] = [eng]
        if not eng.reports:
            return verdict[f]
        callers = sorted({c.fn.name for c in m.callsites.get(f, [])} | {c.fn.name for c in m.icallers.get(f, [])})
        if not callers or depth >= maxdepth or len(verdict) > limit or stop(f):
            return verdict[f]
        wide = []
        for c in callers:
            v = judge(c, depth + 1)
            if v is None:
                return verdict[f]       # too large to widen: the local verdict stands
            wide += v
        verdict[f] = wide
        return wide
    for f in sorted(starts):
        for eng in judge(f, 0):
            R.engine(eng, tag)
    return rules

"""Verdict collection: obligations, violations, evidence."""
import json, os, time


class AnalysisBroken(Exception):
    """The analysis could not answer (vanished anchor, too few instances, build failure)."""


class Result:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.viol = []          # (key, location, message, trail, variant)
        self.obl = 0
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.funcs = set()
        self.variant = "default"
        self.known = []

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def obligation(self, what=None, n=1):
        """A rule instance that was examined."""
        self.obl += n
        if what and len(self.samples) < 60 and what not in self.samples:
            self.samples.append(what)

    def violation(self, where, msg, trail=(), fn=None, rule=""):
        """where: Instr or 'file:line' string."""
        if hasattr(where, "loc"):
            fn = fn or where.fn.name
            loc = where.loc()
        else:
            loc = str(where)
        key = "%s|%s|%s" % (rule, fn or "", msg)
        for v in self.viol:
            if v[0] == key and v[1] == loc:
                return
        self.viol.append((key, loc, msg, list(trail), self.variant, fn, rule))

    def engine(self, eng, rule=""):
        """Take over the reports and coverage of one engine run."""
        self.count("functions analysed path-sensitively", 0)
        self.funcs |= eng.visited_funcs
        self.count("abstract transfer steps", eng.steps)
        self.count("abstract return paths", eng.paths)
        for (fn, id_, msg), (i, m, trail) in eng.reports.items():
            self.violation(i, m, trail, rule=rule)

    def require(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)

    def minimum(self, what, n, least):
        if n < least:
            raise AnalysisBroken("only %d %s found (at least %d expected): the analysis no longer sees the code it must judge" % (n, what, least))

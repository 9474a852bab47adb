"""C20: operators evaluate their operands in order and short-circuit; nothing is evaluated after -quit/-exit."""
from ..engine import Engine, Rule
from .execcommon import direct_reach
from .opcommon import *


class OperandRule(Walk):
    """prop = (cur, last outcome, cur evaluated, quit)"""
    name = "operator"
    maxstates = 200
    budget = 600000
    inline_depth = 6

    def __init__(self, m, entry, op, sites, inl):
        super().__init__(m)
        self.entry, self.op, self.inl = entry, op, inl
        self.sites = {id(i) for i in sites}
        self.kq = m.field("bfs_eval", "quit")
        self.state = None
        self.evals = 0
        self.rets = 0

    def init(self):
        return ("start", None, True, False)

    def tokens(self, prop):
        return [prop[0]] if isinstance(prop[0], tuple) else []

    def rename(self, prop, mp):
        if isinstance(prop[0], tuple) and prop[0] in mp:
            v = mp[prop[0]]
            return ((v[1] if v[0] == "s" else "end" if v == ("k", 0) else "lost"),) + prop[1:]
        return prop

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def store(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.kq:
            st.prop = st.prop[:3] + (v != ("k", 0),)

    def split(self, eng, st, i, ctx):
        w = self.where(eng, st, i, ctx)
        if w is None:
            return None
        if w == ("cell", self.state, self.kq[1]):
            st.env[(ctx, "i", i.id)] = ("k", int(st.prop[3]))
            return [st]
        if w[0] == "cell":
            return None
        v = eng.val(st, i.fn, ctx, ("i", i.id))
        cur, last, ev, quit = st.prop
        if w[0] == "head" and cur == "start":
            st.prop = (v[1] if v[0] == "s" else "end", last, False, quit)
        elif w[0] == "next" and w[1] == cur and ev:
            st.prop = (v[1] if v[0] == "s" else "end", last, False, quit)
        return None

    def call(self, eng, st, i, name, args, ctx):
        if id(i) not in self.sites:
            if i.noret and st.prop[3]:
                eng.report(i, "%s() can try to evaluate an operand after the search was told to stop (assertion failure)" % self.entry, st)
            return None
        self.evals += 1
        cur, last, ev, quit = st.prop
        if quit:
            eng.report(i, "%s() can evaluate an operand after the search was told to stop" % self.entry, st)
        if args[0] != ("s", cur) or ev:
            eng.report(i, "%s() can evaluate an operand out of order or more than once" % self.entry, st)
        elif self.op == "and" and last == 0 or self.op == "or" and last == 1:
            eng.report(i, "%s() can evaluate an operand although an earlier one decided the result" % self.entry, st)
        out = []
        for res in (0, 1):
            for qt in (0, 1):
                s = st.copy()
                eng.effect(s, i, name, args, ctx)
                s.prop = (cur, res, True, bool(qt))
                s.trail = ("%s: operand %s%s" % (i.loc(), "true" if res else "false", ", stop" if qt else ""), s.trail)
                out.append((s, ("k", res)))
        return out

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name]:
            return
        self.rets += 1
        cur, last, ev, quit = st.prop
        if quit:
            return
        ret = fn.blocks[fn.rpo[-1]][-1]
        r = eng.rng(st, rv)
        val = int(r[0] != 0) if r[0] == r[1] else None
        done = cur == "end" or isinstance(cur, tuple) and eng.isnull(st, ("s", cur))
        if self.op == "not":
            if last is None:
                eng.report(ret, "%s() can return without evaluating its operand" % fn.name, st)
            elif val != 1 - last:
                eng.report(ret, "%s() can return something else than the negation of its operand" % fn.name, st)
            return
        decided = self.op == "and" and last == 0 or self.op == "or" and last == 1
        if not decided and not done:
            eng.report(ret, "%s() can return before all operands that matter were evaluated" % fn.name, st)
            return
        want = {"and": 0 if last == 0 else 1, "or": 1 if last == 1 else 0, "comma": last}[self.op]
        if want is not None and val != want:
            eng.report(ret, "%s() can return a result that does not follow from its operands" % fn.name, st)


class StopRule(Rule):
    """An action that sets 'quit' also asks the traversal to stop. prop = (quit, action)"""
    name = "stop"
    maxstates = 30
    budget = 200000
    inline_depth = 3

    def __init__(self, m, entry):
        self.m, self.entry = m, entry
        self.kq, self.ka = m.field("bfs_eval", "quit"), m.field("bfs_eval", "action")

    def init(self):
        return (False, None)

    def inline(self, eng, fn, depth):
        return any(k in eng.sum.mods(fn.name)[0] for k in (self.kq, self.ka)) and fn.file == self.m.defined[self.entry].file

    def store(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.kq:
            st.prop = (v != ("k", 0), st.prop[1])
        elif loc[1] == self.ka:
            st.prop = (st.prop[0], v[1] if v[0] == "k" else None)

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name == self.entry and eng.stack == [fn.name] and st.prop[0] and st.prop[1] != self.m.enums["BFTW_STOP"]:
            eng.report(fn.blocks[fn.rpo[-1]][-1], "%s() ends the evaluation but does not tell the traversal to stop" % fn.name, st)


class VisitRule(Rule):
    """The traversal callback. prop = (quit, tokens of -exclude, action)"""
    name = "visit"
    maxstates = 60
    budget = 800000
    inline_depth = 4

    def __init__(self, m, entry, evalfns, sites, inl):
        self.m, self.entry, self.evalfns, self.inl = m, entry, evalfns, inl
        self.sites = {id(i) for i in sites}
        self.kq, self.ka = m.field("bfs_eval", "quit"), m.field("bfs_eval", "action")
        self.kex = m.field("bfs_ctx", "exclude")
        self.evals = 0

    def init(self):
        return (False, (), None)

    def tokens(self, prop):
        return list(prop[1])

    def rename(self, prop, mp):
        return (prop[0], tuple(mp[t][1] if t in mp and mp[t][0] == "s" else t for t in prop[1]), prop[2])

    def load(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.kex and v[0] == "s" and v[1] not in st.prop[1]:
            st.prop = (st.prop[0], st.prop[1] + (v[1],), st.prop[2])

    def store(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.ka:
            st.prop = st.prop[:2] + (v[1] if v[0] == "k" else None,)
        elif loc[1] == self.kq and st.prop[0] and v == ("k", 0):
            eng.report(i, "%s() forgets that the search was told to stop" % self.entry, st)

    def split(self, eng, st, i, ctx):
        k = eng.keyof(i, i.ops[0])
        if k == self.ka and st.prop[2] is not None:
            st.env[(ctx, "i", i.id)] = ("k", st.prop[2])
            return [st]
        if k == self.kq:
            st.env[(ctx, "i", i.id)] = ("k", int(st.prop[0]))
            return [st]
        return None

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def call(self, eng, st, i, name, args, ctx):
        if id(i) not in self.sites:
            if i.noret and st.prop[0]:
                eng.report(i, "%s() can try to evaluate an expression after the search was told to stop (assertion failure)" % self.entry, st)
            return None
        self.evals += 1
        if st.prop[0]:
            eng.report(i, "%s() can evaluate an expression after the search was told to stop" % self.entry, st)
        excl = args[0][0] == "s" and args[0][1] in st.prop[1]
        out = []
        for res in (0, 1):
            for qt in (0, 1):
                if qt and excl:
                    continue        # -exclude rejects actions
                s = st.copy()
                eng.effect(s, i, name, args, ctx)
                s.prop = (bool(qt), s.prop[1], self.m.enums["BFTW_STOP"] if qt else None)
                s.trail = ("%s: expression %s%s" % (i.loc(), "true" if res else "false", ", stop" if qt else ""), s.trail)
                out.append((s, ("k", res)))
        return out

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name == self.entry and eng.stack == [fn.name] and st.prop[0]:
            if rv != ("k", self.m.enums["BFTW_STOP"]):
                eng.report(fn.blocks[fn.rpo[-1]][-1], "%s() can return something else than 'stop' after -quit or -exit" % fn.name, st)


class TraverseRule(Rule):
    """Nothing is visited after a callback returned 'stop'. prop = stopped"""
    name = "traverse"
    maxstates = 16
    budget = 3000000
    inline_depth = 8

    def __init__(self, m, entry, keys, sites, inl):
        self.m, self.entry, self.keys, self.inl = m, entry, keys, inl
        self.sites = {id(i) for i in sites}
        self.calls = set()

    def init(self):
        return False

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def call(self, eng, st, i, name, args, ctx):
        if id(i) not in self.sites:
            return None
        self.calls.add(i.loc())
        if st.prop:
            eng.report(i, "a file can be visited after an earlier visit returned 'stop'", st)
        stop = self.m.enums["BFTW_STOP"]
        s = st.copy()
        eng.effect(st, i, name, args, ctx)
        eng.effect(s, i, name, args, ctx)
        st.prop = True
        st.trail = ("%s: visit returns stop" % i.loc(), st.trail)
        v = eng.fresh(s, ("cb", ctx, i.id), (-1 << 31, 1 << 31, frozenset([stop])))
        return [(st, ("k", stop)), (s, v)]

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name == self.entry and eng.stack == [fn.name] and fn.dtypes[0] == "enum bftw_action" and st.prop and rv != ("k", self.m.enums["BFTW_STOP"]):
            eng.report(fn.blocks[fn.rpo[-1]][-1], "%s() can return something else than 'stop' although the visit returned 'stop'" % fn.name, st)


def check(m, R):
    R.rule("operator evaluators, over an arbitrary operand list with every outcome (true/false/stop) of each operand: operands in order, at most once, "
           "only while the result is open, result as defined, no operand after a stop")
    R.rule("every evaluator that sets 'quit' sets the action to BFTW_STOP; the traversal callback returns it and evaluates nothing afterwards")
    R.rule("every path of the traversal (all strategies): no callback is invoked after one returned BFTW_STOP")
    R.assume("-quit, -exit and -limit are rejected inside -exclude by the parser")
    evals, sites = evaluators(m)
    R.minimum("expression evaluators", len(evals), 40)
    R.require(m.field("bfs_eval", "quit") and m.field("bfs_eval", "action"), "bfs_eval.quit vanished")
    reach = direct_reach(m, {i.fn.name for i in sites})
    small = {n for n, f in m.defined.items() if sum(map(len, f.blocks)) < 40 and any("struct bfs_expr*" == d for d in f.dtypes[1:])
             and not any(i.op == "call" and i.callee[0] != "f" for b in f.blocks for i in b)} - evals
    kfn = m.field("bfs_expr", "eval_fn")
    kq = m.field("bfs_eval", "quit")
    for E, op in OPS.items():
        R.require(E in m.defined, "evaluator %s vanished" % E)
        rule = OperandRule(m, E, op, sites, (reach - evals) | small)
        eng = Engine(m, rule)

        def setup(eng, st, args, ctx):
            rule.expr = args[0][1]
            rule.state = args[1][1]
            st.mem[(("t", args[0][1]), kfn[1])] = (("f", E), kfn, "ptr")
        eng.run(E, setup)
        R.engine(eng, "operator")
        R.require(rule.evals > 0, "%s evaluates nothing" % E)
        R.obligation("%s: %d evaluations, %d return paths" % (E, rule.evals, rule.rets))
    # actions that stop
    qs = {s.fn.name for s in m.storemap.get(kq, []) if s.ops[0] != ("c", 0)}
    n = 0
    for E in sorted(evals):
        if m.reach([E], stop=evals - {E} | {n2 for n2, f in m.defined.items() if f.file.endswith("diag.c")}) and not (set(direct(m, E)) & qs):
            continue
        if E in OPS:
            continue
        n += 1
        rule = StopRule(m, E)
        eng = Engine(m, rule)
        eng.run(E)
        R.engine(eng, "stop")
        R.obligation("%s: ends the evaluation" % E)
    R.minimum("evaluators that end the search", n, 3)
    # the traversal callback
    cbs = []
    keys = {m.field("bftw_state", "callback"), m.field("bftw_args", "callback"), m.field("bftw_ids_state", "delegate")} - {None}
    cbsites = []
    for f in m.defined.values():
        for i in m.calls(f):
            c = i.callee
            if c[0] == "i" and f.instrs[c[1]].op == "load" and m.ptrkey(f, f.instrs[c[1]].ops[0]) in keys:
                cbsites.append(i)
    R.minimum("callback call sites", len(cbsites), 2)
    targets = set()
    for i in cbsites:
        targets |= m.callees(i)
    for cb in sorted(targets):
        f = m.defined.get(cb)
        if f is None:
            continue
        inner = [i for i in cbsites if cb in direct_reach(m, {i.fn.name})]
        if cb in reach:
            rule = VisitRule(m, cb, reach, sites, reach - evals)
            eng = Engine(m, rule)
            eng.run(cb)
            R.engine(eng, "visit")
            R.obligation("%s: %d evaluations" % (cb, rule.evals))
            cbs.append(cb)
        if inner:
            rule = TraverseRule(m, cb, keys, cbsites, direct_reach(m, {i.fn.name for i in inner}))
            eng = Engine(m, rule)
            eng.run(cb)
            R.engine(eng, "delegate")
            R.obligation("%s: hands 'stop' on" % cb)
    R.minimum("traversal callbacks", len(cbs), 1)
    outer = [i for i in cbsites if not any(i.fn.name in direct_reach_of(m, t) for t in targets)]
    R.require(bool(outer), "no traversal visits files")
    inl = direct_reach(m, {i.fn.name for i in outer})
    R.require("bftw" in inl, "bftw() does not visit files")
    rule = TraverseRule(m, "bftw", keys, outer, inl)
    eng = Engine(m, rule)
    eng.run("bftw")
    R.engine(eng, "traverse")
    R.obligation("bftw: visits at %s" % ", ".join(sorted(rule.calls)))


def direct(m, f):
    out, work = {f}, [f]
    while work:
        g = m.defined.get(work.pop())
        if not g:
            continue
        for i in m.calls(g):
            if i.callee[0] == "f" and i.callee[1] in m.defined and i.callee[1] not in out:
                out.add(i.callee[1])
                work.append(i.callee[1])
    return out


direct_reach_of = direct

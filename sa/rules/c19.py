"""C19: depth limits, pruning, mount points and -depth decide exactly which visits evaluate and descend."""
from itertools import product
from ..engine import Engine, Rule, INF
from .execcommon import direct_reach
from .opcommon import evaluators, callback_callers

INT_MAX = (1 << 31) - 1


class Case(Rule):
    """Analyse a function with some fields known: {field key: value}."""
    maxstates = 100
    budget = 300000
    inline_depth = 4

    def __init__(self, m, entry, fields, text):
        self.m, self.entry, self.fields, self.text = m, entry, fields, text
        self.file = m.defined[entry].file
        self.leaves = 0

    def split(self, eng, st, i, ctx):
        key = eng.keyof(i, i.ops[0])
        if key in self.fields:
            v = self.fields[key]
            st.env[(ctx, "i", i.id)] = v if isinstance(v, tuple) else ("k", v)
            return [st]
        return None

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)

    def at(self, fn):
        return fn.blocks[fn.rpo[-1]][-1]

    def isentry(self, eng, fn):
        return fn.name == self.entry and eng.stack == [fn.name]


class GateRule(Case):
    """The visit callback. prop = (evaluated, why not, action set by the expression, checked)"""
    name = "gate"

    def __init__(self, m, entry, fields, text, runs, evals, uniq, inl, want, action, post):
        super().__init__(m, entry, fields, text)
        f = m.field
        self.runs, self.evals, self.uniq, self.want, self.action, self.post = runs, evals, uniq, want, action, post
        self.fields[f("bfs_ctx", "expr")] = ("s", ("expr",))
        self.fields[f("bfs_ctx", "exclude")] = ("s", ("exclude",))
        self.ka = f("bfs_eval", "action")
        self.kx, self.ku = f("bfs_ctx", "xargs_safe"), f("bfs_ctx", "unique")
        self.seen = set()
        self.inl = inl

    def init(self):
        return (0, None, None, frozenset(), None)

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def split(self, eng, st, i, ctx):
        key = eng.keyof(i, i.ops[0])
        if key in (self.kx, self.ku):
            out = []
            n = "xargs" if key == self.kx else "unique"
            for b in (0, 1):
                t, o = (n, "!" + n) if b else ("!" + n, n)
                if o not in st.prop[3]:
                    s = st.copy()
                    s.env[(ctx, "i", i.id)] = ("k", b)
                    s.prop = s.prop[:3] + (s.prop[3] | {t},) + s.prop[4:]
                    out.append(s)
            return out
        if key == self.ka and st.prop[4] is not None:
            st.env[(ctx, "i", i.id)] = st.prop[4]
            return [st]
        return super().split(eng, st, i, ctx)

    def store(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.ka:
            st.prop = st.prop[:4] + (eng.norm(st, v),)

    def call(self, eng, st, i, name, args, ctx):
        ev, why, act, facts, cur = st.prop
        if name in self.uniq:
            if self.post:
                eng.report(i, "%s() can look for duplicates on the second visit of a file" % self.entry, st)
            a, b = st.copy(), st.copy()
            a.prop = (ev, why, act, facts | {"checked"}, cur)
            b.prop = (ev, "a duplicate", act, facts, cur)
            return [(a, ("k", 1)), (b, ("k", 0))]
        if name in ("strpbrk", "strcspn", "strchr") and "xargs" in facts and why is None:
            a, b = st.copy(), st.copy()
            a.prop = (ev, "unsafe for xargs", act, facts, cur)
            return [(a, eng.fresh(a, ("brk",), (1, INF, frozenset()))), (b, ("k", 0))] if name != "strcspn" else None
        if name in self.runs and args:
            if args[0] == ("s", ("exclude",)):
                a, b = st.copy(), st.copy()
                a.prop = (ev, "excluded", act, facts, cur)
                b.prop = (ev, why, act, facts | {"excl"}, cur)
                return [(a, ("k", 1)), (b, ("k", 0))]
            if args[0] == ("s", ("expr",)):
                self.seen.add("expr")
                if ev:
                    eng.report(i, "%s() can evaluate the expression twice in one visit" % self.entry, st)
                if why:
                    eng.report(i, "%s() can evaluate the expression for a file that is %s" % (self.entry, why), st)
                elif "excl" not in facts:
                    eng.report(i, "%s() can evaluate the expression without looking at -exclude" % self.entry, st)
                if self.want is False:
                    eng.report(i, "%s() can evaluate the expression on the wrong visit or outside the depth limits" % self.entry, st)
                out = []
                for v in (None, "BFTW_PRUNE", "BFTW_STOP"):
                    s = st.copy()
                    s.prop = (1, why, v, facts, ("k", self.m.enums[v]) if v else cur)
                    s.trail = ("%s: the expression is evaluated%s" % (i.loc(), " and asks for " + v if v else ""), s.trail)
                    out.append((s, eng.fresh(s, ("truth",), (0, 1, frozenset()))))
                return out
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        ev, why, act, facts, cur = st.prop
        if self.want and not ev and not why:
            eng.report(self.at(fn), "%s() can skip a file within the depth limits" % fn.name, st)
        E = self.m.enums
        rv = eng.norm(st, rv)
        if why == "a duplicate":
            return
        want = "BFTW_PRUNE" if why else act or self.action
        if rv != ("k", E[want]):
            eng.report(self.at(fn), "%s() can answer something else than %s for a file %s" % (fn.name, want, "that is " + why if why else "whose evaluation asked for that" if act else
                       "at or below -maxdepth" if self.action == "BFTW_PRUNE" else "above -maxdepth"), st)


def gates(m, R):
    evals, sites = evaluators(m)
    runs = {s.fn.name for s in sites}
    file = m.defined[sorted(runs)[0]].file
    cbs = {n for n in m.defined if any(c.fn.file.endswith("bftw.c") for c in m.icallers.get(n, [])) and m.defined[n].file == file}
    uniq = {c.fn.name for c in m.callsites.get("trie_insert_mem", []) if c.fn.file == file} & {f.name for f in m.defined.values() if f.ret == "i1"}
    E, f = m.enums, m.field
    keys = {f("bfs_ctx", "mindepth"), f("bfs_ctx", "maxdepth"), f("bfs_ctx", "flags"), f("bfs_ctx", "unique"), f("bfs_ctx", "xargs_safe"), f("bfs_eval", "action")}
    use = {g.name for g in m.defined.values() if g.file == file and not g.va and any(i.op in ("load", "store") and m.ptrkey(g, i.ops[-1]) in keys for i in g.instrs.values())}
    inl = {g for g in direct_reach(m, use | runs | uniq) if g in m.defined and m.defined[g].file == file} - runs - evals - uniq
    n = 0
    for cb in sorted(cbs):
        seen = set()
        for post, dfs, strat, t in product((0, 1), (0, 1), ("BFTW_BFS", "BFTW_DFS", "BFTW_IDS", "BFTW_EDS"), ("BFS_DIR", "BFS_REG", "BFS_LNK")):
            if not dfs and (post or strat != "BFTW_BFS"):
                continue
            if t == "BFS_LNK" and strat != "BFTW_BFS":
                continue
            for depth, mind, maxd in product((0, 1, 2), (0, 1, 2), (-1, 0, 1, 2, INT_MAX)):
                second = dfs and (t == "BFS_DIR" or strat == "BFTW_IDS") and depth < maxd
                inside = mind <= depth <= maxd
                want = None if maxd < 0 else bool(inside and bool(post) == bool(second))
                fields = {f("BFTW", "visit"): E["BFTW_POST" if post else "BFTW_PRE"], f("BFTW", "type"): E[t], f("BFTW", "depth"): depth,
                          f("bfs_ctx", "mindepth"): mind, f("bfs_ctx", "maxdepth"): maxd, f("bfs_ctx", "flags"): E["BFTW_POST_ORDER"] if dfs else 0, f("bfs_ctx", "strategy"): E[strat]}
                text = "%s visit of a %s at depth %d, -mindepth %d -maxdepth %d%s, %s" % ("second" if post else "first", t[4:], depth, mind, maxd, " -depth" if dfs else "", strat)
                rule = GateRule(m, cb, fields, text, runs, evals, uniq, inl, want, "BFTW_PRUNE" if depth >= maxd else "BFTW_CONTINUE", bool(post))
                eng = Engine(m, rule)
                eng.run(cb, rule.setup)
                R.engine(eng, "gate")
                R.require(rule.leaves, "%s() is not analysable" % cb)
                seen |= rule.seen
                n += 1
        R.obligation("gate: %s() (all relations of depth, limits, visit, type, order)" % cb, n)
        R.require(seen, "%s() does not evaluate the expression" % cb)
    R.minimum("cases of the visit callback", n, 900)


class FlowRule(Case):
    """Between the traversal and its callback. prop = (callback's answer, mount, facts, failed, answer to the second visit of a mount point)"""
    name = "flow"

    def __init__(self, m, entry, fields, text, inl, builders, post, isdir, flags):
        super().__init__(m, entry, fields, text)
        f = m.field
        self.inl, self.builders, self.post, self.isdir, self.flags = inl, builders, post, isdir, flags
        self.kcb, self.kfile, self.kparent = f("bftw_state", "callback"), f("bftw_state", "file"), f("bftw_file", "parent")
        self.kdev, self.ksdev, self.kerr = f("bftw_file", "dev"), f("bfs_stat", "dev"), f("bftw_state", "error")
        self.kvis = f("BFTW", "visit")
        self.calls = 0

    def init(self):
        return (None, None, frozenset(), False, None)

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def split(self, eng, st, i, ctx):
        key = eng.keyof(i, i.ops[0])
        e = (ctx, "i", i.id)
        ans, mount, facts, bad, sec = st.prop
        if key == self.ksdev:
            st.env[e] = ("k", 7)
            return [st]
        if key == self.kdev:
            out = []
            for b in (False, True):
                if mount in (None, b):
                    s = st.copy()
                    s.env[e] = ("k", 8 if b else 7)
                    s.prop = (ans, b, facts, bad, sec)
                    out.append(s)
            return out
        if key in (self.kfile, self.kparent):
            v = st.env.get(e)
            if eng.isnull(st, v) or v in facts:
                return None
            a, b = st.copy(), st.copy()
            a.env[e] = ("k", 0)
            a.prop = (ans, mount, facts | {"root"}, bad, sec)
            eng.assumecmp(b, "ne", v, ("k", 0))
            return [a, b]
        return super().split(eng, st, i, ctx)

    def store(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.kerr:
            st.prop = st.prop[:3] + (True,) + st.prop[4:]
        elif loc[1] == self.kvis and eng.norm(st, v) == ("k", self.m.enums["BFTW_POST"]):
            st.prop = st.prop[:2] + (st.prop[2] | {"post"},) + st.prop[3:]

    def call(self, eng, st, i, name, args, ctx):
        ans, mount, facts, bad, sec = st.prop
        E = self.m.enums
        if i.callee[0] == "i":
            d = i.fn.instrs[i.callee[1]]
            if d.op == "load" and self.m.ptrkey(i.fn, d.ops[0]) == self.kcb:
                self.calls += 1
                again = ans == "BFTW_CONTINUE" and sec is None and mount and {"PRUNE", "POST"} <= set(self.flags) and not self.post and self.isdir
                if ans is not None and not (again and "post" in facts):
                    eng.report(i, "%s() can call back twice for one visit" % self.entry, st)
                if self.post and "POST" not in self.flags:
                    eng.report(i, "%s() can make a second visit without -depth" % self.entry, st)
                if "SKIP" in self.flags and mount is not False and "root" not in facts and "nostat" not in facts:
                    eng.report(i, "%s() can visit a file on another file system despite -mount" % self.entry, st)
                out = []
                for v in ("BFTW_CONTINUE", "BFTW_PRUNE", "BFTW_STOP"):
                    s = st.copy()
                    s.prop = (ans, mount, facts, bad, v) if ans else (v, mount, facts, bad, sec)
                    s.trail = ("%s: the callback answers %s" % (i.loc(), v), s.trail)
                    out.append((s, ("k", E[v])))
                return out
        if name == "bftw_stat":
            a, b = st.copy(), st.copy()
            a.prop = (ans, mount, facts | {"nostat"}, bad, sec)
            return [(a, ("k", 0)), (b, eng.fresh(b, ("sb",), (1, INF, frozenset())))]
        if name in self.builders:
            a, b = st.copy(), st.copy()
            a.prop = (ans, mount, facts, True, sec)
            return [(a, ("k", -1)), (b, ("k", 0))]
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        ans, mount, facts, bad, sec = st.prop
        E = self.m.enums
        names = {E[n]: n for n in ("BFTW_CONTINUE", "BFTW_PRUNE", "BFTW_STOP")}
        rv = eng.norm(st, rv)
        got = names.get(rv[1]) if rv[0] == "k" else None
        near = mount is False or "root" in facts or "nostat" in facts
        i = self.at(fn)
        if bad:
            if got != "BFTW_STOP":
                eng.report(i, "%s() can go on after an error" % fn.name, st)
            return
        if ans is None:
            if not (self.post and "POST" not in self.flags) and not ("SKIP" in self.flags and mount):
                eng.report(i, "%s() can skip a file" % fn.name, st)
            elif got == "BFTW_CONTINUE":
                eng.report(i, "%s() can descend into a directory it did not visit" % fn.name, st)
            elif got != "BFTW_PRUNE":
                eng.report(i, "%s() can stop the search by itself" % fn.name, st)
            return
        if ans == "BFTW_CONTINUE":
            down = not self.post and self.isdir and not ("PRUNE" in self.flags and mount)
            if got == "BFTW_CONTINUE" and "PRUNE" in self.flags and not near:
                down = False
            want = "BFTW_CONTINUE" if down else "BFTW_STOP" if sec == "BFTW_STOP" else "BFTW_PRUNE"
            if {"PRUNE", "POST"} <= set(self.flags) and mount and not self.post and self.isdir and not sec:
                eng.report(i, "%s() can skip the second visit of a mount point" % fn.name, st)
        else:
            want = ans
        if got != want:
            eng.report(i, "%s() can answer %s instead of %s" % (fn.name, got, want), st)


def flow(m, R):
    f, E = m.field, m.enums
    kcb, kerr = f("bftw_state", "callback"), f("bftw_state", "error")
    file = m.defined["bftw"].file
    callers, helpers = callback_callers(m)
    builders = set()
    for c in callers:
        for n in m.cg[c]:
            if n in m.defined and m.defined[n].ret == "i32" and m.defined[n].file == file and kerr in {m.ptrkey(m.defined[n], i.ops[1]) for i in m.defined[n].instrs.values() if i.op == "store"}:
                builders.add(n)
    keys = {f("bftw_file", "dev"), kcb}
    use = {g.name for g in m.defined.values() if g.file == file and any(i.op == "load" and m.ptrkey(g, i.ops[0]) in keys for i in g.instrs.values()) and g.ret in ("i1", "i32")}
    n = 0
    for c in sorted(callers):
        pts = m.defined[c].ptypes
        vis = [k for k, t in enumerate(pts) if t == "i32"]
        R.require(len(vis) == 1, "%s() does not take a visit" % c)
        inl = helpers | {g for g in use if g != c} | {g for g in direct_reach(m, use) if g in m.defined and m.defined[g].file == file and g in m.cg[c] and m.defined[g].ret == "i1"}
        calls = 0
        for post, t, flags in product((False, True), ("BFS_DIR", "BFS_REG"), ((), ("SKIP",), ("PRUNE",), ("POST",), ("POST", "SKIP"), ("POST", "PRUNE"))):
            bits = E["BFTW_RECOVER"]
            for x in flags:
                bits |= E[{"SKIP": "BFTW_SKIP_MOUNTS", "PRUNE": "BFTW_PRUNE_MOUNTS", "POST": "BFTW_POST_ORDER"}[x]]
            fields = {f("BFTW", "type"): E[t], f("bftw_state", "flags"): bits}
            text = "%s visit of a %s, flags %s" % ("second" if post else "first", t[4:], "|".join(flags) or "none")
            rule = FlowRule(m, c, fields, text, inl, builders, post, t == "BFS_DIR", flags)

            def setup(eng, st, args, ctx, rule=rule):
                rule.setup(eng, st, args, ctx)
                args[vis[0]] = ("k", E["BFTW_POST" if rule.post else "BFTW_PRE"])
            eng = Engine(m, rule)
            eng.run(c, setup)
            R.engine(eng, "flow")
            R.require(rule.leaves, "%s() is not analysable" % c)
            calls += rule.calls
            n += 1
        R.obligation("flow: %s()" % c, n)
        R.require(calls, "%s() does not call back" % c)
    R.minimum("cases between traversal and callback", n, 24)


class IdsRule(Case):
    """Iterative deepening's own callback. prop = (delegate's answer, pruned found, pruned inserted, bottom reset, insertion failed)"""
    name = "deepening"

    def __init__(self, m, entry, fields, text, spec):
        super().__init__(m, entry, fields, text)
        f = m.field
        self.spec = spec
        self.kdel, self.kbot, self.kvis = f("bftw_ids_state", "delegate"), f("bftw_ids_state", "bottom"), f("BFTW", "visit")
        self.kpass = f("bftw_ids_state", "visit")
        self.kpath = f("BFTW", "path")
        self.strs = {self.kpath, f("BFTW", "root"), f("BFTW", "at_path")}
        self.calls = 0

    def init(self):
        return (None, None, False, False, False, self.fields[self.kvis])

    def inline(self, eng, fn, depth):
        return fn.file == self.file and len(fn.instrs) <= 120

    def put(self, st, n, v):
        p = list(st.prop)
        p[n] = v
        st.prop = tuple(p)

    def split(self, eng, st, i, ctx):
        if eng.keyof(i, i.ops[0]) == self.kvis:
            st.env[(ctx, "i", i.id)] = ("k", st.prop[5])
            return [st]
        if eng.keyof(i, i.ops[0]) in self.strs:
            st.env[(ctx, "i", i.id)] = ("s", ("name", eng.keyof(i, i.ops[0])))
            return [st]
        return super().split(eng, st, i, ctx)

    def key(self, eng, st, i, args):
        """Pruned directories are told apart by their whole path."""
        if len(args) < 2:
            return
        a = eng.norm(st, args[1])
        tok = a[1][1] if a[0] == "p" and a[1][0] == "t" else a[1] if a[0] == "s" else None
        if isinstance(tok, tuple) and tok[:1] == ("name",) and a != ("s", ("name", self.kpath)):
            eng.report(i, "%s() can mistake another directory for a pruned one: it does not compare whole paths" % self.entry, st)

    def store(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.kbot:
            self.put(st, 3, eng.norm(st, v) == ("k", 0))
        elif loc[1] == self.kvis and v[0] == "k":
            self.put(st, 5, v[1])

    def call(self, eng, st, i, name, args, ctx):
        E = self.m.enums
        if i.callee[0] == "i":
            d = i.fn.instrs[i.callee[1]]
            if d.op == "load" and self.m.ptrkey(i.fn, d.ops[0]) == self.kdel:
                self.calls += 1
                if st.prop[0]:
                    eng.report(i, "%s() can pass a file on twice" % self.entry, st)
                if not self.spec("call", st.prop[1]):
                    eng.report(i, "%s() can pass a file on in the wrong pass" % self.entry, st)
                elif st.prop[5] != self.vis:
                    eng.report(i, "%s() can pass a file on as the wrong visit" % self.entry, st)
                out = []
                for v in ("BFTW_CONTINUE", "BFTW_PRUNE", "BFTW_STOP"):
                    s = st.copy()
                    self.put(s, 0, v)
                    s.trail = ("%s: the callback answers %s" % (i.loc(), v), s.trail)
                    out.append((s, ("k", E[v])))
                return out
        if name.startswith("trie_find"):
            self.key(eng, st, i, args)
            a, b = st.copy(), st.copy()
            self.put(a, 1, True)
            self.put(b, 1, False)
            return [(a, eng.fresh(a, ("leaf",), (1, INF, frozenset()))), (b, ("k", 0))]
        if name.startswith("trie_insert"):
            self.key(eng, st, i, args)
            a, b = st.copy(), st.copy()
            self.put(a, 2, True)
            self.put(b, 4, True)
            return [(a, eng.fresh(a, ("leaf",), (1, INF, frozenset()))), (b, ("k", 0))]
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        E = self.m.enums
        ans, found, ins, more, bad, _ = st.prop
        i = self.at(fn)
        names = {E[n]: n for n in ("BFTW_CONTINUE", "BFTW_PRUNE", "BFTW_STOP")}
        rv = eng.norm(st, rv)
        got = names.get(rv[1]) if rv[0] == "k" else None
        if bad:
            if got != "BFTW_STOP":
                eng.report(i, "%s() can go on after an error" % fn.name, st)
            return
        if ans is None and self.spec("call", found, "?"):
            eng.report(i, "%s() can fail to pass a file on" % fn.name, st)
            return
        want, deeper, remember = self.spec("answer", found, ans)
        if got != want:
            eng.report(i, "%s() can answer %s instead of %s" % (fn.name, got, want), st)
        elif self.fields[self.kpass] == E["BFTW_POST"]:
            return
        elif more != deeper:
            eng.report(i, "%s() can %s" % (fn.name, "forget that there are deeper files" if deeper else "look for deeper files where there are none"), st)
        elif ins != remember:
            eng.report(i, "%s() can %s" % (fn.name, "forget that a directory was pruned" if remember else "remember a directory as pruned that was not"), st)


def ids(m, R):
    f, E = m.field, m.enums
    kdel = f("bftw_ids_state", "delegate")
    cbs = set()
    for g in m.defined.values():
        for i in g.instrs.values():
            if i.op == "call" and i.callee[0] == "i":
                d = g.instrs[i.callee[1]]
                if d.op == "load" and m.ptrkey(g, d.ops[0]) == kdel:
                    cbs.add(g.name)
    R.minimum("callbacks of iterative deepening", len(cbs), 1)
    n = 0
    for cb in sorted(cbs):
        calls = 0
        for t, depth, (lo, hi), (vis, force, got) in product(("BFS_DIR", "BFS_REG", "BFS_ERROR"), (0, 1, 2, 3, 4), ((0, 1), (1, 2), (2, 3), (2, 4), (1, 1 << 40), (0, 1 << 40)),
                                                     (("BFTW_PRE", 0, "BFTW_PRE"), ("BFTW_POST", 1, "BFTW_PRE"), ("BFTW_POST", 0, "BFTW_PRE"), ("BFTW_POST", 0, "BFTW_POST"))):
            if depth >= hi and t != "BFS_ERROR":
                continue        # not reached: its parent was not descended into
            real = vis if force else got

            def spec(what, found, ans=None, t=t, depth=depth, lo=lo, hi=hi, vis=vis, real=real):
                if t == "BFS_ERROR":
                    call = depth + 1 >= lo
                else:
                    call = depth >= lo and real == vis and not (vis == "BFTW_POST" and (found or found is None and t == "BFS_DIR" and ans != "?"))
                if what == "call":
                    return call
                if t == "BFS_ERROR":
                    return (ans or "BFTW_PRUNE", False, False)
                if depth < lo:
                    return ("BFTW_PRUNE" if found else "BFTW_CONTINUE", False, False)
                if vis == "BFTW_POST" and found:
                    return ("BFTW_PRUNE", False, False)
                ans = ans or "BFTW_CONTINUE"
                if ans == "BFTW_CONTINUE" and t == "BFS_DIR" and depth + 1 >= hi:
                    return ("BFTW_PRUNE", True, False)
                return (ans, False, ans == "BFTW_PRUNE" and t == "BFS_DIR")
            fields = {f("BFTW", "type"): E[t], f("BFTW", "depth"): depth, f("BFTW", "visit"): E[got], f("bftw_ids_state", "visit"): E[vis], f("bftw_ids_state", "force_visit"): force,
                      f("bftw_ids_state", "min_depth"): lo, f("bftw_ids_state", "max_depth"): hi}
            rule = IdsRule(m, cb, fields, "a %s at depth %d in the pass over depths %d to %d, %s" % (t[4:], depth, lo, hi - 1, vis), spec)
            rule.vis = E[real]
            eng = Engine(m, rule)
            eng.run(cb, rule.setup)
            R.engine(eng, "deepening")
            R.require(rule.leaves, "%s() is not analysable" % cb)
            calls += rule.calls
            n += 1
        R.obligation("deepening: %s()" % cb, n)
        R.require(calls, "%s() passes nothing on" % cb)


class PassRule(Case):
    """The passes of iterative deepening. prop = ({field: value}, passes, last result)"""
    name = "passes"
    maxstates = 400
    unroll = 64
    LIMIT = 4

    def __init__(self, m, entry, fields, text, impls, inl, post):
        super().__init__(m, entry, fields, text)
        f = m.field
        self.impls, self.inl, self.post = impls, inl, post
        self.keys = {f("bftw_ids_state", n): n for n in ("min_depth", "max_depth", "visit", "force_visit", "bottom")}
        self.keys[f("bftw_state", "flags")] = "flags"
        self.calls = 0

    def init(self):
        return ((), (), None)

    def get(self, st, n):
        return dict(st.prop[0]).get(n)

    def put(self, st, n, v):
        d = dict(st.prop[0])
        d[n] = v
        st.prop = (tuple(sorted(d.items())),) + st.prop[1:]

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def split(self, eng, st, i, ctx):
        key = eng.keyof(i, i.ops[0])
        n = self.keys.get(key)
        if n:
            v = self.get(st, n)
            if v is not None:
                st.env[(ctx, "i", i.id)] = ("k", v)
                return [st]
            if n == "flags":
                st.env[(ctx, "i", i.id)] = ("k", 0)
                return [st]
        return super().split(eng, st, i, ctx)

    def store(self, eng, st, i, loc, v, ctx):
        n = self.keys.get(loc[1])
        if n:
            v = eng.norm(st, v)
            self.put(st, n, v[1] if v[0] == "k" else None)

    def call(self, eng, st, i, name, args, ctx):
        if name not in self.impls:
            return None
        self.calls += 1
        E = self.m.enums
        lo, hi, vis, force, flags = (self.get(st, n) for n in ("min_depth", "max_depth", "visit", "force_visit", "flags"))
        passes, last = st.prop[1:]
        if last == "failed":
            eng.report(i, "%s() can start another pass after one failed" % self.entry, st)
            return []
        if None in (lo, hi, vis):
            eng.report(i, "%s() can start a pass over unknown depths" % self.entry, st)
            return []
        pre = [p for p in passes if p[0] == E["BFTW_PRE"]]
        post = [p for p in passes if p[0] != E["BFTW_PRE"]]
        p = (vis, lo, hi)
        if vis == E["BFTW_PRE"]:
            if post:
                eng.report(i, "%s() can make a first visit after the second visits" % self.entry, st)
            elif last == "bottom":
                eng.report(i, "%s() can start another pass although the bottom was reached" % self.entry, st)
            elif lo != (pre[-1][2] if pre else 0):
                eng.report(i, "%s() can %s files" % (self.entry, "visit some" if pre and lo < pre[-1][2] else "miss some"), st)
            elif hi <= lo:
                eng.report(i, "%s() can make no progress" % self.entry, st)
        else:
            if not self.post:
                eng.report(i, "%s() can make second visits without -depth" % self.entry, st)
            elif last == "more" and not post:
                eng.report(i, "%s() can start the second visits before the bottom was reached" % self.entry, st)
            elif force:
                k = len(post)
                if k >= len(pre) or (lo, hi) != pre[-1 - k][1:]:
                    eng.report(i, "%s() can make the second visits of the wrong files or out of order" % self.entry, st)
            elif lo != 0 or hi < pre[-1][2] or post or not (flags or 0) & E["BFTW_POST_ORDER"]:
                eng.report(i, "%s() can make the second visits of the wrong files or out of order" % self.entry, st)
        out = []
        if len(passes) < self.LIMIT or len(post) or vis != E["BFTW_PRE"]:
            for b in (0, 1):
                if vis != E["BFTW_PRE"] and not b:
                    continue
                s = st.copy()
                s.prop = (s.prop[0], passes + (p,), "bottom" if b else "more")
                if vis == E["BFTW_PRE"]:
                    self.put(s, "bottom", b if b == 0 else self.get(st, "bottom"))
                    if b and not self.get(st, "bottom"):
                        eng.report(i, "%s() can start a pass without assuming that it reaches the bottom" % self.entry, st)
                        continue
                s.trail = ("%s: a pass over depths %d to %d%s" % (i.loc(), lo, hi - 1, "" if b else ", with deeper files left"), s.trail)
                out.append((s, ("k", 0)))
        s = st.copy()
        s.prop = (s.prop[0], passes + (p,), "failed")
        s.trail = ("%s: a pass fails" % i.loc(), s.trail)
        out.append((s, ("k", -1)))
        return out

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        E = self.m.enums
        passes, last = st.prop[1:]
        if last == "failed" or not passes:
            return
        pre = [p for p in passes if p[0] == E["BFTW_PRE"]]
        post = [p for p in passes if p[0] != E["BFTW_PRE"]]
        i = self.at(fn)
        if last == "more":
            eng.report(i, "%s() can finish although there are deeper files" % fn.name, st)
        elif self.post and (not post or post[-1][1] != 0):
            eng.report(i, "%s() can finish without all second visits" % fn.name, st)


def passes(m, R):
    f, E = m.field, m.enums
    kdel = f("bftw_ids_state", "delegate")
    inits = {g.name for g in m.defined.values() if any(i.op == "store" and m.ptrkey(g, i.ops[1]) == kdel for i in g.instrs.values())}
    drivers = {c.fn.name for n in inits for c in m.callsites.get(n, [])} or inits
    reads = direct_reach(m, {"bfs_readdir"})
    for d in sorted(drivers):
        file = m.defined[d].file
        impls = {n for n in m.cg[d] if n in reads and m.defined[n].file == file}
        cand = {n for n in m.cg[d] if n in m.defined and m.defined[n].file == file} - impls
        ik = {k for k in (f("bftw_ids_state", n) for n in ("min_depth", "max_depth", "visit", "force_visit", "bottom"))}
        inl = {n for n in cand if any(i.op in ("load", "store") and m.ptrkey(m.defined[n], i.ops[-1]) in ik for i in m.defined[n].instrs.values())}
        # a helper that runs passes itself is part of the driver
        for n in list(impls):
            if any(i.op in ("load", "store") and m.ptrkey(m.defined[n], i.ops[-1]) in ik for i in m.defined[n].instrs.values()):
                inl.add(n)
                impls.discard(n)
                impls |= {x for x in m.cg[n] if x in reads and m.defined[x].file == file}
        for post in (0, 1):
            rule = PassRule(m, d, {f("bftw_args", "flags"): E["BFTW_POST_ORDER"] if post else 0}, "-depth" if post else "without -depth", impls, inl, bool(post))
            eng = Engine(m, rule)
            eng.run(d, rule.setup)
            R.engine(eng, "passes")
            R.obligation("passes: %s()%s" % (d, " with -depth" if post else ""))
            R.require(rule.leaves and rule.calls, "%s() is not analysable" % d)
    R.minimum("deepening strategies", len(drivers), 2)


class VisitRule(Case):
    """One file: visited now or put off. prop = (callback's answer, dirs pushed, files pushed, creation failed, new file's token)"""
    name = "visit"

    def __init__(self, m, entry, text, cbs, named):
        super().__init__(m, entry, {}, text)
        self.cbs, self.named = cbs, named
        f = m.field
        self.kd, self.kf = f("bftw_state", "dirq"), f("bftw_state", "fileq")
        self.kfile = f("bftw_state", "file")
        self.near = direct_reach(m, set(cbs) | {"bftw_queue_push", "bftw_file_new"})
        self.calls = 0
        self.nameval = None

    def init(self):
        return (None, 0, 0, False)

    def inline(self, eng, fn, depth):
        if fn.file != self.file or fn.name in self.cbs or fn.name in ("bftw_gc", "bftw_queue_push", "bftw_file_new") or len(fn.instrs) > 60:
            return False
        return fn.name in self.near or fn.ret == "i1"

    def split(self, eng, st, i, ctx):
        if not self.named and eng.keyof(i, i.ops[0]) == self.kfile:
            v = st.env.get((ctx, "i", i.id))
            if v is not None and v[0] == "s":
                eng.assumecmp(st, "ne", v, ("k", 0))
        return None

    def call(self, eng, st, i, name, args, ctx):
        ans, nd, nf, bad = st.prop
        E = self.m.enums
        if name in self.cbs:
            self.calls += 1
            if ("k", E["BFTW_PRE"]) not in args[1:]:
                eng.report(i, "%s() can make another visit than a file's first" % self.entry, st)
            if ans:
                eng.report(i, "%s() can visit a file twice" % self.entry, st)
            if nf:
                eng.report(i, "%s() can visit a file that it has put off" % self.entry, st)
            if self.nameval not in args:
                eng.report(i, "%s() can visit another file than asked to" % self.entry, st)
            out = []
            for v in ("BFTW_CONTINUE", "BFTW_PRUNE", "BFTW_STOP"):
                s = st.copy()
                eng.effect(s, i, name, args, ctx)
                s.prop = (v, nd, nf, bad)
                s.trail = ("%s: the callback answers %s" % (i.loc(), v), s.trail)
                out.append((s, ("k", E[v])))
            return out
        if name == "bftw_gc":
            fl = next((a[1] for a in args[1:] if a[0] == "k"), None)
            if fl is not None and ans == "BFTW_PRUNE" and fl & E["BFTW_VISIT_FILE"]:
                eng.report(i, "%s() can make a second visit of a file that was pruned" % self.entry, st)
            elif fl is not None and ans == "BFTW_PRUNE" and not fl & E["BFTW_VISIT_PARENTS"]:
                eng.report(i, "%s() can skip the second visits of a file's parents" % self.entry, st)
            elif fl and ans == "BFTW_STOP":
                eng.report(i, "%s() can visit files after the search was stopped" % self.entry, st)
            return None
        if name == "bftw_file_new":
            if self.nameval not in args:
                eng.report(i, "%s() can describe another file than the visited one" % self.entry, st)
            a, b = st.copy(), st.copy()
            b.prop = (ans, nd, nf, True)
            return [(a, eng.fresh(a, ("new",), (1, INF, frozenset()))), (b, ("k", 0))]
        if name == "bftw_queue_push":
            k = self.queue(eng, args[0], i)
            if k == self.kd:
                if ans != "BFTW_CONTINUE":
                    eng.report(i, "%s() can descend into a directory that was pruned or not visited" % self.entry, st)
                if nd:
                    eng.report(i, "%s() can descend into a directory twice" % self.entry, st)
                st.prop = (ans, 1, nf, bad)
            elif k == self.kf:
                if ans or not self.named:
                    eng.report(i, "%s() can put off a file that was visited or put off before" % self.entry, st)
                if nf:
                    eng.report(i, "%s() can put off a file twice" % self.entry, st)
                st.prop = (ans, nd, 1, bad)
            else:
                eng.report(i, "%s() can queue a file somewhere else" % self.entry, st)
            if self.named and args[1] != ("s", ("new",)):
                eng.report(i, "%s() can queue another file than the visited one" % self.entry, st)
            eng.effect(st, i, name, args, ctx)
            return [(st, ("k", 0))]
        return None

    def queue(self, eng, v, i):
        k = self.m.ptrkey(i.fn, i.args[0])
        return k

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        ans, nd, nf, bad = st.prop
        i = self.at(fn)
        r = eng.rng(st, rv)
        if bad or ans == "BFTW_STOP":
            if r[0] <= 0 <= r[1] and 0 not in r[2]:
                eng.report(i, "%s() can go on after %s" % (fn.name, "an error" if bad else "the search was stopped"), st)
        elif ans is None and not nf:
            eng.report(i, "%s() can skip a file" % fn.name, st)
        elif ans == "BFTW_CONTINUE" and not nd:
            eng.report(i, "%s() can fail to descend into a directory" % fn.name, st)

    def setup(self, eng, st, args, ctx):
        super().setup(eng, st, args, ctx)
        for n, d in enumerate(self.m.defined[self.entry].dtypes[1:]):
            if "char" in d:
                if self.named:
                    eng.assumecmp(st, "ne", args[n], ("k", 0))
                else:
                    args[n] = ("k", 0)
                self.nameval = args[n]


class LoopRule(Case):
    """The main loop. prop = (phase, roots visited)"""
    name = "loop"
    maxstates = 100
    unroll = 8
    FUNCS = {"bftw_pop_dir", "bftw_pop_file", "bftw_opendir", "bftw_readdir", "bftw_closedir", "bftw_visit"}

    def __init__(self, m, entry, nroots):
        super().__init__(m, entry, {m.field("bftw_state", "npaths"): nroots}, "%d roots" % nroots)
        self.n = nroots
        self.near = direct_reach(m, self.FUNCS)
        self.kde, self.kname = m.field("bftw_state", "de"), m.field("bfs_dirent", "name")
        self.names = set()

    def init(self):
        return ("roots", 0, None)

    def tokens(self, prop):
        return [prop[2][1]] if prop[2] and prop[2][0] == "s" else []

    def rename(self, prop, mp):
        if prop[2] and prop[2][0] == "s" and prop[2][1] in mp:
            return prop[:2] + (mp[prop[2][1]],)
        return prop

    def inline(self, eng, fn, depth):
        return fn.file == self.file and fn.name in self.near and fn.name not in self.FUNCS and len(fn.instrs) <= 80

    def load(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.kname:
            self.names.add(v)

    def call(self, eng, st, i, name, args, ctx):
        if name not in self.FUNCS:
            return None
        ph, n, last = st.prop

        def to(s, p, v):
            eng.effect(s, i, name, args, ctx)
            s.prop = (p, n, None)
            return (s, ("k", v))
        if name in ("bftw_pop_dir", "bftw_pop_file"):
            if ph == "roots":
                if n != self.n:
                    eng.report(i, "%s() can start with other than %d roots visited" % (self.entry, self.n), st)
                ph = "none"
            if ph not in ("none", "nodir"):
                eng.report(i, "%s() can leave a %s unfinished" % (self.entry, "directory" if ph != "file" else "file"), st)
            if name == "bftw_pop_dir":
                return [to(st.copy(), "dir", 1), to(st.copy(), "nodir", 0)]
            return [to(st.copy(), "file", 1), to(st.copy(), "done" if ph == "nodir" else "none", 0)]
        if name == "bftw_opendir":
            if ph != "dir":
                eng.report(i, "%s() can open a directory out of turn" % self.entry, st)
            return [to(st.copy(), "open", 0), to(st.copy(), "failed", -1)]
        if name == "bftw_readdir":
            if ph == "entry":
                eng.report(i, "%s() can read the next directory entry without visiting the last" % self.entry, st)
            elif ph != "open":
                eng.report(i, "%s() can read a directory out of turn" % self.entry, st)
            return [to(st.copy(), "entry", 1), to(st.copy(), "end", 0), to(st.copy(), "end", -1)]
        if name == "bftw_closedir":
            if ph not in ("end",):
                eng.report(i, "%s() can close a directory before it was read to the end" % self.entry, st)
            return [to(st.copy(), "none", 0), to(st.copy(), "failed", -1)]
        if ph == "roots":
            if args[1] == last:
                eng.report(i, "%s() can visit a root twice" % self.entry, st)
            s = st.copy()
            eng.effect(s, i, name, args, ctx)
            s.prop = ("roots", min(n + 1, self.n + 1), args[1])
            return [(s, ("k", 0)), to(st.copy(), "failed", -1)]
        if ph == "entry":
            if args[1] not in self.names:
                eng.report(i, "%s() can visit something else than the directory entry" % self.entry, st)
            return [to(st.copy(), "open", 0), to(st.copy(), "failed", -1)]
        if ph == "file":
            if args[1] != ("k", 0):
                eng.report(i, "%s() can visit something else than the file it took" % self.entry, st)
            return [to(st.copy(), "none", 0), to(st.copy(), "failed", -1)]
        eng.report(i, "%s() can visit a file out of turn" % self.entry, st)
        return [to(st.copy(), ph, 0)]

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        ph = st.prop[0]
        r = eng.rng(st, rv)
        if ph == "failed":
            if r[0] <= 0 <= r[1] and 0 not in r[2]:
                eng.report(self.at(fn), "%s() can succeed although a step failed" % fn.name, st)
        elif ph != "done":
            eng.report(self.at(fn), "%s() can finish with files left" % fn.name, st)


class GcRule(Case):
    """Second visits. prop = (position, last reference dropped, called back, stopped)"""
    name = "gc"
    maxstates = 100

    def __init__(self, m, entry, cbs, frees, flags, text):
        super().__init__(m, entry, {}, text)
        self.cbs, self.frees, self.flags = cbs, frees, flags
        f = m.field
        self.kref, self.kfile = f("bftw_file", "refcount"), f("bftw_state", "file")
        self.near = direct_reach(m, set(cbs) | set(frees))
        self.calls = self.freed = 0

    def init(self):
        return (0, None, False, False)

    def inline(self, eng, fn, depth):
        return fn.file == self.file and fn.name in self.near and fn.name not in self.cbs | self.frees and len(fn.instrs) <= 80

    def split(self, eng, st, i, ctx):
        key = eng.keyof(i, i.ops[0])
        pos, last, called, stop = st.prop
        if key == self.kref:
            if last is None:
                out = []
                for b in (1, 2):
                    s = st.copy()
                    s.env[(ctx, "i", i.id)] = ("k", b)
                    s.prop = (pos, b == 1, called, stop)
                    out.append(s)
                return out
            st.env[(ctx, "i", i.id)] = ("k", 0 if last else 1)
            return [st]
        return None

    def call(self, eng, st, i, name, args, ctx):
        pos, last, called, stop = st.prop
        E = self.m.enums
        if name in self.cbs:
            self.calls += 1
            post = ("k", E["BFTW_POST"]) in args[1:]
            if post:
                if not last:
                    eng.report(i, "%s() can make the second visit of a directory while its contents are still being visited" % self.entry, st)
                if called:
                    eng.report(i, "%s() can make the second visit of a directory twice" % self.entry, st)
                if stop:
                    eng.report(i, "%s() can visit a directory after the search was stopped" % self.entry, st)
                if not self.flags & E["BFTW_VISIT_FILE" if pos == 0 else "BFTW_VISIT_PARENTS"]:
                    eng.report(i, "%s() can make a second visit of a file that was not descended into, or after the search was stopped" % self.entry, st)
            out = []
            for v in ("BFTW_CONTINUE", "BFTW_PRUNE", "BFTW_STOP"):
                s = st.copy()
                eng.effect(s, i, name, args, ctx)
                s.prop = (pos, last, called or post, stop or v == "BFTW_STOP")
                s.trail = ("%s: the callback answers %s" % (i.loc(), v), s.trail)
                out.append((s, ("k", E[v])))
            return out
        if name in self.frees:
            self.freed += 1
            if not last:
                eng.report(i, "%s() can free a file that is still in use" % self.entry, st)
            want = not stop and self.flags & E["BFTW_VISIT_FILE" if pos == 0 else "BFTW_VISIT_PARENTS"]
            if want and not called:
                eng.report(i, "%s() can skip the second visit of a directory" % self.entry, st)
            eng.effect(st, i, name, args, ctx)
            st.prop = (1, None, False, stop)
            return [(st, ("k", 0))]
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        r = eng.rng(st, rv)
        if st.prop[3] and r[0] <= 0 <= r[1] and 0 not in r[2]:
            eng.report(self.at(fn), "%s() can forget that the search was stopped" % fn.name, st)
        elif not st.prop[3] and not (r[0] == r[1] == 0):
            eng.report(self.at(fn), "%s() can stop the search by itself" % fn.name, st)


def loops(m):
    """The function that (with its helpers) takes directories, reads them, and takes files."""
    reach = [direct_reach(m, {n}) for n in ("bftw_pop_dir", "bftw_readdir", "bftw_pop_file")]
    both = set.intersection(*reach)
    return sorted(n for n in both if not both & set(m.cg[n]))


def reach_down(m, roots):
    seen, work = set(roots), list(roots)
    while work:
        for n in m.cg[work.pop()]:
            if n in m.defined and n not in seen:
                seen.add(n)
                work.append(n)
    return seen


def steps(m, R, callers):
    f, E = m.field, m.enums
    file = m.defined["bftw"].file
    have = lambda *ns: all(n in m.defined for n in ns)
    skipped = 0

    def go(rule, rn, setup=None):
        eng = Engine(m, rule)
        eng.run(rule.entry, setup or rule.setup)
        R.engine(eng, rn)
        R.require(rule.leaves, "%s() is not analysable" % rule.entry)
    if have("bftw_visit", "bftw_queue_push", "bftw_file_new") and len(m.defined["bftw_visit"].dtypes) > 2:
        for named in (False, True):
            rule = VisitRule(m, "bftw_visit", "a new file" if named else "a file that was put off", callers, named)
            go(rule, "visit")
            R.require(rule.calls, "bftw_visit() does not visit")
            R.obligation("visit: bftw_visit(), %s" % rule.text)
    else:
        skipped += 1
    if have(*LoopRule.FUNCS):
        for d in loops(m):
            for n in (0, 1, 2, 3):
                rule = LoopRule(m, d, n)
                go(rule, "loop")
                R.obligation("loop: %s() with %d roots" % (d, n))
    else:
        skipped += 1
    cleanup = reach_down(m, {n for n in m.defined if m.defined[n].file == file and n.endswith("destroy")})
    if have("bftw_gc", "bftw_file_free") and "i32" in m.defined["bftw_gc"].ptypes:
        for fl in ((), ("PARENTS",), ("ERROR", "FILE", "PARENTS")):
            bits = sum(E["BFTW_VISIT_" + x] for x in fl)
            rule = GcRule(m, "bftw_gc", callers, {"bftw_file_free"}, bits, "|".join(fl) or "no visits")

            def setup(eng, st, args, ctx, rule=rule):
                rule.setup(eng, st, args, ctx)
                args[m.defined["bftw_gc"].ptypes.index("i32")] = ("k", rule.flags)
            go(rule, "gc", setup)
            R.require(rule.freed, "bftw_gc() frees nothing")
            R.obligation("gc: bftw_gc(), %s" % rule.text)
        for c in m.callsites["bftw_gc"]:
            if c.fn.name == "bftw_visit" or not have("bftw_closedir"):
                continue
            fl = [a[1] for a in c.args if a[0] == "c"]
            want = E["BFTW_VISIT_ALL"] if c.fn.name == "bftw_closedir" else 0
            R.obligation("gc: %s: %s() asks for the right visits" % (c.loc(), c.fn.name))
            if fl and fl[0] != want and (want or c.fn.name in cleanup):
                R.violation(c.loc(), "%s() can %s" % (c.fn.name, "skip visits or errors of finished directories" if want else "visit files while cleaning up"), (), fn=c.fn.name, rule="gc")
    else:
        skipped += 1
    R.count("step rules without their functions", skipped)


def check(m, R):
    R.rule("the visit callback, for every relation between a file's depth and the limits, type, visit and order: the expression is evaluated exactly on the visit that belongs to it, "
           "and the answer is to descend exactly above -maxdepth unless the expression, -exclude or -unique says otherwise")
    gates(m, R)
    R.rule("between traversal and callback, for every visit, type, combination of mount flags and answer: the callback is called once unless the visit is skipped, and the answer is to descend "
           "exactly for a directory's first visit that was not pruned and is not a mount point under -xdev")
    flow(m, R)
    ids(m, R)
    passes(m, R)
    steps(m, R, callback_callers(m)[0])


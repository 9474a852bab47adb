"""C21: every command that is started is waited for once, and its failure becomes the action's result."""
from ..engine import Engine, Rule, INF, ERRNO
from ..util import FORKS
from .execcommon import direct_reach, spawn_roots, PROMPT

PSPAWN = {"posix_spawn", "posix_spawnp"}
WAITS = {"waitpid": (0, 1, 2)}
EINTR, E2BIG = 4, 7
ERRS = (1, 4095, frozenset())


def seterrno(eng, st, v):
    st.mem[(ERRNO, 0)] = (v, ("g:errno", 0), "i32")


class ReapRule(Rule):
    """prop = (child, status): child in None, ("live", tok), ("waited", tok), ("failed", errno token), "nochild"; status of the wait"""
    name = "reap"
    maxstates = 60
    budget = 600000
    inline_depth = 3

    def __init__(self, m, entry, spawners, outs, waiters, inl):
        self.m, self.entry, self.spawners, self.outs, self.waiters, self.inl = m, entry, spawners, outs, waiters, inl
        self.returns_pid = self.forked = False
        self.readers = {"read"} | {f.name for f in m.defined.values() if "read" in m.cg[f.name] and "read" in f.name}
        self.outparam = set()
        self.status = False
        self.spawns = self.leaves = 0

    def init(self):
        return (None, None)

    def tokens(self, prop):
        return [p[1] for p in prop if isinstance(p, tuple) and isinstance(p[1], tuple)]

    def rename(self, prop, mp):
        out = []
        for p in prop:
            if isinstance(p, tuple) and p[1] in mp:
                v = mp[p[1]]
                p = (p[0], v[1] if v[0] == "s" else v)
            out.append(p)
        return tuple(out)

    def inline(self, eng, fn, depth):
        return fn.name in self.inl or len(fn.instrs) <= 30 and all(n.startswith("llvm.") for n in self.m.cg[fn.name])

    def child(self, eng, st, i, ctx):
        self.spawns += 1
        if st.prop[0] is not None and st.prop[0][0] == "live":
            eng.report(i, "%s() can start another command without waiting for the first" % self.entry, st)
        pid = eng.fresh(st, ("pid", ctx, i.id), (1, INF, frozenset()))
        st.prop = (("live", pid[1]), None)
        st.trail = ("%s: a command is started" % i.loc(), st.trail)
        return pid

    def fail(self, eng, st, i, ctx):
        self.spawns += 1
        e = eng.fresh(st, ("why", ctx, i.id), ERRS)
        st.prop = (("failed", e[1]), None)
        st.trail = ("%s: starting the command fails" % i.loc(), st.trail)
        return e

    def call(self, eng, st, i, name, args, ctx):
        f = self.m.funcs.get(name)
        if name in FORKS:
            self.forked = True
            kid = st.copy()
            kid.prop = (("child", None), None)
            bad = st.copy()
            seterrno(eng, bad, self.fail(eng, bad, i, ctx))
            return [(st, self.child(eng, st, i, ctx)), (bad, ("k", -1)), (kid, ("k", 0))]
        if name in PSPAWN:
            bad = st.copy()
            e = self.fail(eng, bad, i, ctx)
            pid = self.child(eng, st, i, ctx)
            a = eng.addr(st, args[0])
            if a and a[1] is not None:
                eng.write(st, args[0], eng.keyof(i, i.args[0]), "i32", pid)
            return [(st, ("k", 0)), (bad, e)]
        if name in self.spawners and name not in eng.stack:
            bad = st.copy()
            eng.effect(st, i, name, args, ctx)
            eng.effect(bad, i, name, args, ctx)
            seterrno(eng, bad, self.fail(eng, bad, i, ctx))
            return [(st, self.child(eng, st, i, ctx)), (bad, ("k", -1))]
        if name in self.outs and name not in eng.stack:
            k = self.outs[name]
            bad = st.copy()
            out = []
            for s, good in ((st, True), (bad, False)):
                eng.effect(s, i, name, args, ctx)
                v = self.child(eng, s, i, ctx) if good else ("k", -1)
                eng.write(s, args[k], eng.keyof(i, i.args[k]), "i32", v)
                out.append((s, eng.fresh(s, ("r", ctx, i.id))))
            return out
        if name in self.readers and st.prop[0] is not None and st.prop[0][0] == "live" and self.forked and len(args) > 2 and args[2] == ("k", 4):
            # the child's report of why it could not run the command
            out = []
            for full in (True, False):
                s = st.copy()
                if f is not None and not f.decl:
                    eng.effect(s, i, name, args, ctx)
                if full:
                    e = eng.fresh(s, ("why", ctx, i.id), ERRS)
                    eng.write(s, args[1], eng.keyof(i, i.args[1]), "i32", e)
                    s.prop = (("unrun", st.prop[0][1]), ("err", e[1]))
                    rv = ("k", 4)
                    s.trail = ("%s: the command could not be run" % i.loc(), s.trail)
                else:
                    rv = eng.fresh(s, ("r", ctx, i.id), (-1, 3, frozenset()))
                out.append((s, rv))
            return out
        w = self.waiters.get(name)
        if w and name not in eng.stack and name != self.entry:
            p, stp, fl = w
            c = st.prop[0]
            if c is None:
                return None
            if c[0] == "unrun" and args[p] == ("s", c[1]):
                eng.effect(st, i, name, args, ctx) if f is not None and not f.decl else None
                if (ERRNO, 0) in st.mem:
                    del st.mem[(ERRNO, 0)]
                st.prop = (("gone", c[1]), st.prop[1])
                return [(st, eng.fresh(st, ("r", ctx, i.id)))]
            if args[p] != ("s", c[1]) or c[0] not in ("live", "waited"):
                if c[0] == "live":
                    eng.report(i, "%s() can wait for something else than the command it started" % self.entry, st)
                return None
            if c[0] == "waited":
                eng.report(i, "%s() can wait twice for the same command" % self.entry, st)
            if fl is not None and fl < len(args) and args[fl] != ("k", 0):
                eng.report(i, "%s() can go on before the command has ended" % self.entry, st)
            out = []
            for kind in ("ok", "exit", "signal", "error"):
                s = st.copy()
                if f is not None and not f.decl:
                    eng.effect(s, i, name, args, ctx)
                if kind == "error":
                    e = eng.fresh(s, ("why", ctx, i.id), ERRS)
                    seterrno(eng, s, e)
                    rv = ("k", -1)
                else:
                    rv = args[p]
                if stp is not None and eng.isnull(s, args[stp]) is not True and kind != "error":
                    t = ("w", ctx, i.id)
                    if kind == "ok":
                        v = ("k", 0)
                    else:
                        v = eng.fresh(s, t, (1, 0xffff, frozenset()))
                        t = v[1]
                        s.cons[("&", t, 0x7f)] = (0, 0, frozenset()) if kind == "exit" else (1, 0x7e, frozenset())
                        s.cons[("&", t, 0xff00)] = (0x100, 0xff00, frozenset()) if kind == "exit" else (0, 0xff00, frozenset())
                        s.cons[("&", t, 0xff)] = (0, 0, frozenset()) if kind == "exit" else (1, 0xff, frozenset())
                    eng.write(s, args[stp], eng.keyof(i, i.args[stp]), "i32", v)
                    s.prop = (("waited", c[1]), kind)
                else:
                    s.prop = (("waited", c[1]), "unknown" if kind != "error" else "error")
                s.trail = ("%s: the command ended: %s" % (i.loc(), kind), s.trail)
                out.append((s, rv))
            return out
        return None

    def store(self, eng, st, i, loc, v, ctx):
        c = st.prop[0]
        if c is not None and c[0] == "live" and v == ("s", c[1]):
            a = loc[0]
            b = a[1] if a[0] == "p" else ("t", a[1]) if a[0] == "s" else None
            if b and b[0] == "t" and isinstance(b[1], tuple) and b[1][0] == "arg":
                self.outparam.add(b[1][2])
                st.prop = (("given", b[1][2]), None)

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name]:
            return
        self.leaves += 1
        i = fn.blocks[fn.rpo[-1]][-1]
        c, w = st.prop
        r = eng.rng(st, rv)
        if c is None or c[0] in ("given", "child"):
            return
        isint = fn.ret in ("i32", "i64")
        if c[0] == "live":
            if rv == ("s", c[1]):
                self.returns_pid = True
            else:
                eng.report(i, "%s() can return without waiting for the command it started" % fn.name, st)
        elif c[0] in ("unrun", "gone"):
            if c[0] == "unrun":
                eng.report(i, "%s() can return without waiting for the process it started" % fn.name, st)
            e = st.mem.get((ERRNO, 0))
            if r[1] >= 0:
                eng.report(i, "%s() can succeed although the command could not be run" % fn.name, st)
            elif e is None or e[0] != ("s", w[1]):
                eng.report(i, "%s() can lose the error that kept the command from being run" % fn.name, st)
        elif c[0] == "waited":
            if rv == ("s", c[1]):
                eng.report(i, "%s() can return a process that it already waited for" % fn.name, st)
            if w in ("ok", "exit", "signal") and isint:
                self.status = True
                if w == "ok" and r != (0, 0, frozenset()):
                    eng.report(i, "%s() can fail although the command succeeded" % fn.name, st)
                if w != "ok" and r[0] <= 0 <= r[1]:
                    eng.report(i, "%s() can succeed although the command %s" % (fn.name, "was killed by a signal" if w == "signal" else "exited with a non-zero status"), st)
                e = st.mem.get((ERRNO, 0))
                if e is None or eng.rng(st, e[0])[:2] != (0, 0):
                    eng.report(i, "%s() can leave an error number although the command was run" % fn.name, st)
            elif w == "error" and isint and r[1] >= 0:
                eng.report(i, "%s() can succeed although waiting for the command failed" % fn.name, st)
            elif w == "unknown" and isint and r[1] >= 0 and fn.name in self.inl | {self.entry}:
                eng.report(i, "%s() can succeed without looking at how the command ended" % fn.name, st)
        elif c[0] == "failed" and isint:
            if r[1] >= 0:
                eng.report(i, "%s() can succeed although the command could not be started" % fn.name, st)
            e = st.mem.get((ERRNO, 0))
            if e is None or e[0] != ("s", c[1]):
                eng.report(i, "%s() can lose the error that kept the command from being started" % fn.name, st)


class WaitRule(Rule):
    """An interrupted wait is not the end. prop = None | 'intr' | 'done'"""
    name = "wait"
    maxstates = 20

    def __init__(self, m, entry):
        self.m, self.entry = m, entry
        self.leaves = 0

    def call(self, eng, st, i, name, args, ctx):
        if name in WAITS:
            out = []
            for kind in ("done", "intr", "fail"):
                s = st.copy()
                s.prop = kind
                if kind == "done":
                    rv = eng.fresh(s, ("r", ctx, i.id), (0, INF, frozenset()))
                else:
                    rv = ("k", -1)
                    seterrno(eng, s, ("k", EINTR) if kind == "intr" else eng.fresh(s, ("e", ctx, i.id), (1, 4095, frozenset([EINTR]))))
                s.trail = ("%s: %s(): %s" % (i.loc(), name, kind), s.trail)
                out.append((s, rv))
            return out
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name == self.entry and eng.stack == [fn.name]:
            self.leaves += 1
            if st.prop == "intr":
                eng.report(fn.blocks[fn.rpo[-1]][-1], "%s() can give up waiting because of a signal" % fn.name, st)


class ResultRule(Rule):
    """The outcome of running a command becomes the result. prop = (last outcome, any failed, errno token, recorded, diagnosed)"""
    name = "result"
    maxstates = 60
    budget = 800000
    inline_depth = 2

    def __init__(self, m, entry, runners, multi=frozenset(), inl=frozenset()):
        self.m, self.entry, self.runners, self.inl = m, entry, runners, inl
        self.kret = m.field("bfs_exec", "ret")
        self.keys = {self.kret, m.field("callback_args", "ret")}
        self.kflags = m.field("bfs_exec", "flags")
        self.diag = {"bfs_error", "bfs_perror", "eval_error", "eval_report_error"} | (direct_reach(m, {"bfs_verror", "bfs_error"}) & direct_reach(m, {"cvfprintf", "bfs_verror"}))
        self.leaves = self.runs = 0
        self.records = False

    def init(self):
        return (None, False, None, frozenset(), False)

    def tokens(self, prop):
        return [prop[2]] if prop[2] else []

    def rename(self, prop, mp):
        if prop[2] in mp:
            v = mp[prop[2]]
            return prop[:2] + (v[1] if v[0] == "s" else ("k", v[1]) if v[0] == "k" else None,) + prop[3:]
        return prop

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def call(self, eng, st, i, name, args, ctx):
        if name in self.runners and name not in eng.stack:
            self.runs += 1
            last, any_, e, rec, diag = st.prop
            if last == "fail" and e is not None and self.runners[name] == "spawn" and not rec:
                r = (e[1], e[1]) if e[0] == "k" else eng.rng(st, ("s", e))[:2]
                if r != (E2BIG, E2BIG) and not any_:
                    eng.report(i, "%s() can forget that a command failed and run another" % self.entry, st)
            out = []
            for good in (True, False):
                s = st.copy()
                eng.effect(s, i, name, args, ctx)
                if good:
                    rv = ("k", 0)
                    if self.runners[name] == "spawn":
                        seterrno(eng, s, ("k", 0))
                    s.prop = ("ok", any_, None, rec, diag)
                else:
                    rv = ("k", -1)
                    t = eng.fresh(s, ("why", ctx, i.id), (0, 4095, frozenset()))
                    seterrno(eng, s, t)
                    s.prop = ("fail", any_ or self.runners[name] != "spawn", t[1], rec, False)
                s.trail = ("%s: %s() %s" % (i.loc(), name, "succeeds" if good else "fails"), s.trail)
                out.append((s, rv))
            return out
        if name in self.diag:
            st.prop = st.prop[:4] + (True,)
        return None

    def store(self, eng, st, i, loc, v, ctx):
        if loc[1] in self.keys:
            r = eng.rng(st, v)
            rec = st.prop[3]
            if r[0] > 0 or r[1] < 0 or 0 in r[2]:
                rec = rec | {loc[1]}
            elif loc[1] in rec:
                eng.report(i, "%s() can forget that a command failed" % self.entry, st)
                rec = rec - {loc[1]}
            st.prop = st.prop[:3] + (rec,) + st.prop[4:]

    def split(self, eng, st, i, ctx):
        if eng.keyof(i, i.ops[0]) in st.prop[3]:
            st.env[(ctx, "i", i.id)] = ("k", -1)
            return [st]
        return None

    def failed(self, st):
        return st.prop[0] == "fail" or st.prop[1]

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name]:
            return
        self.leaves += 1
        i = fn.blocks[fn.rpo[-1]][-1]
        r = eng.rng(st, rv)
        zero = r[0] <= 0 <= r[1] and 0 not in r[2]
        only0 = r[:2] == (0, 0)
        last, any_, e, rec, diag = st.prop
        if fn.ret in ("i1", "i8"):
            if last == "fail" and not only0:
                eng.report(i, "%s() can be true although the command failed" % fn.name, st)
            if last == "ok" and zero:
                eng.report(i, "%s() can be false although the command succeeded" % fn.name, st)
            if last == "fail" and not diag:
                er = (e[1], e[1]) if e and e[0] == "k" else eng.rng(st, ("s", e))[:2] if e else (0, 4095)
                if er != (0, 0):
                    eng.report(i, "%s() can leave an error unreported" % fn.name, st)
            return
        if last == "fail" and not any_ and self.kret not in rec and e is not None:
            c = st.mem.get((ERRNO, 0))
            ev = e if e[0] == "k" else ("s", e)
            same = c is not None and (c[0] == ev or eng.rng(st, c[0])[0] == eng.rng(st, c[0])[1] and eng.rng(st, c[0])[:2] == eng.rng(st, ev)[:2])
            if not same:
                eng.report(i, "%s() can lose the error that made a command fail" % fn.name, st)
        if self.failed(st) and self.kret not in rec and zero:
            eng.report(i, "%s() can succeed although a command failed" % fn.name, st)


def waiters(m):
    """name -> (pid, status, flags) parameter positions."""
    out = dict(WAITS)
    for f in m.defined.values():
        for i in m.calls(f):
            if i.callee == ("f", "waitpid") and i.args[0][0] == "a":
                out[f.name] = tuple(a[1] if a[0] == "a" else None for a in i.args[:3])
    return out


def check(m, R):
    R.rule("from every fork()/posix_spawn() on: on each path the new process is waited for exactly once (blocking, its own pid), or handed to the caller, "
           "to whom the same obligation passes; a failure to start is passed on with its error number; interrupted waits are repeated")
    R.rule("the function that waits for a command of an action succeeds exactly if the command exited with status 0")
    R.rule("on every path from there up to the exit status, a failed command makes the action false, or (for batches) is recorded and makes bfs fail")
    W = waiters(m)
    for f in sorted(W):
        if f in m.defined:
            rule = WaitRule(m, f)
            eng = Engine(m, rule)
            eng.run(f)
            R.engine(eng, "wait")
            R.obligation("wait: %s()" % f)
    prim = FORKS | PSPAWN
    spawners, outs, status = set(), {}, set()
    work = {c.fn.name for n in prim for c in m.callsites.get(n, [])}
    R.minimum("functions that create processes", len(work), 1)
    small = {f.name for f in m.defined.values() if "close_quietly" in f.name}
    done = set()
    while work:
        new = set()
        for f in sorted(work - done):
            inl = small | helpers(m, f, prim | spawners | set(outs), W)
            rule = ReapRule(m, f, spawners, outs, W, inl)
            eng = Engine(m, rule)
            eng.run(f)
            R.engine(eng, "reap")
            R.require(rule.leaves or m.defined[f].noreturn, "%s() is not analysable" % f)
            R.obligation("reap: %s() (%d ways to start a process)" % (f, rule.spawns))
            done.add(f)
            if rule.status:
                status.add(f)
            if rule.returns_pid:
                spawners.add(f)
                new.add(f)
            elif rule.outparam:
                outs[f] = min(rule.outparam)
                new.add(f)
        work = {c.fn.name for n in new for c in m.callsites.get(n, [])} - done
    R.minimum("functions that judge how a command ended", len(status), 1)
    # results
    roots, S = spawn_roots(m)
    chain = [(f, "spawn") for f in sorted(status)]
    runners = dict(chain)
    seen, wrappers = set(), set()
    todo = [f for f, _ in chain]
    n = 0
    while todo:
        g = todo.pop(0)
        for c in m.callsites.get(g, []) + list(m.icallers.get(g, [])):
            f = c.fn.name
            if f in seen or f in runners:
                continue
            seen.add(f)
            if m.defined[f].ret not in ("i1", "i8", "void") and f != "main" and f != "bfs_eval":
                runners[f] = "result"
                todo.append(f)
            elif m.callsites.get(f) and not m.icallers.get(f) and f != "bfs_eval":
                wrappers.add(f)
                todo.append(f)
    for f in sorted(seen - wrappers):
        rule = ResultRule(m, f, runners, inl=wrappers)
        eng = Engine(m, rule)
        eng.run(f)
        R.engine(eng, "result")
        R.require(rule.leaves and rule.runs, "%s() is not analysable" % f)
        R.obligation("result: %s() (%d outcomes)" % (f, rule.runs))
        n += 1
    R.minimum("functions that pass a command's result on", n, 5)


def helpers(m, f, sources, W):
    """Functions of the same file that f calls and that reach a wait or a process creation without being spawners themselves."""
    up = direct_reach(m, set(W) | sources)
    return {n for n in m.cg[f] if n in m.defined and n in up and n not in sources and n not in W and m.defined[n].file == m.defined[f].file}

"""C07: between fork and exec the child is async-signal-safe, resets signals, and never returns."""
from ..engine import Rule, Engine
from ..asyncsafe import safe
from ..util import fork_children, FORKS, Tracer
from ..patterns import loops, exits
from .execcommon import direct_reach, path_avoiding_body

SIG_BLOCK, SIG_UNBLOCK, SIG_SETMASK = 0, 1, 2
EXECS = {"execve", "execv", "execvp", "execvpe", "fexecve", "execveat", "execl", "execlp", "execle"}
EXITS = {"_exit", "_Exit"}
BADEXIT = {"exit", "quick_exit"}


def reset_functions(m, R):
    """Functions that put back every saved signal disposition; also checks that they skip none."""
    key = m.field("sigsave", "action")
    out = set()
    for f in m.defined.values():
        for i in m.calls(f):
            if "sigaction" not in m.callees(i) or len(i.args) < 2 or i.args[1][0] != "i":
                continue
            if m.ptrkey(f, i.args[1]) != key:
                continue
            out.add(f.name)
            for h, body in loops(f).items():
                if i.blk in body:
                    R.obligation("%s: every iteration resets one saved signal" % i.loc())
                    if any(path_avoiding_body(f, h, body, {i.blk})):
                        R.violation(i, "a saved signal disposition can be skipped when dispositions are reset", rule="reset-all")
                    break
            else:
                R.violation(i, "only one saved signal disposition is reset", rule="reset-all")
    return out


class ForkRule(Rule):
    """prop = (role, full-set pointers, blocked, reset, wrote)"""
    name = "fork"
    maxstates = 24
    budget = 2000000
    inline_depth = 10

    def __init__(self, m, resets):
        self.m = m
        self.resets = resets
        self.inl = direct_reach(m, EXECS | EXITS | FORKS | {"pthread_sigmask", "sigprocmask"}) - {"xwrite"} - resets
        self.forks = set()
        self.execs = set()
        self.exits = set()
        self.calls = set()

    def init(self):
        return ("parent", frozenset(), False, False, False)

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def call(self, eng, st, i, name, args, ctx):
        role, full, blocked, reset, wrote = st.prop
        m = self.m
        f = m.funcs.get(name)
        ext = f is None or f.decl
        if name in self.resets:
            st.prop = (role, full, blocked, True, wrote)
            if role == "child":
                return None
        if role == "child" and ext and not name.startswith("llvm."):
            self.calls.add((i.loc(), name))
            if name in BADEXIT:
                eng.report(i, "the forked child leaves through %s(), which flushes the parent's streams" % name, st)
        if name == "sigfillset":
            st.prop = (role, full | {args[0]}, blocked, reset, wrote)
            return None
        if name in ("sigemptyset", "sigdelset"):
            st.prop = (role, full - {args[0]}, blocked, reset, wrote)
            return None
        if name in ("pthread_sigmask", "sigprocmask"):
            how = args[0]
            bad = st.copy()
            if how == ("k", SIG_BLOCK) or how == ("k", SIG_SETMASK) and args[1] in full:
                if args[1] in full:
                    st.prop = (role, full, True, reset, wrote)
            else:
                if role == "child" and not reset:
                    eng.report(i, "the forked child unblocks signals while the parent's handlers are still installed", st)
                st.prop = (role, full, False, reset, wrote)
            tok = eng.fresh(bad, ("r", ctx, i.id), (1, float("inf"), frozenset()))
            return [(st, ("k", 0)), (bad, tok)]
        if name in FORKS:
            self.forks.add(i.loc())
            if not blocked:
                eng.report(i, "the process forks without blocking all signals first, so handlers can run in the child", st)
            c = st.copy()
            c.prop = ("child", full, blocked, reset, False)
            tok = eng.fresh(st, ("r", ctx, i.id), (-1, float("inf"), frozenset([0])))
            return [(st, tok), (c, ("k", 0))]
        if role == "child":
            if name in ("write", "xwrite"):
                st.prop = (role, full, blocked, reset, True)
            elif name in EXECS:
                self.execs.add(i.loc())
                if not reset:
                    eng.report(i, "the command is executed without resetting signal dispositions", st)
                if blocked:
                    eng.report(i, "the command is executed with signals still blocked", st)
            elif name in EXITS:
                self.exits.add(i.loc())
                if not wrote:
                    eng.report(i, "the forked child exits without telling the parent why the command could not be run", st)
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if ctx != 0:
            return
        role, full, blocked, reset, wrote = st.prop
        i = next(b[-1] for b in fn.blocks if b[-1].op == "ret")
        if role == "child":
            eng.report(i, "the forked child can return into the parent's code", st)
        elif blocked:
            eng.report(i, "a path leaves all signals blocked in bfs itself", st)


def check(m, R):
    R.rule("call graph: everything the forked child can call before exec is async-signal-safe (functions that cannot return other than the child's own are exempt)")
    R.rule("path-sensitive over the forking function: all signals are blocked before fork; in the child every saved disposition is reset before signals "
           "are unblocked, signals are unblocked before exec, every failing path writes the error to the parent and ends in _exit, none returns; in the parent the mask is restored on every path")
    calls, entries, sites, wrappers = fork_children(m)
    R.require(sites, "no fork site found")
    resets = reset_functions(m, R)
    R.require(resets, "no function resets saved signal dispositions")
    for f, b in entries:
        if b is None:
            R.require(f.name in wrappers, "the child branch of the fork in %s() was not recognised" % f.name)
    # reachability
    n = 0
    roots = {}
    for i in calls:
        for c in m.callees(i):
            roots.setdefault(c, i)
    stop = {x for x, f in m.defined.items() if f.noreturn and x not in roots}
    par = m.reach(sorted(roots), stop=stop)
    for x in par:
        f = m.funcs[x]
        if f.decl:
            continue
        if x in stop:
            continue
        R.funcs.add(x)
        for i in m.calls(f):
            for c in m.callees(i):
                g = m.funcs.get(c)
                if g is not None and not g.decl or c.startswith("llvm."):
                    continue
                n += 1
                R.obligation("%s: %s() in the forked child" % (i.loc(), c))
                if not safe(c):
                    R.violation(i, "%s() is not async-signal-safe but runs in the forked child (%s)" % (c, " -> ".join(m.chain(par, x) + [c])), rule="as-safe")
    for i in calls:
        for c in m.callees(i):
            g = m.funcs.get(c)
            if (g is None or g.decl) and not safe(c):
                R.violation(i, "%s() is not async-signal-safe but runs in the forked child" % c, rule="as-safe")
    R.count("external call sites in the forked child", n)
    R.minimum("external call sites in the forked child", n, 10)
    fns = sorted({i.fn.name for i in sites if i.fn.name not in wrappers})
    for fn in fns:
        rule = ForkRule(m, resets)
        eng = Engine(m, rule)
        eng.run(fn)
        R.engine(eng, "fork-protocol")
        for l in sorted(rule.forks | rule.execs | rule.exits):
            R.obligation("%s: fork/exec/exit event on the paths of %s()" % (l, fn))
        for l, c in sorted(rule.calls):
            R.obligation("%s: %s() executed by the child" % (l, c))
            if not safe(c) and c not in BADEXIT:
                R.violation(l, "%s() is not async-signal-safe but runs in the forked child" % c, fn=fn, rule="as-safe")
        R.minimum("exec calls on child paths", len(rule.execs), 1)
        R.minimum("child exits", len(rule.exits), 1)
    # posix_spawn(): the attribute must not leave signals ignored etc.; handled by the kernel
    R.assume("posix_spawn() implementations satisfy the same protocol internally")

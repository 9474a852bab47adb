"""C06: code that runs in a signal handler is async-signal-safe and leaves errno alone."""
from ..engine import Rule, Engine, ERRNO
from ..asyncsafe import safe
from ..util import Tracer


def handlers(m):
    """Functions installed with sigaction()/signal(): stored in a sigaction, or passed to signal()/bsd_signal()."""
    out = set()
    for k, fns in m.fieldfns.items():
        if k[0] == "struct.sigaction" and k[1] == 0:
            out |= fns
    for k, ss in m.storemap.items():
        if k[0] == "struct.sigaction" and k[1] == 0:
            for s in ss:
                out |= m._fnsrc(s.fn, s.ops[0], set())
    for n in ("signal", "bsd_signal", "sysv_signal", "__sysv_signal"):
        for c in m.callsites.get(n, []):
            if len(c.args) > 1:
                out |= m._fnsrc(c.fn, c.args[1], set())
    return {n for n in out if n in m.defined}


class ErrnoRule(Rule):
    name = "errno"
    maxstates = 24
    inline_depth = 2

    def __init__(self, root):
        self.root = root
        self.returns = 0

    def init(self):
        return False

    def inline(self, eng, fn, depth):
        return False

    def call(self, eng, st, i, name, args, ctx):
        if name == "signal" and len(args) > 1 and args[1] == ("k", 0):
            st.prop = True      # the default action was restored: the signal will kill the process
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.root or st.prop:
            return
        self.returns += 1
        v = eng.peek(st, ERRNO, 0)
        if v != ("s", ("entry errno",)):
            i = next(b[-1] for b in fn.blocks if b[-1].op == "ret")
            eng.report(i, "the signal handler can return with errno changed", st)


def check(m, R):
    R.rule("every function reachable (resolved call graph, including hooks called through pointers) from an installed signal handler calls only "
           "async-signal-safe functions; abnormal termination (functions that cannot return) is exempt")
    R.rule("path-sensitive: every return of an installed handler leaves errno equal to its value on entry")
    R.rule("every field or global a handler writes is accessed atomically")
    hs = handlers(m)
    R.require(hs, "no installed signal handler found")
    par = m.reach(sorted(hs), stop={n for n, f in m.defined.items() if f.noreturn and n != "reraise" and not reraiser(m, n)})
    n = 0
    for f in par:
        fn = m.funcs[f]
        if fn.decl:
            continue
        if fn.noreturn and not reraiser(m, f):
            continue
        R.funcs.add(f)
        for i in m.calls(fn):
            for c in m.callees(i):
                g = m.funcs.get(c)
                if g is not None and not g.decl:
                    continue
                if c.startswith("llvm."):
                    continue
                n += 1
                R.obligation("%s: %s() in handler context via %s" % (i.loc(), c, " -> ".join(m.chain(par, f))))
                if not safe(c):
                    R.violation(i, "%s() is not async-signal-safe but runs in a signal handler (%s)" % (c, " -> ".join(m.chain(par, f) + [c])), rule="as-safe")
        for b in fn.rpo:
            for i in fn.blocks[b]:
                if i.op == "store" and not i.order:
                    k = m.ptrkey(fn, i.ops[1])
                    if k[0] == "raw" or k[0].startswith("al:") or isinstance(k[1], str):
                        continue
                    if local_struct(fn, i.ops[1]):
                        continue
                    g = m.globals.get(k[0][2:]) if k[0].startswith("g:") else None
                    if g and g.get("tls"):
                        continue
                    R.obligation("%s: store to %s in handler context" % (i.loc(), m.fieldname(*k)))
                    R.violation(i, "non-atomic store to %s in a signal handler" % m.fieldname(*k), rule="atomic")
    R.count("external call sites in handler context", n)
    R.count("installed handlers", len(hs))
    R.minimum("external call sites in handler context", n, 8)
    for h in sorted(hs):
        rule = ErrnoRule(h)
        eng = Engine(m, rule)

        def setup(eng, st, args, ctx):
            st.mem[(ERRNO, 0)] = (("s", ("entry errno",)), ("g:errno", 0), "i32")
        eng.run(h, setup)
        R.engine(eng, "errno")
        R.obligation("%s(): errno on %d return paths" % (h, rule.returns))


def reraiser(m, n):
    """A noreturn function that is part of normal handler operation (it re-raises the signal)."""
    return bool(m.cg.get(n, set()) & {"raise", "kill", "pthread_kill", "tgkill"})


def local_struct(fn, op):
    while op[0] == "i":
        i = fn.instrs[op[1]]
        if i.op == "alloca":
            return True
        if i.op == "getelementptr":
            op = i.ops[0]
            continue
        return False
    return False

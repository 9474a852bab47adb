"""C03: errors met during the search are reported and make bfs fail."""
from ..engine import Engine, Rule, Budget, INF, ERRNO
from .execcommon import direct_reach
from .opcommon import evaluators, callback_callers

ENOENT, ELOOP = 2, 40
ERRS = (1, 4095, frozenset())
# how functions the evaluators rely on answer that they failed
TESTS = {
    "bftw_stat": "null", "bfs_getfilecon": "null", "bfs_allocdir": "null", "xreadlinkat": "null", "xbasename": "null", "bfs_ctx_mtab": "null",
    "bfs_fstype": "null", "bfs_stat_time": "null", "trie_insert_mem": "null", "trie_insert_str": "null",
    "bfs_check_acl": "neg", "bfs_check_capabilities": "neg", "bfs_check_xattrs": "neg", "bfs_check_xattr_named": "neg", "bfs_opendir": "neg",
    "bfs_readdir": "neg", "bfs_regexec": "neg", "unlinkat": "neg", "bftw_type": "type", "bfs_exec": "exec", "bfs_getgrgid": "errno", "bfs_getpwuid": "errno",
    "openat": "neg", "openat64": "neg", "fstatat": "neg", "fstatat64": "neg", "bfs_stat": "neg", "readlinkat": "neg",
}
MSG = {"bfs_error", "bfs_perror", "bfs_verror"}


def seterrno(st, v):
    st.mem[(ERRNO, 0)] = (v, ("g:errno", 0), "i32")


def outcomes(eng, st, i, name, kind, args, ctx, ERR=-1):
    """[(state, value, failed, errno token)] for a call that can fail."""
    f = eng.m.funcs.get(name)

    def after():
        s = st.copy()
        if f is not None and not f.decl:
            eng.effect(s, i, name, args, ctx)
        else:
            (s, _), = eng.external(s, i, name, args, ctx)
        return s
    out = []
    good, bad = after(), after()
    e = eng.fresh(bad, ("why", ctx, i.id), ERRS)
    seterrno(bad, e)
    bad.trail = ("%s: %s() fails" % (i.loc(), name), bad.trail)
    tok = ("r", ctx, i.id)
    if kind == "null":
        out += [(good, eng.fresh(good, tok, (1, INF, frozenset())), False, None), (bad, ("k", 0), True, e[1])]
    elif kind in ("neg", "size"):
        out += [(good, eng.fresh(good, tok, (0, INF, frozenset())), False, None), (bad, ("k", -1), True, e[1])]
    elif kind == "type":
        out += [(good, eng.fresh(good, tok, (0, INF, frozenset())), False, None), (bad, ("k", ERR), True, e[1])]
    elif kind == "errno":
        none = good.copy()
        seterrno(good, ("k", 0))
        seterrno(none, ("k", 0))
        out += [(good, eng.fresh(good, tok, (1, INF, frozenset())), False, None), (none, ("k", 0), False, None), (bad, ("k", 0), True, e[1])]
    elif kind == "exec":
        none = good.copy()
        seterrno(good, ("k", 0))
        seterrno(none, ("k", 0))
        out += [(good, ("k", 0), False, None), (none, ("k", -1), False, None), (bad, ("k", -1), True, e[1])]
    return out


class EvalRule(Rule):
    """prop = (failed call, errno token, facts, events)"""
    name = "report"
    maxstates = 60
    budget = 600000
    inline_depth = 5

    def __init__(self, m, entry, table, evals, runs, callback=False):
        self.m, self.entry, self.table, self.evals, self.runs, self.callback = m, entry, table, evals, runs, callback
        f = m.field
        self.kret, self.kcount = f("bfs_eval", "ret"), f("bfs_eval", "nerrors")
        self.kargs = {f("callback_args", "ret"): "ret", f("callback_args", "nerrors"): "count"}
        self.kign, self.krace = f("bfs_ctx", "ignore_errors"), f("bfs_ctx", "ignore_races")
        self.kdepth, self.ktype, self.kerror = f("BFTW", "depth"), f("BFTW", "type"), f("BFTW", "error")
        self.file = m.defined[entry].file
        self.near = direct_reach(m, set(table) | MSG)
        self.ptrs = {}
        self.fails = self.leaves = 0

    def init(self):
        return (None, None, frozenset(), frozenset())

    def tokens(self, prop):
        return [prop[1]] if prop[1] else []

    def rename(self, prop, mp):
        if prop[1] in mp:
            v = mp[prop[1]]
            return (prop[0], v[1] if v[0] == "s" else None) + prop[2:]
        return prop

    def inline(self, eng, fn, depth):
        if fn.name in self.evals or fn.name in self.runs or fn.file != self.file:
            return fn.file != self.file and len(fn.instrs) <= 25 and not self.m.cg[fn.name]
        return fn.name in self.near or len(fn.instrs) <= 60

    def fact(self, st, t):
        st.prop = st.prop[:2] + (st.prop[2] | {t},) + st.prop[3:]

    def event(self, st, t):
        st.prop = st.prop[:3] + (st.prop[3] | {t},)

    def split(self, eng, st, i, ctx):
        key = eng.keyof(i, i.ops[0])
        e = (ctx, "i", i.id)
        if key in (self.kign, self.krace):
            n = "ign" if key == self.kign else "races"
            out = []
            for b in (0, 1):
                t = n if b else "!" + n
                o = "!" + n if b else n
                if o in st.prop[2]:
                    continue
                s = st.copy()
                s.env[e] = ("k", b)
                self.fact(s, t)
                out.append(s)
            return out
        if key == self.kdepth and st.prop[0]:
            out = []
            for t, o, r in (("deep", "root", (1, INF, frozenset())), ("root", "deep", (0, 0, frozenset()))):
                if o in st.prop[2]:
                    continue
                s = st.copy()
                s.env[e] = eng.fresh(s, ("depth",), r) if t == "deep" else ("k", 0)
                self.fact(s, t)
                out.append(s)
            return out
        if self.callback and key == self.ktype:
            E = self.m.enums["BFS_ERROR"]
            if st.prop[0] == "ftwbuf":
                st.env[e] = ("k", E)
                return [st]
            if "ok" in st.prop[2]:
                st.env[e] = eng.fresh(st, ("ftype",), (0, INF, frozenset()))
                return [st]
            good, bad = st.copy(), st.copy()
            good.env[e] = eng.fresh(good, ("ftype",), (0, INF, frozenset()))
            self.fact(good, "ok")
            bad.env[e] = ("k", E)
            t = eng.fresh(bad, ("ftwerror",), ERRS)
            bad.prop = ("ftwbuf", t[1]) + bad.prop[2:]
            bad.trail = ("%s: the file could not be examined" % i.loc(), bad.trail)
            self.fails += 1
            return [good, bad]
        if self.callback and key == self.kerror and st.prop[0] == "ftwbuf":
            st.env[e] = ("s", ("ftwerror",))
            return [st]
        return None

    def load(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.kret:
            self.ptrs[v] = "ret"
        elif loc[1] == self.kcount:
            self.ptrs[v] = "count"

    def store(self, eng, st, i, loc, v, ctx):
        t = self.ptrs.get(loc[0]) or self.kargs.get(loc[1])
        if t == "ret":
            r = eng.rng(st, v)
            if r[0] > 0 or r[1] < 0 or 0 in r[2]:
                self.event(st, "ret")
            elif "ret" in st.prop[3]:
                st.prop = st.prop[:3] + (st.prop[3] - {"ret"},)
        elif t == "count":
            self.event(st, "count")

    def call(self, eng, st, i, name, args, ctx):
        if name in MSG:
            self.event(st, "msg")
            return None
        if name in self.runs or name in self.evals:
            if st.prop[0] == "ftwbuf":
                eng.report(i, "%s() can evaluate the expression for a file that could not be examined" % self.entry, st)
            return None
        if name in ("error_is_like", "errno_is_like") and st.prop[0]:
            what = args[-1]
            out = []
            for b in (1, 0):
                s = st.copy()
                if b and what == ("k", ENOENT):
                    self.fact(s, "enoent")
                out.append((s, ("k", b)))
            return out
        kind = self.table.get(name)
        if kind and name not in eng.stack:
            out = []
            self.fails += 1
            for s, rv, bad, e in outcomes(eng, st, i, name, kind, args, ctx, self.m.enums["BFS_ERROR"]):
                if bad and not s.prop[0]:
                    s.prop = (name, e, s.prop[2] - {"enoent"}, frozenset())
                out.append((s, rv))
            return out
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name]:
            return
        self.leaves += 1
        bad, e, facts, ev = st.prop
        if not bad:
            return
        i = fn.blocks[fn.rpo[-1]][-1]
        c = eng.rng(st, ("s", e))[:2] if e else None
        cell = st.mem.get((ERRNO, 0))
        if self.table.get(bad) == "type" and eng.rng(st, rv)[:2] != (0, 0) and (c == (ELOOP, ELOOP) or cell is not None and eng.rng(st, cell[0])[:2] == (ELOOP, ELOOP)):
            return
        what = "the failure of %s()" % bad if bad != "ftwbuf" else "that a file could not be examined"
        if "ign" in facts:
            ok = "count" in ev
        elif {"races", "enoent", "deep"} <= facts:
            ok = True
        else:
            ok = {"ret", "msg"} <= ev
            if not ok and "msg" in ev:
                eng.report(i, "%s() can report %s without making bfs fail" % (self.entry, what), st)
                return
        if not ok:
            eng.report(i, "%s() can leave %s unreported" % (self.entry, what), st)
        if not self.callback and self.table.get(bad) != "errno" and self.false and eng.rng(st, rv)[:2] != (0, 0):
            eng.report(i, "%s() can be true although %s() failed" % (self.entry, bad), st)


def consts(f, op, seen=()):
    """Constants an operand may stand for, through phis and selects."""
    if op[0] == "c":
        return {op}
    if op[0] == "i" and op[1] not in seen:
        d = f.instrs[op[1]]
        if d.op in ("phi", "select"):
            ops = [v for v, _ in d.phis] if d.op == "phi" else d.ops[1:]
            return {c for o in ops for c in consts(f, o, seen + (op[1],))}
    return set()


def census_ret(m, R):
    """The exit status is only ever set to a failure, or to what -exit asks for."""
    kret, karg, kctx = m.field("bfs_eval", "ret"), m.field("callback_args", "ret"), m.field("bfs_expr", "num")
    n = 0
    for f in m.defined.values():
        for i in f.instrs.values():
            if i.op != "store" or i.vt != "i32":
                continue
            p = i.ops[1]
            k = m.ptrkey(f, p)
            via = p[0] == "i" and f.instrs[p[1]].op == "load" and m.ptrkey(f, f.instrs[p[1]].ops[0]) == kret
            if k != karg and not via:
                continue
            n += 1
            R.obligation("%s: %s() sets the exit status" % (i.loc(), f.name))
            if ("c", 0) in consts(f, i.ops[0]):
                R.violation(i.loc(), "%s() resets the exit status" % f.name, (), fn=f.name, rule="report")
    R.minimum("places that set the exit status", n, 3)


class FailRule(Rule):
    """A failed call is recorded or passed on. prop = (failed callee, errno token, succeeded callees)"""
    name = "propagate"
    maxstates = 30
    budget = 400000
    inline_depth = 2

    def __init__(self, m, entry, table, records, optional):
        self.m, self.entry, self.table, self.records, self.optional = m, entry, table, records, optional
        self.kinds = set()
        self.fails = self.leaves = 0
        self.stop = m.enums["BFTW_STOP"]
        self.kfd = m.field("bftw_file", "fd")
        self.fds = set()

    def init(self):
        return (None, None, frozenset())

    def tokens(self, prop):
        return [prop[1]] if prop[1] else []

    rename = EvalRule.rename

    def inline(self, eng, fn, depth):
        return small(self.m, fn)

    def call(self, eng, st, i, name, args, ctx):
        kind = self.table.get(name)
        if not kind or name in eng.stack:
            return None
        if kind == "resize" and args and args[0][0] == "k":
            return None
        self.fails += 1
        out = []
        for s, rv, bad, e in outcomes(eng, st, i, name, kind, args, ctx, self.m.enums["BFS_ERROR"]):
            if bad:
                if kind == "size" and name in s.prop[2]:
                    s.prop = (None, None, s.prop[2])
                else:
                    s.prop = (name, e, s.prop[2])
            else:
                s.prop = (None, None, s.prop[2] | {name}) if s.prop[0] == name else s.prop[:2] + (s.prop[2] | {name},)
            out.append((s, rv))
        return out

    def store(self, eng, st, i, loc, v, ctx):
        if loc[1] in self.records and st.prop[0]:
            r = eng.rng(st, v)
            if r[0] > 0 or r[1] < 0 or 0 in r[2]:
                st.prop = (None, None, st.prop[2])
            elif v == ("k", 0):
                pass

    def load(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.kfd and st.prop[0]:
            self.fds.add(v)

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name]:
            return
        self.leaves += 1
        if not st.prop[0]:
            return
        if rv in self.fds:
            self.kinds.add("neg")       # the file's descriptor, which is only set once the file was opened
            return
        i = fn.blocks[fn.rpo[-1]][-1]
        r = eng.rng(st, rv)
        good = True
        if fn.ret == "ptr":
            if eng.norm(st, rv) == ("k", 0):
                self.kinds.add("null")
                good = False
        elif fn.ret == "i1" or fn.ret == "i8":
            return
        elif fn.ret in ("i32", "i64") and r[1] < 0:
            self.kinds.add("size" if fn.ret == "i64" else "neg")
            good = False
        if good:
            eng.report(i, "%s() can ignore the failure of %s()" % (fn.name, st.prop[0]), st)
            return
        c = st.mem.get((ERRNO, 0))
        if c is not None and eng.rng(st, c[0])[:2] == (0, 0):
            eng.report(i, "%s() can lose the error number of %s()" % (fn.name, st.prop[0]), st)


class WalkRule(Rule):
    """Recorded errors lead to a report. prop = (pending directory error, file error, called back, error recorded, skipped)"""
    name = "walk"
    maxstates = 60
    budget = 400000
    inline_depth = 2

    def __init__(self, m, entry, mode, callers=frozenset()):
        self.m, self.entry, self.mode, self.callers = m, entry, mode, callers
        f = m.field
        self.kdir, self.kerr = f("bftw_state", "direrror"), f("bftw_state", "error")
        self.ktype, self.kferr, self.kcb = f("BFTW", "type"), f("BFTW", "error"), f("bftw_state", "callback")
        self.leaves = self.seen = 0
        self.post = False
        self.helpers = frozenset()

    def init(self):
        return (None, None, False, False, False, None, None)

    def put(self, st, n, v):
        p = list(st.prop)
        p[n] = v
        st.prop = tuple(p)

    def inline(self, eng, fn, depth):
        return fn.name in self.helpers or small(self.m, fn)

    def split(self, eng, st, i, ctx):
        key = eng.keyof(i, i.ops[0])
        e = (ctx, "i", i.id)
        cur = st.env.get(e)
        if key == self.kdir and st.prop[0] is None:
            self.seen += 1
            out = []
            for b in (False, True):
                s = st.copy()
                self.put(s, 0, b)
                if b:
                    eng.assumecmp(s, "ne", cur, ("k", 0))
                else:
                    eng.assumecmp(s, "eq", cur, ("k", 0))
                out.append(s)
            return out
        if self.mode == "call" and key == self.ktype and st.prop[1] is None:
            self.seen += 1
            E = self.m.enums["BFS_ERROR"]
            out = []
            for b in (False, True):
                s = st.copy()
                self.put(s, 1, b)
                eng.assumecmp(s, "eq" if b else "ne", cur, ("k", E))
                out.append(s)
            return out
        if self.mode == "buf" and key == self.kferr and st.prop[5] in ("none", "set"):
            eng.assumecmp(st, "ne" if st.prop[5] == "set" else "eq", cur, ("k", 0))
            return [st]
        if self.mode == "call" and key == self.kferr and st.prop[1]:
            eng.assumecmp(st, "ne", cur, ("k", 0))
            return [st]
        if self.mode == "result" and key == self.kerr:
            self.seen += 1
            out = []
            for b in (False, True):
                if st.prop[1] is not None and st.prop[1] != b:
                    continue
                s = st.copy()
                self.put(s, 1, b)
                eng.assumecmp(s, "ne" if b else "eq", cur, ("k", 0))
                out.append(s)
            return out
        return None

    def nonzero(self, eng, st, v):
        r = eng.rng(st, v)
        return r[0] > 0 or r[1] < 0 or 0 in r[2]

    def store(self, eng, st, i, loc, v, ctx):
        if self.mode == "buf" and loc[1] == self.kferr:
            self.put(st, 5, "set" if self.nonzero(eng, st, v) else "none" if eng.rng(st, v)[:2] == (0, 0) else "maybe")
        if self.mode == "buf" and loc[1] == self.ktype:
            self.put(st, 6, "error" if eng.norm(st, v) == ("k", self.m.enums["BFS_ERROR"]) else "other")
        if loc[1] == self.kerr:
            if self.nonzero(eng, st, v):
                self.put(st, 3, True)
            elif self.mode != "init":
                eng.report(i, "%s() can reset the search's error" % self.entry, st)
        if loc[1] == self.kdir and self.mode == "gc":
            if not self.nonzero(eng, st, v) and st.prop[0] and not st.prop[2] and not st.prop[3]:
                eng.report(i, "%s() can forget a directory's error" % self.entry, st)
            if not self.nonzero(eng, st, v):
                self.put(st, 0, False)

    def call(self, eng, st, i, name, args, ctx):
        f = self.m.funcs.get(name)
        if i.callee[0] != "f" and i.callee[0] == "i":
            d = i.fn.instrs[i.callee[1]]
            if d.op == "load" and self.m.ptrkey(i.fn, d.ops[0]) == self.kcb:
                self.put(st, 2, True)
        if name in self.callers and self.mode == "gc":
            self.put(st, 2, True)
        if self.mode == "buf" and name in self.table and name not in eng.stack:
            return [(s, rv) for s, rv, _, _ in outcomes(eng, st, i, name, self.table[name], args, ctx, self.m.enums["BFS_ERROR"])]
        if self.mode == "call" and f is not None and not f.decl and f.ret == "i1" and "bftw_stat" in self.m.cg[name]:
            out = []
            for b in (0, 1):
                s = st.copy()
                eng.effect(s, i, name, args, ctx)
                if b:
                    self.put(s, 4, True)
                out.append((s, ("k", b)))
            return out
        if self.mode == "call" and name in self.callers:
            out = []
            for b in (0, -1):
                s = st.copy()
                eng.effect(s, i, name, args, ctx)
                if b:
                    self.put(s, 3, True)
                out.append((s, ("k", b)))
            return out
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name]:
            return
        self.leaves += 1
        i = fn.blocks[fn.rpo[-1]][-1]
        pend, ferr, called, rec, skip = st.prop[:5]
        if self.mode == "buf":
            err, typ = st.prop[5:]
            if pend and err != "set":
                eng.report(i, "%s() can drop a directory's error" % fn.name, st)
            elif err not in ("none", None) and typ != "error":
                eng.report(i, "%s() can give a file an error without its type saying so" % fn.name, st)
            elif typ == "error" and err != "set":
                eng.report(i, "%s() can mark a file as erroneous without an error" % fn.name, st)
        elif self.mode == "call":
            if not called and not rec and not skip:
                if not (self.post and ferr is None):
                    eng.report(i, "%s() can return without calling back or recording an error" % fn.name, st)
            if rec and not called and eng.rng(st, rv)[:2] != (self.m.enums["BFTW_STOP"],) * 2:
                eng.report(i, "%s() can go on after recording an error" % fn.name, st)
        elif self.mode == "gc":
            if pend and not called and not rec:
                eng.report(i, "%s() can leave a directory's error unreported" % fn.name, st)
        elif self.mode == "result":
            if ferr is not False and eng.rng(st, rv)[1] >= 0:
                eng.report(i, "%s() can succeed although the search failed" % fn.name, st)

    def setup(self, eng, st, args, ctx):
        for n, p in enumerate(self.m.defined[self.entry].ptypes):
            if p == "i32":
                args[n] = ("k", self.m.enums["BFTW_POST" if self.post else "BFTW_PRE"])


class StatRule(Rule):
    """Looking at a file is retried only for a broken link or a missing system call. prop = (failed call, reasons)"""
    name = "stat"
    maxstates = 60
    inline_depth = 5
    PRIM = {"fstatat", "fstatat64", "fstat", "fstat64", "statx", "syscall", "lstat", "stat", "lstat64", "stat64"}

    def __init__(self, m, entry, prim=PRIM):
        self.m, self.entry, self.prim = m, entry, prim
        self.file = m.defined[entry].file
        self.near = direct_reach(m, set(prim))
        self.kcache = {m.field("bftw_stat", "stat_err"), m.field("bftw_stat", "lstat_err")}
        self.calls = self.leaves = 0

    def init(self):
        return (None, frozenset())

    def inline(self, eng, fn, depth):
        return fn.file == self.file and (fn.name in self.near or bool(self.kcache & stores(self.m, fn.name)))

    def again(self, eng, st, i):
        bad, why = st.prop
        if bad and not why:
            eng.report(i, "%s() can look at another file after %s failed for any reason" % (self.entry, bad), st)

    def split(self, eng, st, i, ctx):
        key = eng.keyof(i, i.ops[0])
        if key not in self.kcache:
            return None
        e = (ctx, "i", i.id)
        cur = st.env.get(e)
        r = eng.rng(st, cur)
        if r[0] > 0 or r[1] < 0 or r[0] == r[1] == 0:
            return None
        self.again(eng, st, i)
        out = []
        for t, v in (("good", ("k", 0)), ("none", ("k", -1)), ("bad", None)):
            s = st.copy()
            if v is None:
                v = eng.fresh(s, ("cached", ctx, i.id), ERRS)
                s.prop = ("an earlier look", frozenset())
            elif t == "good":
                s.prop = (None, frozenset())
            for k, c in list(s.mem.items()):
                if c[0] == cur:
                    s.mem[k] = (v,) + tuple(c[1:])
            s.env[e] = v
            out.append(s)
        return out

    def store(self, eng, st, i, loc, v, ctx):
        if loc[1] not in self.kcache:
            return
        r = eng.rng(st, v)
        if st.prop[0] and r[0] <= 0 <= r[1] and 0 not in r[2]:
            eng.report(i, "%s() can remember a failed look as successful" % self.entry, st)

    def call(self, eng, st, i, name, args, ctx):
        if name in ("errno_is_like", "error_is_like") and st.prop[0]:
            out = []
            for b in (1, 0):
                s = st.copy()
                if b and args[-1] in (("k", ENOENT), ("k", 38)):
                    s.prop = (s.prop[0], s.prop[1] | {args[-1][1]})
                out.append((s, ("k", b)))
            return out
        if name in self.prim:
            self.calls += 1
            self.again(eng, st, i)
            out = []
            for s, rv, failed, e in outcomes(eng, st, i, name, "neg", args, ctx):
                s.prop = (name + "()" if failed else None, frozenset())
                out.append((s, ("k", -1) if failed else ("k", 0)))
            return out
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name == self.entry and eng.stack == [fn.name]:
            self.leaves += 1
            i = fn.blocks[fn.rpo[-1]][-1]
            if not st.prop[0]:
                return
            if fn.ret == "ptr":
                if eng.norm(st, rv) != ("k", 0):
                    eng.report(i, "%s() can ignore the failure of %s" % (fn.name, st.prop[0]), st)
                return
            r = eng.rng(st, rv)
            if r[0] <= 0 <= r[1] and 0 not in r[2]:
                eng.report(i, "%s() can ignore the failure of %s" % (fn.name, st.prop[0]), st)


class FinalRule(Rule):
    """bftw() failing makes bfs_eval() report it and fail. prop = (failed, msg, value recorded)"""
    name = "final"
    maxstates = 40

    def __init__(self, m, entry):
        self.m, self.entry = m, entry
        self.kret = m.field("callback_args", "ret")
        self.leaves = self.calls = 0

    def init(self):
        return (False, False, False)

    def call(self, eng, st, i, name, args, ctx):
        if name in MSG and st.prop[0]:
            st.prop = (True, True, st.prop[2])
        if name == "bftw":
            self.calls += 1
            out = []
            for s, rv, bad, e in outcomes(eng, st, i, name, "neg", args, ctx):
                if bad:
                    s.prop = (True, False, False)
                else:
                    rv = ("k", 0)
                out.append((s, rv))
            return out
        return None

    def store(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.kret and st.prop[0]:
            r = eng.rng(st, v)
            if r[0] > 0 or r[1] < 0 or 0 in r[2]:
                st.prop = st.prop[:2] + (True,)
            else:
                if st.prop[2]:
                    eng.report(i, "%s() can forget that the search failed" % self.entry, st)
                st.prop = st.prop[:2] + (False,)

    def split(self, eng, st, i, ctx):
        if st.prop[2] and eng.keyof(i, i.ops[0]) == self.kret:
            st.env[(ctx, "i", i.id)] = ("k", 1)
            return [st]
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name == self.entry and eng.stack == [fn.name]:
            self.leaves += 1
            if st.prop[0]:
                r = eng.rng(st, rv)
                i = fn.blocks[fn.rpo[-1]][-1]
                if r[0] <= 0 <= r[1] and 0 not in r[2]:
                    eng.report(i, "%s() can succeed although the search failed" % fn.name, st)
                if not st.prop[1]:
                    eng.report(i, "%s() can keep quiet about a search that failed" % fn.name, st)


class MainRule(Rule):
    """The exit status of the search is bfs's. prop = the status (token) or None"""
    name = "main"
    maxstates = 40

    def __init__(self, m, entry):
        self.m, self.entry = m, entry
        self.calls = self.leaves = 0

    def call(self, eng, st, i, name, args, ctx):
        if name != "bfs_eval":
            return None
        self.calls += 1
        good, bad = st.copy(), st.copy()
        for s in (good, bad):
            eng.effect(s, i, name, args, ctx)
        bad.prop = True
        return [(good, ("k", 0)), (bad, eng.fresh(bad, ("status",), (1, INF, frozenset())))]

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name == self.entry and eng.stack == [fn.name]:
            self.leaves += 1
            r = eng.rng(st, rv)
            if st.prop and r[0] <= 0 <= r[1] and 0 not in r[2]:
                eng.report(fn.blocks[fn.rpo[-1]][-1], "%s() can succeed although bfs_eval() failed" % fn.name, st)


def run(m, R, rule, rn, setup=None):
    eng = Engine(m, rule)
    eng.run(rule.entry, setup)
    R.engine(eng, rn)
    R.require(rule.leaves or m.defined[rule.entry].noreturn, "%s() is not analysable" % rule.entry)
    return eng


SEEDS = {
    "openat": "neg", "openat64": "neg", "fdopendir": "null", "bfs_stat": "neg", "malloc": "null", "arena_alloc": "null", "varena_alloc": "null",
    "strndup": "null", "__strndup": "null", "dstresize": "neg", "trie_insert_str": "null", "trie_insert_mem": "null", "ioq_create": "null", "syscall": "size",
    "getdents64": "size", "bfs_getdents": "size",
}


def check(m, R):
    R.rule("evaluators and the visit callback: after every call they rely on fails, the error is reported and the exit status set (or counted under -noerror, "
           "or ignored for a vanished file under -ignore_readdir_race) before they return, and a test is false")
    R.rule("traversal and directory reading: every failed call is recorded (search, directory or file error) or passed on to the caller, up to bfs_eval(); "
           "recorded errors are never dropped: they reach the callback or make the search fail")
    evals, sites = evaluators(m)
    runs = {s.fn.name for s in sites}
    cbs = {n for n in m.defined if any(c.fn.file.endswith("bftw.c") for c in m.icallers.get(n, [])) and m.defined[n].file == m.defined[sorted(runs)[0]].file}
    kc = m.field("bfs_expr", "cfile")
    n = 0
    for f in sorted(evals):
        near = direct_reach(m, set(TESTS))
        if f not in near:
            continue
        prints = writes_file(m, m.defined[f], kc)
        table = {"bftw_stat": "null"} if prints else TESTS
        if f in ("eval_access",):
            continue
        rule = EvalRule(m, f, table, evals - {f}, runs)
        rule.false = not prints
        run(m, R, rule, "report")
        if rule.fails:
            n += 1
            R.obligation("report: %s() (%d failing calls)" % (f, rule.fails))
    R.minimum("evaluators that can fail", n, 15)
    R.minimum("visit callbacks", len(cbs), 1)
    for f in sorted(cbs):
        rule = EvalRule(m, f, TESTS, evals, runs, True)
        run(m, R, rule, "report")
        R.obligation("report: %s()" % f)
        R.require(rule.fails, "%s() does not look at the file's type" % f)
    census_ret(m, R)
    rule = StatRule(m, "bfs_stat")
    run(m, R, rule, "stat")
    R.obligation("stat: bfs_stat()")
    R.minimum("system calls that look at files", rule.calls, 1)
    rule = StatRule(m, "bftw_stat", {"bfs_stat"})
    run(m, R, rule, "stat")
    R.obligation("stat: bftw_stat()")
    R.minimum("calls that look at visited files", rule.calls, 1)
    # traversal
    fs = {m.defined["bftw"].file, m.defined["bfs_readdir"].file}
    records = {m.field("bftw_state", "error"), m.field("bftw_state", "direrror"), m.field("BFTW", "error")}
    submit = {n for n in m.defined if n in ("ioq_opendir", "ioq_stat", "ioq_close", "ioq_closedir")}
    optional = {f.name for f in m.defined.values() if f.file in fs and submit & m.cg[f.name]}
    table = dict(SEEDS)
    done = {}
    work = {c.fn.name for s in table for c in m.callsites.get(s, []) if c.fn.file in fs}
    while work:
        f = sorted(work)[0]
        work.discard(f)
        if f in optional or f in table and f in SEEDS:
            continue
        rule = FailRule(m, f, table, records, optional)
        eng = Engine(m, rule)
        eng.run(f)
        done[f] = (rule, eng)
        if rule.kinds and f not in table:
            table[f] = sorted(rule.kinds)[0]
            work |= {c.fn.name for c in m.callsites.get(f, []) if c.fn.file in fs}
    for f, (rule, eng) in sorted(done.items()):
        R.engine(eng, "propagate")
        R.obligation("propagate: %s() (%d failing calls)%s" % (f, rule.fails, ", passes failures on" if rule.kinds else ""))
    R.minimum("functions of the traversal that handle failures", len(done), 12)
    kdir, kerr = m.field("bftw_state", "direrror"), m.field("bftw_state", "error")
    kfe = m.field("BFTW", "error")
    (callers, helpers), gcs, bufs = callback_callers(m), set(), set()
    for f in m.defined.values():
        if f.file not in fs:
            continue
        for i in f.instrs.values():
            if i.op == "store" and m.ptrkey(f, i.ops[1]) == kfe:
                bufs.add(f.name)
            if i.op == "load" and m.ptrkey(f, i.ops[0]) == kdir:
                gcs.add(f.name)
    gcs -= bufs
    leaf = {f for f in bufs if small(m, m.defined[f]) and m.callsites.get(f)}
    for f in sorted(bufs - leaf | {c.fn.name for f in leaf for c in m.callsites[f] if c.fn.file in fs}):
        rule = WalkRule(m, f, "buf")
        rule.table = table
        run(m, R, rule, "walk")
        R.obligation("walk: %s() marks erroneous files" % f)
    builders = {n for n in done if m.defined[n].ret == "i32" and kerr in stores(m, n)}
    for f in sorted(callers):
        for post in (False, True):
            rule = WalkRule(m, f, "call", builders)
            rule.helpers = helpers
            rule.post = post
            run(m, R, rule, "walk", rule.setup)
        R.obligation("walk: %s() calls back" % f)
    for f in sorted(gcs):
        rule = WalkRule(m, f, "gc", callers)
        run(m, R, rule, "walk")
        R.obligation("walk: %s() reports directory errors" % f)
    res = {f.name for f in m.defined.values() if f.file in fs and f.ret == "i32" and any(i.op == "load" and m.ptrkey(f, i.ops[0]) == kerr for i in f.instrs.values())}
    for f in sorted(res):
        rule = WalkRule(m, f, "result")
        run(m, R, rule, "walk")
        R.obligation("walk: %s() returns the search's error" % f)
    R.minimum("functions that return the search's error", len(res), 1)
    for n_, k in (("callers of the callback", callers), ("functions that handle directory errors", gcs), ("functions that describe files", bufs)):
        R.minimum(n_, len(k), 1)
    # the result travels up to bftw()
    pas = {n: "neg" for n in res}
    work = {c.fn.name for s in pas for c in m.callsites.get(s, [])}
    up = set()
    while work:
        f = work.pop()
        if f in up or f == "bftw" or m.defined[f].file not in fs:
            if f == "bftw":
                up.add(f)
            continue
        up.add(f)
        pas[f] = "neg"
        work |= {c.fn.name for c in m.callsites.get(f, [])}
    for f in sorted(up):
        rule = FailRule(m, f, pas, records, optional)
        run(m, R, rule, "propagate")
        R.obligation("propagate: %s() passes the search's result on" % f)
    R.require("bftw" in up, "the search's error does not reach bftw()")
    stores0 = [(f, i) for f in m.defined.values() for i in f.instrs.values() if i.op == "store" and m.ptrkey(f, i.ops[1]) == kerr and ("c", 0) in consts(f, i.ops[0])]
    for f, i in stores0:
        if f.name in up or f.name in res or f.name in callers or f.name in gcs or any(n in m.cg[f.name] for n in callers | gcs):
            R.violation(i.loc(), "%s() resets the search's error" % f.name, (), fn=f.name, rule="walk")
    for f in sorted({c.fn.name for c in m.callsites.get("bftw", []) if m.defined[c.fn.name].file not in fs}):
        rule = FinalRule(m, f)
        run(m, R, rule, "final")
        R.obligation("final: %s()" % f)
        R.require(rule.calls, "%s() does not run the search" % f)


    for f in sorted({c.fn.name for c in m.callsites.get("bfs_eval", [])}):
        rule = MainRule(m, f)
        run(m, R, rule, "final")
        R.obligation("final: %s()" % f)
    R.minimum("callers of bfs_eval()", len(m.callsites.get("bfs_eval", [])), 1)


def writes_file(m, f, kc):
    """Does f use the expression's output file? (the field shares its storage with others)"""
    for i in f.instrs.values():
        if i.op != "load" or m.ptrkey(f, i.ops[0]) != kc:
            continue
        for u in f.instrs.values():
            if u.op == "getelementptr" and u.ops[0] == ("i", i.id):
                return True
            if u.op == "call" and u.callee[0] == "f":
                d = m.funcs[u.callee[1]].dtypes
                if any(a == ("i", i.id) and n + 1 < len(d) and "CFILE" in d[n + 1] for n, a in enumerate(u.args)):
                    return True
    return False


def small(m, f):
    """Helpers that are analysed as part of their callers."""
    return len(f.instrs) <= 40 and all(n.startswith("llvm.") or n == "__errno_location" for n in m.cg[f.name])


def stores(m, name, deep=True):
    """Fields that a function stores to, with those of its helpers."""
    f = m.defined[name]
    r = set()
    if deep:
        for n in m.cg[name]:
            if n in m.defined and small(m, m.defined[n]):
                r |= stores(m, n, False)
    return r | {m.ptrkey(f, i.ops[1]) for i in f.instrs.values() if i.op == "store"}

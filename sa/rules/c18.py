"""C18: every request given to the I/O queue is performed as asked and answered exactly once."""
from ..engine import Engine, Rule, INF, ERRNO, TOP
from .execcommon import direct_reach

ENT = "struct ioq_ent*"
POS = (1, 4095, frozenset())


def strip(t):
    while isinstance(t, tuple) and t and t[0] == "o":
        t = t[1]
    return t


class Shape:
    """Finds the queue primitives by their signatures and the layout of a request."""

    def __init__(self, m, R):
        self.m = m
        f = lambda s, n: m.field(s, n)
        self.ops = {k: m.enums.get("IOQ_" + k) for k in ("NOP", "CLOSE", "OPENDIR", "CLOSEDIR", "STAT")}
        R.require(all(v is not None for v in self.ops.values()), "the I/O operations vanished")
        self.opname = {v: k for k, v in self.ops.items()}
        self.op, self.result, self.ptr = (f("ioq_ent", n)[1] for n in ("op", "result", "ptr"))
        base = {}
        for n, off, sz, dt in m.types["struct.ioq_ent"]["fields"]:
            if "." not in n:
                base.setdefault(dt, off)
        un = max(off for n, off, sz, dt in m.types["struct.ioq_ent"]["fields"] if "." not in n)
        self.args = {}
        for k, names in (("CLOSE", ("fd",)), ("OPENDIR", ("dir", "path", "dfd", "flags")), ("CLOSEDIR", ("dir",)),
                         ("STAT", ("path", "buf", "xbuf", "dfd", "flags")), ("NOP", ("type",))):
            self.args[k] = {n: un + f("ioq_" + k.lower(), n)[1] for n in names}
        self.pending, self.ready = f("ioq", "pending"), f("ioq", "ready")
        self.cancel, self.size = f("ioq", "cancel"), f("ioq", "size")
        self.pop, self.push, self.flush, self.empty, self.reset = set(), set(), set(), set(), set()
        for n, fn in m.defined.items():
            d = fn.dtypes
            if not d or fn.file is None or not fn.file.endswith("ioq.c"):
                continue
            if d[0] == ENT and "struct ioqq*" in d[1:] and "struct ioq_batch*" in d[1:]:
                self.pop.add(n)
            elif d[0] == "void" and ENT in d[1:] and "struct ioqq*" in d[1:]:
                self.push.add(n)
            elif d == ["void", "struct ioqq*", "struct ioq_batch*"]:
                self.flush.add(n)
            elif d == ["_Bool", "struct ioq_batch*"]:
                self.empty.add(n)
            elif d == ["void", "struct ioq_batch*"]:
                self.reset.add(n)
        R.require(self.pop and self.push and self.flush, "the queue primitives vanished")
        self.prims = self.pop | self.push | self.flush | self.empty | self.reset
        self.unit = {n for n, fn in m.defined.items() if fn.file and fn.file.endswith("ioq.c")}
        self.stop = [g for g in m.globals if m.globals[g]["type"] == "struct.ioq_ent"]
        R.require(len(self.stop) == 1, "the stop sentinel vanished")
        self.stop = self.stop[0]
        takers = set()
        for n in self.unit - self.prims:
            c = m.cg[n]
            if c & self.pop and n != "ioq_pop" or "io_uring_cqe_get_data" in c:
                takers.add(n)
        self.takers = takers
        self.reach = direct_reach(m, takers)

    def arg(self, name, d, args):
        """The first argument of type d in a call to the primitive `name`."""
        dt = self.m.defined[name].dtypes[1:]
        return args[dt.index(d)] if d in dt and dt.index(d) < len(args) else None


class Base(Rule):
    maxstates = 120
    budget = 1500000
    inline_depth = 8

    def __init__(self, S, entry):
        self.m, self.S, self.entry = S.m, S, entry
        self.roles = {}
        self.leaves = 0

    def load(self, eng, st, i, loc, v, ctx):
        if v[0] == "s":
            if loc[1] == self.S.pending:
                self.roles[strip(v[1])] = "pending"
            elif loc[1] == self.S.ready:
                self.roles[strip(v[1])] = "ready"

    def distinct(self, tok):
        return strip(tok)[0] in ("ent", "nent", "cent", "xbuf") and tok == strip(tok)

    def role(self, v):
        return self.roles.get(strip(v[1])) if v is not None and v[0] == "s" else None

    def isstop(self, v):
        return v[0] == "p" and v[1] == ("g", self.S.stop)

    def ret(self, fn):
        return fn.blocks[fn.rpo[-1]][-1]

    def fork(self, eng, st, i, name, args, ctx, keep, ok=(0, 0, frozenset())):
        """Success and failure of a call that reports failure with -1 and errno."""
        out = []
        for good in (True, False):
            s = st.copy()
            saved = {k: e for k, e in s.mem.items() if k[0] in keep}
            eng.effect(s, i, name, args, ctx)
            s.mem.update(saved)
            if good:
                rv = eng.fresh(s, ("r", ctx, i.id), ok)
            else:
                rv = ("k", -1)
                e = eng.fresh(s, ("errno", ctx, i.id), POS)
                s.mem[(ERRNO, 0)] = (e, ("g:errno", 0), "i32")
            s.trail = ("%s: %s() %s" % (i.loc(), name, "succeeds" if good else "fails"), s.trail)
            out.append((s, rv, good))
        return out


# prop fields
CUR, PERF, SENT, STOP, DIRTY, NONEMPTY, CANCEL, PREP, CQE, FD, OWED = range(11)


class WorkerRule(Base):
    """One worker: what happens between taking requests and answering them.

    prop = (op in hand, outcome of performing it, answered, stop state, batches with unsent answers, batches known non-empty,
            cancellation flag token, prepared (sqe, op), completion outcome, opened fd state, prepped counter owed)"""
    name = "worker"

    def __init__(self, S, entry):
        super().__init__(S, entry)
        self.taken = self.answers = self.performed = 0
        self.fcalls = {}
        self.ringtok = None
        m = self.m
        self.res = m.field("io_uring_cqe", "res")
        self.prepped = m.field("ioq_ring_state", "prepped")
        self.kstop = m.field("ioq_ring_state", "stop")
        d = m.defined[entry].dtypes
        self.ring = d.index("struct ioq_ring_state*") - 1 if "struct ioq_ring_state*" in d[1:] else None

    def init(self):
        return (None, None, 0, 0, frozenset(), frozenset(), None, None, None, None, 0)

    def put(self, st, **kw):
        p = list(st.prop)
        for k, v in kw.items():
            p[globals()[k]] = v
        st.prop = tuple(p)

    def tokens(self, prop):
        out = [("ent", prop[CUR])] if prop[CUR] is not None else []
        if self.ringtok:
            out.append(self.ringtok)
        if prop[CANCEL]:
            out.append(prop[CANCEL])
        if prop[CQE]:
            out.append(prop[CQE][1])
        if prop[PREP]:
            out.append(prop[PREP][0])
        if isinstance(prop[PERF], tuple):
            out.append(prop[PERF][1])
        return out

    def rename(self, prop, mp):
        f = lambda t: mp[t][1] if t in mp and mp[t][0] == "s" else None if t in mp else t
        p = list(prop)
        if p[CANCEL] in mp:
            p[CANCEL] = f(p[CANCEL])
        if p[CQE] and p[CQE][1] in mp:
            p[CQE] = (p[CQE][0], f(p[CQE][1]))
        if p[PREP] and p[PREP][0] in mp:
            v = mp[p[PREP][0]]
            p[PREP] = (f(p[PREP][0]), p[PREP][1])
        if isinstance(p[PERF], tuple) and p[PERF][1] in mp:
            p[PERF] = ("fail", f(p[PERF][1]))
        return tuple(p)

    def inline(self, eng, fn, depth):
        if fn.name == "try" or fn.name.startswith("ioq_ring_empty"):
            return True
        return fn.name in self.S.unit and fn.name not in self.S.prims and (fn.name not in self.S.reach or ENT in fn.dtypes[1:]) \
            and fn.name not in self.S.takers

    # -- the request in hand ------------------------------------------------------------------
    def base(self, st):
        return ("t", ("ent", st.prop[CUR]))

    def cell(self, eng, st, name):
        o = self.S.opname[st.prop[CUR]]
        return eng.peek(st, self.base(st), self.S.args[o][name])

    def give(self, eng, st, op):
        """Materialize a request of kind `op`."""
        S = self.S
        tok = ("ent", op)
        v = eng.fresh(st, tok, (1, INF, frozenset()))
        b = ("t", tok)
        K = ("struct.ioq_ent", 0)
        st.mem[(b, S.op)] = (("k", op), ("struct.ioq_ent", S.op), "i32")
        cells = {S.result: "i32", S.ptr: "ptr"}
        for n, off in S.args[S.opname[op]].items():
            cells[off] = "ptr" if n in ("dir", "path", "buf", "xbuf") else "i32"
        for off, ty in cells.items():
            x = eng.fresh(st, ("entf", op, off), (1, INF, frozenset()) if ty == "ptr" and off != S.ptr else None)
            st.mem[(b, off)] = (x, ("struct.ioq_ent", off) if off in (S.result, S.ptr) else ("raw", "entf%d" % off), ty)
        for a, b2 in ((v, ("p", ("g", S.stop), 0)), (("p", ("g", S.stop), 0), v)):
            st.cons[("cmp", "eq", a, b2)] = (0, 0, frozenset())
            st.cons[("cmp", "ne", a, b2)] = (1, 1, frozenset())
        self.put(st, CUR=op, PERF=None, SENT=0, CANCEL=None, PREP=None, FD=None)
        self.taken += 1
        return v

    def settle(self, eng, st, i, what):
        """The request in hand must have been answered (or handed to the ring) by now."""
        p = st.prop
        if p[CUR] is not None and not p[SENT]:
            eng.report(i, "%s() can %s without answering the %s request it took" % (self.entry, what, self.S.opname[p[CUR]]), st)
        if p[OWED]:
            eng.report(i, "%s() can %s although the count of prepared requests does not match those handed to the ring" % (self.entry, what), st)
        if p[FD] == "open":
            eng.report(i, "%s() can %s leaving a completed open without owner" % (self.entry, what), st)

    def isent(self, st, v):
        return st.prop[CUR] is not None and v == ("s", ("ent", st.prop[CUR]))

    # -- hooks --------------------------------------------------------------------------------
    def load(self, eng, st, i, loc, v, ctx):
        super().load(eng, st, i, loc, v, ctx)
        if loc[1] == self.S.cancel and v[0] == "s":
            self.put(st, CANCEL=v[1])

    def split(self, eng, st, i, ctx):
        if self.res and eng.keyof(i, i.ops[0]) == self.res and st.prop[CQE] is None:
            v = eng.val(st, i.fn, ctx, ("i", i.id))
            if v[0] != "s":
                return None
            out = []
            for good in (True, False):
                s = st.copy()
                if eng.assumecmp(s, "sge" if good else "slt", v, ("k", 0)):
                    self.put(s, CQE=("ok" if good else "fail", v[1]))
                    s.trail = ("%s: the request %s" % (i.loc(), "succeeded" if good else "failed"), s.trail)
                    out.append(s)
            return out
        return None

    def store(self, eng, st, i, loc, v, ctx):
        a = eng.addr(st, loc[0])
        if a and st.prop[CUR] is not None and a[0] == self.base(st):
            if st.prop[SENT]:
                eng.report(i, "%s() can change a request after answering it" % self.entry, st)
            elif a[1] == self.S.ptr or a[1] == self.S.op:
                eng.report(i, "%s() can change the identity of a request" % self.entry, st)
        if self.prepped and loc[1] == self.prepped:
            self.put(st, OWED=max(st.prop[OWED] - 1, 0) if st.prop[OWED] else 0)

    def call(self, eng, st, i, name, args, ctx):
        S = self.S
        p = st.prop
        f = self.m.funcs.get(name)
        keep = {self.base(st)} if p[CUR] is not None else set()
        if name in S.pop:
            return self.take(eng, st, i, name, args, ctx)
        if name in S.push:
            self.answer(eng, st, i, name, args)
            return [(st, ("k", 0))]
        if name in S.flush:
            b, q = S.arg(name, "struct ioq_batch*", args), S.arg(name, "struct ioqq*", args)
            if b in p[DIRTY] and self.role(q) == "pending":
                eng.report(i, "%s() can send answers to the queue of pending requests" % self.entry, st)
            self.put(st, DIRTY=p[DIRTY] - {b}, NONEMPTY=p[NONEMPTY] - {b})
            if self.ringready(st, eng) == b:
                self.put(st, NONEMPTY=st.prop[NONEMPTY] - {("clean", b)} | {("clean", b)})
            return [(st, ("k", 0))]
        if name in S.reset:
            b = args[0]
            if b in p[DIRTY]:
                eng.report(i, "%s() can drop answers that were not sent yet" % self.entry, st)
            self.put(st, NONEMPTY=p[NONEMPTY] - {b})
            return [(st, ("k", 0))]
        if name in S.empty:
            b = args[0]
            out = []
            for e in (1, 0):
                s = st.copy()
                if e:
                    if b in p[NONEMPTY]:
                        continue
                    self.put(s, DIRTY=p[DIRTY] - {b}, NONEMPTY=p[NONEMPTY] | {("clean", b)})
                else:
                    if ("clean", b) in p[NONEMPTY]:
                        continue
                    self.put(s, NONEMPTY=p[NONEMPTY] | {b})
                out.append((s, ("k", e)))
            return out
        if name == "io_uring_cqe_get_data":
            self.settle(eng, st, i, "look at another completion")
            out = []
            for op in sorted(S.opname):
                s = st.copy()
                v = self.give(eng, s, op)
                self.put(s, PERF="cqe")
                out.append((s, v))
            return out
        if name == "io_uring_sqe_set_data":
            if not self.isent(st, args[1]):
                eng.report(i, "%s() can submit something else than the request it took" % self.entry, st)
            elif p[SENT]:
                eng.report(i, "%s() can submit a request that was already answered" % self.entry, st)
            elif p[PREP] is None or args[0] != ("s", p[PREP][0]):
                eng.report(i, "%s() can submit a request without describing the operation" % self.entry, st)
            self.answers += 1
            self.put(st, SENT=1, OWED=p[OWED] + 1)
            return [(st, ("k", 0))]
        if name.startswith("io_uring_prep_") and p[CUR] is not None:
            self.prep(eng, st, i, name, args)
            return [(st, ("k", 0))]
        if p[CUR] is not None and name in PERFORM:
            return self.perform(eng, st, i, name, args, ctx, keep)
        if name == "bfs_unwrapdir" and p[CUR] is not None:
            if args[0] != (self.cell(eng, st, "dir") if self.S.opname[p[CUR]] == "CLOSEDIR" else None):
                eng.report(i, "%s() can take apart a directory other than the one to close" % self.entry, st)
            return [(st, eng.fresh(st, ("unwrap",), (0, INF, frozenset())))]
        if f is not None and not f.decl and not self.inline(eng, f, 0) and not eng.copier(f) and not i.noret and not f.noreturn:
            saved = {k: e for k, e in st.mem.items() if k[0] in keep}
            eng.effect(st, i, name, args, ctx)
            st.mem.update(saved)
            rv = eng.fresh(st, ("r", ctx, i.id), eng.sum.retrange(name))
            self.fcalls[rv[1]] = (name, args[0] if args else None)
            return [(st, rv)]
        return None

    def ringready(self, st, eng):
        if self.ring is None:
            return None
        off = self.m.field("ioq_ring_state", "ready")
        if off is None:
            off = self.m.field("ioq_ring_state", "ready.head")
        return ("p", ("t", self.ringtok), off[1])

    def take(self, eng, st, i, name, args, ctx):
        S = self.S
        p = st.prop
        self.settle(eng, st, i, "take another request")
        if p[STOP]:
            eng.report(i, "%s() can take a request after it was told to stop" % self.entry, st)
        q, b = S.arg(name, "struct ioqq*", args), S.arg(name, "struct ioq_batch*", args)
        block = S.arg(name, "_Bool", args)
        if self.role(q) == "ready":
            eng.report(i, "%s() can take requests from the queue of answers" % self.entry, st)
        out = []
        r = eng.rng(st, block) if block is not None else (1, 1)
        if r[1] >= 1 and b not in p[NONEMPTY]:
            if p[DIRTY]:
                eng.report(i, "%s() can wait for requests while it holds answers that were not sent" % self.entry, st)
            if self.ring is not None:
                t = ("t", self.ringtok)
                s2 = st.copy()
                if block is None or eng.assume(s2, block, True):
                    for n in ("prepped", "submitted"):
                        v = eng.peek(s2, t, self.m.field("ioq_ring_state", n)[1])
                        if v is None or eng.rng(s2, v)[1] != 0:
                            eng.report(i, "%s() can wait for new requests while others are %s" % (self.entry, n), st)
                    if ("clean", self.ringready(st, eng)) not in p[NONEMPTY]:
                        eng.report(i, "%s() can wait for new requests while it may hold answers that were not sent" % self.entry, st)
        if self.ring is not None:
            v = eng.peek(st, ("t", self.ringtok), self.kstop[1])
            if v is None or eng.rng(st, v)[1] != 0:
                eng.report(i, "%s() can take requests after an earlier call was told to stop" % self.entry, st)
        ne = frozenset(x for x in p[NONEMPTY] if x != b and x != ("clean", b))
        for op in sorted(S.opname):
            s = st.copy()
            v = self.give(eng, s, op)
            self.put(s, NONEMPTY=ne)
            s.trail = ("%s: %s request taken" % (i.loc(), S.opname[op]), s.trail)
            out.append((s, v))
        s = st.copy()
        self.put(s, CUR=None, STOP=1, NONEMPTY=ne)
        s.trail = ("%s: stop request taken" % i.loc(), s.trail)
        out.append((s, ("p", ("g", S.stop), 0)))
        s = st.copy()
        if b not in p[NONEMPTY] and r[0] < 1 and (block is None or eng.assume(s, block, False)):
            self.put(s, CUR=None, NONEMPTY=ne)
            s.trail = ("%s: no request" % i.loc(), s.trail)
            out.append((s, ("k", 0)))
        return out

    def answer(self, eng, st, i, name, args):
        S = self.S
        p = st.prop
        e, q, b = S.arg(name, ENT, args), S.arg(name, "struct ioqq*", args), S.arg(name, "struct ioq_batch*", args)
        role = self.role(q)
        if self.isstop(e):
            if role == "ready":
                eng.report(i, "%s() can answer the stop request as if it were an ordinary one" % self.entry, st)
            elif p[STOP] == 2:
                eng.report(i, "%s() can pass on the stop request twice" % self.entry, st)
            self.put(st, STOP=2)
            if b is not None:
                self.put(st, DIRTY=p[DIRTY] | {b})
            return
        if not self.isent(st, e):
            eng.report(i, "%s() can answer something else than the request it took" % self.entry, st)
            return
        o = S.opname[p[CUR]]
        self.answers += 1
        if role == "pending":
            eng.report(i, "%s() can put an answer into the queue of pending requests" % self.entry, st)
        if p[SENT]:
            eng.report(i, "%s() can answer the %s request it took twice" % (self.entry, o), st)
        res = eng.peek(st, self.base(st), S.result)
        lo, hi = eng.rng(st, res)[:2] if res is not None else (-INF, INF)
        unset = res is None or res[0] == "s" and strip(res[1])[0] == "entf"
        eintr = -4
        cancelled = p[CANCEL] is not None and eng.rng(st, ("s", p[CANCEL]))[0] > 0 or p[CANCEL] is not None and eng.isnull(st, ("s", p[CANCEL])) is False
        perf = p[PERF]
        if unset:
            eng.report(i, "%s() can answer a %s request without a result" % (self.entry, o), st)
        elif perf == "cqe":
            c = p[CQE][0] if p[CQE] else None
            if c is None:
                eng.report(i, "%s() can answer a %s request without looking at how it ended" % (self.entry, o), st)
            elif c == "fail":
                if hi < 0 and res != ("s", p[CQE][1]):
                    eng.report(i, "%s() can answer a failed %s request with another error than occurred" % (self.entry, o), st)
                if hi >= 0:
                    eng.report(i, "%s() can answer a failed %s request with success" % (self.entry, o), st)
            elif o == "STAT":
                eng.report(i, "%s() can answer a STAT request without filling in its buffer" % self.entry, st)
            elif o == "OPENDIR":
                if not (lo == hi == eintr and cancelled):
                    eng.report(i, "%s() can answer an OPENDIR request although the directory was not opened" % self.entry, st)
                if p[FD] != "closed":
                    eng.report(i, "%s() can leak the descriptor of a cancelled OPENDIR request" % self.entry, st)
            elif lo < 0:
                eng.report(i, "%s() can answer a completed %s request with an error" % (self.entry, o), st)
        elif perf is None:
            if lo == hi == eintr:
                if o in ("CLOSE", "CLOSEDIR"):
                    eng.report(i, "%s() can skip a %s request" % (self.entry, o), st)
                elif not cancelled:
                    eng.report(i, "%s() can cancel a %s request although the queue was not cancelled" % (self.entry, o), st)
            elif o != "NOP":
                eng.report(i, "%s() can answer a %s request without performing it" % (self.entry, o), st)
            elif lo < 0:
                eng.report(i, "%s() can answer a NOP request with an error" % self.entry, st)
        elif perf == "ok":
            if lo < 0:
                eng.report(i, "%s() can answer a successful %s request with an error" % (self.entry, o), st)
            if p[FD] == "closed":
                eng.report(i, "%s() can close the descriptor of a directory it opened" % self.entry, st)
        else:
            e = eng.rng(st, ("s", perf[1])) if perf[1] else TOP
            if hi >= 0:
                eng.report(i, "%s() can answer a failed %s request with success" % (self.entry, o), st)
            elif (lo, hi) != (-e[1], -e[0]):
                eng.report(i, "%s() can answer a failed %s request with another error than occurred" % (self.entry, o), st)
            if p[FD] == "open":
                eng.report(i, "%s() can leak the descriptor of an OPENDIR request that failed" % self.entry, st)
        self.put(st, SENT=1, FD=None)
        if b is not None:
            n = frozenset(x for x in p[NONEMPTY] if x != ("clean", b))
            self.put(st, DIRTY=p[DIRTY] | {b}, NONEMPTY=n)

    def perform(self, eng, st, i, name, args, ctx, keep):
        S = self.S
        p = st.prop
        o = S.opname[p[CUR]]
        self.performed += 1
        c = lambda n: self.cell(eng, st, n)
        cqefd = p[CQE] and p[CQE][0] == "ok" and ("s", p[CQE][1])
        if p[SENT]:
            eng.report(i, "%s() can perform a %s request after answering it" % (self.entry, o), st)
            return None
        if name in ("xclose", "close"):
            if p[PERF] is not None and o == "OPENDIR":
                if args[0] != cqefd:
                    eng.report(i, "%s() can close a descriptor other than the one it opened" % self.entry, st)
                elif p[FD] == "closed":
                    eng.report(i, "%s() can close the descriptor of an OPENDIR request twice" % self.entry, st)
                self.put(st, FD="closed")
                return [(s, rv) for s, rv, g in self.fork(eng, st, i, name, args, ctx, keep)]
            want = o == "CLOSE" and args[0] == c("fd")
        elif name == "bfs_closedir":
            want = o == "CLOSEDIR" and args[0] == c("dir")
        elif name == "bfs_opendir":
            if p[PERF] == "cqe":
                want = o == "OPENDIR" and args[0] == c("dir") and args[1] == cqefd and args[2] == ("k", 0) and args[3] == c("flags")
            else:
                want = o == "OPENDIR" and args[:4] == [c("dir"), c("dfd"), c("path"), c("flags")]
        elif name == "bfs_stat":
            want = o == "STAT" and args[:4] == [c("dfd"), c("path"), c("flags"), c("buf")]
        elif name == "bfs_statx_convert":
            want = o == "STAT" and p[PERF] == "cqe" and args[:2] == [c("buf"), c("xbuf")]
        else:
            return None
        if p[PERF] not in (None, "cqe") or p[PERF] == "cqe" and o not in ("OPENDIR", "STAT"):
            eng.report(i, "%s() can perform a %s request twice" % (self.entry, o), st)
        elif not want:
            eng.report(i, "%s() can perform a %s request with other arguments than were asked for (%s)" % (self.entry, o, name), st)
        out = []
        for s, rv, good in self.fork(eng, st, i, name, args, ctx, keep):
            self.put(s, PERF="ok" if good else ("fail", ("errno", ctx, i.id)))
            if name == "bfs_opendir" and p[PERF] == "cqe":
                self.put(s, FD="adopted" if good else "open")
            out.append((s, rv))
        return out

    def prep(self, eng, st, i, name, args):
        S, m = self.S, self.m
        p = st.prop
        o = S.opname[p[CUR]]
        c = lambda n: self.cell(eng, st, n)
        want = False
        if name == "io_uring_prep_nop":
            want = o == "NOP"
        elif name == "io_uring_prep_close":
            want = o == "CLOSE" and args[1] == c("fd") or o == "CLOSEDIR" and args[1] == ("s", ("unwrap",))
        elif name == "io_uring_prep_openat":
            fl = args[3]
            want = o == "OPENDIR" and args[1] == c("dfd") and args[2] == c("path") and fl[0] == "k" and \
                (fl[1] & 3) == 0 and fl[1] & 0o2000000 and fl[1] & 0o200000 and not fl[1] & ~0o2200000
        elif name == "io_uring_prep_statx":
            want = o == "STAT" and args[1] == c("dfd") and args[2] == c("path") and args[5] == c("xbuf") and \
                self.derived(eng, st, args[3], "bfs_statx_flags", c("flags")) and self.derived(eng, st, args[4], "bfs_statx_mask", None)
        else:
            return
        self.performed += 1
        if not want:
            eng.report(i, "%s() can describe a %s request to the ring with other arguments than were asked for (%s)" % (self.entry, o, name), st)
        self.put(st, PREP=(args[0][1] if args[0][0] == "s" else None, o))

    def derived(self, eng, st, v, fname, arg):
        return v[0] == "s" and self.fcalls.get(strip(v[1])) == (fname, arg)

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name]:
            return
        self.leaves += 1
        S = self.S
        i = self.ret(fn)
        self.settle(eng, st, i, "return")
        p = st.prop
        if p[STOP] == 1:
            eng.report(i, "%s() can keep the stop request to itself, so that other workers never end" % self.entry, st)
        if self.ring is None:
            if p[DIRTY]:
                eng.report(i, "%s() can end while it holds answers that were not sent" % self.entry, st)
            if not p[STOP]:
                eng.report(i, "%s() can end although it was not told to stop" % self.entry, st)
        elif p[STOP]:
            v = eng.peek(st, ("t", self.ringtok), self.kstop[1])
            if v is None or eng.rng(st, v)[0] <= 0:
                eng.report(i, "%s() can forget that it was told to stop" % self.entry, st)


PERFORM = {"xclose", "close", "bfs_closedir", "bfs_opendir", "bfs_stat", "bfs_statx_convert"}


class RingRule(Base):
    """The helpers around the ring. prop = (unsent answers, counters owed, wait tokens)"""
    name = "ring"

    def __init__(self, S, entry, clean):
        super().__init__(S, entry)
        self.clean = clean
        self.kp, self.ks = self.m.field("ioq_ring_state", "prepped"), self.m.field("ioq_ring_state", "submitted")
        self.tok = None
        self.pstores = direct_reach(self.m, {s.fn.name for s in self.m.storemap.get(self.kp, [])})

    def init(self):
        return (False, frozenset())

    def tokens(self, prop):
        return [self.tok] if self.tok else []

    def inline(self, eng, fn, depth):
        return fn.name in self.S.unit and fn.name not in self.S.prims and fn.name not in self.S.reach

    def due(self, eng, st, i, what):
        for k in st.prop[1]:
            eng.report(i, "%s() can %s without counting the requests it submitted as %s" % (self.entry, what, k), st)
        st.prop = (st.prop[0], frozenset())

    def store(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.kp:
            st.prop = (st.prop[0], st.prop[1] - {"no longer prepped"})
        elif loc[1] == self.ks:
            st.prop = (st.prop[0], st.prop[1] - {"submitted"})

    def call(self, eng, st, i, name, args, ctx):
        S = self.S
        if name in S.flush:
            if self.role(S.arg(name, "struct ioqq*", args)) != "pending":
                st.prop = (False, st.prop[1])
            return [(st, ("k", 0))]
        if name in ("io_uring_submit_and_wait", "io_uring_submit", "io_uring_submit_and_wait_timeout"):
            self.due(eng, st, i, "submit more requests")
            out = []
            for good in (True, False):
                s = st.copy()
                rv = eng.fresh(s, ("r", ctx, i.id), (1, INF, frozenset()) if good else (-INF, 0, frozenset()))
                if good:
                    s.prop = (s.prop[0], frozenset(["submitted", "no longer prepped"]))
                s.trail = ("%s: %s() %s" % (i.loc(), name, "submits" if good else "submits nothing"), s.trail)
                out.append((s, rv))
            return out
        if name in S.reach and name in self.m.defined:
            self.due(eng, st, i, "wait for completions")
            old = st.mem.get((("t", self.tok), self.kp[1]))
            eng.effect(st, i, name, args, ctx)
            if old and name not in self.pstores:
                st.mem[(("t", self.tok), self.kp[1])] = old
            st.prop = (name not in self.clean, st.prop[1])
            return [(st, eng.fresh(st, ("r", ctx, i.id), eng.sum.retrange(name)))]
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name]:
            return
        self.leaves += 1
        i = self.ret(fn)
        self.due(eng, st, i, "return")
        if st.prop[0]:
            eng.report(i, "%s() can return while answers to completed requests were not sent" % self.entry, st)
        if "io_uring_submit_and_wait" in self.m.cg[fn.name] and self.tok:
            v = eng.peek(st, ("t", self.tok), self.kp[1])
            if v is None or eng.rng(st, v)[1] != 0:
                eng.report(i, "%s() can return although some requests were not submitted" % self.entry, st)


class ThreadRule(Base):
    """A whole worker thread. prop = (requests taken, everything completed, loops that ran to their end)"""
    name = "thread"

    def __init__(self, S, entry):
        super().__init__(S, entry)
        self.ks = self.m.field("ioq_ring_state", "submitted")
        self.drains = {n for n in S.reach if n in self.m.defined and self.m.defined[n].dtypes == ["void", "struct ioq_ring_state*", "size_t"]}
        self.syncs = {n for n in S.takers if "struct ioq_thread*" in self.m.defined[n].dtypes}
        self.events = 0

    def init(self):
        return (False, True, 0)

    def inline(self, eng, fn, depth):
        return fn.name in self.S.unit and "struct ioq_thread*" in fn.dtypes and fn.name not in self.S.takers and fn.name in self.S.reach

    def call(self, eng, st, i, name, args, ctx):
        S = self.S
        t, d, n = st.prop
        if name in self.syncs:
            self.events += 1
            if n or t:
                eng.report(i, "%s() can run two worker loops one after the other" % self.entry, st)
            st.prop = (t, d, n + 1)
            eng.effect(st, i, name, args, ctx)
            return [(st, ("k", 0))]
        if name in S.reach and name in self.m.defined and not self.inline(eng, self.m.defined[name], 0):
            self.events += 1
            if n:
                eng.report(i, "%s() can go on working after it was told to stop" % self.entry, st)
            done = False
            if name in self.drains:
                a = eng.addr(st, args[0])
                cur = eng.peek(st, a[0], a[1] + self.ks[1]) if a and a[1] is not None else None
                done = cur is not None and args[1] == cur
            eng.effect(st, i, name, args, ctx)
            rv = eng.fresh(st, ("r", ctx, i.id), eng.sum.retrange(name))
            st.prop = (t or name in S.takers, done, n)
            return [(st, rv)]
        return None

    def leave(self, eng, st, fn, rv, ctx):
        t, d, n = st.prop
        i = self.ret(fn)
        if fn.name != self.entry and t and not n and "struct ioq_thread*" in fn.dtypes and fn.dtypes[0] == "int":
            # the ring's worker loop
            r = eng.rng(st, rv)
            if r[0] == r[1] == 0:
                if not d:
                    eng.report(i, "%s() can end before all submitted requests have completed" % fn.name, st)
                st.prop = (False, True, 1)
            else:
                eng.report(i, "%s() can report failure after taking requests" % fn.name, st)
        if fn.name == self.entry and eng.stack == [fn.name]:
            self.leaves += 1
            if n != 1:
                eng.report(i, "%s() can end without running a worker loop" % self.entry, st)


class ProducerRule(Base):
    """ioq_stat() and the like. prop = (request state, pushed, buffer state, cancel token)"""
    name = "producer"

    def __init__(self, S, entry, want):
        super().__init__(S, entry)
        self.want = want        # argument number -> offset
        self.kents, self.kx = self.m.field("ioq", "ents"), self.m.field("ioq", "xbufs")
        self.atok = None

    def init(self):
        return (None, 0, None, None)

    def tokens(self, prop):
        return [("nent",), ("size0",), self.atok] + ([prop[3]] if prop[3] else [])

    def rename(self, prop, mp):
        if prop[3] in mp:
            v = mp[prop[3]]
            return prop[:3] + (v[1] if v[0] == "s" else None,)
        return prop

    def inline(self, eng, fn, depth):
        return fn.name in self.S.unit and fn.name not in self.S.prims

    def load(self, eng, st, i, loc, v, ctx):
        super().load(eng, st, i, loc, v, ctx)
        if loc[1] == self.S.cancel and v[0] == "s":
            st.prop = st.prop[:3] + (v[1],)

    def call(self, eng, st, i, name, args, ctx):
        S = self.S
        e, pushed, buf, cancel = st.prop
        if name == "arena_alloc":
            a = eng.addr(st, args[0])
            isx = self.kx is not None and a == (("t", self.atok), self.kx[1])
            good = st.copy()
            v = eng.fresh(good, ("xbuf",) if isx else ("nent",), (1, INF, frozenset()))
            good.prop = (e, pushed, "live", cancel) if isx else ("live", pushed, buf, cancel)
            st.trail = ("%s: allocation fails" % i.loc(), st.trail)
            return [(good, v), (st, ("k", 0))]
        if name == "arena_free":
            v = args[1]
            if v == ("s", ("nent",)):
                if e != "live" or pushed:
                    eng.report(i, "%s() can free a request that is in use" % self.entry, st)
                st.prop = ("freed",) + st.prop[1:]
            elif v == ("s", ("xbuf",)):
                st.prop = st.prop[:2] + ("freed", cancel)
            return [(st, ("k", 0))]
        if name in S.push:
            v, q = S.arg(name, ENT, args), S.arg(name, "struct ioqq*", args)
            if self.role(q) == "ready":
                eng.report(i, "%s() can put a request into the queue of answers" % self.entry, st)
            if v != ("s", ("nent",)) or e != "live":
                eng.report(i, "%s() can queue something else than its request" % self.entry, st)
            elif pushed:
                eng.report(i, "%s() can queue its request twice" % self.entry, st)
            else:
                self.fields(eng, st, i)
            st.prop = (e, 1, buf, cancel)
            return [(st, ("k", 0))]
        if name in S.flush:
            return [(st, ("k", 0))]
        return None

    def fields(self, eng, st, i):
        S = self.S
        b = ("t", ("nent",))
        o = self.entry.split("_")[-1].upper()
        v = eng.peek(st, b, S.op)
        if v is None or eng.rng(st, v)[:2] != (S.ops[o], S.ops[o]):
            eng.report(i, "%s() can queue a request for another operation" % self.entry, st)
        for n, off in self.want.items():
            if eng.peek(st, b, off) != ("s", self.args[n]):
                eng.report(i, "%s() can queue a request without its argument %d" % (self.entry, n + 1), st)
        if o == "STAT" and self.kx is not None:
            x = eng.peek(st, b, S.args["STAT"]["xbuf"])
            if x is None or eng.isnull(st, x) is not False:
                eng.report(i, "%s() can queue a request without a buffer" % self.entry, st)

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name]:
            return
        self.leaves += 1
        i = self.ret(fn)
        e, pushed, buf, cancel = st.prop
        r = eng.rng(st, rv)
        size = eng.peek(st, ("t", self.atok), self.S.size[1])
        if r[0] == r[1] == 0:
            if not pushed:
                eng.report(i, "%s() can report success without queueing the request" % self.entry, st)
            if cancel is None or eng.rng(st, ("s", cancel))[:2] != (0, 0):
                eng.report(i, "%s() can accept a request after the queue was cancelled" % self.entry, st)
            if size != ("s", ("+", ("size0",), 1)):
                eng.report(i, "%s() can accept a request without counting it" % self.entry, st)
        elif r[1] < 0:
            if pushed:
                eng.report(i, "%s() can report failure after queueing the request" % self.entry, st)
            elif e == "live":
                eng.report(i, "%s() can leak a request it could not queue" % self.entry, st)
            if size is not None and size != ("s", ("size0",)):
                eng.report(i, "%s() can count a request it could not queue" % self.entry, st)
        else:
            eng.report(i, "%s() can return something else than success or failure" % self.entry, st)


class ConsumerRule(Base):
    """Whoever pops answers. prop = None / 'live' / 'freed'"""
    name = "consumer"

    def __init__(self, S, entry):
        super().__init__(S, entry)
        self.pops = 0

    def tokens(self, prop):
        return [("cent",)] if prop else []

    def inline(self, eng, fn, depth):
        return fn.name not in ("ioq_pop", "ioq_free") and ENT in fn.dtypes[1:]

    def touch(self, eng, st, i, loc):
        a = eng.addr(st, loc[0])
        if a and st.prop == "freed" and a[0] == ("t", ("cent",)):
            eng.report(i, "%s() can use an answer after freeing it" % self.entry, st)

    def load(self, eng, st, i, loc, v, ctx):
        self.touch(eng, st, i, loc)

    def store(self, eng, st, i, loc, v, ctx):
        self.touch(eng, st, i, loc)

    def call(self, eng, st, i, name, args, ctx):
        if name == "ioq_pop":
            self.pops += 1
            if st.prop == "live":
                eng.report(i, "%s() can take another answer without freeing the one it has" % self.entry, st)
            good = st.copy()
            eng.effect(good, i, name, args, ctx)
            v = eng.fresh(good, ("cent",), (1, INF, frozenset()))
            good.prop = "live"
            eng.effect(st, i, name, args, ctx)
            return [(good, v), (st, ("k", 0))]
        if name == "ioq_free":
            if args[1] != ("s", ("cent",)) or st.prop is None:
                eng.report(i, "%s() can free something else than the answer it took" % self.entry, st)
            elif st.prop == "freed":
                eng.report(i, "%s() can free an answer twice" % self.entry, st)
            st.prop = "freed"
            eng.effect(st, i, name, args, ctx)
            return [(st, ("k", 0))]
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name]:
            return
        self.leaves += 1
        if st.prop == "live":
            eng.report(self.ret(fn), "%s() can return without freeing the answer it took" % self.entry, st)


class PopRule(Base):
    """ioq_pop() itself never waits when nothing is outstanding."""
    name = "pop"

    def inline(self, eng, fn, depth):
        return False

    def call(self, eng, st, i, name, args, ctx):
        S = self.S
        if name in S.pop:
            self.leaves += 1
            if self.role(S.arg(name, "struct ioqq*", args)) == "pending":
                eng.report(i, "%s() can take an answer from the queue of pending requests" % self.entry, st)
            v = eng.peek(st, ("t", ("arg", ctx, 0)), S.size[1])
            if v is None or eng.isnull(st, v) is not False and eng.rng(st, v)[0] <= 0:
                eng.report(i, "%s() can wait for an answer although no request is outstanding" % self.entry, st)
        return None


class CancelRule(Base):
    """ioq_cancel() stops the workers exactly once. prop = (previous value of the flag, pushed, flushed)"""
    name = "cancel"

    def init(self):
        return (None, 0, 0)

    def tokens(self, prop):
        return [prop[0]] if prop[0] else []

    def rename(self, prop, mp):
        if prop[0] in mp:
            v = mp[prop[0]]
            return (v[1] if v[0] == "s" else None,) + prop[1:]
        return prop

    def inline(self, eng, fn, depth):
        return fn.name in self.S.unit and fn.name not in self.S.prims

    def atomic(self, eng, st, i, ctx, ok):
        if eng.keyof(i, i.ops[0]) == self.S.cancel:
            v = eng.val(st, i.fn, ctx, ("i", i.id))
            st.prop = (v[1] if v[0] == "s" else None,) + st.prop[1:]

    def call(self, eng, st, i, name, args, ctx):
        S = self.S
        p = st.prop
        if name in S.push:
            v, q, b = S.arg(name, ENT, args), S.arg(name, "struct ioqq*", args), S.arg(name, "struct ioq_batch*", args)
            if not self.isstop(v) or self.role(q) == "ready":
                eng.report(i, "%s() can send something else than a stop request" % self.entry, st)
            st.prop = (p[0], p[1] + 1 if p[1] < 2 else 2, 0 if b is not None else 1)
            return [(st, ("k", 0))]
        if name in S.flush:
            st.prop = (p[0], p[1], 1)
            return [(st, ("k", 0))]
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name]:
            return
        self.leaves += 1
        prev, n, fl = st.prop
        i = self.ret(fn)
        if prev is None:
            eng.report(i, "%s() can return without setting the cancellation flag" % self.entry, st)
            return
        r = eng.rng(st, ("s", prev))
        if r[1] == 0 and (n != 1 or not fl):
            eng.report(i, "%s() can return without sending exactly one stop request" % self.entry, st)
        elif r[1] != 0 and n:
            eng.report(i, "%s() can send a stop request more than once" % self.entry, st)


class DestroyRule(Base):
    """ioq_destroy(): cancel, join, then release. prop = (cancelled, released)"""
    name = "destroy"

    def init(self):
        return (False, False)

    def inline(self, eng, fn, depth):
        return fn.name in self.S.unit and "thread_join" in self.m.cg[fn.name]

    def call(self, eng, st, i, name, args, ctx):
        if name == "ioq_cancel":
            st.prop = (True, st.prop[1])
        elif name in ("thread_join", "pthread_join"):
            self.leaves += 1
            if not st.prop[0]:
                eng.report(i, "%s() can wait for a worker that was not told to stop" % self.entry, st)
            if st.prop[1]:
                eng.report(i, "%s() can release the queue while workers are running" % self.entry, st)
        elif name in ("free", "arena_destroy") or self.m.defined.get(name) is not None and self.m.defined[name].dtypes == ["void", "struct ioqq*"]:
            st.prop = (st.prop[0], True)
        return None


class BatchRule(Base):
    """ioq_batch_push() and ioq_batch_flush(). prop = (stored, flushed/sent)"""
    name = "batch"

    def __init__(self, S, entry, kind):
        super().__init__(S, entry)
        self.kind = kind
        self.kt = self.m.field("ioq_batch", "tail")
        self.atok = None
        self.enttok = None
        self.qtok = None
        f = self.m.types["struct.ioq_batch"]["fields"]
        self.cap = [sz // 8 for n, off, sz, dt in f if n == "entries"][0]
        self.ent0 = [off for n, off, sz, dt in f if n == "entries"][0]

    def init(self):
        return (0, 0)

    def tokens(self, prop):
        return [self.atok]

    def inline(self, eng, fn, depth):
        return fn.name in self.S.reset

    def store(self, eng, st, i, loc, v, ctx):
        a = eng.addr(st, loc[0])
        if self.enttok and v == ("s", self.enttok) and a and a[0] == ("t", self.atok):
            st.prop = (min(st.prop[0] + 1, 2), st.prop[1])

    def call(self, eng, st, i, name, args, ctx):
        if self.kind == "push" and name in self.S.flush:
            if args != [("s", self.qtok), ("s", self.atok)]:
                eng.report(i, "%s() can flush another batch or to another queue" % self.entry, st)
            st.prop = (st.prop[0], 1)
            return [(st, ("k", 0))]
        f = self.m.defined.get(name)
        if self.kind == "flush" and f is not None and "struct ioqq*" in f.dtypes and "struct ioq_ent**" in f.dtypes:
            t = eng.peek(st, ("t", self.atok), self.kt[1])
            want = [("s", self.qtok), ("p", ("t", self.atok), self.ent0), t]
            if args[:3] != want:
                eng.report(i, "%s() can send something else than the entries of the batch" % self.entry, st)
            st.prop = (st.prop[0], min(st.prop[1] + 1, 2))
            return [(st, ("k", 0))]
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name]:
            return
        self.leaves += 1
        i = self.ret(fn)
        t = eng.peek(st, ("t", self.atok), self.kt[1])
        hi = eng.rng(st, t)[1] if t is not None else INF
        if self.kind == "push":
            if st.prop[0] != 1:
                eng.report(i, "%s() can return without adding the entry exactly once" % self.entry, st)
            if not st.prop[1] and hi >= self.cap:
                eng.report(i, "%s() can leave a full batch unsent" % self.entry, st)
        elif hi != 0:
            eng.report(i, "%s() can return with entries still in the batch" % self.entry, st)
        elif st.prop[1] > 1:
            eng.report(i, "%s() can send a batch twice" % self.entry, st)


def check(m, R):
    R.rule("every function that takes requests from the pending queue or completions from the ring is followed path by path, once per kind of request, "
           "with the request's own fields as symbols: it is performed with exactly those fields (or cancelled with -EINTR where the cancellation flag was "
           "seen set; CLOSE and CLOSEDIR never), its result has the sign of the outcome, and it is answered exactly once before the next one is taken or "
           "the worker returns")
    R.rule("a worker blocks for new requests only when it holds no unsent answers and nothing prepared or submitted; the stop sentinel is passed on and "
           "ends the worker, which flushes its answers")
    R.rule("ring helpers send answers after reaping, count what they submit, and submit everything prepared; the worker thread runs exactly one loop to its end")
    R.rule("the request functions queue exactly one fully described request on success and release everything on failure; cancellation sends one stop; "
           "consumers free each answer once; the queue is released after its workers were joined; batches are neither overfilled nor dropped")
    S = Shape(m, R)
    n = 0

    def run(rule, entry, setup=None):
        eng = Engine(m, rule)
        eng.run(entry, setup)
        R.engine(eng, rule.name)
        R.obligation("%s: %s()" % (rule.name, entry))
        return eng
    taken = answers = performed = 0
    for t in sorted(S.takers):
        r = WorkerRule(S, t)

        def setup(eng, st, args, ctx, r=r):
            if r.ring is not None:
                r.ringtok = ("arg", ctx, r.ring)
        run(r, t, setup)
        R.require(r.leaves, "%s() does not return" % t)
        taken, answers, performed = taken + r.taken, answers + r.answers, performed + r.performed
    uring = any("io_uring_cqe_get_data" in m.cg[t] for t in S.takers)
    R.minimum("functions that take requests", len(S.takers), 3 if uring else 1)
    R.count("requests taken", taken)
    R.count("answers", answers)
    R.count("operations performed", performed)
    # ring helpers, innermost first
    clean = set()
    todo = [n for n in S.unit & S.reach if "struct ioq_ring_state*" in m.defined[n].dtypes and n not in S.takers and ENT not in m.defined[n].dtypes]
    cq = direct_reach(m, {"io_uring_cqe_get_data"})
    todo = [n for n in todo if n in cq]
    progress = True
    while todo and progress:
        progress = False
        for n in sorted(todo):
            if any(c in todo for c in m.cg[n]):
                continue
            r = RingRule(S, n, clean)

            def setup(eng, st, args, ctx, r=r, n=n):
                r.tok = ("arg", ctx, m.defined[n].dtypes.index("struct ioq_ring_state*") - 1)
            eng = run(r, n, setup)
            if not any("were not sent" in k[2] for k in eng.reports):
                clean.add(n)
            todo.remove(n)
            progress = True
    # the threads
    roots = set()
    for c in m.callsites.get("thread_create", []) + m.callsites.get("pthread_create", []):
        for a in c.args:
            if a[0] == "f" and a[1] in S.unit:
                roots.add(a[1])
    R.minimum("worker threads", len(roots), 1)
    for t in sorted(roots):
        r = ThreadRule(S, t)
        run(r, t)
        R.require(r.leaves and r.events, "%s() runs no worker loop" % t)
    # producers
    want = {"nop": ("type", "ptr"), "close": ("fd", "ptr"), "opendir": ("dir", "dfd", "path", "flags", "ptr"), "closedir": ("dir", "ptr"),
            "stat": ("dfd", "path", "flags", "buf", "ptr")}
    for k, names in want.items():
        fn = "ioq_" + k
        R.require(fn in m.defined and len(m.defined[fn].params) == len(names) + 1, "%s() vanished" % fn)
        offs = {j + 1: S.ptr if x == "ptr" else S.args[k.upper()][x] for j, x in enumerate(names)}
        r = ProducerRule(S, fn, offs)

        def setup(eng, st, args, ctx, r=r):
            r.args = {j: ("arg", ctx, j) for j in range(len(args))}
            r.atok = r.args[0]
            v = eng.fresh(st, ("size0",), (0, INF, frozenset()))
            st.mem[(("t", r.atok), S.size[1])] = (v, S.size, "i64")
        run(r, fn, setup)
        R.require(r.leaves >= 2, "%s() is not analysable" % fn)
    # consumers
    cons = sorted({c.fn.name for c in m.callsites.get("ioq_pop", [])})
    R.minimum("consumers of answers", len(cons), 1)
    for c in cons:
        r = ConsumerRule(S, c)
        run(r, c)
        R.require(r.pops and r.leaves, "%s() is not analysable" % c)
    for fn, cls in (("ioq_pop", PopRule), ("ioq_cancel", CancelRule), ("ioq_destroy", DestroyRule)):
        R.require(fn in m.defined, "%s() vanished" % fn)
        r = cls(S, fn)
        run(r, fn)
        R.require(r.leaves, "%s() is not analysable" % fn)
    for fn in sorted(S.push | S.flush):
        d = m.defined[fn].dtypes
        if "struct ioq_batch*" not in d:
            continue
        r = BatchRule(S, fn, "push" if fn in S.push else "flush")

        def setup(eng, st, args, ctx, r=r, d=d):
            r.atok = ("arg", ctx, d.index("struct ioq_batch*") - 1)
            r.qtok = ("arg", ctx, d.index("struct ioqq*") - 1)
            r.enttok = ("arg", ctx, d.index(ENT) - 1) if ENT in d else None
        run(r, fn, setup)
    R.assume("liburing's inline helpers do what their names say; a completed request's data pointer is the one attached when it was submitted")
    R.assume("bfs_opendir(), bfs_stat(), bfs_closedir(), xclose() and bfs_statx_convert() report failure with -1 and a positive errno (C03 covers the first four)")

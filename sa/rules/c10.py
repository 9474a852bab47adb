"""C10: signal hooks stay registered until removed, and are never freed while a handler may be using them."""
from ..engine import Rule, Engine
from ..demand import demand_run
from .execcommon import direct_reach
from .c06 import handlers

REL = {"release", "acq_rel", "seq_cst"}
ACQ = {"acquire", "acq_rel", "seq_cst"}
LOCKS = {"pthread_mutex_lock", "pthread_mutex_unlock"}


def tokmap(mp):
    def f(t):
        v = mp.get(t)
        return t if v is None else v[1] if v[0] == "s" else None
    return f


class ReaderRule(Rule):
    """prop = (references held, tokens of nodes read from the list)"""
    name = "reader"
    maxstates = 24
    budget = 1000000
    inline_depth = 6

    def __init__(self, m, fns):
        self.m = m
        self.refs = m.field("arc", "refs")
        self.ptr = m.field("arc", "ptr")
        self.inl = fns
        self.gets = set()
        self.puts = set()

    def init(self):
        return (0, frozenset())

    def tokens(self, prop):
        return set(prop[1])

    def rename(self, prop, mp):
        return (prop[0], frozenset(x for x in map(tokmap(mp), prop[1]) if x))

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def atomic(self, eng, st, i, ctx, ok):
        if not ok or eng.keyof(i, i.ops[0]) != self.refs:
            return
        n, nodes = st.prop
        if i.op == "cmpxchg":
            self.gets.add(i.loc())
            if i.order not in ACQ:
                eng.report(i, "a handler takes a reference without acquire order, so it may see a hook that is not initialised yet", st)
            old = eng.val(st, i.fn, ctx, i.ops[1])
            r = eng.rng(st, old)
            if not (r[0] >= 1 or 0 in r[2]):
                eng.report(i, "a handler can take a reference to a slot that has none left (it may be freed)", st)
            n += 1
        elif i.rmw == "sub":
            self.puts.add(i.loc())
            if i.order not in REL:
                eng.report(i, "a handler drops its reference without release order: the hook may be freed while it is still being read", st)
            n -= 1
        elif i.rmw == "add":
            eng.report(i, "a handler takes a reference without checking that the slot still has one", st)
            n += 1
        st.prop = (max(-2, min(n, 3)), nodes)

    def use(self, eng, st, i, p):
        a = eng.addr(st, p)
        if a and a[0][0] == "t" and a[0][1] in st.prop[1] and st.prop[0] <= 0:
            eng.report(i, "a handler uses a hook without holding a reference to it", st)

    def load(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.ptr:
            if st.prop[0] <= 0:
                eng.report(i, "a handler reads the list without holding a reference", st)
            if v[0] == "s":
                eng.assumecmp(st, "ne", v, ("k", 0))    # a slot with references is never empty
                st.prop = (st.prop[0], st.prop[1] | {v[1]})
            return
        if loc[1][0] == "struct.arc":
            return      # the count itself keeps its slot alive
        self.use(eng, st, i, loc[0])

    def call(self, eng, st, i, name, args, ctx):
        for a in args:
            if a[0] in ("s", "p") and name not in self.inl and not name.startswith("sem_"):
                self.use(eng, st, i, a)
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if ctx == 0 and st.prop[0] != 0:
            ret = next(b[-1] for b in fn.blocks if b[-1].op == "ret")
            eng.report(ret, "a handler %s" % ("leaves holding a reference: whoever removes the hook waits forever" if st.prop[0] > 0
                                              else "drops a reference it does not hold"), st)


class WriterRule(Rule):
    """prop = (held, drain, acquired, ptrset, removed, published, updates)"""
    name = "writer"
    maxstates = 16
    budget = 2000000
    inline_depth = 8

    def __init__(self, m, mode, inl, upd, rem):
        self.m = m
        self.mode = mode        # lock: lock discipline; drain: publication and draining; free: removal before free
        self.maxstates = 2 if mode == "lock" else 16
        self.inl = inl
        self.upd = upd
        self.rem = rem[0]
        self.app = rem[1]
        self.refs = m.field("arc", "refs")
        self.ptr = m.field("arc", "ptr")
        self.active = m.field("rcu", "active")
        self.guarded = {m.field("rcu_list", "tail"), m.field("rcu_node", "self"), self.ptr, self.active}
        self.writes = set()
        self.frees = set()
        self.drains = set()

    def init(self):
        # held, drain state, acquire seen, arc whose pointer was just set, removed nodes, published nodes
        return (False, None, False, None, frozenset(), frozenset())

    def tokens(self, prop):
        out = set()
        d = prop[1]
        if d and d[0] == "sub":
            out |= {t for k, t in d[1] if t}
        for p in prop[4] | prop[5]:
            if p[0] == "t":
                out.add(p[1])
        return out

    def rename(self, prop, mp):
        f = tokmap(mp)
        held, d, acq, ps, rem, pub = prop
        if d and d[0] == "sub":
            d = ("sub", tuple((k, f(t) if t else None) for k, t in d[1]))

        def b(x):
            return ("t", f(x[1])) if x[0] == "t" else x
        return (held, d, acq, ps, frozenset(map(b, rem)), frozenset(map(b, pub)))

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def atomic(self, eng, st, i, ctx, ok):
        if not ok or self.mode != "drain":
            return
        k = eng.keyof(i, i.ops[0])
        if k != self.refs:
            return
        held, d, acq, ps, rem, pub = st.prop
        if i.op == "atomicrmw" and i.rmw == "sub":
            self.drains.add(i.loc())
            v = st.env.get((ctx, "i", i.id))
            st.prop = (held, ("sub", (("one", v[1] if v and v[0] == "s" else None),)), i.order in ACQ, ps, rem, pub)

    def drained(self, eng, st):
        d = st.prop[1]
        if d is None:
            return True
        if d[0] != "sub":
            return False
        for k, t in d[1]:
            if t is None:
                continue
            r = eng.rng(st, ("s", t))
            want = 1 if k == "one" else 0
            if r[0] == r[1] == want:
                return True
            if k == "one":
                c = st.cons.get(("+", t, -1))
                if c and c[0] == c[1] == 0 or c and c[1] <= 0:
                    return True
        return False

    def semdone(self, eng, st):
        d = st.prop[1]
        return bool(d and d[0] == "sub" and any(k == "sem" and t and eng.rng(st, ("s", t))[:2] == (0, 0) for k, t in d[1]))

    def settle(self, eng, st, i, what):
        if st.prop[1] is None:
            return
        if not self.drained(eng, st):
            msg = "the old list contents are %s although handlers may still be using them" % what if st.prop[1][0] == "sub" else \
                "the list was changed, but handlers still using its old contents are not waited for before they are %s" % what
            eng.report(i, msg, st)
        elif not st.prop[2] and not self.semdone(eng, st):
            eng.report(i, "after waiting for handlers there is no acquire operation before the old list contents are %s" % what, st)
        st.prop = (st.prop[0], None, False) + st.prop[3:]

    def instr(self, eng, st, i, ctx):
        if i.op == "fence" and i.order in ACQ and self.mode == "drain":
            st.prop = st.prop[:2] + (True,) + st.prop[3:]

    def load(self, eng, st, i, loc, v, ctx):
        held, d, acq, ps, rem, pub = st.prop
        if loc[1] == self.refs and d and d[0] == "sub" and v[0] == "s":
            d = ("sub", (d[1] + (("zero", v[1]),))[-3:])
            st.prop = (held, d, acq or i.order in ACQ, ps, rem, pub)
        elif loc[1] == self.ptr and d and d[0] == "sub":
            self.settle(eng, st, i, "taken over")

    def store(self, eng, st, i, loc, v, ctx):
        held, d, acq, ps, rem, pub = st.prop
        k = loc[1]
        if k in self.guarded:
            self.writes.add(i.loc())
            if not held and self.mode == "lock":
                eng.report(i, "a hook list is modified without holding the lock", st)
        if self.mode != "drain":
            return
        if k == self.ptr:
            a = eng.addr(st, loc[0])
            st.prop = (held, d, acq, a[0] if a else ("?",), rem, pub)
        elif k == self.refs and i.order:
            r = eng.rng(st, v)
            if not (r[0] == r[1] == 0):
                if i.order not in REL:
                    eng.report(i, "a list slot is made available to handlers without release order", st)
                a = eng.addr(st, loc[0])
                if ps is None or a and a[0] != ps:
                    eng.report(i, "a list slot is made available to handlers before its contents are set", st)
        elif k == self.active and i.order:
            st.prop = (held, ("upd",), False, ps, rem, pub)

    def post_call(self, eng, st, i, name, args, rv, ctx):
        held, d, acq, ps, rem, pub = st.prop
        if name == "sem_wait" and d and d[0] == "sub" and rv[0] == "s":
            st.prop = (held, ("sub", (d[1] + (("sem", rv[1]),))[-3:]), acq, ps, rem, pub)

    def call(self, eng, st, i, name, args, ctx):
        held, d, acq, ps, rem, pub = st.prop
        if self.mode == "lock" and name == "pthread_mutex_lock":
            if held:
                eng.report(i, "the lock is taken twice", st)
            st.prop = (True,) + st.prop[1:]
            return [(st, ("k", 0))]
        if self.mode == "lock" and name == "pthread_mutex_unlock":
            if not held:
                eng.report(i, "the lock is released twice", st)
            st.prop = (False,) + st.prop[1:]
            return [(st, ("k", 0))]
        if self.mode == "drain" and name == "free":
            self.settle(eng, st, i, "freed")
        if self.mode != "free":
            return None
        if name in self.rem:
            a = eng.addr(st, args[1])
            if a:
                st.prop = st.prop[:4] + (rem | {a[0]}, pub)
        elif name in self.app:
            a = eng.addr(st, args[1])
            if a:
                st.prop = st.prop[:5] + (pub | {a[0]},)
        elif name == "free":
            a = eng.addr(st, args[0])
            if a and eng.isnull(st, args[0]) is not True:
                self.frees.add(i.loc())
                fresh = a[0][0] == "t" and a[0][1] and a[0][1][0] == "r" and a[0] not in st.prop[5]
                if a[0] not in st.prop[4] and not fresh:
                    eng.report(i, "a hook is freed without having been removed from its list", st)
        return None

    def leave(self, eng, st, fn, rv, ctx):
        ret = next(b[-1] for b in fn.blocks if b[-1].op == "ret")
        if fn.name in self.upd or ctx == 0:
            self.settle(eng, st, ret, "handed back")
        if ctx == 0 and st.prop[0]:
            eng.report(ret, "the lock is still held on return", st)


class ShapeRule(Rule):
    """Post-conditions of one list operation. prop = ((target, published), ...)"""
    name = "shape"
    maxstates = 40

    def __init__(self, m, upd, inl):
        self.m = m
        self.upd = upd
        self.inl = inl
        self.tail = m.field("rcu_list", "tail")
        self.self = m.field("rcu_node", "self")
        self.next = m.field("rcu_node", "next")
        self.kinds = set()

    def init(self):
        return ()

    def tokens(self, prop):
        out = set()
        for t, p in prop:
            for v in (t, p):
                if v[0] == "s":
                    out.add(v[1])
                elif v[0] == "p" and v[1][0] == "t":
                    out.add(v[1][1])
        return out | {("entry tail",), ("entry self",), self.lst[1], self.node[1]}

    def rename(self, prop, mp):
        from ..engine import vsub
        return tuple((vsub(t, mp) or ("gone",), vsub(p, mp) or ("gone",)) for t, p in prop)

    def inline(self, eng, fn, depth):
        return fn.name in self.inl and fn.name not in self.upd

    def call(self, eng, st, i, name, args, ctx):
        if name in self.upd:
            st.prop = (st.prop + ((args[0], args[1]),))[-2:]
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if ctx != 0:
            return
        ret = next(b[-1] for b in fn.blocks if b[-1].op == "ret")
        if not st.prop:
            eng.report(ret, "the list operation can end without updating the list", st)
            return
        target, pub = st.prop[-1]
        lst, node = self.lst, self.node
        cell = lambda v, off: eng.peek(st, *(lambda a: (a[0], (a[1] or 0) + off))(eng.addr(st, v))) if eng.addr(st, v) else None
        if eng.norm(st, pub) == node:
            self.kinds.add("append")
            if target != ("s", ("entry tail",)):
                eng.report(ret, "a new hook is not linked after the last one", st)
            if cell(lst, self.tail[1]) != ("p", ("t", node[1]), self.next[1]):
                eng.report(ret, "after a hook was added, the list does not end with it", st)
            if cell(node, self.self[1]) != ("s", ("entry tail",)):
                eng.report(ret, "after a hook was added, it does not know its predecessor", st)
        else:
            self.kinds.add("remove")
            if target != ("s", ("entry self",)):
                eng.report(ret, "removing a hook does not unlink it from its predecessor", st)
            nul = eng.isnull(st, pub)
            if nul is True or nul is None:
                if cell(lst, self.tail[1]) != ("s", ("entry self",)):
                    eng.report(ret, "after the last hook was removed, the list does not end with the one before it, so adding another hook drops or loses hooks", st)
            if nul is False or nul is None:
                if cell(pub, self.self[1]) != ("s", ("entry self",)):
                    eng.report(ret, "after a hook was removed, its successor still refers to it as its predecessor", st)


def check(m, R):
    R.rule("handler side, path-sensitive: every reference is taken by an acquire compare-exchange from a non-zero count, hooks are read only while one is held, every one is dropped "
           "exactly once with release order")
    R.rule("writer side, path-sensitive from every exported function: list fields are written only with the lock held, the lock is released on all paths, a slot is published with release "
           "order after its pointer was set, after the active slot changed the old one is drained (count or semaphore known to be zero, with acquire) before it is reused or freed, "
           "and a hook is freed only after it was removed")
    R.rule("list shape: after an append the list ends with the new node, linked to the previous end; after a removal the successor, or else the list's end, takes the removed node's place")
    refs, ptr, active = m.field("arc", "refs"), m.field("arc", "ptr"), m.field("rcu", "active")
    tail, self_ = m.field("rcu_list", "tail"), m.field("rcu_node", "self")
    R.require(all((refs, ptr, active, tail, self_)), "the hook list types vanished")
    storefns = {s.fn.name for k in (ptr, active, tail, self_) for s in m.storemap.get(k, [])}
    files = {m.defined[f].file for f in storefns}
    atomfns = {f.name for f in m.defined.values() for b in f.blocks for i in b if i.op in ("cmpxchg", "atomicrmw") and m.ptrkey(f, i.ops[0]) == refs}
    R.require(storefns and atomfns, "no list operations found")
    upd = {s.fn.name for s in m.storemap.get(active, []) if s.order}
    R.require(upd, "no function switches the active slot")
    # readers: everything reachable from handlers, and any function reading without modifying
    reach_w = direct_reach(m, storefns)
    hs = set(m.reach(sorted(handlers(m)), stop={n for n, f in m.defined.items() if f.noreturn}))
    casfns = {f for f in atomfns if any(i.op == "cmpxchg" for b in m.defined[f].blocks for i in b)}
    rd = {f for f in atomfns if f in hs or f in casfns}
    inl = direct_reach(m, atomfns | {f.name for f in m.defined.values() for b in f.blocks for i in b if i.op == "load" and m.ptrkey(f, i.ops[0]) in (ptr, active)})
    small = {f for f in m.defined if m.defined[f].file in files}
    rules = demand_run(m, R, rd, lambda: ReaderRule(m, (inl | leaf(m, small)) & small - set(handlers(m))), "reader", limit=20, maxdepth=5,
                       stop=lambda f: f in handlers(m))
    gets = set().union(*(r.gets for _, r in rules))
    puts = set().union(*(r.puts for _, r in rules))
    for x in sorted(gets | puts):
        R.obligation("%s: handler-side reference" % x)
    R.minimum("references taken", len(gets), 1)
    R.minimum("references dropped", len(puts), 1)
    # list operations
    ops = []
    for f in m.defined.values():
        d = f.dtypes
        if "struct rcu_list*" in d and "struct rcu_node*" in d and f.name in direct_reach(m, upd) and len(d) == 3:
            ops.append(f)
    kinds = set()
    rem = set()
    app = set()
    for f in ops:
        rule = ShapeRule(m, upd, direct_reach(m, upd) | {s.fn.name for k in (tail, self_) for s in m.storemap.get(k, [])})
        ln, nn = f.dtypes.index("struct rcu_list*") - 1, f.dtypes.index("struct rcu_node*") - 1
        eng = Engine(m, rule)

        def setup(eng, st, args, ctx):
            rule.lst, rule.node = args[ln], args[nn]
            st.mem[(("t", args[ln][1]), tail[1])] = (("s", ("entry tail",)), tail, "ptr")
            st.mem[(("t", args[nn][1]), self_[1])] = (("s", ("entry self",)), self_, "ptr")
        eng.run(f.name, setup)
        R.engine(eng, "shape")
        kinds |= rule.kinds
        if "remove" in rule.kinds and "append" not in rule.kinds:
            rem.add(f.name)
        if "append" in rule.kinds:
            app.add(f.name)
        R.obligation("%s:%s: %s(): %s" % (f.file, f.line, f.name, "/".join(sorted(rule.kinds))))
    R.require(kinds == {"append", "remove"} or R.viol, "list operations not recognised (%s)" % sorted(kinds))
    # writers
    icalled = set(m.icallers)
    roots = [f for f in sorted(reach_w) if f in m.defined and m.defined[f].file in files and (not m.defined[f].local or f in icalled)]
    R.require(roots, "no exported function modifies hook lists")
    nw = nf = nd = 0
    linl = (direct_reach(m, storefns | LOCKS)) - casfns
    for f in roots:
        rule = WriterRule(m, "lock", linl, upd, (rem, app))
        eng = Engine(m, rule)
        eng.run(f)
        R.engine(eng, "lock")
        for x in sorted(rule.writes):
            R.obligation("%s: list update on the paths of %s()" % (x, f))
        nw += len(rule.writes)
    dinl = (direct_reach(m, storefns | atomfns | {"sem_wait"}) | leaf(m, small)) - casfns
    subs = {f for f in atomfns if f not in casfns and f not in hs}
    pubs = {s.fn.name for s in m.storemap.get(refs, []) if s.order}
    rules = demand_run(m, R, upd | subs | pubs, lambda: WriterRule(m, "drain", dinl, upd, (rem, app)), "drain", limit=10, maxdepth=2)
    for f, rule in rules:
        for x in sorted(rule.drains):
            R.obligation("%s: drain on the paths of %s()" % (x, f))
        nd += len(rule.drains)
    ff = {c.fn.name for c in m.callsites.get("free", []) if c.fn.name in reach_w and c.fn.file in files}
    finl = direct_reach(m, {"free"}) & small - storefns
    rules = demand_run(m, R, ff, lambda: WriterRule(m, "free", finl, upd, (rem, app)), "free", limit=10, maxdepth=1)
    for f, rule in rules:
        for x in sorted(rule.frees):
            R.obligation("%s: hook freed on the paths of %s()" % (x, f))
        nf += len(rule.frees)
    R.minimum("list writes", nw, 4)
    R.minimum("frees", nf, 1)
    R.minimum("drains", nd, 1)


def leaf(m, fns):
    """Small helpers without calls into the rest of the program."""
    return {f for f in fns if sum(len(b) for b in m.defined[f].blocks) < 40 and not m.defined[f].noreturn}

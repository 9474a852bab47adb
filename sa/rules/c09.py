"""C09: I/O queue slots: publication order and no lost wakeups."""
from ..engine import Rule, Engine
from ..demand import demand_run
from ..patterns import path_avoiding
from ..util import Tracer, dominators
from .execcommon import direct_reach

REL = {"release", "acq_rel", "seq_cst"}
ACQ = {"acquire", "acq_rel", "seq_cst"}
SYNC = {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_cond_wait", "pthread_cond_timedwait",
        "pthread_cond_broadcast", "pthread_cond_signal"}
BLOCKED = 1


def slot_ptr(m, fn, op, seen=None):
    """Does this pointer lead into the slot array of the queue?"""
    seen = seen if seen is not None else set()
    if op[0] == "a":
        if (fn.name, op[1]) in seen:
            return False
        seen.add((fn.name, op[1]))
        if op[1] + 1 < len(fn.dtypes) and fn.dtypes[op[1] + 1] == "ioq_slot*":
            return True
        return any(op[1] < len(c.args) and slot_ptr(m, c.fn, c.args[op[1]], seen) for c in m.callsites.get(fn.name, []))
    if op[0] != "i" or (fn.name, "i", op[1]) in seen:
        return False
    seen.add((fn.name, "i", op[1]))
    i = fn.instrs[op[1]]
    if i.op == "getelementptr":
        key = m.field("ioqq", "slots")
        if (i.st, i.off) == key:
            return True
        return slot_ptr(m, fn, i.ops[0], seen)
    if i.op == "phi":
        return any(slot_ptr(m, fn, v, seen) for v, _ in i.phis)
    if i.op == "select":
        return any(slot_ptr(m, fn, v, seen) for v in i.ops[1:])
    if i.op == "call":
        for c in m.callees(i):
            f = m.defined.get(c)
            if f and f.dtypes and f.dtypes[0] == "ioq_slot*":
                return True
    return False


def pointerish(m, fn, op, seen=None):
    """Does this integer derive from a pointer (ptrtoint)?"""
    seen = seen if seen is not None else set()
    k = (fn.name, op[0], op[1] if len(op) > 1 else None)
    if op[0] not in ("i", "a") or k in seen:
        return False
    seen.add(k)
    if op[0] == "a":
        return any(op[1] < len(c.args) and pointerish(m, c.fn, c.args[op[1]], seen) for c in m.callsites.get(fn.name, []))
    i = fn.instrs[op[1]]
    if i.op == "ptrtoint":
        return True
    if i.op == "phi":
        return any(pointerish(m, fn, v, seen) for v, _ in i.phis)
    if i.op == "call":
        # the value may be any of the arguments of an internal helper
        return any(c in m.defined for c in m.callees(i)) and i.ty != "ptr" and any(pointerish(m, fn, a, seen) for a in i.args)
    if i.op in ("load", "cmpxchg", "atomicrmw", "icmp", "extractvalue"):
        return False
    return any(pointerish(m, fn, v, seen) for v in i.ops or [])


class SlotRule(Rule):
    """prop = (held, pending, observed, blocked tokens, acquired, monitors)"""
    name = "slot"
    maxstates = 24
    budget = 1500000
    inline_depth = 8

    def __init__(self, m):
        self.m = m
        ops = {f.name for f in m.defined.values() for b in f.blocks for i in b
               if i.op in ("cmpxchg", "atomicrmw", "load", "store") and i.order and slot_ptr(m, f, i.ops[1] if i.op == "store" else i.ops[0])}
        self.slotfns = ops
        self.inl = direct_reach(m, ops | SYNC)
        self.cas = {}
        self.waits = set()
        self.wakes = set()
        self.uses = set()
        self.monfn = {"wait": set(), "wake": set()}
        self.bitcache = {}
        self.tr = Tracer(m)

    def init(self):
        return (frozenset(), None, None, frozenset(), False, ())

    def tokens(self, prop):
        held, pend, obs, blk, acq, mons = prop
        out = set(blk)
        if pend:
            out.add(pend[0])
        if obs:
            out.add(obs)
        return out

    def rename(self, prop, mp):
        held, pend, obs, blk, acq, mons = prop

        def f(t):
            v = mp.get(t)
            return t if v is None else v[1] if v[0] == "s" else None
        if pend:
            pend = (f(pend[0]),) + pend[1:]
        if obs:
            obs = f(obs) or ("gone",)
        return (held, pend, obs, frozenset(x for x in map(f, blk) if x), acq, mons)

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def isslot(self, i):
        r = self.bitcache.get(id(i))
        if r is None:
            r = self.bitcache[id(i)] = slot_ptr(self.m, i.fn, i.ops[1] if i.op == "store" else i.ops[0])
        return r

    def unblocked(self, eng, st, tok):
        """Known that the value does not have the BLOCKED bit?"""
        if tok is None:
            return False
        for k, c in st.cons.items():
            if k[0] == "&" and k[1] == tok and isinstance(k[2], int) and k[2] & BLOCKED and c[0] == c[1] == 0:
                return True
        c = eng.rng(st, ("s", tok))
        return c[0] == c[1] and not int(c[0]) & BLOCKED

    def isblocked(self, eng, st, tok, blk):
        if tok in blk:
            return True
        for k, c in st.cons.items():
            if k[0] == "&" and k[1] == tok and k[2] == BLOCKED and (c[0] >= 1 or 0 in c[2]):
                return True
        return False

    def settle(self, eng, st):
        held, pend, obs, blk, acq, mons = st.prop
        if pend and self.unblocked(eng, st, pend[0]):
            st.prop = (held, None, obs, blk, acq, mons)

    def demand(self, eng, st, what):
        self.settle(eng, st)
        pend = st.prop[1]
        if pend:
            i = self.cas[pend[2]]
            why = "its waiters are not woken" if pend[1] == 0 else "its waiters are not all woken"
            eng.report(i, "a slot with possible waiters changes here, but on some path %s %s" % (why, what), st)
            st.prop = (st.prop[0], None) + st.prop[2:]

    def atomic(self, eng, st, i, ctx, ok):
        if not self.isslot(i):
            return
        if i.op == "cmpxchg" and not ok:
            held, pend, obs, blk, acq, mons = st.prop
            st.prop = (held, pend, None, blk, acq, mons)
            return
        self.demand(eng, st, "before the next slot is changed")
        held, pend, obs, blk, acq, mons = st.prop
        new = i.ops[2] if i.op == "cmpxchg" else i.ops[1]
        p = eng.val(st, i.fn, ctx, i.ops[0])
        old = eng.val(st, i.fn, ctx, i.ops[1]) if i.op == "cmpxchg" else st.env.get((ctx, "i", i.id))
        setsbit = self.tr.bits(i.fn, new)[0] & BLOCKED and i.rmw in (None, "or", "xchg")
        if setsbit:
            v = eng.val(st, i.fn, ctx, new) if i.op == "cmpxchg" else None
            tok = v[1] if v and v[0] == "s" else None
            if tok:
                blk = blk | {tok}
            st.prop = (held, pend, tok, blk, acq, mons)
            return
        self.cas[(i.fn.name, i.id)] = i
        tok = old[1] if old and old[0] == "s" else None
        if i.order in ACQ:
            acq = True
        if old and old[0] == "k" and not old[1] & BLOCKED:
            st.prop = (held, None, obs, blk, acq, mons)
        else:
            st.prop = (held, (tok, 1 if held else 0, (i.fn.name, i.id), p), obs, blk, acq, mons)

    def load(self, eng, st, i, loc, v, ctx):
        if i.order and self.isslot(i):
            held, pend, obs, blk, acq, mons = st.prop
            if i.order in ACQ:
                acq = True
            st.prop = (held, pend, v[1] if v[0] == "s" else None, blk, acq, mons)

    def store(self, eng, st, i, loc, v, ctx):
        if i.order and self.isslot(i):
            eng.report(i, "a slot is overwritten unconditionally, losing whatever another thread put there or the fact that it waits", st)

    def instr(self, eng, st, i, ctx):
        if i.op == "inttoptr" and i.fn.name in self.slotfns:
            if all(u.op == "call" and u.callee[0] == "f" and "prefetch" in u.callee[1] for u in users(i)):
                return
            self.uses.add(i.loc())
            if not st.prop[4]:
                eng.report(i, "an entry is taken from a slot without an acquire operation, so its contents may not be visible yet", st)
        elif i.op == "fence" and i.order in ACQ:
            st.prop = st.prop[:4] + (True,) + st.prop[5:]

    def post_call(self, eng, st, i, name, args, rv, ctx):
        f = self.m.defined.get(name)
        if f and f.dtypes and f.dtypes[0] == "struct ioq_monitor*" and rv[0] == "s":
            sl = [a for n, a in enumerate(args) if n + 1 < len(f.dtypes) and f.dtypes[n + 1] == "ioq_slot*"]
            mons = tuple(x for x in st.prop[5] if x[0] != rv[1]) + ((rv[1], name, sl[0] if sl else None),)
            st.prop = st.prop[:5] + (mons[-4:],)

    def mon(self, eng, st, p):
        a = eng.addr(st, p)
        if a and a[0][0] == "t":
            for x in st.prop[5]:
                if x[0] == a[0][1]:
                    return x
        return None

    def call(self, eng, st, i, name, args, ctx):
        held, pend, obs, blk, acq, mons = st.prop
        if name == "pthread_mutex_lock":
            b = base(eng, st, args[0])
            if b in held:
                eng.report(i, "a mutex is locked that this thread already holds", st)
            st.prop = (held | {b}, (pend[0], 1) + pend[2:] if pend else None, None, blk, acq, mons)
            return [(st, ("k", 0))]
        if name == "pthread_mutex_unlock":
            b = base(eng, st, args[0])
            if b not in held:
                eng.report(i, "a mutex is unlocked that is not held", st)
            st.prop = (held - {b}, pend, None, blk, acq, mons)
            return [(st, ("k", 0))]
        if name in ("pthread_cond_wait", "pthread_cond_timedwait"):
            self.waits.add(i.loc())
            site = self.outer(eng, i)
            b = base(eng, st, args[1])
            if b not in held:
                eng.report(i, "a thread waits for a slot without holding the monitor's mutex", st)
            if base(eng, st, args[0]) != b:
                eng.report(i, "a thread waits on one monitor holding another's mutex", st)
            if obs is None or not self.isblocked(eng, st, obs, blk):
                eng.report(i, "a thread goes to sleep without knowing, under the mutex, that the slot is marked as waited for", st)
            x = self.mon(eng, st, args[1])
            if x:
                self.monfn["wait"].add(x[1])
            st.prop = (held, pend, None, blk, acq, mons)
            return [(st, ("k", 0))]
        if name == "pthread_cond_broadcast":
            self.wakes.add(i.loc())
            x = self.mon(eng, st, args[0])
            if x:
                self.monfn["wake"].add(x[1])
            if pend:
                if pend[1] == 0:
                    eng.report(i, "waiters are woken without having taken the monitor's mutex since the slot changed: the wakeup can be lost", st)
                if x and x[2] is not None and x[2] != pend[3]:
                    eng.report(i, "the waiters of a different slot are woken", st)
                st.prop = (held, None, obs, blk, acq, mons)
            return [(st, ("k", 0))]
        if name == "pthread_cond_signal":
            return [(st, ("k", 0))]
        return None

    def outer(self, eng, i):
        return i.fn.name

    def leave(self, eng, st, fn, rv, ctx):
        self.settle(eng, st)
        if ctx == 0:
            self.demand(eng, st, "before the operation ends")
            if st.prop[0]:
                ret = next(b[-1] for b in fn.blocks if b[-1].op == "ret")
                eng.report(ret, "a mutex is still held when the operation ends", st)


def base(eng, st, v):
    a = eng.addr(st, v)
    return a[0] if a else v


def users(i):
    out = []
    for b in i.fn.blocks:
        for j in b:
            vs = list(j.ops or []) + [v for v, _ in (j.phis or [])] + list(j.args or [])
            if any(v[:2] == ("i", i.id) for v in vs):
                out.append(j)
    return out


def check(m, R):
    R.rule("every atomic write that puts a pointer into a queue slot has release order, every path on which a slot value becomes a pointer performed an acquire operation")
    R.rule("path-sensitive: after a slot's value changed, either the old value is known not to be marked as waited for, or the monitor's mutex is taken and then the "
           "condition is broadcast (never signalled) for that slot, before the next slot or the end of the operation")
    R.rule("path-sensitive: a thread waits only with the monitor's mutex held and the slot observed, under that mutex and since the last wakeup, to be marked as waited for; "
           "mutexes are neither locked twice nor left locked")
    R.require(m.field("ioqq", "slots"), "the slot array vanished")
    probe = SlotRule(m)
    slotfns = probe.slotfns
    R.require(slotfns, "no atomic operation on queue slots found")
    # publication
    n = 0
    for f in m.defined.values():
        for b in f.blocks:
            for i in b:
                if i.op in ("cmpxchg", "atomicrmw", "store") and i.order and probe.isslot(i):
                    new = i.ops[2] if i.op == "cmpxchg" else i.ops[0] if i.op == "store" else i.ops[1]
                    if pointerish(m, f, new):
                        n += 1
                        R.obligation("%s: publishes an entry with %s order" % (i.loc(), i.order))
                        dom = dominators(f)
                        fenced = any(j.op == "fence" and j.order in REL and (j.blk in dom[i.blk] and (j.blk != i.blk or j.pos < i.pos)) for bb in f.blocks for j in bb)
                        if i.order not in REL and not fenced:
                            R.violation(i, "an entry is published with %s order: the thread that takes it may see stale contents" % i.order, rule="publish")
    R.minimum("publishing operations", n, 1)
    inits = {x for x in m.defined if "ioqq_create" == x}
    roots = {f for f in slotfns if f not in inits}
    rules = demand_run(m, R, roots, lambda: SlotRule(m), "slot", limit=16, maxdepth=3)
    waits = set().union(*(r.waits for _, r in rules))
    wakes = set().union(*(r.wakes for _, r in rules))
    cas = {}
    mf = {"wait": set(), "wake": set()}
    for f, r in rules:
        cas.update(r.cas)
        for k in mf:
            mf[k] |= r.monfn[k]
    for c in cas.values():
        R.obligation("%s: slot change, wakeup obligation" % c.loc())
    for w in sorted(waits):
        R.obligation("%s: wait" % w)
    for w in sorted(wakes):
        R.obligation("%s: wake" % w)
    uses = set().union(*(r.uses for _, r in rules))
    for u in sorted(uses):
        R.obligation("%s: slot value used as an entry" % u)
    if mf["wait"] and mf["wake"] and mf["wait"] != mf["wake"]:
        R.violation("src/ioq.c:1", "waiters and wakers find the monitor of a slot differently (%s / %s)" % (sorted(mf["wait"]), sorted(mf["wake"])), fn="", rule="monitor")
    R.count("slot changes", len(cas))
    R.minimum("slot changes", len(cas), 2)
    R.minimum("waits", len(waits), 1)
    R.minimum("wakes", len(wakes), 1)
    R.minimum("slot values used as entries", len(uses), 1)

"""Flow-insensitive interprocedural helpers: value tracing, known bits, dominators, fork children."""
from .ir import tyname

FULL = (1 << 64) - 1


class Tracer:
    """Traces an operand back to its possible sources through SSA, calls, parameters and fields."""

    def __init__(self, m):
        self.m = m

    def callers(self, fname):
        return list(self.m.callsites.get(fname, [])) + list(self.m.icallers.get(fname, []))

    def sources(self, fn, op, seen=None, depth=0):
        """Set of leaf descriptions: ('c',n) ('null',) ('str',s) ('g',name,off) ('f',name)
        ('call',name,instr) ('load',key,instr) ('arg',fn,n) ('op',instr)."""
        seen = seen if seen is not None else set()
        k = op[0]
        if k in ("i", "a"):
            key = (fn.name, k, op[1])
            if key in seen:
                return set()
            seen.add(key)
        if k == "c":
            return {("c", op[1])}
        if k == "null":
            return {("null",)}
        if k == "g":
            s = self.m.gstr(op)
            return {("str", s)} if s is not None else {("g", op[1], op[2])}
        if k == "f":
            return {("f", op[1])}
        if k == "a":
            cs = self.callers(fn.name)
            if not cs:
                return {("arg", fn.name, op[1])}
            out = set()
            for c in cs:
                if op[1] < len(c.args):
                    out |= self.sources(c.fn, c.args[op[1]], seen, depth + 1)
            return out
        if k == "i":
            i = fn.instrs[op[1]]
            if i.op == "phi":
                out = set()
                for v, _ in i.phis:
                    out |= self.sources(fn, v, seen, depth)
                return out
            if i.op == "select":
                return self.sources(fn, i.ops[1], seen, depth) | self.sources(fn, i.ops[2], seen, depth)
            if i.op in ("zext", "sext", "trunc", "bitcast", "freeze"):
                return self.sources(fn, i.ops[0], seen, depth)
            if i.op == "call":
                out = set()
                for n in self.m.callees(i):
                    f = self.m.funcs.get(n)
                    if f is None or f.decl:
                        out.add(("call", n, i))
                        continue
                    got = set()
                    for b in f.rpo:
                        r = f.blocks[b][-1]
                        if r.op == "ret" and r.ops:
                            got |= self.sources(f, r.ops[0], seen, depth + 1)
                    out |= got
                return out
            if i.op == "load":
                key = self.m.ptrkey(fn, i.ops[0])
                return self.cell(key, i, seen, depth)
            return {("op", i)}
        return {("other", k)}

    def cell(self, key, i, seen, depth):
        m = self.m
        if key[0] == "raw" or isinstance(key[1], str):
            return {("load", key, i)}
        out = set()
        if key[0].startswith("g:"):
            g = m.globals.get(key[0][2:])
            if g and "flat" in g:
                for a, st, o, v in g["flat"]:
                    if a == key[1]:
                        out |= self.sources(i.fn, tuple(v), seen, depth)
        else:
            for gname, g in m.globals.items():
                for a, st, o, v in g.get("flat", []):
                    if st and (tyname(st), o) == key:
                        out |= self.sources(i.fn, tuple(v), seen, depth)
        st = m.storemap.get(key, [])
        for s in st:
            out |= self.sources(s.fn, s.ops[0], seen, depth)
        if not out:
            return {("load", key, i)}
        return out

    # -- known bits ---------------------------------------------------------------------------
    def bits(self, fn, op, seen=None):
        """(ones, zeros): bits known set / known clear whatever the path, caller or field value."""
        seen = seen if seen is not None else {}
        k = op[0]
        if k == "c":
            return (op[1] & FULL, ~op[1] & FULL)
        if k in ("null", "zero"):
            return (0, FULL)
        if k in ("i", "a"):
            key = (fn.name, k, op[1])
            if key in seen:
                return seen[key] if seen[key] is not None else (FULL, FULL)   # optimistic in cycles
            seen[key] = None
            r = self._bits(fn, op, seen)
            seen[key] = r
            return r
        return (0, 0)

    @staticmethod
    def meet(rs):
        o, z = FULL, FULL
        n = 0
        for r in rs:
            n += 1
            o &= r[0]
            z &= r[1]
        return (o, z) if n else (0, 0)

    def _bits(self, fn, op, seen):
        m = self.m
        if op[0] == "a":
            cs = self.callers(fn.name)
            return self.meet(self.bits(c.fn, c.args[op[1]], seen) if op[1] < len(c.args) else (0, 0) for c in cs)
        i = fn.instrs[op[1]]
        o = i.op
        if o == "phi":
            return self.meet(self.bits(fn, v, seen) for v, _ in i.phis)
        if o == "select":
            return self.meet([self.bits(fn, i.ops[1], seen), self.bits(fn, i.ops[2], seen)])
        if o in ("zext", "sext", "trunc", "freeze"):
            a = self.bits(fn, i.ops[0], seen)
            if o == "zext" and i.ops[0][0] == "i":
                w = fn.instrs[i.ops[0][1]].ty
                if w and w[0] == "i":
                    mask = (1 << int(w[1:])) - 1
                    return (a[0] & mask, a[1] | (FULL & ~mask))
            return a
        if o in ("and", "or", "xor"):
            a = self.bits(fn, i.ops[0], seen)
            b = self.bits(fn, i.ops[1], seen)
            if o == "and":
                return (a[0] & b[0], a[1] | b[1])
            if o == "or":
                return (a[0] | b[0], a[1] & b[1])
            return ((a[0] & b[1]) | (a[1] & b[0]), (a[0] & b[0]) | (a[1] & b[1]))
        if o == "call":
            rs = []
            for n in m.callees(i):
                f = m.funcs.get(n)
                if f is None or f.decl:
                    return (0, 0)
                for b in f.rpo:
                    r = f.blocks[b][-1]
                    if r.op == "ret" and r.ops:
                        rs.append(self.bits(f, r.ops[0], seen))
            return self.meet(rs)
        if o == "load":
            key = m.ptrkey(fn, i.ops[0])
            if key[0] == "raw" or isinstance(key[1], str):
                return (0, 0)
            rs = []
            for gname, g in m.globals.items():
                if key[0] == "g:" + gname or not key[0].startswith("g:"):
                    for a, st, off, v in g.get("flat", []):
                        if (st and (tyname(st), off) == key) or (key[0] == "g:" + gname and a == key[1]):
                            rs.append(self.bits(fn, tuple(v), seen))
            for s in m.storemap.get(key, []):
                rs.append(self.bits(s.fn, s.ops[0], seen))
            return self.meet(rs)
        return (0, 0)


def dominators(fn):
    if hasattr(fn, "_dom"):
        return fn._dom
    allb = set(fn.rpo)
    dom = {b: set(allb) for b in fn.rpo}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in fn.rpo:
            if b == 0:
                continue
            ps = [p for p in fn.pred[b] if p in dom]
            s = set.intersection(*(dom[p] for p in ps)) if ps else set()
            s = s | {b}
            if s != dom[b]:
                dom[b] = s
                ch = True
    fn._dom = dom
    return dom


FORKS = {"fork", "_Fork", "vfork", "__fork"}


def fork_children(m):
    """Call instructions executed by a forked child: blocks dominated by the `pid == 0` edge.

    Returns (child call instrs, [(fork site, child entry block)])."""
    tr = Tracer(m)
    pid_like = {}

    def is_pid(fn, op):
        if op[0] != "i":
            return False
        i = fn.instrs[op[1]]
        if i.op == "call":
            return any(n in FORKS or n in wrappers for n in m.callees(i))
        if i.op == "phi":
            return any(is_pid(fn, v) for v, _ in i.phis if v != op and v[0] == "i" and fn.instrs[v[1]].op != "phi")
        return False
    def zero_branch(f):
        """Blocks entered exactly when the pid is 0."""
        out = []
        for b in f.rpo:
            t = f.blocks[b][-1]
            if t.op == "br" and t.ops and t.ops[0][0] == "i":
                c = f.instrs[t.ops[0][1]]
                if c.op == "icmp" and is_pid(f, c.ops[0]) and c.ops[1] == ("c", 0):
                    if c.pred == "eq":
                        out.append(t.targets[0])
                    elif c.pred == "ne":
                        out.append(t.targets[1])
            elif t.op == "switch" and is_pid(f, t.ops[0]):
                out += [x for v, x in t.cases if v == 0]
        return out
    # wrappers: functions returning the result of fork without telling the child apart
    wrappers = set()
    ch = True
    while ch:
        ch = False
        for f in m.defined.values():
            if f.name in wrappers:
                continue
            if not (m.cg[f.name] & (FORKS | wrappers)):
                continue
            rets = [f.blocks[b][-1] for b in f.rpo if f.blocks[b][-1].op == "ret" and f.blocks[b][-1].ops]
            if rets and all(is_pid(f, r.ops[0]) for r in rets) and not zero_branch(f):
                wrappers.add(f.name)
                ch = True
    calls, entries, sites = [], [], []
    for f in m.defined.values():
        if f.name in wrappers:
            continue
        fs = [i for i in m.calls(f) if m.callees(i) & (FORKS | wrappers)]
        if not fs:
            continue
        sites += fs
        dom = dominators(f)
        found = False
        for tgt in zero_branch(f):
            found = True
            entries.append((f, tgt))
            for b2 in f.rpo:
                if tgt in dom[b2]:
                    calls += [i for i in f.blocks[b2] if i.op == "call"]
        if not found:
            entries.append((f, None))
    return calls, entries, sites, wrappers


def reachable_blocks(fn, start):
    seen = {start}
    work = [start]
    while work:
        b = work.pop()
        for s in fn.succ[b]:
            if s not in seen:
                seen.add(s)
                work.append(s)
    return seen

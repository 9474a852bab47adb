"""In-memory model of the exported IR, call graph with resolved indirect calls, and effect summaries."""
import re
from collections import defaultdict


class Instr:
    __slots__ = ("fn", "blk", "id", "op", "ty", "ops", "line", "file", "callee", "args", "noret", "phis", "targets",
                 "cases", "st", "off", "coff", "pred", "opty", "order", "forder", "rmw", "vol", "at", "ix", "esz", "asz", "vt", "pos", "vo")

    def __repr__(self):
        return "<%s#%d %s @%s>" % (self.fn.name, self.id, self.op, self.loc())

    def loc(self):
        return "%s:%s" % (self.file, self.line)


class Func:
    def __init__(self, name):
        self.name = name


_suffix = re.compile(r"\.\d+$")


def tyname(t):
    """Strip llvm-link's numeric suffix from named struct types."""
    if t and (t.startswith("struct.") or t.startswith("union.")) and "anon" not in t:
        return _suffix.sub("", t)
    return t


class Module:
    def __init__(self, js):
        self.js = js
        self.types = js["types"]
        self.enums = js["enums"]
        self.globals = js["globals"]
        self.variant = js.get("variant", "default")
        self.units = js.get("units", 0)
        self.funcs = {}
        self.ninstr = 0
        for name, f in js["functions"].items():
            fn = Func(name)
            self.funcs[name] = fn
            fn.decl = bool(f["decl"])
            fn.noreturn = bool(f["noreturn"])
            fn.ret = f["ret"]
            fn.va = f["va"]
            fn.local = f["local"]
            fn.file = f.get("file", "?")
            fn.line = f.get("line", 0)
            fn.dtypes = f.get("dtypes", [])
            fn.params = [a[0] for a in f["args"]]
            fn.ptypes = [a[1] for a in f["args"]]
            fn.sret = [a[3] for a in f["args"]]
            fn.names = {int(k): v for k, v in f.get("names", {}).items()}
            fn.blocks = []
            fn.instrs = {}
            if fn.decl:
                continue
            for bi, b in enumerate(f["blocks"]):
                blk = []
                for pos, j in enumerate(b):
                    i = Instr()
                    i.fn = fn
                    i.blk = bi
                    i.pos = pos
                    i.id = j["i"]
                    i.op = j["o"]
                    i.ty = j.get("t")
                    i.ops = [tuple(x) for x in j.get("a", [])]
                    i.line = j.get("l", 0)
                    i.file = j.get("f", fn.file)
                    i.callee = None
                    i.args = None
                    i.noret = False
                    i.phis = None
                    i.targets = None
                    i.cases = None
                    i.st = i.off = i.coff = i.pred = i.opty = i.order = i.forder = i.rmw = i.at = i.ix = i.esz = i.asz = i.vt = None
                    i.vol = j.get("vol", 0)
                    if i.op == "call":
                        i.callee = tuple(j["c"])
                        i.args = i.ops
                        i.noret = bool(j.get("nr"))
                    elif i.op == "phi":
                        i.phis = [(tuple(v), b_) for v, b_ in j["p"]]
                    elif i.op == "br":
                        i.targets = j["b"]
                    elif i.op == "switch":
                        i.targets = j["b"]
                        i.cases = j["cs"]
                    elif i.op == "getelementptr":
                        i.st = tyname(j["st"])
                        i.off = j.get("off")
                        i.coff = j.get("coff")
                        i.vo = [(tuple(v), n) for v, n in j.get("vo", [])]
                        i.esz = j.get("esz")
                    elif i.op in ("icmp", "fcmp"):
                        i.pred = j["pr"]
                        i.opty = j["ot"]
                    elif i.op == "alloca":
                        i.at = tyname(j["at"])
                        i.asz = j["asz"]
                    i.order = j.get("ord")
                    i.forder = j.get("ford")
                    i.rmw = j.get("rmw")
                    i.vt = j.get("vt")
                    i.ix = j.get("ix")
                    blk.append(i)
                    fn.instrs[i.id] = i
                    self.ninstr += 1
                fn.blocks.append(blk)
            self._cfg(fn)
        self.defined = {n: f for n, f in self.funcs.items() if not f.decl}
        self._resolve()

    # -- CFG --------------------------------------------------------------------------------
    def _cfg(self, fn):
        n = len(fn.blocks)
        fn.succ = [[] for _ in range(n)]
        fn.pred = [[] for _ in range(n)]
        for b, blk in enumerate(fn.blocks):
            t = blk[-1]
            if t.op == "br":
                s = list(t.targets)
            elif t.op == "switch":
                s = list(t.targets) + [c[1] for c in t.cases]
            else:
                s = []
            # a call to a noreturn function ends the block's flow
            if any(i.op == "call" and self._callnoret(i) for i in blk):
                s = []
            seen = []
            for x in s:
                if x not in seen:
                    seen.append(x)
            fn.succ[b] = seen
            for x in seen:
                fn.pred[x].append(b)
        # RPO
        order = []
        seen = set()
        stack = [(0, iter(fn.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(fn.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        fn.rpo = order[::-1]
        fn.rpon = {b: k for k, b in enumerate(fn.rpo)}
        fn.backedges = {(b, s) for b in fn.rpo for s in fn.succ[b] if fn.rpon[s] <= fn.rpon[b]}
        # liveness of SSA values
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]
        phiuse = defaultdict(set)
        for b, blk in enumerate(fn.blocks):
            for i in blk:
                if i.op == "phi":
                    for v, p in i.phis:
                        if v[0] in ("i", "a"):
                            phiuse[p].add(v[:2])
                else:
                    for v in i.ops:
                        if v[0] in ("i", "a") and (v[:2]) not in de[b]:
                            use[b].add(v[:2])
                    if i.callee and i.callee[0] in ("i", "a") and i.callee[:2] not in de[b]:
                        use[b].add(i.callee[:2])
                de[b].add(("i", i.id))
        live_in = [set() for _ in range(n)]
        live_out = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in reversed(fn.rpo):
                o = set(phiuse[b])
                for s in fn.succ[b]:
                    o |= live_in[s]
                i_ = use[b] | (o - de[b])
                if o != live_out[b] or i_ != live_in[b]:
                    live_out[b] = o
                    live_in[b] = i_
                    changed = True
        fn.live_in = live_in
        fn.live_out = live_out

    def _callnoret(self, i):
        return i.noret

    # -- lookups ----------------------------------------------------------------------------
    def field(self, struct, name):
        """(struct, offset) of a named field; None if it does not exist."""
        t = self.types.get("struct." + struct)
        if not t:
            return None
        for n, off, sz, ty in t["fields"]:
            if n == name:
                return ("struct." + struct, off)
        return None

    def fieldname(self, st, off):
        t = self.types.get(st)
        if t:
            best = None
            for n, o, sz, ty in t["fields"]:
                if o == off:
                    best = n
                    break
            if best:
                return "%s.%s" % (st.split(".", 1)[-1], best)
        return "%s+%s" % (st, off)

    def garray(self, g):
        """Function names in a constant global array of function pointers (else an empty set)."""
        c = self.__dict__.setdefault("_garr", {})
        if g not in c:
            gl = self.globals.get(g)
            vs = [tuple(v) for a, st, o, v in gl.get("flat", [])] if gl and gl["const"] else []
            c[g] = {v[1] for v in vs if v[0] == "f"} if vs and all(v[0] in ("f", "null", "c") for v in vs) else set()
        return c[g]

    def gstr(self, op):
        """Constant C string behind a global operand."""
        if op and op[0] == "g":
            g = self.globals.get(op[1])
            if g and g["const"] and g.get("init") and g["init"][0] == "str":
                s = g["init"][1][op[2]:]
                return s.split("\0", 1)[0]
            if g and g["const"] and g.get("init") and g["init"][0] == "zero":
                return ""
        return None

    # -- indirect call resolution --------------------------------------------------------------
    def _resolve(self):
        # where do function addresses go?
        self.fieldfns = defaultdict(set)     # (struct, off) -> functions (initialisers and stores)
        self.globalfns = defaultdict(set)    # global -> functions in its initialiser
        self.address_taken = set()
        for gname, g in self.globals.items():
            for abs_, st, off, v in g.get("flat", []):
                if v[0] == "f":
                    self.address_taken.add(v[1])
                    self.globalfns[gname].add(v[1])
                    if st:
                        self.fieldfns[(tyname(st), off)].add(v[1])
        self.callsites = defaultdict(list)   # callee name -> direct call instrs
        stores = []
        for fn in self.defined.values():
            for blk in fn.blocks:
                for i in blk:
                    if i.op == "call" and i.callee[0] == "f":
                        self.callsites[i.callee[1]].append(i)
                    for v in (i.ops or []):
                        if v[0] == "f" and not (i.op == "call" and False):
                            self.address_taken.add(v[1])
                    if i.phis:
                        for v, _ in i.phis:
                            if v[0] == "f":
                                self.address_taken.add(v[1])
                    if i.op == "store":
                        stores.append(i)
        self.stores = stores
        self.storemap = defaultdict(list)    # (struct, off) -> store instrs
        for s in stores:
            k = self.ptrkey(s.fn, s.ops[1])
            self.storemap[k].append(s)
        self.targets = {}
        pending = [i for fn in self.defined.values() for blk in fn.blocks for i in blk
                   if i.op == "call" and i.callee[0] in ("i", "a")]
        self.indirect = pending
        for i in pending:
            self.targets[id(i)] = set()
        changed = True
        rounds = 0
        while changed and rounds < 20:
            changed = False
            rounds += 1
            self.icallers = defaultdict(list)
            for i in pending:
                for t in self.targets[id(i)]:
                    self.icallers[t].append(i)
            for i in pending:
                t = self._fnsrc(i.fn, i.callee, set())
                t = {x for x in t if x in self.funcs}
                if t - self.targets[id(i)]:
                    self.targets[id(i)] |= t
                    changed = True
        self.unresolved = [i for i in pending if not self.targets[id(i)]]
        # call graph
        self.cg = {}
        for fn in self.funcs.values():
            self.cg[fn.name] = set()
        for fn in self.defined.values():
            for i in self.calls(fn):
                self.cg[fn.name] |= self.callees(i)
        self.rcg = defaultdict(set)
        for a, bs in self.cg.items():
            for b in bs:
                self.rcg[b].add(a)

    def calls(self, fn):
        for b in fn.rpo:
            for i in fn.blocks[b]:
                if i.op == "call":
                    yield i

    def callees(self, i):
        if i.callee[0] == "f":
            return {i.callee[1]}
        return self.targets.get(id(i), set())

    def ptrkey(self, fn, v, depth=0):
        """Type-based key of the memory cell a pointer operand designates."""
        if v[0] == "g":
            g = self.globals.get(v[1])
            gt = tyname(g["type"]) if g else None
            if gt and gt in self.types:
                return (gt, v[2])
            return ("g:" + v[1], v[2])
        if v[0] == "i":
            i = fn.instrs[v[1]]
            if i.op == "getelementptr":
                if i.st in self.types or (i.st and (i.st.startswith("struct.") or i.st.startswith("union."))):
                    if "anon" in i.st:
                        # anonymous aggregate: key by the enclosing named struct
                        k = self.ptrkey(fn, i.ops[0], depth + 1)
                        if k and k[1] is not None and i.off is not None and isinstance(k[1], int):
                            return (k[0], k[1] + i.off)
                        return ("anon", i.off)
                    off = i.off if i.off is not None else i.coff
                    return (i.st, off)
                k = self.ptrkey(fn, i.ops[0], depth + 1)
                return (k[0], "[]") if k and k[1] is None else (k[0], k[1]) if i.off == 0 else (k[0], "%s[]" % (k[1],))
            if i.op == "alloca":
                if i.at in self.types:
                    return (i.at, 0)
                return ("al:%s:%d" % (fn.name, i.id), 0)
            if i.op in ("bitcast", "addrspacecast"):
                return self.ptrkey(fn, i.ops[0], depth + 1)
        if v[0] == "i" or v[0] == "a":
            return ("raw", None)
        return ("raw", None)

    def _fnsrc(self, fn, v, seen):
        key = (fn.name, v[:2]) if v[0] in ("i", "a") else None
        if key:
            if key in seen:
                return set()
            seen.add(key)
        if v[0] == "f":
            return {v[1]}
        if v[0] == "a":
            out = set()
            n = v[1]
            for c in self.callsites.get(fn.name, []):
                if n < len(c.args):
                    out |= self._fnsrc(c.fn, c.args[n], seen)
            for c in self.icallers.get(fn.name, []):
                if n < len(c.args):
                    out |= self._fnsrc(c.fn, c.args[n], seen)
            return out
        if v[0] == "i":
            i = fn.instrs[v[1]]
            if i.op == "phi":
                out = set()
                for x, _ in i.phis:
                    out |= self._fnsrc(fn, x, seen)
                return out
            if i.op == "select":
                return self._fnsrc(fn, i.ops[1], seen) | self._fnsrc(fn, i.ops[2], seen)
            if i.op == "call":
                out = set()
                for t in self.callees(i) if i.callee[0] == "f" else self.targets.get(id(i), ()):
                    f = self.funcs.get(t)
                    if f and not f.decl:
                        for b in f.rpo:
                            r = f.blocks[b][-1]
                            if r.op == "ret" and r.ops:
                                out |= self._fnsrc(f, r.ops[0], seen)
                return out
            if i.op in ("load",):
                return self._memfns(fn, i.ops[0], seen)
        return set()

    def _memfns(self, fn, p, seen):
        out = set()
        k = self.ptrkey(fn, p)
        if k[0].startswith("g:"):
            out |= self.globalfns.get(k[0][2:], set())
        elif k[0] != "raw":
            out |= self.fieldfns.get(k, set())
        # array of pointers / pointer to an element: look through a variable index
        if p[0] == "i":
            g = fn.instrs[p[1]]
            if g.op == "getelementptr" and g.ops[0][0] == "g":
                out |= self.globalfns.get(g.ops[0][1], set()) if k[0] == "raw" or not out else set()
        for s in self.storemap.get(k, []) if k[0] != "raw" else []:
            out |= self._fnsrc(s.fn, s.ops[0], seen)
        return out

    def reach(self, roots, stop=()):
        """Functions reachable in the call graph, with one witness parent each."""
        par = {r: None for r in roots}
        work = list(roots)
        while work:
            f = work.pop()
            if f in stop:
                continue
            for c in sorted(self.cg.get(f, ())):
                if c not in par:
                    par[c] = f
                    work.append(c)
        return par

    def chain(self, par, f):
        out = []
        while f is not None:
            out.append(f)
            f = par[f]
        return out[::-1]

    def may_reach(self, targets):
        """Functions from which some target is reachable."""
        seen = set(targets)
        work = list(targets)
        while work:
            f = work.pop()
            for c in self.rcg.get(f, ()):
                if c not in seen:
                    seen.add(c)
                    work.append(c)
        return seen

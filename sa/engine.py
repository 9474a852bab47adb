"""Path-sensitive, property-driven abstract interpretation over the IR (no solver, no execution).

States are finite abstractions: SSA values and memory cells map to constants, opaque tokens or
pointer expressions; tokens carry an interval + disequality constraint. Each rule adds a finite
property component (a typestate). States with equal keys are merged, states that differ only in
their abstraction are joined once there are more than MAXSTATES of them per property state and
program point (property simulation, as in ESP). Calls are analysed by virtual inlining when the
rule asks for it and through flow-insensitive modification summaries otherwise.
"""
from collections import defaultdict
from . import libc

INF = float("inf")
K = lambda n: ("k", n)
ERRNO = ("g", "errno")


class Budget(Exception):
    pass


class State:
    __slots__ = ("env", "mem", "cons", "prop", "trail")

    def __init__(self, env=None, mem=None, cons=None, prop=None, trail=None):
        self.env = env if env is not None else {}
        self.mem = mem if mem is not None else {}
        self.cons = cons if cons is not None else {}
        self.prop = prop
        self.trail = trail

    def copy(self):
        return State(dict(self.env), dict(self.mem), dict(self.cons), self.prop, self.trail)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.mem.items()), frozenset(self.cons.items()), self.prop)


def vtokens(v, out):
    """Tokens mentioned by an abstract value."""
    t = v[0]
    if t == "s":
        ttokens(v[1], out)
    elif t == "p":
        if v[1][0] == "t":
            ttokens(v[1][1], out)
    elif t == "cmp":
        vtokens(v[2], out)
        vtokens(v[3], out)


def ttokens(t, out):
    out.add(t)
    if t and t[0] in ("&", "+", "~"):
        ttokens(t[1], out)
    elif t and t[0] == "cmp":
        vtokens(t, out)


def vsub(v, m):
    """Substitute tokens in a value; m: token -> value."""
    t = v[0]
    if t == "s":
        if v[1] in m:
            return m[v[1]]
        if v[1] and v[1][0] in ("&", "+", "~"):
            b = vsub(("s", v[1][1]), m)
            if b != ("s", v[1][1]):
                if b[0] == "s" and b[1][0] not in ("&", "+", "~"):
                    return ("s", (v[1][0], b[1], v[1][2]))
                return None
        return v
    if t == "p" and v[1][0] == "t":
        if v[1][1] in m:
            n = m[v[1][1]]
            if n[0] == "s":
                return ("p", ("t", n[1]), v[2])
            if n[0] == "p":
                return ("p", n[1], None if v[2] is None or n[2] is None else n[2] + v[2])
            return None
        return v
    if t == "cmp":
        a = vsub(v[2], m)
        b = vsub(v[3], m)
        if a is None or b is None:
            return None
        return ("cmp", v[1], a, b)
    return v


NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle",
        "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}
TOP = (-INF, INF, frozenset())


def width(ty):
    if ty and ty[0] == "i":
        try:
            return int(ty[1:])
        except ValueError:
            pass
    return 64


class Rule:
    """Base class for path rules; the property state must be hashable."""
    name = "?"
    inline_depth = 8
    maxstates = 24
    budget = 400000
    nullfields = False  # keep track of addresses computed from a null pointer
    unroll = 0          # keep loop counters concrete up to this value

    def init(self):
        return None

    def inline(self, eng, fn, depth):
        return False

    def call(self, eng, st, i, name, args, ctx):
        """Return None for default handling or a list of (state, value)."""
        return None

    def post_call(self, eng, st, i, name, args, rv, ctx):
        """Observe the result of a call that was not inlined."""
        return None

    def leave(self, eng, st, fn, rv, ctx):
        """Called when an inlined function or the entry returns."""
        return None

    def store(self, eng, st, i, loc, v, ctx):
        return None

    def load(self, eng, st, i, loc, v, ctx):
        return None

    def split(self, eng, st, i, ctx):
        """After a load: None, or the list of states to go on with (case split)."""
        return None

    def instr(self, eng, st, i, ctx):
        return None

    def atomic(self, eng, st, i, ctx, ok):
        """After a cmpxchg (ok: whether it succeeded) or atomicrmw."""
        return None

    def distinct(self, tok):
        """A token known to point to an object of its own (a fresh allocation, an exclusively owned object)."""
        return False

    def tokens(self, prop):
        return ()

    def rename(self, prop, m):
        return prop

    def mergekey(self, st):
        return st.prop


class Engine:
    def __init__(self, mod, rule):
        self.m = mod
        self.rule = rule
        self.reports = {}
        self.steps = 0
        self.paths = 0
        self.ctxids = {}
        self.visited_funcs = set()
        self.sum = Summaries.get(mod)
        self.keys = {}
        self.stack = []
        self.merged = 0

    # -- reporting --------------------------------------------------------------------------
    def report(self, i, msg, st=None):
        k = (i.fn.name if i is not None else "?", i.id if i is not None else 0, msg)
        if k not in self.reports:
            trail = []
            t = st.trail if st else None
            while t and len(trail) < 40:
                trail.append(t[0])
                t = t[1]
            self.reports[k] = (i, msg, trail[::-1])

    # -- values -----------------------------------------------------------------------------
    def norm(self, st, v):
        """Constant-fold through singleton constraints."""
        if v[0] == "s":
            c = st.cons.get(v[1])
            if c and c[0] == c[1]:
                return ("k", c[0])
        elif v[0] == "cmp":
            r = self.evalcmp(st, v)
            if r is not None:
                return ("k", 1 if r else 0)
        return v

    def rng(self, st, v):
        v = self.norm(st, v)
        if v[0] == "k":
            return (v[1], v[1], frozenset())
        if v[0] == "s":
            return st.cons.get(v[1], TOP)
        if v[0] == "cmp":
            return (0, 1, frozenset())
        return TOP

    def isnull(self, st, v):
        """True / False / None for pointers."""
        v = self.norm(st, v)
        if v[0] == "k":
            return v[1] == 0
        if v[0] == "f":
            return False
        if v[0] == "p":
            if v[1][0] == "t":
                if v[2] not in (0,):
                    return False
                return self.isnull(st, ("s", v[1][1]))
            return False
        if v[0] == "s":
            c = st.cons.get(v[1])
            if c and (0 in c[2] or c[0] > 0 or c[1] < 0):
                return False
        return None

    def val(self, st, fn, ctx, op):
        k = op[0]
        if k == "i" or k == "a":
            v = st.env.get((ctx, k, op[1]))
            if v is None:
                v = ("s", ("u", ctx, k, op[1]))
                st.env[(ctx, k, op[1])] = v
            return self.norm(st, v)
        if k == "c":
            return ("k", op[1])
        if k == "null":
            return ("k", 0)
        if k == "f":
            return ("f", op[1])
        if k == "g":
            return ("p", ("g", op[1]), op[2])
        if k == "undef":
            return ("s", ("undef",))
        if k == "zero":
            return ("k", 0)
        return ("s", ("op", k) + tuple(str(x) for x in op[1:]))

    def addr(self, st, v):
        if v[0] == "s":
            return (("t", v[1]), 0)
        if v[0] == "p":
            return (v[1], v[2])
        return None

    # -- constraints ------------------------------------------------------------------------
    def evalcmp(self, st, v):
        _, pred, a, b = v
        a = self.norm(st, a)
        b = self.norm(st, b)
        if a[0] == "k" and b[0] != "k":
            a, b, pred = b, a, SWAP[pred]
        if a == b and a[0] != "cmp":
            if pred in ("eq", "sle", "sge", "ule", "uge"):
                return True
            return False
        if a[0] == "cmp" and b[0] == "k":
            r = self.evalcmp(st, a)
            if r is not None:
                return self.ck(pred, int(r), b[1])
            if b[1] not in (0, 1):
                if pred == "eq":
                    return False
                if pred == "ne":
                    return True
            return None
        if a[0] == "k" and b[0] == "k":
            return self.ck(pred, a[1], b[1])
        if b[0] == "k":
            if a[0] in ("f", "p"):
                n = self.isnull(st, a)
                if b[1] == 0 and n is not None:
                    if pred == "eq":
                        return n
                    if pred in ("ne", "ugt"):
                        return not n
                return None
            if a[0] == "s":
                lo, hi, ne = st.cons.get(a[1], TOP)
                c = b[1]
                if pred == "eq":
                    if c in ne or c < lo or c > hi:
                        return False
                elif pred == "ne":
                    if c in ne or c < lo or c > hi:
                        return True
                elif pred == "slt":
                    if hi < c:
                        return True
                    if lo >= c:
                        return False
                elif pred == "sle":
                    if hi <= c:
                        return True
                    if lo > c:
                        return False
                elif pred == "sgt":
                    if lo > c:
                        return True
                    if hi <= c:
                        return False
                elif pred == "sge":
                    if lo >= c:
                        return True
                    if hi < c:
                        return False
                elif pred in ("ult", "ule", "ugt", "uge") and lo >= 0 and c >= 0:
                    return self.evalcmp(st, ("cmp", "s" + pred[1:], a, b))
                elif pred == "ugt" and c == 0 and 0 in ne:
                    return True
            return None
        if a[0] == "f" and b[0] == "f":
            return self.ck(pred, 0, 0 if a == b else 1) if pred in ("eq", "ne") else None
        if a[0] == "p" and b[0] == "p" and pred in ("eq", "ne"):
            if a[1] != b[1] and a[1][0] in ("al", "g") and b[1][0] in ("al", "g"):
                return pred == "ne"
            if a[1] == b[1] and a[2] is not None and b[2] is not None:
                return (a[2] == b[2]) == (pred == "eq")
        if pred in ("eq", "ne") and a[0] in ("p", "s") and b[0] in ("p", "s"):
            x, y = a[1] if a[0] == "p" else ("t", a[1]), b[1] if b[0] == "p" else ("t", b[1])
            if x != y and (a[0] == "p" or x[0] == "t" and self.rule.distinct(x[1])) and (b[0] == "p" or y[0] == "t" and self.rule.distinct(y[1])) \
                    and all(z[0] in ("al", "g") or z[0] == "t" and self.rule.distinct(z[1]) for z in (x, y)):
                return pred == "ne"
            if x == y and a[0] != b[0]:
                o = a[2] if a[0] == "p" else b[2]
                if o is not None:
                    return (o == 0) == (pred == "eq")
        if a[0] == "p" and b[0] == "p" and pred[0] == "u" and a[1] == b[1] and a[1][0] in ("al", "g") and a[2] is not None and b[2] is not None:
            return self.ck(pred, a[2], b[2])
        if b[0] == "f" and a[0] == "s" and ("f", b[1]) in st.cons.get(a[1], TOP)[2]:
            return pred == "ne" if pred in ("eq", "ne") else None
        if a[0] == "s" and a[1][0] == "ca" and b[0] == "f" and pred in ("eq", "ne") and b[1] not in self.m.garray(a[1][1]):
            return pred == "ne"
        if a[0] == "f" and b[0] == "s":
            return self.evalcmp(st, ("cmp", SWAP[pred], b, a))
        c = st.cons.get(("cmp", pred, a, b))
        if c is not None:
            return bool(c[0])
        c = st.cons.get(("cmp", SWAP[pred], b, a))
        if c is not None:
            return bool(c[0])
        # x - y style intervals
        if a[0] == "s" and b[0] == "s" and pred in ("slt", "sle", "sgt", "sge", "eq", "ne"):
            la, ha, _ = st.cons.get(a[1], TOP)
            lb, hb, _ = st.cons.get(b[1], TOP)
            if ha < lb:
                return pred in ("slt", "sle", "ne")
            if la > hb:
                return pred in ("sgt", "sge", "ne")
        return None

    @staticmethod
    def ck(pred, a, b):
        if pred == "eq":
            return a == b
        if pred == "ne":
            return a != b
        if pred[0] == "u":
            a &= (1 << 64) - 1
            b &= (1 << 64) - 1
        r = pred[1:]
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[r]

    def assume(self, st, v, truth):
        """Refine st with v being true/false; False if infeasible."""
        v = self.norm(st, v)
        if v[0] == "k":
            return bool(v[1]) == truth
        if v[0] == "cmp":
            return self.assumecmp(st, v[1] if truth else NEG[v[1]], v[2], v[3])
        if v[0] == "s":
            return self.assumecmp(st, "ne" if truth else "eq", v, ("k", 0))
        n = self.isnull(st, v)
        if n is not None:
            return (not n) == truth
        if v[0] == "p" and v[1][0] == "t":
            return self.assumecmp(st, "ne" if truth else "eq", ("s", v[1][1]), ("k", 0))
        return True

    def assumecmp(self, st, pred, a, b):
        a = self.norm(st, a)
        b = self.norm(st, b)
        r = self.evalcmp(st, ("cmp", pred, a, b))
        if r is not None:
            return r
        if a[0] == "k" and b[0] != "k":
            a, b, pred = b, a, SWAP[pred]
        if a[0] == "cmp" and b[0] == "k":
            if pred == "eq":
                if b[1] in (0, 1):
                    return self.assume(st, a, bool(b[1]))
                return False
            if pred == "ne":
                if b[1] in (0, 1):
                    return self.assume(st, a, not b[1])
                return True
            if pred in ("sgt", "ugt") and b[1] == 0:
                return self.assume(st, a, True)
            if pred in ("slt", "ult") and b[1] == 1:
                return self.assume(st, a, False)
            return True
        if a[0] == "p" and b[0] == "k" and a[1][0] == "t" and a[2] == 0:
            a = ("s", a[1][1])
        if a[0] == "s" and b[0] == "k":
            lo, hi, ne = st.cons.get(a[1], TOP)
            c = b[1]
            if pred == "eq":
                lo = hi = c
            elif pred == "ne":
                ne = ne | {c}
            elif pred == "slt":
                hi = min(hi, c - 1)
            elif pred == "sle":
                hi = min(hi, c)
            elif pred == "sgt":
                lo = max(lo, c + 1)
            elif pred == "sge":
                lo = max(lo, c)
            elif pred == "ult" and c > 0:
                lo = max(lo, 0)
                hi = min(hi, c - 1)
            elif pred == "ule" and c >= 0:
                lo = max(lo, 0)
                hi = min(hi, c)
            elif pred == "ugt" and c == 0:
                ne = ne | {0}
            elif pred in ("ugt", "uge") and lo >= 0 and c >= 0:
                lo = max(lo, c + (pred == "ugt"))
            elif pred == "uge" and c > 0:
                ne = ne | {0}
            while lo in ne:
                lo += 1
            while hi in ne:
                hi -= 1
            if lo > hi:
                return False
            ne = frozenset(x for x in ne if isinstance(x, tuple) or lo <= x <= hi)
            if (lo, hi, ne) != TOP:
                st.cons[a[1]] = (lo, hi, ne)
            return self.derived(st, a[1])
        if pred == "eq" and a[0] == "s" and b[0] in ("f", "p"):
            self.subst(st, a[1], b)
            return True
        if pred == "eq" and b[0] == "s" and a[0] in ("f", "p"):
            self.subst(st, b[1], a)
            return True
        if pred == "ne" and a[0] == "s" and b[0] == "f":
            lo, hi, ne = st.cons.get(a[1], TOP)
            st.cons[a[1]] = (lo, hi, ne | {b})
            return True
        if pred == "eq" and a[0] == "s" and b[0] == "s":
            ca = st.cons.get(a[1], TOP)
            cb = st.cons.get(b[1], TOP)
            c = (max(ca[0], cb[0]), min(ca[1], cb[1]), ca[2] | cb[2])
            if c[0] > c[1]:
                return False
            if not (b[1] and b[1][0] in ("&", "+", "~")) and not (a[1] and a[1][0] in ("&", "+", "~")):
                self.subst(st, b[1], a)
            if c != TOP:
                st.cons[a[1]] = c
            return True
        if a[0] in ("s", "p") and b[0] in ("s", "p", "f"):
            st.cons[("cmp", pred, a, b)] = (1, 1, frozenset())
            st.cons[("cmp", NEG[pred], a, b)] = (0, 0, frozenset())
        return True

    def derived(self, st, tok):
        """Propagate knowledge between a token and masks of it."""
        c = st.cons.get(tok)
        if c and tok and tok[0] == "&" and c[0] > 0 or (c and tok and tok[0] == "&" and 0 in c[2]):
            b = tok[1]
            cb = st.cons.get(b, TOP)
            if cb[0] == cb[1] == 0:
                return False
            st.cons[b] = (cb[0], cb[1], cb[2] | {0})
        if c and c[0] == c[1] and isinstance(c[0], int):
            for t in list(st.cons):
                if t and t[0] == "&" and t[1] == tok and isinstance(t[2], int):
                    v = c[0] & t[2]
                    ct = st.cons[t]
                    if v < ct[0] or v > ct[1] or v in ct[2]:
                        return False
        if c and tok and tok[0] == "+" and isinstance(tok[2], int):
            b = tok[1]
            lo, hi, ne = st.cons.get(b, TOP)
            lo = max(lo, c[0] - tok[2])
            hi = min(hi, c[1] - tok[2])
            if lo > hi:
                return False
            if (lo, hi, ne) != TOP:
                st.cons[b] = (lo, hi, ne)
        return True

    def subst(self, st, tok, v):
        m = {tok: v}
        for k, x in list(st.env.items()):
            n = vsub(x, m)
            if n is None:
                del st.env[k]
            elif n != x:
                st.env[k] = n
        nm = {}
        for (b, off), e in st.mem.items():
            if b == ("t", tok):
                if v[0] == "s":
                    b = ("t", v[1])
                elif v[0] == "p":
                    off = None if off is None or v[2] is None else off + v[2]
                    b = v[1]
                    if off is None:
                        continue
                else:
                    continue
            n = vsub(e[0], m)
            if n is None:
                continue
            nm.setdefault((b, off), (n, e[1], e[2]))
        st.mem = nm
        c = st.cons.pop(tok, None)
        for k in list(st.cons):
            s = set()
            ttokens(k, s)
            if tok in s:
                x = st.cons.pop(k)
                if k and k[0] == "cmp":
                    n = vsub(k, m)
                    if n is not None:
                        st.cons[n] = x
                elif k and k[0] in ("&", "+", "~") and v[0] == "s" and v[1][0] not in ("&", "+", "~"):
                    st.cons[(k[0], v[1], k[2])] = x
        st.prop = self.rule.rename(st.prop, m)

    def fresh(self, st, tok, cons=None):
        """(Re)define a token; an older incarnation (loop iteration) is renamed apart."""
        used = set()
        for x in st.env.values():
            vtokens(x, used)
        for (b, off), e in st.mem.items():
            if b[0] == "t":
                ttokens(b[1], used)
            vtokens(e[0], used)
        used.update(self.rule.tokens(st.prop))
        if tok in used:
            old = ("o", tok)
            if old in used:
                self.forget(st, old)
            c = st.cons.get(tok)
            self.subst(st, tok, ("s", old))
            if c:
                st.cons[old] = c
        else:
            st.cons.pop(tok, None)
            for k in list(st.cons):
                s = set()
                ttokens(k, s)
                if tok in s:
                    del st.cons[k]
        if cons and cons != TOP:
            st.cons[tok] = cons
        return ("s", tok)

    def forget(self, st, tok):
        for k, x in list(st.env.items()):
            s = set()
            vtokens(x, s)
            if tok in s:
                del st.env[k]
        for k, e in list(st.mem.items()):
            s = set()
            vtokens(e[0], s)
            if k[0][0] == "t":
                ttokens(k[0][1], s)
            if tok in s:
                del st.mem[k]
        for k in list(st.cons):
            s = set()
            ttokens(k, s)
            if tok in s:
                del st.cons[k]
        st.prop = self.rule.rename(st.prop, {tok: ("s", ("lost",))})

    def gc(self, st, fn, ctx, live):
        """Drop dead SSA values of this frame and unreachable constraints."""
        env = st.env
        for k in [k for k in env if k[0] == ctx and (k[1], k[2]) not in live]:
            del env[k]
        used = set()
        for x in env.values():
            vtokens(x, used)
        for (b, off), e in st.mem.items():
            if b[0] == "t":
                ttokens(b[1], used)
            vtokens(e[0], used)
        used.update(self.rule.tokens(st.prop))
        # memory cells hanging off dead tokens are unreachable
        roots = set()
        for x in env.values():
            vtokens(x, roots)
        roots.update(self.rule.tokens(st.prop))
        changed = True
        cells = list(st.mem.items())
        alive = {}
        while changed:
            changed = False
            rest = []
            for k, e in cells:
                b = k[0]
                if b[0] != "t" or b[1] in roots or b[1] == ("undef",):
                    alive[k] = e
                    n = len(roots)
                    vtokens(e[0], roots)
                    if b[0] == "t":
                        ttokens(b[1], roots)
                    if len(roots) != n:
                        changed = True
                else:
                    rest.append((k, e))
            cells = rest
        st.mem = alive
        for t in list(st.cons):
            s = set()
            ttokens(t, s)
            base = t
            while base and base[0] in ("&", "+", "~"):
                base = base[1]
            if t[0] == "cmp":
                if not s <= roots | {t}:
                    bad = False
                    for x in s:
                        if x != t and x not in roots:
                            bad = True
                    if bad:
                        del st.cons[t]
            elif t not in roots and base not in roots:
                del st.cons[t]

    # -- memory -----------------------------------------------------------------------------
    def keyof(self, i, ptr):
        k = self.keys.get(id(i))
        if k is None:
            k = self.keys[id(i)] = self.m.ptrkey(i.fn, ptr)
        return k

    def mayalias(self, b1, k1, t1, b2, k2, t2):
        if b1[0] == "al" and b2[0] == "al":
            return b1 == b2
        if b1[0] == "g" and b2[0] == "g":
            return b1 == b2
        if b1[0] == "al" or b2[0] == "al":
            al = b1 if b1[0] == "al" else b2
            other = b2 if b1[0] == "al" else b1
            if other[0] == "g":
                return False
            if not self.sum.escapes(al[2], al[3]):
                return False
        if b1 == ERRNO or b2 == ERRNO:
            return False
        if b1[0] == "t" and self.rule.distinct(b1[1]) or b2[0] == "t" and self.rule.distinct(b2[1]):
            return b1 == b2
        if k1[0] == "raw" or k2[0] == "raw" or isinstance(k1[1], str) or isinstance(k2[1], str):
            return t1 == t2 or t1 is None or t2 is None
        if k1 == k2:
            return True
        # a global or a local of scalar type accessed by name cannot be a struct field
        if k1[0].startswith("g:") or k2[0].startswith("g:") or k1[0].startswith("al:") or k2[0].startswith("al:"):
            return False
        # a cell inside an embedded struct may be named through the outer one
        return self.sum.nested_overlap(k1, k2) and (t1 == t2 or t1 is None or t2 is None)

    def kill(self, st, b, off, key, ty):
        for k in list(st.mem):
            kb, ko = k
            e = st.mem[k]
            if kb == b:
                if off is None or ko is None or ko == off:
                    del st.mem[k]
                continue
            if self.mayalias(kb, e[1], e[2], b, key, ty):
                del st.mem[k]

    def read(self, st, v, key, ty, tok):
        a = self.addr(st, v)
        if a is not None and a[1] is None and a[0][0] == "g" and self.m.garray(a[0][1]):
            return self.fresh(st, ("ca", a[0][1]) + tok)
        if a is None or a[1] is None:
            return self.fresh(st, tok)
        e = st.mem.get(a)
        if e is not None:
            return self.norm(st, e[0])
        if a[0][0] == "g":
            c = self.constread(a[0][1], a[1])
            if c is not None:
                return c
        r = self.fresh(st, tok, (0, 1, frozenset()) if ty == "i1" else None)
        if ty == "i8" and self.sum.isbool(key):
            st.cons[tok] = (0, 1, frozenset())
        st.mem[a] = (r, key, ty)
        return r

    def constread(self, g, off):
        gl = self.m.globals.get(g)
        if not gl or not gl["const"] or "flat" not in gl:
            return None
        for abs_, s, o, v in gl["flat"]:
            if abs_ == off:
                if v[0] == "c":
                    return ("k", v[1])
                if v[0] == "null":
                    return ("k", 0)
                if v[0] == "f":
                    return ("f", v[1])
                if v[0] == "g":
                    return ("p", ("g", v[1]), v[2])
                return None
        if gl.get("init") == ["zero"]:
            return ("k", 0)
        return None

    def write(self, st, v, key, ty, x):
        a = self.addr(st, v)
        if a is None:
            return
        e = st.mem.get(a) if a[1] is not None else None
        if e is not None and e[2] == ty and (key[0] == "raw" or isinstance(key[1], str)) and not (e[1][0] == "raw" or isinstance(e[1][1], str)):
            key = e[1]      # a plain pointer to a cell that is known to be this field
        self.kill(st, a[0], a[1], key, ty)
        if a[1] is not None:
            st.mem[a] = (x, key, ty)

    def peek(self, st, base, off):
        e = st.mem.get((base, off))
        return self.norm(st, e[0]) if e else None

    # -- running ----------------------------------------------------------------------------
    def run(self, fname, setup=None):
        """Analyse one entry function from an unconstrained state. Returns exit states."""
        fn = self.m.funcs[fname]
        st = State(prop=self.rule.init())
        ctx = self.ctx((fname,))
        args = []
        for n in range(len(fn.params)):
            v = ("s", ("arg", ctx, n))
            args.append(v)
        if setup:
            setup(self, st, args, ctx)
        self.stack = []
        return self.exec(fn, args, st, (fname,), 0)

    def ctx(self, cs):
        if cs not in self.ctxids:
            self.ctxids[cs] = len(self.ctxids)
        return self.ctxids[cs]

    @staticmethod
    def widen(old, c):
        """Interval widening: an unstable bound goes to infinity."""
        return (old[0] if c[0] >= old[0] else (0 if c[0] >= 0 and old[0] >= 0 else -INF),
                old[1] if c[1] <= old[1] else INF, c[2])

    def join(self, a, b, tag, widen=False):
        """Least precise common abstraction of two states with equal property state."""
        r = State(prop=a.prop, trail=a.trail)
        self.merged += 1
        n = 0
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is None:
                continue
            if v == w:
                r.env[k] = v
            else:
                la, lb = self.rng(a, v), self.rng(b, w)
                t = ("j", tag, k)
                r.env[k] = ("s", t)
                c = (min(la[0], lb[0]), max(la[1], lb[1]), frozenset(
                    x for x in la[2] | lb[2] if self.excl(a, v, la, x) and self.excl(b, w, lb, x)))
                if widen:
                    c = self.widen(la, c)
                na, nb = self.isnull(a, v), self.isnull(b, w)
                if na is False and nb is False:
                    c = (c[0], c[1], c[2] | {0})
                if c != TOP:
                    r.cons[t] = c
        for k, e in a.mem.items():
            f = b.mem.get(k)
            if f is None:
                continue
            if e[0] == f[0]:
                r.mem[k] = e
            else:
                la, lb = self.rng(a, e[0]), self.rng(b, f[0])
                t = ("j", tag, "m", k)
                c = (min(la[0], lb[0]), max(la[1], lb[1]), la[2] & lb[2])
                if widen:
                    c = self.widen(la, c)
                na, nb = self.isnull(a, e[0]), self.isnull(b, f[0])
                if na is False and nb is False:
                    c = (c[0], c[1], c[2] | {0})
                r.mem[k] = (("s", t), e[1], e[2])
                if c != TOP:
                    r.cons[t] = c
        for t, c in a.cons.items():
            d = b.cons.get(t)
            if d is None or t in r.cons:
                continue
            x = (min(c[0], d[0]), max(c[1], d[1]), frozenset(
                y for y in c[2] | d[2] if self.excl2(c, y) and self.excl2(d, y)))
            if widen:
                x = self.widen(c, x)
            if x != TOP:
                if t[0] == "cmp" and x[0] != x[1]:
                    continue
                r.cons[t] = x
        return r

    @staticmethod
    def excl2(c, x):
        if x in c[2]:
            return True
        return not isinstance(x, tuple) and (x < c[0] or x > c[1])

    def excl(self, st, v, r, x):
        if x in r[2]:
            return True
        if isinstance(x, tuple):
            return False
        if x == 0 and self.isnull(st, v) is False:
            return True
        return x < r[0] or x > r[1]

    def exec(self, fn, args, st, cs, depth):
        ctx = self.ctx(cs)
        self.visited_funcs.add(fn.name)
        self.stack.append(fn.name)
        try:
            return self._exec(fn, args, st, cs, ctx, depth)
        finally:
            self.stack.pop()

    def _exec(self, fn, args, st, cs, ctx, depth):
        st = st.copy()
        for n, v in enumerate(args):
            if n < len(fn.params):
                st.env[(ctx, "a", n)] = v
        pending = {0: [(None, st)]}
        visited = defaultdict(set)
        acc = {}
        outs = []
        outkeys = set()
        rule = self.rule
        while pending:
            b = min(pending, key=lambda x: fn.rpon.get(x, 1 << 30))
            todo = pending.pop(b)
            # apply phis, prune, dedupe
            ready = []
            before = set(visited[b])
            for frm, s in todo:
                if frm is not None:
                    self.phis(fn, ctx, b, frm, s)
                self.gc(s, fn, ctx, fn.live_in[b] | {("i", i.id) for i in fn.blocks[b] if i.op == "phi"})
                k = s.key()
                if k in visited[b]:
                    continue
                visited[b].add(k)
                ready.append(s)
            if len(ready) > rule.maxstates:
                groups = {}
                for s in ready:
                    g = rule.mergekey(s)
                    if g in groups:
                        groups[g] = self.join(groups[g], s, (ctx, b))
                    else:
                        groups[g] = s
                ready = []
                for s in groups.values():
                    k = s.key()
                    if k not in before:
                        visited[b].add(k)
                        ready.append(s)
            if len(visited[b]) > 6 * rule.maxstates:
                # widen: accumulate one state per property state
                out = []
                for s in ready:
                    g = rule.mergekey(s)
                    p = acc.get((b, g))
                    if p is not None:
                        w = self.join(p, s, (ctx, b, "w"), True)
                        w.prop = s.prop
                        if w.key() == p.key():
                            continue
                        acc[(b, g)] = w
                        out.append(w)
                    else:
                        acc[(b, g)] = s
                        out.append(s)
                ready = out
            for s in ready:
                for s2, succ in self.block(fn, ctx, cs, b, s.copy(), depth):
                    if succ is None:
                        # return
                        rv = s2.env.pop((ctx, "ret"), ("k", 0))
                        rule.leave(self, s2, fn, rv, ctx)
                        self.dropframe(s2, ctx, rv)
                        k = (s2.key(), rv)
                        if k not in outkeys:
                            outkeys.add(k)
                            outs.append((s2, rv))
                    else:
                        self.gc(s2, fn, ctx, fn.live_out[b])
                        pending.setdefault(succ, []).append((b, s2))
        return self.limit_outs(outs, ctx)

    def limit_outs(self, outs, ctx):
        if len(outs) <= self.rule.maxstates:
            return outs
        groups = {}
        for s, rv in outs:
            c = rv if rv[0] in ("k", "f") else self.rvclass(s, rv)
            g = (self.rule.mergekey(s), c)
            if g in groups:
                p, prv = groups[g]
                key = (ctx, "ret", 0)
                p.env[key] = prv
                s.env[key] = rv
                j = self.join(p, s, (ctx, "out"))
                nv = j.env.pop(key, ("s", ("jr", ctx)))
                groups[g] = (j, nv)
            else:
                groups[g] = (s, rv)
        return list(groups.values())

    def rvclass(self, s, rv):
        n = self.isnull(s, rv)
        r = self.rng(s, rv)
        return (n, r[0] >= 0, r[1] < 0)

    def dropframe(self, st, ctx, rv):
        for k in [k for k in st.env if k[0] == ctx]:
            del st.env[k]
        for k in [k for k in st.mem if k[0][0] == "al" and k[0][1] == ctx]:
            del st.mem[k]

    def phis(self, fn, ctx, b, frm, st):
        new = {}
        lcs = {}
        for i in fn.blocks[b]:
            if i.op != "phi":
                break
            for v, p in i.phis:
                if p == frm:
                    x = self.val(st, fn, ctx, v)
                    if (frm, b) in fn.backedges and v[0] == "i" and x[0] in ("k", "s") and \
                            fn.instrs[v[1]].op in ("add", "sub", "mul", "shl", "lshr", "getelementptr") and \
                            not (self.rule.unroll and x[0] == "k" and abs(x[1]) <= self.rule.unroll):
                        # loop counter: do not unroll
                        lo = self.rng(st, x)[0]
                        lcs[i.id] = (0 if lo >= 0 else -INF, INF, frozenset([0]) if self.isnull(st, x) is False else frozenset())
                    else:
                        new[i.id] = x
                    break
        for id_, x in new.items():
            st.env[(ctx, "i", id_)] = x
        for id_ in lcs:
            st.env.pop((ctx, "i", id_), None)
        for id_, c in lcs.items():
            st.env[(ctx, "i", id_)] = self.fresh(st, ("lc", ctx, id_), c)

    def block(self, fn, ctx, cs, b, st, depth):
        """Execute a block; yields (state, successor or None)."""
        work = [(st, 0)]
        out = []
        blk = fn.blocks[b]
        while work:
            s, pos = work.pop()
            while True:
                i = blk[pos]
                op = i.op
                self.steps += 1
                if self.steps > self.rule.budget:
                    raise Budget("%s: step budget exhausted in %s" % (self.rule.name, fn.name))
                if op == "phi":
                    pos += 1
                    continue
                self.rule.instr(self, s, i, ctx)
                if op == "br":
                    if not i.ops:
                        out.append((s, i.targets[0]))
                    else:
                        v = self.val(s, fn, ctx, i.ops[0])
                        s2 = s.copy()
                        if i.targets[0] == i.targets[1]:
                            out.append((s, i.targets[0]))
                        else:
                            if self.assume(s, v, True):
                                s.trail = ("%s:%s true" % (i.file, i.line), s.trail)
                                out.append((s, i.targets[0]))
                            if self.assume(s2, v, False):
                                s2.trail = ("%s:%s false" % (i.file, i.line), s2.trail)
                                out.append((s2, i.targets[1]))
                    break
                if op == "switch":
                    v = self.val(s, fn, ctx, i.ops[0])
                    d = s.copy()
                    ok = True
                    for c, t in i.cases:
                        s2 = s.copy()
                        if self.assumecmp(s2, "eq", v, ("k", c)):
                            s2.trail = ("%s:%s case %d" % (i.file, i.line, c), s2.trail)
                            out.append((s2, t))
                        ok = ok and self.assumecmp(d, "ne", v, ("k", c))
                    if ok:
                        d.trail = ("%s:%s default" % (i.file, i.line), d.trail)
                        out.append((d, i.targets[0]))
                    break
                if op == "ret":
                    s.env[(ctx, "ret")] = self.val(s, fn, ctx, i.ops[0]) if i.ops else ("k", 0)
                    out.append((s, None))
                    self.paths += 1
                    break
                if op == "unreachable":
                    break
                if op == "call":
                    res = self.docall(fn, ctx, cs, i, s, depth)
                    if i.noret:
                        break
                    if not res:
                        break
                    for s2, rv in res[1:]:
                        if i.ty:
                            s2.env[(ctx, "i", i.id)] = rv
                        work.append((s2, pos + 1))
                    s, rv = res[0]
                    if i.ty:
                        s.env[(ctx, "i", i.id)] = rv
                    pos += 1
                    continue
                if op == "select":
                    c = self.val(s, fn, ctx, i.ops[0])
                    s2 = s.copy()
                    t = self.assume(s, c, True)
                    f = self.assume(s2, c, False)
                    if f:
                        s2.env[(ctx, "i", i.id)] = self.val(s2, fn, ctx, i.ops[2])
                        if not t:
                            s = s2
                            pos += 1
                            continue
                        work.append((s2, pos + 1))
                    elif not t:
                        break
                    s.env[(ctx, "i", i.id)] = self.val(s, fn, ctx, i.ops[1])
                    pos += 1
                    continue
                if op == "cmpxchg":
                    # split: the exchange succeeded (the old value equals the expected one) or failed
                    self.simple(fn, ctx, i, s)
                    s2 = s.copy()
                    s.env[(ctx, "i", i.id)] = self.val(s, fn, ctx, i.ops[1])
                    s.env[(ctx, "i", ("cx", i.id))] = ("k", 1)
                    s2.env[(ctx, "i", ("cx", i.id))] = ("k", 0)
                    s.trail = ("%s:%s exchange succeeds" % (i.file, i.line), s.trail)
                    s2.trail = ("%s:%s exchange fails" % (i.file, i.line), s2.trail)
                    self.rule.atomic(self, s, i, ctx, True)
                    self.rule.atomic(self, s2, i, ctx, False)
                    work.append((s2, pos + 1))
                    pos += 1
                    continue
                self.simple(fn, ctx, i, s)
                if op == "load":
                    alt = self.rule.split(self, s, i, ctx)
                    if alt is not None:
                        # case split over the values this load can yield
                        for s2 in alt[1:]:
                            work.append((s2, pos + 1))
                        if not alt:
                            break
                        s = alt[0]
                        pos += 1
                        continue
                if op == "atomicrmw":
                    self.rule.atomic(self, s, i, ctx, True)
                pos += 1
        return out

    def simple(self, fn, ctx, i, s):
        op = i.op
        tok = ("v", ctx, i.id)
        if op == "store":
            x = self.val(s, fn, ctx, i.ops[0])
            p = self.val(s, fn, ctx, i.ops[1])
            key = self.keyof(i, i.ops[1])
            self.rule.store(self, s, i, (p, key), x, ctx)
            if i.order or i.vol:
                a = self.addr(s, p)
                if a:
                    self.kill(s, a[0], a[1], key, i.vt)
                    if not i.order and a[1] is not None:
                        s.mem[a] = (x, key, i.vt)
            else:
                self.write(s, p, key, i.vt, x)
            return
        if op == "load":
            p = self.val(s, fn, ctx, i.ops[0])
            key = self.keyof(i, i.ops[0])
            if i.order or i.vol:
                r = self.fresh(s, tok)
            else:
                r = self.read(s, p, key, i.ty, tok)
            self.rule.load(self, s, i, (p, key), r, ctx)
            s.env[(ctx, "i", i.id)] = r
            return
        e = s.env
        k = (ctx, "i", i.id)
        if op == "alloca":
            base = ("al", ctx, fn.name, i.id)
            for c in [c for c in s.mem if c[0] == base]:
                del s.mem[c]
            e[k] = ("p", base, 0)
            return
        if op == "getelementptr":
            p = self.val(s, fn, ctx, i.ops[0])
            off = i.off
            if off is None:
                # variable index: known constant?
                if len(i.ops) == 2 and i.esz:
                    n = self.val(s, fn, ctx, i.ops[1])
                    if n[0] == "k":
                        off = n[1] * i.esz
                elif self.rule.unroll and i.vo and i.coff is not None:
                    ns = [self.val(s, fn, ctx, x) for x, _ in i.vo]
                    if all(n[0] == "k" for n in ns):
                        off = i.coff + sum(n[1] * sc for n, (_, sc) in zip(ns, i.vo))
            if p[0] == "s":
                if off == 0:
                    e[k] = p
                else:
                    e[k] = ("p", ("t", p[1]), off)
            elif p[0] == "p":
                if off is None or p[2] is None:
                    e[k] = ("p", p[1], None)
                else:
                    n = p[2] + off
                    e[k] = ("s", p[1][1]) if p[1][0] == "t" and n == 0 else ("p", p[1], n)
            else:
                if p == ("k", 0) and self.rule.nullfields:
                    e[k] = p if off == 0 else ("p", ("g", "<null>"), off)
                    return
                e[k] = self.fresh(s, tok, (-INF, INF, frozenset([0])) if p == ("k", 0) else None)
            return
        if op == "icmp":
            a = self.val(s, fn, ctx, i.ops[0])
            b = self.val(s, fn, ctx, i.ops[1])
            e[k] = self.norm(s, ("cmp", i.pred, a, b)) if not (a[0] == "cmp" and b[0] == "cmp") else self.fresh(s, tok, (0, 1, frozenset()))
            if e[k][0] == "cmp" and (a[0] == "cmp" or b[0] == "cmp"):
                c, o = (a, b) if a[0] == "cmp" else (b, a)
                if o[0] == "k" and i.pred in ("eq", "ne") and o[1] in (0, 1):
                    pos = (i.pred == "eq") == (o[1] == 1)
                    e[k] = c if pos else ("cmp", NEG[c[1]], c[2], c[3])
                elif o[0] != "k":
                    e[k] = self.fresh(s, tok, (0, 1, frozenset()))
            return
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
            a = self.val(s, fn, ctx, i.ops[0])
            if a[0] == "k":
                n = a[1]
                if op == "trunc":
                    w = width(i.ty)
                    n &= (1 << w) - 1
                    if w > 1 and n >> (w - 1):
                        n -= 1 << w
                elif op == "zext" and n < 0:
                    src = self.opwidth(fn, i.ops[0])
                    n &= (1 << src) - 1
                e[k] = ("k", n)
                return
            if op == "zext" and a[0] == "s":
                lo, hi, ne = s.cons.get(a[1], TOP)
                if lo < 0 and self.opwidth(fn, i.ops[0]) not in (1, 8):
                    # keep zero-ness only
                    if lo == -INF:
                        e[k] = a
                    else:
                        e[k] = self.fresh(s, tok, (0, INF, frozenset([0]) & ne))
                    return
            if op == "trunc" and i.ty == "i1" and a[0] == "s":
                d = fn.instrs[i.ops[0][1]] if i.ops[0][0] == "i" else None
                e[k] = a
                return
            e[k] = a
            return
        if op in ("and", "or", "xor", "add", "sub", "mul", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            a = self.val(s, fn, ctx, i.ops[0])
            b = self.val(s, fn, ctx, i.ops[1])
            e[k] = self.arith(s, op, a, b, tok, i)
            return
        if op == "extractvalue":
            a = s.env.get((ctx, i.ops[0][0], i.ops[0][1]))
            cx = s.env.get((ctx, "i", ("cx", i.ops[0][1]))) if i.ops[0][0] == "i" else None
            if cx is not None and a is not None:
                e[k] = cx if i.ty == "i1" else a
                return
            e[k] = self.fresh(s, tok, (0, 1, frozenset()) if i.ty == "i1" else None)
            return
        if op in ("cmpxchg", "atomicrmw"):
            p = self.val(s, fn, ctx, i.ops[0])
            key = self.keyof(i, i.ops[0])
            a = self.addr(s, p)
            if a:
                self.kill(s, a[0], a[1], key, None)
            e[k] = self.fresh(s, tok)
            return
        if i.ty:
            e[k] = self.fresh(s, tok, (0, 1, frozenset()) if i.ty == "i1" else None)

    def opwidth(self, fn, op):
        if op[0] == "i":
            return width(fn.instrs[op[1]].ty)
        if op[0] == "a":
            return width(fn.ptypes[op[1]])
        return 64

    def arith(self, s, op, a, b, tok, i):
        if a[0] == "k" and b[0] == "k":
            x, y = a[1], b[1]
            w = width(i.ty)
            if i.ty == "i1":
                w = 1
            r = None
            if op == "and":
                r = x & y
            elif op == "or":
                r = x | y
            elif op == "xor":
                r = x ^ y
            elif op == "add":
                r = x + y
            elif op == "sub":
                r = x - y
            elif op == "mul":
                r = x * y
            elif op == "shl" and 0 <= y < 64:
                r = x << y
            elif op in ("lshr", "ashr") and 0 <= y < 64:
                r = (x & ((1 << w) - 1)) >> y if op == "lshr" else x >> y
            elif y and op in ("sdiv", "udiv") and x >= 0 and y > 0:
                r = x // y
            elif y and op in ("srem", "urem") and x >= 0 and y > 0:
                r = x % y
            if r is not None:
                r &= (1 << w) - 1
                if w > 1 and r >> (w - 1):
                    r -= 1 << w
                return ("k", r)
        if b[0] != "k" and a[0] == "k" and op in ("and", "or", "xor", "add", "mul"):
            a, b = b, a
        if b[0] == "k":
            n = b[1]
            if n == 0 and op in ("or", "xor", "add", "sub", "shl", "lshr", "ashr"):
                return a
            if n == 0 and op in ("and", "mul"):
                return ("k", 0)
            if op == "and" and n == -1:
                return a
            if i.ty == "i1" and a[0] == "cmp":
                if op == "xor" and n in (1, -1):
                    return ("cmp", NEG[a[1]], a[2], a[3])
                if op == "and" and n in (1, -1):
                    return a
            if i.ty == "i1" and op == "xor" and a[0] == "s":
                return ("cmp", "eq", a, ("k", 0))
            if a[0] == "s" and op == "xor" and n == -1:
                # bitwise not
                if a[1][0] not in ("&", "+", "~"):
                    return ("s", ("~", a[1], 0))
                return self.fresh(s, tok)
            if a[0] == "s" and a[1][0] not in ("&", "+", "~"):
                if op == "and":
                    t = ("&", a[1], n)
                    c = s.cons.get(a[1], TOP)
                    if t not in s.cons and n > 0:
                        s.cons[t] = (0, n, frozenset())
                    return ("s", t)
                if op in ("add", "sub"):
                    d = n if op == "add" else -n
                    t = ("+", a[1], d)
                    lo, hi, ne = s.cons.get(a[1], TOP)
                    s.cons.pop(t, None)
                    c = (lo + d, hi + d, frozenset(x + d for x in ne if not isinstance(x, tuple)))
                    if c != TOP:
                        s.cons[t] = c
                    return ("s", t)
            if a[0] == "s" and op in ("add", "sub"):
                d = n if op == "add" else -n
                if a[1][0] == "+" and a[1][2] + d == 0:
                    return ("s", a[1][1])       # undoes an earlier step
                lo, hi, ne = s.cons.get(a[1], TOP)
                return self.fresh(s, tok, (lo + d, hi + d, frozenset()))
            if op == "or" and n == -1:
                return b
            if op in ("lshr", "ashr") and 0 < n < 64:
                lo, hi, _ = self.rng(s, a)
                if lo >= 0:
                    return self.fresh(s, tok, (lo >> n if lo != INF else INF, hi >> n if hi != INF else INF, frozenset()))
            if op == "or" and a[0] == "s" and n > 0:
                return self.fresh(s, tok, (-INF, INF, frozenset([0])))
            if op in ("lshr", "udiv"):
                return self.fresh(s, tok, (0, INF, frozenset()))
        if op in ("and", "or") and i.ty == "i1":
            # non-short-circuit booleans: decide when one side decides
            for x in (a, b):
                r = self.rng(s, x)
                if r[0] == r[1]:
                    if op == "and" and r[0] == 0:
                        return ("k", 0)
                    if op == "or" and r[0] == 1:
                        return ("k", 1)
            return self.fresh(s, tok, (0, 1, frozenset()))
        if op in ("and",) and a[0] in ("cmp",) and b[0] in ("cmp", "s"):
            return self.fresh(s, tok, (0, INF, frozenset()))
        la, lb = self.rng(s, a), self.rng(s, b)
        if op == "add":
            return self.fresh(s, tok, (la[0] + lb[0], la[1] + lb[1], frozenset()))
        if op == "sub":
            return self.fresh(s, tok, (la[0] - lb[1], la[1] - lb[0], frozenset()))
        if op == "and" and (la[0] >= 0 or lb[0] >= 0):
            return self.fresh(s, tok, (0, min(x for x in (la[1] if la[0] >= 0 else INF, lb[1] if lb[0] >= 0 else INF)), frozenset()))
        if op in ("or", "mul", "udiv", "lshr", "urem") and la[0] >= 0 and lb[0] >= 0:
            return self.fresh(s, tok, (0, INF, frozenset()))
        return self.fresh(s, tok, (0, 1, frozenset()) if i.ty == "i1" else None)

    # -- calls ------------------------------------------------------------------------------
    def docall(self, fn, ctx, cs, i, s, depth):
        args = [self.val(s, fn, ctx, a) for a in i.args]
        c = i.callee
        if c[0] == "f":
            names = [c[1]]
        else:
            v = self.val(s, fn, ctx, c) if c[0] in ("i", "a") else None
            if v and v[0] == "f":
                names = [v[1]]
            else:
                names = sorted(self.m.callees(i))
                if v and v[0] == "s":
                    ne = s.cons.get(v[1], TOP)[2]
                    names = [n for n in names if ("f", n) not in ne]
        if not names:
            names = ["<unknown>"]
        out = []
        for n, name in enumerate(names):
            st = s if n == len(names) - 1 else s.copy()
            out.extend(self.call1(fn, ctx, cs, i, st, name, args, depth, len(names) > 1))
        return out

    def copier(self, f):
        """A straight-line helper that copies memory through untyped pointers: always followed, its effect depends on the arguments."""
        c = self.m.__dict__.setdefault("_copiers", {})
        if f.name not in c:
            names = [i.callee[1] if i.callee[0] == "f" else "" for i in self.m.calls(f)]
            c[f.name] = len(f.blocks) == 1 and len(f.blocks[0]) <= 40 and any(n.startswith("llvm.memcpy") for n in names) and all(n.startswith("llvm.") for n in names)
        return c[f.name]

    def call1(self, fn, ctx, cs, i, st, name, args, depth, multi=False):
        r = self.rule.call(self, st, i, name, args, ctx)
        if r is not None:
            return r
        f = self.m.funcs.get(name)
        if f is not None and not f.decl and name not in self.stack and (self.copier(f) or depth < self.rule.inline_depth
                and self.rule.inline(self, f, depth + 1)):
            out = self.exec(f, args, st, cs + ((i.id, name),), depth + 1)
            return [] if i.noret else out
        if i.noret:
            return []
        if f is not None and not f.decl:
            if f.noreturn:
                return []
            self.effect(st, i, name, args, ctx)
            rv = self.fresh(st, ("r", ctx, i.id), self.sum.retrange(name))
            self.rule.post_call(self, st, i, name, args, rv, ctx)
            return [(st, rv)]
        return self.external(st, i, name, args, ctx)

    def effect(self, st, i, name, args, ctx):
        mods, raws, all_ = self.sum.mods(name)
        argbases = set()
        for a in args:
            x = self.addr(st, a)
            if x:
                argbases.add(x[0])
        for k in list(st.mem):
            b, off = k
            if b == ERRNO:
                if self.sum.touches_errno(name):
                    del st.mem[k]
                continue
            e = st.mem[k]
            if b[0] == "al" and b not in argbases and not self.sum.escapes(b[2], b[3]):
                continue
            key, ty = e[1], e[2]
            if all_ or self.modhit(key, ty, mods, raws):
                del st.mem[k]

    def modhit(self, key, ty, mods, raws):
        if key in mods:
            return True
        if ty in raws:
            return True
        if key[0] == "raw" or isinstance(key[1], str):
            # a cell reached through a plain pointer: hit by any store of its type
            return ty in self.sum.modtypes(mods)
        if key[0].startswith("al:") or key[0].startswith("g:"):
            return False
        return self.sum.nested_hit(key, mods)

    def external(self, st, i, name, args, ctx):
        tok = ("r", ctx, i.id)
        if name == "__errno_location":
            return [(st, ("p", ERRNO, 0))]
        if name.startswith("llvm."):
            if name.startswith("llvm.mem"):
                a = self.addr(st, args[0]) if args else None
                if a:
                    n = args[2][1] if len(args) > 2 and args[2][0] == "k" else None
                    src = self.addr(st, args[1]) if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove") else None
                    cells = {}
                    if name.startswith("llvm.memset") and n is not None and args[1] == ("k", 0) and a[1] is not None:
                        for (b, o), e in st.mem.items():
                            w = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8}.get(e[2])
                            if b == a[0] and w and o is not None and a[1] <= o and o + w <= a[1] + n:
                                cells[(b, o)] = (("k", 0), e[1], e[2])
                    if src and n is not None and src[1] is not None and a[1] is not None:
                        for (b, o), e in st.mem.items():
                            if b == src[0] and o is not None and src[1] <= o < src[1] + n:
                                cells[(a[0], a[1] + o - src[1])] = e
                    for k in list(st.mem):
                        if k[0] == a[0]:
                            if n is None or a[1] is None or k[1] is None or a[1] <= k[1] < a[1] + n:
                                del st.mem[k]
                        elif a[0][0] == "t" and k[0][0] == "t" and not self.rule.distinct(a[0][1]) and not self.rule.distinct(k[0][1]):
                            del st.mem[k]
                    st.mem.update(cells)
                    if name.startswith("llvm.memset") and n is not None and n <= 4096 and args[1] == ("k", 0) and a[1] is not None:
                        self.zeroed(st, a, n)
                return [(st, ("k", 0))]
            if name == "llvm.threadlocal.address.p0":
                return [(st, args[0])]
            rv = self.fresh(st, tok, (0, INF, frozenset()) if name.startswith(("llvm.ct", "llvm.abs")) else None)
            return [(st, rv)]
        if name in libc.NORETURN:
            return []
        if name not in libc.NO_ERRNO:
            e = self.fresh(st, ("errno", ctx, i.id))
            st.mem[(ERRNO, 0)] = (e, ("g:errno", 0), "i32")
        ro = libc.READONLY_ARGS
        if name not in ro:
            for a in args:
                x = self.addr(st, a)
                if x and x[0] != ERRNO:
                    for k in list(st.mem):
                        if k[0] == x[0] and x[0][0] in ("al", "g", "t"):
                            if k[1] is None or x[1] is None or k[1] >= x[1]:
                                del st.mem[k]
        rv = self.fresh(st, tok, libc.RET.get(name))
        if name in libc.RET_ARG0 and args:
            rv = args[0]
        self.rule.post_call(self, st, i, name, args, rv, ctx)
        return [(st, rv)]

    def zeroed(self, st, a, n):
        b = a[0]
        fn = b[2] if b[0] == "al" else None
        if fn is None:
            return
        t = self.m.funcs[fn].instrs[b[3]].at
        ty = self.m.types.get(t)
        if not ty:
            return
        for nm, off, sz, dt in ty["fields"]:
            if a[1] <= off < a[1] + n and sz in (1, 4, 8) and not dt.startswith(("struct", "union")) and not dt.endswith("[]"):
                st.mem[(b, off)] = (("k", 0), (t, off), {1: "i8", 4: "i32", 8: "i64"}[sz] if not dt.endswith("*") else "ptr")


class Summaries:
    """Flow-insensitive, transitive modification summaries per function (type-based)."""
    _cache = {}

    @classmethod
    def get(cls, m):
        s = cls._cache.get(id(m))
        if s is None:
            s = cls._cache[id(m)] = cls(m)
        return s

    def __init__(self, m):
        self.m = m
        direct = {}
        self.keytypes = {}
        for f in m.defined.values():
            keys, raws, al = set(), set(), False
            for blk in f.blocks:
                for i in blk:
                    if i.op == "store":
                        k = m.ptrkey(f, i.ops[1])
                        p = i.ops[1]
                        if k[0].startswith("al:"):
                            continue
                        if k[0] == "raw":
                            raws.add(i.vt)
                        else:
                            keys.add(k)
                            self.keytypes.setdefault(k, set()).add(i.vt)
                            if isinstance(k[1], str):
                                raws.add(i.vt)
                    elif i.op in ("cmpxchg", "atomicrmw"):
                        k = m.ptrkey(f, i.ops[0])
                        keys.add(k) if k[0] != "raw" else raws.add("i64")
                    elif i.op == "call":
                        for n in m.callees(i):
                            g = m.funcs.get(n)
                            if g is None or g.decl:
                                if n.startswith("llvm.mem"):
                                    k = m.ptrkey(f, i.args[0])
                                    if k[0] in m.types:
                                        keys.add((k[0], "*"))
                                    elif k[0] == "raw":
                                        # memcpy/memset through an untyped pointer
                                        st = self._argstruct(f, i.args[0])
                                        if st:
                                            keys.add((st, "*"))
                                        else:
                                            raws.add("i8")
                                elif n not in libc.READONLY_ARGS and not n.startswith("llvm."):
                                    for a in i.args:
                                        if a[0] in ("i", "a", "g"):
                                            k = m.ptrkey(f, a)
                                            if k[0] in m.types:
                                                keys.add((k[0], "*"))
                                            elif k[0].startswith("g:"):
                                                keys.add(k)
            direct[f.name] = (keys, raws)
        # SCC-free fixpoint
        self._mods = {n: (set(k), set(r)) for n, (k, r) in direct.items()}
        changed = True
        while changed:
            changed = False
            for n, f in m.defined.items():
                k, r = self._mods[n]
                a = (len(k), len(r))
                for c in m.cg[n]:
                    if c in self._mods and c != n:
                        k |= self._mods[c][0]
                        r |= self._mods[c][1]
                if (len(k), len(r)) != a:
                    changed = True
        self._modtypes = {}
        self._esc = {}
        self._ret = {}
        self._errno = None
        self._bool = set()
        for t, d in m.types.items():
            for n, off, sz, ty in d["fields"]:
                if ty == "_Bool":
                    self._bool.add((t, off))

    def _argstruct(self, f, v):
        if v[0] == "a" and v[1] + 1 < len(f.dtypes):
            d = f.dtypes[v[1] + 1]
            if d.startswith("struct ") and d.endswith("*") and not d.endswith("**"):
                return "struct." + d[7:-1]
        return None

    def isbool(self, key):
        return key in self._bool

    def mods(self, name):
        m = self._mods.get(name)
        if m is None:
            return (set(), set(), False)
        return (m[0], m[1], False)

    def modtypes(self, mods):
        k = id(mods)
        r = self._modtypes.get(k)
        if r is None:
            r = set()
            for x in mods:
                r |= self.keytypes.get(x, set())
            self._modtypes[k] = r
        return r

    def nested_overlap(self, k1, k2):
        """Could two struct cells overlap because one struct embeds the other?"""
        return self._embeds(k1, k2) or self._embeds(k2, k1)

    def _embeds(self, outer, inner):
        t = self.m.types.get(outer[0])
        if not t or not isinstance(outer[1], int) or not isinstance(inner[1], int):
            return False
        want = "struct " + inner[0].split(".", 1)[-1]
        for n, off, sz, ty in t["fields"]:
            if ty == want and off + inner[1] == outer[1]:
                return True
        return False

    def nested_hit(self, key, mods):
        st = (key[0], "*")
        if st in mods:
            return True
        ck = (key, id(mods))
        r = self._modtypes.get(ck)
        if r is None:
            r = False
            for x in mods:
                if isinstance(x[1], int) and self.nested_overlap(key, x):
                    r = True
                    break
                if x[1] == "*":
                    t = self.m.types.get(key[0])
                    want = "struct " + x[0].split(".", 1)[-1]
                    if t:
                        for n, off, sz, ty in t["fields"]:
                            if ty == want and isinstance(key[1], int) and off <= key[1] < off + sz:
                                r = True
            self._modtypes[ck] = r
        return r

    def escapes(self, fname, aid):
        k = (fname, aid)
        r = self._esc.get(k)
        if r is None:
            self._esc[k] = r = self._escape(self.m.funcs[fname], ("i", aid), set())
        return r

    def _escape(self, f, v, seen):
        """Is this pointer stored anywhere (beyond argument passing)?"""
        if (f.name, v) in seen:
            return False
        seen.add((f.name, v))
        for blk in f.blocks:
            for i in blk:
                if i.op == "store" and i.ops[0][:2] == v:
                    return True
                if i.op == "getelementptr" and i.ops[0][:2] == v or i.op in ("bitcast", "select") and v in [o[:2] for o in i.ops]:
                    if self._escape(f, ("i", i.id), seen):
                        return True
                if i.op == "phi" and any(o[:2] == v for o, _ in i.phis):
                    if self._escape(f, ("i", i.id), seen):
                        return True
                if i.op == "call":
                    for n, a in enumerate(i.args):
                        if a[:2] == v:
                            for c in self.m.callees(i):
                                g = self.m.funcs.get(c)
                                if g and not g.decl and n < len(g.params):
                                    if self._escape(g, ("a", n), seen):
                                        return True
                if i.op == "ret" and i.ops and i.ops[0][:2] == v and v[0] == "i":
                    return True
        return False

    def retrange(self, name, seen=None):
        """Hull of the values a function can return (flow-insensitive)."""
        if name in self._ret:
            return self._ret[name]
        seen = seen or set()
        if name in seen:
            return None
        f = self.m.funcs.get(name)
        if f is None or f.decl:
            return libc.RET.get(name)
        r = None
        for b in f.rpo:
            t = f.blocks[b][-1]
            if t.op == "ret" and t.ops:
                x = self._vrange(f, t.ops[0], seen | {name}, set())
                r = x if r is None else (min(r[0], x[0]), max(r[1], x[1]), r[2] & x[2])
        if r == TOP:
            r = None
        if not seen:
            self._ret[name] = r
        return r

    def _vrange(self, f, v, seen, vis):
        if v[0] == "c":
            return (v[1], v[1], frozenset([0]) if v[1] else frozenset())
        if v[0] == "null":
            return (0, 0, frozenset())
        if v[0] in ("g", "f"):
            return (-INF, INF, frozenset([0]))
        if v[0] == "i":
            if v[:2] in vis:
                return (INF, -INF, frozenset([0]))
            vis = vis | {v[:2]}
            i = f.instrs[v[1]]
            if i.op == "phi":
                r = None
                for x, _ in i.phis:
                    y = self._vrange(f, x, seen, vis)
                    r = y if r is None else (min(r[0], y[0]), max(r[1], y[1]), r[2] & y[2])
                return r
            if i.op in ("icmp", "fcmp"):
                return (0, 1, frozenset())
            if i.op in ("zext", "sext", "trunc"):
                return self._vrange(f, i.ops[0], seen, vis) if i.op != "trunc" else (TOP if i.ty != "i1" else (0, 1, frozenset()))
            if i.op == "select":
                a = self._vrange(f, i.ops[1], seen, vis)
                b = self._vrange(f, i.ops[2], seen, vis)
                return (min(a[0], b[0]), max(a[1], b[1]), a[2] & b[2])
            if i.op == "call" and i.callee[0] == "f":
                return self.retrange(i.callee[1], seen) or TOP
            if i.ty == "i1":
                return (0, 1, frozenset())
        return TOP

    def touches_errno(self, name):
        if self._errno is None:
            bad = {n for n, f in self.m.funcs.items() if f.decl and n not in libc.NO_ERRNO and not n.startswith("llvm.")}
            bad.add("__errno_location")
            self._errno = self.m.may_reach(bad)
        return name in self._errno

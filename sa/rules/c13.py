"""C13: facts the optimizer derives from the outcome of a test are justified by that outcome."""
from ..engine import Engine, Rule, INF, ERRNO
from .execcommon import direct_reach
from ..patterns import table
from .opcommon import evaluators, visitors, OPS

OUT = ("after_true", "after_false")
LMAX, LMIN = (1 << 63) - 1, -(1 << 63)
# What the outcome of a comparison says about the compared value x: which part of {x<N, x==N, x>N} it rules out.
CMP = {("BFS_INT_EQUAL", 0): {"below", "above"}, ("BFS_INT_EQUAL", 1): {"eq"},
       ("BFS_INT_LESS", 0): {"eq", "above"}, ("BFS_INT_LESS", 1): {"below"},
       ("BFS_INT_GREATER", 0): {"below", "eq"}, ("BFS_INT_GREATER", 1): {"above"}}
RANGES = {"DEPTH_RANGE": "eval_depth", "GID_RANGE": "eval_gid", "INUM_RANGE": "eval_inum", "LINKS_RANGE": "eval_links",
          "SIZE_RANGE": "eval_size", "UID_RANGE": "eval_uid"}
PREDS = {"ACL_PRED": "eval_acl", "CAPABLE_PRED": "eval_capable", "EMPTY_PRED": "eval_empty", "HIDDEN_PRED": "eval_hidden",
         "NOGROUP_PRED": "eval_nogroup", "NOUSER_PRED": "eval_nouser", "SPARSE_PRED": "eval_sparse", "XATTR_PRED": "eval_xattr"}
ACCESS = {"READABLE_PRED": 4, "WRITABLE_PRED": 2, "EXECUTABLE_PRED": 1}
LOOKUP = {"bfs_getgrgid": ("NOGROUP_PRED", "GID_RANGE"), "bfs_getpwuid": ("NOUSER_PRED", "UID_RANGE")}


class Layout:
    def __init__(self, m, R):
        self.m = m
        f = m.field
        for s, n in (("bfs_opt", "before"), ("bfs_opt", "after_true"), ("bfs_opt", "after_false"), ("bfs_opt", "impure"), ("bfs_opt", "ignore_result"), ("df_domain", "preds"), ("df_domain", "ranges"),
                     ("df_domain", "types"), ("df_domain", "xtypes"), ("df_range", "min"), ("df_range", "max"), ("bfs_expr", "num"),
                     ("bfs_expr", "int_cmp"), ("bfs_expr", "size_unit"), ("bfs_expr", "ino"), ("bfs_expr", "eval_fn")):
            R.require(f(s, n), "field %s.%s vanished" % (s, n))
        for e in list(RANGES) + list(PREDS) + list(ACCESS) + ["PRED_TYPES", "RANGE_TYPES", "BFS_INT_EQUAL", "BFS_INT_LESS", "BFS_INT_GREATER", "BFS_BYTES", "BFS_REG", "BFS_DIR", "BFS_LNK"]:
            R.require(e in m.enums, "enumerator %s vanished" % e)
        self.dom = {n: f("bfs_opt", n)[1] for n in ("before",) + OUT}
        self.np, self.nr = m.enums["PRED_TYPES"], m.enums["RANGE_TYPES"]
        self.preds, self.ranges = f("df_domain", "preds")[1], f("df_domain", "ranges")[1]
        self.types, self.xtypes = f("df_domain", "types")[1], f("df_domain", "xtypes")[1]
        self.min, self.max = f("df_range", "min")[1], f("df_range", "max")[1]
        self.size = m.types["struct.df_domain"]["size"] if "size" in m.types["struct.df_domain"] else max(self.types, self.xtypes) + 4
        self.rname = {m.enums[k]: k for k in RANGES}
        self.pname = {m.enums[k]: k for k in list(PREDS) + list(ACCESS)}

    def cells(self):
        """offset within a df_domain -> (kind, index)"""
        out = {}
        for k in range(self.np):
            out[self.preds + 4 * k] = ("pred", k)
        for k in range(self.nr):
            out[self.ranges + 16 * k + self.min] = ("min", k)
            out[self.ranges + 16 * k + self.max] = ("max", k)
        out[self.types] = ("types", 0)
        out[self.xtypes] = ("xtypes", 0)
        return out

    def key(self, cell, off):
        if cell[0] == "min":
            return ("struct.df_range", self.min), "i64"
        if cell[0] == "max":
            return ("struct.df_range", self.max), "i64"
        return ("struct.df_domain", off), "i32"


def affine(v):
    """value -> (base, constant); base None for constants"""
    if v[0] == "k":
        return None, v[1]
    if v[0] == "s" and v[1] and v[1][0] == "+" and isinstance(v[1][2], int):
        return v[1][1], v[1][2]
    if v[0] == "s":
        return v[1], 0
    return ("?", v), 0


def known_le(eng, st, a, b):
    """a <= b on this path"""
    if a == b:
        return True
    for p, want in (("sle", True), ("slt", True), ("sgt", False), ("eq", True)):
        r = eng.evalcmp(st, ("cmp", p, a, b))
        if r is want:
            return True
    fa, fb = affine(a), affine(b)
    if fa[0] == fb[0]:
        return fa[1] <= fb[1]
    return eng.rng(st, a)[1] <= eng.rng(st, b)[0]


class LeafRule(Rule):
    """prop = (lookup,): the last user/group lookup (function, argument, found)"""
    name = "leaf"
    maxstates = 400
    budget = 300000
    inline_depth = 7
    unroll = 64

    def __init__(self, m, L, E, entry, inl, joins, inits, bottoms, dfname):
        self.m, self.L, self.E, self.entry, self.inl = m, L, E, entry, inl
        self.joins, self.inits, self.bottoms, self.dfname = joins, inits, bottoms, dfname
        self.writers = direct_reach(m, {x for x, f in m.defined.items() if f.file == m.defined[entry].file and x not in inl and any(
            i.op == "store" and m.ptrkey(f, i.ops[1])[0] in ("struct.df_range", "struct.df_domain") for b in f.blocks for i in b)})
        self.opt = self.expr = None
        self.cell = {}
        for d, off in L.dom.items():
            for o, c in L.cells().items():
                self.cell[off + o] = (d,) + c
        self.facts = self.consts = 0

    def init(self):
        return (None, (), ())

    def tokens(self, prop):
        out = [t for t in (self.opt, self.expr) if t]
        if prop[0] and prop[0][1][0] == "s":
            out.append(prop[0][1][1])
        return out

    def rename(self, prop, mp):
        if prop[0] and prop[0][1][0] == "s" and prop[0][1][1] in mp:
            prop = ((prop[0][0], mp[prop[0][1][1]], prop[0][2]),) + prop[1:]
        return prop

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    # -- helpers
    def where(self, eng, st, v):
        a = eng.addr(st, v)
        if a is None or a[0] != ("t", self.opt):
            return None
        return self.cell.get(a[1], ("?",)) if a[1] is not None else ("?",)

    def domain(self, eng, st, v):
        a = eng.addr(st, v)
        if a and a[0] == ("t", self.opt):
            for d, off in self.L.dom.items():
                if off == a[1]:
                    return d
        return None

    def num(self, eng, st):
        return eng.peek(st, ("t", self.expr), self.m.field("bfs_expr", "num")[1])

    def enumval(self, eng, st, field):
        v = eng.peek(st, ("t", self.expr), self.m.field("bfs_expr", field)[1])
        return v[1] if v and v[0] == "k" else None

    def call(self, eng, st, i, name, args, ctx):
        m = self.m
        if name in LOOKUP:
            out = []
            for found in (False, True):
                s = st.copy()
                self.outside(eng, s, i, name, args, ctx)
                e = eng.fresh(s, ("errno", ctx, i.id))
                s.mem[(ERRNO, 0)] = (e, ("g:errno", 0), "i32")
                s.prop = ((name, args[1], found),) + s.prop[1:]
                out.append((s, eng.fresh(s, ("r", ctx, i.id), (-INF, INF, frozenset([0]))) if found else ("k", 0)))
            return out
        f = m.funcs.get(name)
        if f is not None and not f.decl and f.dtypes and f.dtypes[0] == "struct bfs_expr*" and any(a[0] == "p" and a[1][0] == "g" and a[1][1] in self.dfname for a in args):
            # another visitor (annotation): returns the expression, does not touch the facts
            n = f.dtypes[1:].index("struct bfs_expr*")
            bad = st.copy()
            return [(st, args[n]), (bad, ("k", 0))] if eng.isnull(st, args[n]) is not True else [(st, ("k", 0))]
        if self.isconst(f):
            return self.replaced(eng, st, i, args[f.dtypes[1:].index("_Bool")], ctx)
        if name in self.joins:
            d, s = self.domain(eng, st, args[0]), eng.addr(st, args[1])
            if d is None:
                if eng.addr(st, args[0]) and eng.addr(st, args[0])[0] == ("t", self.opt):
                    eng.report(i, "facts are merged into an unexpected place", st)
                eng.effect(st, i, name, args, ctx)
                return [(st, ("k", 0))]
            sd = self.domain(eng, st, args[1])
            if d in OUT and sd in OUT and d != sd:
                # whatever was said about one outcome now also covers the other
                st.prop = st.prop[:2] + (tuple(x for x in st.prop[2] if x != "i%d" % (d == "after_true")),)
            self.reset(eng, st, d, i, ctx)
            return [(st, ("k", 0))]
        if name in self.inits:
            d = self.domain(eng, st, args[0])
            if d is not None and self.inits[name] != "top":
                ok = d in OUT and self.never(eng, st, OUT.index(d))
                if not ok:
                    eng.report(i, "an outcome of %s is declared impossible although nothing rules it out" % self.E, st)
            if d is not None:
                self.reset(eng, st, d, i, ctx)
            return [(st, ("k", 0))]
        if name in self.bottoms:
            d = self.domain(eng, st, args[0])
            s2 = st.copy()
            s2.prop = s2.prop[:1] + (tuple(sorted(set(s2.prop[1]) | {d or "?"})),) + s2.prop[2:]
            return [(s2, ("k", 1)), (st, ("k", 0))]
        if name.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
            a = eng.addr(st, args[0])
            if a and a[0] == ("t", self.opt):
                d, s = self.domain(eng, st, args[0]), self.domain(eng, st, args[1])
                if d and s == "before" and d in OUT and name.startswith("llvm.memcpy"):
                    self.reset(eng, st, d, i, ctx)
                    st.prop = st.prop[:2] + (tuple(sorted(set(st.prop[2]) | {"e" + d})),)
                else:
                    eng.report(i, "facts are replaced wholesale while visiting %s" % self.E, st)
                return [(st, ("k", 0))]
        if name not in self.inl and name not in self.writers and not i.noret and not name.startswith("llvm.") and name != "__errno_location":
            # cannot change the facts (they are only reached through opt) nor what the test compares
            self.outside(eng, st, i, name, args, ctx)
            return [(st, eng.fresh(st, ("r", ctx, i.id), eng.sum.retrange(name)))]
        return None

    def outside(self, eng, st, i, name, args, ctx):
        ke = {self.m.field("bfs_expr", x)[1] for x in ("eval_fn", "num", "ino", "int_cmp", "size_unit", "pure", "always_true", "always_false")}
        ko = {self.m.field("bfs_opt", x)[1] for x in ("ignore_result", "impure")}
        keep = {k: e for k, e in st.mem.items() if k[0] == ("t", self.opt) and (k[1] in self.cell or k[1] in ko) or k[0][0] == "t" and (k[0][1] == self.expr or k[0][1][:1] == ("const",)) and k[1] in ke}
        eng.effect(st, i, name, args, ctx)
        st.mem.update(keep)

    def isconst(self, f):
        return f is not None and not f.decl and f.dtypes and f.dtypes[0] == "struct bfs_expr*" and sorted(f.dtypes[1:]) in (["_Bool", "struct bfs_opt*"], ["_Bool", "struct bfs_ctx*"], ["_Bool", "struct bfs_ctx*", "struct bfs_opt*"])

    def known(self, eng, st, tok, field):
        """field of tok is known to be non-zero"""
        k = self.m.field(*field)
        v = eng.peek(st, ("t", tok), k[1])
        return v is not None and (v[0] == "k" and v[1] != 0 or eng.rng(st, v)[0] > 0 or 0 in eng.rng(st, v)[2])

    def replaced(self, eng, st, i, v, ctx):
        """opt_const(): -true, -false or NULL takes the place of the expression"""
        k = self.m.field("bfs_expr", "eval_fn")
        tok = ("const", ctx, i.id)
        know, ev = set(st.prop[1]), st.prop[2]
        lo, hi, _ = eng.rng(st, v)
        who = self.E or "an expression"
        self.consts += 1
        if "before" not in know and not any(x[0] in "ci" for x in ev) and not self.known(eng, st, self.expr, ("bfs_expr", "pure")):
            eng.report(i, "%s is replaced by a constant although it may have side effects" % who, st)
        out = [(st.copy(), ("k", 0))]
        for n, e in ((0, "eval_false"), (1, "eval_true")):
            if not lo <= n <= hi:
                continue
            s = st.copy()
            eng.assumecmp(s, "eq", v, ("k", n))
            mark = "c%d" % n
            if not ("before" in know or OUT[1 if n else 0] in know):
                if self.known(eng, s, self.opt, ("bfs_opt", "ignore_result")):
                    mark = "i%d" % n if not self.never(eng, s, 1 if n else 0) else mark
                elif not self.never(eng, s, 1 if n else 0):
                    eng.report(i, "%s is replaced by -%s although the other outcome was not shown to be impossible" % (who, "true" if n else "false"), s)
            s.prop = s.prop[:2] + (tuple(sorted(set(ev) | {mark})),)
            r = eng.fresh(s, tok, (-INF, INF, frozenset([0])))
            s.mem[(("t", tok), k[1])] = (("f", e), k, "ptr")
            out.append((s, r))
        return out

    def never(self, eng, st, n):
        """the always_* mark of the expression rules outcome n (0 true, 1 false) out"""
        return self.known(eng, st, self.expr, ("bfs_expr", ("always_false", "always_true")[n]))

    def reset(self, eng, st, d, i, ctx):
        off = self.L.dom[d]
        st.prop = st.prop[:1] + (tuple(x for x in st.prop[1] if x != d),) + st.prop[2:]
        for o, c in self.L.cells().items():
            k, ty = self.L.key(c, o)
            st.mem[(("t", self.opt), off + o)] = (eng.fresh(st, ("df", d) + c + (i.id,)), k, ty)

    def store(self, eng, st, i, loc, v, ctx):
        w = self.where(eng, st, loc[0])
        if w is None:
            return
        if w[0] == "?":
            a = eng.addr(st, loc[0])
            if a[1] is None or any(off <= a[1] < off + self.L.size for off in self.L.dom.values()):
                eng.report(i, "a fact is changed at a position that cannot be determined", st)
            return
        d, kind, idx = w
        cur = eng.peek(st, ("t", self.opt), eng.addr(st, loc[0])[1])
        if cur == v:
            return
        if d == "before":
            eng.report(i, "the facts known before %s are changed while visiting it" % self.E, st)
            return
        o = OUT.index(d)
        if cur is None:
            eng.report(i, "a fact is changed after it became unknown", st)
            return
        if kind in ("min", "max"):
            self.range(eng, st, i, d, o, kind, idx, cur, v)
        else:
            self.mask(eng, st, i, ctx, d, o, kind, idx, cur, v)

    def range(self, eng, st, i, d, o, kind, idx, cur, v):
        E, m, L = self.E, self.m, self.L
        what = "%s.%s of %s" % (L.rname.get(idx, "range %d" % idx), kind, d)
        if known_le(eng, st, v, cur) if kind == "min" else known_le(eng, st, cur, v):
            return
        own = RANGES.get(L.rname.get(idx))
        allowed, ref = None, None
        if own == E:
            ref = self.num(eng, st)
            v0 = eng.peek(st, ("t", self.expr), m.field("bfs_expr", "int_cmp")[1])
            lo, hi, ne = eng.rng(st, v0) if v0 is not None else (-INF, INF, frozenset())
            for x in ("BFS_INT_EQUAL", "BFS_INT_LESS", "BFS_INT_GREATER"):
                if lo <= m.enums[x] <= hi and m.enums[x] not in ne:
                    allowed = CMP[(x, o)] if allowed is None else allowed & CMP[(x, o)]
            if E == "eval_size" and self.enumval(eng, st, "size_unit") != m.enums["BFS_BYTES"]:
                eng.report(i, "%s narrows %s without knowing that its unit is bytes" % (E, what), st)
                return
        elif E == "eval_samefile" and L.rname.get(idx) == "INUM_RANGE" and o == 0:
            ref = eng.peek(st, ("t", self.expr), m.field("bfs_expr", "ino")[1])
            allowed = {"below", "above"}
        elif E == "eval_empty" and L.rname.get(idx) == "SIZE_RANGE":
            ref = ("k", 0)
            ts = [eng.peek(st, ("t", self.opt), L.dom[x] + L.types) for x in ("before", d)]
            if ("k", 1 << m.enums["BFS_REG"]) in ts:
                allowed = CMP[("BFS_INT_EQUAL", o)]
        if allowed is None or ref is None:
            eng.report(i, "%s narrows %s, which this outcome says nothing about" % (E, what), st)
            return
        self.facts += 1
        rb, rc = affine(ref)
        vb, vc = affine(v)
        cb, cc = affine(cur) if cur is not None else (("?",), 0)
        removed = None
        # the only value left is the extreme one: emptying the range removes just that
        other = eng.peek(st, ("t", self.opt), L.dom[d] + L.ranges + 16 * idx + (L.max if kind == "min" else L.min))
        ext = LMIN if kind == "min" else LMAX
        if other is not None and eng.rng(st, other)[:2] == (ext, ext) == eng.rng(st, ref)[:2]:
            removed = {"eq"}
        elif vb == rb:
            j = vc - rc
            if cb == rb:
                k = cc - rc
                lo, hi = (k, j - 1) if kind == "min" else (j + 1, k)
                removed = {n for n, c in (("below", lo < 0), ("eq", lo <= 0 <= hi), ("above", hi > 0)) if c and lo <= hi}
            elif kind == "min":
                removed = {"below"} if j <= 0 else {"below", "eq"} if j == 1 else {"below", "eq", "above"}
            else:
                removed = {"above"} if j >= 0 else {"above", "eq"} if j == -1 else {"below", "eq", "above"}
        if removed is None:
            eng.report(i, "%s narrows %s by something other than the value it compares with" % (E, what), st)
        elif not removed <= allowed:
            eng.report(i, "%s rules out values of %s that this outcome allows (%s the compared value)" % (E, what, " and ".join(sorted({"below": "below", "eq": "equal to", "above": "above"}[x] for x in removed - allowed))), st)

    def decode(self, eng, st, fn, ctx, op, cur, depth=0):
        """('and', [factors]) / ('or',) of the current cell"""
        v = eng.val(st, fn, ctx, op)
        if v == cur:
            return "cell"
        if op[0] != "i" or depth > 6:
            return v
        i = fn.instrs[op[1]]
        if i.op in ("trunc", "zext", "sext"):
            return self.decode(eng, st, fn, ctx, i.ops[0], cur, depth + 1)
        if i.op in ("and", "or"):
            return (i.op, self.decode(eng, st, fn, ctx, i.ops[0], cur, depth + 1), self.decode(eng, st, fn, ctx, i.ops[1], cur, depth + 1))
        return v

    def mask(self, eng, st, i, ctx, d, o, kind, idx, cur, v):
        E, m, L = self.E, self.m, self.L
        what = {"types": "-type of %s" % d, "xtypes": "-xtype of %s" % d}.get(kind) or "%s of %s" % (L.pname.get(idx, "predicate %d" % idx), d)
        x = self.decode(eng, st, i.fn, ctx, i.ops[0], cur)
        if isinstance(x, tuple) and x[0] == "or" and "cell" in x[1:]:
            return
        if not (isinstance(x, tuple) and x[0] == "and" and "cell" in x[1:]):
            if v[0] == "s" and v[1] and v[1][0] == "&" and cur == ("s", v[1][1]):
                x = ("and", "cell", ("k", v[1][2]))
            else:
                eng.report(i, "%s is replaced instead of narrowed while visiting %s" % (what, E), st)
                return
        f = x[2] if x[1] == "cell" else x[1]
        self.facts += 1
        num = self.num(eng, st)
        if kind == "pred":
            name = L.pname.get(idx)
            if f[0] != "k":
                eng.report(i, "%s is narrowed to an unknown value while visiting %s" % (what, E), st)
                return
            left = f[1] & 3
            if left == 3:
                return
            if PREDS.get(name) == E:
                if not left & (2 >> o):
                    eng.report(i, "%s being %s is taken to make %s %s" % (E, "false" if o else "true", what, {0: "impossible", 1: "false", 2: "true"}[left]), st)
                return
            if name in ACCESS and E == "eval_access":
                c = st.cons.get(("&", num[1], ACCESS[name])) if num and num[0] == "s" else None
                bit = c and (c[0] > 0 or 0 in c[2]) or num and num[0] == "k" and num[1] & ACCESS[name]
                if not bit or not left & (2 >> o):
                    eng.report(i, "%s being %s is taken to decide %s" % (E, "false" if o else "true", what), st)
                return
            lk = st.prop[0]
            if lk and LOOKUP[lk[0]][0] == name:
                ro = L.dom[d] + L.ranges + 16 * m.enums[LOOKUP[lk[0]][1]]
                mn, mx = (eng.peek(st, ("t", self.opt), ro + x) for x in (L.min, L.max))
                same = mn is not None and mn == mx == lk[1]
                e = eng.peek(st, ERRNO, 0)
                if same and (left & 1 if lk[2] else left & 2 and e == ("k", 0)):
                    return
                eng.report(i, "%s is decided from %s() of an ID the file need not have, or from a failed lookup" % (what, lk[0]), st)
                return
            eng.report(i, "%s decides %s, which it says nothing about" % (E, what), st)
            return
        b = lambda *n: sum(1 << m.enums[x] for x in n)
        if E == {"types": "eval_type", "xtypes": "eval_xtype"}[kind]:
            if o == 0 and f == num and f is not None or o == 1 and num and num[0] == "s" and f == ("s", ("~", num[1], 0)):
                return
        elif kind == "types" and o == 0 and f[0] == "k":
            need = {"eval_empty": b("BFS_REG", "BFS_DIR"), "eval_lname": b("BFS_LNK")}.get(E)
            if need is not None and f[1] & need == need:
                return
        eng.report(i, "%s rules out types in %s that this outcome allows" % (E, what), st)

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name] or eng.isnull(st, rv) is True:
            return
        for n in (0, 1):
            if "i%d" % n in st.prop[2]:
                eng.report(fn.blocks[fn.rpo[-1]][-1], "an ignored expression that can be %s is replaced by -%s without keeping what is known when it is %s" % (
                    "false" if n else "true", "true" if n else "false", "false" if n else "true"), st)


def setup_opt(m, L, rule, E):
    k_fn = m.field("bfs_expr", "eval_fn")

    def setup(eng, st, args, ctx):
        f = m.funcs[rule.entry]
        rule.opt = args[f.dtypes[1:].index("struct bfs_opt*")][1]
        rule.expr = args[f.dtypes[1:].index("struct bfs_expr*")][1]
        st.cons[rule.expr] = (-INF, INF, frozenset([0]))
        for d, off in L.dom.items():
            for o, c in L.cells().items():
                k, ty = L.key(c, o)
                st.mem[(("t", rule.opt), off + o)] = (("s", ("df", d) + c), k, ty)
        if E:
            st.mem[(("t", rule.expr), k_fn[1])] = (("f", E), k_fn, "ptr")
        for base, sn, n in ((rule.opt, "bfs_opt", "ignore_result"), (rule.expr, "bfs_expr", "pure"), (rule.expr, "bfs_expr", "always_true"), (rule.expr, "bfs_expr", "always_false")):
            k = m.field(sn, n)
            st.mem[(("t", base), k[1])] = (("s", (n,)), k, "i8")
            st.cons[(n,)] = (0, 1, frozenset())
        k = m.field("bfs_expr", "int_cmp")
        st.mem[(("t", rule.expr), k[1])] = (("s", ("int_cmp",)), k, "i32")
        ns = [m.enums[x] for x in ("BFS_INT_EQUAL", "BFS_INT_LESS", "BFS_INT_GREATER")]
        st.cons[("int_cmp",)] = (min(ns), max(ns), frozenset())
        k = m.field("bfs_opt", "impure")
        st.mem[(("t", rule.opt), k[1])] = (("s", ("impure",)), k, "ptr")
        st.cons[("impure",)] = (-INF, INF, frozenset([0]))
        if getattr(rule, "must", None):
            k = m.field("bfs_expr", "pure")
            st.mem[(("t", rule.expr), k[1])] = (("k", 0), k, "i8")
        for n in ("num", "ino"):
            k = m.field("bfs_expr", n)
            st.mem[(("t", rule.expr), k[1])] = (("s", ("expr", "value%d" % k[1])), k, "i64")
    return setup


def domain_functions(m):
    """joins: void (df_domain *, const df_domain *); inits: void (df_domain *); bottoms: bool (const df_domain *)"""
    D = "struct df_domain*"
    joins, inits, bools = set(), set(), set()
    for f in m.defined.values():
        if not f.dtypes:
            continue
        if f.dtypes[1:] == [D, D] and f.dtypes[0] == "void":
            joins.add(f.name)
        elif f.dtypes[1:] == [D] and f.dtypes[0] == "void":
            inits.add(f.name)
        elif f.dtypes[1:] == [D] and f.dtypes[0] in ("bool", "_Bool"):
            bools.add(f.name)
    return joins, inits, bools


class DomRule(Rule):
    """Functions on a single fact set or a pair of them. prop = cells of the destination known to cover the source's"""
    name = "domain"
    maxstates = 6
    budget = 200000
    inline_depth = 4
    unroll = 64

    def __init__(self, m, L, entry):
        self.m, self.L, self.entry = m, L, entry
        if len(m.funcs[entry].dtypes) == 2:
            self.maxstates = 100
        self.cells = L.cells()
        self.args = ()
        self.rets = []
        self.exits = []

    def init(self):
        return ()

    def tokens(self, prop):
        return self.args

    def inline(self, eng, fn, depth):
        return fn.file == self.m.defined[self.entry].file and not fn.va

    def setup(self, eng, st, args, ctx):
        self.args = [a[1] for a in args]
        for n, t in enumerate(self.args):
            for o, c in self.cells.items():
                k, ty = self.L.key(c, o)
                st.mem[(("t", t), o)] = (("s", ("df", n) + c), k, ty)

    def update(self, eng, st):
        if len(self.args) < 2:
            return
        done = set(st.prop)
        D, S = (("t", t) for t in self.args[:2])
        for o, c in self.cells.items():
            if c not in done and c[0] in ("min", "max"):
                d, s = eng.peek(st, D, o), eng.peek(st, S, o)
                if d is not None and s is not None and (known_le(eng, st, d, s) if c[0] == "min" else known_le(eng, st, s, d)):
                    done.add(c)
        if len(done) != len(st.prop):
            st.prop = tuple(sorted(done))

    def split(self, eng, st, i, ctx):
        self.update(eng, st)
        return None

    def store(self, eng, st, i, loc, v, ctx):
        self.update(eng, st)
        if len(self.args) < 2:
            return
        a = eng.addr(st, loc[0])
        if not a or a[0] != ("t", self.args[0]):
            if a and a[0] == ("t", self.args[1]):
                eng.report(i, "%s() changes the facts it merges from" % self.entry, st)
            return
        c = self.cells.get(a[1])
        if c is None:
            eng.report(i, "%s() changes a fact at a position that cannot be determined" % self.entry, st)
            return
        cur, src = eng.peek(st, a[0], a[1]), eng.peek(st, ("t", self.args[1]), a[1])
        if c[0] in ("min", "max"):
            if not (known_le(eng, st, v, cur) if c[0] == "min" else known_le(eng, st, cur, v)):
                eng.report(i, "%s() loses possible values while merging facts" % self.entry, st)
            return
        ors = set()
        work = [(i.fn, ctx, i.ops[0])]
        while work:
            fn, cx, op = work.pop()
            x = eng.val(st, fn, cx, op)
            if x in (cur, src):
                ors.add(x)
            elif op[0] == "i" and fn.instrs[op[1]].op == "or":
                work += [(fn, cx, y) for y in fn.instrs[op[1]].ops]
        if cur not in ors:
            eng.report(i, "%s() loses possible values while merging facts" % self.entry, st)
        if src in ors:
            st.prop = tuple(sorted(set(st.prop) | {c}))

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name]:
            return
        self.update(eng, st)
        if len(self.args) == 2:
            miss = [c for c in self.cells.values() if c not in st.prop]
            if miss:
                eng.report(fn.blocks[fn.rpo[-1]][-1], "%s() can leave out possible values of the facts it merges from (%s)" % (fn.name, ", ".join("%s %d" % c for c in miss[:4])), st)
            return
        b = ("t", self.args[0])
        val = {c: eng.peek(st, b, o) for o, c in self.cells.items()}
        r = eng.rng(st, rv)
        self.exits.append(val)
        if not (r[0] == r[1] == 0):
            wit = any(val[("min", k)] and val[("max", k)] and eng.evalcmp(st, ("cmp", "sgt", val[("min", k)], val[("max", k)])) for k in range(self.L.nr))
            wit = wit or any(v == ("k", 0) for c, v in val.items() if c[0] not in ("min", "max"))
            self.rets.append(wit)

    def is_bottom(self):
        return bool(self.exits) and all(
            any(v == ("k", 0) for c, v in val.items() if c[0] not in ("min", "max")) or
            any((val[("min", k)] or "?")[0] == "k" == (val[("max", k)] or "?")[0] and val[("min", k)][1] > val[("max", k)][1] for k in range(self.L.nr)) for val in self.exits)

    def is_top(self):
        for val in self.exits:
            for c, v in val.items():
                if v is None or v[0] != "k":
                    return False
                if c[0] == "pred" and v[1] & 3 != 3 or c[0] == "min" and v[1] > 0 or c[0] == "max" and v[1] != LMAX or c[0] in ("types", "xtypes") and v[1] & 0xffffffff != 0xffffffff:
                    return False
        return bool(self.exits)


class FlowRule(Rule):
    """Visiting an operator: which outcomes of the operands each fact set accounts for.
    prop = (n: 0/1 operands visited, blobs: ((base, off) -> atoms)). Atoms: B (before the operator), T/F (outcome of the last operand), T*/F* (of all earlier ones)."""
    name = "operator"
    maxstates = 60
    budget = 300000
    inline_depth = 5

    def __init__(self, m, L, kind, entry, inl, visits, joins, inits):
        self.m, self.L, self.kind, self.entry, self.inl = m, L, kind, entry, inl
        self.visits, self.joins, self.inits = visits, joins, inits
        self.opt = None
        self.k_ign = m.field("bfs_opt", "ignore_result")
        self.k_imp = m.field("bfs_opt", "impure")
        self.osize = m.types["struct.bfs_opt"]["size"]
        self.n = 0

    def init(self):
        return (0, ())

    def tokens(self, prop):
        return [self.opt, self.expr]

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def setup(self, eng, st, args, ctx):
        f = self.m.funcs[self.entry]
        self.opt = args[f.dtypes[1:].index("struct bfs_opt*")][1]
        self.expr = args[f.dtypes[1:].index("struct bfs_expr*")][1]
        st.mem[(("t", self.opt), self.k_ign[1])] = (("s", ("ignore",)), self.k_ign, "i8")
        st.mem[(("t", self.opt), self.k_imp[1])] = (("s", ("impure",)), self.k_imp, "ptr")
        st.cons[("ignore",)] = (0, 1, frozenset())
        full = frozenset(["T", "F", "T*", "F*"])
        o = ("t", self.opt)
        # entering sets both outcomes to what was known before
        st.prop = (0, tuple(sorted([((o, self.L.dom[d]), full | {"B"}) for d in self.L.dom] + [((o, self.k_imp[1]), frozenset(["B"]))], key=str)))

    def get(self, st, a):
        return dict(st.prop[1]).get(a)

    def set(self, st, a, v):
        d = dict(st.prop[1])
        if v is None:
            d.pop(a, None)
        else:
            d[a] = frozenset(v)
        st.prop = (st.prop[0], tuple(sorted(d.items(), key=lambda x: (str(x[0]), sorted(x[1])))))

    def need(self, n):
        k = self.kind
        if n == 0 or k == "not":
            return {"B"}
        return {"and": {"T"}, "or": {"F"}, "comma": {"T", "F"}}[k]

    def call(self, eng, st, i, name, args, ctx):
        m, L = self.m, self.L
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            a, b = eng.addr(st, args[0]), eng.addr(st, args[1])
            size = args[2][1] if args[2][0] == "k" else None
            if a and b and a[1] is not None and b[1] is not None and size:
                d = dict(st.prop[1])
                for k in [k for k in d if k[0] == a[0] and a[1] <= k[1] < a[1] + size]:
                    del d[k]
                for k, v in dict(st.prop[1]).items():
                    if k[0] == b[0] and b[1] <= k[1] < b[1] + size:
                        d[(a[0], a[1] + k[1] - b[1])] = v
                st.prop = (st.prop[0], tuple(sorted(d.items(), key=lambda x: (str(x[0]), sorted(x[1])))))
            return None
        if name in self.joins:
            a, b = eng.addr(st, args[0]), eng.addr(st, args[1])
            x, y = self.get(st, a), self.get(st, b)
            if x is not None:
                self.set(st, a, x | (y or frozenset()))
            return [(st, ("k", 0))]
        if name in self.inits:
            a = eng.addr(st, args[0])
            v = frozenset(["B", "T", "F", "T*", "F*"]) if self.inits[name] == "top" else frozenset()
            if self.inits[name] != "top" and st.prop[0] == 0:
                v |= {"T", "F", "T*", "F*"}
            self.set(st, a, v)
            return [(st, ("k", 0))]
        f = m.funcs.get(name)
        if name in self.visits:
            n, blobs = st.prop
            self.n += 1
            oa = eng.addr(st, args[f.dtypes[1:].index("struct bfs_opt*")])
            if oa is None:
                return None
            bef = self.get(st, (oa[0], oa[1] + L.dom["before"])) or frozenset()
            if not self.need(n) <= bef:
                eng.report(i, "%s visits %s operand without the facts of every way it is reached (%s missing)" % (
                    self.entry, "its first" if n == 0 else "a later", ", ".join(sorted({"B": "what held before", "T": "after the previous operand was true", "F": "after the previous operand was false"}[x] for x in self.need(n) - bef))), st)
            ign = eng.peek(st, oa[0], oa[1] + self.k_ign[1])
            own = eng.peek(st, ("t", self.opt), self.k_ign[1]) or ("s", ("ignore",))
            if ign is None or ign != ("k", 0):
                last = self.last(eng, st, oa[0])
                ok = last is True and ign is not None and (ign == own) or self.kind == "comma" and last is False or self.kind == "not" and ign == own
                if not ok:
                    eng.report(i, "%s treats the result of an operand as ignored although it decides the outcome" % self.entry, st)
            if not self.get(st, (oa[0], oa[1] + self.k_imp[1])):
                eng.report(i, "%s does not pass on where facts before side effects are collected" % self.entry, st)
            d = {}
            for k, v in dict(blobs).items():
                nv = set(v & {"B"})
                for x in "TF":
                    if x in v and x + "*" in v:
                        nv.add(x + "*")
                d[k] = frozenset(nv)
            vac = {"T*", "F*"} if n == 0 else set()
            for x, dn in (("T", "after_true"), ("F", "after_false")):
                d[(oa[0], oa[1] + L.dom[dn])] = frozenset({x} | vac)
            st.prop = (1, tuple(sorted(d.items(), key=lambda x: (str(x[0]), sorted(x[1])))))
            bad = st.copy()
            eng.effect(st, i, name, args, ctx)
            for s in (st, bad):
                if ign is not None:
                    s.mem[(oa[0], oa[1] + self.k_ign[1])] = (ign, self.k_ign, "i8")
                s.mem[(("t", self.opt), self.k_ign[1])] = (own, self.k_ign, "i8")
            return [(st, eng.fresh(st, ("r", ctx, i.id), (-INF, INF, frozenset([0])))), (bad, ("k", 0))]
        return None

    def last(self, eng, st, nested):
        """Is the list of operands still to visit known to be empty (True) / non-empty (False)?"""
        kh = self.m.field("bfs_exprs", "head")
        for (b, off), e in st.mem.items():
            if b[0] == "al" and b != nested and off == kh[1] and e[2] == "ptr":
                n = eng.isnull(st, e[0])
                if n is not None:
                    return n
        return None

    def store(self, eng, st, i, loc, v, ctx):
        a = eng.addr(st, loc[0])
        if a and (a[0] == ("t", self.opt) or a[0][0] == "al"):
            for k in dict(st.prop[1]):
                if k[0] == a[0] and a[1] is not None and k[1] <= a[1] < k[1] + (8 if loc[1] == self.k_imp else self.L.size):
                    self.set(st, k, frozenset())

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name] or eng.isnull(st, rv) is True:
            return
        n = st.prop[0]
        o = ("t", self.opt)
        tr, fa = (self.get(st, (o, self.L.dom[d])) or frozenset() for d in OUT)
        k = self.kind
        if k == "not":
            nt, nf = {"F"}, {"T"}
        elif k == "and":
            nt, nf = (self.need(n), {"F", "F*"})
        elif k == "or":
            nt, nf = ({"T", "T*"}, self.need(n))
        else:
            nt, nf = ({"T"}, {"F"}) if n else (set(), {"B"})
        for need, have, what in ((nt, tr, "true"), (nf, fa, "false")):
            if need - have:
                eng.report(fn.blocks[fn.rpo[-1]][-1], "the facts after an %s expression is %s leave out a way to get there (%s)" % (k, what, ", ".join(sorted(
                    {"B": "no operand", "T": "the last operand being true", "F": "the last operand being false", "T*": "an earlier operand being true", "F*": "an earlier operand being false"}[x] for x in need - have))), st)


class LeaveRule(LeafRule):
    """Leaving an expression: replacing it by a constant, marking it, and what counts as reachable by side effects.
    prop = (lookup, fact sets known to be impossible, constants created)"""
    name = "replace"

    must = None

    def call(self, eng, st, i, name, args, ctx):
        if name in self.joins:
            b = eng.addr(st, args[1])
            if args[0] == ("s", ("impure",)) and b == (("t", self.opt), self.L.dom["before"]):
                st.prop = st.prop[:2] + (tuple(sorted(set(st.prop[2]) | {"noted"})),)
                return [(st, ("k", 0))]
        return super().call(eng, st, i, name, args, ctx)

    def store(self, eng, st, i, loc, v, ctx):
        for n, fld in enumerate(("always_false", "always_true")):
            if loc[1] == self.m.field("bfs_expr", fld):
                a = eng.addr(st, loc[0])
                if v == ("k", 0):
                    continue
                self.facts += 1
                if not (OUT[n] in st.prop[1] or self.never(eng, st, n)):
                    eng.report(i, "an expression is marked %s although the other outcome was not shown to be impossible" % fld, st)
        super().store(eng, st, i, loc, v, ctx)

    def leave(self, eng, st, fn, rv, ctx):
        if self.must is None:
            return super().leave(eng, st, fn, rv, ctx)
        if fn.name != self.entry or eng.stack != [fn.name] or eng.isnull(st, rv) is True:
            return
        for d in OUT:
            if "e" + d not in st.prop[2]:
                eng.report(fn.blocks[fn.rpo[-1]][-1], "an expression is entered without starting from the facts known before it (%s)" % d, st)
        if "noted" not in st.prop[2]:
            eng.report(fn.blocks[fn.rpo[-1]][-1], "an expression with side effects is entered without noting the facts under which it is reached", st)


def check(m, R):
    R.rule("for every evaluator, whatever narrows the facts after one of its outcomes (a range, a predicate, the possible types) is implied by that outcome: "
           "the fact is the one the evaluator computes and only values the outcome excludes are removed; extra implications are listed in DESIGN.md")
    R.rule("fact sets are merged without losing possibilities; the facts before each operand and after each operator account for every way of getting there")
    R.rule("an expression is replaced by a constant or marked constant only when the other outcome is impossible; the facts under which side effects are reached are all collected")
    L = Layout(m, R)
    evals, _ = evaluators(m)
    joins, inits, bools = domain_functions(m)
    vis = visitors(m)
    file = m.defined[sorted(inits)[0]].file if inits else None
    R.require(joins and inits and bools, "functions on fact sets vanished")
    # fact set functions
    for f in sorted(joins):
        rule = DomRule(m, L, f)
        eng = Engine(m, rule)
        eng.run(f, rule.setup)
        R.engine(eng, "domain")
        R.obligation("%s: merges fact sets" % f)
    kinds, bottoms = {}, set()
    for f in sorted(inits | bools):
        rule = DomRule(m, L, f)
        eng = Engine(m, rule)
        eng.run(f, rule.setup)
        R.engine(eng, "domain")
        if f in inits:
            kinds[f] = "top" if rule.is_top() else "bottom" if rule.is_bottom() else None
            if kinds[f] is None:
                R.violation(m.defined[f].blocks[0][0], "%s() sets a fact set to something that is neither unknown nor impossible" % f, rule="domain")
            R.obligation("%s: %s" % (f, kinds[f]))
        elif rule.rets and all(rule.rets):
            bottoms.add(f)
            R.obligation("%s: true only for impossible facts" % f)
    # which visitor derives facts
    stores = {f.name for f in m.defined.values() if f.file == file and any(
        i.op == "store" and (m.ptrkey(f, i.ops[1])[0] in ("struct.df_range", "struct.df_domain") or m.ptrkey(f, i.ops[1])[0] == "struct.bfs_opt" and m.ptrkey(f, i.ops[1])[1] >= min(L.dom.values()))
        for b in f.blocks for i in b)} | joins | inits
    own = {}
    for f in m.defined.values():
        if f.file == file:
            own[f.name] = f
    reach = {n: set(m.reach([n])) for n in own}

    dreach = direct_reach(m, stores)

    def touches(n):
        return n in dreach
    df = [g for g, d in vis.items() if any(touches(x) for x in [d["visit"], d["leave"], *d["table"].values()] if x in own)]
    R.require(len(df) == 1, "expected one visitor that derives facts, found %s" % df)
    D = vis[df[0]]
    others = set(vis) - set(df)
    R.require(D["visit"] and D["leave"] and D["enter"], "the data flow visitor lost a function")
    small = {n for n, f in own.items() if not f.va and not any(own[c].va for c in reach[n] if c in own) and n not in joins | inits | bools}
    visitfns = {D["enter"], D["visit"], D["leave"], *D["table"].values()}
    logs = {n for n, f in own.items() if any(d == "struct df_domain*" for d in f.dtypes[1:]) and "struct bfs_opt*" in f.dtypes[1:]}
    expr_ret = {n for n, f in own.items() if f.dtypes and f.dtypes[0] == "struct bfs_expr*" and not f.va and not any("struct visitor*" == d for d in f.dtypes[1:])}
    inl = (small | expr_ret | {n for n in own if own[n].dtypes[1:2] == ["struct bfs_opt*"] and n in visitfns}) - logs
    sig = own[D["enter"]].dtypes
    inl |= {c for c in own if own[c].dtypes == sig and any(i.fn.name in visitfns for i in m.callsites.get(c, []))}
    facts = 0
    for E in sorted(evals):
        for fn in [D["visit"]] + ([D["table"][E]] if E in D["table"] else []):
            rule = LeafRule(m, L, E, fn, inl, joins, kinds, bottoms, others)
            eng = Engine(m, rule)
            eng.run(fn, setup_opt(m, L, rule, E))
            R.engine(eng, "leaf")
            facts += rule.facts
            R.obligation("%s in %s: %d narrowing steps" % (E, fn, rule.facts))
    # entering and leaving
    consts = 0
    rule = LeaveRule(m, L, None, D["leave"], inl, joins, kinds, bottoms, others)
    eng = Engine(m, rule)
    eng.run(D["leave"], setup_opt(m, L, rule, None))
    R.engine(eng, "replace")
    R.obligation("%s: %d constants" % (D["leave"], rule.consts))
    R.minimum("expressions replaced or marked constant", rule.consts + rule.facts, 2)
    for E in sorted(evals - set(OPS)):
        rule = LeaveRule(m, L, E, D["enter"], inl | {"bfs_expr_is_parent"}, joins, kinds, bottoms, others)
        rule.must = "impure"
        eng = Engine(m, rule)
        eng.run(D["enter"], setup_opt(m, L, rule, E))
        R.engine(eng, "replace")
        R.obligation("%s in %s: side effects noted" % (E, D["enter"]))
    # operators
    deep, ops = operators(m, own, vis)
    R.require(deep and set(ops) == set(OPS), "the visitors of the operators were not found")
    for E, fn in sorted(ops.items()):
        rule = FlowRule(m, L, OPS[E], fn, {n for n in small | expr_ret if n not in deep}, deep, joins, kinds)
        eng = Engine(m, rule)
        eng.run(fn, rule.setup)
        R.engine(eng, "operator")
        R.require(rule.n, "%s visits no operand" % fn)
        R.obligation("%s: facts before operands and after the operator" % fn)
    R.minimum("narrowing steps", facts, 40)
    R.minimum("evaluators", len(evals), 40)


def operators(m, own, vis):
    """The functions that visit operands recursively, and the visitor of each operator"""
    deep, ops = set(), {}
    for g in m.globals:
        t = m.globals[g]["type"]
        if not t.startswith("["):
            continue
        rows = {}
        for row in table(m, g, "visitor_table"):
            e, v = row.get("eval_fn", ("null",)), row.get("visit", ("null",))
            if e[0] == "f" and v[0] == "f":
                rows.setdefault(e[1], v[1])
        if set(rows) != set(OPS):
            continue
        users = {f.name for f in own.values() for b in f.blocks for i in b for o in i.ops if o[0] == "g" and o[1] == g}
        if users and all(v in direct_reach(m, users) for v in rows.values()):
            deep |= users
            ops = rows
    return deep, ops

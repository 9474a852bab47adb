"""C12: what the optimizer assumes about an expression (no side effects, always true, always false) is what evaluating it does."""
from ..engine import Engine, Rule, Budget
from .execcommon import direct_reach, SPAWN_EXT
from .opcommon import *

FLAGS = ("pure", "always_true", "always_false")
EFFECTS = SPAWN_EXT | {
    "unlink", "unlinkat", "rmdir", "remove", "rename", "renameat", "renameat2", "mkdir", "mkdirat", "mkfifo", "mknod", "symlink", "link", "linkat", "symlinkat",
    "chmod", "fchmod", "fchmodat", "chown", "lchown", "fchown", "fchownat", "truncate", "ftruncate", "utimensat", "futimens", "setxattr", "lsetxattr",
    "write", "pwrite", "writev", "fwrite", "fputs", "fputs_unlocked", "fputc", "putc", "putchar", "puts", "fprintf", "printf", "vfprintf", "vprintf", "dprintf", "vdprintf", "fputwc",
    "exit", "_exit", "_Exit", "quick_exit", "kill", "raise", "chdir", "fchdir", "chroot", "setenv", "unsetenv", "putenv", "getdelim", "getline", "fgets", "fgetc", "getc", "getchar", "tcsetattr"}


class ChildRule(Walk):
    """prop = (cur, values of cur, (first, its values), (allP, allT, allF, someP, someT, someF), last, n)"""
    name = "operand"
    maxstates = 600
    budget = 900000
    inline_depth = 5

    def __init__(self, m, inl):
        super().__init__(m)
        self.off = {m.field("bfs_expr", f)[1]: n for n, f in enumerate(FLAGS)}
        self.inl = inl
        self.outs = []
        self.entry = None

    def init(self):
        return ("start", (None,) * 3, (None, (None,) * 3), (True,) * 3 + (False,) * 3, None, 0)

    def tokens(self, prop):
        return [t for t in (prop[0], prop[2][0]) if isinstance(t, tuple)]

    def rename(self, prop, mp):
        ft = prop[2][0]
        if isinstance(ft, tuple) and ft in mp:
            v = mp[ft]
            prop = prop[:2] + ((v[1] if v[0] == "s" else "lost", prop[2][1]),) + prop[3:]
        if isinstance(prop[0], tuple) and prop[0] in mp:
            v = mp[prop[0]]
            if v[0] == "s":
                return (v[1],) + prop[1:]
            return ("end",) + prop[1:] if v == ("k", 0) else ("lost",) + prop[1:]
        return prop

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def fold(self, eng, st):
        cur, vals, first, acc, last, n = st.prop
        if not isinstance(cur, tuple):
            return
        nul = eng.isnull(st, ("s", cur))
        if nul:
            st.prop = ("end", (None,) * 3, first, acc, last, n)
            return
        acc = tuple(a and vals[j] == 1 for j, a in enumerate(acc[:3])) + tuple(a or vals[j] == 1 for j, a in enumerate(acc[3:]))
        st.prop = ("unfinished", (None,) * 3, first, acc, vals, 1)

    def split(self, eng, st, i, ctx):
        w = self.where(eng, st, i, ctx)
        if w is None:
            return None
        v = eng.val(st, i.fn, ctx, ("i", i.id))
        if w[0] == "head":
            if st.prop[0] == "start" and v[0] == "s":
                st.prop = (v[1], st.prop[1], (v[1], st.prop[2][1])) + st.prop[3:]
            return None
        if w[0] == "next":
            if w[1] == st.prop[0] and v[0] == "s":
                self.fold(eng, st)
                st.prop = (v[1],) + st.prop[1:]
            return None
        n = self.off.get(w[2])
        if n is None or i.ty != "i8":
            return None
        if w[1] == self.expr and v[0] == "s":
            return self.case(eng, st, i, ctx, v, None)
        if w[1] == st.prop[0]:
            known = st.prop[1][n]
        elif w[1] == st.prop[2][0]:
            known = st.prop[2][1][n]
        else:
            return None
        if known is not None:
            st.env[(ctx, "i", i.id)] = ("k", known)
            return [st]
        return self.case(eng, st, i, ctx, v, n)

    def case(self, eng, st, i, ctx, v, n):
        out = []
        for val in (0, 1):
            s = st.copy()
            if eng.assumecmp(s, "eq", v, ("k", val)):
                s.env[(ctx, "i", i.id)] = ("k", val)
                if n is not None:
                    w = self.where(eng, st, i, ctx)
                    c, vals, first, *rest = s.prop
                    if w[1] == st.prop[0]:
                        vals = vals[:n] + (val,) + vals[n + 1:]
                    if w[1] == st.prop[2][0]:
                        first = (first[0], first[1][:n] + (val,) + first[1][n + 1:])
                    s.prop = (c, vals, first) + tuple(rest)
                out.append(s)
        return out

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name]:
            return
        if rv[0] != "s" or rv[1] != self.expr:
            return
        res = []
        for off in self.off:
            v = eng.peek(st, ("t", self.expr), off)
            if v is not None and v[0] == "k":
                res.append(1 if v[1] else 0)
            else:
                res.append(None)
        cond = False
        kx, kf = self.m.field("bfs_expr", "exec"), self.m.field("bfs_exec", "flags")
        x = eng.peek(st, ("t", self.expr), kx[1])
        if x and x[0] == "s":
            f = eng.peek(st, ("t", x[1]), kf[1])
            multi = self.m.enums["BFS_EXEC_MULTI"]
            if f and f[0] == "s":
                c = st.cons.get(("&", f[1], multi))
                cond = bool(c and (c[0] >= 1 or 0 in c[2]))
        self.fold(eng, st)
        cur, vals, first, acc, last, n = st.prop
        self.outs.append((tuple(res), cond, cur, first[1], acc, last, n, st.trail))


def run_annotation(m, R, fns, E, inl):
    """Chain the general and the specific visitor; yields outcomes."""
    states = [((None, None, None), None)]
    keys = [m.field("bfs_expr", f) for f in FLAGS]
    kfn = m.field("bfs_expr", "eval_fn")
    outs = []
    for k, fname in enumerate(fns):
        nxt = {}
        outs = []
        for vals, _ in states:
            rule = ChildRule(m, inl)
            rule.entry = fname
            eng = Engine(m, rule)

            def setup(eng, st, args, ctx):
                f = m.funcs[fname]
                n = f.dtypes[1:].index("struct bfs_expr*")
                rule.expr = args[n][1]
                st.mem[(("t", args[n][1]), kfn[1])] = (("f", E), kfn, "ptr")
                for v, key in zip(vals, keys):
                    if v is not None:
                        st.mem[(("t", args[n][1]), key[1])] = (("k", v), key, "i8")
            eng.run(fname, setup)
            R.funcs |= eng.visited_funcs
            R.count("abstract transfer steps", eng.steps)
            for o in rule.outs:
                nxt.setdefault(o[0], o)
                outs.append(o)
        states = [(v, o) for v, o in nxt.items()]
    return outs


class TruthRule(Rule):
    """Return value of an evaluator, with -quit tracked."""
    name = "truth"
    maxstates = 60
    budget = 400000
    inline_depth = 6

    def __init__(self, m, entry, want, inl, multi=False):
        self.m, self.entry, self.want, self.inl, self.multi = m, entry, want, inl, multi
        self.kq = m.field("bfs_eval", "quit")
        self.kf = m.field("bfs_exec", "flags")
        self.state = None

    def init(self):
        return False      # quit set on this path

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def store(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.kq and v[0] == "k":
            st.prop = bool(v[1])

    def split(self, eng, st, i, ctx):
        if not self.multi:
            return None
        if eng.keyof(i, i.ops[0]) == self.kf:
            v = eng.val(st, i.fn, ctx, ("i", i.id))
            if v[0] == "s":
                bit = self.m.enums["BFS_EXEC_MULTI"]
                st.cons[("&", v[1], bit)] = (bit, bit, frozenset())
                return [st]
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name] or st.prop:
            return
        ret = fn.blocks[fn.rpo[-1]][-1]
        r = eng.rng(st, rv)
        if "quit" in self.want:
            eng.report(ret, "%s() is assumed never to return (always true and always false), but a path returns without stopping the search" % fn.name, st)
        elif "true" in self.want and (r[0] <= 0 <= r[1]) and 0 not in r[2]:
            eng.report(ret, "%s() is assumed to be always true, but a path returns false" % fn.name, st)
        elif "false" in self.want and not (r[0] == r[1] == 0):
            eng.report(ret, "%s() is assumed to be always false, but a path returns true" % fn.name, st)


def return_slice(m, fname, depth=0, out=None):
    """Functions whose result flows into fname's return value."""
    out = out if out is not None else set()
    f = m.defined.get(fname)
    if f is None or fname in out or depth > 4:
        return out
    out.add(fname)
    work = [f.blocks[b][-1].ops[0] for b in f.rpo if f.blocks[b][-1].op == "ret" and f.blocks[b][-1].ops]
    # results that decide branches matter as well
    work += [f.blocks[b][-1].ops[0] for b in f.rpo if f.blocks[b][-1].op in ("br", "switch") and f.blocks[b][-1].ops]
    seen = set()
    while work:
        v = work.pop()
        if v[0] != "i" or v in seen:
            continue
        seen.add(v)
        i = f.instrs[v[1]]
        if i.op == "call":
            for c in m.callees(i):
                g = m.defined.get(c)
                if g and len([1 for b in g.blocks for _ in b]) < 200:
                    return_slice(m, c, depth + 1, out)
        elif i.op == "phi":
            work += [x for x, _ in i.phis]
        else:
            work += [x for x in i.ops or []]
    return out


def purity(m, E):
    """Why evaluating E has side effects (path through the call graph), or None."""
    stop = {n for n, f in m.defined.items() if f.file.endswith("diag.c") or f.noreturn}
    seen = {E: None}
    work = [E]
    kact = {m.field("bfs_eval", "action"), m.field("bfs_eval", "quit")}
    while work:
        n = work.pop()
        f = m.funcs.get(n)

        def chain():
            out, x = [], n
            while x:
                out.append(x)
                x = seen[x]
            return " <- ".join(out)
        if n in EFFECTS:
            return None, "reaches %s (%s)" % (n, chain())
        if f is None or f.decl:
            continue
        report = any(c in m.defined and m.defined[c].file.endswith("diag.c") for c in m.cg[n])
        for blk in f.blocks:
            for i in blk:
                if i.op == "store":
                    k = m.ptrkey(f, i.ops[1])
                    if k in kact:
                        return i, "changes the traversal at %s (%s)" % (i.loc(), chain())
                    if k[0] == "struct.bfs_expr":
                        return i, "modifies an expression at %s (%s)" % (i.loc(), chain())
                elif i.op == "call" and not i.noret:
                    for c in m.callees(i):
                        g = m.funcs.get(c)
                        if report and g is not None and not g.decl and len(g.dtypes) > 1 and g.dtypes[1] == "CFILE*":
                            continue        # the text of a diagnostic
                        if c not in seen and c not in stop:
                            seen[c] = n
                            work.append(c)
    return None, None


def check(m, R):
    R.rule("for every evaluator, abstract interpretation of the annotating visitors with that evaluator gives the set of possible (pure, always_true, always_false) marks")
    R.rule("an evaluator that can be marked pure reaches no side effect (files, processes, streams, traversal state, expressions) except diagnostics; "
           "always true/false: every return path yields that value or stops the search; both: every path stops the search")
    R.rule("marks of -not/-and/-or/, follow from the marks of the operands: case-split fold over an arbitrary operand list")
    R.rule("no rewriting visitor returns an expression whose operand list it rebuilt without annotating it again")
    R.assume("failing assertions and error reporting do not count as side effects; -empty and -xtype are marked pure only at -O4 (documented as unsafe)")
    evals, sites = evaluators(m)
    R.minimum("expression evaluators", len(evals), 40)
    vis = visitors(m)
    R.minimum("optimizer visitors", len(vis), 5)
    fkeys = {m.field("bfs_expr", f) for f in FLAGS}
    marks = set()
    for k in (m.field("bfs_expr", "always_true"), m.field("bfs_expr", "always_false")):
        marks |= {s.fn.name for s in m.storemap.get(k, [])}
    R.require(marks, "no function marks expressions")
    ann = [g for g, v in vis.items() if v["visit"] and (direct_callees(m, v["visit"]) & marks)]
    R.minimum("annotating visitors", len(ann), 1)
    # functions that mark expressions must all be part of an annotating visitor
    covered = set()
    for g in ann:
        covered |= {vis[g]["visit"]} | set(vis[g]["table"].values())
    inl = set()
    for n in covered:
        inl |= direct_callees(m, n)
    stop = {n for n, f in m.defined.items() if f.file.endswith("diag.c") or f.noreturn}
    inl -= stop
    others = set()
    for g, v in vis.items():
        if g not in ann:
            # data-flow visitors: decided by C13
            for x in [v["enter"], v["visit"], v["leave"]] + list(v["table"].values()):
                if x:
                    others |= direct_callees(m, x)
    for k in fkeys:
        for s in m.storemap.get(k, []):
            if s.fn.name in inl | covered or s.fn.name in others:
                continue
            v = s.ops[0]
            if k == m.field("bfs_expr", "pure"):
                continue        # operand bookkeeping, see the re-annotation rule
            if not (v[0] == "c" and v[1] == 0):
                R.violation(s, "an expression is marked %s outside of the annotating visitors" % m.fieldname(*k), rule="marks")
    nm = 0
    for g in ann:
        v = vis[g]
        for E in sorted(evals):
            fns = [v["visit"]] + ([v["table"][E]] if E in v["table"] else [])
            outs = run_annotation(m, R, fns, E, inl)
            if not outs:
                continue
            for o in outs:
                res, cond, cur, first, acc, last, n, trail = o
                nm += 1
                fn = m.defined[fns[-1]]
                where = fn.blocks[0][0]
                if E in OPS:
                    operator(R, OPS[E], E, where, o)
                    continue
            if E in OPS:
                R.obligation("%s: %d abstract outcomes of the operand fold" % (E, len(outs)))
                continue
            pure = any(o[0][0] != 0 for o in outs)
            at = [o for o in outs if o[0][1] != 0]
            af = [o for o in outs if o[0][2] != 0]
            if pure:
                i, why = purity(m, E)
                R.obligation("%s marked pure" % E)
                if why:
                    R.violation(i or m.defined[E].blocks[0][0], "%s() is assumed to have no side effects but %s" % (E, why), fn=E, rule="pure")
            want = set()
            if any(o[0][1] != 0 and o[0][2] != 0 for o in outs):
                want.add("quit")
            else:
                if at:
                    want.add("true")
                if af:
                    want.add("false")
            if want:
                multi = bool(at) and all(o[1] for o in at) and not af
                inl2 = return_slice(m, E) | (direct_reach(m, {s.fn.name for s in m.storemap.get(m.field("bfs_eval", "quit"), [])}) & set(m.defined))
                best = None
                for depth in (0, 1, 2, 4):
                    # look into more callees only while the claim is not proved
                    rule = TruthRule(m, E, want, inl2, multi)
                    rule.inline_depth = depth
                    eng = Engine(m, rule)
                    try:
                        eng.run(E)
                    except Budget:
                        break
                    best = eng
                    if not eng.reports:
                        break
                R.require(best is not None, "evaluator %s is too large" % E)
                R.engine(best, "truth")
                R.obligation("%s marked %s%s" % (E, "/".join(sorted(want)), " when the command takes many paths" if multi else ""))
    R.count("abstract annotation outcomes", nm)
    reannotate(m, R, vis, ann)


def direct_callees(m, f):
    out, work = {f}, [f]
    while work:
        n = work.pop()
        g = m.defined.get(n)
        if not g:
            continue
        for i in m.calls(g):
            if i.callee[0] == "f" and i.callee[1] in m.defined and i.callee[1] not in out:
                out.add(i.callee[1])
                work.append(i.callee[1])
    return out


def operator(R, op, E, where, o):
    res, cond, cur, first, acc, last, n, trail = o
    p, t, f = res
    done = cur == "end"
    alls = [a and done for a in acc[:3]]
    some = acc[3:]
    tr = [x for x in unroll(trail)]

    def bad(msg):
        R.violation(where, "%s: %s" % (E, msg), tr, rule="operands")
    if p != 0 and not (alls[0] if op != "not" else first and first[0] == 1):
        bad("can be marked free of side effects although an operand is not")
    if op == "and":
        if t != 0 and not alls[1]:
            bad("can be marked always true although an operand is not")
        if f != 0 and not some[2]:
            bad("can be marked always false although no operand is")
    elif op == "or":
        if t != 0 and not some[1]:
            bad("can be marked always true although no operand is")
        if f != 0 and not alls[2]:
            bad("can be marked always false although an operand is not")
    elif op == "not":
        if t != 0 and not (first and first[2] == 1):
            bad("can be marked always true although its operand is not always false")
        if f != 0 and not (first and first[1] == 1):
            bad("can be marked always false although its operand is not always true")
    elif op == "comma" and n:
        if t != 0 and not (done and last and last[1] == 1):
            bad("can be marked always true although its last operand is not")
        if f != 0 and not (done and last and last[2] == 1):
            bad("can be marked always false although its last operand is not")


def unroll(t):
    out = []
    while t and len(out) < 40:
        out.append(t[0])
        t = t[1]
    return out[::-1]


class RebuildRule(Rule):
    """prop = tokens of expressions whose operands changed since they were last annotated."""
    name = "reannotate"
    maxstates = 40
    budget = 500000
    inline_depth = 4

    def __init__(self, m, entry, appenders, annfns, annvis, inl):
        self.m, self.entry, self.app, self.annfns, self.annvis, self.inl = m, entry, appenders, annfns, annvis, inl

    def init(self):
        return frozenset()

    def tokens(self, prop):
        return prop

    def rename(self, prop, mp):
        return frozenset(x for x in (mp[t][1] if t in mp and mp[t][0] == "s" else t for t in prop))

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def call(self, eng, st, i, name, args, ctx):
        if name in self.app and args and args[0][0] == "s":
            st.prop = st.prop | {args[0][1]}
            return None
        f = self.m.funcs.get(name)
        if f is not None and f.dtypes and f.dtypes[0] == "struct bfs_expr*":
            n = f.dtypes[1:].index("struct bfs_expr*") if "struct bfs_expr*" in f.dtypes[1:] else None
            vis = [a for a in args if a[0] == "p" and a[1][0] == "g" and a[1][1] in self.annvis]
            if n is not None and (name in self.annfns or vis):
                e = args[n]
                if e[0] == "s":
                    st.prop = st.prop - {e[1]}
                    s2 = st.copy()
                    eng.effect(st, i, name, args, ctx)
                    eng.effect(s2, i, name, args, ctx)
                    return [(st, e), (s2, ("k", 0))]
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name == self.entry and eng.stack == [fn.name] and rv[0] == "s" and rv[1] in st.prop:
            eng.report(fn.blocks[fn.rpo[-1]][-1], "%s() returns an expression whose operands it rebuilt without annotating it again" % fn.name, st)


def reannotate(m, R, vis, ann):
    khead = m.field("bfs_expr", "children.head")
    ktail = m.field("bfs_expr", "children.tail")
    app = set()
    for f in m.defined.values():
        d = f.dtypes
        if len(d) >= 3 and d[1] == "struct bfs_expr*" and d[2] in ("struct bfs_expr*", "struct bfs_exprs*") and f.file.endswith("expr.c"):
            app.add(f.name)
    R.minimum("functions that append operands", len(app), 2)
    annfns = set()
    for g in ann:
        annfns |= {vis[g]["visit"]} | set(vis[g]["table"].values())
    todo = set()
    for g, v in vis.items():
        if g in ann:
            continue
        todo |= {x for x in [v["enter"], v["visit"], v["leave"]] + list(v["table"].values()) if x}
    n = 0
    for f in sorted(todo):
        inl = {c for c in direct_callees(m, f) if m.defined[c].dtypes and m.defined[c].dtypes[0] == "struct bfs_expr*"
               and m.defined[c].file == m.defined[f].file} - {"visit_deep"}
        if not any(i.callee[0] == "f" and i.callee[1] in app for c in inl | {f} for i in m.calls(m.defined[c])):
            continue
        n += 1
        rule = RebuildRule(m, f, app, annfns, set(ann), inl)
        eng = Engine(m, rule)
        eng.run(f)
        R.engine(eng, "reannotate")
        R.obligation("%s: rebuilt operand lists" % f)
    R.minimum("visitors that rebuild operand lists", n, 4)

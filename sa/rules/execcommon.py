"""Shared by C04 and C05: where actions start commands, and what precedes that."""
from ..engine import Rule
from ..demand import demand_run
from ..patterns import must_call, loops, latches, exits, path_avoiding, field_of_load
from ..util import dominators, FORKS

SPAWN_EXT = FORKS | {"posix_spawn", "posix_spawnp", "system", "popen", "execve", "execv", "execvp", "execvpe", "fexecve", "execveat"}
PROMPT = "ynprompt"


def direct_reach(m, targets):
    """Functions that reach one of the targets through direct calls only."""
    seen = set(targets)
    work = list(targets)
    while work:
        f = work.pop()
        for c in m.callsites.get(f, []):
            if c.fn.name not in seen:
                seen.add(c.fn.name)
                work.append(c.fn.name)
    return seen


def spawn_roots(m):
    """(roots, functions that directly reach process creation): the functions that evaluate an expression and start a command."""
    S = direct_reach(m, SPAWN_EXT)
    roots = []
    for n in sorted(S):
        f = m.defined.get(n)
        if f is None:
            continue
        d = f.dtypes
        if len(d) > 2 and d[1] == "struct bfs_expr*" and d[2] in ("struct bfs_eval*", "struct bfs_ctx*"):
            roots.append(n)
    return roots, S


def flush_all_functions(m, R=None):
    """Functions that, on every path, flush the stream of every registered output file.

    Returns (must-flush set, explanations of near misses)."""
    fkey = m.field("CFILE", "file")
    reg = {m.field("trie_leaf", "value"), m.field("bfs_ctx_file", "cfile")} - {None}
    base = set()
    why = []

    def flushes_one(f):
        """Blocks of f that flush some tracked stream."""
        out = set()
        for i in m.calls(f):
            cs = m.callees(i)
            if "fflush" in cs and i.args and i.args[0][0] == "i" and field_of_load(m, f, i.args[0]) == fkey:
                out.add(i.blk)
        return out
    # helpers that flush the one file they are given on every path
    one = set()
    for f in m.defined.values():
        hit = flushes_one(f)
        if hit and not path_avoiding(f, 0, hit):
            one.add(f.name)
    fnull = set()
    for f in m.defined.values():
        hit = flushes_one(f) | {i.blk for i in m.calls(f) if m.callees(i) and m.callees(i) <= one and f.name not in one}
        nul = {i.blk for i in m.calls(f) if "fflush" in m.callees(i) and i.args and i.args[0][0] == "null"}
        if nul and not path_avoiding(f, 0, nul):
            base.add(f.name)
            continue
        if not hit:
            continue
        dom = dominators(f)
        for h, body in loops(f).items():
            inb = hit & body
            if not inb or not any(i.op == "load" and m.ptrkey(f, i.ops[0]) in reg for b in body for i in f.blocks[b]):
                continue
            if any(path_avoiding_body(f, h, body, inb)):
                why.append((f, "an iteration of the loop at %s:%s can skip fflush()" % (f.file, f.blocks[h][-1].line)))
                continue
            ex = exits(f, body)
            bad = [e for e in ex if any(b in dom[e[0]] for b in inb)]
            if bad or len(ex) != 1:
                why.append((f, "the flushing loop can be left before every stream was flushed"))
                continue
            if path_avoiding(f, 0, {h}):
                why.append((f, "a path through the function skips the flushing loop"))
                continue
            base.add(f.name)
    must = must_call(m, base) if base else set()
    return must - direct_reach(m, SPAWN_EXT | {PROMPT}), why


def path_avoiding_body(f, h, body, hit):
    """Yields True if a cycle h -> h inside body avoids `hit`."""
    seen = set()
    work = [s for s in f.succ[h] if s in body and s not in hit] if h not in hit else []
    while work:
        b = work.pop()
        if b == h:
            yield True
            return
        if b in seen:
            continue
        seen.add(b)
        work += [s for s in f.succ[b] if s in body and s not in hit]


class ExecRule(Rule):
    """prop = (flushed, ((yn token, ...)), (flag tokens))"""
    maxstates = 16
    budget = 1500000
    inline_depth = 12

    def __init__(self, m, S, flush, which):
        self.m = m
        self.S = S
        self.flush = flush
        self.which = which
        self.name = which
        self.confirm = m.enums.get("BFS_EXEC_CONFIRM")
        self.fkey = m.field("bfs_exec", "flags")
        self.spawns = set()
        self.prompts = set()
        self.inl = (direct_reach(m, {PROMPT}) | direct_reach(m, SPAWN_EXT) | direct_reach(m, flush)) - {PROMPT} - set(flush)
        self.api = {n for n in m.defined if n in S and "struct bfs_spawn*" in m.defined[n].dtypes[1:3] + m.defined[n].dtypes[2:3]}

    def init(self):
        return (False, (), ())

    def tokens(self, prop):
        return [t for t in prop[1] + prop[2] if t]

    def rename(self, prop, mp):
        def f(t):
            v = mp.get(t)
            if v is None:
                return t
            return v[1] if v[0] == "s" else None
        return (prop[0], tuple(x for x in map(f, prop[1]) if x), tuple(x for x in map(f, prop[2]) if x))

    def inline(self, eng, fn, depth):
        return fn.name in self.inl and fn.name not in self.api

    def writes(self, eng, st, i, name, args):
        """May this call put data into a buffered output stream?"""
        f = self.m.funcs.get(name)
        if f is None or f.decl:
            if name in ("fprintf", "vfprintf", "fputs", "fputc", "putc", "fwrite", "printf", "puts", "putchar", "fputs_unlocked", "putc_unlocked"):
                n = {"fprintf": 0, "vfprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3}.get(name)
                if n is None:
                    return True
                a = i.args[n]
                src = i.fn.instrs[a[1]] if a[0] == "i" else None
                if src is not None and src.op == "load" and src.ops[0][0] == "g" and src.ops[0][1] == "stderr":
                    return False
                return True
            return False
        for n, d in enumerate(f.dtypes[1:]):
            if d == "CFILE*" and n < len(i.args):
                k = field_of_load(self.m, i.fn, i.args[n])
                if k == self.m.field("bfs_ctx", "cerr"):
                    continue
                return True
        return False

    def load(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.fkey and v[0] == "s" and v[1] not in st.prop[2]:
            st.prop = (st.prop[0], st.prop[1], tuple(sorted(st.prop[2] + (v[1],), key=repr))[-4:])

    def call(self, eng, st, i, name, args, ctx):
        if name in self.flush:
            st.prop = (True,) + st.prop[1:]
            return None
        if name == PROMPT:
            self.prompts.add(i.loc())
            if self.which == "C04" and not st.prop[0]:
                eng.report(i, "the user is prompted while output of other actions may still be buffered", st)
            return None
        f = self.m.funcs.get(name)
        if name in SPAWN_EXT or name in self.api:
            self.spawns.add(i.loc())
            if self.which == "C04":
                if not st.prop[0]:
                    eng.report(i, "a command is started while output of other actions may still be buffered", st)
            else:
                self.check_confirm(eng, st, i)
            return None
        if self.writes(eng, st, i, name, args):
            st.prop = (False,) + st.prop[1:]
        return None

    def post_call(self, eng, st, i, name, args, rv, ctx):
        if name == PROMPT and rv[0] == "s":
            st.prop = (st.prop[0], tuple(sorted(set(st.prop[1] + (rv[1],)), key=repr)), st.prop[2])

    def check_confirm(self, eng, st, i):
        for t in st.prop[1]:
            if eng.rng(st, ("s", t))[0] > 0:
                return
        for t in st.prop[2]:
            c = eng.rng(st, ("s", t))
            if c[0] == c[1] and not int(c[0]) & self.confirm:
                return
            for k, c in st.cons.items():
                if k[0] == "&" and k[1] == t and isinstance(k[2], int) and k[2] & self.confirm and c[0] == c[1] == 0:
                    return
        eng.report(i, "a command can be started without the action being known not to need confirmation and without an affirmative answer", st)


def demand(m, R, which, tag):
    """Prove each process-creating call in the function that makes it; where that fails, prove it in its callers instead,
    up to the expression evaluators (whose entry state is unconstrained, so nothing above them can help)."""
    roots, S = spawn_roots(m)
    R.require(roots, "no expression evaluator starts commands")
    flush, why = flush_all_functions(m)
    above = set(m.reach(roots))
    probe = ExecRule(m, S, flush, which)
    targets = SPAWN_EXT | probe.api
    work = sorted({i.fn.name for t in targets for i in m.callsites.get(t, []) if i.fn.name in above and i.fn.name not in probe.api})
    R.require(work, "no evaluator-reachable function starts a process")
    n = 0
    for f, rule in demand_run(m, R, work, lambda: ExecRule(m, S, flush, which), tag, limit=12, stop=lambda f: f in roots or f not in above, maxdepth=4, widebudget=400000):
        for s in sorted(rule.spawns):
            R.obligation("%s: process creation, analysed from %s()" % (s, f))
        for s in sorted(rule.prompts):
            R.obligation("%s: prompt, analysed from %s()" % (s, f))
        n += len(rule.spawns)
    R.count("process creation points analysed", n)
    R.minimum("process creation points", n, 1)
    return flush, why

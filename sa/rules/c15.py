"""C15: the null result of a failed allocation or lookup is never dereferenced."""
import re
from concurrent.futures import ProcessPoolExecutor
from .. import libc
from ..engine import Engine, Rule, Budget, INF, ERRNO

SOURCES = {
    "malloc", "calloc", "realloc", "reallocarray", "aligned_alloc", "strdup", "strndup", "__strdup", "__strndup",
    "fopen", "fopen64", "fdopen", "opendir", "fdopendir", "setmntent", "newlocale", "duplocale", "acl_get_file", "cap_get_file", "cap_get_fd",
    "open_memstream", "popen", "io_uring_get_probe_ring", "io_uring_get_probe", "getenv", "localtime_r", "gmtime_r", "onig_new_maybe",
}
# which pointer parameters of external functions are dereferenced (None: all)
D0 = {"strlen", "strnlen", "strchr", "strrchr", "strpbrk", "strspn", "strcspn", "atoi", "atol", "strtol", "strtoll", "strtoul", "strtoull",
      "fileno", "fclose", "fgetc", "getc", "ferror", "feof", "clearerr", "strdup", "strndup", "getmntent", "endmntent", "readdir", "readdir64",
      "closedir", "dirfd", "puts", "acl_free", "rewind"}
DALL = {"strcmp", "strncmp", "strcasecmp", "strncasecmp", "strcoll", "strcpy", "stpcpy", "strcat", "strstr", "strcasestr", "fnmatch", "memcmp", "memchr",
        "fputs", "fnmatch"}
DK = {"fputc": (1,), "putc": (1,), "fprintf": (0, 1), "vfprintf": (0, 1), "fwrite": (0, 3), "fread": (0, 3), "getdelim": (0, 1, 3), "getline": (0, 1, 2),
      "snprintf": (2,), "vsnprintf": (2,), "open": (0,), "open64": (0,), "openat": (1,), "openat64": (1,), "unlinkat": (1,), "acl_get_entry": (0,),
      "memcpy": (0, 1), "memmove": (0, 1), "memset": (0,), "strspn": (0, 1), "strcspn": (0, 1), "strpbrk": (0, 1), "strtok": (1,), "regcomp": (0, 1),
      "mktime": (0,), "strftime": (0, 2, 3), "pthread_mutex_lock": (0,), "pthread_mutex_unlock": (0,), "pthread_cond_wait": (0, 1),
      "setenv": (0, 1), "chdir": (0,), "readlinkat": (1, 2), "faccessat": (1,), "execve": (0,), "confstr": (1,), "sched_getaffinity": (2,), "strftime": (0, 2, 3)}


NULL = ("g", "<null>")


class NullRule(Rule):
    """prop = (location of the failure on this path or None, a call that can fail was made)"""
    name = "null"
    maxstates = 12
    budget = 300000
    inline_depth = 2
    nullfields = True

    def __init__(self, m, nullable, derefs, entry, param=None):
        self.m, self.nullable, self.derefs, self.entry, self.param = m, nullable, derefs, entry, param
        self.returns = False
        self.sites = 0
        self.hit = False

    def init(self):
        return ("param" if self.param is not None else None, False, frozenset())

    def null(self, eng, st, fn, ctx, op):
        if op[0] not in ("i", "a"):
            return False
        v = eng.val(st, fn, ctx, op)
        return v == ("k", 0) or v[0] == "p" and v[1] == NULL

    def inline(self, eng, fn, depth):
        """Small accessors."""
        return len(fn.instrs) <= 25 and all(n.startswith("llvm.") for n in self.m.cg[fn.name])

    def bad(self, eng, st, i, what):
        self.hit = True
        if self.param is None:
            eng.report(i, "%s() can %s after the call at %s failed" % (i.fn.name, what, st.prop[0]), st)

    def instr(self, eng, st, i, ctx):
        if st.prop[0] is None:
            return
        if i.op in ("load", "cmpxchg", "atomicrmw"):
            p = i.ops[0]
        elif i.op == "store":
            p = i.ops[1]
        else:
            return
        if self.null(eng, st, i.fn, ctx, p):
            self.bad(eng, st, i, "use a null pointer")

    def store(self, eng, st, i, loc, v, ctx):
        if loc[0] == ("p", ERRNO, 0) and v != ("k", 0):
            st.prop = (st.prop[0], True, st.prop[2])
        if i.vt == "ptr" and loc[1][0] != "raw" and not loc[1][0].startswith("al:"):
            direct = st.prop[0] is not None and v == ("k", 0) and i.ops[0][0] == "i" and i.fn.instrs[i.ops[0][1]].op == "call"
            if direct != (loc[1] in st.prop[2]):
                keys = st.prop[2] | {loc[1]} if direct else st.prop[2] - {loc[1]}
                st.prop = (st.prop[0], st.prop[1], keys)

    def call(self, eng, st, i, name, args, ctx):
        f = self.m.funcs.get(name)
        if st.prop[0] is not None:
            for k, a in enumerate(args):
                if k >= len(i.args) or not self.null(eng, st, i.fn, ctx, i.args[k]):
                    if k < len(i.args) and f is not None and not f.decl and a[0] == "p" and a[1][0] == "a" and (a[1], a[2]) in st.mem:
                        c = st.mem[(a[1], a[2])]
                        if c[2] == "ptr" and c[0] == ("k", 0) and self.derefs(name, k, True):
                            self.bad(eng, st, i, "pass a pointer to a null pointer to %s()" % name)
                    continue
                if f is not None and not f.decl:
                    if not self.inline(eng, f, 0) and self.derefs(name, k):
                        self.bad(eng, st, i, "pass a null pointer to %s()" % name)
                elif name.startswith("llvm.memcpy") or name.startswith("llvm.memmove") or name.startswith("llvm.memset"):
                    if k < 2 and not (k == 1 and name.startswith("llvm.memset")) and eng.isnull(st, args[2]) is False:
                        self.bad(eng, st, i, "copy from or to a null pointer")
                elif name in DALL or (name in D0 and k == 0) or k in DK.get(name, ()):
                    if name in ("memcpy", "memmove", "memset") and eng.isnull(st, args[2]) is not False:
                        continue
                    self.bad(eng, st, i, "pass a null pointer to %s()" % name)
        if not st.prop[1] and self.canfail(eng, name, f):
            st.prop = (st.prop[0], True, st.prop[2])
        if name == "reserve" and f is not None and not f.decl:
            # answers through errno whether the array could grow
            self.sites += 1
            out = []
            for good in (True, False):
                s = st.copy()
                eng.effect(s, i, name, args, ctx)
                rv = eng.fresh(s, ("r", ctx, i.id)) if good else args[0]
                e = ("k", 0) if good else eng.fresh(s, ("errno", ctx, i.id), (1, 4095, frozenset()))
                s.mem[(ERRNO, 0)] = (e, ("g:errno", 0), "i32")
                if good:
                    eng.assumecmp(s, "ne", rv, ("k", 0))
                else:
                    s.prop = ("%s (%s)" % (i.loc(), name), True, st.prop[2])
                    s.trail = ("%s: %s() fails" % (i.loc(), name), s.trail)
                out.append((s, rv))
            return out
        if (name in SOURCES or name in self.nullable) and not self.exempt(eng, st, i, name, args):
            self.sites += 1
            s = st.copy()
            if f is not None and not f.decl:
                eng.effect(st, i, name, args, ctx)
                eng.effect(s, i, name, args, ctx)
                rv = eng.fresh(st, ("r", ctx, i.id), (1, INF, frozenset()))
            else:
                (st, rv), = eng.external(st, i, name, args, ctx)
                (s, _), = eng.external(s, i, name, args, ctx)
                rv = eng.fresh(st, ("r", ctx, i.id), (1, INF, frozenset()))
            s.prop = ("%s (%s)" % (i.loc(), name), True, st.prop[2])
            s.trail = ("%s: %s() fails" % (i.loc(), name), s.trail)
            return [(st, rv), (s, ("k", 0))]
        return None

    def canfail(self, eng, name, f):
        """Can this call fail in a way the function would report as null?"""
        if f is not None and not f.decl:
            return name in failing(self.m)
        return not name.startswith("llvm.") and name not in libc.NO_ERRNO

    def exempt(self, eng, st, i, name, args):
        if name == "varena_get" and st_known(self.m, i):
            return True
        # a table of callbacks none of which can fail
        for a in args:
            if a[0] == "p" and a[1][0] == "g":
                fns = callbacks(self.m, a[1][1], set())
                if fns and not fns & self.nullable:
                    return True
        return False

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name == self.entry and eng.stack == [fn.name] and self.param is None:
            must, checked = mustfields(self.m)
            for k in st.prop[2] & must:
                if checked.get(k, set()) - {fn.name}:
                    continue        # null is a value its users know about
                r = eng.rng(st, rv)
                if fn.ret == "ptr":
                    good = eng.isnull(st, rv) is not True
                elif fn.ret == "void":
                    good = True
                elif fn.ret in ("i1", "i8"):
                    good = r[1] > 0
                else:
                    good = r[0] <= 0 <= r[1]
                if good:
                    eng.report(fn.blocks[fn.rpo[-1]][-1], "%s() can succeed leaving a null pointer in %s, which is used unchecked, after the call at %s failed" % (
                        fn.name, fieldname(self.m, k), st.prop[0]), st)
        if fn.name == self.entry and eng.stack == [fn.name] and st.prop[1] and fn.ret == "ptr" and eng.norm(st, rv) == ("k", 0):
            self.returns = True


def failing(m):
    """Functions in which a call can fail, other than on the way to abort()."""
    if "_c15failing" in m.__dict__:
        return m._c15failing
    calls = {}
    for f in m.defined.values():
        dead = set()
        for b in reversed(f.rpo):
            t = f.blocks[b][-1]
            if t.op == "unreachable" or any(i.op == "call" and i.noret for i in f.blocks[b]) or t.targets and all(x in dead for x in t.targets):
                dead.add(b)
        calls[f.name] = {n for b in f.rpo if b not in dead for i in f.blocks[b] if i.op == "call" for n in m.callees(i)}
    bad = {n for n, f in m.funcs.items() if f.decl and n not in libc.NO_ERRNO and not n.startswith("llvm.")}
    out = set(bad)
    change = True
    while change:
        change = False
        for f, c in calls.items():
            if f not in out and c & out:
                out.add(f)
                change = True
    m._c15failing = out
    return out


def mustfields(m):
    """Pointer fields that some function dereferences without comparing them to null."""
    if "_c15must" in m.__dict__:
        return m._c15must
    out = set()
    elsewhere = {}
    for f in m.defined.values():
        loads, checked, used = {}, set(), set()
        for i in f.instrs.values():
            if i.op == "load" and i.ty == "ptr":
                k = m.ptrkey(f, i.ops[0])
                if k[0] != "raw" and not k[0].startswith(("al:", "g:")) and not isinstance(k[1], str):
                    loads[i.id] = k
        for i in f.instrs.values():
            if i.op == "icmp":
                for o in i.ops:
                    if o[0] == "i" and o[1] in loads:
                        checked.add(loads[o[1]])
            elif i.op in ("load", "getelementptr") and i.ops[0][0] == "i" and i.ops[0][1] in loads:
                used.add(loads[i.ops[0][1]])
            elif i.op == "store" and i.ops[1][0] == "i" and i.ops[1][1] in loads:
                used.add(loads[i.ops[1][1]])
            elif i.op == "call":
                for n, a in enumerate(i.args):
                    if a[0] == "i" and a[1] in loads and i.callee[0] == "f" and (i.callee[1] in DALL or i.callee[1] in D0 and n == 0 or n in DK.get(i.callee[1], ())
                                                                                or direct_use(m, i.callee[1], n)):
                        used.add(loads[a[1]])
        out |= used - checked
        if not re.search("free|destroy|clear|close|hide|stop|reset", f.name):
            made = {m.ptrkey(f, i.ops[1]) for i in f.instrs.values() if i.op == "store" and i.ops[0][0] == "i" and f.instrs[i.ops[0][1]].op == "call"}
            for k in checked - made:
                elsewhere.setdefault(k, set()).add(f.name)
    m._c15must = out, elsewhere
    return m._c15must


def direct_use(m, name, n, busy=()):
    """Does this function use its n-th parameter as an address, and never compare it to null?"""
    memo = m.__dict__.setdefault("_c15uses", {})
    if (name, n) in memo:
        return memo[name, n]
    f = m.funcs.get(name)
    if f is None or f.decl or (name, n) in busy:
        return False
    use = False
    for i in f.instrs.values():
        if i.op == "icmp" and ("a", n) in i.ops or i.op == "phi" and ("a", n) in i.ops:
            use = False
            break
        if i.op in ("getelementptr", "load") and i.ops[0] == ("a", n) or i.op == "store" and i.ops[1] == ("a", n):
            use = True
        elif i.op == "call" and i.callee[0] == "f":
            for k, x in enumerate(i.args):
                if x == ("a", n):
                    c = i.callee[1]
                    use = use or c in DALL or c in D0 and k == 0 or k in DK.get(c, ()) or direct_use(m, c, k, busy + ((name, n),))
    memo[name, n] = use
    return use


def fieldname(m, k):
    t = m.types.get(k[0]) or m.types.get("struct." + k[0])
    for nm, off, sz, dt in (t or {}).get("fields", []):
        if off == k[1]:
            return "%s.%s" % (k[0].replace("struct.", ""), nm)
    return "%s+%s" % k


def callbacks(m, g, seen):
    """Functions reachable from a constant global's initialiser."""
    if g in seen:
        return set()
    seen.add(g)
    out = set()
    for a, t, o, v in m.globals.get(g, {}).get("flat", []):
        if v[0] == "f":
            out.add(v[1])
        elif v[0] == "g":
            out |= callbacks(m, v[1], seen)
    return out


def st_known(m, i):
    """varena_get() for memory that was already allocated finds the arena it came from: the size argument of a free or the old size of a realloc."""
    return i.fn.name in ("varena_free",) or i.fn.name == "varena_realloc" and i.args[1] == ("a", 2)


_M = None


def _one(job):
    f, nullable = job
    m = _M
    memo = {}
    busy = set()

    def derefs(name, k, deep=False):
        key = (name, k, deep)
        if key in memo:
            return memo[key]
        if key in busy or len(busy) > 6:
            return False
        busy.add(key)
        rule = NullRule(m, nullable, derefs, name, k)
        eng = Engine(m, rule)

        def setup(e, st, args, ctx):
            if k < len(args) and not deep:
                args[k] = ("k", 0)
            elif k < len(args):
                e.write(st, args[k], ("raw", None), "ptr", ("k", 0))
        try:
            eng.run(name, setup)
            r = rule.hit
        except Budget:
            r = False
        busy.discard(key)
        memo[key] = r
        return r
    rule = NullRule(m, nullable, derefs, f)
    eng = Engine(m, rule)
    over = False
    try:
        eng.run(f)
    except Budget:
        over = True
    return f, rule.returns, rule.sites, [(k, i.loc(), msg, tr) for k, (i, msg, tr) in eng.reports.items()], eng.steps, eng.paths, over


def check(m, R):
    global _M
    _M = m
    R.rule("calls that can fail with a null pointer (allocation, opening, and every function found to pass such a failure on) are split into success and "
           "failure; on failing paths no load, store or call dereferences the null pointer (callees are analysed with that argument null)")
    nullable = set()
    done = {}
    work = {c.fn.name for n in SOURCES for c in m.callsites.get(n, [])} | {f.name for f in m.defined.values() if f.ret == "ptr"}
    rounds = 0
    with ProcessPoolExecutor(8) as ex:
        while work and rounds < 12:
            rounds += 1
            new = set()
            for res in ex.map(_one, [(f, frozenset(nullable)) for f in sorted(work)]):
                done[res[0]] = res
                if res[1] and res[0] not in nullable:
                    new.add(res[0])
            nullable |= new
            work = {c.fn.name for n in new for c in list(m.callsites.get(n, [])) + list(m.icallers.get(n, []))}
    for f in sorted(done):
        _, ret, sites, reps, steps, paths, over = done[f]
        R.funcs.add(f)
        R.count("abstract transfer steps", steps)
        R.count("abstract return paths", paths)
        R.count("failing calls examined", sites)
        R.obligation("null: %s() (%d failing calls on its paths)%s" % (f, sites, ", can itself return null on failure" if ret else ""))
        R.require(not over, "%s() is too large to analyse" % f)
        for k, loc, msg, tr in reps:
            R.violation(loc, msg, tr, fn=f, rule="null")
    R.count("functions that pass a failure on as null", len(nullable))
    R.minimum("functions with calls that can fail", len(done), 60)
    R.minimum("functions that return null on failure", len(nullable), 40)

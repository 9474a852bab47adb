"""C11: files are changed only by -delete, which removes exactly the visited file, and by output files being opened."""
from ..engine import Engine, Rule, INF, ERRNO, TOP
from ..patterns import table
from ..util import Tracer
from .execcommon import direct_reach
from .opcommon import evaluators
from .c05 import clears

MUTATING = {
    "unlink", "unlinkat", "rmdir", "remove", "rename", "renameat", "renameat2", "link", "linkat", "symlink", "symlinkat", "mkdir", "mkdirat",
    "mknod", "mknodat", "mkfifo", "mkfifoat", "chmod", "fchmod", "fchmodat", "lchmod", "chown", "fchown", "lchown", "fchownat",
    "utime", "utimes", "futimes", "lutimes", "futimens", "utimensat", "futimesat", "truncate", "truncate64", "ftruncate", "ftruncate64",
    "fallocate", "fallocate64", "posix_fallocate", "posix_fallocate64", "setxattr", "lsetxattr", "fsetxattr", "removexattr", "lremovexattr",
    "fremovexattr", "mkstemp", "mkstemp64", "mkostemp", "mkostemp64", "mkstemps", "mkdtemp", "tmpfile", "tmpfile64", "creat", "creat64",
    "acl_set_file", "acl_set_fd", "acl_delete_def_file", "cap_set_file", "cap_set_fd", "setfilecon", "lsetfilecon", "fsetfilecon",
    "mount", "umount", "umount2", "chroot", "pivot_root", "sendfile", "copy_file_range", "splice", "pwrite", "pwrite64", "pwritev",
    "addmntent", "putpwent", "putgrent", "__xmknod", "__xmknodat",
}
REMOVERS = {"unlinkat", "unlink", "rmdir", "remove"}
OPENS = {"open": 1, "open64": 1, "__open_2": 1, "openat": 2, "openat64": 2, "io_uring_prep_openat": 3}
FOPENS = {"fopen": 1, "fopen64": 1, "freopen": 1, "freopen64": 1}
# system calls by number (x86-64) that change files
SYSCALLS = {2, 76, 77, 82, 83, 84, 85, 86, 87, 88, 90, 91, 92, 93, 94, 132, 133, 165, 166, 188, 189, 190, 197, 198, 199, 235, 257, 258, 259,
            260, 261, 263, 264, 265, 266, 268, 280, 285, 316, 437, 452}
# io_uring operations that do not: NOP, POLL, TIMEOUT, CANCEL, OPENAT, CLOSE, STATX, MSG_RING and the like
URING = {0, 1, 6, 7, 11, 12, 14, 18, 19, 20, 21, 22, 24, 27, 28, 29, 40, 43, 44}
O_ACC, O_CREAT, O_TRUNC, O_APPEND = 3, 0o100, 0o1000, 0o2000
REMOVEDIR = 0x200


class DeleteRule(Rule):
    """prop = (path known not to be '.', type, attempt, diagnosed)"""
    name = "delete"
    maxstates = 100
    budget = 400000
    inline_depth = 4

    def __init__(self, m, entry):
        self.m, self.entry = m, entry
        f = m.field
        self.kfd, self.kpath, self.kfull = f("BFTW", "at_fd"), f("BFTW", "at_path"), f("BFTW", "path")
        self.kftw = f("bfs_eval", "ftwbuf")
        self.near = direct_reach(m, REMOVERS | {"bftw_type", "strcmp"})
        self.diag = direct_reach(m, {"bfs_verror", "cvfprintf", "cfprintf", "bfs_error"})
        self.attempts = self.leaves = 0
        self.ftw = set()

    def init(self):
        return (None, None, None, False)

    def put(self, st, n, v):
        p = list(st.prop)
        p[n] = v
        st.prop = tuple(p)

    def tokens(self, prop):
        return sorted(self.ftw)

    def inline(self, eng, fn, depth):
        leaf = len(fn.instrs) < 60 and not self.m.cg[fn.name]
        return (leaf or fn.name in self.near) and fn.file == self.m.defined[self.entry].file and fn.name not in self.diag

    def load(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.kftw and v[0] == "s":
            self.ftw.add(v[1])

    def field(self, eng, st, v, key):
        """Is v the given field of the visited file?"""
        return any(eng.peek(st, ("t", t), key[1]) == v for t in self.ftw)

    def isftw(self, v):
        return v[0] == "s" and v[1] in self.ftw

    def dot(self, eng, st):
        """True: the path is known to be '.'; False: known not to be."""
        if st.prop[0] is not None:
            return st.prop[0]
        for t in self.ftw:
            p = eng.peek(st, ("t", t), self.kfull[1])
            a = eng.addr(st, p) if p is not None else None
            if a is None or a[1] is None:
                continue
            c = [eng.peek(st, a[0], a[1] + n) for n in (0, 1)]
            if c[0] is not None and eng.evalcmp(st, ("cmp", "ne", c[0], ("k", 46))):
                return False
            if c[1] is not None and eng.isnull(st, c[1]) is False:
                return False
            if c == [("k", 46), ("k", 0)]:
                return True
        return None

    def call(self, eng, st, i, name, args, ctx):
        if st.prop[0] is None and self.dot(eng, st) is not None:
            self.put(st, 0, self.dot(eng, st))
        if name in ("strcmp", "strncmp"):
            lit = [self.m.gstr(("g", a[1][1], a[2])) if a[0] == "p" and a[1][0] == "g" else None for a in args[:2]]
            if "." in lit:
                o = args[1 - lit.index(".")]
                if not self.field(eng, st, o, self.kfull):
                    return None
                out = []
                for same in (True, False):
                    s = st.copy()
                    self.put(s, 0, same)
                    rv = ("k", 0) if same else eng.fresh(s, ("r", ctx, i.id), (-INF, INF, frozenset([0])))
                    s.trail = ("%s: the path is %s'.'" % (i.loc(), "" if same else "not "), s.trail)
                    out.append((s, rv))
                return out
            return None
        if name == "bftw_type":
            if not self.isftw(args[0]):
                return None
            nofollow = args[1] == ("k", self.m.enums["BFS_STAT_NOFOLLOW"])
            out = []
            for t in ("dir", "error", "other"):
                s = st.copy()
                eng.effect(s, i, name, args, ctx)
                self.put(s, 1, t if nofollow else "unsure")
                D, E = self.m.enums["BFS_DIR"], self.m.enums["BFS_ERROR"]
                rv = ("k", D) if t == "dir" else ("k", E) if t == "error" else eng.fresh(s, ("r", ctx, i.id), (-INF, INF, frozenset([D, E])))
                s.trail = ("%s: the type is %s" % (i.loc(), t), s.trail)
                out.append((s, rv))
            return out
        if name in REMOVERS:
            self.attempts += 1
            if st.prop[2] is not None:
                eng.report(i, "%s() can remove more than one file" % self.entry, st)
            if name == "unlinkat":
                if not self.field(eng, st, args[0], self.kfd) or not self.field(eng, st, args[1], self.kpath):
                    eng.report(i, "%s() can remove something else than the visited file (not its at_fd and at_path)" % self.entry, st)
                d = self.dot(eng, st)
                if d is not False:
                    eng.report(i, "%s() can try to remove the current directory '.'" % self.entry, st)
                t = st.prop[1]
                fl = args[2]
                if t == "error":
                    eng.report(i, "%s() can remove a file whose type could not be determined" % self.entry, st)
                elif t in (None, "unsure"):
                    eng.report(i, "%s() can remove a file without knowing its own type (of the link itself, not of what it points to)" % self.entry, st)
                elif fl != ("k", REMOVEDIR if t == "dir" else 0):
                    eng.report(i, "%s() can use the wrong kind of removal for a %s" % (self.entry, "directory" if t == "dir" else "non-directory"), st)
            else:
                eng.report(i, "%s() can remove a file by a path that may be followed elsewhere (%s)" % (self.entry, name), st)
            out = []
            for good in (True, False):
                s = st.copy()
                if good:
                    rv = ("k", 0)
                else:
                    rv = ("k", -1)
                    e = eng.fresh(s, ("errno", ctx, i.id), (1, 4095, frozenset()))
                    s.mem[(ERRNO, 0)] = (e, ("g:errno", 0), "i32")
                self.put(s, 2, good)
                s.trail = ("%s: %s() %s" % (i.loc(), name, "succeeds" if good else "fails"), s.trail)
                out.append((s, rv))
            return out
        if name in self.diag and not self.inline(eng, self.m.funcs[name], 0):
            if st.prop[2] is False or st.prop[1] == "error":
                self.put(st, 3, True)
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name]:
            return
        self.leaves += 1
        i = fn.blocks[fn.rpo[-1]][-1]
        dot, typ, att, diag = st.prop
        r = eng.rng(st, rv)
        if att is True:
            if r[0] <= 0:
                eng.report(i, "%s() can return false although the file was removed" % self.entry, st)
        elif att is False:
            if r[1] > 0:
                eng.report(i, "%s() can return true although the file was not removed" % self.entry, st)
            if not diag:
                eng.report(i, "%s() can fail to remove a file without reporting it" % self.entry, st)
        elif typ == "error":
            if r[1] > 0 or not diag:
                eng.report(i, "%s() can skip a file whose type is unknown without reporting it" % self.entry, st)
        elif dot is not True:
            if self.dot(eng, st) is not True:
                eng.report(i, "%s() can leave a file alone that it should remove" % self.entry, st)


class ImplyRule(Rule):
    """A successfully parsed -delete makes the search depth-first. prop = None"""
    name = "imply"
    maxstates = 40
    budget = 200000
    inline_depth = 3

    def __init__(self, m, entry):
        self.m, self.entry = m, entry
        self.k = m.field("bfs_ctx", "flags")
        self.post = m.enums["BFTW_POST_ORDER"]
        self.leaves = 0

    def init(self):
        return False

    def inline(self, eng, fn, depth):
        return self.k in eng.sum.mods(fn.name)[0] and fn.file == self.m.defined[self.entry].file

    def store(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.k:
            st.prop = sets(self.m, i.fn, i.ops[0], self.post)

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name]:
            return
        self.leaves += 1
        if eng.isnull(st, rv) is not True and not st.prop:
            eng.report(fn.blocks[fn.rpo[-1]][-1], "%s() can accept -delete without searching directories depth-first" % fn.name, st)


def sets(m, fn, op, bit, seen=None):
    """Does this value always have `bit`?"""
    o, z = Tracer(m).bits(fn, op)
    return bool(o & bit)


def check(m, R):
    R.rule("every call to a function that changes the file system, and every open for writing, is enumerated; removal happens only in the evaluator of -delete, "
           "which only the parsers of -delete/-rm install; opens for writing only for an action's output file and /dev/null")
    R.rule("path-sensitive analysis of that evaluator: it removes the visited file by its at_fd and at_path, as a directory exactly if the file itself "
           "(not what a link points to) is one, never '.', once; failure is reported and makes the action false")
    R.rule("a parsed -delete sets BFTW_POST_ORDER, which is never cleared from the context's flags")
    tr = Tracer(m)
    evs, _ = evaluators(m)
    removers = direct_reach(m, REMOVERS) & set(m.defined)
    nsites = 0
    roots = set()
    for n in sorted(MUTATING):
        for c in m.callsites.get(n, []):
            nsites += 1
            R.obligation("%s: %s()" % (c.loc(), n))
            if n not in REMOVERS:
                R.violation(c, "%s() changes files: %s()" % (c.fn.name, n), rule="census")
    R.minimum("calls that remove files", nsites, 1)
    for c in m.callsites.get("syscall", []):
        v = c.args[0]
        R.obligation("%s: syscall(%s)" % (c.loc(), v))
        src = tr.sources(c.fn, v)
        if not all(s[0] == "c" and s[1] not in SYSCALLS for s in src):
            R.violation(c, "%s() makes a system call that may change files" % c.fn.name, rule="census")
    if "io_uring_sqe" in m.types or "struct.io_uring_sqe" in m.types:
        key = m.field("io_uring_sqe", "opcode")
        for s in m.storemap.get(key, []):
            for v in tr.sources(s.fn, s.ops[0]):
                R.obligation("%s: io_uring operation %s" % (s.loc(), v[1:2]))
                if v[0] == "arg" and not tr.callers(v[1]):
                    continue
                if v[0] != "c" or v[1] not in URING:
                    R.violation(s, "%s() asks io_uring for an operation that may change files" % s.fn.name, rule="census")
    # who reaches a removal
    for f in sorted(removers):
        callers = {c.fn.name for c in m.callsites.get(f, [])}
        if f in evs:
            roots.add(f)
            for c in m.callsites.get(f, []):
                R.violation(c, "%s() removes a file outside of the evaluation of -delete" % c.fn.name, rule="census")
        elif not callers:
            R.violation("src:%s" % f, "%s() can remove files but does not evaluate an expression" % f, fn=f, rule="census")
    R.minimum("evaluators that remove files", len(roots), 1)
    # who installs the evaluator
    rows = [r for g in m.globals if m.globals[g]["type"].endswith("table_entry]") or g == "parse_table" for r in table(m, g, "table_entry")]
    R.require(len(rows) > 50, "the parse table vanished")
    users = set()
    for fn in m.defined.values():
        for i in fn.instrs.values() if isinstance(fn.instrs, dict) else fn.instrs:
            if i is None:
                continue
            ops = list(i.args or []) if i.op == "call" else list(i.ops[:1]) if i.op == "store" else []
            if i.op == "phi":
                ops = [v for v, _ in i.phis]
            elif i.op in ("select", "ret"):
                ops = list(i.ops)
            if any(o[0] == "f" and o[1] in roots for o in ops):
                users.add(fn.name)
    R.minimum("parsers that install the removing evaluator", len(users), 1)
    parsers = {}
    for r in rows:
        p = r.get("parse", ("null",))
        if p[0] == "f":
            parsers.setdefault(p[1], set()).add(m.gstr(r.get("arg", ("null",))))
    entry = set()
    for u in sorted(users):
        up = direct_reach(m, {u})
        hit = {p for p in parsers if p in up}
        names = set().union(*(parsers[p] for p in hit)) if hit else set()
        R.obligation("%s() installs the removing evaluator for %s" % (u, sorted(names)))
        if not hit:
            R.violation("src:%s" % u, "%s() installs the removing evaluator but does not parse a primary" % u, fn=u, rule="install")
        elif not names <= {"-delete", "-rm"}:
            R.violation("src:%s" % u, "the removing evaluator is installed for %s" % ", ".join(sorted(names - {"-delete", "-rm"})), fn=u, rule="install")
        entry |= hit
    for p in parsers:
        if parsers[p] & {"-delete", "-rm"} and p not in entry:
            R.violation("src:%s" % p, "%s is not parsed as an action that removes the file" % ", ".join(sorted(parsers[p])), fn=p, rule="install")
    for f in sorted(roots):
        rule = DeleteRule(m, f)
        eng = Engine(m, rule)
        eng.run(f)
        R.engine(eng, "delete")
        R.require(rule.attempts and rule.leaves, "%s() is not analysable" % f)
        R.obligation("delete: %s()" % f)
    for p in sorted(entry):
        rule = ImplyRule(m, p)
        eng = Engine(m, rule)
        eng.run(p)
        R.engine(eng, "imply")
        R.require(rule.leaves, "%s() is not analysable" % p)
        R.obligation("imply: %s()" % p)
    key = m.field("bfs_ctx", "flags")
    for s in m.storemap.get(key, []):
        R.obligation("%s: store to the search flags" % s.loc())
        if keeps(m, s.fn, s.ops[0], m.enums["BFTW_POST_ORDER"], key) is False:
            R.violation(s, "%s() can make the search forget that it is depth-first" % s.fn.name, rule="imply")
    # opens for writing
    n = 0
    for name, k in sorted(OPENS.items()):
        for c in m.callsites.get(name, []):
            n += 1
            opens(m, R, tr, c, c.fn, c.args[k], c.fn, c.args[k - 1])
    for name, k in sorted(FOPENS.items()):
        for c in m.callsites.get(name, []):
            n += 1
            src = tr.sources(c.fn, c.args[k])
            if not all(s[0] == "str" and s[1][:1] == "r" and "+" not in s[1] for s in src):
                R.violation(c, "%s() can open a file for writing" % c.fn.name, rule="open")
    for name in ("posix_spawn_file_actions_addopen",):
        for c in m.callsites.get(name, []):
            opens(m, R, tr, c, c.fn, c.args[3], c.fn, c.args[2])
    R.minimum("calls that open files", n, 5)


def keeps(m, fn, op, bit, key):
    """False if this new value of the flags may lack a bit the old value had."""
    if op[0] == "c":
        return bool(op[1] & bit) or zero_init(fn)
    if op[0] != "i":
        return None
    i = fn.instrs[op[1]]
    if i.op in ("or",):
        return any(keeps(m, fn, o, bit, key) is not False for o in i.ops)
    if i.op == "and":
        return all(keeps(m, fn, o, bit, key) is not False for o in i.ops)
    if i.op == "load":
        return m.ptrkey(fn, i.ops[0]) == key or None
    if i.op == "select":
        return all(keeps(m, fn, o, bit, key) is not False for o in i.ops[1:])
    if i.op == "phi":
        return all(keeps(m, fn, v, bit, key) is not False for v, _ in i.phis if v != op)
    return None


def zero_init(fn):
    return fn.name.endswith("_new") or fn.name.endswith("_init")


def opens(m, R, tr, c, fn, flags, pfn, path, seen=()):
    """Obligation for one open: not for writing, or an allowed path. Follows parameters to the callers."""
    par = flags if flags[0] == "a" else wide(fn, flags)
    if par is not None and fn.name not in seen:
        cs = tr.callers(fn.name)
        if not cs and fn.name not in m.address_taken and fn.name != "main":
            R.obligation("%s: open in %s(), which nothing calls" % (c.loc(), fn.name))
            return
        for k in cs:
            own = pfn is fn and path[0] == "a" and path[1] < len(k.args)
            opens(m, R, tr, k, k.fn, k.args[par[1]], k.fn if own else pfn, k.args[path[1]] if own else path, seen + (fn.name,))
        if cs:
            return
    if flags[0] == "i" and fn.instrs[flags[1]].op == "load" and fn.name not in seen:
        key = m.ptrkey(fn, fn.instrs[flags[1]].ops[0])
        st = m.storemap.get(key, [])
        if st:
            for s in st:
                opens(m, R, tr, s, s.fn, s.ops[0], s.fn, ("other",), seen + (fn.name,))
            return
    o, z = tr.bits(fn, flags)
    R.obligation("%s: open with flags known set %#x" % (c.loc(), o & 0xffffffff))
    if (z & O_ACC) == O_ACC and z & O_CREAT and z & O_TRUNC:
        return
    src = tr.sources(pfn, path) if path[0] != "other" else {("other",)}
    if src and all(terminal(m, s) for s in src) and z & O_CREAT and z & O_TRUNC:
        return          # the terminal, or /dev/null
    if fn.name in direct_reach(m, {"cfwrap"}) or "cfwrap" in m.cg[fn.name]:
        if "struct bfs_parser*" in fn.dtypes and o & O_CREAT:
            return      # an output file named on the command line
    R.violation(c, "%s() can open a file for writing" % fn.name, rule="open")


def terminal(m, s):
    """The terminal's name, or /dev/null."""
    if s[0] == "str":
        return s[1] in ("/dev/tty", "/dev/null")
    if s[0] == "call":
        return s[1] in ("ctermid", "ttyname")
    if s[0] == "op":
        fn = s[1].fn
        at = buffer(fn, ("i", s[1].id))
        if at is None:
            return False
        filled = {i.callee[1] for i in fn.instrs.values() if i.op == "call" and i.callee[0] == "f" and i.args and buffer(fn, i.args[0]) == at}
        return "ctermid" in filled and not filled & {"strcpy", "stpcpy", "memcpy", "snprintf", "strncpy", "strcat", "read", "readlink", "getcwd"}
    return False


def wide(fn, op):
    """The parameter behind a chain of or/and/casts, if any."""
    n = 0
    while op[0] == "i" and n < 10:
        i = fn.instrs[op[1]]
        if i.op in ("zext", "sext", "trunc", "freeze"):
            op = i.ops[0]
        elif i.op == "or":
            a = [o for o in i.ops if o[0] in ("i", "a")]
            if len(a) != 1:
                return None
            op = a[0]
        else:
            return None
        n += 1
    return op if op[0] == "a" else None


def buffer(fn, op):
    """The local variable an address points into, or None."""
    while op[0] == "i":
        i = fn.instrs[op[1]]
        if i.op == "alloca":
            return i.id
        if i.op not in ("gep", "getelementptr", "bitcast"):
            return None
        op = i.ops[0]
    return None

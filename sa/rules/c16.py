"""C16: what bfs knows about a file is about that file, and follows links exactly as asked."""
from itertools import product
from ..engine import Engine, Rule, INF, ERRNO
from ..patterns import table
from .opcommon import evaluators

ENOENT, EACCES, ENOTDIR, ELOOP, ENOSYS, EIO = 2, 13, 20, 40, 38, 5
MODES = {"reg": 0o100644, "dir": 0o040755, "lnk": 0o120777}
TYPES = {"reg": "BFS_REG", "dir": "BFS_DIR", "lnk": "BFS_LNK"}
# what following finds, and what not following finds: a kind of file or an error
WORLDS = [("a regular file", "reg", "reg"), ("a directory", "dir", "dir"), ("a link to a file", "reg", "lnk"), ("a link to a directory", "dir", "lnk"), ("a broken link", ENOENT, "lnk"),
          ("a link below a file", ENOTDIR, "lnk"), ("a link loop", ELOOP, "lnk"), ("a link to something inaccessible", EACCES, "lnk"), ("a missing file", ENOENT, ENOENT), ("an inaccessible file", EACCES, EACCES)]
PURE = {"errno_is_like", "error_is_like", "bfs_mode_to_type"}
GONE = (ENOENT, ENOTDIR)


def lookup(w, flags):
    """(result, which): what a lookup with these flags finds in a world."""
    if flags == "BFS_STAT_NOFOLLOW":
        return w[2], "L"
    if flags == "BFS_STAT_TRYFOLLOW" and w[1] in GONE:
        return w[2], "L"
    return w[1], "F"


def W(n):
    return ("w", n)


class World(Rule):
    """Analyse a function over a model of one file. prop = frozenset of (buffer address, (which lookup, kind) or None)"""
    name = "cache"
    maxstates = 64
    budget = 200000
    inline_depth = 6

    def __init__(self, m, entry, world, text, files, skip=()):
        self.m, self.entry, self.world, self.text = m, entry, world, text
        self.files, self.skip = files, skip
        self.leaves = self.lookups = 0
        self.start = frozenset()

    def init(self):
        return self.start

    def distinct(self, tok):
        return tok[:1] == ("w",)

    def tokens(self, prop):
        return [W(n) for n in ("state", "ftw", "file", "parent", "ent", "de", "path", "b1", "b2", "b3", "b4")]

    def inline(self, eng, fn, depth):
        return (fn.file == self.files or fn.name in PURE) and fn.name not in self.skip and len(fn.instrs) <= 260

    def isentry(self, eng, fn):
        return fn.name == self.entry and eng.stack == [fn.name]

    def at(self, fn):
        return fn.blocks[fn.rpo[-1]][-1]

    # -- model -----------------------------------------------------------------------------
    def set(self, st, tok, struct, field, v, ty="ptr"):
        off = self.m.field(struct, field)
        if off is None:
            return
        parts = field.split(".")
        key = (off[0], off[1])
        # the innermost named structure is what accesses are keyed by
        for n in range(1, len(parts)):
            t = [f for f in self.m.types["struct." + struct]["fields"] if f[0] == ".".join(parts[:n])]
            if t and t[0][3].startswith("struct ") and "struct." + t[0][3][7:] in self.m.types:
                key = ("struct." + t[0][3][7:], off[1] - t[0][1])
        st.mem[(("t", tok), off[1])] = (v, key, ty)

    def get(self, eng, st, tok, struct, field):
        return eng.peek(st, ("t", tok), self.m.field(struct, field)[1])

    def content(self, st, a):
        return dict(st.prop).get(a)

    def fill(self, eng, st, buf, what):
        a = eng.addr(st, eng.norm(st, buf))
        d = dict(st.prop)
        d[a] = what
        st.prop = frozenset(d.items())
        if a is None or a[1] is None:
            return
        f = self.m.field
        for name, ty, v in (("mode", "i32", MODES[what[1]]), ("dev", "i64", 7), ("ino", "i64", 9)):
            k = f("bfs_stat", name)
            st.mem[(a[0], a[1] + k[1])] = (("k", v), k, ty)

    def errno(self, st, n):
        st.mem[(ERRNO, 0)] = (("k", n), ("g:errno", 0), "i32")

    def geterrno(self, eng, st):
        return eng.peek(st, ERRNO, 0)

    def matches(self, c, which):
        """Does a buffer's content stand for the wanted lookup?"""
        if c is None:
            return False
        r = self.world[1] if which == "F" else self.world[2]
        return c[0] != "X" and c[1] == r and (c[0] == which or self.world[1] == self.world[2])

    def caches(self, eng, st, i, tok, struct, prefix, usable):
        """The cache invariant: what is marked as known is what the lookup finds."""
        n = self.entry
        es = [self.get(eng, st, tok, struct, prefix + x) for x in ("stat_err", "lstat_err")]
        bs = [self.get(eng, st, tok, struct, prefix + x) for x in ("stat_buf", "lstat_buf")]
        if usable and bs[0] == bs[1] and any(e and e[0] == "k" and e[1] < 0 for e in es) and not all(e and e[0] == "k" and e[1] > 0 for e in es):
            eng.report(i, "%s() can use one buffer for a link and its target" % n, st)
        for which, buf, err in (("F", "stat_buf", "stat_err"), ("L", "lstat_buf", "lstat_err")):
            e = self.get(eng, st, tok, struct, prefix + err)
            b = self.get(eng, st, tok, struct, prefix + buf)
            how = "following links" if which == "F" else "not following links"
            truth = self.world[1] if which == "F" else self.world[2]
            if e is None or e[0] != "k":
                eng.report(i, "%s() can leave the result of %s undefined" % (n, how), st)
            elif e[1] == 0:
                a = eng.addr(st, b) if b else None
                if not self.matches(self.content(st, a) if a else None, which):
                    eng.report(i, "%s() can remember something else as the result of %s" % (n, how), st)
            elif e[1] > 0:
                if truth != e[1] and not (truth in GONE and e[1] in GONE):
                    eng.report(i, "%s() can remember an error that %s did not meet" % (n, how), st)
            elif usable and (b is None or eng.isnull(st, b) is not False and b[0] != "p"):
                eng.report(i, "%s() can lose the buffer for %s" % (n, how), st)

    def cached(self, st, tok, struct, prefix, f, l, b1, b2):
        """Initial cache: f, l say whether following / not following is known already."""
        share = f and l and self.world[1] == self.world[2]
        p = dict(st.prop)

        def one(known, buf, err, b, r, which):
            ok = isinstance(r, str)
            self.set(st, tok, struct, prefix + buf, ("s", b) if not known or ok else ("k", 0))
            self.set(st, tok, struct, prefix + err, ("k", -1 if not known else 0 if ok else r), "i32")
            st.cons[b] = (1, INF, frozenset())
            if known and ok:
                p[(("t", b), 0)] = (which, r)
                self.m  # modes
                k = self.m.field("bfs_stat", "mode")
                st.mem[(("t", b), k[1])] = (("k", MODES[r]), k, "i32")
        one(f, "stat_buf", "stat_err", b2 if share else b1, self.world[1], "F")
        one(l, "lstat_buf", "lstat_err", b2, self.world[2], "L")
        st.prop = frozenset(p.items())

    def ptr(self, st, *names):
        for n in names:
            st.cons[W(n)] = (1, INF, frozenset())

    # -- lookups -----------------------------------------------------------------------------
    def pair(self, eng, st, i, fd, path):
        return

    def call(self, eng, st, i, name, args, ctx):
        E = self.m.enums
        if name == "bfs_stat" and name != self.entry:
            self.lookups += 1
            self.pair(eng, st, i, args[0], args[1])
            fl = eng.norm(st, args[2])
            if fl[0] != "k":
                eng.report(i, "%s() can look at a file with flags that are not known" % self.entry, st)
                return [(st, ("k", -1))]
            k = "BFS_STAT_NOFOLLOW" if fl[1] & E["BFS_STAT_NOFOLLOW"] else "BFS_STAT_TRYFOLLOW" if fl[1] & E["BFS_STAT_TRYFOLLOW"] else "BFS_STAT_FOLLOW"
            r, which = lookup(self.world, k)
            if isinstance(r, str):
                if eng.isnull(st, eng.norm(st, args[3])):
                    eng.report(i, "%s() can look at a file without a buffer for the result" % self.entry, st)
                    return []
                self.fill(eng, st, args[3], (which, r))
                return [(st, ("k", 0))]
            self.errno(st, r)
            return [(st, ("k", -1))]
        return None

    def ask(self, eng, st, fn, rv, flags, must=True):
        """The result of a lookup function that returns a buffer."""
        i = self.at(fn)
        r, which = lookup(self.world, flags)
        rv = eng.norm(st, rv)
        if rv == ("k", 0):
            if isinstance(r, str):
                if must:
                    eng.report(i, "%s() can fail although the file can be looked at" % self.entry, st)
            elif must:
                e = self.geterrno(eng, st)
                if e != ("k", r) and not (e and e[0] == "k" and e[1] in GONE and r in GONE):
                    eng.report(i, "%s() can fail with another error than the one met" % self.entry, st)
        else:
            c = self.content(st, eng.addr(st, rv))
            if not isinstance(r, str):
                eng.report(i, "%s() can succeed although the file cannot be looked at" % self.entry, st)
            elif not self.matches(c, which):
                eng.report(i, "%s() can return information about %s" % (self.entry, "the link instead of its target" if c and c[0] == "L" else "the target instead of the link" if c and c[0] == "F" else "something else"), st)


class Lookup(World):
    """bftw_stat(), bftw_cached_stat()"""
    def __init__(self, m, entry, world, text, files, known, flags, cached):
        super().__init__(m, entry, world, text, files)
        self.known, self.flags, self.only = known, flags, cached

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)
        E = self.m.enums
        self.ptr(st, "ftw")
        args[0] = ("s", W("ftw"))
        args[1] = ("k", E[self.flags])
        st.prop = frozenset()
        self.cached(st, W("ftw"), "BFTW", "stat_bufs.", self.known[0], self.known[1], W("b1"), W("b2"))

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        must = True
        if self.only:
            r, which = lookup(self.world, self.flags)
            must = self.known[0 if which == "F" else 1]
            if self.flags == "BFS_STAT_TRYFOLLOW" and which == "L":
                must = self.known[0] and self.known[1]
            if must and not isinstance(r, str):
                must = False
        self.ask(eng, st, fn, rv, self.flags, must)
        self.caches(eng, st, self.at(fn), W("ftw"), "BFTW", "stat_bufs.", True)


class Kind(World):
    """bftw_type()"""
    name = "type"

    def __init__(self, m, entry, world, text, files, known, flags, sflags):
        super().__init__(m, entry, world, text, files)
        self.known, self.flags, self.sflags = known, flags, sflags

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)
        E = self.m.enums
        self.ptr(st, "ftw")
        args[0] = ("s", W("ftw"))
        args[1] = ("k", E[self.flags])
        st.prop = frozenset()
        self.cached(st, W("ftw"), "BFTW", "stat_bufs.", self.known[0], self.known[1], W("b1"), W("b2"))
        self.set(st, W("ftw"), "BFTW", "type", ("k", E[TYPES[lookup(self.world, self.sflags)[0]]]), "i32")
        self.set(st, W("ftw"), "BFTW", "stat_flags", ("k", E[self.sflags]), "i32")

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        r = lookup(self.world, self.flags)[0]
        want = self.m.enums[TYPES[r] if isinstance(r, str) else "BFS_ERROR"]
        rv = eng.norm(st, rv)
        if rv[0] != "k" or (rv[1] - want) % (1 << 32):
            eng.report(self.at(fn), "%s() can give the wrong type for a link" % fn.name if self.world[2] == "lnk" else "%s() can give the wrong type" % fn.name, st)


class Finished(World):
    """A stat request that comes back from the I/O queue."""
    def __init__(self, m, entry, world, text, files, flags, pop):
        super().__init__(m, entry, world, text, files)
        self.flags, self.pop = flags, pop
        self.popped = 0

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)
        st.prop = frozenset()
        self.ptr(st, "ent", "file", "b1", "b2", "b3")
        st.mem.clear()

    def call(self, eng, st, i, name, args, ctx):
        E = self.m.enums
        if name == self.pop and self.pop != self.entry:
            if dict(st.prop).get("popped"):
                return []       # one completion per case
            self.popped += 1
            r, which = lookup(self.world, self.flags)
            ok = isinstance(r, str)
            e = W("ent")
            self.set(st, e, "ioq_ent", "op", ("k", E["IOQ_STAT"]), "i32")
            self.set(st, e, "ioq_ent", "result", ("k", 0 if ok else -r), "i32")
            self.set(st, e, "ioq_ent", "ptr", ("s", W("file")))
            self.set(st, e, "ioq_ent", "stat.buf", ("s", W("b3")))
            self.set(st, e, "ioq_ent", "stat.flags", ("k", E[self.flags]), "i32")
            fl = W("file")
            for b in ("stat_buf", "lstat_buf"):
                self.set(st, fl, "bftw_file", "stat_bufs." + b, ("k", 0))
            for b in ("stat_err", "lstat_err"):
                self.set(st, fl, "bftw_file", "stat_bufs." + b, ("k", -1), "i32")
            st.prop = frozenset(dict(st.prop, popped=True).items())
            if ok:
                self.fill(eng, st, ("s", W("b3")), (which, r))
            return [(st, ("s", e))]
        if name == "arena_free" and len(args) > 1 and eng.norm(st, args[1]) == ("s", W("b3")):
            d = dict(st.prop)
            d[(("t", W("b3")), 0)] = ("X", "freed")
            st.prop = frozenset(d.items())
            return [(st, ("k", 0))]
        return super().call(eng, st, i, name, args, ctx)

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn) or not dict(st.prop).get("popped"):
            return
        self.leaves += 1
        i = self.at(fn)
        self.caches(eng, st, i, W("file"), "bftw_file", "stat_bufs.", False)
        r, which = lookup(self.world, self.flags)
        bufs = [self.get(eng, st, W("file"), "bftw_file", "stat_bufs." + b) for b in ("stat_buf", "lstat_buf")]
        freed = self.content(st, (("t", W("b3")), 0)) == ("X", "freed")
        if freed and ("s", W("b3")) in bufs:
            eng.report(i, "%s() can keep a buffer that was freed" % fn.name, st)
        elif not freed and ("s", W("b3")) not in bufs:
            eng.report(i, "%s() can lose a buffer" % fn.name, st)


class Start(World):
    """The description of a file for the callback, from the traversal's state."""
    name = "start"

    def __init__(self, m, entry, world, text, files, case, openers):
        super().__init__(m, entry, world, text, files, openers)
        self.case, self.openers = case, openers
        self.fails = 0

    def init(self):
        return frozenset()

    def setup(self, eng, st, args, ctx):
        m, E = self.m, self.m.enums
        st.trail = (self.text, None)
        where, flags, dtype, known = self.case
        fn = m.defined[self.entry]
        for n, t in enumerate(fn.dtypes[1:]):
            if t == "struct bftw_state*":
                args[n] = ("s", W("state"))
        self.ptr(st, "state", "file", "parent", "path", "de")
        s, f, p = W("state"), W("file"), W("parent")
        self.set(st, s, "bftw_state", "path", ("s", W("path")))
        self.set(st, s, "bftw_state", "flags", ("k", flags), "i32")
        self.set(st, s, "bftw_state", "direrror", ("k", 0), "i32")
        self.set(st, s, "bftw_state", "mtab", ("k", 0))
        self.set(st, s, "bftw_state", "file", ("k", 0) if where == "root" else ("s", f))
        self.set(st, s, "bftw_state", "de", ("s", W("de")) if where == "entry" else ("k", 0))
        # stale information about another file
        for n in ("stat", "lstat"):
            self.set(st, s, "bftw_state", "ftwbuf.stat_bufs.%s_err" % n, ("k", 0), "i32")
            self.set(st, s, "bftw_state", "ftwbuf.stat_bufs.%s_buf" % n, ("s", W("b4")))
        d = {(("t", W("b4")), 0): ("X", "reg")}
        st.cons[W("b4")] = (1, INF, frozenset())
        st.prop = frozenset(d.items())
        t = "BFS_UNKNOWN" if dtype is None else TYPES[dtype]
        # 4: the offset of the visited file's name in the path
        if where == "entry":
            self.set(st, W("de"), "bfs_dirent", "type", ("k", E[t]), "i32")
            self.set(st, f, "bftw_file", "parent", ("k", 0))
            self.set(st, f, "bftw_file", "depth", ("k", 0), "i64")
            self.set(st, f, "bftw_file", "nameoff", ("k", 0), "i64")
            self.set(st, f, "bftw_file", "namelen", ("k", 4), "i64")
            self.set(st, f, "bftw_file", "fd", ("k", -1), "i32")
            self.set(st, f, "bftw_file", "dev", ("k", 1), "i64")
            for n in ("stat", "lstat"):
                self.set(st, f, "bftw_file", "stat_bufs.%s_err" % n, ("k", 0), "i32")
                self.set(st, f, "bftw_file", "stat_bufs.%s_buf" % n, ("s", W("b4")))
            self.dir = f
        elif where in ("file", "top"):
            top = where == "top"
            self.set(st, f, "bftw_file", "parent", ("k", 0) if top else ("s", p))
            self.set(st, f, "bftw_file", "depth", ("k", 0 if top else 1), "i64")
            self.set(st, f, "bftw_file", "nameoff", ("k", 0 if top else 5), "i64")
            self.set(st, f, "bftw_file", "namelen", ("k", 4), "i64")
            self.set(st, f, "bftw_file", "type", ("k", E[t]), "i32")
            self.set(st, f, "bftw_file", "fd", ("k", 22), "i32")
            self.set(st, p, "bftw_file", "parent", ("k", 0))
            self.set(st, p, "bftw_file", "depth", ("k", 0), "i64")
            self.set(st, p, "bftw_file", "nameoff", ("k", 0), "i64")
            self.set(st, p, "bftw_file", "namelen", ("k", 4), "i64")
            self.set(st, p, "bftw_file", "fd", ("k", -1), "i32")
            self.set(st, p, "bftw_file", "dev", ("k", 1), "i64")
            self.cached(st, f, "bftw_file", "stat_bufs.", known[0], known[1], W("b1"), W("b2"))
            if not known[0]:
                self.set(st, f, "bftw_file", "stat_bufs.stat_buf", ("k", 0))
            if not known[1]:
                self.set(st, f, "bftw_file", "stat_bufs.lstat_buf", ("k", 0))
            self.dir = None if top else p
        else:
            self.dir = None

    def call(self, eng, st, i, name, args, ctx):
        if name in self.openers:
            g = self.m.defined[name]
            fs = [eng.norm(st, a) for a, t in zip(args, g.dtypes[1:]) if t == "struct bftw_file*"]
            if self.dir is None or not fs or fs[0] != ("s", self.dir):
                eng.report(i, "%s() can open something other than the parent directory" % self.entry, st)
            a = st.copy()
            self.fails += 1
            self.errno(a, EIO)
            a.prop = frozenset(dict(a.prop, failed=True).items())
            if fs and fs[0][0] == "s":
                self.set(st, fs[0][1], "bftw_file", "fd", ("k", 33), "i32")
            return [(a, ("k", -1)), (st, ("k", 33))]
        if name == "xbaseoff":
            return [(st, ("s", ("w", "baseoff")))]
        return super().call(eng, st, i, name, args, ctx)

    def pair(self, eng, st, i, fd, path):
        fd, path = eng.norm(st, fd), eng.norm(st, path)
        off = path[2] if path[0] == "p" else 0
        base = eng.addr(st, path)
        if base is None or base[0] != ("t", W("path")):
            eng.report(i, "%s() can look at something other than the file's path" % self.entry, st)
            return
        if fd == ("k", -100):
            if off != 0:
                eng.report(i, "%s() can look for the file's name in the working directory instead of its parent" % self.entry, st)
        elif fd == ("k", 33) or fd == ("k", 22):
            if self.dir is None or fd == ("k", 22):
                eng.report(i, "%s() can look for the file in the wrong directory" % self.entry, st)
            elif off == 0:
                eng.report(i, "%s() can look for the whole path below the parent directory" % self.entry, st)
            elif self.case[0] == "file" and off != 5 or self.case[0] == "entry" and off not in (4, 5):
                eng.report(i, "%s() can look for another name" % self.entry, st)
        else:
            eng.report(i, "%s() can use a descriptor that is not open" % self.entry, st)

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        E = self.m.enums
        i = self.at(fn)
        where, flags, dtype, known = self.case
        s = W("state")
        g = lambda n: self.get(eng, st, s, "bftw_state", "ftwbuf." + n)
        fd, path, ty, err, sf, depth, nameoff = (g(n) for n in ("at_fd", "at_path", "type", "error", "stat_flags", "depth", "nameoff"))
        self.pair(eng, st, i, fd or ("s", ("undef",)), path or ("s", ("undef",)))
        if g("path") != ("s", W("path")):
            eng.report(i, "%s() can describe the file by another path" % fn.name, st)
        d = 0 if where in ("root", "top") else 1
        if depth != ("k", d):
            eng.report(i, "%s() can get a file's depth wrong" % fn.name, st)
        want = "BFS_STAT_TRYFOLLOW" if flags & E["BFTW_FOLLOW_ALL"] or d == 0 and flags & E["BFTW_FOLLOW_ROOTS"] else "BFS_STAT_NOFOLLOW"
        failed = dict(st.prop).get("failed")
        if sf != ("k", E[want]):
            eng.report(i, "%s() can %s links against -P, -H or -L" % (fn.name, "follow" if want.endswith("NOFOLLOW") else "fail to follow"), st)
        if d and path and path[0] == "p" and nameoff != ("k", path[2]):
            eng.report(i, "%s() can get the position of a file's name wrong" % fn.name, st)
        self.caches(eng, st, i, s, "bftw_state", "ftwbuf.stat_bufs.", True)
        r = lookup(self.world, want)[0]
        if failed:
            if ty != ("k", E["BFS_ERROR"]) and ty != ("k", E["BFS_ERROR"] % (1 << 32)):
                eng.report(i, "%s() can ignore that the parent directory could not be opened" % fn.name, st)
            return
        ok = [E[TYPES[r]]] if isinstance(r, str) else [E["BFS_ERROR"], E["BFS_ERROR"] % (1 << 32)]
        if not isinstance(r, str) and dtype is not None and not flags & E["BFTW_STAT"]:
            ok.append(E[TYPES[dtype]])
        if ty is None or ty[0] != "k" or ty[1] not in ok:
            eng.report(i, "%s() can give the wrong type" % fn.name, st)
        elif not isinstance(r, str) and ty[1] in (E["BFS_ERROR"], E["BFS_ERROR"] % (1 << 32)) and err != ("k", r):
            eng.report(i, "%s() can give another error than the one met" % fn.name, st)


class Stat(World):
    """bfs_stat(): prop also has ("last": (which, result)) and "converted"."""
    name = "lookup"
    inline_depth = 8

    def __init__(self, m, entry, world, text, files, flags, path):
        super().__init__(m, entry, world, text, files)
        self.flags, self.path = flags, path

    def inline(self, eng, fn, depth):
        return fn.file == self.files or fn.name in PURE

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)
        st.prop = frozenset()
        self.ptr(st, "path", "b1")
        args[0] = ("s", W("fd"))
        args[1] = ("s", W("path")) if self.path else ("k", 0)
        args[2] = ("k", self.m.enums[self.flags])
        args[3] = ("s", W("b1"))

    def put(self, st, **kw):
        st.prop = frozenset(dict(dict(st.prop), **kw).items())

    def call(self, eng, st, i, name, args, ctx):
        a = list(args)
        if name == "syscall":
            a = a[1:]
            name = "statx"
        if name in ("statx", "fstatat", "fstatat64", "fstat", "fstat64"):
            self.lookups += 1
            fd, path = eng.norm(st, a[0]), eng.norm(st, a[1]) if name[:5] != "fstat" or name[5:7] == "at" else None
            fl = eng.norm(st, a[2]) if name == "statx" else eng.norm(st, a[3]) if "at" in name[5:] else ("k", 0)
            if fd != ("s", W("fd")) or self.path and path != ("s", W("path")):
                eng.report(i, "%s() can look at another file" % self.entry, st)
            if fl[0] != "k":
                eng.report(i, "%s() can look at a file with flags that are not known" % self.entry, st)
                return []
            if self.path:
                which = "L" if fl[1] & 0x100 else "F"
                r = self.world[2] if which == "L" else self.world[1]
                if fl[1] & 0x1000 and path != ("s", W("path")):
                    eng.report(i, "%s() can look at the directory instead of the file" % self.entry, st)
            else:
                which, r = "F", self.world[1]
                if path is not None and not fl[1] & 0x1000:
                    eng.report(i, "%s() can look at something other than the descriptor" % self.entry, st)
            out = []
            if name == "statx":
                s = st.copy()
                self.errno(s, ENOSYS)
                self.put(s, last=None, conv=False)
                out.append((s, ("k", -1)))
            if isinstance(r, str):
                self.put(st, last=(which, r), conv=False)
                out.append((st, ("k", 0)))
            else:
                self.errno(st, r)
                self.put(st, last=(which, r), conv=False)
                out.append((st, ("k", -1)))
            return out
        return None

    def store(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.m.field("bfs_stat", "mode") and eng.addr(st, eng.norm(st, loc[0])) in ((("t", W("b1")), self.m.field("bfs_stat", "mode")[1]),):
            self.put(st, conv=True)

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        i = self.at(fn)
        d = dict(st.prop)
        last = d.get("last")
        r, which = lookup(self.world, self.flags) if self.path else (self.world[1], "F")
        rv = eng.norm(st, rv)
        if rv == ("k", 0):
            if not isinstance(r, str):
                eng.report(i, "%s() can succeed although the file cannot be looked at" % fn.name, st)
            elif last is None or last[1] != r or last[0] != which and self.world[1] != self.world[2]:
                eng.report(i, "%s() can return information about %s" % (fn.name, "the link instead of its target" if last and last[0] == "L" else "the target instead of the link"), st)
            elif not d.get("conv"):
                eng.report(i, "%s() can succeed without a result" % fn.name, st)
        elif last and isinstance(last[1], int):
            if isinstance(r, str):
                eng.report(i, "%s() can fail although the file can be looked at" % fn.name, st)
            elif self.geterrno(eng, st) != ("k", r):
                eng.report(i, "%s() can fail with another error than the one met" % fn.name, st)


class Loops(Start):
    """Cycle detection. case[3]: which ancestor is the same directory: 0 none, 1 the parent, 2 the grandparent, 3/4 only the device/inode of the parent"""
    name = "loops"

    def setup(self, eng, st, args, ctx):
        where, flags, dtype, same = self.case
        self.case = (where, flags, dtype, (False, False))
        super().setup(eng, st, args, ctx)
        self.case = (where, flags, dtype, same)
        up = self.dir
        top = W("top")
        self.ptr(st, "top")
        self.set(st, up, "bftw_file", "parent", ("s", top))
        self.set(st, top, "bftw_file", "parent", ("k", 0))
        self.set(st, top, "bftw_file", "nameoff", ("k", 0), "i64")
        self.set(st, top, "bftw_file", "namelen", ("k", 1), "i64")
        for t, n in ((up, 1), (top, 2)):
            self.set(st, t, "bftw_file", "dev", ("k", 7 if same in (n, 3) else 1), "i64")
            self.set(st, t, "bftw_file", "ino", ("k", 9 if same in (n, 4) else 2), "i64")

    def tokens(self, prop):
        return super().tokens(prop) + [W("top")]

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        E = self.m.enums
        if dict(st.prop).get("failed"):
            return
        same = self.case[3]
        g = lambda n: self.get(eng, st, W("state"), "bftw_state", "ftwbuf." + n)
        ty, err, off = g("type"), g("error"), g("loopoff")
        loop = ty in (("k", E["BFS_ERROR"]), ("k", E["BFS_ERROR"] % (1 << 32))) and err == ("k", ELOOP)
        i = self.at(fn)
        if same in (1, 2) and not loop:
            eng.report(i, "%s() can overlook that a directory contains itself" % fn.name, st)
        elif same not in (1, 2) and loop:
            eng.report(i, "%s() can take another directory for a loop" % fn.name, st)
        elif loop and off != ("k", 4 if same == 1 else 1):
            eng.report(i, "%s() can name the wrong directory for a loop" % fn.name, st)


class Open(World):
    """Opening a directory relative to its ancestors. Descriptors: 33 top, 44 parent; new ones from 50 on.
    prop: {("fd", n): file}"""
    name = "open"
    budget = 400000
    maxstates = 200
    OFF = {"top": (0, 4), "up": (5, 3), "file": (9, 2)}

    def __init__(self, m, entry, text, files, fds, inl):
        super().__init__(m, entry, None, text, files)
        self.fds, self.inl = fds, inl
        self.opens = 0

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def tokens(self, prop):
        return [W(n) for n in ("state", "file", "up", "top", "path", "other")]

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)
        fn = self.m.defined[self.entry]
        for n, t in enumerate(fn.dtypes[1:]):
            if t == "struct bftw_state*":
                args[n] = ("s", W("state"))
            elif t == "struct bftw_file*":
                args[n] = ("s", W("file"))
            elif t == "char*":
                args[n] = ("s", W("path"))
        self.ptr(st, "state", "file", "up", "top", "path")
        fd = {"file": -1, "up": self.fds[0], "top": self.fds[1]}
        self.set(st, W("state"), "bftw_state", "file", ("s", W("file")))
        self.set(st, W("state"), "bftw_state", "path", ("s", W("path")))
        for f, p, d in (("file", "up", 2), ("up", "top", 1), ("top", None, 0)):
            self.set(st, W(f), "bftw_file", "parent", ("s", W(p)) if p else ("k", 0))
            self.set(st, W(f), "bftw_file", "fd", ("k", fd[f]), "i32")
            self.set(st, W(f), "bftw_file", "depth", ("k", d), "i64")
            self.set(st, W(f), "bftw_file", "nameoff", ("k", self.OFF[f][0]), "i64")
            self.set(st, W(f), "bftw_file", "namelen", ("k", self.OFF[f][1]), "i64")
        st.prop = frozenset({(("fd", n), f) for f, n in fd.items() if n >= 0})

    def named(self, eng, st, path):
        """The file whose name this is, or the offset in the path."""
        a = eng.addr(st, path)
        if a is None:
            return None
        if a[0] == ("t", W("path")):
            return a[1]
        for f in self.OFF:
            if a[0] == ("t", W(f)) and a[1] == self.m.field("bftw_file", "name")[1]:
                return f
        return None

    def designates(self, eng, st, i, fd, path):
        fd, n = eng.norm(st, fd), self.named(eng, st, eng.norm(st, path))
        if n is None:
            a = eng.addr(st, eng.norm(st, path))
            if a and a[0][0] == "t" and a[0][1][:1] == ("w",):
                eng.report(i, "%s() can open something other than a file's name or path" % self.entry, st)
            return None
        at = None
        if fd != ("k", -100):
            if fd[0] != "k":
                return None
            at = dict(st.prop).get(("fd", fd[1])) if fd[0] == "k" else None
            if at is None:
                eng.report(i, "%s() can open a name relative to a directory that is not open" % self.entry, st)
                return None
        if isinstance(n, str):
            up = {"file": "up", "up": "top", "top": None}[n]
            if at != up:
                eng.report(i, "%s() can look for a name in the wrong directory" % self.entry, st)
                return None
            return n
        if at is None and n != 0 or at is not None and n not in (sum(self.OFF[at]), sum(self.OFF[at]) + 1):
            eng.report(i, "%s() can look for a path in the wrong directory" % self.entry, st)
            return None
        return "file"

    def call(self, eng, st, i, name, args, ctx):
        if name in ("openat", "openat64", "open", "open64"):
            self.opens += 1
            at = name.startswith("openat")
            f = self.designates(eng, st, i, args[0] if at else ("k", -100), args[1] if at else args[0])
            out = []
            again = dict(st.prop).get("long")
            for e in (ENOENT,) if again else (ENOENT, 24, 36):
                s = st.copy()
                self.errno(s, e)
                if e == 36:
                    s.prop |= {("long", True)}
                out.append((s, ("k", -1)))
            n = {"file": 50, "up": 51, "top": 52}.get(f, 53)
            st.prop = frozenset(dict(st.prop).items()) | {(("fd", n), f or "?")}
            return out + [(st, ("k", n))]
        if name in ("strndup", "strdup"):
            s = st.copy()
            return [(s, ("k", 0)), (st, args[0])]
        if name in self.inl:
            return None
        f = self.m.funcs.get(name)
        if f is not None and not f.decl and not f.noreturn and not i.noret and not eng.copier(f):
            return [(st, eng.fresh(st, ("r", ctx, i.id), eng.sum.retrange(name)))]
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        i = self.at(fn)
        d = dict(st.prop)
        rv = eng.norm(st, rv)
        if rv[0] == "k" and rv[1] >= 0 and d.get(("fd", rv[1])) not in ("file", "?"):
            eng.report(i, "%s() can return the descriptor of another directory" % fn.name, st)
        v = self.get(eng, st, W("file"), "bftw_file", "fd")
        if rv[0] == "k" and rv[1] < 0 and v and v[0] == "k" and v[1] >= 0:
            eng.report(i, "%s() can fail although it opened the directory" % fn.name, st)
        for f in self.OFF:
            v = self.get(eng, st, W(f), "bftw_file", "fd")
            if v and v[0] == "k" and v[1] >= 0 and d.get(("fd", v[1])) not in (f, "?"):
                eng.report(i, "%s() can record the descriptor of another directory" % fn.name, st)


class Request(Open):
    """Asynchronous requests for a file."""
    name = "request"

    def __init__(self, m, entry, text, files, fds, inl, goal, flags, depth):
        super().__init__(m, entry, text, files, fds, inl)
        self.goal, self.flags, self.depth = goal, flags, depth

    def setup(self, eng, st, args, ctx):
        super().setup(eng, st, args, ctx)
        self.ptr(st, "other")
        self.set(st, W("state"), "bftw_state", "file", ("s", W("other")))
        self.set(st, W("state"), "bftw_state", "flags", ("k", self.flags), "i32")
        if self.depth == 0:
            self.set(st, W("file"), "bftw_file", "parent", ("k", 0))
            self.set(st, W("file"), "bftw_file", "depth", ("k", 0), "i64")

    def designates(self, eng, st, i, fd, path):
        if self.depth == 0:
            fd, n = eng.norm(st, fd), self.named(eng, st, eng.norm(st, path))
            if n != "file" or fd != ("k", -100):
                eng.report(i, "%s() can look for an argument in the wrong directory" % self.entry, st)
            return "file"
        return super().designates(eng, st, i, fd, path)

    def call(self, eng, st, i, name, args, ctx):
        if name in self.goal:
            self.opens += 1
            E = self.m.enums
            g = self.m.funcs[name]
            t = g.dtypes[1:]
            n = [k for k in range(len(t) - 1) if t[k] == "int" and t[k + 1] == "char*"][0]
            f = self.designates(eng, st, i, args[n], args[n + 1])
            if f not in (None, "file") or eng.norm(st, args[-1]) != ("s", W("file")):
                eng.report(i, "%s() can ask about another file" % self.entry, st)
            if "enum bfs_stat_flags" in t:
                want = "BFS_STAT_TRYFOLLOW" if self.flags & E["BFTW_FOLLOW_ALL"] or self.depth == 0 and self.flags & E["BFTW_FOLLOW_ROOTS"] else "BFS_STAT_NOFOLLOW"
                if eng.norm(st, args[t.index("enum bfs_stat_flags")]) != ("k", E[want]):
                    eng.report(i, "%s() can %s links against -P, -H or -L" % (self.entry, "follow" if want.endswith("NOFOLLOW") else "fail to follow"), st)
            return [(st.copy(), ("k", -1)), (st, ("k", 0))]
        return super().call(eng, st, i, name, args, ctx)

    def leave(self, eng, st, fn, rv, ctx):
        if self.isentry(eng, fn):
            self.leaves += 1


FIELDS = ("mode", "ino", "nlink", "gid", "uid", "size", "blocks")
TIMES = ("atime", "btime", "ctime", "mtime")


class Fields(World):
    """Translating what the system says about a file. Every field of the source has a value of its own."""
    name = "fields"

    def __init__(self, m, entry, text, files, struct, have):
        super().__init__(m, entry, None, text, files)
        self.struct, self.have = struct, have       # have: mask of a statx() result

    def tokens(self, prop):
        return [W("src"), W("dest")]

    def inline(self, eng, fn, depth):
        return fn.file == self.files and len(fn.instrs) <= 260

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)
        fn = self.m.defined[self.entry]
        self.ptr(st, "src", "dest")
        self.vals = {}
        for n, t in enumerate(fn.dtypes[1:]):
            args[n] = ("s", W("src")) if t == "struct %s*" % self.struct else ("s", W("dest")) if t == "struct bfs_stat*" else args[n]
        v = 20000
        for name, off, size, ty in self.m.types["struct." + self.struct]["fields"]:
            if size in (2, 4, 8) and not ty.endswith("]") and not ty.startswith("struct "):
                v += 1
                self.vals[name] = x = self.have if name == "stx_mask" else v
                self.set(st, W("src"), self.struct, name, ("k", x), "i%d" % (size * 8))
        st.prop = frozenset()

    def call(self, eng, st, i, name, args, ctx):
        if "makedev" in name and len(args) == 2:
            a, b = eng.norm(st, args[0]), eng.norm(st, args[1])
            if a[0] == b[0] == "k":
                return [(st, ("k", a[1] * 1000000 + b[1]))]
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        i, v, E = self.at(fn), self.vals, self.m.enums
        x = self.struct == "statx"
        rv = eng.norm(st, rv) if rv is not None else ("k", 0)
        if x:
            base = 0x7ff & ~(0x20 | 0x40 | 0x80)
            ok = self.have & base == base
            if ok != (rv == ("k", 0)):
                eng.report(i, "%s() can %s an answer that is %s" % (fn.name, "accept" if not ok else "reject", "complete" if ok else "not complete"), st)
                return
            if not ok:
                return
        pre = "stx_" if x else "st_"
        want = {n: v[pre + n] for n in FIELDS}
        want["dev"] = v["stx_dev_major"] * 1000000 + v["stx_dev_minor"] if x else v["st_dev"]
        want["rdev"] = v["stx_rdev_major"] * 1000000 + v["stx_rdev_minor"] if x else v["st_rdev"]
        want["mnt_id"] = want["dev"]
        if x:
            want["attrs"] = v["stx_attributes"]
            if self.have & 0x5000:
                want["mnt_id"] = v["stx_mnt_id"]
        mask = self.get(eng, st, W("dest"), "bfs_stat", "mask")
        if mask is None or mask[0] != "k":
            eng.report(i, "%s() can leave undefined which fields are known" % fn.name, st)
            return
        times = {}
        for t, bit in zip(TIMES, (0x20, 0x800, 0x80, 0x40)):
            has = bool(self.have & bit) if x else t != "btime"
            if bool(mask[1] & E["BFS_STAT_" + t.upper()]) != has:
                eng.report(i, "%s() can be wrong about whether the %s is known" % (fn.name, t), st)
            if has:
                for p in ("tv_sec", "tv_nsec"):
                    times[t + "." + p] = v["stx_%s.%s" % (t, p) if x else "st_%s.%s" % (t[:-1], p)]
        for n, val in list(want.items()) + list(times.items()):
            got = self.get(eng, st, W("dest"), "bfs_stat", n)
            if got != ("k", val):
                eng.report(i, "%s() can give something else as the %s of a file" % (fn.name, n), st)
            elif "." not in n and not mask[1] & E["BFS_STAT_" + n.upper()]:
                eng.report(i, "%s() can fail to mark the %s of a file as known" % (fn.name, n), st)


class Time(World):
    """bfs_stat_time()"""
    name = "fields"

    def __init__(self, m, entry, text, files, field, mask):
        super().__init__(m, entry, None, text, files)
        self.field, self.mask = field, mask

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)
        st.prop = frozenset()
        self.ptr(st, "b1")
        self.set(st, W("b1"), "bfs_stat", "mask", ("k", self.mask), "i32")
        t = self.m.defined[self.entry].dtypes[1:]
        args[t.index("struct bfs_stat*")] = ("s", W("b1"))
        args[t.index("enum bfs_stat_field")] = ("k", self.m.enums["BFS_STAT_" + self.field.upper()])

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        rv = eng.norm(st, rv)
        has = self.mask & self.m.enums["BFS_STAT_" + self.field.upper()]
        if has:
            a = eng.addr(st, rv) if rv != ("k", 0) else None
            if a != (("t", W("b1")), self.m.field("bfs_stat", self.field)[1]):
                eng.report(self.at(fn), "%s() can give something else as the %s of a file" % (fn.name, self.field), st)
        elif rv != ("k", 0):
            eng.report(self.at(fn), "%s() can give an unknown %s" % (fn.name, self.field), st)


class Mode(World):
    """bfs_mode_to_type()"""
    name = "fields"

    def __init__(self, m, entry, text, files, mode, want):
        super().__init__(m, entry, None, text, files)
        self.mode, self.want = mode, want

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)
        st.prop = frozenset()
        args[0] = ("k", self.mode)

    def leave(self, eng, st, fn, rv, ctx):
        if self.isentry(eng, fn):
            self.leaves += 1
            rv = eng.norm(st, rv)
            if rv != ("k", self.m.enums[self.want]):
                eng.report(self.at(fn), "%s() can give the wrong type of file" % fn.name, st)


class Asks(Rule):
    """Which flags a test or format directive looks at files with."""
    name = "asks"
    maxstates = 40
    budget = 400000
    inline_depth = 3

    def __init__(self, m, entry, sflags, want, text):
        self.m, self.entry, self.sf, self.want, self.text = m, entry, sflags, want, text
        self.key = m.field("BFTW", "stat_flags")
        self.calls = 0

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)

    def inline(self, eng, fn, depth):
        return "enum bfs_stat_flags" in fn.dtypes[1:] and fn.file == self.m.defined[self.entry].file

    def split(self, eng, st, i, ctx):
        if eng.keyof(i, i.ops[0]) == self.key:
            st.env[(ctx, "i", i.id)] = ("k", self.m.enums[self.sf])
            return [st]

    def call(self, eng, st, i, name, args, ctx):
        if name in ("bftw_stat", "bftw_type"):
            v = eng.norm(st, args[1])
            if v[0] == "k":
                self.calls += 1
                E = self.m.enums
                if v[1] not in [E[w] for w in self.want]:
                    names = {E[n]: n[9:] for n in SF}
                    eng.report(i, "%s() can look at a file with %s in a search with %s" % (self.entry, names.get(v[1], v[1]), self.sf[9:]), st)
        return None


class Args(Rule):
    """-P, -H, -L, -follow and files named on the command line."""
    name = "options"
    maxstates = 40
    inline_depth = 2

    def __init__(self, m, entry, flags, text, a1=None, a2=None, want=None):
        self.m, self.entry, self.flags, self.text, self.want = m, entry, flags, text, want
        self.a = (a1, a2)
        self.key = m.field("bfs_ctx", "flags")
        self.leaves = self.calls = 0

    def init(self):
        return self.flags

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)
        if self.a[0] is not None:
            args[1], args[2] = ("k", self.a[0]), ("k", self.a[1])

    def inline(self, eng, fn, depth):
        return fn.file == self.m.defined[self.entry].file and any(i.op == "store" and self.m.ptrkey(fn, i.ops[1]) == self.key for i in fn.instrs.values()) and len(fn.instrs) < 80

    def split(self, eng, st, i, ctx):
        if eng.keyof(i, i.ops[0]) == self.key:
            st.env[(ctx, "i", i.id)] = ("k", st.prop)
            return [st]

    def store(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.key:
            v = eng.norm(st, v)
            st.prop = v[1] if v[0] == "k" else st.prop

    def call(self, eng, st, i, name, args, ctx):
        if name == "bfs_stat" and self.want is None:
            self.calls += 1
            E = self.m.enums
            fl = eng.norm(st, args[2])
            want = "BFS_STAT_TRYFOLLOW" if self.flags & (E["BFTW_FOLLOW_ALL"] | E["BFTW_FOLLOW_ROOTS"]) else "BFS_STAT_NOFOLLOW"
            if fl != ("k", E[want]):
                eng.report(i, "%s() can %s links on the command line against -P, -H or -L" % (self.entry, "follow" if want.endswith("NOFOLLOW") else "fail to follow"), st)
            if eng.norm(st, args[0]) != ("k", -100):
                eng.report(i, "%s() can look for an argument outside the working directory" % self.entry, st)
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name == self.entry and eng.stack == [fn.name]:
            self.leaves += 1
            if self.want is not None:
                E = self.m.enums
                mask = E["BFTW_FOLLOW_ALL"] | E["BFTW_FOLLOW_ROOTS"]
                if st.prop & mask != self.want or (st.prop ^ self.flags) & ~mask:
                    eng.report(fn.blocks[fn.rpo[-1]][-1], "%s: links can be followed otherwise than documented" % self.text, st)


SF = ("BFS_STAT_FOLLOW", "BFS_STAT_NOFOLLOW", "BFS_STAT_TRYFOLLOW")
KNOWN = tuple(product((False, True), (False, True)))


def run(m, R, rule, rname):
    eng = Engine(m, rule)
    eng.run(rule.entry, rule.setup)
    R.engine(eng, rname)
    R.require(rule.leaves, "%s() is not analysable (%s)" % (rule.entry, rule.text))
    return rule


def check(m, R):
    E = m.enums
    for n in ("bftw_stat", "bftw_cached_stat", "bftw_type", "bfs_stat"):
        R.require(n in m.defined, "%s() is missing" % n)
    files = m.defined["bftw_stat"].file
    R.rule("for every kind of file and link and every state of the cache: a lookup returns information about the link or its target exactly as its flags ask, with the error met, and remembers nothing that is not so")
    n = 0
    for w, fl, kn in product(WORLDS, SF, KNOWN):
        for entry in ("bftw_stat", "bftw_cached_stat"):
            run(m, R, Lookup(m, entry, w, "%s; %s; known: %s" % (w[0], fl, kn), files, kn, fl, entry == "bftw_cached_stat"), "cache")
            n += 1
    R.obligation("cache: bftw_stat(), bftw_cached_stat()", n)
    R.rule("the type of a file is that of the link or its target exactly as the flags ask, whatever flags the search uses")
    n = 0
    for w, fl, sf, kn in product(WORLDS, SF, SF[1:], KNOWN):
        if isinstance(lookup(w, sf)[0], str):
            run(m, R, Kind(m, "bftw_type", w, "%s; asked with %s, searched with %s; known: %s" % (w[0], fl, sf, kn), files, kn, fl, sf), "type")
            n += 1
    R.obligation("type: bftw_type()", n)
    # requests that come back
    R.rule("the result of an asynchronous lookup is remembered as what it is, and its buffer is kept or freed")
    ents = [c.fn.name for c in m.callsites.get("ioq_pop", []) if c.fn.file == m.defined["bftw_stat"].file]
    R.minimum("functions that take back requests", len(set(ents)), 1)
    n = 0
    for entry in sorted(set(ents)):
        for w, fl in product(WORLDS, SF):
            run(m, R, Finished(m, entry, w, "%s; %s" % (w[0], fl), files, fl, "ioq_pop"), "finished")
            n += 1
    R.obligation("finished: %s" % ", ".join(sorted(set(ents))), n)
    # the start of a visit
    R.rule("a visit starts with the file's own path, parent directory, depth, flags, type and cache, and nothing left from another file")
    ents = starts(m, files)
    R.minimum("functions that start a visit", len(ents), 1)
    openers = {f.name for f in m.defined.values() if f.file == m.defined["bftw_stat"].file and f.dtypes[0] == "int" and "struct bftw_file*" in f.dtypes[1:] and reaches(m, f.name, {"openat", "open", "openat64", "open64"})}
    n = fails = 0
    for entry in ents:
        for where, fol, extra in product(("root", "top", "file", "entry"), (0, E["BFTW_FOLLOW_ALL"], E["BFTW_FOLLOW_ROOTS"]), (0, E["BFTW_STAT"])):
            for w in WORLDS:
                kinds = [None] + ([w[2]] if isinstance(w[2], str) else ["reg"]) if where in ("file", "entry") else [None]
                for dtype, kn in product(kinds, KNOWN if where in ("file", "top") else KNOWN[:1]):
                    case = (where, fol | extra, dtype, kn)
                    r = run(m, R, Start(m, entry, w, "%s (%s), flags %s, listed as %s, known: %s" % (w[0], where, fol | extra, dtype, kn), files, case, openers), "start")
                    n += 1
                    fails += r.fails
        R.obligation("start: %s()" % entry, n)
        R.require(fails, "%s() opens no parent directory" % entry)

        n = 0
        for same, fol in product(range(5), (0, E["BFTW_STAT"])):
            for w in (WORLDS[1], WORLDS[3]):
                fl = E["BFTW_DETECT_CYCLES"] | E["BFTW_FOLLOW_ALL"] | fol
                for where in ("entry", "file"):
                    run(m, R, Loops(m, entry, w, "%s (%s), the same as ancestor %d" % (w[0], where, same), files, (where, fl, w[2], same), openers), "loops")
                    n += 1
        R.obligation("loops: %s()" % entry, n)
    # lookups themselves
    R.rule("bfs_stat() asks the system about the given file, follows links exactly as its flags say, and gives the answer or the error")
    sfile = m.defined["bfs_stat"].file
    n = 0
    for w, fl, path in product(WORLDS, SF, (True, False)):
        if path or w[1] == w[2]:
            r = run(m, R, Stat(m, "bfs_stat", w, "%s; %s; %s" % (w[0], fl, "by name" if path else "by descriptor"), sfile, fl, path), "lookup")
            R.require(r.lookups, "bfs_stat() looks at nothing")
            n += 1
    R.obligation("lookup: bfs_stat()", n)
    # opening
    R.rule("names and paths are only ever used together with the descriptor of the directory they are relative to")
    file = files
    one = sorted(f for f in openers if m.defined[f].dtypes[1:].count("struct bftw_file*") == 1)
    R.minimum("functions that open directories", len(one), 1)
    pure = {f.name for f in m.defined.values() if f.file == file and len(f.instrs) <= 40 and not any(i.op == "store" for i in f.instrs.values()) and not list(m.calls(f))}
    helpers = {f.name for f in m.defined.values() if f.file == file and len(f.instrs) <= 120 and "struct bftw_cache*" not in f.dtypes and "struct bftw_file*" in f.dtypes}
    n = opens = 0
    for entry in one:
        for fds in product((44, -1), (33, -1)):
            r = run(m, R, Open(m, entry, "parent %s, its parent %s" % tuple("open" if x >= 0 else "closed" for x in fds), file, fds, openers | pure | helpers), "open")
            opens += r.opens
            n += 1
    R.obligation("open: %s" % ", ".join(one), n)
    R.require(opens, "no directory is opened")
    goals = {f for f in m.defined if any(c.fn.file == file for c in m.callsites.get(f, [])) and m.defined[f].file != file
             and any(a == "int" and b == "char*" for a, b in zip(m.defined[f].dtypes[1:], m.defined[f].dtypes[2:])) and m.defined[f].dtypes[-1] == "void*"}
    ents = sorted({c.fn.name for g in goals for c in m.callsites[g] if "struct bftw_file*" in c.fn.dtypes[1:]})
    R.minimum("functions that make requests", len(ents), 1)
    small = {f.name for f in m.defined.values() if f.file == file and len(f.instrs) <= 40 and (f.dtypes[0] == "int" and "struct bftw_file*" in f.dtypes[1:] or f.dtypes[0] == "enum bfs_stat_flags") and f.name not in openers}
    n = 0
    for entry in ents:
        opens = 0
        for fds, fl, depth in product(((44, 33), (-1, 33), (44, -1)), (0, E["BFTW_FOLLOW_ALL"], E["BFTW_FOLLOW_ROOTS"]), (0, 2)):
            r = run(m, R, Request(m, entry, "depth %d, parent %s, flags %d" % (depth, "open" if fds[0] >= 0 else "closed", fl), file, fds, (small | pure) - {entry}, goals, fl, depth), "request")
            opens += r.opens
            n += 1
        R.require(opens, "%s() makes no request" % entry)
    R.obligation("request: %s" % ", ".join(ents), n)
    fields(m, R)
    asks(m, R)
    options(m, R)
    pairs(m, R)


def starts(m, file):
    """The innermost functions that fill in the whole description of a file."""
    keys = {m.field("BFTW", n) for n in ("path", "depth", "type", "at_fd", "at_path", "stat_flags")}
    sets, calls = {}, {}
    for f in m.defined.values():
        if f.file == file:
            sets[f.name] = {m.ptrkey(f, i.ops[1]) for i in f.instrs.values() if i.op == "store"} & keys
            calls[f.name] = {c for i in m.calls(f) for c in m.callees(i)}
    change = True
    while change:
        change = False
        for f in sets:
            n = set().union(sets[f], *(sets[c] for c in calls[f] if c in sets))
            if n != sets[f]:
                sets[f] = n
                change = True
    full = {f for f in sets if sets[f] == keys}
    return sorted(f for f in full if not calls[f] & full and "struct bftw_state*" in m.defined[f].dtypes[1:])


def fields(m, R):
    R.rule("what the system says about a file is taken over field by field, only if it says it, and the type of file follows from the mode")
    n = 0
    for f in sorted(m.defined.values(), key=lambda f: f.name):
        t = f.dtypes[1:]
        if "struct bfs_stat*" not in t or len(t) != 2 or not set(t) & {"struct stat*", "struct statx*"}:
            continue
        s = "statx" if "struct statx*" in t else "stat"
        haves = [None]
        if s == "statx":
            haves = [0xfff, 0x1fff, 0x4fff, 0x5fff] + [0x1fff & ~(1 << b) for b in range(12)] + [0x71f]
        for h in haves:
            run(m, R, Fields(m, f.name, "known: %s" % (hex(h) if h is not None else "everything"), f.file, s, h), "fields")
            n += 1
        R.obligation("fields: %s()" % f.name, len(haves))
    R.minimum("translations of the system's answers", n, 1)
    f = m.defined.get("bfs_stat_time")
    if f:
        bits = {t: m.enums["BFS_STAT_" + t.upper()] for t in TIMES}
        for t in TIMES:
            for mask in (sum(bits.values()), bits[t], sum(bits.values()) - bits[t], 0):
                run(m, R, Time(m, f.name, "%s, known: %d" % (t, mask), f.file, t, mask), "fields")
        R.obligation("fields: %s()" % f.name, 16)
    f = m.defined["bfs_mode_to_type"]
    for fmt, want in ((0o140000, "SOCK"), (0o120000, "LNK"), (0o100000, "REG"), (0o060000, "BLK"), (0o040000, "DIR"), (0o020000, "CHR"), (0o010000, "FIFO"), (0, "UNKNOWN")):
        for bits in (0, 0o777, 0o7777, 0o1000, 0o4755):
            run(m, R, Mode(m, f.name, "mode 0%o" % (fmt | bits), f.file, fmt | bits, "BFS_" + want), "fields")
    R.obligation("fields: %s()" % f.name, 40)


def asks(m, R):
    R.rule("tests and format directives look at files the way the search does; only -xtype and %Y ask about the other side of a link, and -delete about the link")
    evs = evaluators(m)[0]
    other = {m.defined[n].file for n in ("bftw_stat", "bfs_stat")} | {"src/color.c"}
    ents = sorted({c.fn.name for g in ("bftw_stat", "bftw_type") for c in m.callsites.get(g, []) if c.fn.file not in other})
    R.minimum("functions that look at files", len(ents), 3)
    xt = {e for e in evs if "xtype" in e}
    ylike = {e for e in ents if e.startswith("bfs_printf_") and e.endswith("_Y")}
    dele = {c.fn.name for g in ("unlinkat", "unlink", "rmdir") for c in m.callsites.get(g, [])}
    n = 0
    for e in ents:
        for sf in SF[1:]:
            flip = SF[3 - SF.index(sf)]
            want = (sf,)
            if e in xt:
                want = (flip,)
            elif e in ylike:
                want = ("BFS_STAT_FOLLOW",)
            elif e in dele:
                want = ("BFS_STAT_NOFOLLOW",)
            elif e in evs and not xt:
                want = (sf, flip)
            elif m.defined[e].file == "src/printf.c" and not ylike:
                want = (sf, "BFS_STAT_FOLLOW")
            rule = Asks(m, e, sf, want, "a search with %s" % sf[9:])
            eng = Engine(m, rule)
            eng.run(e, rule.setup)
            R.engine(eng, "asks")
            n += 1
    R.obligation("asks: %d functions" % len(ents), n)


def options(m, R):
    E = m.enums
    R.rule("-P, -H, -L and -follow choose which links are followed, the last one wins, and files named as reference are looked at accordingly")
    rows = [r for g in m.globals if m.globals[g]["type"].endswith("table_entry]") or g == "parse_table" for r in table(m, g, "table_entry")]
    want = {"-P": 0, "-H": E["BFTW_FOLLOW_ROOTS"], "-L": E["BFTW_FOLLOW_ALL"], "-follow": E["BFTW_FOLLOW_ALL"]}
    n = 0
    for r in rows:
        name = m.gstr(r.get("arg", ("null",)))
        if name in want and r.get("parse", ("null",))[0] == "f":
            for start in (0, E["BFTW_FOLLOW_ROOTS"], E["BFTW_FOLLOW_ALL"]):
                rule = Args(m, r["parse"][1], start | E["BFTW_POST_ORDER"], name, r.get("arg1", ("c", 0))[1], r.get("arg2", ("c", 0))[1], want[name])
                eng = Engine(m, rule)
                eng.run(rule.entry, rule.setup)
                R.engine(eng, "options")
                n += 1
    R.obligation("options: -P, -H, -L, -follow", n)
    R.minimum("options that choose which links are followed", n, 12)
    ents = sorted({c.fn.name for c in m.callsites.get("bfs_stat", []) if c.fn.file == "src/parse.c"})
    for e in ents:
        for fl in (0, E["BFTW_FOLLOW_ROOTS"], E["BFTW_FOLLOW_ALL"], E["BFTW_FOLLOW_ALL"] | E["BFTW_FOLLOW_ROOTS"]):
            rule = Args(m, e, fl, "flags %d" % fl)
            eng = Engine(m, rule)
            eng.run(e, rule.setup)
            R.engine(eng, "options")
        R.obligation("options: %s()" % e)


ATCALLS = {"openat", "openat64", "unlinkat", "faccessat", "fstatat", "fstatat64", "readlinkat", "statx", "fchmodat", "mkdirat", "fchownat", "utimensat", "linkat", "symlinkat", "renameat"}


def pairs(m, R):
    """Every use of a visited file's directory descriptor or relative path."""
    kfd, kpath = m.field("BFTW", "at_fd"), m.field("BFTW", "at_path")

    def src(fn, v):
        if v[0] == "i":
            d = fn.instrs[v[1]]
            if d.op == "load":
                k = m.ptrkey(fn, d.ops[0])
                if k in (kfd, kpath):
                    p = fn.instrs[d.ops[0][1]]
                    return ("fd" if k == kfd else "path", p.ops[0][:2] if p.op == "getelementptr" else d.ops[0][:2])
            if d.op in ("getelementptr", "bitcast"):
                r = src(fn, d.ops[0])
                return (r[0] + "+", r[1]) if r and d.op == "getelementptr" and d.off != 0 else r
        return None

    def same(fn, a, b):
        if a == b:
            return True
        # two loads of the same variable
        if a[0] == b[0] == "i":
            x, y = fn.instrs[a[1]], fn.instrs[b[1]]
            if x.op == y.op == "load":
                return m.ptrkey(fn, x.ops[0]) == m.ptrkey(fn, y.ops[0])
        return False
    n = 0
    for fn in m.defined.values():
        for i in m.calls(fn):
            for g in m.callees(i):
                f = m.funcs.get(g)
                if f is not None and not f.decl:
                    t = f.dtypes[1:]
                    at = [k for k in range(len(t) - 1) if t[k] == "int" and t[k + 1] == "char*"]
                else:
                    at = [0] if g in ATCALLS else []
                for k in at:
                    if k + 1 >= len(i.args):
                        continue
                    a, b = src(fn, i.args[k]), src(fn, i.args[k + 1])
                    if not a and not b:
                        continue
                    n += 1
                    R.obligation("pairs: %s: %s()" % (i.loc(), g))
                    if not (a and b and a[0] == "fd" and b[0] == "path" and same(fn, a[1], b[1])):
                        bad = a and (b and b[0] != "fd" or i.args[k + 1][0] in ("g", "c") or traced(m, fn, i.args[k + 1]) == "path") or b and (i.args[k][0] == "c" or a)
                        if bad:
                            R.violation(i.loc(), "%s() can use a name with a directory it is not relative to" % fn.name, (), fn=fn.name, rule="pairs")
    R.minimum("uses of a file's directory and name", n, 3)


def traced(m, fn, v):
    """'path' for the visited file's whole path."""
    if v[0] == "i":
        d = fn.instrs[v[1]]
        if d.op == "load" and m.ptrkey(fn, d.ops[0]) in (m.field("BFTW", "path"), m.field("BFTW", "root")):
            return "path"
        if d.op == "getelementptr":
            return traced(m, fn, d.ops[0])
    return None


def reaches(m, name, goals, seen=None):
    seen = set() if seen is None else seen
    if name in seen:
        return False
    seen.add(name)
    f = m.defined.get(name)
    if not f:
        return name in goals
    return any(c in goals or reaches(m, c, goals, seen) for i in m.calls(f) for c in m.callees(i))

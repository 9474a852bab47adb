"""C02: what the search opens and allocates is released exactly once, and not while it is in use."""
from itertools import product
from ..par import runall
from .c16 import W
from .heap import Heap

F = [W("f%d" % n) for n in range(4)]
UP = {0: None, 1: 0, 2: 1, 3: None}
#        fd  pins dir
KIND = {"closed": (0, 0, 0), "open": (1, 0, 0), "pinned": (1, 1, 0), "stream": (1, 0, 1), "stream in use": (1, 1, 1)}
SHORT = {"c": "closed", "o": "open", "p": "pinned", "d": "stream", "D": "stream in use"}
EINTR, EMFILE, ENOENT, ENAMETOOLONG = 4, 24, 2, 36


class Case:
    """A state of the search: kinds of the files f0 (root) > f1 > f2, and f3 (another root), references, capacity, requests."""
    def __init__(self, kinds, capacity=3, threads=1, refs=None, flights=(), cur=None, reading=False, previous=None, toclose=(), fileq=(), dirq=(), bufs=()):
        self.kinds, self.capacity, self.threads, self.flights = kinds, capacity, threads, flights
        self.cur, self.reading, self.previous, self.toclose, self.fileq, self.dirq, self.bufs = cur, reading, previous, toclose, fileq, dirq, bufs
        self.live = [n for n in range(len(kinds)) if kinds[n] != "-"]
        # each file is held by whoever works on it or by the queue, and by its children
        self.refs = dict(refs or {})
        for n in self.live:
            if n not in self.refs:
                self.refs[n] = 1 + sum(1 for k in self.live if UP[k] == n)

    def __str__(self):
        s = ", ".join(SHORT[k] for k in self.kinds if k != "-")
        return "%s; room for %d, %d threads%s%s" % (s, self.capacity, self.threads, ", requests: " + ", ".join(sorted(x[0] for x in self.flights)) if self.flights else "", ", current %d" % self.cur if self.cur is not None else "")


class Cache(Heap):
    """One function of the traversal on one state. prop: what is open, allocated and in flight.
    ("fd", n) | ("mem", dir) | ("stream", dir, fd) | ("buf", b) | ("live", file) | ("fly", op, what, file) | ("emfile",)"""
    name = "resources"
    budget = 1500000
    maxstates = 800
    inline_depth = 10
    unroll = 16

    def __init__(self, m, entry, text, file, case, args=(), pins=None, done=None, final=False):
        super().__init__(m, entry, text, file)
        self.case, self.args, self.pins, self.done, self.final = case, args, pins or (lambda r, ok: {}), done, final

    def tokens(self, prop):
        return super().tokens(prop) + [W(n) for n in ("d4", "d5", "b1", "b2", "b3", "b4", "nd0", "nd1", "nd2", "nb0", "nb1")]

    # -- the state ----------------------------------------------------------------------------
    def pincount(self, n):
        c = self.case
        p = KIND[SHORT[c.kinds[n]]][1]
        return max(p, 0) + sum(1 for x in c.flights if x[2] is not None and UP[x[2]] == n)

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)
        E = self.m.enums
        c = self.case
        self.ptr(st, "state", "ioq", "ent", "path", "cache", *["d%d" % n for n in range(6)], *["b%d" % n for n in range(1, 5)], "nd0", "nd1", "nd2", "nb0", "nb1")
        s = W("state")
        prop = set()
        lru = []
        for n in c.live:
            op, _, d = KIND[SHORT[c.kinds[n]]]
            pins = self.pincount(n)
            self.file(st, F[n], parent=("s", F[UP[n]]) if UP[n] is not None else ("k", 0), root=("s", F[0 if n < 3 else 3]), depth=n if n < 3 else 0, fd=10 + n if op else -1,
                      pincount=pins, refcount=c.refs[n], dir=("s", W("d%d" % n)) if d else ("k", 0), type=E["BFS_DIR"], ioqueued=int(any(x[2] == n for x in c.flights)), nameoff=3 * n, namelen=2)
            for f in ("stat_bufs.stat_buf", "stat_bufs.lstat_buf"):
                self.set(st, F[n], "bftw_file", f, ("k", 0))
            for f in ("stat_bufs.stat_err", "stat_bufs.lstat_err"):
                self.set(st, F[n], "bftw_file", f, ("k", -1), "i32")
            if n in c.bufs:
                self.set(st, F[n], "bftw_file", "stat_bufs.lstat_buf", ("s", W("b%d" % (n + 1))))
                if n % 2 == 0:
                    self.set(st, F[n], "bftw_file", "stat_bufs.stat_buf", ("s", W("b%d" % (n + 1))))
                prop.add(("buf", W("b%d" % (n + 1))))
            key = self.m.field("bftw_file", "name")
            for k, ch in enumerate("n%d\0" % n):
                st.mem[(("t", F[n]), key[1] + k)] = (("k", ord(ch)), key, "i8")
            prop.add(("live", F[n]))
            if op:
                prop.add(("fd", 10 + n))
                if not pins:
                    lru.append(F[n])
            if d:
                prop |= {("mem", W("d%d" % n)), ("stream", W("d%d" % n), 10 + n)}
        # the least recently used come last; roots stay in front
        lru = [f for f in lru if f in (F[0], F[3])] + [f for f in lru if f not in (F[0], F[3])]
        for k, f in enumerate(lru):
            self.set(st, f, "bftw_file", "lru.prev", ("s", lru[k - 1]) if k else ("k", 0))
            self.set(st, f, "bftw_file", "lru.next", ("s", lru[k + 1]) if k + 1 < len(lru) else ("k", 0))
        for base, tok in (("cache.", s),):
            self.set(st, tok, "bftw_state", base + "head", ("s", lru[0]) if lru else ("k", 0))
            self.set(st, tok, "bftw_state", base + "tail", ("s", lru[-1]) if lru else ("k", 0))
            roots = [f for f in lru if f in (F[0], F[3])]
            self.set(st, tok, "bftw_state", base + "target", ("s", roots[-1]) if roots else ("k", 0))
            self.set(st, tok, "bftw_state", base + "capacity", ("k", c.capacity), "i64")
            self.set(st, tok, "bftw_state", base + "dir_limit", ("k", 5), "i32")
        for k, (op, what, n) in enumerate(c.flights):
            # opendir: memory of a stream to be; stat: a buffer; close, closedir: what is to be closed
            x = None
            if op == "IOQ_OPENDIR":
                x = W("d4")
                prop.add(("mem", x))
            elif op == "IOQ_STAT":
                x = W("b4")
                prop.add(("buf", x))
            elif op == "IOQ_CLOSEDIR":
                x = W("d5")
                prop |= {("mem", x), ("stream", x, 40), ("fd", 40)}
            else:
                x = 41
                prop.add(("fd", 41))
            prop.add(("fly", op, x, F[n] if n is not None else None))
        st.prop = frozenset(prop)
        self.used0 = self.used(prop)
        self.mem0 = sum(1 for x in prop if x[0] == "mem")
        self.set(st, s, "bftw_state", "ioq", ("s", W("ioq")) if c.threads else ("k", 0))
        self.set(st, s, "bftw_state", "nthreads", ("k", c.threads), "i64")
        self.set(st, s, "bftw_state", "flags", ("k", 0), "i32")
        self.set(st, s, "bftw_state", "dir_flags", ("k", 0), "i32")
        self.set(st, s, "bftw_state", "strategy", ("k", E["BFTW_BFS"]), "i32")
        self.set(st, s, "bftw_state", "error", ("k", 0), "i32")
        self.set(st, s, "bftw_state", "direrror", ("k", 0), "i32")
        self.set(st, s, "bftw_state", "path", ("s", W("path")))
        self.set(st, s, "bftw_state", "mtab", ("k", 0))
        self.set(st, s, "bftw_state", "de", ("k", 0))
        self.set(st, s, "bftw_state", "file", ("s", F[c.cur]) if c.cur is not None else ("k", 0))
        self.set(st, s, "bftw_state", "dir", ("s", W("d%d" % c.cur)) if c.reading else ("k", 0))
        self.set(st, s, "bftw_state", "previous", ("s", F[c.previous]) if c.previous is not None else ("k", 0))
        self.slist(st, s, "bftw_state", "to_close", "ready", [F[n] for n in c.toclose])
        for q, l in (("fileq", c.fileq), ("dirq", c.dirq)):
            inq = [n for n in l if not any(x[2] == n for x in c.flights)]
            self.slist(st, s, "bftw_state", q + ".buffer", "next", [])
            self.slist(st, s, "bftw_state", q + ".waiting", "next", [F[n] for n in inq])
            self.slist(st, s, "bftw_state", q + ".ready", "ready", [])
            self.set(st, s, "bftw_state", q + ".flags", ("k", 0), "i32")
            self.set(st, s, "bftw_state", q + ".size", ("k", len(l)), "i64")
            self.set(st, s, "bftw_state", q + ".ioqueued", ("k", len(l) - len(inq)), "i64")
            self.set(st, s, "bftw_state", q + ".imbalance", ("k", 0), "i64")
        fn = self.m.defined[self.entry]
        extra = list(self.args)
        for n, ty in enumerate(fn.dtypes[1:]):
            if ty == "struct bftw_state*":
                args[n] = ("s", s)
            elif ty == "struct bftw_cache*":
                args[n] = self.at0(s, self.m.field("bftw_state", "cache.head")[1])
            elif extra:
                args[n] = extra.pop(0)

    def used(self, prop):
        """Descriptors the search accounts for: open ones, and those that requests in flight will open or close."""
        return sum(1 for x in prop if x[0] == "fd") + sum(1 for x in prop if x[0] == "fly" and x[1] == "IOQ_OPENDIR")

    def inline(self, eng, fn, depth):
        return fn.file == self.files and len(fn.instrs) <= 300 and fn.name not in ("bftw_call_back", "bftw_build_path", "bftw_list_sort") or fn.file.endswith("list.h")

    # -- the system ---------------------------------------------------------------------------
    def arena(self, eng, st, v):
        a = eng.addr(st, eng.norm(st, v))
        if a and a[0] == ("t", W("state")):
            for n in ("dirs", "stat_bufs", "files"):
                lo = [f for f in self.m.types["struct.bftw_cache"]["fields"] if f[0] == n][0]
                b = self.m.field("bftw_state", "cache.head")[1] + lo[1]
                if b <= a[1] < b + lo[2]:
                    return n
        return None

    def close(self, eng, st, i, n, how):
        if n[0] != "k":
            return
        n = n[1]
        if ("fd", n) not in st.prop:
            eng.report(i, "%s() can close a descriptor twice" % self.entry, st)
            return
        for f in F:
            if ("live", f) in st.prop and self.get(eng, st, f, "bftw_file", "fd") == ("k", n) and self.get(eng, st, f, "bftw_file", "pincount") not in (("k", 0), None):
                eng.report(i, "%s() can close a directory that is in use" % self.entry, st)
        st.prop -= {("fd", n)}

    def stream(self, st, d):
        for x in st.prop:
            if x[0] == "stream" and x[1] == d:
                return x
        return None

    def newfd(self, st):
        n = 50
        while ("fd", n) in st.prop:
            n += 1
        return n

    def open_(self, eng, st, i, fd):
        fd = eng.norm(st, fd)
        if fd[0] == "k" and 0 <= fd[1] < 1000 and ("fd", fd[1]) not in st.prop:
            eng.report(i, "%s() can use a descriptor that is closed" % self.entry, st)

    def call(self, eng, st, i, name, args, ctx):
        E = self.m.enums
        a = [eng.norm(st, x) for x in args]

        def fail(e):
            s = st.copy()
            self.errno(s, e)
            return s
        if i.noret or name in self.m.defined and self.m.defined[name].noreturn:
            eng.report(i, "%s() can find the state of the search inconsistent and give up" % self.entry, st)
            return []
        if name in ("openat", "openat64"):
            self.open_(eng, st, i, a[0])
            out = [(fail(e), ("k", -1)) for e in (ENOENT, ENAMETOOLONG)]
            s = fail(EMFILE)
            s.prop |= {("emfile",)}
            out.append((s, ("k", -1)))
            s = st.copy()
            n = self.newfd(s)
            s.prop |= {("fd", n)}
            return out + [(s, ("k", n))]
        if name in ("dup_cloexec", "fcntl", "dup"):
            self.open_(eng, st, i, a[0])
            s = st.copy()
            n = self.newfd(s)
            s.prop |= {("fd", n)}
            return [(fail(EMFILE), ("k", -1)), (s, ("k", n))]
        if name in ("xclose", "close", "close_quietly"):
            s = st
            self.close(eng, s, i, a[0], name)
            # an error does not leave it open
            return [(fail(5), ("k", -1)), (s, ("k", 0))]
        if name in ("bfs_closedir", "bfs_unwrapdir", "bfs_dirfd", "bfs_opendir"):
            d = self.deref(eng, st, a[0])
            if not d:
                return [(st, eng.fresh(st, ("r", ctx, i.id)))]
            if ("mem", d) not in st.prop:
                eng.report(i, "%s() can use a directory stream that was freed" % self.entry, st)
                return [(st, ("k", -1))]
            x = self.stream(st, d)
            if name == "bfs_opendir":
                if a[1][0] != "k" or a[2] != ("k", 0):
                    return [(st, ("k", -1))]
                self.open_(eng, st, i, a[1])
                s = st.copy()
                s.prop |= {("stream", d, a[1][1])}
                return [(fail(12), ("k", -1)), (s, ("k", 0))]
            if x is None:
                eng.report(i, "%s() can use a directory stream that is closed" % self.entry, st)
                return [(st, ("k", -1))]
            if name == "bfs_dirfd":
                return [(st, ("k", x[2]))]
            if name == "bfs_closedir":
                self.close(eng, st, i, ("k", x[2]), name)
            st.prop -= {x}
            if name == "bfs_closedir":
                return [(fail(5), ("k", -1)), (st, ("k", 0))]
            return [(st, ("k", x[2]))]
        if name in ("arena_alloc", "varena_alloc", "arena_free", "varena_free"):
            w = self.arena(eng, st, args[0])
            if w is None:
                return [(st, ("k", 0))] if "free" in name else [(st, eng.fresh(st, ("r", ctx, i.id)))]
            if "alloc" in name:
                new = {"dirs": ["nd0", "nd1", "nd2"], "stat_bufs": ["nb0", "nb1"]}.get(w)
                kind = {"dirs": "mem", "stat_bufs": "buf"}.get(w)
                if not new:
                    return [(fail(12), ("k", 0))]
                new = [W(x) for x in new if (kind, W(x)) not in st.prop]
                out = [(fail(12), ("k", 0))]
                if new:
                    s = st.copy()
                    s.prop |= {(kind, new[0])}
                    out.append((s, ("s", new[0])))
                return out
            p = self.deref(eng, st, a[1])
            if p is False:
                return [(st, ("k", 0))]
            if p is None:
                return [(st, ("k", 0))]
            kind = {"dirs": "mem", "stat_bufs": "buf", "files": "live"}[w]
            if (kind, p) not in st.prop:
                eng.report(i, "%s() can free %s twice" % (self.entry, {"mem": "a directory stream", "buf": "information about a file", "live": "a file"}[kind]), st)
                return [(st, ("k", 0))]
            if kind == "mem" and self.stream(st, p):
                eng.report(i, "%s() can free a directory stream that is still open" % self.entry, st)
            if any(x[0] == "fly" and p in x for x in st.prop):
                eng.report(i, "%s() can free what a request in flight uses" % self.entry, st)
            st.prop -= {(kind, p)}
            return [(st, ("k", 0))]
        if name in ("ioq_close", "ioq_closedir", "ioq_opendir", "ioq_stat"):
            op = "IOQ_" + name[4:].upper()
            x = a[1][1] if name == "ioq_close" and a[1][0] == "k" else self.deref(eng, st, a[1] if name != "ioq_stat" else a[4])
            f = self.deref(eng, st, a[-1])
            if not x or f is False:
                return [(st, ("k", -1))]
            if name == "ioq_close" and ("fd", x) not in st.prop or name == "ioq_closedir" and not self.stream(st, x):
                eng.report(i, "%s() can close a directory twice" % self.entry, st)
                return [(st, ("k", -1))]
            n = x if name == "ioq_close" else self.stream(st, x)[2] if name == "ioq_closedir" else None
            if n is not None:
                for g in F:
                    if ("live", g) in st.prop and self.get(eng, st, g, "bftw_file", "fd") == ("k", n):
                        eng.report(i, "%s() can have a directory closed that a file still refers to" % self.entry, st)
            if name in ("ioq_opendir", "ioq_stat"):
                self.open_(eng, st, i, args[2 if name == "ioq_opendir" else 1])
            s = st.copy()
            s.prop |= {("fly", op, x, f)}
            if f:
                # the caller of the function that asks takes the file off its list
                self.set(s, f, "bftw_file", "ioqueued", ("k", 1), "i8")
            return [(st, ("k", -1)), (s, ("k", 0))]
        if name == "ioq_pop":
            out = []
            fl = sorted([x for x in st.prop if x[0] == "fly"], key=str)
            if not fl or a[1] == ("k", 0):
                out.append((st.copy(), ("k", 0)))
            for x in fl:
                s = st.copy()
                s.prop = st.prop - {x}
                e = W("ent")
                self.set(s, e, "ioq_ent", "op", ("k", E[x[1]]), "i32")
                self.set(s, e, "ioq_ent", "ptr", ("s", x[3]) if x[3] else ("k", 0))
                if x[1] == "IOQ_CLOSE":
                    s.prop -= {("fd", x[2])}
                    self.set(s, e, "ioq_ent", "result", ("k", 0), "i32")
                    out.append((s, ("s", e)))
                    continue
                if x[1] == "IOQ_CLOSEDIR":
                    t = self.stream(s, x[2])
                    s.prop -= {t, ("fd", t[2])} if t else set()
                    self.set(s, e, "ioq_ent", "closedir.dir", ("s", x[2]))
                    self.set(s, e, "ioq_ent", "result", ("k", 0), "i32")
                    out.append((s, ("s", e)))
                    continue
                if x[1] == "IOQ_OPENDIR":
                    self.set(s, e, "ioq_ent", "opendir.dir", ("s", x[2]))
                else:
                    self.set(s, e, "ioq_ent", "stat.buf", ("s", x[2]))
                    self.set(s, e, "ioq_ent", "stat.flags", ("k", E["BFS_STAT_NOFOLLOW"]), "i32")
                s2 = s.copy()
                self.set(s2, e, "ioq_ent", "result", eng.fresh(s2, ("e", ctx, i.id), (-4095, -1, frozenset())), "i32")
                out.append((s2, ("s", e)))
                if x[1] == "IOQ_OPENDIR":
                    n = self.newfd(s)
                    s.prop |= {("fd", n), ("stream", x[2], n)}
                self.set(s, e, "ioq_ent", "result", ("k", 0), "i32")
                out.append((s, ("s", e)))
            return out
        if name == "ioq_capacity":
            return [(st.copy(), ("k", 0)), (st, ("k", 5))]
        if name in ("ioq_free", "ioq_submit", "ioq_cancel", "ioq_destroy", "dstrfree", "free", "arena_destroy", "varena_destroy"):
            if name in ("arena_destroy", "varena_destroy"):
                w = self.arena(eng, st, args[0])
                kind = {"dirs": "mem", "stat_bufs": "buf", "files": "live"}.get(w)
                if kind == "mem" and any(x[0] == "stream" for x in st.prop):
                    eng.report(i, "%s() can free a directory stream that is still open" % self.entry, st)
            return [(st, ("k", 0))]
        if name == "errno_is_like" and len(args) == 1:
            e = self.geterrno(eng, st)
            if e is not None and e[0] == "k" and a[0][0] == "k":
                return [(st, ("k", int(e[1] == a[0][1])))]
        if name == "bftw_call_back":
            return [(st.copy(), ("k", E["BFTW_CONTINUE"])), (st, ("k", E["BFTW_STOP"]))]
        if name == "bftw_build_path":
            return [(fail(12), ("k", -1)), (st, ("k", 0))]
        if name == "strndup":
            return [(fail(12), ("k", 0)), (st, ("s", W("path")))]
        f = self.m.funcs.get(name)
        if f is not None and not f.decl and f.file != self.files and not f.file.endswith("list.h") and not f.noreturn and not i.noret and not eng.copier(f):
            return [(st, eng.fresh(st, ("r", ctx, i.id), eng.sum.retrange(name)))]
        return None

    # -- the end --------------------------------------------------------------------------------
    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        i = self.at(fn)
        n = fn.name
        s = W("state")
        P = st.prop

        def bad(what):
            eng.report(i, "%s() can %s" % (n, what), st)
        live = [f for f in F if ("live", f) in P]
        if self.final:
            for kind, what in (("fd", "a descriptor open"), ("stream", "a directory open"), ("fly", "a request unanswered"), ("live", "a file allocated")):
                if any(x[0] == kind for x in P):
                    bad("leave %s" % what)
            return
        fds, dirs, pins = {}, {}, {}
        for f in live:
            v = [self.get(eng, st, f, "bftw_file", x) for x in ("fd", "pincount", "dir", "parent")]
            d = self.deref(eng, st, v[2])
            if v[0] is None or v[0][0] != "k" or v[1] is None or v[1][0] != "k" or d is False:
                return
            fd = v[0][1] - (1 << 32) if v[0][1] >= 1 << 31 else v[0][1]
            pins[f] = v[1][1]
            if fd >= 0:
                if fd in fds.values():
                    bad("give two files the same descriptor")
                fds[f] = fd
            if d:
                dirs[f] = d
            up = self.deref(eng, st, v[3])
            if up and ("live", up) not in P:
                bad("free a directory while files below it are in use")
        fly = [x for x in P if x[0] == "fly"]
        flyfd = {x[2] for x in fly if x[1] == "IOQ_CLOSE"} | {self.stream(st, x[2])[2] for x in fly if x[1] == "IOQ_CLOSEDIR" and self.stream(st, x[2])}
        for fd in fds.values():
            if ("fd", fd) not in P:
                bad("keep a descriptor that was closed")
        for x in P:
            if x[0] == "fd" and x[1] not in fds.values() and x[1] not in flyfd:
                bad("leave a descriptor open that nobody will close")
            if x[0] == "mem" and x[1] not in dirs.values() and not any(y[2] == x[1] for y in fly):
                bad("forget a directory stream")
        for f, d in dirs.items():
            if ("mem", d) not in P:
                bad("keep a directory stream that was freed")
            elif self.stream(st, d) is None:
                bad("keep a directory stream that was closed")
            elif self.stream(st, d)[2] != fds.get(f):
                bad("give a file another's directory stream")
        # the least recently used list
        off = self.m.field("bftw_state", "cache.head")[1]
        lru, x, prev = [], self.deref(eng, st, eng.peek(st, ("t", s), off)), None
        while x:
            if x in lru:
                bad("leave a list of open directories that goes round in circles")
                return
            if self.deref(eng, st, self.get(eng, st, x, "bftw_file", "lru.prev")) != prev:
                bad("leave a list of open directories with a wrong link")
                return
            lru.append(x)
            prev, x = x, self.deref(eng, st, self.get(eng, st, x, "bftw_file", "lru.next"))
        if x is False or self.deref(eng, st, self.get(eng, st, s, "bftw_state", "cache.tail")) != prev:
            bad("leave a list of open directories that has lost its end")
            return
        want = {f for f in live if f in fds and not pins[f]}
        if set(lru) - set(live):
            bad("leave a freed file on the list of open directories")
        elif set(lru) - want:
            bad("let a directory be closed that is in use or already closed")
        elif want - set(lru):
            bad("leave a directory open that can never be closed")
        t = self.deref(eng, st, self.get(eng, st, s, "bftw_state", "cache.target"))
        if t and t not in lru:
            bad("insert the next open directory after one that is not on the list")
        # counts
        cap = self.get(eng, st, s, "bftw_state", "cache.capacity")
        if cap is not None and cap[0] == "k" and ("emfile",) not in P and cap[1] + self.used(P) != self.case.capacity + self.used0:
            bad("miscount the open directories")
        lim = self.get(eng, st, s, "bftw_state", "cache.dir_limit")
        if lim is not None and lim[0] == "k" and lim[1] + sum(1 for x in P if x[0] == "mem") != 5 + self.mem0:
            bad("miscount the directory streams")
        # pins
        ok = eng.norm(st, rv) if rv is not None else None
        want = {f: self.pincount(k) for k, f in enumerate(F) if k in self.case.live}
        for k, d in self.pins(self, ok).items():
            want[F[k]] += d
        if hasattr(self, "opens") and self.deref(eng, st, self.get(eng, st, s, "bftw_state", "dir")):
            want[F[self.opens]] += 1
        if hasattr(self, "gc"):
            k, reading = self.gc
            if reading:
                want[F[k]] -= 1
            refs = dict(self.case.refs)
            while k is not None:
                refs[k] -= 1
                if refs[k] > 0:
                    break
                k = UP[k]
            for k, r in refs.items():
                if (F[k] in live) != (r > 0):
                    bad("free a file that is in use" if r > 0 else "forget a file that nobody uses any more")
                elif F[k] in live and self.get(eng, st, F[k], "bftw_file", "refcount") != ("k", r):
                    bad("miscount the users of a file")
            if self.deref(eng, st, self.get(eng, st, s, "bftw_state", "file")):
                bad("keep the file it is done with")
        # requests answered or made meanwhile
        before = [F[UP[x[2]]] for x in self.case.flights if x[2] is not None and UP[x[2]] is not None]
        after = []
        for x in fly:
            if x[3] and UP[F.index(x[3])] is not None:
                after.append(F[UP[F.index(x[3])]])
        for f in live:
            if pins[f] != want[f] - before.count(f) + after.count(f):
                bad("lose count of the users of an open directory")
                break
        # information about files
        for x in P:
            if x[0] == "buf" and not any(y[2] == x[1] for y in fly):
                own = [f for f in live for b in ("stat_bufs.stat_buf", "stat_bufs.lstat_buf") if self.deref(eng, st, self.get(eng, st, f, "bftw_file", b)) == x[1]]
                if not own and all(self.deref(eng, st, self.get(eng, st, f, "bftw_file", b)) is not False for f in live for b in ("stat_bufs.stat_buf", "stat_bufs.lstat_buf")):
                    bad("forget information about a file")
        # what the search remembers must not be freed
        for f, what in (("file", "a file"), ("previous", "the previous file")):
            x = self.deref(eng, st, self.get(eng, st, s, "bftw_state", f))
            if x and x in F and ("live", x) not in P:
                bad("remember %s that was freed" % what)
        l, b = self.walk(eng, st, s, self.m.field("bftw_state", "to_close.head")[1], "ready")
        if b or set(l) - set(live):
            bad("leave a wrong list of directories to be closed")
        d = self.deref(eng, st, self.get(eng, st, s, "bftw_state", "dir"))
        if d and d in [W("d%d" % k) for k in range(6)] + [W("nd%d" % k) for k in range(3)]:
            if d not in dirs.values():
                bad("read a directory that was closed")
            elif not any(dirs[f] == d and pins[f] for f in dirs):
                bad("let the directory being read be closed")
        if self.done:
            self.done(self, eng, st, i, ok, live, pins)


def ok0(r, ok):
    return ok == ("k", 0)


def check(m, R):
    file = m.defined["bftw"].file
    E = m.enums
    R.rule("from every state of the open directories, whatever fails and whatever requests are answered meanwhile: every descriptor, directory stream, file and buffer is released once and not while in use, and the counts are right")
    jobs = []

    def add(entry, case, args=(), **kw):
        jobs.append((Cache(m, entry, str(case), file, case, args, **kw), "resources"))
    trees = ["".join(k) for k in product("copdD", repeat=3)]
    # no directory is opened relative to what is above a closed parent while requests pin it: all combinations are possible

    def have(n, *types):
        ok = n in m.defined and m.defined[n].dtypes[1:] == list(types)
        if not ok:
            R.count("functions not found", 1)
        return ok
    S, Ca, Fi = "struct bftw_state*", "struct bftw_cache*", "struct bftw_file*"
    flights = ((), (("IOQ_CLOSE", None, None),), (("IOQ_CLOSEDIR", None, None),))

    if have("bftw_cache_pop", Ca):
        for t in trees:
            add("bftw_cache_pop", Case(t))
    for n, d, kinds in (("bftw_cache_pin", 1, "opdD"), ("bftw_cache_unpin", -1, "pD")):
        if have(n, Ca, Fi):
            for t, k in product(trees, range(3)):
                if t[k] in kinds:
                    add(n, Case(t), (("s", F[k]),), pins=lambda r, ok, k=k, d=d: {k: d})
    if have("bftw_file_close", Ca, Fi):
        for t, k in product(trees, range(3)):
            if t[k] in "od":
                add("bftw_file_close", Case(t), (("s", F[k]),))
    for n in ("bftw_close", "bftw_unwrapdir"):
        if have(n, S, Fi):
            for t, k, th, ca in product(trees, range(3), (0, 1, 3), (0, 2)):
                if t[k] in ("od" if n == "bftw_close" else "dD" if ca else "copdD"):
                    for fl in (flights if ca else flights[:1]) if th else ((),):
                        for refs in ({}, {k: 1}):
                            if th != 3 or not refs:
                                add(n, Case(t, ca, th, refs, fl), (("s", F[k]),))
    for n in ("bftw_file_open", "bftw_ensure_open"):
        if have(n, S, Fi, "char*"):
            for t, k, th, ca in product(trees, range(3), (0, 3), (0, 1)):
                if t[k] == "c" and n == "bftw_file_open" or n == "bftw_ensure_open" and ca:
                    for fl in flights[:1] if not th or n == "bftw_ensure_open" else flights[:2]:
                        add(n, Case(t, ca, th, None, fl), (("s", F[k]), ("s", W("path"))))
    if have("bftw_file_opendir", S, Fi, "char*"):
        for t, k, th, ca in product(trees, range(3), (0, 3), (0, 1)):
            if t[k] == "c":
                add("bftw_file_opendir", Case(t, ca, th), (("s", F[k]), ("s", W("path"))))
    if have("bftw_opendir", S):
        for t, k, th in product(trees, range(3), (0, 3)):
            if t[k] in "cdD":
                case = Case(t, 1, th, cur=k)
                add("bftw_opendir", case)
                jobs[-1][0].opens = k
    if have("bftw_cache_reserve", S):
        for t, th, ca in product(trees, (0, 1, 3), (0, 1)):
            for fl in flights + ((("IOQ_OPENDIR", None, 2),), (("IOQ_STAT", None, 2), ("IOQ_CLOSE", None, None))) if th else ((),):
                if not any(x[2] == 2 for x in fl) or t[2] == "c" and t[1] != "c":
                    add("bftw_cache_reserve", Case(t, ca, th, None, fl, dirq=(2,) if fl and fl[0][0] == "IOQ_OPENDIR" else (), fileq=(2,) if fl and fl[0][0] == "IOQ_STAT" else ()))
    if have("bftw_ioq_pop", S, "bool") or have("bftw_ioq_pop", S, "_Bool"):
        for t, ca in product(trees, (0, 1)):
            for fl in flights[1:] + ((("IOQ_OPENDIR", None, 2),), (("IOQ_STAT", None, 2),)):
                if not any(x[2] == 2 for x in fl) or t[2] == "c" and t[1] != "c":
                    add("bftw_ioq_pop", Case(t, ca, 3, None, fl, dirq=(2,) if fl[0][0] == "IOQ_OPENDIR" else (), fileq=(2,) if fl[0][0] == "IOQ_STAT" else ()), (("k", 1),))
    for n in sorted(f.name for f in m.defined.values() if f.file == file and f.dtypes == ["int", S, Fi] and {c for i in m.calls(f) for c in m.callees(i)} & {"ioq_stat", "ioq_opendir"}):
        for t, k, th, ca in product(trees, range(3), (0, 1, 3), (0, 1)):
            if t[k] == "c":
                for fl in flights[:2] if th else ((),):
                    add(n, Case(t, ca, th, None, fl), (("s", F[k]),))
    if "bftw_gc" in m.defined and len(m.defined["bftw_gc"].dtypes) == 3:
        for k in range(3):
            for t in product("copdD", repeat=k + 1):
                reading = t[k] == "D"
                if t[k] == "p" or t[k] == "D" and "D" in t[:k]:
                    continue
                for held in range(-1, k + 1):
                    # the first file on the way up that somebody else uses
                    if any(x in "pD" for x in t[max(held, -1) + 1:k]):
                        continue
                    refs = {n: 2 if n == held else 1 for n in range(k + 1)}
                    for th, prev, tc, fl in ((0, None, (), 7), (3, k, (), 7), (0, 0, tuple(n for n in range(k + 1) if t[n] == "d")[:1], 0), (3, k, tuple(n for n in range(k + 1) if t[n] == "d")[-1:], 7)):
                        add("bftw_gc", Case("".join(t), 1, th, refs, cur=k, reading=reading, previous=prev, toclose=tc, bufs=(k,)), (("k", fl),))
                        jobs[-1][0].gc = (k, reading)
    if have("bftw_state_destroy", S):
        for t, th in product(trees, (0, 3)):
            if "p" in t or "D" in t[:2]:
                continue
            for where, fl in (("cur", ()), ("dirq", ()), ("fileq", ()), ("dirq", (("IOQ_OPENDIR", None, 2),)), ("fileq", (("IOQ_STAT", None, 2), ("IOQ_CLOSE", None, None)))):
                if fl and (not th or t[2] != "c" or t[1] == "c"):
                    continue
                if t[2] == "D" and where != "cur":
                    continue
                c = Case(t, 1, th, {0: 1, 1: 1, 2: 1}, fl, cur=2 if where == "cur" else None, reading=t[2] == "D", previous=1, dirq=(2,) if where == "dirq" else (), fileq=(2,) if where == "fileq" else (), bufs=(2,) if where != "dirq" else ())
                add("bftw_state_destroy", c, final=True)
    per = {}
    for r, _ in jobs:
        per[r.entry] = per.get(r.entry, 0) + 1
    for n, k in sorted(per.items()):
        R.obligation("resources: %s()" % n, k)
    R.minimum("cases", len(jobs), 500)
    runall(m, R, jobs)

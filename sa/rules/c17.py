"""C17: nothing that waits is lost, visited twice or out of order, and paths are the paths of their files."""
from itertools import product, permutations
from ..par import runall
from .c16 import W
from .heap import Heap, LINKS
from .c17b import rules

F = [W("f%d" % n) for n in range(8)]
BAL, BUF, LIFO, ORD = 1, 2, 4, 8


class Q:
    """An abstract queue."""
    def __init__(self, flags, buffer=(), waiting=(), ready=(), service=()):
        self.flags, self.buffer, self.waiting, self.ready, self.service = flags, list(buffer), list(waiting), list(ready), list(service)

    def copy(self):
        return Q(self.flags, self.buffer, self.waiting, self.ready, self.service)

    def files(self):
        out = []
        for f in self.buffer + self.waiting + self.ready + self.service:
            if f not in out:
                out.append(f)
        return out

    def __str__(self):
        n = [x for b, x in ((BUF, "buffered"), (LIFO, "LIFO"), (ORD, "ordered")) if self.flags & b]
        return "%s queue, %d buffered, %d waiting, %d ready, %d in service" % (" ".join(n) or "plain", len(self.buffer), len(self.waiting), len(self.ready), len(self.service))


def queues(flags, first=0, nb=2, nw=2, nr=2, ns=1):
    """Queues of every shape up to these sizes."""
    out = []
    for b in range(nb + 1 if flags & BUF else 1):
        if flags & ORD:
            # every file that left the buffer is in the ready list; each is waiting, in service or done
            for n in range(min(nw + nr, 3) + 1):
                for kind in product("WSD", repeat=n):
                    if kind.count("S") <= ns:
                        fs = F[first:first + n]
                        out.append(Q(flags, F[first + n:first + n + b], [f for f, k in zip(fs, kind) if k == "W"], fs, [f for f, k in zip(fs, kind) if k == "S"]))
        else:
            for w, r, s in product(range(nw + 1), range(nr + 1), range(ns + 1)):
                i = first
                out.append(Q(flags, F[i:i + b], F[i + b:i + b + w], F[i + b + w:i + b + w + r], F[i + b + w + r:i + b + w + r + s]))
    return out


class Queue(Heap):
    """One operation on a queue."""
    name = "queue"

    def __init__(self, m, entry, text, file, q, arg, expect, extra=()):
        super().__init__(m, entry, text, file)
        self.q, self.arg, self.expect, self.extra = q, arg, expect, extra

    def build(self, st, tok, struct, prefix, q):
        for n, l in (("buffer", "next"), ("waiting", "next"), ("ready", "ready")):
            self.slist(st, tok, struct, prefix + n, l, getattr(q, n))
        self.set(st, tok, struct, prefix + "flags", ("k", q.flags), "i32")
        self.set(st, tok, struct, prefix + "size", ("k", len(q.files())), "i64")
        self.set(st, tok, struct, prefix + "ioqueued", ("k", len(q.service)), "i64")
        self.set(st, tok, struct, prefix + "imbalance", ("k", 0), "i64")

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)
        st.prop = frozenset()
        self.ptr(st, "q")
        for f in F:
            self.file(st, f, ioqueued=int(f in self.q.service))
        self.build(st, W("q"), "bftw_queue", "", self.q)
        t = self.m.defined[self.entry].dtypes[1:]
        for n, ty in enumerate(t):
            if ty == "struct bftw_queue*":
                args[n] = ("s", W("q"))
            elif ty == "struct bftw_file*":
                args[n] = ("s", self.arg)
            elif ty in ("bool", "_Bool"):
                args[n] = ("k", self.extra[0])

    def inline(self, eng, fn, depth):
        return fn.file == self.files and len(fn.instrs) <= 260 or fn.file.endswith("list.h")

    def state(self, eng, st, i, tok, struct, prefix, flags):
        """The queue at the end, or None."""
        n = self.entry
        lists = []
        for f, l in (("buffer", "next"), ("waiting", "next"), ("ready", "ready")):
            files, bad = self.walk(eng, st, tok, self.m.field(struct, prefix + f + ".head")[1], l)
            if bad:
                eng.report(i, "%s() can leave a list of files that %s" % (n, bad), st)
                return None
            if len(set(files)) != len(files):
                eng.report(i, "%s() can put a file on a list twice" % n, st)
            lists.append(files)
        q = Q(flags, *lists)
        q.service = [f for f in F if (self.get(eng, st, f, "bftw_file", "ioqueued") or ("k", 0)) != ("k", 0)]
        return q

    def counts(self, eng, st, i, tok, struct, prefix, size, service):
        for f, want, what in (("size", size, "files"), ("ioqueued", service, "files in service")):
            v = self.get(eng, st, tok, struct, prefix + f)
            if v != ("k", want):
                eng.report(i, "%s() can get the number of %s wrong" % (self.entry, what), st)

    def links(self, eng, st, i, q):
        """Files that are on no list have no links to others."""
        for l, lists in (("next", (q.buffer, q.waiting)), ("ready", (q.ready,))):
            for f in F:
                if not any(f in x for x in lists):
                    v = self.get(eng, st, f, "bftw_file", LINKS[l])
                    if v is not None and v != ("k", 0):
                        eng.report(i, "%s() can leave a link in a file that is on no list" % self.entry, st)

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        i = self.at(fn)
        q = self.state(eng, st, i, W("q"), "bftw_queue", "", self.q.flags)
        if q is None:
            return
        rv = eng.norm(st, rv) if rv is not None else None
        self.expect(self, eng, st, i, q, self.deref(eng, st, rv) if rv is not None and "struct bftw_file*" == fn.dtypes[0] else None)
        self.links(eng, st, i, q)

    def same(self, eng, st, i, q, want, exact=True):
        n = self.entry
        a, b = q.files(), want.files()
        if set(b) - set(a):
            eng.report(i, "%s() can lose a file that waits" % n, st)
        elif set(a) - set(b):
            eng.report(i, "%s() can keep a file that was taken" % n, st)
        else:
            for l in ("buffer", "waiting", "ready", "service"):
                x, y = getattr(q, l), getattr(want, l)
                if set(x) != set(y):
                    eng.report(i, "%s() can move a file to the wrong list" % n, st)
                    return
                if l != "service" and x != y and (exact or self.q.flags & ORD):
                    eng.report(i, "%s() can put files in the wrong order" % n, st)
                    return
            if not q.flags & ORD and len(q.buffer) + len(q.waiting) + len(q.ready) + len(q.service) != len(a):
                eng.report(i, "%s() can put a file on two lists" % n, st)
        self.counts(eng, st, i, W("q"), "bftw_queue", "", len(b), len(want.service))


def op_push(f):
    def go(r, eng, st, i, q, rv):
        w = r.q.copy()
        if w.flags & BUF:
            w.buffer.append(f)
        else:
            for l in (w.waiting, w.ready) if w.flags & ORD else (w.waiting,):
                l.insert(0, f) if w.flags & LIFO else l.append(f)
        r.same(eng, st, i, q, w)
    return go


def op_flush(r, eng, st, i, q, rv):
    w = r.q.copy()
    b, w.buffer = w.buffer, []
    w.waiting = b + w.waiting if w.flags & LIFO else w.waiting + b
    if w.flags & ORD:
        w.ready = b + w.ready if w.flags & LIFO else w.ready + b
    r.same(eng, st, i, q, w)


def op_detach(f, how):
    def go(r, eng, st, i, q, rv):
        w = r.q.copy()
        for l in (w.buffer, w.waiting):
            if f in l:
                l.remove(f)
        if how == "async":
            w.service.append(f)
        elif how == "skip" and not w.flags & ORD:
            w.ready.append(f)
        if how == "sync":
            # in nobody's hands but the caller's
            if f in q.files() and not w.flags & ORD:
                eng.report(i, "%s() can keep a file that was taken" % r.entry, st)
            x = len(r.q.files())
            w2 = q.copy()
            for l in ("buffer", "waiting", "ready", "service"):
                if getattr(w, l) != getattr(w2, l):
                    eng.report(i, "%s() can move or lose another file" % r.entry, st)
                    return
            r.counts(eng, st, i, W("q"), "bftw_queue", "", x, len(w.service))
            return
        r.same(eng, st, i, q, w, False)
    return go


def op_attach(f, how):
    def go(r, eng, st, i, q, rv):
        w = r.q.copy()
        if f in w.service:
            w.service.remove(f)
        if not w.flags & ORD:
            w.ready.append(f)
        r.same(eng, st, i, q, w, False)
    return go


def op_waiting(r, eng, st, i, q, rv):
    r.same(eng, st, i, q, r.q)
    c = r.q.waiting[:1] + (r.q.buffer[:1] if not r.q.flags & ORD else [])
    if rv not in c and (rv or c):
        eng.report(i, "%s() can %s" % (r.entry, "miss a file that waits" if not rv else "give a file that does not wait first"), st)


def op_ready(r, eng, st, i, q, rv):
    r.same(eng, st, i, q, r.q)
    if rv != (r.q.ready[0] if r.q.ready else None):
        eng.report(i, "%s() can give the wrong file as the next one" % r.entry, st)


def op_pop(r, eng, st, i, q, rv):
    c = r.q.ready[:1] if r.q.flags & ORD else r.q.ready[:1] + r.q.waiting[:1]
    if rv is None:
        if c:
            eng.report(i, "%s() can miss a file that waits" % r.entry, st)
        r.same(eng, st, i, q, r.q)
        return
    if rv not in c:
        eng.report(i, "%s() can give a file before its turn" % r.entry, st)
        return
    w = r.q.copy()
    for l in (w.waiting, w.ready):
        if rv in l:
            l.remove(rv)
    if rv in w.service:
        # still in service, but no longer the queue's
        q = q.copy()
        if rv in q.service:
            q.service.remove(rv)
        w.service.remove(rv)
        r.same0 = len(r.q.service)
        n = len(w.files())
        if set(q.files()) != set(w.files()):
            eng.report(i, "%s() can lose a file that waits" % r.entry, st)
        r.counts(eng, st, i, W("q"), "bftw_queue", "", n, len(r.q.service))
        return
    r.same(eng, st, i, q, w)


class Sort(Queue):
    """Sorting a list of files: a recursive call sorts a shorter list."""
    name = "sort"

    def __init__(self, m, entry, text, file, ranks):
        Heap.__init__(self, m, entry, text, file)
        self.ranks = dict(zip(F, ranks))
        self.list = F[:len(ranks)]
        self.compared = 0

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)
        st.prop = frozenset()
        self.ptr(st, "q")
        for f in F:
            self.file(st, f)
        self.slist(st, W("q"), "bftw_list", "", "next", self.list)
        args[0] = ("s", W("q"))

    def call(self, eng, st, i, name, args, ctx):
        if name in ("strcoll", "strcmp") and len(args) == 2:
            a, b = (self.tokname(eng, st, x) for x in args)
            if a in self.ranks and b in self.ranks:
                self.compared += 1
                return [(st, ("k", (self.ranks[a] > self.ranks[b]) - (self.ranks[a] < self.ranks[b])))]
        if name == self.entry and eng.stack:
            a = eng.addr(st, eng.norm(st, args[0]))
            if a is None or a[1] is None:
                return None
            lst, bad = self.walkat(eng, st, a)
            if bad:
                eng.report(i, "%s() can sort a list of files that %s" % (self.entry, bad), st)
                return []
            if len(lst) >= len(self.list) and len(self.list) > 1:
                eng.report(i, "%s() can call itself for the same list" % self.entry, st)
                return []
            self.put(st, a, sorted(lst, key=lambda f: self.ranks[f]))
            return [(st, ("k", 0))]
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        i = self.at(fn)
        lst, bad = self.walkat(eng, st, (("t", W("q")), 0))
        if bad:
            eng.report(i, "%s() can leave a list of files that %s" % (fn.name, bad), st)
        elif sorted(lst) != sorted(self.list):
            eng.report(i, "%s() can lose a file" % fn.name, st)
        elif any(self.ranks[a] > self.ranks[b] for a, b in zip(lst, lst[1:])):
            eng.report(i, "%s() can leave files unsorted" % fn.name, st)


# a small forest: parent of each file, and its name
TREE = {0: (None, "r"), 1: (0, "ab"), 2: (1, "cde"), 3: (2, "f"), 4: (0, "gh"), 5: (4, "ijk"), 6: (None, "lm"), 7: (6, "n")}


def path(n, slash=False):
    up, name = TREE[n]
    if up is None:
        return name + ("/" if slash else "")
    p = path(up, slash)
    return p + ("" if p.endswith("/") else "/") + name


class Path(Heap):
    """Building the path of a file from that of the previous one."""
    name = "path"
    unroll = 64
    maxstates = 64

    def __init__(self, m, entry, text, file, cur, prev, leaf, slash):
        super().__init__(m, entry, text, file)
        self.cur, self.prev, self.leaf, self.slash = cur, prev, leaf, slash
        self.want = (path(cur, slash) if cur is not None else "") + ("" if leaf is None else ("" if cur is None or path(cur, slash).endswith("/") else "/") + leaf)
        self.tally = 0

    def inline(self, eng, fn, depth):
        return fn.file == self.files and len(fn.instrs) <= 120

    def bytes(self, st, tok, off, s, key):
        for n, c in enumerate(s):
            st.mem[(("t", tok), off + n)] = (("k", ord(c)), key, "i8")

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)
        st.prop = frozenset()
        self.ptr(st, "state", "path", "name")
        key = self.m.field("bftw_file", "name")
        for n, (up, _) in TREE.items():
            p = path(n, self.slash)
            off = 0 if up is None else len(p) - len(TREE[n][1])
            name = p[off:]
            d, x = 0, up
            while x is not None:
                d, x = d + 1, TREE[x][0]
            r = n
            while TREE[r][0] is not None:
                r = TREE[r][0]
            self.file(st, F[n], parent=("s", F[up]) if up is not None else ("k", 0), depth=d, nameoff=off, namelen=len(name), root=("s", F[r]))
            self.bytes(st, F[n], key[1], name + "\0", key)
        raw = ("raw", "i8")
        self.set(st, W("state"), "bftw_state", "path", ("s", W("path")))
        if self.prev is not None:
            self.bytes(st, W("path"), 0, path(self.prev, self.slash), raw)
        self.set(st, W("state"), "bftw_state", "file", ("s", F[self.cur]) if self.cur is not None else ("k", 0))
        self.set(st, W("state"), "bftw_state", "previous", ("s", F[self.prev]) if self.prev is not None else ("k", 0))
        self.set(st, W("state"), "bftw_state", "error", ("k", 0), "i32")
        if self.leaf:
            self.bytes(st, W("name"), 0, self.leaf + "\0", raw)
        t = self.m.defined[self.entry].dtypes[1:]
        for n, ty in enumerate(t):
            if ty == "struct bftw_state*":
                args[n] = ("s", W("state"))
            elif ty == "char*":
                args[n] = ("s", W("name")) if self.leaf else ("k", 0)

    def call(self, eng, st, i, name, args, ctx):
        v = self.strings(eng, st, name, args)
        if v is not None:
            return [(st, v)]
        if name == "dstresize":
            self.tally += 1
            n = eng.norm(st, args[1])
            s = st.copy()
            self.errno(s, 12)
            if n[0] == "k":
                st.prop = frozenset({("len", n[1])})
            return [(s, ("k", -1)), (st, ("k", 0))]
        f = self.m.funcs.get(name)
        if f is not None and not f.decl and not f.noreturn and not i.noret and not self.inline(eng, f, 1) and not eng.copier(f):
            return [(st, eng.fresh(st, ("r", ctx, i.id), eng.sum.retrange(name)))]
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        i = self.at(fn)
        rv = eng.norm(st, rv)
        if rv != ("k", 0) or not self.tally:
            return
        n = dict(st.prop).get("len")
        if n is not None and n != len(self.want):
            eng.report(i, "%s() can give a path the wrong length" % fn.name, st)
            return
        got = [eng.peek(st, ("t", W("path")), k) for k in range(len(self.want))]
        if got != [("k", ord(c)) for c in self.want]:
            eng.report(i, "%s() can build the path of another file" % fn.name, st)
        p = self.deref(eng, st, self.get(eng, st, W("state"), "bftw_state", "previous"))
        if p:
            p = path(F.index(p), self.slash) if p in F else "?"
            if not self.want.startswith(p) or self.want[len(p):len(p) + 1] not in ("", "/") and not p.endswith("/"):
                eng.report(i, "%s() can remember another file as the one the path is for" % fn.name, st)


class State(Queue):
    """The traversal's own functions, with requests in flight. prop: frozenset of ("flight", file, op)"""
    name = "waiting"
    budget = 1500000
    maxstates = 600
    inline_depth = 9

    def __init__(self, m, entry, text, file, qf, qd, threads, flags, goals, arg=None, which=None):
        Heap.__init__(self, m, entry, text, file)
        self.qf, self.qd, self.threads, self.flags, self.goals, self.arg, self.which = qf, qd, threads, flags, goals, arg, which
        self.all = list(dict.fromkeys(qf.files() + qd.files() + ([arg] if arg else [])))
        self.q = qf
        # depth-first: files are visited last in, first out, each directory is read right after it
        self.strict = qf.flags & LIFO and (qf.flags & ORD or not threads)

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)
        E = self.m.enums
        self.ptr(st, "state", "ioq", "ent", "r0", "d0", "b1")
        serv = {f: "IOQ_STAT" for f in self.qf.service}
        serv.update({f: "IOQ_OPENDIR" for f in self.qd.service})
        self.file(st, W("r0"), depth=0, fd=33, type=E["BFS_DIR"], pincount=5)
        for f in F:
            dirlike = F.index(f) % 2 or f in self.qd.files() or f == self.arg and self.which == "dir"
            self.file(st, f, ioqueued=int(f in serv), parent=("s", W("r0")), type=E["BFS_DIR"] if dirlike else E["BFS_REG"])
        s = W("state")
        self.build(st, s, "bftw_state", "fileq.", self.qf)
        self.build(st, s, "bftw_state", "dirq.", self.qd)
        self.set(st, s, "bftw_state", "ioq", ("s", W("ioq")) if self.threads else ("k", 0))
        self.set(st, s, "bftw_state", "nthreads", ("k", self.threads), "i64")
        self.set(st, s, "bftw_state", "flags", ("k", self.flags), "i32")
        self.set(st, s, "bftw_state", "strategy", ("k", E["BFTW_DFS" if self.qf.flags & LIFO else "BFTW_BFS"]), "i32")
        self.set(st, s, "bftw_state", "file", ("k", 0))
        self.set(st, s, "bftw_state", "mtab", ("k", 0))
        self.slist(st, s, "bftw_state", "to_close", "ready", [])
        st.prop = frozenset(("flight", f, op) for f, op in serv.items())
        for n, ty in enumerate(self.m.defined[self.entry].dtypes[1:]):
            if ty == "struct bftw_state*":
                args[n] = ("s", s)
            elif ty == "struct bftw_queue*":
                args[n] = self.at0(s, self.m.field("bftw_state", "%sq.flags" % self.which)[1])
            elif ty == "struct bftw_file*":
                args[n] = ("s", self.arg)
            elif ty in ("bool", "_Bool"):
                args[n] = ("k", 1)

    def inline(self, eng, fn, depth):
        return fn.file == self.files and len(fn.instrs) <= 260 and "struct bftw_cache*" not in fn.dtypes[1:] and fn.name not in self.goals["stub"] or fn.file.endswith("list.h")

    def call(self, eng, st, i, name, args, ctx):
        E = self.m.enums
        if name in self.goals["ask"] and name != self.entry:
            f = self.deref(eng, st, eng.norm(st, args[1]))
            if f is False or f is None:
                return [(st, eng.fresh(st, ("r", ctx, i.id)))]
            s = st.copy()
            if any(x[1] == f for x in st.prop):
                eng.report(i, "%s() can ask twice about the same file" % self.entry, st)
            st.prop |= {("flight", f, self.goals["ask"][name])}
            return [(s, ("k", -1)), (st, ("k", 0))]
        if name in self.goals["request"]:
            f = self.deref(eng, st, eng.norm(st, args[-1]))
            op = self.goals["request"][name]
            if f is None:
                return [(st, ("k", 0)), (st.copy(), ("k", -1))]
            if any(x[1] == f for x in st.prop):
                eng.report(i, "%s() can ask twice about the same file" % self.entry, st)
            s = st.copy()
            st.prop |= {("flight", f, op)}
            return [(s, ("k", -1)), (st, ("k", 0))]
        if name == "ioq_pop":
            out = []
            block = eng.norm(st, args[1])
            if not st.prop or block == ("k", 0):
                out.append((st.copy(), ("k", 0)))
            for x in sorted(st.prop):
                s = st.copy()
                s.prop = st.prop - {x}
                self.set(s, W("ent"), "ioq_ent", "op", ("k", E[x[2]]), "i32")
                self.set(s, W("ent"), "ioq_ent", "ptr", ("s", x[1]))
                self.set(s, W("ent"), "ioq_ent", "opendir.dir", ("s", W("d0")))
                self.set(s, W("ent"), "ioq_ent", "stat.buf", ("s", W("b1")))
                self.set(s, W("ent"), "ioq_ent", "stat.flags", ("k", E["BFS_STAT_NOFOLLOW"]), "i32")
                k = self.m.field("bfs_stat", "mode")
                s.mem[(("t", W("b1")), k[1])] = (("k", 0o100644), k, "i32")
                for r in (0, None):
                    s2 = s.copy()
                    v = ("k", 0)
                    if r is None:
                        v = eng.fresh(s2, ("e", ctx, i.id), (-4095, -1, frozenset()))
                    self.set(s2, W("ent"), "ioq_ent", "result", v, "i32")
                    out.append((s2, ("s", W("ent"))))
            return out
        if name == "ioq_capacity":
            return [(st.copy(), ("k", 0)), (st, ("k", 5))]
        if name in ("ioq_free", "ioq_submit"):
            return [(st, ("k", 0))]
        f = self.m.defined.get(name)
        if f is not None and f.file == self.files and f.dtypes[1:] == ["struct bftw_list*"] and name != self.entry:
            # sorts, as the rule for it shows; the later, the smaller
            a = eng.addr(st, eng.norm(st, args[0]))
            if a is not None and a[1] is not None:
                lst, bad = self.walkat(eng, st, a)
                if bad is None and all(x in F for x in lst):
                    self.put(st, a, sorted(lst, reverse=True))
                    return [(st, ("k", 0))]
        if name in ("strcoll", "strcmp") and len(args) == 2:
            # the later, the smaller
            a, b = (self.tokname(eng, st, x) for x in args)
            if a in F and b in F:
                return [(st, ("k", F.index(b) - F.index(a)))]
        f = self.m.funcs.get(name)
        if f is not None and not f.decl and not f.noreturn and not i.noret and not self.inline(eng, f, 1) and not eng.copier(f):
            t = f.dtypes[0]
            if t.endswith("*"):
                s = st.copy()
                return [(s, ("k", 0)), (st, ("s", W("d0")))]
            if t == "int":
                s = st.copy()
                return [(s, ("k", -1)), (st, ("k", 0))]
            return [(st, eng.fresh(st, ("r", ctx, i.id), eng.sum.retrange(name)))]
        return None

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        i = self.at(fn)
        n = fn.name
        s = W("state")
        q1 = self.state(eng, st, i, s, "bftw_state", "fileq.", self.qf.flags)
        q2 = self.state(eng, st, i, s, "bftw_state", "dirq.", self.qd.flags) if q1 else None
        if q2 is None:
            return
        flight = {x[1]: x[2] for x in st.prop}
        serv = q1.service
        if n in self.goals["ask"]:
            # the caller takes the file off its list
            asked = flight.pop(self.arg, None)
            ok = eng.norm(st, rv)
            if ok[0] == "k" and (ok[1] == 0) != (asked is not None):
                eng.report(i, "%s() can be wrong about whether the file is being looked after" % n, st)
                return
        q1.service = [f for f in flight if flight[f] == "IOQ_STAT"]
        q2.service = [f for f in flight if flight[f] == "IOQ_OPENDIR"]
        cur = self.deref(eng, st, self.get(eng, st, s, "bftw_state", "file"))
        if cur is False:
            cur = None
        if set(serv) != set(flight):
            eng.report(i, "%s() can be wrong about which files are in service" % n, st)
            return
        have = q1.files() + q2.files() + ([cur] if cur else [])
        if set(self.all) - set(have):
            eng.report(i, "%s() can lose a file that waits" % n, st)
        elif len(set(have)) != len(have):
            eng.report(i, "%s() can put a file in two places" % n, st)
        else:
            for q, p in ((q1, "fileq."), (q2, "dirq.")):
                on = [x for l in (q.buffer, q.waiting, q.ready, q.service) for x in l]
                if not q.flags & ORD and len(set(on)) != len(on):
                    eng.report(i, "%s() can put a file on two lists" % n, st)
                self.counts(eng, st, i, s, "bftw_state", p, len(q.files()), len(q.service))
                if q.flags & ORD:
                    if set(q.waiting + q.service) - set(q.ready) or [f for f in q.ready if f in q.waiting] != q.waiting:
                        eng.report(i, "%s() can break the order of the files" % n, st)
                    old = self.qf if p == "fileq." else self.qd
                    new = [f for f in q.ready if f in old.buffer]
                    rest = [f for f in q.ready if f in old.ready]
                    if p == "fileq." and new != sorted(new, reverse=True):
                        eng.report(i, "%s() can make files available before they are sorted" % n, st)
                    if new and q.ready != (new + rest if q.flags & LIFO else rest + new):
                        eng.report(i, "%s() can break the order of the files" % n, st)
                    x = [f for f in old.ready if f in q.ready]
                    if [f for f in q.ready if f in x] != x:
                        eng.report(i, "%s() can break the order of the files" % n, st)
            if self.strict and not q1.flags & ORD:
                seq = [f for f in q1.ready + q1.waiting if f != self.arg]
                new = [f for f in seq if f in self.qf.buffer]
                old = [f for f in seq if f not in self.qf.buffer]
                if q1.ready:
                    eng.report(i, "%s() can let files come before those below an earlier directory" % n, st)
                elif seq != new + old or old != [f for f in self.qf.waiting if f in old] or new != [f for f in self.qf.buffer if f in new]:
                    eng.report(i, "%s() can break the order of a depth-first search" % n, st)
            self.result(eng, st, i, fn, rv, cur, q1, q2)
        self.links(eng, st, i, Q(0, q1.buffer + q2.buffer, q1.waiting + q2.waiting, q1.ready + q2.ready))

    def result(self, eng, st, i, fn, rv, cur, q1, q2):
        if fn.name == "bftw_pop_dir" or self.which and fn.dtypes[0] in ("bool", "_Bool"):
            q = q2 if fn.name == "bftw_pop_dir" or self.which == "dir" else q1
            r = eng.norm(st, rv)
            old = self.qf if q is q1 else self.qd
            if r == ("k", 0):
                if cur:
                    eng.report(i, "%s() can take a file without saying so" % fn.name, st)
                if self.strict and q is q2 and q.files():
                    eng.report(i, "%s() can let files come before those below an earlier directory" % fn.name, st)
                if q.files() and not (fn.name == "bftw_pop_dir" and q1.files()):
                    eng.report(i, "%s() can end the search although files wait" % fn.name, st)
            elif not cur:
                eng.report(i, "%s() can say that there is a file although there is none" % fn.name, st)
            elif cur not in old.files():
                eng.report(i, "%s() can take a file from the wrong queue" % fn.name, st)
            elif old.flags & ORD and cur != old.ready[0]:
                eng.report(i, "%s() can take a file before its turn" % fn.name, st)


JOBS = []


def run(m, R, rule, rname):
    JOBS.append((rule, rname))


def check(m, R):
    JOBS[:] = []
    file = m.defined["bftw"].file
    R.rule("each operation on a queue of files keeps every file on exactly the lists it belongs on, in order, with the counts right")
    new = F[7]
    total = 0
    for op in ("push", "flush", "detach", "attach", "skip", "waiting", "ready", "pop"):
        entry = "bftw_queue_" + op
        if entry not in m.defined:
            R.count("functions not found", 1)
            continue
        n = 0
        for flags in range(0, 16, 2):
            for q in queues(flags):
                cases = []
                if op == "push":
                    cases = [(new, op_push(new), ())]
                elif op == "flush":
                    cases = [(None, op_flush, ())]
                elif op in ("waiting", "ready"):
                    cases = [(None, op_waiting if op == "waiting" else op_ready, ())]
                elif op == "pop":
                    cases = [(None, op_pop, ())] if not q.buffer else []
                elif op in ("detach", "skip"):
                    for f in q.waiting[:1] + (q.buffer[:1] if not flags & ORD else []):
                        cases += [(f, op_detach(f, "async"), (1,)), (f, op_detach(f, "sync"), (0,))] if op == "detach" else [(f, op_detach(f, "skip"), ())]
                elif op == "attach":
                    cases = [(f, op_attach(f, "async"), (1,)) for f in q.service]
                for arg, expect, extra in cases:
                    run(m, R, Queue(m, entry, str(q), file, q, arg, expect, extra), "queue")
                    n += 1
        R.obligation("queue: %s()" % entry, n)
        total += n

    R.rule("sorting keeps every file and puts them in the order of their names")
    ents = [f.name for f in m.defined.values() if f.file == file and f.dtypes[1:] == ["struct bftw_list*"]]
    n = 0
    for entry in sorted(ents):
        for k in range(5):
            for ranks in product(range(min(k, 3)), repeat=k):
                run(m, R, Sort(m, entry, "names in the order %s" % (ranks,), file, ranks), "sort")
                n += 1
    R.obligation("sort: %s" % ", ".join(ents), n)
    R.rule("the path given for a file is the argument followed by the names of the directories on the way, whatever file came before")
    n = 0
    if "bftw_build_path" in m.defined:
        for cur, prev, slash in product([None] + sorted(TREE), [None] + sorted(TREE), (False, True)):
            for leaf in (None, "xy", "s") if cur is not None else ("xy", "s"):
                run(m, R, Path(m, "bftw_build_path", "%s%s after %s" % (path(cur, slash) if cur is not None else "", " + " + leaf if leaf else "", path(prev, slash) if prev is not None else "nothing"), file, cur, prev, leaf, slash), "path")
                n += 1
        R.obligation("path: bftw_build_path()", n)
    states(m, R, file)
    rules(m, R, file, run)
    R.minimum("cases", len(JOBS), 500)
    tally = runall(m, R, JOBS)
    R.count("paths built", sum(tally))


def states(m, R, file):
    E = m.enums
    R.rule("whatever requests are made, refused and answered in whatever order: every file is in exactly one place, the counts are right, and the search ends only when nothing waits")
    goals = {"request": {}, "stub": {"bftw_unpin_parent", "bftw_pin_parent", "bftw_must_stat"}}
    for name, op in (("ioq_stat", "IOQ_STAT"), ("ioq_opendir", "IOQ_OPENDIR"), ("ioq_close", "IOQ_CLOSE"), ("ioq_closedir", "IOQ_CLOSEDIR")):
        if name in m.defined:
            goals["request"][name] = op
    goals["ask"] = {f.name: goals["request"][c] for f in m.defined.values() if f.file == file and f.dtypes == ["int", "struct bftw_state*", "struct bftw_file*"]
                    for i in m.calls(f) for c in m.callees(i) if goals["request"].get(c) in ("IOQ_STAT", "IOQ_OPENDIR")}
    R.minimum("functions that make requests", len(goals["ask"]), 1)
    PAIRS = ((0, 0), (BUF, 0), (BUF | LIFO, BUF | LIFO), (BUF | LIFO, 0), (BUF | ORD, ORD), (BUF | LIFO | ORD, ORD))
    total = 0
    for entry in ("bftw_pop_file", "bftw_pop_dir", "bftw_stat_files", "bftw_ioq_opendirs", "bftw_push_file", "bftw_push_dir", "bftw_flush", "bftw_ioq_pop") + tuple(sorted(goals["ask"])):
        if entry not in m.defined:
            R.count("functions not found", 1)
            continue
        n = 0
        for ff, fd in PAIRS:
            sort = E["BFTW_SORT"] if ff & ORD else 0
            nobuf = entry.startswith("bftw_pop")
            for threads in (0, 1, 3):
                ns = 1 if threads else 0
                A = [q for q in queues(ff, 0, 0 if nobuf else 2, 1, 1, ns) if len(q.files()) <= 3]
                B = [q for q in queues(fd, 4, 0 if nobuf else 1, 1, 1, ns) if len(q.files()) <= 2]
                if ff & LIFO and not ff & ORD and not threads:
                    A = [q for q in A if not q.ready]
                ask = goals["ask"].get(entry)
                if ask:
                    A = [q for q in A if len(q.files()) <= 2 and not q.buffer and (ask == "IOQ_OPENDIR" or q.waiting)]
                    B = [q for q in B if len(q.files()) <= 2 and not q.buffer and (ask == "IOQ_STAT" or q.waiting)]
                    A, B = (A, B[:3]) if ask == "IOQ_STAT" else (A[:3], B)
                elif entry in ("bftw_pop_dir", "bftw_ioq_opendirs", "bftw_push_dir"):
                    A = [q for q in A if len(q.files()) <= 1]
                elif entry != "bftw_flush":
                    B = [q for q in B if len(q.files()) <= 1 and not q.waiting]
                else:
                    A = [q for q in A if len(q.files()) <= 2]
                    B = [q for q in B if len(q.files()) <= 1]
                for a, b in product(A, B):
                    which = "file" if entry == "bftw_pop_file" else "dir" if entry in ("bftw_pop_dir", "bftw_push_dir") else None
                    arg = F[3] if entry == "bftw_push_file" else F[7] if entry == "bftw_push_dir" else (a if ask == "IOQ_STAT" else b).waiting[0] if ask else None
                    run(m, R, State(m, entry, "files: %s; directories: %s; %d threads" % (a, b, threads), file, a, b, threads, sort | E["BFTW_STAT"], goals, arg, which), "waiting")
                    n += 1
        R.obligation("waiting: %s()" % entry, n)
        total += n

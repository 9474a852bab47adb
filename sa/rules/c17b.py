"""C17, continued: reading directories, making files, visiting them, and the main loop."""
from itertools import product
from .c16 import W
from .heap import Heap

BUF, LIFO, ORD = 2, 4, 8


def other(rule, eng, st, i, name, args, ctx):
    """Functions of the program that the rule does not follow may return anything and change nothing it models."""
    v = rule.strings(eng, st, name, args)
    if v is not None:
        return [(st, v)]
    f = rule.m.funcs.get(name)
    if f is not None and not f.decl and not f.noreturn and not i.noret and not rule.inline(eng, f, 1) and not eng.copier(f):
        return [(st, eng.fresh(st, ("r", ctx, i.id), eng.sum.retrange(name)))]
    return None


class Init(Heap):
    """The flags of the queues."""
    name = "init"

    def __init__(self, m, entry, text, file, strategy, flags, threads):
        super().__init__(m, entry, text, file)
        self.strategy, self.flags, self.threads = strategy, flags, threads

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)
        st.prop = frozenset()
        E = self.m.enums
        self.ptr(st, "state", "ent", "ioq")
        a = W("ent")
        self.set(st, a, "bftw_args", "strategy", ("k", E[self.strategy]), "i32")
        self.set(st, a, "bftw_args", "flags", ("k", self.flags), "i32")
        self.set(st, a, "bftw_args", "nthreads", ("k", self.threads), "i32")
        self.set(st, a, "bftw_args", "nopenfd", ("k", 100), "i32")
        for n, ty in enumerate(self.m.defined[self.entry].dtypes[1:]):
            args[n] = ("s", W("state") if ty == "struct bftw_state*" else a)

    def inline(self, eng, fn, depth):
        return fn.file == self.files and len(fn.instrs) <= 260

    def call(self, eng, st, i, name, args, ctx):
        if name == "ioq_create":
            s = st.copy()
            return [(s, ("k", 0)), (st, ("s", W("ioq")))]
        return other(self, eng, st, i, name, args, ctx)

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        if eng.norm(st, rv) != ("k", 0):
            return
        E = self.m.enums
        i = self.at(fn)
        v = [self.get(eng, st, W("state"), "bftw_state", f) for f in ("flags", "fileq.flags", "dirq.flags", "nthreads")]
        if any(x is None or x[0] != "k" for x in v):
            return
        flags, fq, dq, threads = (x[1] for x in v)
        bfs, sort = self.strategy == "BFTW_BFS", self.flags & E["BFTW_SORT"]

        def bad(what):
            eng.report(i, "%s() can set the search up so that %s" % (fn.name, what), st)
        if self.flags & ~flags:
            bad("it forgets what was asked for")
        if sort and not (flags & E["BFTW_BUFFER"] and fq & BUF):
            bad("files are not sorted")
        if sort and not fq & ORD and (threads or not bfs):
            bad("sorted files are visited out of order")
        if sort and bfs and threads and not dq & ORD:
            bad("sorted directories are read out of order")
        if bfs and (fq | dq) & LIFO:
            bad("a breadth-first search is not breadth-first")
        if self.strategy == "BFTW_DFS" and (sort or not threads) and not (fq & LIFO and flags & E["BFTW_BUFFER"]):
            bad("a depth-first search is not depth-first")
        if sort and not bfs and fq & BUF and not fq & LIFO:
            bad("a sorted search by depth is not in order")


class Impl(Heap):
    """The main loop. prop: ("dirs", "files": something waits there), ("cur": what state->file is), "held" (buffered), "de"."""
    name = "loop"
    budget = 200000
    unroll = 8

    def __init__(self, m, entry, text, file, paths):
        super().__init__(m, entry, text, file)
        self.paths = paths

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)
        st.prop = frozenset()
        self.ptr(st, "state", "path", "name", "r0", "r1", "d0")
        s = W("state")
        self.set(st, s, "bftw_state", "paths", ("s", W("path")))
        self.set(st, s, "bftw_state", "npaths", ("k", self.paths), "i64")
        for n in range(self.paths):
            st.mem[(("t", W("path")), 8 * n)] = (("s", W("r%d" % n)), ("raw", "ptr"), "ptr")
        args[0] = ("s", s)
        # the entry being read
        k = self.m.field("bfs_dirent", "name")
        self.set(st, s, "bftw_state", "de", ("s", W("d0")))
        st.mem[(("t", W("d0")), k[1])] = (("s", W("name")), k, "ptr")

    def inline(self, eng, fn, depth):
        return fn.file == self.files and len(fn.instrs) <= 260 and not fn.name.startswith(("bftw_visit", "bftw_pop", "bftw_flush", "bftw_opendir", "bftw_readdir", "bftw_closedir"))

    def call(self, eng, st, i, name, args, ctx):
        n = self.entry
        p = st.prop

        def to(prop, rv):
            s = st.copy()
            s.prop = frozenset(prop)
            return (s, ("k", rv))
        if name == "bftw_visit":
            f = self.deref(eng, st, eng.norm(st, args[1]))
            if f is False:
                return [to(p, 0), to(p | {"failed"}, -1)]
            gone = {"de"} if f == W("name") else {"file"} if f is None else set()
            if f in (W("r0"), W("r1")):
                gone = {f[1]}
                if f[1] in p:
                    eng.report(i, "%s() can visit an argument twice" % n, st)
                q = p | gone
            else:
                if not gone <= p:
                    eng.report(i, "%s() can visit the same file twice" % n, st)
                q = p - gone
            return [to(q, 0), to(q | {"dirs"}, 0), to(q | {"held"}, 0), to(q | {"held", "dirs"}, 0), to(q | {"failed"}, -1)]
        if name in ("bftw_pop_dir", "bftw_pop_file"):
            if p & {"de", "dir", "file"}:
                eng.report(i, "%s() can forget the file it has" % n, st)
            dirs = name == "bftw_pop_dir"
            if "held" in p:
                eng.report(i, "%s() can look for the next file before the last ones are made available" % n, st)
            out = []
            x = "dirs" if dirs else "files"
            if x in p:
                out += [to(p | {"dir" if dirs else "file"}, 1), to((p - {x}) | {"dir" if dirs else "file"}, 1)]
            if x not in p or dirs and "files" in p:
                out.append(to(p, 0))
            return out
        if name == "bftw_flush":
            q = (p - {"held"}) | ({"files"} if "held" in p else set())
            return [to(q, 0)]
        if name == "bftw_opendir":
            return [to(p | {"open"}, 0), to(p | {"failed"}, -1)]
        if name == "bftw_readdir":
            if "de" in p:
                eng.report(i, "%s() can pass over an entry of a directory" % n, st)
            if "open" not in p:
                eng.report(i, "%s() can read a directory that is not open" % n, st)
            return [to(p | {"de"}, 1), to((p - {"de"}) | {"end"}, 0), to((p - {"de"}) | {"end"}, -1)]
        if name == "bftw_closedir":
            if "dir" in p and "end" not in p or "de" in p:
                eng.report(i, "%s() can leave a directory before its end" % n, st)
            q = (p - {"dir", "open", "end", "held"}) | ({"files"} if "held" in p else set())
            return [to(q, 0), to(q | {"failed"}, -1)]
        return other(self, eng, st, i, name, args, ctx)

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        i = self.at(fn)
        p = st.prop
        ok = eng.norm(st, rv)
        if ok[0] != "k":
            return
        if "failed" in p:
            if ok[1] == 0:
                eng.report(i, "%s() can end as if all had been visited" % fn.name, st)
            return
        if ok[1]:
            eng.report(i, "%s() can give up although nothing failed" % fn.name, st)
        elif p & {"dirs", "files", "held", "dir", "file", "de"}:
            eng.report(i, "%s() can end the search although files wait" % fn.name, st)
        elif any("r%d" % k not in p for k in range(self.paths)):
            eng.report(i, "%s() can pass over an argument" % fn.name, st)


class Visit(Heap):
    """What happens to one file. prop: ("did", what, file), ("made", parent)"""
    name = "visit"

    def __init__(self, m, entry, text, file, cur, leaf, flags, threads):
        super().__init__(m, entry, text, file)
        self.cur, self.leaf, self.flags, self.threads = cur, leaf, flags, threads

    def setup(self, eng, st, args, ctx):
        E = self.m.enums
        st.trail = (self.text, None)
        st.prop = frozenset()
        self.ptr(st, "state", "name", "d0", "ioq", "f1")
        s = W("state")
        self.file(st, W("f0"), depth=1, type=E["BFS_DIR"], parent=("k", 0))
        self.file(st, W("f1"), depth=2, parent=("s", W("f0")))
        self.set(st, s, "bftw_state", "file", ("s", W("f0")) if self.cur else ("k", 0))
        self.set(st, s, "bftw_state", "de", ("s", W("d0")) if self.leaf and self.cur else ("k", 0))
        self.set(st, s, "bftw_state", "flags", ("k", self.flags), "i32")
        self.set(st, s, "bftw_state", "ioq", ("s", W("ioq")) if self.threads else ("k", 0))
        for q in ("fileq", "dirq"):
            self.set(st, s, "bftw_state", q + ".flags", ("k", 0), "i32")
            self.set(st, s, "bftw_state", q + ".imbalance", ("k", 0), "i64")
        args[0] = ("s", s)
        args[1] = ("s", W("name")) if self.leaf else ("k", 0)

    def inline(self, eng, fn, depth):
        return fn.file == self.files and len(fn.instrs) <= 260 and fn.name not in ("bftw_file_new", "bftw_push_file", "bftw_push_dir", "bftw_call_back", "bftw_gc", "bftw_must_stat", "bftw_stat_recycle")

    def call(self, eng, st, i, name, args, ctx):
        E = self.m.enums
        if name in ("bftw_push_file", "bftw_push_dir"):
            f = self.deref(eng, st, eng.norm(st, args[1]))
            st.prop |= {("did", name[5:], f[1] if f else str(f), len(st.prop))}
            return [(st, ("k", 0))]
        if name == "bftw_file_new":
            par = self.deref(eng, st, eng.norm(st, args[1]))
            nm = self.deref(eng, st, eng.norm(st, args[2]))
            if par is not False and par != (W("f0") if self.cur else None):
                eng.report(i, "%s() can take a file for another directory's" % self.entry, st)
            if nm is not False and nm != W("name"):
                eng.report(i, "%s() can give a file another's name" % self.entry, st)
            s = st.copy()
            self.errno(s, 12)
            s.prop |= {("did", "fail", "", len(s.prop))}
            return [(s, ("k", 0)), (st, ("s", W("f1")))]
        if name == "bftw_call_back":
            nm = self.deref(eng, st, eng.norm(st, args[1]))
            v = eng.norm(st, args[2])
            out = []
            if nm is not False and nm != (W("name") if self.leaf else None):
                eng.report(i, "%s() can visit another file" % self.entry, st)
            if v[0] == "k" and v[1] != E["BFTW_PRE"]:
                eng.report(i, "%s() can visit a file as if it had been visited before" % self.entry, st)
            for a in ("BFTW_CONTINUE", "BFTW_PRUNE", "BFTW_STOP"):
                s = st.copy()
                s.prop |= {("did", a, "", len(s.prop))}
                out.append((s, ("k", E[a])))
            return out
        if name == "bftw_gc":
            f = self.deref(eng, st, self.get(eng, st, W("state"), "bftw_state", "file"))
            st.prop |= {("did", "gc", f[1] if f else str(f), len(st.prop))}
            self.set(st, W("state"), "bftw_state", "file", ("k", 0))
            s = st.copy()
            s.prop |= {("did", "fail", "", len(s.prop))}
            return [(st, ("k", 0)), (s, ("k", -1))]
        return other(self, eng, st, i, name, args, ctx)

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        E = self.m.enums
        i = self.at(fn)
        n = fn.name
        ok = eng.norm(st, rv)
        did = [(a, b) for _, a, b, _ in sorted(st.prop, key=lambda x: x[3])]
        what = [a for a, _ in did]
        act = [a for a in what if a.startswith("BFTW_")]
        me = "f1" if self.leaf else "f0"
        if "False" in [b for _, b in did] or ok[0] != "k":
            return
        pushed = [x for x in did if x[0].startswith("push")]
        gone = [x for x in did if x[0] == "gc"]
        if len(act) > 1:
            eng.report(i, "%s() can visit a file twice" % n, st)
        if pushed and pushed != pushed[:1]:
            eng.report(i, "%s() can queue a file twice" % n, st)
        if any(b != me for _, b in pushed):
            eng.report(i, "%s() can queue another file" % n, st)
        if any(b != "f0" for _, b in gone) or gone and self.leaf and self.cur:
            eng.report(i, "%s() can let go of the directory it reads" % n, st)
        if "BFTW_STOP" in act or "fail" in what:
            if ok[1] == 0:
                eng.report(i, "%s() can go on although it must not" % n, st)
            return
        if ok[1]:
            eng.report(i, "%s() can end the search although nothing failed" % n, st)
        if not act and pushed != [("push_file", me)]:
            eng.report(i, "%s() can pass over a file" % n, st)
        elif not act and not self.leaf:
            eng.report(i, "%s() can put off a file for ever" % n, st)
        elif act and self.leaf and self.flags & E["BFTW_BUFFER"]:
            eng.report(i, "%s() can visit a file before its turn" % n, st)
        elif act == ["BFTW_CONTINUE"] and pushed != [("push_dir", me)]:
            eng.report(i, "%s() can pass over the files below a directory" % n, st)
        elif act == ["BFTW_PRUNE"] and pushed:
            eng.report(i, "%s() can go below a file that is not to be searched" % n, st)
        f = self.deref(eng, st, self.get(eng, st, W("state"), "bftw_state", "file"))
        if f is not False and f != (W("f0") if self.leaf and self.cur else None):
            eng.report(i, "%s() can forget the directory it reads" % n if self.leaf else "%s() can keep the file it visited" % n, st)
        if act == ["BFTW_PRUNE"] and not self.leaf and not gone:
            eng.report(i, "%s() can forget a file before its directory is done with" % n, st)


class New(Heap):
    """A new file knows its parent, its depth, its name and where its name goes in the path."""
    name = "new"
    unroll = 64

    def __init__(self, m, entry, text, file, parent, leaf, off, depth):
        super().__init__(m, entry, text, file)
        self.parent, self.leaf, self.off, self.depth = parent, leaf, off, depth

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)
        st.prop = frozenset()
        self.ptr(st, "state", "name", "f1", "r0", "cache")
        key = self.m.field("bftw_file", "name")
        if self.parent:
            self.file(st, W("f0"), depth=self.depth, refcount=3, root=("s", W("r0")), nameoff=self.off, namelen=len(self.parent))
            for n, c in enumerate(self.parent + "\0"):
                st.mem[(("t", W("f0")), key[1] + n)] = (("k", ord(c)), key, "i8")
        for n, c in enumerate(self.leaf + "\0"):
            st.mem[(("t", W("name")), n)] = (("k", ord(c)), ("raw", "i8"), "i8")
        args[0] = ("s", W("cache"))
        args[1] = ("s", W("f0")) if self.parent else ("k", 0)
        args[2] = ("s", W("name"))

    def inline(self, eng, fn, depth):
        return fn.file == self.files and len(fn.instrs) <= 120

    def call(self, eng, st, i, name, args, ctx):
        if "alloc" in name:
            n = eng.norm(st, args[1]) if len(args) > 1 else None
            if n and n[0] == "k" and n[1] < len(self.leaf) + 1:
                eng.report(i, "%s() can make a file too small for its name" % self.entry, st)
            s = st.copy()
            return [(s, ("k", 0)), (st, ("s", W("f1")))]
        return other(self, eng, st, i, name, args, ctx)

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        i = self.at(fn)
        f = self.deref(eng, st, eng.norm(st, rv))
        if f != W("f1"):
            return
        E = self.m.enums

        def want(field, v, what):
            g = self.get(eng, st, f, "bftw_file", field)
            if g is None or g[0] not in "ksp":
                return
            if (self.deref(eng, st, g) if isinstance(v, tuple) or v is None else g) != (v if isinstance(v, tuple) or v is None else ("k", v)):
                eng.report(i, "%s() can give a file %s" % (fn.name, what), st)
        off = self.off + len(self.parent) + (not self.parent.endswith("/")) if self.parent else 0
        want("parent", W("f0") if self.parent else None, "another directory")
        want("root", W("r0") if self.parent else W("f1"), "another starting point")
        want("depth", self.depth + 1 if self.parent else 0, "another depth")
        want("nameoff", off, "another place in the path")
        want("namelen", len(self.leaf), "another length of its name")
        want("refcount", 1, "another number of users")
        want("pincount", 0, "another number of users")
        want("ioqueued", 0, "a request it did not make")
        want("fd", -1 & 0xffffffff if self.get(eng, st, f, "bftw_file", "fd") == ("k", 0xffffffff) else -1, "an open file")
        want("dir", None, "an open directory")
        want("next", None, "a place on a list")
        want("ready.next", None, "a place on a list")
        want("lru.next", None, "a place on a list")
        want("lru.prev", None, "a place on a list")
        want("type", E["BFS_UNKNOWN"], "a type nobody looked up")
        key = self.m.field("bftw_file", "name")
        if [eng.peek(st, ("t", f), key[1] + n) for n in range(len(self.leaf) + 1)] != [("k", ord(c)) for c in self.leaf + "\0"]:
            eng.report(i, "%s() can give a file another's name" % fn.name, st)
        if self.parent and self.get(eng, st, W("f0"), "bftw_file", "refcount") != ("k", 4):
            eng.report(i, "%s() can miscount the users of a directory" % fn.name, st)


NAMES = [".", "a", "..", ".x", "...", "..b"]
REC = 32


class Dents(Heap):
    """Reading one entry. prop: ("k", n): the kernel gave n entries so far; "eof": it said there are no more."""
    name = "entries"
    budget = 200000
    unroll = 1 << 17

    def __init__(self, m, entry, text, file, have, given, chunks, flags=0):
        super().__init__(m, entry, text, file)
        self.have, self.given, self.chunks, self.flags = have, given, chunks, flags

    def record(self, st, a, n):
        m = self.m
        for f, v, ty in (("d_ino", 100 + n, "i64"), ("d_off", 1, "i64"), ("d_reclen", REC, "i16"), ("d_type", 8, "i8")):
            k = m.field("dirent64", f)
            st.mem[(a[0], a[1] + k[1])] = (("k", v), k, ty)
        k = m.field("dirent64", "d_name")
        for x, c in enumerate(NAMES[n] + "\0"):
            st.mem[(a[0], a[1] + k[1] + x)] = (("k", ord(c)), k, "i8")

    def setup(self, eng, st, args, ctx):
        st.trail = (self.text, None)
        st.prop = frozenset({("given", self.given)})
        self.ptr(st, "d0", "ent")
        buf = self.m.types["struct.bfs_dir"]["size"]
        # entries have..given-1 are left in the buffer, after two that were read
        pos = 2 * REC if self.have < self.given else self.given * REC
        size = pos + (self.given - self.have) * REC
        self.set(st, W("d0"), "bfs_dir", "flags", ("k", self.flags), "i32")
        self.set(st, W("d0"), "bfs_dir", "fd", ("k", 7), "i32")
        self.set(st, W("d0"), "bfs_dir", "pos", ("k", pos), "i16")
        self.set(st, W("d0"), "bfs_dir", "size", ("k", size), "i16")
        for n in range(self.have, self.given):
            self.record(st, (("t", W("d0")), buf + pos + (n - self.have) * REC), n)
        args[0] = ("s", W("d0"))
        args[1] = ("s", W("ent"))

    def inline(self, eng, fn, depth):
        return fn.file == self.files and len(fn.instrs) <= 200

    def given_(self, st):
        return [x[1] for x in st.prop if x[0] == "given"][0]

    def call(self, eng, st, i, name, args, ctx):
        if name in ("getdents64", "getdents"):
            a = eng.addr(st, eng.norm(st, args[1]))
            room = eng.norm(st, args[2])
            if a is None or a[1] is None:
                return None
            g = self.given_(st)
            out = []
            left = len(NAMES) - g
            if left == 0:
                s = st.copy()
                s.prop |= {("eof",)}
                out.append((s, ("k", 0)))
            for c in sorted({min(x, left) for x in self.chunks if x} if left else ()):
                if room[0] == "k" and room[1] < c * REC:
                    continue
                s = st.copy()
                for n in range(c):
                    self.record(s, (a[0], a[1] + n * REC), g + n)
                s.prop = (s.prop - {("given", g)}) | {("given", g + c)}
                out.append((s, ("k", c * REC)))
            s = st.copy()
            self.errno(s, 5)
            s.prop |= {("failed",)}
            out.append((s, ("k", -1)))
            return out
        return other(self, eng, st, i, name, args, ctx)

    def leave(self, eng, st, fn, rv, ctx):
        if not self.isentry(eng, fn):
            return
        self.leaves += 1
        i = self.at(fn)
        n = fn.name
        ok = eng.norm(st, rv)
        if ok[0] != "k":
            return
        g = self.given_(st)
        nxt = self.have
        while nxt < len(NAMES) and NAMES[nxt] in (".", ".."):
            nxt += 1
        if ok[1] == 0:
            if ("eof",) not in st.prop and not self.flags:
                eng.report(i, "%s() can say that a directory has no more entries before the system does" % n, st)
            elif nxt < len(NAMES):
                eng.report(i, "%s() can pass over entries of a directory" % n, st)
            return
        if ok[1] < 0:
            if ("failed",) not in st.prop:
                eng.report(i, "%s() can fail although nothing did" % n, st)
            return
        a = eng.addr(st, self.get(eng, st, W("ent"), "bfs_dirent", "name"))
        if a is None or a[1] is None:
            return
        if nxt >= g:
            eng.report(i, "%s() can give an entry the system did not" % n, st)
            return
        got = ""
        while len(got) < 8:
            c = eng.peek(st, a[0], a[1] + len(got))
            if c is None or c[0] != "k" or c[1] == 0:
                break
            got += chr(c[1])
        if got != NAMES[nxt]:
            eng.report(i, "%s() can %s" % (n, "give . or .. as a file" if got in (".", "..") else "pass over an entry of a directory"), st)
            return
        # what is left for the next time
        v = [self.get(eng, st, W("d0"), "bfs_dir", f) for f in ("pos", "size")]
        if any(x is None or x[0] != "k" for x in v):
            return
        pos, size = v[0][1], v[1][1]
        if size - pos != (g - nxt - 1) * REC:
            eng.report(i, "%s() can lose track of the entries it has yet to give" % n, st)
        elif pos < size:
            k = self.m.field("dirent64", "d_name")[1] + self.m.types["struct.bfs_dir"]["size"] + pos
            if [eng.peek(st, ("t", W("d0")), k + x) for x in range(len(NAMES[nxt + 1]) + 1)] != [("k", ord(c)) for c in NAMES[nxt + 1] + "\0"]:
                eng.report(i, "%s() can lose track of the entries it has yet to give" % n, st)
        fl = self.get(eng, st, W("d0"), "bfs_dir", "flags")
        if fl is not None and fl[0] == "k" and fl[1] & self.m.enums.get("BFS_DIR_EOF", 0) and ("eof",) not in st.prop and not self.flags & self.m.enums.get("BFS_DIR_EOF", 0):
            eng.report(i, "%s() can take a directory as read to its end too soon" % n, st)


def rules(m, R, file, run):
    E = m.enums
    R.rule("each entry of a directory except . and .. is given once, however the system hands them out")
    d = m.defined["bfs_readdir"].file
    n = 0
    if "dirent64" in [t.split(".")[-1] for t in m.types] and m.field("bfs_dir", "pos"):
        N = len(NAMES)
        for have in range(N + 1):
            for given in range(have, N + 1):
                for chunks in ((1,), (1, 2), (6,), (3,)):
                    run(m, R, Dents(m, "bfs_readdir", "%d entries read, %d in the buffer" % (have, given - have), d, have, given, chunks), "entries")
                    n += 1
            run(m, R, Dents(m, "bfs_readdir", "%d entries read, the rest in the buffer, end seen" % have, d, have, N, (1,), E.get("BFS_DIR_EOF", 0)), "entries")
        R.obligation("entries: bfs_readdir()", n)
    R.rule("a new file knows its directory, starting point, depth, name and place in the path")
    n = 0
    for f in sorted(m.defined.values(), key=lambda f: f.name):
        if f.file == file and f.dtypes == ["struct bftw_file*", "struct bftw_cache*", "struct bftw_file*", "char*"]:
            for parent, leaf, off, depth in product((None, "a", "dir", "/", "b/", "//"), ("x", "name", "y/", "/"), (0, 7), (0, 3)):
                run(m, R, New(m, f.name, "%r in %r" % (leaf, parent), file, parent, leaf, off, depth), "new")
                n += 1
            R.obligation("new: %s()" % f.name, n)
    R.rule("each file met is visited or queued exactly once, and queued again exactly if it is to be searched")
    n = 0
    if all(x in m.defined for x in ("bftw_visit", "bftw_push_file", "bftw_push_dir", "bftw_file_new", "bftw_call_back", "bftw_gc")):
        for cur, leaf, fl, th in product((True, False), (True, False), (0, E["BFTW_BUFFER"], E["BFTW_BUFFER"] | E["BFTW_SORT"], E["BFTW_STAT"]), (0, 1, 3)):
            if cur or leaf:
                run(m, R, Visit(m, "bftw_visit", "%s, flags %x, %d threads" % ("an entry of a directory" if cur and leaf else "an argument" if leaf else "a file from the queue", fl, th), file, cur, leaf, fl, th), "visit")
                n += 1
        R.obligation("visit: bftw_visit()", n)
    R.rule("the main loop visits every argument and every entry read, and ends only when nothing waits")
    if all("bftw_" + x in m.defined for x in ("impl", "visit", "pop_dir", "pop_file", "flush", "opendir", "readdir", "closedir")):
        for k in range(3):
            run(m, R, Impl(m, "bftw_impl", "%d arguments" % k, file, k), "loop")
        R.obligation("loop: bftw_impl()", 3)
    R.rule("the queues are set up for the order that was asked for")
    n = 0
    if "bftw_state_init" in m.defined:
        fl = [E["BFTW_SORT"], E["BFTW_BUFFER"], E["BFTW_STAT"]]
        for s in ("BFTW_BFS", "BFTW_DFS", "BFTW_IDS", "BFTW_EDS"):
            for k, th in product(range(8), (0, 1, 3)):
                f = sum(x for b, x in enumerate(fl) if k >> b & 1)
                run(m, R, Init(m, "bftw_state_init", "%s, flags %x, %d threads" % (s, f, th), file, s, f, th), "init")
                n += 1
        R.obligation("init: bftw_state_init()", n)

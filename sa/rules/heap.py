"""A model of the traversal's heap: files, lists of files, queues, requests in flight."""
from ..engine import INF
from .c16 import World, W

LINKS = {"next": "next", "ready": "ready.next"}


class Heap(World):
    """Analyse a function from a heap of known shape."""
    budget = 400000
    maxstates = 200
    inline_depth = 8
    NF = 8
    unroll = 16

    def __init__(self, m, entry, text, file):
        super().__init__(m, entry, None, text, file)

    def tokens(self, prop):
        return [W(n) for n in ["state", "q"] + ["f%d" % n for n in range(self.NF)] + ["d%d" % n for n in range(4)] + ["r0", "r1", "r2", "r3", "ent", "path", "name", "cache", "ioq"]]

    # -- building -----------------------------------------------------------------------------
    def slist(self, st, tok, struct, field, link, files):
        """A singly linked list in a field of an object."""
        base = self.m.field(struct, field + ".head" if field else "head")
        off = self.m.field("bftw_file", LINKS[link])[1]
        self.set(st, tok, struct, (field + "." if field else "") + "head", ("s", files[0]) if files else ("k", 0))
        tail = ("p", ("t", files[-1]), off) if files else self.at0(tok, base[1])
        self.set(st, tok, struct, (field + "." if field else "") + "tail", tail)
        for a, b in zip(files, files[1:] + [None]):
            self.set(st, a, "bftw_file", LINKS[link], ("s", b) if b else ("k", 0))

    def at0(self, tok, off):
        return ("p", ("t", tok), off) if off else ("s", tok)

    def file(self, st, tok, **kw):
        self.ptr(st, *[tok[1]])
        vals = {"parent": ("k", 0), "next": ("k", 0), "ready.next": ("k", 0), "lru.prev": ("k", 0), "lru.next": ("k", 0), "depth": 1, "refcount": 1, "pincount": 0, "fd": -1, "ioqueued": 0, "dir": ("k", 0)}
        vals.update(kw)
        tys = {"depth": "i64", "refcount": "i64", "pincount": "i64", "fd": "i32", "ioqueued": "i8", "type": "i32", "nameoff": "i64", "namelen": "i64"}
        for f, v in vals.items():
            self.set(st, tok, "bftw_file", f, v if isinstance(v, tuple) else ("k", v), tys.get(f, "ptr"))

    # -- reading ------------------------------------------------------------------------------
    def deref(self, eng, st, v):
        """The object a pointer points to the start of, None for null, False if unknown."""
        if v is None:
            return False
        v = eng.norm(st, v)
        if v == ("k", 0):
            return None
        a = eng.addr(st, v)
        if a and a[0][0] == "t" and a[1] == 0:
            return a[0][1]
        return False

    def walk(self, eng, st, tok, off, link):
        """(files, None) or (files, what is wrong)"""
        out = []
        x = self.deref(eng, st, eng.peek(st, ("t", tok), off))
        lo = self.m.field("bftw_file", LINKS[link])[1]
        last = (("t", tok), off)
        while x:
            if x in out:
                return out, "goes round in circles"
            out.append(x)
            last = (("t", x), lo)
            x = self.deref(eng, st, eng.peek(st, ("t", x), lo))
        if x is False:
            return out, "has lost its end"
        t = eng.peek(st, ("t", tok), off + 8)
        if t is None or eng.addr(st, t) != last:
            return out, "has a wrong tail"
        return out, None

    def tokname(self, eng, st, v):
        a = eng.addr(st, eng.norm(st, v))
        if a and a[0][0] == "t" and a[1] == self.m.field("bftw_file", "name")[1]:
            return a[0][1]
        return None

    def walkat(self, eng, st, a):
        out = []
        x = self.deref(eng, st, eng.peek(st, a[0], a[1]))
        lo = self.m.field("bftw_file", "next")[1]
        last = a
        while x:
            if x in out:
                return out, "goes round in circles"
            out.append(x)
            last = (("t", x), lo)
            x = self.deref(eng, st, eng.peek(st, ("t", x), lo))
        if x is False:
            return out, "has lost its end"
        t = eng.peek(st, a[0], a[1] + 8)
        if t is None or eng.addr(st, t) != last:
            return out, "has a wrong tail"
        return out, None

    def put(self, st, a, lst):
        lo = self.m.field("bftw_file", "next")[1]
        k = self.m.field("bftw_list", "head")
        st.mem[a] = (("s", lst[0]) if lst else ("k", 0), k, "ptr")
        st.mem[(a[0], a[1] + 8)] = (("p", ("t", lst[-1]), lo) if lst else ("p",) + a, self.m.field("bftw_list", "tail"), "ptr")
        for x, y in zip(lst, lst[1:] + [None]):
            self.set(st, x, "bftw_file", "next", ("s", y) if y else ("k", 0))

    def cstr(self, eng, st, v):
        """The string a pointer points to, if it is known."""
        a = eng.addr(st, eng.norm(st, v))
        if a is None or a[1] is None:
            return None
        if a[0][0] == "g":
            return self.m.gstr(("g", a[0][1], a[1]))
        out = ""
        while len(out) < 64:
            c = eng.peek(st, a[0], a[1] + len(out))
            if c is None or c[0] != "k":
                return None
            if c[1] == 0:
                return out
            out += chr(c[1])
        return None

    def strings(self, eng, st, name, args):
        """The result of a function on strings, if it is known."""
        if name == "strlen":
            s = self.cstr(eng, st, args[0])
            return None if s is None else ("k", len(s))
        if name in ("strcmp", "strcoll", "strncmp"):
            a, b = (self.cstr(eng, st, x) for x in args[:2])
            n = eng.norm(st, args[2]) if name == "strncmp" else None
            if a is None or b is None or n and n[0] != "k":
                return None
            if n:
                a, b = a[:n[1]], b[:n[1]]
            return ("k", (a > b) - (a < b))
        if name in ("memcmp", "bcmp"):
            n = eng.norm(st, args[2])
            p = [eng.addr(st, eng.norm(st, x)) for x in args[:2]]
            if n[0] != "k" or n[1] > 64 or any(x is None or x[1] is None for x in p):
                return None
            s = []
            for x, v in zip(p, args):
                if x[0][0] == "g":
                    g = self.m.gstr(("g", x[0][1], x[1]))
                    s.append(None if g is None else [ord(c) for c in (g + "\0" * n[1])[:n[1]]])
                else:
                    c = [eng.peek(st, x[0], x[1] + k) for k in range(n[1])]
                    s.append(None if any(y is None or y[0] != "k" for y in c) else [y[1] for y in c])
            if None in s:
                return None
            return ("k", (s[0] > s[1]) - (s[0] < s[1]))
        if name in ("strchr", "strrchr"):
            a = eng.addr(st, eng.norm(st, args[0]))
            s, c = self.cstr(eng, st, args[0]), eng.norm(st, args[1])
            if s is None or c[0] != "k":
                return None
            n = len(s) if c[1] == 0 else (s.find if name == "strchr" else s.rfind)(chr(c[1]))
            return ("k", 0) if n < 0 else self.at0(a[0][1], a[1] + n) if a[0][0] == "t" else ("p", a[0], a[1] + n)
        return None

"""C14: output that could not be written makes bfs fail."""
from ..engine import Engine, Rule, INF
from ..demand import demand_run
from .execcommon import direct_reach
from .opcommon import evaluators

LIBC_W = {"fprintf", "vfprintf", "fputc", "fputs", "putc", "putc_unlocked", "fputc_unlocked", "fputs_unlocked", "putchar", "puts", "printf", "vprintf",
          "fputwc", "vsnprintf", "snprintf", "fflush"}
FWRITE = {"fwrite", "fwrite_unlocked"}
STREAM = ("CFILE*", "struct CFILE*", "FILE*", "dchar**")
ALLOC = {"malloc", "calloc", "realloc", "reallocarray", "aligned_alloc", "posix_memalign"}


def writers(m):
    """int functions that take a stream or output buffer and report failure by a negative result."""
    return {f.name for f in m.defined.values() if f.dtypes and f.dtypes[0] == "int" and any(d in STREAM for d in f.dtypes[1:])}


def stream_keys(m, fn, op, seen=None):
    """Where a stream pointer comes from: set of field keys and globals."""
    seen = seen if seen is not None else set()
    if op[0] not in ("i", "a"):
        return {op[1]} if op[0] == "g" else set()
    k = (fn.name,) + tuple(op[:2])
    if k in seen:
        return set()
    seen.add(k)
    out = set()
    if op[0] == "a":
        for c in list(m.callsites.get(fn.name, [])) + list(m.icallers.get(fn.name, [])):
            if op[1] < len(c.args):
                out |= stream_keys(m, c.fn, c.args[op[1]], seen)
        return out
    i = fn.instrs[op[1]]
    if i.op == "load":
        key = m.ptrkey(fn, i.ops[0])
        if key == m.field("CFILE", "file"):
            p = i.ops[0]
            while p[0] == "i" and fn.instrs[p[1]].op == "getelementptr":
                p = fn.instrs[p[1]].ops[0]
            return stream_keys(m, fn, p, seen)
        return {key}
    if i.op == "phi":
        for v, _ in i.phis:
            out |= stream_keys(m, fn, v, seen)
    elif i.op == "select":
        out |= stream_keys(m, fn, i.ops[1], seen) | stream_keys(m, fn, i.ops[2], seen)
    elif i.op == "getelementptr":
        return stream_keys(m, fn, i.ops[0], seen)
    elif i.op == "call":
        out.add("call")
    return out


class WriteRule(Rule):
    """prop = (failed, recorded, tokens of the result pointer, ignore)"""
    name = "write"
    maxstates = 40
    budget = 600000
    inline_depth = 5

    def __init__(self, m, W, entry, inl, record):
        self.m, self.W, self.entry, self.inl, self.record = m, W, entry, inl, record
        self.kret = m.field("bfs_eval", "ret")
        self.kign = m.field("bfs_ctx", "ignore_errors")
        self.kcerr = m.field("bfs_ctx", "cerr")
        self.writes = set()
        dt = m.defined[entry].dtypes
        self.dstring = "dchar**" in dt and "CFILE*" not in dt
        self.alloc = m.may_reach(ALLOC) if "dchar**" in dt and "CFILE*" not in dt else set()

    def init(self):
        return (None, False, (), None)

    def tokens(self, prop):
        return list(prop[2])

    def rename(self, prop, mp):
        return prop[:2] + (tuple(mp[t][1] if t in mp and mp[t][0] == "s" else t for t in prop[2]),) + prop[3:]

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def load(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.kret and v[0] == "s" and v[1] not in st.prop[2]:
            st.prop = st.prop[:2] + (st.prop[2] + (v[1],),) + st.prop[3:]

    def split(self, eng, st, i, ctx):
        if self.record and eng.keyof(i, i.ops[0]) == self.kign:
            out = []
            for b in (0, 1):
                if st.prop[3] is not None and st.prop[3] != b:
                    continue
                s = st.copy()
                s.env[(ctx, "i", i.id)] = ("k", b)
                s.prop = s.prop[:3] + (b,)
                out.append(s)
            return out
        return None

    def store(self, eng, st, i, loc, v, ctx):
        p = loc[0]
        if p[0] == "s" and p[1] in st.prop[2] and eng.isnull(st, v) is False or p[0] == "s" and p[1] in st.prop[2] and v[0] == "k" and v[1] != 0:
            st.prop = (st.prop[0], True) + st.prop[2:]

    def call(self, eng, st, i, name, args, ctx):
        f = self.m.funcs.get(name)
        defd = f is not None and not f.decl
        kind = None
        if name in FWRITE:
            kind = "fwrite"
        elif name in self.W or name in LIBC_W:
            kind = "neg"
        elif defd and name in self.alloc and f.dtypes and (f.dtypes[0].endswith("*")) and name not in self.inl:
            kind = "null"
        elif not defd and name in ALLOC and name != "posix_memalign":
            kind = "null"
        if kind is None or name in ("snprintf", "vsnprintf") and not self.dstring:
            return None
        if self.record:
            ks = set()
            for k, a in enumerate(i.args):
                if defd and k + 1 < len(f.dtypes) and f.dtypes[k + 1] in STREAM or not defd and k == {"fwrite": 3, "fputc": 1, "fputs": 1, "putc": 1, "fwrite_unlocked": 3}.get(name, 0):
                    ks |= stream_keys(self.m, i.fn, a)
            if self.kcerr in ks or "stderr" in ks or kind == "null" or name in ("snprintf", "vsnprintf"):
                return None
        self.writes.add(i.loc())
        res = []
        ok = st.copy()
        if ok.prop[0] and ok.prop[0].endswith("(reserve)") and kind == "neg":
            ok.prop = (None,) + ok.prop[1:]     # enough room after all
        if defd:
            eng.effect(ok, i, name, args, ctx)
        else:
            e = eng.fresh(ok, ("errno", ctx, i.id))
        if kind == "fwrite":
            res.append((ok, args[2]))
        elif kind == "null":
            res.append((ok, eng.fresh(ok, ("r", ctx, i.id), (-INF, INF, frozenset([0])))))
        else:
            res.append((ok, eng.fresh(ok, ("r", ctx, i.id), (0, INF, frozenset()))))
        if st.prop[0] is None or ok.prop[0] is None:
            bad = st.copy()
            if defd:
                eng.effect(bad, i, name, args, ctx)
            bad.prop = (i.loc() + (" (reserve)" if "reserve" in name else ""),) + bad.prop[1:]
            bad.trail = ("%s: %s() fails" % (i.loc(), name), bad.trail)
            if kind == "fwrite":
                v = eng.fresh(bad, ("short", ctx, i.id), (0, INF, frozenset([args[2][1]]) if args[2][0] == "k" else frozenset()))
                if args[2][0] == "s":
                    eng.assumecmp(bad, "ne", v, args[2])
                elif args[2] == ("k", 0):
                    return res          # writing nothing cannot fail
                res.append((bad, v))
            elif kind == "null":
                res.append((bad, ("k", 0)))
            else:
                res.append((bad, ("k", -1)))
        return res

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name] or st.prop[0] is None:
            return
        ret = fn.blocks[fn.rpo[-1]][-1]
        if self.record:
            if not st.prop[1] and st.prop[3] != 1:
                eng.report(ret, "%s() can ignore that the write at %s failed" % (fn.name, st.prop[0]), st)
        elif eng.rng(st, rv)[1] >= 0:
            eng.report(ret, "%s() can return success although the write at %s failed" % (fn.name, st.prop[0]), st)


class ClearRule(Rule):
    """prop = (recorded, result pointer tokens, ignore, tokens of remembered errors)"""
    name = "clear"
    maxstates = 30
    budget = 200000
    inline_depth = 4

    def __init__(self, m):
        self.m = m
        self.kerr = m.field("bfs_ctx_file", "error")
        self.kret = m.field("bfs_eval", "ret")
        self.kign = m.field("bfs_ctx", "ignore_errors")
        self.inl = direct_reach(m, {"clearerr"} | {f.name for f in m.defined.values() if any(
            i.op == "load" and m.ptrkey(f, i.ops[0]) == self.kret for b in f.blocks for i in b)}) - evaluators(m)[0]
        self.sites = set()

    def init(self):
        return (False, (), None, ())

    tokens = lambda self, prop: list(prop[1]) + list(prop[3])

    def rename(self, prop, mp):
        f = lambda ts: tuple(mp[t][1] if t in mp and mp[t][0] == "s" else t for t in ts)
        return (prop[0], f(prop[1]), prop[2], f(prop[3]))

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def load(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.kret and v[0] == "s" and v[1] not in st.prop[1]:
            st.prop = (st.prop[0], st.prop[1] + (v[1],)) + st.prop[2:]
        elif loc[1] == self.kerr and v[0] == "s" and v[1] not in st.prop[3]:
            st.prop = st.prop[:3] + (st.prop[3] + (v[1],),)

    def split(self, eng, st, i, ctx):
        if eng.keyof(i, i.ops[0]) == self.kign:
            out = []
            for b in (0, 1):
                s = st.copy()
                s.env[(ctx, "i", i.id)] = ("k", b)
                s.prop = s.prop[:2] + (b,) + s.prop[3:]
                out.append(s)
            return out
        return None

    def store(self, eng, st, i, loc, v, ctx):
        p = loc[0]
        ok = eng.isnull(st, v) is False or v[0] == "k" and v[1] != 0
        if p[0] == "s" and p[1] in st.prop[1] and ok:
            st.prop = (True,) + st.prop[1:]
        elif loc[1] == self.kerr:
            er = v[0] == "s" and v[1][0] == "errno" or v[0] == "s" and eng.peek(st, ("g", "errno"), 0) == v
            st.prop = (bool(ok or er),) + st.prop[1:]

    def post_call(self, eng, st, i, name, args, rv, ctx):
        if name in ("fflush", "fclose", "cfclose"):
            st.prop = (False,) + st.prop[1:3] + ((),)
        elif name in ("clearerr", "clearerr_unlocked", "rewind"):
            self.sites.add(i.loc())
            if not st.prop[0] and st.prop[2] != 1 and not any(eng.isnull(st, ("s", t)) is False for t in st.prop[3]):
                eng.report(i, "the error state of an output stream is cleared although the error was not recorded", st)


class EraseRule(Rule):
    """prop = tokens of objects allocated on this path"""
    name = "erase"
    maxstates = 30
    budget = 200000
    inline_depth = 3

    def __init__(self, m):
        self.m = m
        self.kerr = m.field("bfs_ctx_file", "error")
        self.alloc = m.may_reach(ALLOC) | ALLOC
        self.owners = {s.fn.name for s in m.storemap.get(self.kerr, [])}
        self.inl = direct_reach(m, self.owners)
        self.sites = set()

    def init(self):
        return ()

    tokens = lambda self, prop: list(prop)

    def rename(self, prop, mp):
        return tuple(mp[t][1] if t in mp and mp[t][0] == "s" else t for t in prop)

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def post_call(self, eng, st, i, name, args, rv, ctx):
        if name in self.alloc and i.ty == "ptr" and rv[0] == "s":
            f = self.m.funcs.get(name)
            if f is None or f.decl or not f.dtypes or f.dtypes[0] == "void*":
                st.prop += (rv[1],)

    def store(self, eng, st, i, loc, v, ctx):
        if loc[1] != self.kerr:
            return
        self.sites.add(i.loc())
        if v[0] == "k" and v[1] != 0 or eng.isnull(st, v) is False:
            return
        if v[0] == "s" and (v[1][0] == "errno" or eng.peek(st, ("g", "errno"), 0) == v):
            return
        a = eng.addr(st, loc[0])
        if a is not None and a[0][0] == "t" and a[0][1] in st.prop:
            return
        eng.report(i, "the error remembered for an output file can be reset", st)


class CloseRule(Rule):
    """bfs_ctx_free(). prop = (failed, cur, done); cur = (token of the tracked file, stream kind, path is null, error)"""
    name = "close"
    maxstates = 60
    budget = 800000
    inline_depth = 5

    def __init__(self, m):
        self.m = m
        F = lambda n: m.field("bfs_ctx_file", n)
        self.kf, self.kp, self.ke = F("cfile"), F("path"), F("error")
        self.kout, self.kcerr = m.field("bfs_ctx", "cout"), m.field("bfs_ctx", "cerr")
        self.inl = {f.name for f in m.defined.values() if f.file.endswith("ctx.c")}
        self.files = 0

    def init(self):
        return (None, None, ())

    def tokens(self, prop):
        return [prop[1][0]] if prop[1] else []

    def rename(self, prop, mp):
        if prop[1] and prop[1][0] in mp:
            v = mp[prop[1][0]]
            return (prop[0], (v[1] if v[0] == "s" else ("gone",),) + prop[1][1:], prop[2])
        return prop

    def inline(self, eng, fn, depth):
        return fn.name in self.inl

    def finish(self, eng, st, i):
        failed, cur, done = st.prop
        if cur and not failed and not (cur[1] == "cerr" and cur[2]):
            for what, msg in (("error", "the error remembered for it"), ("ferror", "the error state of its stream"), ("flush", "the result of flushing it")):
                if what not in done:
                    eng.report(i, "an output file can be closed at exit without looking at %s" % msg, st)

    def split(self, eng, st, i, ctx):
        key = eng.keyof(i, i.ops[0])
        e = (ctx, "i", i.id)
        if key == self.kout:
            st.env[e] = ("s", ("COUT",))
            return [st]
        if key == self.kcerr:
            st.env[e] = ("s", ("CERR",))
            return [st]
        if key not in (self.kf, self.kp, self.ke):
            return None
        p = eng.addr(st, eng.val(st, i.fn, ctx, i.ops[0]))
        if p is None or p[0][0] != "t":
            return None
        tok = p[0][1]
        states = [st]
        if not st.prop[1] or st.prop[1][0] != tok:
            self.finish(eng, st, i)
            self.files += 1
            states = []
            for kind in ("cout", "cerr", "other"):
                for null in (True, False):
                    for err in (0, 1):
                        s = st.copy()
                        s.prop = (s.prop[0], (tok, kind, null, err), ())
                        states.append(s)
        for s in states:
            _, kind, null, err = s.prop[1]
            if key == self.kf:
                if kind == "other":
                    v = eng.fresh(s, ("FILE", ctx, i.id), (-INF, INF, frozenset([0])))
                    s.cons[("cmp", "eq", v, ("s", ("COUT",)))] = (0, 0, frozenset())
                    s.cons[("cmp", "ne", v, ("s", ("COUT",)))] = (1, 1, frozenset())
                    s.cons[("cmp", "eq", v, ("s", ("CERR",)))] = (0, 0, frozenset())
                    s.cons[("cmp", "ne", v, ("s", ("CERR",)))] = (1, 1, frozenset())
                else:
                    v = ("s", ("COUT",) if kind == "cout" else ("CERR",))
                s.env[e] = v
            elif key == self.kp:
                s.env[e] = ("k", 0) if null else eng.fresh(s, ("path", ctx, i.id), (-INF, INF, frozenset([0])))
            else:
                s.env[e] = ("k", err)
                self.event(eng, s, i, "error", err)
            for x, y in (("COUT", "CERR"), ("CERR", "COUT")):
                s.cons[("cmp", "eq", ("s", (x,)), ("s", (y,)))] = (0, 0, frozenset())
                s.cons[("cmp", "ne", ("s", (x,)), ("s", (y,)))] = (1, 1, frozenset())
        return states

    def event(self, eng, st, i, what, bad):
        failed, cur, done = st.prop
        if not cur:
            return
        done = tuple(sorted(set(done) | {what}))
        if bad and not (cur[1] == "cerr" and cur[2]):
            failed = failed or "%s: %s" % (i.loc(), what)
        st.prop = (failed, cur, done)

    def call(self, eng, st, i, name, args, ctx):
        what = {"ferror": "ferror", "ferror_unlocked": "ferror", "fflush": "flush", "fflush_unlocked": "flush", "cfclose": "close", "fclose": "close"}.get(name)
        if what is None or not st.prop[1]:
            return None
        if what == "close" and args[0][0] == "s" and args[0][1] in (("COUT",), ("CERR",)):
            return None
        if what == "close" and st.prop[1][1] != "other":
            return None
        f = self.m.funcs.get(name)
        out = []
        for bad in (0, 1):
            s = st.copy()
            if f is not None and not f.decl:
                eng.effect(s, i, name, args, ctx)
            self.event(eng, s, i, what, bad)
            if bad:
                s.trail = ("%s: %s() reports an error" % (i.loc(), name), s.trail)
            out.append((s, ("k", (1 if what == "ferror" else -1) if bad else 0)))
        return out

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != "bfs_ctx_free" or eng.stack != [fn.name]:
            return
        ret = fn.blocks[fn.rpo[-1]][-1]
        self.finish(eng, st, ret)
        if st.prop[0]:
            r = eng.rng(st, rv)
            if r[0] <= 0 <= r[1] and 0 not in r[2]:
                eng.report(ret, "bfs_ctx_free() can report success although writing an output file failed (%s)" % st.prop[0].split(": ")[1], st)


class ExitRule(Rule):
    """prop = (failed, result cell, called)"""
    name = "exit"
    maxstates = 40
    budget = 600000
    inline_depth = 4

    def __init__(self, m, entry, fallible, must, inl):
        self.m, self.entry, self.fallible, self.must = m, entry, fallible, must
        self.kr = m.field("callback_args", "ret")
        self.inl = inl
        self.rets = 0

    def init(self):
        return (None, None, ())

    def inline(self, eng, fn, depth):
        return fn.name in self.inl and fn.name not in self.fallible

    def store(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.kr:
            nz = v[0] == "k" and v[1] != 0 or eng.isnull(st, v) is False
            st.prop = (st.prop[0], "nz" if nz else None, st.prop[2])

    def split(self, eng, st, i, ctx):
        if eng.keyof(i, i.ops[0]) == self.kr:
            st.env[(ctx, "i", i.id)] = ("k", 1) if st.prop[1] == "nz" else eng.fresh(st, ("ret", ctx, i.id))
            return [st]
        return None

    def call(self, eng, st, i, name, args, ctx):
        if name in ("exit", "_exit", "_Exit", "quick_exit") and args and st.prop[0]:
            self.verdict(eng, st, i, args[0])
            return None
        if name not in self.fallible:
            return None
        out = []
        vals = (0, 1) if self.fallible[name] == "status" else (0, -1)
        if self.fallible[name] == "ptr":
            s = st.copy()
            eng.effect(s, i, name, args, ctx)
            eng.effect(st, i, name, args, ctx)
            st.prop = st.prop[:2] + (tuple(sorted(set(st.prop[2]) | {name})),)
            return [(s, ("k", 0)), (st, eng.fresh(st, ("r", ctx, i.id), (-INF, INF, frozenset([0]))))]
        for v in vals:
            s = st.copy()
            eng.effect(s, i, name, args, ctx)
            s.prop = (s.prop[0] or ("%s() at %s" % (name, i.loc()) if v else None), s.prop[1], tuple(sorted(set(s.prop[2]) | {name})))
            if v:
                s.trail = ("%s: %s() fails" % (i.loc(), name), s.trail)
            out.append((s, eng.fresh(s, ("r", ctx, i.id), (1, 255, frozenset())) if v == 1 else ("k", v)))
        return out

    def verdict(self, eng, st, i, rv):
        r = eng.rng(st, rv)
        if r[0] <= 0 <= r[1] and 0 not in r[2]:
            eng.report(i, "%s() can report success although %s failed" % (self.entry, st.prop[0]), st)

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name != self.entry or eng.stack != [fn.name]:
            return
        self.rets += 1
        ret = fn.blocks[fn.rpo[-1]][-1]
        if st.prop[0]:
            self.verdict(eng, st, ret, rv)
        for first, then in self.must:
            if first in st.prop[2] and then not in st.prop[2]:
                r = eng.rng(st, rv)
                if r[0] <= 0 <= r[1] and 0 not in r[2]:
                    eng.report(ret, "%s() can report success without having called %s()" % (self.entry, then), st)


class RegisterRule(Rule):
    """prop = the path was noted"""
    name = "register"
    maxstates = 30
    budget = 100000
    inline_depth = 3

    def __init__(self, m, fn):
        self.m, self.fn = m, fn
        self.kp = m.field("bfs_ctx_file", "path")
        self.n = [k for k, d in enumerate(m.defined[fn].dtypes[1:]) if d == "char*"]
        self.rets = 0

    def init(self):
        return False

    def inline(self, eng, fn, depth):
        return self.kp in eng.sum.mods(fn.name)[0] and fn.file.endswith("ctx.c")

    def store(self, eng, st, i, loc, v, ctx):
        if loc[1] == self.kp:
            st.prop = v == ("s", ("arg", eng.ctx((self.fn,)), self.n[0])) or v == ("k", 0) and eng.isnull(st, ("s", ("arg", eng.ctx((self.fn,)), self.n[0])))

    def leave(self, eng, st, fn, rv, ctx):
        if fn.name == self.fn and eng.stack == [fn.name] and eng.isnull(st, rv) is not True:
            self.rets += 1
            if not st.prop:
                eng.report(fn.blocks[fn.rpo[-1]][-1], "%s() can accept an output file without noting its name, so that errors on it may be treated as errors on standard error" % fn.name, st)


def cfile_values(m, fn, op, seen=()):
    """Names of functions returning a stream whose result op may be."""
    if op[0] != "i" or op in seen:
        return set()
    i = fn.instrs[op[1]]
    if i.op == "phi":
        return set().union(*(cfile_values(m, fn, v, seen + (op,)) for v, _ in i.phis))
    if i.op == "select":
        return cfile_values(m, fn, i.ops[1], seen + (op,)) | cfile_values(m, fn, i.ops[2], seen + (op,))
    if i.op == "call":
        out = set()
        for n in m.callees(i):
            g = m.funcs.get(n)
            if g is not None and not g.decl and g.dtypes and g.dtypes[0] in ("CFILE*", "struct CFILE*"):
                sub = set()
                if n != "bfs_ctx_dedup":
                    for b in g.rpo:
                        t = g.blocks[b][-1]
                        if t.op == "ret" and t.ops:
                            sub |= cfile_values(m, g, t.ops[0])
                out |= sub or {n}
        return out
    return set()


def uses_stream(m, f, kc):
    """Does f use the stream of an expression? (The field shares its storage with others.)"""
    ld = {i.id for b in f.blocks for i in b if i.op == "load" and i.ty == "ptr" and m.ptrkey(f, i.ops[0]) == kc}
    if not ld:
        return False
    for b in f.blocks:
        for i in b:
            if i.op == "getelementptr" and i.st in ("struct.CFILE",) and i.ops[0][0] == "i" and i.ops[0][1] in ld:
                return True
            if i.op == "load" and i.ops[0][0] == "i" and i.ops[0][1] in ld and m.ptrkey(f, i.ops[0])[0] == "struct.CFILE":
                return True
            if i.op == "call" and i.callee[0] == "f":
                g = m.funcs.get(i.callee[1])
                for k, a in enumerate(i.args):
                    if a[0] == "i" and a[1] in ld and g is not None and k + 1 < len(g.dtypes) and g.dtypes[k + 1] in STREAM:
                        return True
    return False


def check(m, R):
    R.rule("error propagation: every function that writes to a stream or output buffer returns a negative value whenever one of the writes it makes fails; "
           "every action that prints records the failure in the exit status (unless errors are ignored on request)")
    R.rule("an output stream's error state is cleared only after the error was recorded")
    R.rule("bfs_ctx_free() consults, for every output file, the remembered error, the stream's error state and the result of the final flush, and returns non-zero if any failed "
           "(standard error used for diagnostics only is exempt); bfs_eval() and main() turn failures into a non-zero status; nothing resets a recorded failure except -exit")
    R.assume("stdio keeps a stream's error indicator until clearerr() or rewind()")
    for s, f in (("bfs_eval", "ret"), ("bfs_ctx", "ignore_errors"), ("bfs_ctx_file", "error"), ("bfs_ctx_file", "cfile"), ("callback_args", "ret"), ("bfs_expr", "cfile")):
        R.require(m.field(s, f), "field %s.%s vanished" % (s, f))
    W = writers(m)
    evals, sites = evaluators(m)
    kc = m.field("bfs_expr", "cfile")
    # evaluators that print
    prints = set()
    clears = {c.fn.name for n in ("clearerr", "clearerr_unlocked") for c in m.callsites.get(n, [])}
    for E in evals:
        f = m.defined[E]
        if uses_stream(m, f, kc):
            prints.add(E)
    for f in m.defined.values():
        if f.name not in evals and f.file.endswith("eval.c") and f.name not in clears and uses_stream(m, f, kc):
            prints |= {E for E in evals if E in direct_reach(m, {f.name})}
    R.minimum("printing actions", len(prints), 5)
    used = set()
    diag = {n for n, f in m.defined.items() if f.file.endswith("diag.c")}
    evalfile = {n for n, f in m.defined.items() if f.file.endswith("eval.c")}
    reach = m.reach(sorted(prints), stop=diag | (evals - prints))
    used = {n for n in reach if n in W and n in m.defined and m.reach([n]).keys() & (LIBC_W | FWRITE | ALLOC)}
    touch = {f.name for f in m.defined.values() if f.file.endswith("eval.c") and any(
        i.op == "load" and m.ptrkey(f, i.ops[0]) == m.field("bfs_eval", "ret") for b in f.blocks for i in b)}
    dr = direct_reach(m, touch) | direct_reach(m, {n for n in evalfile if m.cg[n] & (W | LIBC_W | FWRITE)})
    nw = 0
    for E in sorted(prints):
        rule = WriteRule(m, W, E, (dr & evalfile) - W - diag, True)
        eng = Engine(m, rule)
        eng.run(E)
        R.engine(eng, "action")
        nw += len(rule.writes)
        R.obligation("%s: %d writes" % (E, len(rule.writes)))
        R.require(rule.writes, "%s no longer writes anything" % E)
    R.minimum("functions that write output", len(used), 30)
    for F in sorted(used - {"cfclose"}):
        helpers = {n for n in m.defined if n not in W and m.defined[n].file == m.defined[F].file and m.cg[n] & (W | LIBC_W | FWRITE)}
        rule = WriteRule(m, W, F, direct_reach(m, helpers) & helpers, False)
        eng = Engine(m, rule)
        eng.run(F)
        R.engine(eng, "propagate")
        nw += len(rule.writes)
        R.obligation("%s: %d fallible calls" % (F, len(rule.writes)))
    R.count("fallible writes", nw)
    # clearerr
    cs = [c for n in ("clearerr", "clearerr_unlocked", "rewind") for c in m.callsites.get(n, [])]
    owners = {c.fn.name for c in cs}
    for f, rule in demand_run(m, R, owners, lambda: ClearRule(m), "clear"):
        R.obligation("%s: clears a stream's error state at %s" % (f, ", ".join(sorted(rule.sites))))
    owners = {s.fn.name for s in m.storemap.get(m.field("bfs_ctx_file", "error"), [])}
    for f, rule in demand_run(m, R, owners, lambda: EraseRule(m), "erase"):
        R.obligation("%s: remembered error set at %s" % (f, ", ".join(sorted(rule.sites))))
    # closing
    R.require("bfs_ctx_free" in m.defined, "bfs_ctx_free vanished")
    rule = CloseRule(m)
    eng = Engine(m, rule)
    eng.run("bfs_ctx_free")
    R.engine(eng, "close")
    R.require(rule.files > 0, "bfs_ctx_free() no longer looks at output files")
    R.obligation("bfs_ctx_free: output files")
    if "cfclose" in m.defined:
        rule = WriteRule(m, W - {"cfclose"} | {"fclose"}, "cfclose", set(), False)
        eng = Engine(m, rule)
        eng.run("cfclose")
        R.engine(eng, "close")
        R.obligation("cfclose: %d fallible calls" % len(rule.writes))
    # registration
    R.require("bfs_ctx_dedup" in m.defined, "bfs_ctx_dedup vanished")
    rule = RegisterRule(m, "bfs_ctx_dedup")
    eng = Engine(m, rule)
    eng.run("bfs_ctx_dedup")
    R.engine(eng, "register")
    R.require(rule.rets, "bfs_ctx_dedup never succeeds")
    R.obligation("bfs_ctx_dedup: %d successful return paths" % rule.rets)
    ns = 0
    for s in m.storemap.get(kc, []):
        v = cfile_values(m, s.fn, s.ops[0])
        if not v:
            continue
        ns += 1
        R.obligation("%s: output stream of an action" % s.loc())
        if v != {"bfs_ctx_dedup"}:
            R.violation(s, "an action writes to a stream that is not registered with the context (from %s())" % ", ".join(sorted(v)), rule="register")
    R.minimum("actions with an output file", ns, 1)
    # exit status
    fin = {n for n in m.cg["bfs_eval"] | {x for y in m.cg["bfs_eval"] for x in m.cg.get(y, ())} if n in m.defined and m.defined[n].dtypes
           and m.defined[n].dtypes[0] == "int" and any(d == "struct bfs_expr*" for d in m.defined[n].dtypes[1:]) and "bfs_exec_finish" in m.reach([n])}
    for entry, fal, must in (("bfs_eval", {"bftw": "err", **{n: "err" for n in fin}}, []),
                             ("main", {"bfs_parse_cmdline": "ptr", "bfs_eval": "status", "bfs_ctx_free": "err"}, [("bfs_parse_cmdline", "bfs_eval"), ("bfs_parse_cmdline", "bfs_ctx_free")])):
        R.require(entry in m.defined and all(x in m.defined for x in fal), "%s or a function it calls vanished" % entry)
        rule = ExitRule(m, entry, fal, must, direct_reach(m, set(fal)))
        eng = Engine(m, rule)
        eng.run(entry)
        R.engine(eng, "exit")
        R.obligation("%s: %d return paths, fallible %s" % (entry, rule.rets, ", ".join(sorted(fal))))
    # nothing resets the status
    kr, kp = m.field("callback_args", "ret"), m.field("bfs_eval", "ret")
    knum = m.field("bfs_expr", "num")
    for f in m.defined.values():
        for b in f.rpo:
            for i in f.blocks[b]:
                if i.op != "store":
                    continue
                key = m.ptrkey(f, i.ops[1])
                via = i.ops[1][0] == "i" and f.instrs[i.ops[1][1]].op == "load" and m.ptrkey(f, f.instrs[i.ops[1][1]].ops[0]) == kp
                if not via and key != kr:
                    continue
                R.obligation("%s: store to the exit status" % i.loc())
                if f.name == "bfs_eval" and not via:
                    continue
                if not keeps(m, f, i.ops[0], knum, kr, kp):
                    R.violation(i, "a recorded failure can be forgotten: the exit status is overwritten", rule="reset")


def keeps(m, f, op, knum, kr, kp, seen=()):
    if op[0] == "c":
        return op[1] != 0
    if op[0] != "i" or op in seen:
        return op in seen
    i = f.instrs[op[1]]
    if i.op == "phi":
        return all(keeps(m, f, v, knum, kr, kp, seen + (op,)) for v, _ in i.phis)
    if i.op == "select":
        return all(keeps(m, f, v, knum, kr, kp, seen + (op,)) for v in i.ops[1:])
    if i.op in ("trunc", "zext", "sext"):
        return keeps(m, f, i.ops[0], knum, kr, kp, seen)
    if i.op == "or":
        return any(keeps(m, f, v, knum, kr, kp, seen + (op,)) for v in i.ops)
    if i.op == "load":
        k = m.ptrkey(f, i.ops[0])
        if k in (knum, kr):
            return True
        p = i.ops[0]
        return p[0] == "i" and f.instrs[p[1]].op == "load" and m.ptrkey(f, f.instrs[p[1]].ops[0]) == kp
    return False

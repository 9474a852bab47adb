"""C08: background I/O threads use only thread-safe functions and no unsynchronised shared data."""
from ..util import Tracer
from .c06 import local_struct

# Not required to be thread-safe by POSIX / documented MT-Unsafe by glibc
UNSAFE = set("""
asctime basename catgets crypt ctime dirname dlerror ecvt encrypt endgrent endpwent endutxent fcvt ftw getc_unlocked getchar_unlocked getdate getgrent
getgrgid getgrnam gethostbyaddr gethostbyname gethostent getlogin getnetent getopt getopt_long getprotobyname getprotoent getpwent getpwnam getpwuid
getservbyname getservent getutxent gmtime hcreate hdestroy hsearch inet_ntoa l64a lgamma localeconv localtime nftw nl_langinfo ptsname putc_unlocked
putchar_unlocked putenv pututxline rand random srand srandom setenv setgrent setkey setlocale setpwent setutxent strerror strsignal strtok
system tmpnam ttyname unsetenv wcstombs wctomb getmntent setmntent endmntent drand48 lrand48 mrand48 mblen mbtowc fork vfork exit atexit tzset
mktime_unsafe getenv chdir fchdir umask setrlimit setrlimit64 signal sigprocmask alarm setitimer execve
getgrgid_r_cached fputs_unlocked fputc_unlocked fwrite_unlocked
""".split())
# a worker must not touch process-wide state or block on the terminal
STDIO = {"printf", "fprintf", "vfprintf", "puts", "putchar", "fputs", "fputc", "putc", "fwrite", "fflush", "fopen", "fopen64", "fclose"}


def workers(m):
    out = set()
    for c in m.callsites.get("pthread_create", []) + m.callsites.get("thrd_create", []):
        out |= m._fnsrc(c.fn, c.args[2], set())
    return {n for n in out if n in m.defined}


def accesses(m):
    """global -> list of (instr, atomic?) direct loads/stores/rmw."""
    out = {}
    for f in m.defined.values():
        for blk in f.blocks:
            for i in blk:
                if i.op in ("load", "store", "atomicrmw", "cmpxchg"):
                    p = i.ops[1] if i.op == "store" else i.ops[0]
                    if p[0] == "g":
                        out.setdefault(p[1], []).append((i, bool(i.order)))
    return out


def addrtaken(m, g):
    """Is the address of the global used for anything but direct accesses?"""
    for f in m.defined.values():
        for blk in f.blocks:
            for i in blk:
                if i.op in ("load", "store") and not (i.op == "store" and i.ops[0][:2] == ("g", g)):
                    continue
                vs = list(i.ops or []) + [v for v, _ in (i.phis or [])] + list(i.args or [])
                if any(v[:2] == ("g", g) for v in vs):
                    return True
    return False


def leaked(m, i, v, seen):
    """Instructions that access, otherwise than atomically, memory whose address v instruction i uses."""
    v = tuple(v)
    if (i.fn.name, i.id, str(v)) in seen:
        return
    seen.add((i.fn.name, i.id, str(v)))
    if i.op in ("load", "store", "atomicrmw", "cmpxchg") and (i.ops[1] if i.op == "store" else i.ops[0]) == v:
        if not i.order:
            yield i
    elif i.op == "icmp" or i.op == "ret":
        return
    elif i.op == "call":
        for n in m.callees(i):
            g = m.funcs.get(n)
            if g is None or g.decl:
                if n.startswith("llvm.") and not n.startswith("llvm.mem") or n.startswith("pthread_") or n in ("sem_wait", "sem_post"):
                    continue
                yield i
                continue
            for k, a in enumerate(i.args):
                if a == v:
                    yield from follow(m, g, ("a", k), seen)
    elif i.op in ("phi", "select", "getelementptr", "bitcast"):
        yield from follow(m, i.fn, ("i", i.id), seen)
    else:
        yield i


def follow(m, f, v, seen):
    for b in f.rpo:
        for i in f.blocks[b]:
            if v in (list(i.ops or []) + [x for x, _ in (i.phis or [])] + list(i.args or [])):
                yield from leaked(m, i, v, seen)


def check(m, R):
    R.rule("call graph from every thread entry point: no call to a function that is not required to be thread-safe (functions that cannot return are exempt)")
    R.rule("every mutable global referenced in thread-reachable code is thread-local or accessed only atomically")
    R.rule("thread-reachable code touches fields of the queue structures shared with the main thread only if they are accessed atomically or are "
           "written only while the queue is created or destroyed")
    ws = workers(m)
    R.require(ws, "no thread entry point found")
    stop = {x for x, f in m.defined.items() if f.noreturn}
    par = m.reach(sorted(ws), stop=stop)
    fns = [m.funcs[x] for x in par if not m.funcs[x].decl and x not in stop]
    acc = accesses(m)
    n = ng = 0
    for f in fns:
        R.funcs.add(f.name)
        for i in m.calls(f):
            for c in m.callees(i):
                g = m.funcs.get(c)
                if g is not None and not g.decl or c.startswith("llvm."):
                    continue
                n += 1
                R.obligation("%s: %s() on a background thread" % (i.loc(), c))
                if c in UNSAFE or c in STDIO:
                    R.violation(i, "%s() is called on a background thread (%s)" % (c, " -> ".join(m.chain(par, f.name) + [c])), rule="mt-safe")
        for b in f.rpo:
            for i in f.blocks[b]:
                ops = list(i.ops or []) + [v for v, _ in (i.phis or [])] + list(i.args or [])
                for v in [x for n2, x in enumerate(ops) if x not in ops[:n2]]:
                    if v[0] != "g":
                        continue
                    g = m.globals.get(v[1])
                    if not g or g["const"] or g.get("tls"):
                        continue
                    if v[1] in ("stdout", "stderr", "stdin"):
                        pass
                    ng += 1
                    R.obligation("%s: global %s on a background thread" % (i.loc(), v[1]))
                    a = acc.get(v[1], [])
                    if i.op in ("load", "store", "atomicrmw", "cmpxchg") and (i.ops[0] == v if i.op != "store" else i.ops[1] == v):
                        if i.op == "load" and not i.order and all(y.op == "load" for y, _ in a) and not addrtaken(m, v[1]):
                            continue    # never written by the program
                        if not i.order:
                            R.violation(i, "global %s is accessed non-atomically on a background thread" % v[1], rule="globals")
                        elif not all(x for _, x in a):
                            bad = next(y for y, x in a if not x)
                            R.violation(i, "global %s is accessed on a background thread, but non-atomically at %s" % (v[1], bad.loc()), rule="globals")
                        continue
                    if i.op == "icmp":
                        continue
                    if i.op == "call":
                        if i.callee[0] == "f" and "threadlocal.address" in i.callee[1]:
                            continue
                    for x in leaked(m, i, v, set()):
                        R.violation(x, "unsynchronised global %s is used on a background thread" % v[1], rule="globals")
    # shared structures
    shared = set()
    work = []
    for w in ws:
        for f in fns:
            for blk in f.blocks:
                for i in blk:
                    if i.op == "getelementptr" and i.st in ("struct.ioq", "struct.ioq_thread", "struct.ioqq"):
                        shared.add(i.st)
    R.require("struct.ioq" in shared, "background threads no longer use the queue structure")
    lifecycle = {x for x in m.may_reach({"pthread_create", "pthread_join"}) if x in m.defined
                 and any("struct ioq*" in d or "struct ioq_thread*" in d for d in m.defined[x].dtypes)}

    def quiescent(fname, seen=()):
        if fname in lifecycle:
            return True
        if fname in seen:
            return True
        cs = {c.fn.name for c in m.callsites.get(fname, [])} | {c.fn.name for c in m.icallers.get(fname, [])}
        return bool(cs) and all(quiescent(c, seen + (fname,)) for c in cs)
    wf = {f.name for f in fns}
    touched = {}
    for f in fns:
        for blk in f.blocks:
            for i in blk:
                if i.op == "getelementptr" and i.st in shared and isinstance(i.off, int):
                    touched.setdefault((i.st, i.off), []).append(i)
    uses = {}
    for f in m.defined.values():
        gep = {}
        for blk in f.blocks:
            for i in blk:
                if i.op == "getelementptr" and (i.st, i.off) in touched:
                    gep[i.id] = (i.st, i.off)
        if not gep:
            continue
        for blk in f.blocks:
            for i in blk:
                for k, v in enumerate(i.ops or []):
                    if v[0] == "i" and v[1] in gep:
                        uses.setdefault(gep[v[1]], []).append((i, k))
    for key in sorted(touched):
        name = m.fieldname(*key)
        R.obligation("shared field %s" % name)
        for i, k in uses.get(key, []):
            atomic = bool(i.order)
            inworker = i.fn.name in wf
            write = i.op == "store" and k == 1 or i.op in ("atomicrmw", "cmpxchg") and k == 0
            if write and not atomic:
                if inworker and not fresh_local(i):
                    R.violation(i, "shared field %s is written non-atomically on a background thread" % name, rule="shared")
                elif not quiescent(i.fn.name):
                    R.violation(i, "field %s, which background threads use, is written non-atomically while they run" % name, rule="shared")
            elif i.op == "call" and not quiescent(i.fn.name):
                # the address of the field is passed on: acceptable for the sub-objects that synchronise themselves
                t = fieldtype(m, key)
                if t and t.split("[")[0] in ("struct io_uring",):
                    continue
                if inworker or any(x.fn.name in wf for x, _ in uses[key]):
                    if any(not quiescent(x.fn.name) and x.fn.name not in wf for x, _ in uses[key]) and inworker:
                        R.violation(i, "shared object %s is used on a background thread and by the main thread" % name, rule="shared")
    R.count("thread entry points", len(ws))
    R.count("external call sites on background threads", n)
    R.count("references to mutable globals on background threads", ng)
    R.count("shared fields", len(touched))
    R.minimum("external call sites on background threads", n, 15)
    R.minimum("shared fields", len(touched), 3)


def fieldtype(m, key):
    t = m.types.get(key[0])
    for n, off, sz, ty in t["fields"]:
        if off == key[1]:
            return ty
    return None


def fresh_local(i):
    return local_struct(i.fn, i.ops[1])

"""C01: no descriptor opened by bfs is inherited by the commands it runs."""
from ..util import Tracer, fork_children

O_CLOEXEC = 0o2000000
# name -> index of the flags argument that must contain O_CLOEXEC (same bit for all of these on Linux)
FLAGS = {"open": 1, "open64": 1, "openat": 2, "openat64": 2, "__open_2": 1, "__open64_2": 1, "__openat_2": 2, "__openat64_2": 2,
         "pipe2": 1, "dup3": 2, "accept4": 3, "epoll_create1": 0, "eventfd": 1, "inotify_init1": 0, "signalfd": 2,
         "timerfd_create": 1, "socket": 1, "mkostemp": 1, "mkostemps": 2,
         "io_uring_prep_openat": 3, "io_uring_prep_openat_direct": 3, "io_uring_prep_open": 2, "open_by_handle_at": 2}
FD_CLOEXEC_BIT = {"memfd_create": (1, 1)}
# name -> index of a stdio mode string that must contain 'e'
MODES = {"fopen": 1, "fopen64": 1, "freopen": 1, "freopen64": 1, "popen": 1}
# no way to ask for close-on-exec atomically
NEVER = {"dup": "dup() leaves close-on-exec clear", "dup2": "dup2() leaves close-on-exec clear", "pipe": "pipe() leaves close-on-exec clear",
         "creat": "creat() leaves close-on-exec clear", "creat64": "creat() leaves close-on-exec clear",
         "accept": "accept() leaves close-on-exec clear", "epoll_create": "epoll_create() leaves close-on-exec clear",
         "inotify_init": "inotify_init() leaves close-on-exec clear", "tmpfile": "tmpfile() leaves close-on-exec clear",
         "tmpfile64": "tmpfile() leaves close-on-exec clear", "mkstemp": "mkstemp() leaves close-on-exec clear",
         "mkstemp64": "mkstemp() leaves close-on-exec clear"}
SYSCALLS = {2: "open", 22: "pipe", 32: "dup", 33: "dup2", 41: "socket", 43: "accept", 85: "creat"}
SYSFLAGS = {257: 3, 293: 2, 292: 3}
F_DUPFD, F_SETFD, F_DUPFD_CLOEXEC = 0, 2, 1030


def closes_in_child(m, fn):
    """Both ends are registered to be closed in the only process that would inherit them."""
    n = 0
    for f in [fn] + [m.defined[c] for c in m.cg[fn.name] if c in m.defined]:
        n += sum(1 for i in m.calls(f) if "bfs_spawn_addclose" in m.callees(i) or "posix_spawn_file_actions_addclose" in m.callees(i)) \
            if f is fn or not f.name.startswith("bfs_spawn") else 0
    return n >= 2


def check(m, R):
    R.rule("every call that creates a descriptor must set close-on-exec in the same call (known-bits analysis of its flags through SSA, "
           "parameters, returns and fields); F_SETFD may never clear it; exempt: code only the forked child runs, and /dev/null opened as a standard stream")
    tr = Tracer(m)
    child, entries, sites, wrappers = fork_children(m)
    childids = {id(i) for i in child}
    # functions only the child executes
    childroots = set()
    for i in child:
        childroots |= {n for n in m.callees(i) if n in m.defined}
    inchild = set(m.reach(sorted(childroots)))
    outside = set()
    roots = {n for n in m.defined if n not in inchild or not m.rcg.get(n)}
    work = sorted(roots)
    seen = set(work)
    while work:
        f = work.pop()
        fn = m.defined.get(f)
        if fn is None:
            continue
        for i in m.calls(fn):
            if id(i) in childids:
                continue
            for c in m.callees(i):
                if c not in seen:
                    seen.add(c)
                    work.append(c)
    only_child = inchild - seen
    n = 0
    for fn in m.defined.values():
        for i in m.calls(fn):
            for name in m.callees(i):
                exempt = id(i) in childids or fn.name in only_child
                if name in FLAGS:
                    n += 1
                    idx = FLAGS[name]
                    ones, zeros = tr.bits(fn, i.args[idx])
                    ok = bool(ones & O_CLOEXEC)
                    if not ok and name in ("open", "open64"):
                        src = tr.sources(fn, i.args[0])
                        if src == {("str", "/dev/null")}:
                            R.obligation("%s: %s(/dev/null) as a standard stream: exempt" % (i.loc(), name))
                            continue
                    if exempt:
                        R.obligation("%s: %s in the forked child: exempt" % (i.loc(), name))
                        continue
                    R.obligation("%s: %s flags known-ones %#x" % (i.loc(), name, ones))
                    if not ok:
                        R.violation(i, "%s() may create a descriptor without close-on-exec (flags not known to contain O_CLOEXEC)" % name, rule="cloexec")
                elif name in FD_CLOEXEC_BIT:
                    n += 1
                    idx, bit = FD_CLOEXEC_BIT[name]
                    if not tr.bits(fn, i.args[idx])[0] & bit:
                        R.violation(i, "%s() without close-on-exec" % name, rule="cloexec")
                elif name in MODES:
                    n += 1
                    src = tr.sources(fn, i.args[MODES[name]])
                    ok = src and all(s[0] == "str" and "e" in s[1] for s in src)
                    R.obligation("%s: %s mode %s" % (i.loc(), name, sorted(map(str, src))))
                    if not ok:
                        R.violation(i, "%s() without mode 'e' (close-on-exec)" % name, rule="cloexec")
                elif name in NEVER:
                    if exempt:
                        continue
                    n += 1
                    if name == "dup2":
                        src = tr.sources(fn, i.args[1])
                        if src and src <= {("c", 0), ("c", 1), ("c", 2)}:
                            R.obligation("%s: dup2 onto a standard stream" % i.loc())
                            continue
                    if name == "pipe" and closes_in_child(m, fn):
                        R.obligation("%s: pipe() whose ends are closed by spawn actions" % i.loc())
                        continue
                    R.violation(i, NEVER[name], rule="cloexec")
                elif name in ("fcntl", "fcntl64"):
                    src = tr.sources(fn, i.args[1])
                    cmds = {s[1] for s in src if s[0] == "c"}
                    if any(s[0] != "c" for s in src) or not src:
                        if not exempt:
                            R.violation(i, "fcntl() with a command that cannot be determined", rule="cloexec")
                        continue
                    if F_DUPFD_CLOEXEC in cmds or F_DUPFD in cmds:
                        n += 1
                        R.obligation("%s: fcntl command %s" % (i.loc(), sorted(cmds)))
                    if F_DUPFD in cmds and not exempt:
                        R.violation(i, "fcntl(F_DUPFD) leaves close-on-exec clear", rule="cloexec")
                    if F_SETFD in cmds and not exempt:
                        n += 1
                        ones, _ = tr.bits(fn, i.args[2]) if len(i.args) > 2 else (0, 0)
                        if not ones & 1:
                            R.violation(i, "fcntl(F_SETFD) may clear close-on-exec", rule="cloexec")
                elif name == "ioctl":
                    src = tr.sources(fn, i.args[1])
                    if ("c", 0x5450) in src:   # FIONCLEX
                        R.violation(i, "ioctl(FIONCLEX) clears close-on-exec", rule="cloexec")
                elif name == "syscall":
                    src = tr.sources(fn, i.args[0])
                    for s in src:
                        if s[0] == "c" and s[1] in SYSCALLS and not exempt:
                            R.violation(i, "raw %s system call without close-on-exec" % SYSCALLS[s[1]], rule="cloexec")
                        if s[0] == "c" and s[1] in SYSFLAGS and not exempt:
                            n += 1
                            if not tr.bits(fn, i.args[SYSFLAGS[s[1]]])[0] & O_CLOEXEC:
                                R.violation(i, "raw system call without O_CLOEXEC", rule="cloexec")
    R.count("descriptor-creating call sites", n)
    R.count("functions only the forked child runs", len(only_child))
    R.minimum("descriptor-creating call sites", n, 6)
    R.assume("glibc's setmntent() opens its file with close-on-exec")
    R.assume("liburing sets close-on-exec on the ring descriptor it creates (kernel behaviour)")

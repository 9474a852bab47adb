"""Turn /repo's current working tree into one whole-program IR module (never executed)."""
import json, os, re, shutil, subprocess, tempfile, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("BFS_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LLVM = "/usr/lib/llvm-18/bin"


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (cmd, p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout


def ensure_tool():
    """Build the exporter (setup_cmd does this too; a check can rebuild it when absent)."""
    src = os.path.join(VERIF, "tool", "irexport.cpp")
    out = os.path.join(VERIF, "build", "irexport")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    flags = run([LLVM + "/llvm-config", "--cxxflags"]).decode().split()
    flags = [f for f in flags if not f.startswith("-std=")]
    tmp = out + ".%d.tmp" % os.getpid()
    run(["g++", "-O1", "-w", "-std=c++17", *flags, "-fexceptions", src, "-o", tmp,
         "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    os.replace(tmp, out)
    return out


# Extra -D settings for the configurations the thorough tier adds. gen/config.h is generated
# by ./configure, and every feature there is a plain macro, so a variant is the same tree
# with some features switched off.
VARIANTS = {
    "default": {},
    # Release build: assertions compiled out
    "ndebug": {"defs": ["-DNDEBUG"]},
    # no io_uring: only the portable synchronous worker path remains
    "nouring": {"undef": ["BFS_WITH_LIBURING"]},
    # fstatat() instead of statx(), readdir() instead of getdents()
    "portable": {"undef": ["BFS_WITH_LIBURING", "BFS_HAS_STATX", "BFS_HAS_STATX_SYSCALL", "BFS_HAS_GETDENTS",
                           "BFS_HAS_GETDENTS64", "BFS_HAS_GETDENTS64_SYSCALL"]},
}


def build(variant="default", keep=None):
    """Returns the parsed JSON module for REPO's current tree."""
    tool = ensure_tool()
    work = keep or tempfile.mkdtemp(prefix="bfs-sa-")
    try:
        files = run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "-co", "--exclude-standard"]).split(b"\0")
        for f in files:
            if not f:
                continue
            s = os.path.join(os.fsencode(REPO), f)
            d = os.path.join(os.fsencode(work), f)
            if not os.path.lexists(s):
                continue
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy2(s, d, follow_symlinks=False)
        env = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
               "HOME": work, "LC_ALL": "C.UTF-8", "MAKEFLAGS": "-j8"}
        run(["./configure", "CC=gcc"], cwd=work, env=env)
        if not os.path.exists(work + "/gen/config.h"):
            raise BuildError("configure produced no gen/config.h")
        with open(work + "/gen/version.i", "w") as f:
            f.write('"static-analysis"\n')
        v = VARIANTS[variant]
        if v.get("undef"):
            p = work + "/gen/config.h"
            s = open(p).read()
            hit = 0
            for m in v["undef"]:
                s, n = re.subn(r"(?m)^(#\s*define\s+%s)\s+true\s*$" % m, r"\1 false", s)
                hit += n
            if not hit:
                raise BuildError("variant %s changed nothing in config.h" % variant)
            open(p, "w").write(s)
        srcs = sorted(glob.glob(work + "/src/*.c"))
        if len(srcs) < 20:
            raise BuildError("only %d source files" % len(srcs))
        os.makedirs(work + "/ir", exist_ok=True)

        def cc(c):
            o = work + "/ir/" + os.path.basename(c)[:-2] + ".bc"
            run([LLVM + "/clang", "-std=c17", "-g", "-pthread", "-Isrc", "-Igen", "-include", "src/prelude.h",
                 "-DBFS_USE_TARGET_CLONES=0", *v.get("defs", []), "-O0", "-Xclang", "-disable-O0-optnone", "-w",
                 "-emit-llvm", "-c", os.path.relpath(c, work), "-o", o], cwd=work, env=env)
            return o
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(cc, srcs))
        run([LLVM + "/llvm-link", *bcs, "-o", work + "/all.bc"])
        run([LLVM + "/opt", "-passes=mem2reg", work + "/all.bc", "-o", work + "/m.bc"])
        run([tool, work + "/m.bc", work + "/m.json"])
        with open(work + "/m.json") as f:
            mod = json.load(f)
        mod["units"] = len(srcs)
        mod["variant"] = variant
        return mod
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)

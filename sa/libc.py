"""Facts about external functions (C library, POSIX, Linux, liburing, oniguruma, libacl, libcap)."""
INF = float("inf")
F = frozenset
NEG0 = (-1, INF, F())        # -1 or a non-negative value
ERR = (-1, 0, F())           # 0 or -1
NONNEG = (0, INF, F())

NORETURN = {"abort", "exit", "_exit", "_Exit", "quick_exit", "__assert_fail", "longjmp"}

# Return value ranges (documented contracts)
RET = {
    "open": NEG0, "open64": NEG0, "openat": NEG0, "openat64": NEG0, "dup": NEG0, "dup2": NEG0, "dup3": NEG0,
    "fcntl": NEG0, "fcntl64": NEG0, "read": NEG0, "write": NEG0, "readlinkat": NEG0, "getdents64": NEG0,
    "close": ERR, "fstatat64": ERR, "fstatat": ERR, "statx": ERR, "unlinkat": ERR, "faccessat": ERR, "fchdir": ERR,
    "fclose": ERR, "fflush": ERR, "pipe": ERR, "pipe2": ERR, "sigaction": ERR, "setrlimit64": ERR, "getrlimit64": ERR,
    "timer_create": ERR, "timer_settime": ERR, "clock_gettime": ERR, "sem_init": ERR, "sem_post": ERR, "sem_wait": ERR,
    "_Fork": NEG0, "fork": NEG0, "vfork": NEG0, "waitpid": NEG0, "execve": (-1, -1, F()),
    "pthread_mutex_lock": NONNEG, "pthread_mutex_unlock": NONNEG, "pthread_mutex_trylock": NONNEG,
    "pthread_create": NONNEG, "pthread_join": NONNEG, "pthread_mutex_init": NONNEG, "pthread_cond_init": NONNEG,
    "pthread_sigmask": NONNEG, "posix_spawn": NONNEG, "posix_spawnp": NONNEG, "posix_memalign": NONNEG,
    "posix_spawn_file_actions_init": NONNEG, "posix_spawnattr_init": NONNEG,
    "fileno": NEG0, "strlen": NONNEG, "strnlen": NONNEG, "strcspn": NONNEG, "strspn": NONNEG, "isatty": (0, 1, F()),
    "getxattr": NEG0, "lgetxattr": NEG0, "listxattr": NEG0, "llistxattr": NEG0, "getdelim": NEG0,
    "snprintf": NEG0, "vsnprintf": NEG0,
    "getpid": (1, INF, F()), "umask": NONNEG,
}

# Functions that return a pointer that may be NULL
MAY_NULL = {"malloc", "calloc", "realloc", "reallocarray", "strdup", "strndup", "fopen", "fopen64", "fdopen", "opendir", "fdopendir",
            "readdir", "readdir64", "strchr", "strrchr", "strstr", "strpbrk", "memchr", "memrchr", "getenv", "setmntent", "getmntent",
            "localtime_r", "gmtime_r", "setlocale", "newlocale", "duplocale", "acl_get_file", "cap_get_file", "cap_to_text",
            "getpwuid", "getgrgid", "getpwnam", "getgrnam", "io_uring_get_probe_ring", "aligned_alloc", "strerror_l_maybe", "ctermid_maybe"}

RET_ARG0 = {"strcpy", "strcat", "memcpy", "memmove", "memset"}

# Functions that never set errno
NO_ERRNO = {"__errno_location", "strlen", "strnlen", "strcmp", "strncmp", "strcasecmp", "strchr", "strrchr", "strstr", "strpbrk",
            "strspn", "strcspn", "memchr", "memcmp", "memcpy", "memmove", "memset", "strcpy", "stpcpy", "free", "abort", "_Exit",
            "sigemptyset", "sigfillset", "sigaddset", "sigismember", "getpid", "getppid", "umask", "gnu_dev_major", "gnu_dev_minor",
            "gnu_dev_makedev", "__ctype_b_loc", "clearerr", "ferror", "pthread_mutex_lock", "pthread_mutex_unlock",
            "pthread_mutex_trylock", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_sigmask",
            "pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_join", "pthread_create",
            "pthread_setname_np", "pthread_once", "iswprint", "iswspace", "wcwidth", "__libc_current_sigrtmin", "__libc_current_sigrtmax",
            "posix_spawn_file_actions_init", "posix_spawn_file_actions_destroy", "posix_spawnattr_init", "posix_spawnattr_destroy",
            "posix_memalign", "llvm.x86.sse2.pause", "__sched_cpucount", "getenv", "nl_langinfo", "uselocale"}

# Functions that do not write through their pointer arguments
READONLY_ARGS = {"strlen", "strnlen", "strcmp", "strncmp", "strcasecmp", "strchr", "strrchr", "strstr", "strpbrk", "strspn", "strcspn",
                 "memchr", "memcmp", "strdup", "strndup", "open", "open64", "openat", "openat64", "unlinkat", "faccessat",
                 "fnmatch", "strcoll", "write", "fputs", "fwrite", "fprintf", "vfprintf", "printf", "perror", "fflush",
                 "execve", "getenv", "__errno_location", "sigismember", "fputc", "close", "free",
                 "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_cond_wait", "pthread_cond_signal",
                 "pthread_cond_broadcast", "ferror", "fileno", "clearerr", "strsignal", "strtol", "setlocale", "sem_post", "sem_wait"}

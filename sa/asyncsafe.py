"""POSIX.1-2024 async-signal-safe functions (plus Linux/glibc thin system-call wrappers and pure functions)."""
SAFE = set("""
_Exit _exit abort accept access aio_error aio_return aio_suspend alarm bind cfgetispeed cfgetospeed cfsetispeed cfsetospeed chdir chmod chown
clock_gettime close connect creat creat64 dup dup2 dup3 execl execle execv execve faccessat fchdir fchmod fchmodat fchown fchownat fcntl fcntl64 fdatasync
fexecve ffs fork _Fork fstat fstat64 fstatat fstatat64 fsync ftruncate ftruncate64 futimens getegid geteuid getgid getgroups getpeername getpgrp getpid
getppid getsockname getsockopt getuid htonl htons kill link linkat listen longjmp lseek lseek64 lstat lstat64 memccpy memchr memcmp memcpy memmove memset mkdir
mkdirat mkfifo mkfifoat mknod mknodat ntohl ntohs open open64 openat openat64 pause pipe pipe2 poll posix_trace_event pread pread64 pselect pthread_kill
pthread_self pthread_sigmask pwrite pwrite64 raise read readlink readlinkat recv recvfrom recvmsg rename renameat rmdir select sem_post send sendmsg
sendto setgid setpgid setsid setsockopt setuid shutdown sigaction sigaddset sigdelset sigemptyset sigfillset sigismember siglongjmp
signal sigpause sigpending sigprocmask sigqueue sigset sigsuspend sleep sockatmark socket socketpair stat stat64 stpcpy stpncpy strcat strchr strcmp
strcpy strcspn strlen strncat strncmp strncpy strnlen strpbrk strrchr strspn strstr strtok_r symlink symlinkat tcdrain tcflow tcflush
tcgetattr tcgetpgrp tcgetwinsize tcsendbreak tcsetattr tcsetpgrp tcsetwinsize time timer_getoverrun timer_gettime timer_settime times umask uname unlink
unlinkat utime utimensat utimes va_arg va_copy va_end va_start wait waitpid write writev
__errno_location syscall ioctl getrlimit getrlimit64 setrlimit setrlimit64 prlimit64 statx __libc_current_sigrtmin __libc_current_sigrtmax
sched_yield getrandom memrchr strchrnul
""".split())


def safe(name):
    return name in SAFE or name.startswith("llvm.")

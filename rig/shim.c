// LD_PRELOAD shim for rsh: makes chosen calls of fork and pipe fail, and delays the process around the
// calls that matter for its children. It acts on the shell and on what it forks, never on programs that
// were exec'ed (those are static). Everything is decided by the environment at start:
//   SHIM_FAIL=fork:K[:N]|pipe:K[:N]  the K-th call (from 1, counted from the start of the shell process) and the
//                                    N-1 following ones fail with EAGAIN / EMFILE
//   SHIM_DELAY=SEED:PERMILLE:MAXUS   before and after fork, waitpid, sigprocmask, execv, kill, pipe, close, ...
//                                    sleep for a pseudo-random time
//   SHIM_ALLOC=SEED:PERMILLE:US:SIGS the memory allocator is slow at times (US microseconds) when SIGCHLD is not blocked,
//                                    and interrupted by the signals of the mask SIGS at times if they are caught and
//                                    not blocked; a call of it from a handler that interrupted another one is noted
//   SHIM_ERRNO=N                     with this error instead
//   SHIM_LOG=PATH                    appends what was done (one line per injected event, and totals when exiting)
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static int inited, fail_what, fail_k, fail_n = 1;
static int nfork, npipe, ndelay, depth, fail_errno;
static unsigned permille, maxus; static uint64_t rng;
static char logpath[4096];
static unsigned alloc_permille, alloc_us, alloc_sigs; static uint64_t alloc_rng;
static int nslow, nreenter, nraise, nagain;
static __thread int in_alloc __attribute__((tls_model("initial-exec")));

static void init(void) {
    if (inited) return; inited = 1;
    const char *e = getenv("SHIM_FAIL");
    if (e) {
        fail_what = *e == 'f' ? 1 : 2;
        const char *c = strchr(e, ':'); if (c) { fail_k = atoi(c + 1); c = strchr(c + 1, ':'); if (c) fail_n = atoi(c + 1); }
    }
    e = getenv("SHIM_ERRNO"); if (e) fail_errno = atoi(e);
    e = getenv("SHIM_DELAY");
    if (e) { unsigned long long s; sscanf(e, "%llu:%u:%u", &s, &permille, &maxus); rng = s * 2654435761u + 88172645463325252ull; }
    e = getenv("SHIM_ALLOC");
    if (e) { unsigned long long v; unsigned a, b, c = 0; sscanf(e, "%llu:%u:%u:%u", &v, &a, &b, &c); alloc_sigs = c; alloc_rng = v * 2654435761u + 88172645463325252ull; alloc_us = b; alloc_permille = a; }
    e = getenv("SHIM_LOG"); if (e) snprintf(logpath, sizeof logpath, "%s", e);
    unsetenv("SHIM_FAIL"); unsetenv("SHIM_ERRNO"); unsetenv("SHIM_DELAY"); unsetenv("SHIM_ALLOC"); unsetenv("SHIM_LOG"); unsetenv("LD_PRELOAD");
}
__attribute__((constructor)) static void ctor(void) { init(); }

static void note(const char *what, int k) {
    if (!logpath[0]) return;
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    char b[160]; int n = snprintf(b, sizeof b, "%d %s %d %d %lld\n", getpid(), what, k, depth, t.tv_sec * 1000000000LL + t.tv_nsec);
    int fd = syscall(SYS_open, logpath, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666);
    if (fd >= 0) { syscall(SYS_write, fd, b, n); syscall(SYS_close, fd); }
}
static void delay(void) {
    if (!permille) return;
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    if (rng % 1000 >= permille) return;
    unsigned us = (rng >> 20) % (maxus + 1);
    int e = errno; ndelay++;
    struct timespec t = {us / 1000000, us % 1000000 * 1000};
    syscall(SYS_nanosleep, &t, NULL);
    errno = e;
}
#define REAL(name, ...) static __typeof__(&name) real; if (!real) real = dlsym(RTLD_NEXT, #name)

pid_t fork(void) {
    REAL(fork); init();
    delay();
    int k = ++nfork;
    if (fail_what == 1 && k >= fail_k && k < fail_k + fail_n) { note("failfork", k); errno = fail_errno ? fail_errno : EAGAIN; return -1; }
    if (!depth) note("fork", k);
    pid_t p = real();
    if (p == 0) { depth++; in_alloc = 0; rng = rng * 6364136223846793005ull + getpid(); if (!rng) rng = 1; }
    delay();
    return p;
}
static int do_pipe(int *fds, int flags) {
    int k = ++npipe;
    if (fail_what == 2 && k >= fail_k && k < fail_k + fail_n) { note("failpipe", k); errno = fail_errno ? fail_errno : EMFILE; return -1; }
    if (!depth) note("pipe", k);
    return syscall(SYS_pipe2, fds, flags);
}
int pipe(int *fds) { init(); delay(); return do_pipe(fds, 0); }
int pipe2(int *fds, int flags) { init(); delay(); return do_pipe(fds, flags); }
// another signal arrives before the caller has looked at the error
static void again(void) {
    if (errno != EINTR || depth || !(alloc_sigs >> SIGINT & 1)) return;
    uint64_t m = 0;
    syscall(SYS_rt_sigprocmask, SIG_BLOCK, NULL, &m, 8);
    struct { void (*h)(int); unsigned long f, r, mask; } a = {0};
    syscall(SYS_rt_sigaction, SIGINT, NULL, &a, 8);
    if (!(m >> (SIGINT - 1) & 1) && a.h != SIG_DFL && a.h != SIG_IGN) { nagain++; errno = EINTR; syscall(SYS_tgkill, getpid(), syscall(SYS_gettid), SIGINT); }
    else errno = EINTR;
}
pid_t waitpid(pid_t p, int *st, int fl) { REAL(waitpid); init(); delay(); pid_t r = real(p, st, fl); delay(); if (r < 0) again(); return r; }
ssize_t read(int fd, void *b, size_t n) { REAL(read); ssize_t r = real(fd, b, n); if (r < 0) again(); return r; }
int sigprocmask(int how, const sigset_t *s, sigset_t *o) { REAL(sigprocmask); init(); delay(); int r = real(how, s, o); delay(); return r; }
int pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { REAL(pthread_sigmask); init(); delay(); int r = real(how, s, o); delay(); return r; }
int execv(const char *p, char *const a[]) { REAL(execv); init(); delay(); return real(p, a); }
int execve(const char *p, char *const a[], char *const e[]) { REAL(execve); init(); delay(); return real(p, a, e); }
int dup2(int a, int b) { REAL(dup2); init(); delay(); return real(a, b); }
int kill(pid_t p, int s) { REAL(kill); init(); delay(); int r = real(p, s); delay(); return r; }
int setpgid(pid_t p, pid_t g) { REAL(setpgid); init(); delay(); int r = real(p, g); delay(); return r; }

// the allocator: entered twice in a thread means that a signal handler interrupted it and called it again
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static void enter(const char *what) {
    if (!alloc_permille || depth) return;
    if (in_alloc++) { nreenter++; if (nreenter < 20) note(what, nreenter); return; }
    alloc_rng ^= alloc_rng << 13; alloc_rng ^= alloc_rng >> 7; alloc_rng ^= alloc_rng << 17;
    if (alloc_rng % 1000 >= alloc_permille) return;
    uint64_t m = 0;
    syscall(SYS_rt_sigprocmask, SIG_BLOCK, NULL, &m, 8);
    int e = errno;
    int s = alloc_rng >> 33 & 1 ? SIGINT : SIGTSTP;
    if (alloc_sigs >> s & 1 && !(m >> (s - 1) & 1) && (alloc_rng >> 40) % 4 == 0) {
        struct { void (*h)(int); unsigned long f, r, mask; } a = {0};
        syscall(SYS_rt_sigaction, s, NULL, &a, 8);
        if (a.h != SIG_DFL && a.h != SIG_IGN) { nraise++; syscall(SYS_tgkill, getpid(), syscall(SYS_gettid), s); errno = e; return; }
    }
    if (m >> (SIGCHLD - 1) & 1) return;
    nslow++;
    struct timespec t = {0, alloc_us * 1000l};
    syscall(SYS_nanosleep, &t, NULL);
    errno = e;
}
static void leave(void) { if (alloc_permille && !depth && in_alloc) in_alloc--; }
void *malloc(size_t n) { enter("reentered-malloc"); void *p = __libc_malloc(n); leave(); return p; }
void *calloc(size_t n, size_t k) { enter("reentered-calloc"); void *p = __libc_calloc(n, k); leave(); return p; }
void *realloc(void *o, size_t n) { enter("reentered-realloc"); void *p = __libc_realloc(o, n); leave(); return p; }
void free(void *o) { enter("reentered-free"); __libc_free(o); leave(); }
__attribute__((destructor)) static void dtor(void) { if (!depth) { note("total-fork", nfork); note("total-pipe", npipe); note("total-delay", ndelay); if (alloc_permille) { note("total-slow", nslow); note("total-raised", nraise); note("total-again", nagain); note("total-reentered", nreenter); } } }

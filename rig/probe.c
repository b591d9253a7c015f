// The command that the workloads run. It is hard-linked under many names; the name decides what it
// does, and everything it sees of its start (arguments, environment, directory, descriptors, signal
// state, process ids) is appended to the log of the case with one write. Static, no environment needed.
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static char *buf; static size_t len, cap;
static char home[4096];
static int logfd = -1;
extern char **environ;

static void put(const char *s, size_t n) {
    if (len + n + 1 > cap) { cap = (len + n + 1) * 2; buf = realloc(buf, cap); }
    memcpy(buf + len, s, n); len += n;
}
static void puts_(const char *s) { put(s, strlen(s)); }
static void putn(long long v) { char t[32]; put(t, snprintf(t, sizeof t, "%lld", v)); }
static void putq(const char *s, size_t n) {
    puts_("\"");
    for (size_t i = 0; i < n; i++) {
        unsigned char c = s[i];
        if (c < 32 || c >= 127 || c == '"' || c == '\\') { char t[8]; put(t, snprintf(t, sizeof t, "\\u%04x", c)); }
        else put((char *)&s[i], 1);
    }
    puts_("\"");
}
static void key(const char *k) { puts_(",\""); puts_(k); puts_("\":"); }
static long long now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000LL + t.tv_nsec; }
static void flushlog(void) { puts_("}\n"); if (logfd >= 0) { ssize_t r = write(logfd, buf, len); (void)r; } len = 0; }
static void begin(const char *e) { len = 0; puts_("{\"e\":\""); puts_(e); puts_("\",\"t\":"); putn(now()); key("pid"); putn(getpid()); }

static void fdtable(const char *dir) {
    DIR *d = opendir(dir); int first = 1;
    puts_("{");
    if (d) {
        struct dirent *e; int self = !strcmp(dir, "/proc/self/fd");
        while ((e = readdir(d))) {
            if (e->d_name[0] == '.') continue;
            int n = atoi(e->d_name);
            if (self && (n == dirfd(d) || n == logfd)) continue;
            char p[300], t[4096]; snprintf(p, sizeof p, "%s/%s", dir, e->d_name);
            ssize_t r = readlink(p, t, sizeof t); if (r < 0) r = 0;
            if (!first) puts_(","); first = 0;
            puts_("\""); puts_(e->d_name); puts_("\":[");
            putq(t, r); puts_(",");
            putn(self ? fcntl(n, F_GETFL) : 0); puts_(",");
            putn(self ? (long long)lseek(n, 0, SEEK_CUR) : 0);
            puts_("]");
        }
        closedir(d);
    }
    puts_("}");
}
// the children of the parent apart from us, as "pid state"; returns their number
static int siblings(int show) {
    char p[128], t[65536]; int n = 0; snprintf(p, sizeof p, "/proc/%d/task/%d/children", getppid(), getppid());
    int fd = open(p, O_RDONLY | O_CLOEXEC); ssize_t r = fd < 0 ? 0 : read(fd, t, sizeof t - 1); if (fd >= 0) close(fd);
    if (r < 0) r = 0; t[r] = 0;
    for (char *s = strtok(t, " \n"); s; s = strtok(NULL, " \n")) {
        if (atoi(s) == getpid()) continue;
        n++;
        if (show) {
            char q[128], u[600]; snprintf(q, sizeof q, "/proc/%s/stat", s); int f = open(q, O_RDONLY | O_CLOEXEC);
            ssize_t k = f < 0 ? 0 : read(f, u, sizeof u - 1); if (f >= 0) close(f); if (k < 0) k = 0; u[k] = 0;
            char *e = strrchr(u, ')'); if (n > 1) puts_(","); char w[64]; snprintf(w, sizeof w, "%s %c", s, e ? e[2] : '?'); putq(w, strlen(w));
        }
    }
    return n;
}
static void status_fields(void) {
    FILE *f = fopen("/proc/self/status", "r"); char l[512];
    while (f && fgets(l, sizeof l, f)) {
        const char *k = NULL; char *v = strchr(l, '\t');
        if (!strncmp(l, "SigBlk", 6)) k = "blk"; else if (!strncmp(l, "SigIgn", 6)) k = "ign";
        else if (!strncmp(l, "SigCgt", 6)) k = "cgt";
        if (k && v) { v++; v[strcspn(v, "\n")] = 0; key(k); putq(v, strlen(v)); }
    }
    if (f) fclose(f);
}

static uint32_t crctab[256];
static void crcinit(void) { for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1; crctab[i] = c; } }
static uint32_t crc(uint32_t c, const unsigned char *p, size_t n) { c = ~c; while (n--) c = crctab[(c ^ *p++) & 255] ^ (c >> 8); return ~c; }

static long long rd, wr; static uint32_t rh, wh;
static int weof;      // writing failed
static void out(int fd, const char *p, size_t n) {
    while (n && !weof) {
        ssize_t r = write(fd, p, n);
        if (r < 0) { if (errno == EINTR) continue; weof = errno; return; }
        wr += r; wh = crc(wh, (unsigned char *)p, r); p += r; n -= r;
    }
}
static ssize_t in(int fd, char *p, size_t n) {
    ssize_t r;
    do r = read(fd, p, n); while (r < 0 && errno == EINTR);
    if (r > 0) { rd += r; rh = crc(rh, (unsigned char *)p, r); }
    return r;
}
static void finish(int code) {
    begin("X"); key("code"); putn(code); key("rd"); putn(rd); key("rh"); putn(rh); key("wr"); putn(wr); key("wh"); putn(wh);
    key("werr"); putn(weof);
    flushlog(); _exit(code);
}
static char *unesc(const char *s, size_t *n) {
    char *o = malloc(strlen(s) + 1), *p = o;
    while (*s) {
        if (*s == '\\' && s[1]) {
            s++;
            if (*s == 'n') *p++ = '\n'; else if (*s == 't') *p++ = '\t'; else if (*s == 's') *p++ = ' ';
            else if (*s == 'x' && s[1] && s[2]) { char h[3] = {s[1], s[2], 0}; *p++ = strtol(h, NULL, 16); s += 2; }
            else *p++ = *s;
            s++;
        } else *p++ = *s++;
    }
    *p = 0; *n = p - o; return o;
}
static void msleep(long ms) { struct timespec t = {ms / 1000, ms % 1000 * 1000000}; while (nanosleep(&t, &t) && errno == EINTR); }

int main(int argc, char **argv) {
    char exe[4096]; ssize_t r = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (r < 0) r = 0; exe[r] = 0;
    const char *nm = strrchr(exe, '/'); nm = nm ? nm + 1 : exe;
    if (!strcmp(nm, "nop")) { if (argc > 2) write(1, argv[2], strlen(argv[2])); _exit(argc > 1 ? atoi(argv[1]) : 0); }      // nop STATUS TEXT, without a record
    if (!strcmp(nm, "nst")) { raise(SIGSTOP); _exit(argc > 1 ? atoi(argv[1]) : 0); }
    if (!strcmp(nm, "nki")) { signal(SIGTERM, SIG_DFL); raise(SIGTERM); _exit(99); }
    snprintf(home, sizeof home, "%s", exe);
    for (;;) {
        char *s = strrchr(home, '/'); if (!s) { home[0] = 0; break; }
        *s = 0;
        char p[4200]; snprintf(p, sizeof p, "%s/.plog", home);
        int fd = open(p, O_WRONLY | O_APPEND | O_CLOEXEC);
        if (fd >= 0) { logfd = fcntl(fd, F_DUPFD_CLOEXEC, 200); close(fd); break; }
    }
    const char *name = strrchr(exe, '/'); name = name ? name + 1 : exe;
    crcinit();

    begin("S"); key("ppid"); putn(getppid()); key("pgid"); putn(getpgrp()); key("sid"); putn(getsid(0));
    key("exe"); putq(exe, strlen(exe));
    key("argv"); puts_("[");
    for (int i = 0; i < argc; i++) { if (i) puts_(","); putq(argv[i], strlen(argv[i])); }
    puts_("]"); key("env"); puts_("[");
    for (int i = 0; environ && environ[i]; i++) { if (i) puts_(","); putq(environ[i], strlen(environ[i])); }
    puts_("]");
    char cwd[8192]; if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
    key("cwd"); putq(cwd, strlen(cwd));
    status_fields();
    key("fds"); fdtable("/proc/self/fd");
    if (!strcmp(name, "pfd")) {
        for (int k = 0, ok = 0; k < 500 && ok < 2; k++) {      // once the parent has settled down
            char p[64], t[600]; snprintf(p, sizeof p, "/proc/%d/stat", getppid()); int fd = open(p, O_RDONLY | O_CLOEXEC);
            ssize_t n = fd < 0 ? 0 : read(fd, t, sizeof t - 1); if (fd >= 0) close(fd); if (n < 0) n = 0; t[n] = 0;
            char *q = strrchr(t, ')'); if (q && q[1] == ' ' && q[2] == 'S') ok++; else ok = 0;
            struct timespec d = {0, 300000}; nanosleep(&d, NULL);
        } char p[64]; snprintf(p, sizeof p, "/proc/%d/fd", getppid()); key("pfds"); fdtable(p); }
    if (!strcmp(name, "pfd") && argc > 1) {      // and waits for the parent to have no other children
        for (int k = 0; k < 3000 && siblings(0); k++) { struct timespec d = {0, 1000000}; nanosleep(&d, NULL); }
        key("kids"); puts_("["); siblings(1); puts_("]");
    }
    if (!strcmp(name, "pst")) {      // how big the parent is, and the time it has used
        char p[64], t[600]; snprintf(p, sizeof p, "/proc/%d/status", getppid()); FILE *f = fopen(p, "r"); char l[512];
        while (f && fgets(l, sizeof l, f)) {
            if (!strncmp(l, "VmRSS:", 6)) { key("rss"); putn(atol(l + 6)); }
            if (!strncmp(l, "VmData:", 7)) { key("data"); putn(atol(l + 7)); }
            if (!strncmp(l, "Threads:", 8)) { key("threads"); putn(atol(l + 8)); }
        }
        if (f) fclose(f);
        snprintf(p, sizeof p, "/proc/%d/stat", getppid()); int fd = open(p, O_RDONLY | O_CLOEXEC);
        ssize_t n = fd < 0 ? 0 : read(fd, t, sizeof t - 1); if (fd >= 0) close(fd); if (n < 0) n = 0; t[n] = 0;
        char *q = strrchr(t, ')'); unsigned long u = 0, s = 0;
        if (q) sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &s);
        key("user"); putn(u); key("sys"); putn(s);
        snprintf(p, sizeof p, "/proc/%d/fd", getppid()); DIR *d = opendir(p); int k = 0; struct dirent *de;
        while (d && (de = readdir(d))) k += de->d_name[0] != '.';
        if (d) closedir(d);
        key("nfd"); putn(k);
        key("others"); putn(siblings(0));
    }
    flushlog();

    const char *a1 = argc > 1 ? argv[1] : "", *a2 = argc > 2 ? argv[2] : "";
    static char b[65536];
    if (!strcmp(name, "rc")) finish(atoi(a1));
    if (!strcmp(name, "mem")) {      // starts a program as a member of its own process group and ends as it does
        pid_t c = fork(); int st = 0;
        if (c == 0) { execv(argv[1], argv + 2); _exit(127); }
        begin("L"); key("child"); putn(c); flushlog();
        while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
        _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st));
    }
    if (!strcmp(name, "die")) { signal(atoi(a1), SIG_DFL); raise(atoi(a1)); finish(99); }
    if (!strcmp(name, "put") || !strcmp(name, "pute")) {
        for (int i = 1; i < argc; i++) { size_t n; char *p = unesc(argv[i], &n); out(name[3] ? 2 : 1, p, n); }
        finish(weof ? 1 : 0);
    }
    if (!strcmp(name, "prt")) {
        for (int i = 1; i < argc; i++) { out(1, "<", 1); out(1, argv[i], strlen(argv[i])); out(1, ">\n", 2); }
        finish(weof ? 1 : 0);
    }
    if (!strcmp(name, "pv")) { const char *v = getenv(a1); out(1, v ? v : "-", v ? strlen(v) : 1); out(1, "\n", 1); finish(0); }
    if (!strcmp(name, "pcwd")) { out(1, cwd, strlen(cwd)); out(1, "\n", 1); finish(0); }
    if (!strcmp(name, "gen")) {
        long long n = atoll(a1), i = 0; unsigned seed = strtoul(a2, NULL, 10); size_t u = 0;
        while (n > 0 && !weof) {
            u = 0;
            while (n > 0 && u + 25 <= sizeof b) { char t[64]; int k = snprintf(t, sizeof t, "%08x:%015lld;", seed, i++); if (k > n) k = n; memcpy(b + u, t, k); u += k; n -= k; }
            out(1, b, u);
        }
        finish(weof ? 1 : 0);
    }
    if (!strcmp(name, "cat")) {
        if (argc > 1) for (int i = 1; i < argc; i++) {
            int fd = open(argv[i], O_RDONLY); if (fd < 0) finish(1);
            while ((r = in(fd, b, sizeof b)) > 0) out(1, b, r);
            close(fd);
        }
        else while ((r = in(0, b, sizeof b)) > 0 && !weof) out(1, b, r);
        finish(weof || r < 0 ? 1 : 0);
    }
    if (!strcmp(name, "xor")) {
        int k = atoi(a1);
        while ((r = in(0, b, sizeof b)) > 0 && !weof) { for (ssize_t i = 0; i < r; i++) b[i] ^= k; out(1, b, r); }
        finish(weof || r < 0 ? 1 : 0);
    }
    if (!strcmp(name, "sink") || !strcmp(name, "cnt")) {
        while ((r = in(0, b, sizeof b)) > 0) {}
        if (name[0] == 'c') { char t[64]; out(1, t, snprintf(t, sizeof t, "%lld %08x\n", rd, rh)); }
        finish(r < 0 ? 1 : atoi(a1));
    }
    if (!strcmp(name, "head")) {
        long long n = atoll(a1);
        while (n > 0 && (r = in(0, b, n < (long long)sizeof b ? n : (long long)sizeof b)) > 0) { out(1, b, r); n -= r; }
        close(0);
        finish(0);
    }
    if (!strcmp(name, "wfd")) { for (int i = 2; i < argc; i++) { size_t n; char *p = unesc(argv[i], &n); out(atoi(a1), p, n); } finish(weof ? 1 : 0); }
    if (!strcmp(name, "rfd")) { while ((r = in(atoi(a1), b, sizeof b)) > 0) {} finish(r < 0 ? 1 : 0); }
    if (!strcmp(name, "slp")) { msleep(atol(a1)); finish(argc > 2 ? atoi(a2) : 0); }
    if (!strcmp(name, "meet")) {     // meet DIR N I: come together with N-1 others, all of which have to be running at the same time
        char p[4500]; int n = atoi(a2);
        snprintf(p, sizeof p, "%s/ctl/%s.%s", home, a1, argc > 3 ? argv[3] : "0"); int fd = open(p, O_CREAT | O_WRONLY | O_CLOEXEC, 0666); if (fd >= 0) close(fd);
        for (int k = 0; k < 30000; k++) {
            int all = 1;
            for (int i = 0; i < n; i++) { snprintf(p, sizeof p, "%s/ctl/%s.%d", home, a1, i); if (access(p, F_OK)) all = 0; }
            if (all) { while (argc > 4 && (r = in(0, b, sizeof b)) > 0) out(1, b, r); finish(argc > 5 ? atoi(argv[5]) : 0); }
            msleep(1);
        }
        finish(77);
    }
    if (!strcmp(name, "stp")) {      // stp SIG CODE: stop, exit with CODE once continued
        raise(atoi(a1)); begin("R"); flushlog(); finish(atoi(a2));
    }
    if (!strcmp(name, "slf")) { kill(0, atoi(a1)); msleep(1); finish(96); }      // a signal to its own process group
    if (!strcmp(name, "lnk")) finish(link(a1, a2) ? 1 : 0);
    if (!strcmp(name, "sln")) finish(symlink(a1, a2) ? 1 : 0);
    if (!strcmp(name, "del")) finish(unlink(a1) ? 1 : 0);
    if (!strcmp(name, "ren")) finish(rename(a1, a2) ? 1 : 0);
    if (!strcmp(name, "mkd")) finish(mkdir(a1, 0755) ? 1 : 0);
    if (!strcmp(name, "hold")) {     // does what ctl/NAME says: "x N" exit, "k N" signal, "s N" stop
        char p[4500]; snprintf(p, sizeof p, "%s/ctl/%s", home, a1);
        for (long k = 0; k < 1000000; k++) {
            int fd = open(p, O_RDONLY | O_CLOEXEC);
            if (fd >= 0) {
                char c[64]; ssize_t n = read(fd, c, sizeof c - 1); close(fd); if (n < 0) n = 0; c[n] = 0;
                unlink(p);
                int v = atoi(c + (n > 1 ? 2 : 0));
                if (c[0] == 'x') finish(v);
                if (c[0] == 'k') { signal(v, SIG_DFL); raise(v); }
                if (c[0] == 'w') out(1, c + 2, n - 2);
                if (c[0] == 's') { raise(v); begin("R"); flushlog(); }
            }
            msleep(2);
            if (k % 500 == 499 && getppid() == 1) _exit(98);
        }
        finish(97);
    }
    finish(0);
}

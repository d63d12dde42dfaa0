/* LD_PRELOAD fault shim: VSHIM="op:path part:nth:errno[:sticky];..."  errno -9 = die by SIGKILL before the call, -8 = after it. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
static struct { char op[16], part[128]; long nth, err, sticky, seen; } F[16];
static int nF = -1;
static void init(void) {
    nF = 0; const char *e = getenv("VSHIM"); if (!e) return;
    char *b = strdup(e), *sv = 0;
    for (char *t = strtok_r(b, ";", &sv); t && nF < 16; t = strtok_r(0, ";", &sv)) {
        char *c[5] = {0}, *s2 = 0; int n = 0;
        for (char *q = t; q && n < 5;) { char *nx = strchr(q, ':'); if (nx) *nx++ = 0; c[n++] = q; q = nx; }
        (void)s2;
        if (n < 4) continue;
        snprintf(F[nF].op, 16, "%s", c[0]); snprintf(F[nF].part, 128, "%s", c[1]);
        F[nF].nth = atol(c[2]); F[nF].err = atol(c[3]); F[nF].sticky = n > 4 ? atol(c[4]) : 0; nF++;
    }
}
static int after_kill;
static int hit(const char *op, const char *path) {
    if (nF < 0) init();
    after_kill = 0;
    for (int i = 0; i < nF; i++) if (!strcmp(F[i].op, op) && (!F[i].part[0] || (path && strstr(path, F[i].part)))) {
        long k = F[i].seen++;
        if (k == F[i].nth || (F[i].sticky && k > F[i].nth)) {
            if (F[i].err == -9) { kill(getpid(), SIGKILL); }
            if (F[i].err == -8) { after_kill = 1; return 0; }
            errno = (int)F[i].err; return 1;
        }
    }
    return 0;
}
static const char *fdp(int fd, char *b) { char l[64]; snprintf(l, 64, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, b, 4095); b[n < 0 ? 0 : n] = 0; return b; }
#define R(t, n, ...) static t (*r)(__VA_ARGS__); if (!r) r = dlsym(RTLD_NEXT, n)
#define A(x) do { __typeof__(x) v_ = (x); if (after_kill) kill(getpid(), SIGKILL); return v_; } while (0)
ssize_t write(int fd, const void *p, size_t n) { R(ssize_t, "write", int, const void *, size_t); char b[4096]; if (hit("write", fdp(fd, b))) return -1; A(r(fd, p, n)); }
ssize_t writev(int fd, const struct iovec *p, int n) { R(ssize_t, "writev", int, const struct iovec *, int); char b[4096]; if (hit("write", fdp(fd, b))) return -1; A(r(fd, p, n)); }
ssize_t pwrite(int fd, const void *p, size_t n, off_t o) { R(ssize_t, "pwrite", int, const void *, size_t, off_t); char b[4096]; if (hit("write", fdp(fd, b))) return -1; A(r(fd, p, n, o)); }
ssize_t pwrite64(int fd, const void *p, size_t n, off64_t o) { R(ssize_t, "pwrite64", int, const void *, size_t, off64_t); char b[4096]; if (hit("write", fdp(fd, b))) return -1; A(r(fd, p, n, o)); }
ssize_t read(int fd, void *p, size_t n) { R(ssize_t, "read", int, void *, size_t); char b[4096]; if (hit("read", fdp(fd, b))) return -1; A(r(fd, p, n)); }
FILE *fopen(const char *p, const char *m) { R(FILE *, "fopen", const char *, const char *); if (hit("open", p)) return 0; A(r(p, m)); }
FILE *fopen64(const char *p, const char *m) { R(FILE *, "fopen64", const char *, const char *); if (hit("open", p)) return 0; A(r(p, m)); }
int open(const char *p, int f, ...) { R(int, "open", const char *, int, ...); va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); if (hit("open", p)) return -1; A(r(p, f, m)); }
int open64(const char *p, int f, ...) { R(int, "open64", const char *, int, ...); va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); if (hit("open", p)) return -1; A(r(p, f, m)); }
int fclose(FILE *f) { R(int, "fclose", FILE *); char b[4096]; fdp(fileno(f), b); if (hit("close", b)) { int e = errno; r(f); errno = e; return EOF; } A(r(f)); }
int close(int fd) { R(int, "close", int); char b[4096]; fdp(fd, b); if (hit("close", b)) { int e = errno; r(fd); errno = e; return -1; } A(r(fd)); }
int mkdir(const char *p, mode_t m) { R(int, "mkdir", const char *, mode_t); if (hit("mkdir", p)) return -1; A(r(p, m)); }
int rename(const char *a, const char *c) { R(int, "rename", const char *, const char *); if (hit("rename", c)) return -1; A(r(a, c)); }
pid_t fork(void) { R(pid_t, "fork", void); if (hit("fork", "")) return -1; return r(); }
pid_t waitpid(pid_t p, int *s, int o) { R(pid_t, "waitpid", pid_t, int *, int); if (hit("wait", "")) return -1; return r(p, s, o); }
int system(const char *c) { R(int, "system", const char *); if (hit("system", c)) return -1; return r(c); }
ssize_t sendfile(int o, int i, off_t *f, size_t n) { R(ssize_t, "sendfile", int, int, off_t *, size_t); char b[4096]; if (hit("write", fdp(o, b))) return -1; A(r(o, i, f, n)); }
ssize_t copy_file_range(int i, off64_t *x, int o, off64_t *y, size_t n, unsigned f) { R(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned); char b[4096]; if (hit("write", fdp(o, b))) return -1; A(r(i, x, o, y, n, f)); }
time_t time(time_t *t) { if (getenv("VSHIMTIME")) { if (t) *t = 1000000000; return 1000000000; } R(time_t, "time", time_t *); return r(t); }
int gettimeofday(struct timeval *v, void *z) { if (getenv("VSHIMTIME")) { v->tv_sec = 1000000000; v->tv_usec = 0; return 0; } R(int, "gettimeofday", struct timeval *, void *); return r(v, z); }
int clock_gettime(clockid_t c, struct timespec *v) { if (getenv("VSHIMTIME")) { v->tv_sec = 1000000000; v->tv_nsec = 0; return 0; } R(int, "clock_gettime", clockid_t, struct timespec *); return r(c, v); }
int stat(const char *p, struct stat *b) { R(int, "stat", const char *, struct stat *); if (hit("stat", p)) return -1; return r(p, b); }
int statx(int d, const char *p, int f, unsigned m, struct statx *b) { R(int, "statx", int, const char *, int, unsigned, struct statx *); if (hit("stat", p)) return -1; return r(d, p, f, m, b); }
extern void *__libc_calloc(size_t, size_t);
static int busy;
void *calloc(size_t a, size_t b) { if (!busy && nF != -1) { busy = 1; char t[32]; snprintf(t, 32, "=%zu=", a * b); int h = hit("calloc", t); busy = 0; if (h) return 0; } return __libc_calloc(a, b); }
__attribute__((constructor)) static void start(void) { busy = 1; if (nF < 0) init(); busy = 0; }

/* Preloaded into a console application: logs, in order, what it does to the
 * files of one directory and which training iterations it announces, and ends
 * the process at the n-th of these events.
 *   FSOPS_DIR   the directory            FSOPS_LOG  where to log
 *   FSOPS_KILL  event to die at (0: none) FSOPS_HALF 1: a write is torn, not lost
 *   FSOPS_KILLON  or the text of the event, as logged, to die at */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int logfd = -2, events, kill_at, half;
static char dir[512], kill_on[256];
static char names[1024][160];
static char line[256];
static int linelen;
static int inside_out;
#define REAL(name, type) static type real; if (!real) real = (type)dlsym(RTLD_NEXT, name)

static void init(void) {
    if (logfd != -2) return;
    const char *d = getenv("FSOPS_DIR"), *l = getenv("FSOPS_LOG"), *k = getenv("FSOPS_KILL"), *h = getenv("FSOPS_HALF"), *o = getenv("FSOPS_KILLON");
    typedef int (*openf)(const char *, int, ...);
    REAL("open", openf);
    snprintf(dir, sizeof dir, "%s/", d ? d : "/nonexistent");
    kill_at = k ? atoi(k) : 0;
    snprintf(kill_on, sizeof kill_on, "%s", o ? o : "");
    half = h ? atoi(h) : 0;
    logfd = l ? real(l, O_WRONLY | O_CREAT | O_APPEND, 0644) : -1;
}
static void put(const char *fmt, ...) {
    char b[600];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    typedef ssize_t (*writef)(int, const void *, size_t);
    REAL("write", writef);
    if (logfd >= 0) real(logfd, b, n);
}
static void die(void) { put("killed\n"); kill(getpid(), SIGKILL); for (;;) pause(); }
/* one more event; 1 if this is the one to die at */
static int event(const char *what, const char *name) {
    char b[400];
    snprintf(b, sizeof b, "%s %s", what, name);
    return ++events == kill_at || (kill_on[0] && !strcmp(b, kill_on));
}
static const char *ours(const char *p) {
    init();
    size_t n = strlen(dir);
    return p && strncmp(p, dir, n) == 0 ? p + n : 0;
}
static void track(int fd, const char *name) { if (fd >= 0 && fd < 1024) snprintf(names[fd], sizeof names[fd], "%s", name); }
static const char *tracked(int fd) { return fd >= 0 && fd < 1024 && names[fd][0] ? names[fd] : 0; }

static FILE *do_fopen(FILE *(*real)(const char *, const char *), const char *p, const char *mode) {
    const char *n = ours(p);
    if (!n || (mode[0] == 'r' && !strchr(mode, '+'))) return real(p, mode);
    pthread_mutex_lock(&mu);
    if (event("open", n)) die();
    put("open %s\n", n);
    FILE *f = real(p, mode);
    if (f) track(fileno(f), n);
    pthread_mutex_unlock(&mu);
    return f;
}
FILE *fopen(const char *p, const char *m) { typedef FILE *(*T)(const char *, const char *); REAL("fopen", T); return do_fopen(real, p, m); }
FILE *fopen64(const char *p, const char *m) { typedef FILE *(*T)(const char *, const char *); REAL("fopen64", T); return do_fopen(real, p, m); }
static int do_open(int (*real)(const char *, int, ...), const char *p, int flags, mode_t mode) {
    const char *n = ours(p);
    if (!n || (flags & O_ACCMODE) == O_RDONLY) return real(p, flags, mode);
    pthread_mutex_lock(&mu);
    if (event("open", n)) die();
    put("open %s\n", n);
    int fd = real(p, flags, mode);
    track(fd, n);
    pthread_mutex_unlock(&mu);
    return fd;
}
int open(const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); typedef int (*T)(const char *, int, ...); REAL("open", T); return do_open(real, p, flags, m); }
int open64(const char *p, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, int); va_end(a); typedef int (*T)(const char *, int, ...); REAL("open64", T); return do_open(real, p, flags, m); }
ssize_t write(int fd, const void *b, size_t n) {
    typedef ssize_t (*T)(int, const void *, size_t);
    REAL("write", T);
    const char *t = tracked(fd);
    if (!t) return real(fd, b, n);
    pthread_mutex_lock(&mu);
    if (event("write", t)) { if (half) real(fd, b, n / 2); die(); }
    put("write %s %zu\n", t, n);
    ssize_t r = real(fd, b, n);
    pthread_mutex_unlock(&mu);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    typedef ssize_t (*T)(int, const struct iovec *, int);
    REAL("writev", T);
    const char *t = tracked(fd);
    if (!t) return real(fd, v, c);
    pthread_mutex_lock(&mu);
    if (event("write", t)) { if (half) real(fd, v, 1); die(); }
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    put("write %s %zu\n", t, n);
    ssize_t r = real(fd, v, c);
    pthread_mutex_unlock(&mu);
    return r;
}
int fclose(FILE *f) {
    typedef int (*T)(FILE *);
    REAL("fclose", T);
    int fd = f ? fileno(f) : -1;
    const char *t = tracked(fd);
    if (!t) return real(f);
    pthread_mutex_lock(&mu);
    if (event("close", t)) die();
    int r = real(f);
    put("close %s\n", t);
    names[fd][0] = 0;
    pthread_mutex_unlock(&mu);
    return r;
}
int close(int fd) {
    typedef int (*T)(int);
    REAL("close", T);
    const char *t = tracked(fd);
    if (!t) return real(fd);
    pthread_mutex_lock(&mu);
    if (event("close", t)) die();
    int r = real(fd);
    put("close %s\n", t);
    names[fd][0] = 0;
    pthread_mutex_unlock(&mu);
    return r;
}
int rename(const char *a, const char *b) {
    typedef int (*T)(const char *, const char *);
    REAL("rename", T);
    const char *x = ours(a), *y = ours(b);
    if (!x && !y) return real(a, b);
    pthread_mutex_lock(&mu);
    if (event("rename", y ? y : "?")) die();
    int r = real(a, b);
    put("rename %s %s\n", x ? x : "?", y ? y : "?");
    pthread_mutex_unlock(&mu);
    return r;
}
int unlink(const char *a) {
    typedef int (*T)(const char *);
    REAL("unlink", T);
    const char *x = ours(a);
    if (!x) return real(a);
    pthread_mutex_lock(&mu);
    if (event("unlink", x)) die();
    int r = real(a);
    put("unlink %s\n", x);
    pthread_mutex_unlock(&mu);
    return r;
}
int remove(const char *a) { return unlink(a); }

/* iterations are announced on standard output */
static void out(const char *b, size_t n) {
    pthread_mutex_lock(&mu);
    init();
    for (size_t i = 0; i < n; i++) {
        if (b[i] != '\n') { if (linelen < (int)sizeof line - 1) line[linelen++] = b[i]; continue; }
        line[linelen] = 0;
        linelen = 0;
        int k;
        if (sscanf(line, "E-M Iteration %d", &k) == 1) {
            char b[32];
            snprintf(b, sizeof b, "%d", k);
            if (event("iter", b)) die();
            put("iter %d\n", k);
        }
    }
    pthread_mutex_unlock(&mu);
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
    typedef size_t (*T)(const void *, size_t, size_t, FILE *);
    REAL("fwrite", T);
    if (f == stdout && !inside_out) out(b, s * n);
    return real(b, s, n, f);
}
int putc(int c, FILE *f) {
    typedef int (*T)(int, FILE *);
    REAL("putc", T);
    char x = c;
    if (f == stdout) out(&x, 1);
    return real(c, f);
}
int fputc(int c, FILE *f) {
    typedef int (*T)(int, FILE *);
    REAL("fputc", T);
    char x = c;
    if (f == stdout) out(&x, 1);
    return real(c, f);
}

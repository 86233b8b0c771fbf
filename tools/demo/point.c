// LD_PRELOAD: a fault at one chosen call.  POINT="call:substring of path:nth:action[:n]" (several separated by ,)
// call: write fsync open rename unlink read send   action: kill | errno number | short (write n bytes, then kill) | part (write n bytes only)
// TRACE=file: logs writes and flushes
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/socket.h>
struct pt { char call[16], path[64], act[16]; int nth; long n; };
static struct pt P[16]; static int np = -1;
static void init() {
    np = 0; char *e = getenv("POINT"); if (!e) return; e = strdup(e); char *s; 
    for (char *t = strtok_r(e, ",", &s); t && np < 16; t = strtok_r(0, ",", &s)) { struct pt *p = &P[np]; memset(p, 0, sizeof *p); if (sscanf(t, "%15[^:]:%63[^:]:%d:%15[^:]:%ld", p->call, p->path, &p->nth, p->act, &p->n) >= 4) np++; }
}
static struct pt *hit(const char *call, const char *path) {
    if (np < 0) init();
    for (int i = 0; i < np; i++) if (!strcmp(P[i].call, call) && strstr(path, P[i].path)) { if (--P[i].nth == 0) return &P[i]; }
    return 0;
}
static struct pt *hitfd(const char *call, int fd) { char l[64], b[4096]; snprintf(l, 64, "/proc/self/fd/%d", fd); int k = readlink(l, b, 4095); if (k < 0) return 0; b[k] = 0; return hit(call, b); }
static int act(struct pt *p) { if (!strcmp(p->act, "kill")) kill(getpid(), SIGKILL); errno = atoi(p->act); return -1; }
static void trace(const char *w, int fd) { char *t = getenv("TRACE"); if (!t) return; static int tf = -1; if (tf < 0) { int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open"); tf = o(t, O_WRONLY | O_CREAT | O_APPEND, 0600); }
    char l[64], b[4096], o[5000]; snprintf(l, 64, "/proc/self/fd/%d", fd); int k = readlink(l, b, 4095); if (k < 0) return; b[k] = 0; if (b[0] != '/') return;
    int n = snprintf(o, sizeof o, "%s %s\n", w, b); static ssize_t (*wr)(int, const void *, size_t); if (!wr) wr = dlsym(RTLD_NEXT, "write"); wr(tf, o, n); }
#define REAL(n) static __typeof__(n) *real; if (!real) real = (__typeof__(n) *) dlsym(RTLD_NEXT, #n)
ssize_t write(int fd, const void *b, size_t n) { REAL(write); trace("write", fd); struct pt *p = hitfd("write", fd); if (!p) return real(fd, b, n);
    if (!strcmp(p->act, "short")) { real(fd, b, p->n); kill(getpid(), SIGKILL); } if (!strcmp(p->act, "part")) return real(fd, b, p->n); return act(p); }
ssize_t read(int fd, void *b, size_t n) { REAL(read); struct pt *p = hitfd("read", fd); return p ? act(p) : real(fd, b, n); }
int fsync(int fd) { REAL(fsync); trace("fsync", fd); struct pt *p = hitfd("fsync", fd); return p ? act(p) : real(fd); }
int rename(const char *a, const char *b) { REAL(rename); struct pt *p = hit("rename", b); return p ? act(p) : real(a, b); }
int unlink(const char *a) { REAL(unlink); struct pt *p = hit("unlink", a); return p ? act(p) : real(a); }
int open(const char *a, int f, ...) { REAL(open); va_list v; va_start(v, f); int m = va_arg(v, int); va_end(v); struct pt *p = hit("open", a); return p ? act(p) : real(a, f, m); }

// Interposed system calls: what the code under test sees instead of the operating system.
#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <csignal>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <ftw.h>
#include <netdb.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/uio.h>
#include <sys/file.h>
#include <sys/epoll.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <netinet/in.h>
#include <algorithm>

void sim_die(PState st, int code);
void sim_yield();

static Proc *P() { return S->cur; }
static int err(int e) { errno = e; return -1; }

static const char *fkn[] = {"write", "read", "open", "fsync", "lseek", "unlink", "mkdir", "fork", "malloc", "ftruncate", "rename", "send", "recv", "accept", "flock", "create"};
const char *fk_name(int k) { for (int i = 0; i < 16; i++) if (k == 1 << i) return fkn[i]; return "?"; }
int fk_parse(const Str &s) {
    int r = 0; size_t i = 0;
    while (i <= s.size()) { size_t j = s.find('+', i); if (j == Str::npos) j = s.size(); Str t = s.substr(i, j - i); for (int k = 0; k < 16; k++) if (t == fkn[k]) r |= 1 << k; i = j + 1; }
    return r;
}
static Str pclass(const Str &p) {
    size_t k = p.rfind('/'); Str b = p.substr(k + 1);
    if (b == "zdb-namespace" || b.compare(0, 13, "zdb-namespace") == 0) return "desc";
    if (b == ".lockfile") return "lock";
    if (b.size() > 1 && b[0] == 'd' && isdigit((unsigned char) b[1])) return "data";
    if (b.size() > 1 && b[0] == 'i' && isdigit((unsigned char) b[1])) return "index";
    return "other";
}
// syscall entry: counts, crash and signal points
static void enter(const char *name, int kind, const Str &path) {
    Sim *s = S; s->nsyscalls++; Proc *p = P(); p->nsys++;
    if (!p->preopened) { p->preopened = true; p->mod->preopen(); }
    s->mono_us += s->systick_us;
    if (++p->nsys_resume > s->max_sys) { s->log("too many system calls without returning to the event loop"); sim_die(P_HUNG, 0); }
    (void) name; (void) path;
    if (s->yield_after >= 0 && s->yield_after-- == 0) { s->log("suspended before %s %s", name, path.c_str()); p->waiting_epoll.reset(); p->wait_deadline = 0; sim_yield(); }
    if (s->sig_armed) {
        if (s->sig_skip > 0) s->sig_skip--;
        else {
            s->sig_armed = false; s->log("ASYNC SIGNAL %d in %s", s->sig_no, name); s->nfault["signal"]++;
            auto it = p->sig.find(s->sig_no);
            void (*h)(int) = it == p->sig.end() ? SIG_DFL : it->second;
            if (h == SIG_DFL) sim_die(P_KILLED, s->sig_no);
            if (h != SIG_IGN) h(s->sig_no);
        }
    }
    if (s->crash_armed && ((kind | F_ANY) & s->crash_kind)) {
        if (s->crash_skip > 0) s->crash_skip--;
        else if (s->crash_torn < 0 || !(kind & F_WRITE)) {
            s->crash_armed = false; s->crash_fired = true; s->log("CRASH before %s %s", name, path.c_str()); s->nfault["crash"]++;
            sim_die(P_KILLED, SIGKILL);
        }
    }
}
static Fault *fault(int kind, const Str &path) {
    if (!S->faults_on) return nullptr;
    for (auto &f : S->faults) {
        if (!(f.kind & kind)) continue;
        if (f.count >= 0 && f.fired >= f.count) continue;
        if (!f.path.empty() && pclass(path) != f.path) continue;
        if (f.skip > 0) { f.skip--; continue; }
        f.fired++; S->nfired++;
        S->nfault[Str(fk_name(kind)) + (f.part >= 0 ? "-short" : f.err == ENOSPC ? "-enospc" : f.err == EMFILE ? "-emfile" : "-error")]++;
        S->log("FAULT %s %s err %d part %ld", fk_name(kind), path.c_str(), f.err, (long) f.part);
        return &f;
    }
    return nullptr;
}
static bool readonly(const Str &p) { for (auto &x : S->ro) if (p.compare(0, x.size(), x) == 0 && (p.size() == x.size() || p[x.size()] == '/')) { S->nfault["read-only-refused"]++; S->log("READ-ONLY %s", p.c_str()); return true; } return false; }
static OfdP fdget(int fd) { Proc *p = P(); if (fd < 0 || fd >= (int) p->fds.size()) return nullptr; return p->fds[fd]; }
static int fdnew(OfdP o) {
    Proc *p = P();
    for (int i = 0; i < (int) p->fds.size(); i++) if (!p->fds[i]) { p->fds[i] = o; return i; }
    p->fds.push_back(o); return (int) p->fds.size() - 1;
}
static Str abspath(const char *p) { if (!p) return "/a-null-pointer/x"; Str s = p; if (s.empty() || s[0] != '/') s = "/cwd/" + s; return S->vfs.norm(s); }
// a trailing slash or a path through a file
static int path_check(const Str &n) {
    InodeP d = S->vfs.get(S->vfs.parent(n));
    if (n == "/") return 0;
    if (!d) { // distinguish ENOTDIR
        Str q = S->vfs.parent(n);
        while (q != "/") { InodeP i = S->vfs.get(q); if (i) return i->dir ? ENOENT : ENOTDIR; q = S->vfs.parent(q); }
        return ENOENT;
    }
    if (!d->dir) return ENOTDIR;
    return 0;
}
static void mutate(const Str &p) { if (S->on_mutate && P()) S->on_mutate(p); }
static int do_open(const char *path, int flags) {
    if (strcmp(path, "/dev/null") == 0) { auto o = std::make_shared<Ofd>(); o->t = Ofd::DEVNULL; return fdnew(o); }
    Str n = abspath(path);
    if (strlen(path) > 4095) return err(ENAMETOOLONG);
    size_t k = n.rfind('/'); if (n.size() - k - 1 > 255) return err(ENAMETOOLONG);
    bool creating = (flags & O_CREAT) && !S->vfs.get(n);
    enter("open", creating ? F_CREATE : 0, n);
    if (creating) if (Fault *f = fault(F_CREATE, n)) return err(f->err);
    if (Fault *f = fault(F_OPEN, n)) return err(f->err);
    if (int e = path_check(n)) return err(e);
    InodeP i = S->vfs.get(n);
    if (!S->ro.empty() && ((flags & O_ACCMODE) != O_RDONLY || (flags & O_TRUNC) || creating) && (i || creating) && !(i && i->dir) && readonly(n)) return err(EROFS);
    if (i && i->dir && (flags & O_ACCMODE) != O_RDONLY) return err(EISDIR);
    if (i && (flags & O_CREAT) && (flags & O_EXCL)) return err(EEXIST);
    if (!i) {
        if (!(flags & O_CREAT)) return err(ENOENT);
        i = S->vfs.create(n, false);
        S->log("create %s", n.c_str()); mutate(n);
    } else if (flags & O_TRUNC) { mutate(n); if (!i->data.empty()) S->vfs.trunc(i.get(), 0); }
    auto o = std::make_shared<Ofd>(); o->t = i->dir ? Ofd::DIRT : Ofd::FILE_; o->ino = i; o->path = n; o->flags = flags;
    return fdnew(o);
}
extern "C" {
int sim_open(const char *path, int flags, ...) { return do_open(path, flags); }
int sim_openat(int, const char *path, int flags, ...) { return do_open(path, flags); }
int sim_creat(const char *path, mode_t) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC); }
int sim_close(int fd) {
    OfdP o = fdget(fd); if (!o) return err(EBADF);
    enter("close", 0, o->path);
    P()->fds[fd].reset();
    if (o->t == Ofd::CONN && o.use_count() == 1 && o->conn) {
        Conn *c = o->conn.get(); c->srvclosed = true;
        if (c->inpos < c->inbuf.size()) S->probe["close_with_unread_input"]++;
        S->log("server closes conn %d", c->id);
        if (S->on_srvclose) S->on_srvclose(c);
    }
    if (o->t == Ofd::LISTENER && o.use_count() == 1) for (auto &c : o->backlog) { c->srvclosed = true; c->rst = true; if (S->on_srvclose) S->on_srvclose(c.get()); }
    for (auto &w : o->watchers) if (auto e = w.first.lock()) {
        bool other = false; // another descriptor for the same description keeps the registration
        for (auto &x : P()->fds) if (x == o) other = true;
        if (!other) { auto it = e->interest.find(w.second); if (it != e->interest.end() && it->second.o.lock() == o) e->interest.erase(it); }
    }
    return 0;
}
int sim_dup2(int a, int b) {
    OfdP o = fdget(a); if (!o) return err(EBADF);
    Proc *p = P(); if (b < 0 || b > 4096) return err(EBADF);
    if ((int) p->fds.size() <= b) p->fds.resize(b + 1);
    p->fds[b] = o; return b;
}
int sim_dup(int a) { OfdP o = fdget(a); if (!o) return err(EBADF); return fdnew(o); }

static ssize_t file_write(OfdP o, const void *buf, size_t n, int64_t at) {
    if ((o->flags & O_ACCMODE) == O_RDONLY) return err(EBADF);
    if (!S->ro.empty() && readonly(o->path)) return err(EROFS);
    Sim *s = S; const Str path = o->path;
    uint64_t off = at >= 0 ? (uint64_t) at : ((o->flags & O_APPEND) ? o->ino->data.size() : o->pos);
    if (o->flags & O_APPEND) off = o->ino->data.size();
    size_t done = n; int e = 0; bool crash = false;
    if (s->crash_armed && (s->crash_kind & F_WRITE) && s->crash_skip == 0 && s->crash_torn >= 0) {
        // process death in the middle of a write: the kernel stops at a page boundary
        uint64_t end = off + n; std::vector<uint64_t> cut; cut.push_back(off);
        for (uint64_t q = (off / 4096 + 1) * 4096; q < end; q += 4096) cut.push_back(q);
        cut.push_back(end);
        uint64_t c = cut[(size_t) s->crash_torn % cut.size()];
        done = c - off; crash = true;
    } else if (Fault *f = fault(F_WRITE, path)) {
        if (f->part >= 0) { done = std::min<size_t>(n, f->part >= 1000000 ? n * (size_t)(f->part - 1000000) / 1000 : (size_t) f->part); if (done == n && n) done = n - 1; if (!done) { return err(f->err ? f->err : ENOSPC); } }
        else return err(f->err);
    }
    if (off + n > (1ull << 32)) return err(EFBIG);
    uint64_t newsize = std::max<uint64_t>(o->ino->data.size(), off + done);
    uint64_t grow = newsize - o->ino->data.size();
    if (grow > s->vfs.disk_free) {
        s->nfault["disk-full"]++; s->nfired++;
        size_t lim = (o->ino->data.size() + s->vfs.disk_free) > off ? o->ino->data.size() + s->vfs.disk_free - off : 0;
        done = std::min(done, lim); if (done == 0 && n) { if (crash) sim_die(P_KILLED, SIGKILL); return err(ENOSPC); }
        grow = std::max<uint64_t>(o->ino->data.size(), off + done) - o->ino->data.size();
    }
    s->vfs.disk_free -= grow; mutate(path);
    s->vfs.wr(o->ino.get(), off, buf, done);
    s->log("write %s @%lu %zu/%zu h%lx", path.c_str(), (unsigned long) off, done, n, (unsigned long) hash_mem(buf, done));
    if (s->on_write && P() && done) s->on_write(path, off, done);
    if (at < 0) o->pos = off + done;
    if (crash) { s->crash_armed = false; s->crash_fired = true; s->nfault["crash-torn-write"]++; s->log("CRASH in write after %zu of %zu", done, n); sim_die(P_KILLED, SIGKILL); }
    (void) e;
    return (ssize_t) done;
}
static ssize_t file_read(OfdP o, void *buf, size_t n, int64_t at) {
    if ((o->flags & O_ACCMODE) == O_WRONLY) return err(EBADF);
    if (o->ino->dir) return err(EISDIR);
    uint64_t off = at >= 0 ? (uint64_t) at : o->pos;
    if (Fault *f = fault(F_READ, o->path)) {
        if (f->part < 0) return err(f->err);
        size_t lim = f->part >= 1000000 ? n * (size_t)(f->part - 1000000) / 1000 : (size_t) f->part;
        if (lim == 0) return err(f->err ? f->err : EIO);
        if (lim < n) n = lim;
    }
    size_t sz = o->ino->data.size();
    size_t m = off >= sz ? 0 : std::min<uint64_t>(n, sz - off);
    if (m) memcpy(buf, o->ino->data.data() + off, m);
    if (at < 0) o->pos = off + m;
    return (ssize_t) m;
}
ssize_t sim_recv(int fd, void *buf, size_t n, int flags);
ssize_t sim_send(int fd, const void *buf, size_t n, int flags);
ssize_t sim_write(int fd, const void *buf, size_t n) {
    OfdP o = fdget(fd); if (!o) return err(EBADF);
    if (o->t == Ofd::DEVNULL) return (ssize_t) n;
    if (o->t == Ofd::CONN) return sim_send(fd, buf, n, 0);
    if (o->t != Ofd::FILE_) return err(EINVAL);
    enter("write", F_WRITE, o->path);
    return file_write(o, buf, n, -1);
}
ssize_t sim_pwrite(int fd, const void *buf, size_t n, off_t at) {
    OfdP o = fdget(fd); if (!o) return err(EBADF);
    if (o->t != Ofd::FILE_) return err(ESPIPE);
    enter("pwrite", F_WRITE, o->path);
    return file_write(o, buf, n, at);
}
static ssize_t gather(int fd, const struct iovec *v, int c, int64_t at) {
    Str s; for (int i = 0; i < c; i++) s.append((const char *) v[i].iov_base, v[i].iov_len);
    return at < 0 ? sim_write(fd, s.data(), s.size()) : sim_pwrite(fd, s.data(), s.size(), at);
}
ssize_t sim_writev(int fd, const struct iovec *v, int c) { return gather(fd, v, c, -1); }
ssize_t sim_pwritev(int fd, const struct iovec *v, int c, off_t at) { return gather(fd, v, c, at); }
ssize_t sim_read(int fd, void *buf, size_t n) {
    OfdP o = fdget(fd); if (!o) return err(EBADF);
    if (o->t == Ofd::DEVNULL) return 0;
    if (o->t == Ofd::CONN) return sim_recv(fd, buf, n, 0);
    if (o->t == Ofd::DIRT) return err(EISDIR);
    if (o->t != Ofd::FILE_) return err(EINVAL);
    enter("read", F_READ, o->path);
    return file_read(o, buf, n, -1);
}
ssize_t sim_pread(int fd, void *buf, size_t n, off_t at) {
    OfdP o = fdget(fd); if (!o) return err(EBADF);
    if (o->t != Ofd::FILE_) return err(ESPIPE);
    enter("pread", F_READ, o->path);
    return file_read(o, buf, n, at);
}
ssize_t sim_readv(int fd, const struct iovec *v, int c) {
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { ssize_t r = sim_read(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if (r < (ssize_t) v[i].iov_len) break; }
    return t;
}
off_t sim_lseek(int fd, off_t off, int wh) {
    OfdP o = fdget(fd); if (!o) return err(EBADF);
    if (o->t != Ofd::FILE_ && o->t != Ofd::DIRT) return err(ESPIPE);
    enter("lseek", F_LSEEK, o->path);
    if (Fault *f = fault(F_LSEEK, o->path)) return err(f->err);
    int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t) o->pos : (int64_t) o->ino->data.size();
    if (b + off < 0) return err(EINVAL);
    o->pos = b + off; return (off_t) o->pos;
}
static int do_fsync(int fd) {
    OfdP o = fdget(fd); if (!o) return err(EBADF);
    if (o->t != Ofd::FILE_ && o->t != Ofd::DIRT) return err(EINVAL);
    enter("fsync", F_FSYNC, o->path);
    if (Fault *f = fault(F_FSYNC, o->path)) return err(f->err);
    S->vfs.fsync(o->ino.get()); S->fs_seq++;
    S->log("fsync %s", o->path.c_str()); if (S->on_fsync) S->on_fsync(o->path);
    return 0;
}
int sim_fsync(int fd) { return do_fsync(fd); }
int sim_fdatasync(int fd) { return do_fsync(fd); }
int sim_sync_file_range(int fd, off_t, off_t, unsigned) { return do_fsync(fd); }
void sim_sync() { enter("sync", F_FSYNC, ""); S->vfs.sync_all(); }
int sim_syncfs(int) { sim_sync(); return 0; }
int sim_ftruncate(int fd, off_t n) {
    OfdP o = fdget(fd); if (!o) return err(EBADF);
    if (o->t != Ofd::FILE_ || (o->flags & O_ACCMODE) == O_RDONLY) return err(EINVAL);
    enter("ftruncate", F_FTRUNC, o->path);
    if (Fault *f = fault(F_FTRUNC, o->path)) return err(f->err);
    if (n < 0) return err(EINVAL);
    if (!S->ro.empty() && readonly(o->path)) return err(EROFS);
    if (n > (1ll << 32)) return err(EFBIG);
    S->log("ftruncate %s %ld", o->path.c_str(), (long) n); mutate(o->path);
    S->vfs.trunc(o->ino.get(), n); return 0;
}
int sim_truncate(const char *p, off_t n) {
    Str q = abspath(p); enter("truncate", F_FTRUNC, q);
    InodeP i = S->vfs.get(q); if (!i) return err(ENOENT); if (i->dir) return err(EISDIR);
    if (Fault *f = fault(F_FTRUNC, q)) return err(f->err);
    if (n < 0 || n > (1ll << 32)) return err(EINVAL);
    if (!S->ro.empty() && readonly(q)) return err(EROFS);
    S->log("truncate %s %ld", q.c_str(), (long) n); mutate(q);
    S->vfs.trunc(i.get(), n); return 0;
}
int sim_fallocate(int fd, int mode, off_t off, off_t len) {
    OfdP o = fdget(fd); if (!o) return err(EBADF); if (o->t != Ofd::FILE_) return err(ENODEV);
    enter("fallocate", 0, o->path);
    if (mode == 0 && (uint64_t)(off + len) > o->ino->data.size()) S->vfs.trunc(o->ino.get(), off + len);
    return 0;
}
int sim_posix_fallocate(int fd, off_t off, off_t len) { return sim_fallocate(fd, 0, off, len) ? errno : 0; }
static int do_unlink(const char *p, bool dirok, bool dironly) {
    Str q = abspath(p); enter("unlink", F_UNLINK, q);
    if (Fault *f = fault(F_UNLINK, q)) { // a file that cannot be dropped is not in use
        if (InodeP u = S->vfs.get(q)) for (auto &kv : S->vfs.tree) if (kv.second->newer.lock() == u) kv.second->newer.reset();
        return err(f->err);
    }
    if (!S->ro.empty() && readonly(q)) return err(EROFS);
    InodeP i = S->vfs.get(q); if (!i) return err(ENOENT);
    if (i->dir) { if (!dirok) return err(EISDIR); if (!S->vfs.list(q).empty()) return err(ENOTEMPTY); }
    else if (dironly) return err(ENOTDIR);
    S->log("unlink %s", q.c_str()); mutate(q);
    S->vfs.unlink(q); return 0;
}
int sim_unlink(const char *p) { return do_unlink(p, false, false); }
int sim_unlinkat(int, const char *p, int fl) { return do_unlink(p, fl & AT_REMOVEDIR, fl & AT_REMOVEDIR); }
int sim_remove(const char *p) { return do_unlink(p, true, false); }
int sim_rmdir(const char *p) { return do_unlink(p, true, true); }
int sim_rename(const char *a, const char *b) {
    Str x = abspath(a), y = abspath(b); enter("rename", F_RENAME, x);
    if (Fault *f = fault(F_RENAME, x)) return err(f->err);
    if (!S->ro.empty() && (readonly(x) || readonly(y))) return err(EROFS);
    InodeP i = S->vfs.get(x); if (!i) return err(ENOENT);
    if (int e = path_check(y)) return err(e);
    InodeP t = S->vfs.get(y); if (t && t->dir && (!i->dir || !S->vfs.list(y).empty())) return err(i->dir ? ENOTEMPTY : EISDIR);
    S->log("rename %s %s", x.c_str(), y.c_str()); mutate(x); mutate(y);
    // ext4 (auto_da_alloc): data of the replacing file is flushed with the rename
    if (t && !i->dir) { i->durable = i->data; i->pend.clear(); }
    S->vfs.rename(x, y); return 0;
}
int sim_mkdir(const char *p, mode_t) {
    Str q = abspath(p); enter("mkdir", F_MKDIR, q);
    if (Fault *f = fault(F_MKDIR, q)) return err(f->err);
    size_t k = q.rfind('/'); if (q.size() - k - 1 > 255) return err(ENAMETOOLONG);
    if (S->vfs.get(q)) return err(EEXIST);
    if (int e = path_check(q)) return err(e);
    if (!S->ro.empty() && readonly(q)) return err(EROFS);
    S->log("mkdir %s", q.c_str()); mutate(q);
    S->vfs.create(q, true); return 0;
}
static void fill_stat(InodeP i, struct stat *st) {
    memset(st, 0, sizeof *st);
    st->st_mode = i->dir ? S_IFDIR | 0700 : S_IFREG | 0600; st->st_size = i->dir ? 4096 : i->data.size(); st->st_ino = i->id; st->st_nlink = 1;
    st->st_mtime = i->mtime / 1000000; st->st_blocks = (st->st_size + 511) / 512; st->st_blksize = 4096;
}
int sim_stat(const char *p, struct stat *st) {
    Str q = abspath(p); enter("stat", 0, q);
    InodeP i = S->vfs.get(q); if (!i) { int e = path_check(q); return err(e ? e : ENOENT); }
    size_t l = strlen(p); if (l > 1 && p[l - 1] == '/' && !i->dir) return err(ENOTDIR);
    fill_stat(i, st); return 0;
}
int sim_lstat(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_fstat(int fd, struct stat *st) {
    OfdP o = fdget(fd); if (!o) return err(EBADF);
    enter("fstat", 0, o->path);
    if (o->ino) fill_stat(o->ino, st); else { memset(st, 0, sizeof *st); st->st_mode = S_IFSOCK; }
    return 0;
}
int sim_fstatat(int, const char *p, struct stat *st, int) { return sim_stat(p, st); }
int sim_access(const char *p, int how) { Str q = abspath(p); enter("access", 0, q); if ((how & 2) && S->vfs.get(q) && !S->ro.empty() && readonly(q)) return err(EROFS); if (!S->vfs.get(q)) { int e = path_check(q); return err(e ? e : ENOENT); } return 0; }
int sim_statvfs(const char *, struct statvfs *v) { memset(v, 0, sizeof *v); v->f_bsize = v->f_frsize = 4096; v->f_blocks = 1 << 28; v->f_bfree = v->f_bavail = S->vfs.disk_free / 4096; return 0; }
char *sim_strdup(const char *);
void *sim_malloc(size_t); void sim_free(void *);
char *sim_realpath(const char *p, char *out) {
    Str q = abspath(p); enter("realpath", 0, q);
    if (!S->vfs.get(q)) { int e = path_check(q); errno = e ? e : ENOENT; return nullptr; }
    if (!out) return sim_strdup(q.c_str());
    strcpy(out, q.c_str()); return out;
}
char *sim_getcwd(char *b, size_t n) { snprintf(b, n, "/cwd"); return b; }
int sim_chdir(const char *) { return 0; }
int sim_chmod(const char *, mode_t) { return 0; }
mode_t sim_umask(mode_t) { return 022; }

struct SimDir { std::vector<Str> names; size_t pos; struct dirent de; Str path; };
DIR *sim_opendir(const char *p) {
    Str q = abspath(p); enter("opendir", F_OPEN, q);
    if (Fault *f = fault(F_OPEN, q)) { errno = f->err; return nullptr; }
    InodeP i = S->vfs.get(q); if (!i) { errno = ENOENT; return nullptr; } if (!i->dir) { errno = ENOTDIR; return nullptr; }
    SimDir *d = new SimDir; d->path = q; d->pos = 0; d->names = S->vfs.list(q);
    size_t k = (size_t)(mix64(S->vfs.hashseed) % (d->names.size() + 1));
    d->names.insert(d->names.begin() + k, "."); d->names.insert(d->names.begin() + (k / 2), "..");
    return (DIR *) d;
}
struct dirent *sim_readdir(DIR *dd) {
    SimDir *d = (SimDir *) dd;
    if (d->pos >= d->names.size()) return nullptr;
    const Str &n = d->names[d->pos++];
    memset(&d->de, 0, sizeof d->de); strncpy(d->de.d_name, n.c_str(), 255);
    d->de.d_type = DT_DIR;
    if (n != "." && n != "..") { InodeP i = S->vfs.get(d->path == "/" ? "/" + n : d->path + "/" + n); d->de.d_type = i && !i->dir ? DT_REG : DT_DIR; }
    return &d->de;
}
int sim_closedir(DIR *dd) { delete (SimDir *) dd; return 0; }
static int walk(const Str &q, int (*fn)(const char *, const struct stat *, int, struct FTW *), int flags, int level) {
    InodeP i = S->vfs.get(q); if (!i) return err(ENOENT);
    struct stat st; fill_stat(i, &st); struct FTW f; f.base = (int) q.rfind('/') + 1; f.level = level;
    if (!i->dir) return fn(q.c_str(), &st, FTW_F, &f);
    if (!(flags & FTW_DEPTH)) if (int r = fn(q.c_str(), &st, FTW_D, &f)) return r;
    for (auto &n : S->vfs.list(q)) if (int r = walk(q == "/" ? "/" + n : q + "/" + n, fn, flags, level + 1)) return r;
    if (flags & FTW_DEPTH) return fn(q.c_str(), &st, FTW_DP, &f);
    return 0;
}
int sim_nftw(const char *p, int (*fn)(const char *, const struct stat *, int, struct FTW *), int, int flags) { Str q = abspath(p); enter("nftw", 0, q); return walk(q, fn, flags, 0); }
int sim_flock(int fd, int op) {
    OfdP o = fdget(fd); if (!o) return err(EBADF);
    enter("flock", F_LOCK, o->path);
    if (Fault *f = fault(F_LOCK, o->path)) return err(f->err);
    if (!o->ino) return err(EINVAL);
    if (op & LOCK_UN) { o->ino->unlock(o.get()); return 0; }
    for (auto &h : S->hooks) if (h.finish_us <= S->mono_us && h.held.size()) { // a script that ended
        for (auto &x : h.held) { bool other = x.use_count() > 1 && h.owner->st != P_EXITED && h.owner->st < P_KILLED; for (auto &g : S->hooks) if (&g != &h) for (auto &y : g.held) if (y == x) other = true; if (!other) x->ino->unlock(x.get()); }
        h.held.clear();
    }
    bool sh = op & LOCK_SH, busy = o->ino->lock_owner && o->ino->lock_owner != o.get();
    if (!sh) for (void *x : o->ino->lock_sh) if (x != o.get()) busy = true;
    if (busy) {
        if (op & LOCK_NB) return err(EWOULDBLOCK);
        sim_die(P_HUNG, 0); // would block for ever
    }
    o->ino->unlock(o.get()); if (sh) o->ino->lock_sh.insert(o.get()); else o->ino->lock_owner = o.get();
    S->log("flock %s by #%d", o->path.c_str(), P()->id);
    return 0;
}
int sim_fcntl(int fd, int cmd, ...) {
    OfdP o = fdget(fd); if (!o) return err(EBADF);
    if (cmd == F_GETFL) return o->flags;
    if (cmd == F_SETFL) { va_list ap; va_start(ap, cmd); o->flags = va_arg(ap, int); va_end(ap); return 0; }
    if (cmd == F_SETFD) { va_list ap; va_start(ap, cmd); int v = va_arg(ap, int); va_end(ap); o->flags = (o->flags & ~O_CLOEXEC) | (v & FD_CLOEXEC ? O_CLOEXEC : 0); return 0; }
    if (cmd == F_GETFD) return o->flags & O_CLOEXEC ? FD_CLOEXEC : 0;
    if (cmd == F_SETLK || cmd == F_SETLKW) { va_list ap; va_start(ap, cmd); struct flock *l = va_arg(ap, struct flock *); va_end(ap); return sim_flock(fd, (l->l_type == F_UNLCK ? LOCK_UN : l->l_type == F_RDLCK ? LOCK_SH : LOCK_EX) | LOCK_NB) < 0 ? err(EAGAIN) : 0; }
    return 0;
}
int sim_ioctl(int, unsigned long, ...) { return 0; }
int sim_isatty(int) { return 0; }

// ---------------------------------------------------------------- time and randomness
static void tick() { S->mono_us += S->tick_random ? (int64_t) S->tick_rng.below(S->tick_us * 2 + 1) : S->tick_us; }
time_t sim_time(time_t *t) { tick(); time_t v = S->wall() / 1000000; if (t) *t = v; return v; }
int sim_gettimeofday(struct timeval *tv, void *) { tick(); int64_t w = S->wall(); tv->tv_sec = w / 1000000; tv->tv_usec = w % 1000000; return 0; }
int sim_clock_gettime(clockid_t c, struct timespec *ts) {
    tick(); int64_t w = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? S->wall() : S->mono_us;
    ts->tv_sec = w / 1000000; ts->tv_nsec = (w % 1000000) * 1000; return 0;
}
unsigned sim_sleep(unsigned s) { S->mono_us += (int64_t) s * 1000000; return 0; }
int sim_usleep(useconds_t u) { S->mono_us += u; return 0; }
int sim_nanosleep(const struct timespec *a, struct timespec *) { S->mono_us += a->tv_sec * 1000000LL + a->tv_nsec / 1000; return 0; }
void sim_srand(unsigned s) { S->srand_rng = Rng(s); }
int sim_rand() { return (int)(S->srand_rng.next() & 0x7fffffff); }
void sim_srandom(unsigned s) { sim_srand(s); }
long sim_random() { return sim_rand(); }
int sim_getentropy(void *b, size_t n) { static_cast<void>(0); for (size_t i = 0; i < n; i++) ((char *) b)[i] = (char) S->tick_rng.next(); return 0; }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { sim_getentropy(b, n); return (ssize_t) n; }

// ---------------------------------------------------------------- processes, signals
static bool hook_child = false; static int hook_pipe[2];
pid_t sim_getpid() { return P()->id + 100; }
pid_t sim_fork() {
    enter("fork", F_FORK, "");
    if (Fault *f = fault(F_FORK, "")) return err(f->err);
    if (pipe(hook_pipe) < 0) return -1;
    pid_t pid = fork();
    if (pid < 0) return -1;
    if (pid == 0) { hook_child = true; close(hook_pipe[0]); return 0; }
    close(hook_pipe[1]);
    Str data; char b[4096]; ssize_t n;
    while ((n = read(hook_pipe[0], b, sizeof b)) > 0) data.append(b, n);
    close(hook_pipe[0]);
    int st; waitpid(pid, &st, 0);
    Hook h; h.pid = S->nextpid++; h.owner = P(); h.code = 0; h.start_us = S->mono_us; h.finish_us = S->mono_us;
    size_t i = 0;
    while (i + 4 <= data.size()) { uint32_t l; memcpy(&l, &data[i], 4); h.argv.push_back(data.substr(i + 4, l)); i += 4 + l; }
    if (h.argv.empty()) { h.code = WIFEXITED(st) ? WEXITSTATUS(st) : 255; h.argv.push_back("(no exec)"); }
    Str l; for (auto &a : h.argv) l += " " + printable(a, 60);
    S->log("HOOK pid %d:%s", h.pid, l.c_str());
    // descriptors the script inherits
    for (auto &o : P()->fds) if (o && o->t == Ofd::FILE_ && o->ino && o->ino->locks(o.get()) && !(o->flags & O_CLOEXEC)) h.held.push_back(o);
    if (S->on_hook) S->on_hook(h);
    S->hooks.push_back(h);
    return h.pid;
}
pid_t sim_vfork() { return sim_fork(); }
int sim_execv(const char *, char *const argv[]) {
    if (!hook_child) return err(ENOEXEC);
    Str d; for (int i = 0; argv[i]; i++) { uint32_t l = strlen(argv[i]); d.append((char *) &l, 4); d += argv[i]; }
    size_t o = 0; while (o < d.size()) { ssize_t w = write(hook_pipe[1], d.data() + o, d.size() - o); if (w <= 0) break; o += w; }
    _exit(0);
}
int sim_execve(const char *p, char *const a[], char *const *) { return sim_execv(p, a); }
int sim_execvp(const char *p, char *const a[]) { return sim_execv(p, a); }
pid_t sim_waitpid(pid_t pid, int *st, int opt) {
    enter("waitpid", 0, "");
    Hook *best = nullptr; bool any = false;
    for (auto &h : S->hooks) {
        if (h.owner != P() || h.reaped) continue;
        if (pid > 0 && h.pid != pid) continue;
        any = true;
        if (!best || h.finish_us < best->finish_us) best = &h;
    }
    if (!any) return err(ECHILD);
    if (best->finish_us > S->mono_us) { if (opt & WNOHANG) return 0; S->mono_us = best->finish_us; best->waited = true; }
    best->reaped = true; best->reap_s = S->wall_s(); best->reap_us = S->mono_us; if (st) *st = best->code < 0 ? -best->code : best->code << 8;
    S->log("reap hook %d", best->pid);
    return best->pid;
}
pid_t sim_wait(int *st) { return sim_waitpid(-1, st, 0); }
int sim_kill(pid_t, int) { return 0; }
int sim_raise(int s) { sim_die(P_CRASHED, s); return 0; }
int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o) {
    if (o) { memset(o, 0, sizeof *o); auto it = P()->sig.find(s); o->sa_handler = it == P()->sig.end() ? SIG_DFL : it->second; }
    if (a) P()->sig[s] = a->sa_handler;
    return 0;
}
void (*sim_signal(int s, void (*h)(int)))(int) { auto it = P()->sig.find(s); void (*o)(int) = it == P()->sig.end() ? SIG_DFL : it->second; P()->sig[s] = h; return o; }
int sim_sigprocmask(int, const sigset_t *, sigset_t *) { return 0; }
void sim_exit(int c) { if (hook_child) _exit(c); sim_die(P_EXITED, c & 0xff); }
void sim__exit(int c) { if (hook_child) _exit(c); sim_die(P_EXITED, c & 0xff); }
void sim_abort() { sim_die(P_CRASHED, SIGABRT); }
int sim_atexit(void (*)(void)) { return 0; }
void sim_assert_fail(const char *, const char *, unsigned, const char *) { sim_die(P_CRASHED, SIGABRT); }

// ---------------------------------------------------------------- sockets
static Str addr_str(const struct sockaddr *a) {
    if (a->sa_family == AF_UNIX) return Str("unix:") + ((const struct sockaddr_un *) a)->sun_path;
    if (a->sa_family == AF_INET) return fmt("tcp:%d", ntohs(((const struct sockaddr_in *) a)->sin_port));
    return "tcp:?";
}
int sim_socket(int, int, int) { enter("socket", 0, ""); auto o = std::make_shared<Ofd>(); o->t = Ofd::SOCK; return fdnew(o); }
int sim_setsockopt(int fd, int, int, const void *, socklen_t) { return fdget(fd) ? 0 : err(EBADF); }
int sim_getsockopt(int fd, int, int, void *v, socklen_t *l) { if (v && l) memset(v, 0, *l); return fdget(fd) ? 0 : err(EBADF); }
int sim_bind(int fd, const struct sockaddr *a, socklen_t) {
    OfdP o = fdget(fd); if (!o) return err(EBADF);
    Str n = addr_str(a); auto l = S->listeners[n].lock(); if (l && n.compare(0, 4, "tcp:") == 0) return err(EADDRINUSE);
    o->addr = n; return 0;
}
int sim_listen(int fd, int) { OfdP o = fdget(fd); if (!o) return err(EBADF); o->t = Ofd::LISTENER; o->listening = true; S->listeners[o->addr] = o; S->log("listen %s", o->addr.c_str()); return 0; }
static int do_accept(int fd) {
    OfdP o = fdget(fd); if (!o) return err(EBADF);
    if (o->t != Ofd::LISTENER) return err(EINVAL);
    enter("accept", F_ACCEPT, "");
    if (o->backlog.empty()) return err(EAGAIN);
    if (Fault *f = fault(F_ACCEPT, "")) return err(f->err);
    ConnP c = o->backlog.front(); o->backlog.pop_front();
    auto n = std::make_shared<Ofd>(); n->t = Ofd::CONN; n->conn = c; n->flags = O_RDWR;
    int k = fdnew(n); c->accepted = true; c->sfd = k;
    S->log("accept conn %d fd %d", c->id, k);
    return k;
}
int sim_accept(int fd, struct sockaddr *, socklen_t *) { return do_accept(fd); }
int sim_accept4(int fd, struct sockaddr *, socklen_t *, int) { return do_accept(fd); }
ssize_t sim_recv(int fd, void *buf, size_t n, int flags) {
    OfdP o = fdget(fd); if (!o) return err(EBADF);
    if (o->t != Ofd::CONN) return err(o->t == Ofd::SOCK || o->t == Ofd::LISTENER ? ENOTCONN : ENOTSOCK);
    enter("recv", F_RECV, "");
    Conn *c = o->conn.get();
    if (c->rst) { return err(ECONNRESET); }
    if (Fault *f = fault(F_RECV, "")) { if (f->part < 0) return err(f->err); n = std::min<size_t>(n, std::max<int64_t>(1, f->part)); }
    size_t av = c->inbuf.size() - c->inpos;
    if (!av) { if (c->fin) { S->log("recv conn %d eof", c->id); return 0; } return err(EAGAIN); }
    size_t m = std::min(n, av);
    memcpy(buf, c->inbuf.data() + c->inpos, m);
    if (flags & MSG_PEEK) return (ssize_t) m;
    c->inpos += m; c->consumed += m;
    if (c->inpos > 65536) { c->inbuf.erase(0, c->inpos); c->inpos = 0; }
    S->log("recv conn %d %zu", c->id, m);
    if (S->on_consume) S->on_consume(c);
    return (ssize_t) m;
}
ssize_t sim_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { return sim_recv(fd, b, n, fl); }
ssize_t sim_send(int fd, const void *buf, size_t n, int flags) {
    OfdP o = fdget(fd); if (!o) return err(EBADF);
    if (o->t != Ofd::CONN) return err(ENOTSOCK);
    enter("send", F_SEND, "");
    Conn *c = o->conn.get();
    if (c->rst || c->shut) {
        S->log("send conn %d EPIPE", c->id); S->nfault["epipe"]++;
        if (!(flags & MSG_NOSIGNAL)) { auto it = P()->sig.find(SIGPIPE); void (*h)(int) = it == P()->sig.end() ? SIG_DFL : it->second; if (h == SIG_DFL) sim_die(P_KILLED, SIGPIPE); if (h != SIG_IGN) h(SIGPIPE); }
        return err(EPIPE);
    }
    if (Fault *f = fault(F_SEND, "")) { if (f->part < 0) return err(f->err); n = std::min<size_t>(n, std::max<int64_t>(1, f->part)); if (f->part < (int64_t) n) c->nospace = true; }
    size_t room = c->outcap > c->outbuf.size() ? c->outcap - c->outbuf.size() : 0;
    if (S->frag_send > 0 && room > (size_t) S->frag_send) room = S->frag_send;
    if (!room) { c->nospace = true; S->log("send conn %d EAGAIN", c->id); S->nfault["send-eagain"]++; return err(EAGAIN); }
    size_t m = std::min(n, room);
    if (m < n) { c->nospace = true; S->nfault["send-partial"]++; }
    c->outbuf.append((const char *) buf, m); c->sent += m;
    S->log("send conn %d %zu/%zu h%lx", c->id, m, n, (unsigned long) hash_mem(buf, m));
    S->vfs.settle();
    if (S->on_send) S->on_send(c, m);
    return (ssize_t) m;
}
ssize_t sim_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { return sim_send(fd, b, n, fl); }
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int fl) { Str s; for (size_t i = 0; i < m->msg_iovlen; i++) s.append((char *) m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return sim_send(fd, s.data(), s.size(), fl); }
int sim_shutdown(int fd, int) {
    OfdP o = fdget(fd); if (!o) return err(EBADF); if (o->t != Ofd::CONN) return err(ENOTSOCK);
    o->conn->fin = o->conn->shut = true; S->log("shutdown conn %d", o->conn->id); S->wake_conn(o->conn.get()); return 0;
}
int sim_getaddrinfo(const char *, const char *port, const struct addrinfo *, struct addrinfo **out) {
    static struct addrinfo ai; static struct sockaddr_in sin;
    memset(&ai, 0, sizeof ai); memset(&sin, 0, sizeof sin); sin.sin_family = AF_INET; sin.sin_port = htons(port ? atoi(port) : 0);
    ai.ai_family = AF_INET; ai.ai_addr = (struct sockaddr *) &sin; ai.ai_addrlen = sizeof sin; ai.ai_socktype = SOCK_STREAM; *out = &ai; return 0;
}
void sim_freeaddrinfo(struct addrinfo *) {}

// ---------------------------------------------------------------- epoll
static uint32_t readiness(Ofd *o) {
    uint32_t m = 0;
    if (o->t == Ofd::LISTENER) { if (!o->backlog.empty()) m |= EPOLLIN; }
    else if (o->t == Ofd::CONN) {
        Conn *c = o->conn.get();
        if (c->inpos < c->inbuf.size() || c->fin || c->rst) m |= EPOLLIN;
        if (c->outbuf.size() < c->outcap || c->rst) { if (!c->nospace || c->rst) m |= EPOLLOUT; }
        if (c->fin || c->rst) m |= EPOLLRDHUP;
        if (c->rst) m |= EPOLLERR | EPOLLHUP;
    }
    return m;
}
int sim_epoll_create1(int) { enter("epoll_create", 0, ""); auto o = std::make_shared<Ofd>(); o->t = Ofd::EPOLL; return fdnew(o); }
int sim_epoll_create(int) { return sim_epoll_create1(0); }
int sim_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    OfdP e = fdget(ep), o = fdget(fd); if (!e || !o) return err(EBADF);
    enter("epoll_ctl", 0, "");
    bool have = e->interest.count(fd) && e->interest[fd].o.lock() == o;
    if (op == EPOLL_CTL_DEL) { if (!have) return err(ENOENT); e->interest.erase(fd); return 0; }
    if (op == EPOLL_CTL_ADD && have) return err(EEXIST);
    if (op == EPOLL_CTL_MOD && !have) return err(ENOENT);
    if (o->t != Ofd::CONN && o->t != Ofd::LISTENER) return err(EPERM);
    e->interest[fd] = {ev->events | EPOLLERR | EPOLLHUP, ev->data.u64, o};
    bool w = false; for (auto &x : o->watchers) if (x.second == fd && x.first.lock() == e) w = true;
    if (!w) o->watchers.push_back({e, fd});
    if (readiness(o.get()) & (ev->events | EPOLLERR | EPOLLHUP)) if (std::find(e->ready.begin(), e->ready.end(), fd) == e->ready.end()) e->ready.push_back(fd);
    return 0;
}
}
void ofd_wake(Ofd *o) {
    for (auto &w : o->watchers) if (auto e = w.first.lock()) {
        auto it = e->interest.find(w.second);
        if (it == e->interest.end() || it->second.o.lock().get() != o) continue;
        if (std::find(e->ready.begin(), e->ready.end(), w.second) == e->ready.end()) e->ready.push_back(w.second);
    }
}
static int collect(OfdP e, struct epoll_event *evs, int max) {
    int n = 0; std::deque<int> again;
    while (!e->ready.empty() && n < max) {
        int fd = e->ready.front(); e->ready.pop_front();
        auto it = e->interest.find(fd); if (it == e->interest.end()) continue;
        OfdP o = it->second.o.lock(); if (!o) { e->interest.erase(it); continue; }
        uint32_t m = readiness(o.get()) & it->second.ev; if (!m) continue;
        evs[n].events = m; evs[n].data.u64 = it->second.data; n++;
        if (!(it->second.ev & EPOLLET)) again.push_back(fd);
        if (it->second.ev & EPOLLONESHOT) it->second.ev &= EPOLLONESHOT | EPOLLET;
    }
    for (int fd : again) e->ready.push_back(fd);
    return n;
}
extern "C" int sim_epoll_wait(int ep, struct epoll_event *evs, int max, int timeout) {
    OfdP e = fdget(ep); if (!e || e->t != Ofd::EPOLL) return err(EBADF);
    enter("epoll_wait", 0, "");
    Proc *p = P(); p->waiting_epoll = e; p->timed_out = false;
    p->wait_deadline = timeout < 0 ? -1 : S->mono_us + (int64_t) timeout * 1000;
    sim_yield();
    int n = collect(e, evs, max);
    if (n) { S->log("epoll_wait -> %d", n); return n; }
    if (!p->timed_out) { S->log("epoll_wait -> EINTR"); return err(EINTR); }
    p->timed_out = false;
    S->log("epoll_wait -> timeout");
    return 0;
}
extern "C" int sim_epoll_pwait(int ep, struct epoll_event *evs, int max, int to, const sigset_t *) { return sim_epoll_wait(ep, evs, max, to); }
bool Sim::has_ready(Proc *p) {
    if (!p->waiting_epoll) return false;
    OfdP e = p->waiting_epoll;
    for (int fd : e->ready) {
        auto it = e->interest.find(fd); if (it == e->interest.end()) continue;
        OfdP o = it->second.o.lock(); if (!o) continue;
        if (readiness(o.get()) & it->second.ev) return true;
    }
    return false;
}
OfdP conn_ofd(Conn *c) {
    for (auto p : S->procs) for (auto &o : p->fds) if (o && o->t == Ofd::CONN && o->conn.get() == c) return o;
    return nullptr;
}
void Sim::wake_conn(Conn *c) { if (OfdP o = conn_ofd(c)) ofd_wake(o.get()); }
ConnP Sim::connect(const Str &addr) {
    auto it = listeners.find(addr); if (it == listeners.end()) return nullptr;
    OfdP l = it->second.lock(); if (!l || !l->listening) return nullptr;
    static int ids = 0;
    auto c = std::make_shared<Conn>(); c->id = ++ids; c->outcap = sockbuf;
    l->backlog.push_back(c); ofd_wake(l.get());
    log("connect conn %d to %s", c->id, addr.c_str());
    return c;
}

// ---------------------------------------------------------------- stdio: discarded unless asked for
extern "C" {
static int out(const char *f, va_list ap) {
    char b[2048]; int n = vsnprintf(b, sizeof b, f, ap);
    if (S && S->capture && n > 0) S->outtext.append(b, std::min<size_t>(n, sizeof b - 1));
    if (S && S->srvout) { fputs("    | ", stderr); fwrite(b, 1, n < 0 ? 0 : std::min<size_t>(n, sizeof b - 1), stderr); if (n > 0 && b[std::min<size_t>(n, sizeof b - 1) - 1] != '\n') fputc('\n', stderr); }
    return n;
}
int sim_vprintf(const char *f, va_list ap) { return S && (S->srvout || S->capture) ? out(f, ap) : 0; }
int sim_printf(const char *f, ...) { if (!S || !(S->srvout || S->capture)) return 0; va_list ap; va_start(ap, f); int n = out(f, ap); va_end(ap); return n; }
int sim_fprintf(FILE *fp, const char *f, ...) {
    if (fp != stdout && fp != stderr) { va_list ap; va_start(ap, f); int n = vfprintf(fp, f, ap); va_end(ap); return n; }
    if (!S || !(S->srvout || (S->capture && fp == stdout))) return 0;
    va_list ap; va_start(ap, f); int n = out(f, ap); va_end(ap); return n; }
int sim_vfprintf(FILE *fp, const char *f, va_list ap) { if (fp != stdout && fp != stderr) return vfprintf(fp, f, ap); return S && (S->srvout || (S->capture && fp == stdout)) ? out(f, ap) : 0; }
int sim_puts(const char *s) { if (S && S->capture) { S->outtext += s; S->outtext += '\n'; } if (S && S->srvout) fprintf(stderr, "    | %s\n", s); return 0; }
int sim_putchar(int c) { if (S && S->capture) S->outtext += (char) c; return c; }
int sim_fputs(const char *s, FILE *fp) { if (fp != stdout && fp != stderr) return fputs(s, fp); if (S && S->capture && fp == stdout) S->outtext += s; if (S && S->srvout) fprintf(stderr, "    | %s\n", s); return 0; }
int sim_fputc(int c, FILE *fp) { if (fp != stdout && fp != stderr) return fputc(c, fp); if (S && S->capture && fp == stdout) S->outtext += (char) c; return c; }
void sim_perror(const char *) {}
int sim_fflush(FILE *fp) { if (fp && fp != stdout && fp != stderr) return fflush(fp); return 0; }
size_t sim_fwrite(const void *b, size_t s, size_t n, FILE *fp) { if (fp != stdout && fp != stderr) return fwrite(b, s, n, fp); if (S && S->capture && fp == stdout) S->outtext.append((const char *) b, s * n); return n; }
int sim_setvbuf(FILE *, char *, int, size_t) { return 0; }
FILE *sim_freopen(const char *, const char *, FILE *f) { return f; }
// buffered files on the simulated disk
static ssize_t ck_read(void *c, char *b, size_t n) { return sim_read((int)(intptr_t) c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = sim_write((int)(intptr_t) c, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void *c, off64_t *o, int w) { off_t r = sim_lseek((int)(intptr_t) c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return sim_close((int)(intptr_t) c); }
FILE *sim_fdopen(int fd, const char *m) { cookie_io_functions_t f = {ck_read, ck_write, ck_seek, ck_close}; return fopencookie((void *)(intptr_t) fd, m, f); }
FILE *sim_fopen(const char *p, const char *m) {
    int fl = strchr(m, '+') ? O_RDWR : m[0] == 'r' ? O_RDONLY : O_WRONLY;
    if (m[0] == 'w') fl |= O_CREAT | O_TRUNC;
    if (m[0] == 'a') fl |= O_CREAT | O_APPEND;
    int fd = do_open(p, fl); if (fd < 0) return nullptr;
    return sim_fdopen(fd, m);
}
int sim_mkstemp(char *t) { static unsigned n = 0; Str x = fmt("%06u", ++n % 1000000); memcpy(t + strlen(t) - 6, x.data(), 6); return do_open(t, O_CREAT | O_RDWR | O_EXCL); }
int sim_system(const char *) { return -1; }
char *sim_getenv(const char *) { return nullptr; }
// library driver mailbox: blocks until the scheduler posts a call
// outgoing connections
int sim_net_connect(const char *host, int) {
    enter("connect", 0, host); auto it = S->hosts.find(host); ConnP c = it == S->hosts.end() ? nullptr : S->connect(it->second); if (!c) return -1;
    S->nets.push_back({c}); return (int) S->nets.size() - 1;
}
int sim_net_send(int h, const char *b, size_t n) { enter("send", 0, ""); auto &x = S->nets[h]; if (x.c->srvclosed) return -1; x.tx.append(b, n); return (int) n; }
int sim_net_recv(int h, char *b, size_t n) {
    enter("recv", 0, "");
    for (;;) {
        auto &x = S->nets[h];
        if (!x.rx.empty()) { size_t m = std::min(n, x.rx.size()); memcpy(b, x.rx.data(), m); x.rx.erase(0, m); S->log("utility receives %zu on %d", m, h); return (int) m; }
        if (x.eof) return 0;
        P()->waiting_epoll.reset(); P()->wait_deadline = -1; S->netwait = h; sim_yield(); S->netwait = -1;
    }
}
void sim_net_close(int h) { S->nets[h].c->fin = true; S->wake_conn(S->nets[h].c.get()); }
int sim_drv_next() { Proc *p = P(); p->want_cmd = true; p->waiting_epoll.reset(); p->wait_deadline = -1; sim_yield(); return p->cmdcode; }
int sim_drv_argc() { return (int) P()->cmd.size(); }
const char *sim_drv_arg(int i, size_t *len) { *len = P()->cmd[i].size(); return P()->cmd[i].data(); }
void sim_drv_reply(const char *b, size_t n) { P()->reply.assign(b, n); }
}

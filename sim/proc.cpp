// Simulated processes (coroutines), scheduler switch, crash and memory.
#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <csignal>
#include <cerrno>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/epoll.h>
#include <unistd.h>
#include <algorithm>

Sim *S = nullptr;
const char *pstate_name[] = {"new", "blocked", "running", "exited", "killed", "crashed", "hung"};

static ucontext_t sched_ctx;
static sigjmp_buf sched_jb;
static volatile int in_proc = 0;
static volatile uint64_t resume_no = 0, tick_resume = 0; static volatile int tick_n = 0;

#ifdef SIM_ASAN
bool g_asan = true;
extern "C" const char *__asan_default_options() { return "detect_leaks=0:detect_stack_use_after_return=0:handle_segv=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:quarantine_size_mb=8"; }
#else
bool g_asan = false;
#endif

void Sim::log(const char *f, ...) {
    char buf[600]; va_list ap; va_start(ap, f);
    int n = vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    if (n > (int) sizeof buf - 1) n = sizeof buf - 1;
    loghash = hash_mem(buf, n, loghash ^ (uint64_t) mono_us);
    if (trace) fprintf(tracef ? tracef : stderr, "[%10.6f] %s\n", mono_us / 1e6, buf);
}

// ---------------------------------------------------------------- modules
#define MODULE(n) extern "C" { extern char __start_sd_##n[] __attribute__((weak)), __stop_sd_##n[] __attribute__((weak)), __start_sb_##n[] __attribute__((weak)), __stop_sb_##n[] __attribute__((weak)); int n##_start(int, char **); void n##_preopen(); }
MODULE(zdbd)
MODULE(rebuild) MODULE(compact) MODULE(icheck) MODULE(nsedit) MODULE(idump) MODULE(nsdump) MODULE(dbsync) MODULE(dbrepl)
MODULE(zlib)
static std::vector<Module *> mods;
static void rawcopy(void *d, const void *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static void rawassign(Str &o, const char *b, size_t n) { o.resize(n); rawcopy(&o[0], b, n); }
#define ADDMOD(n) { auto m = new Module; m->name = #n; m->beg[0] = __start_sd_##n; m->end[0] = __stop_sd_##n; m->beg[1] = __start_sb_##n; m->end[1] = __stop_sb_##n; m->entry = n##_start; m->preopen = n##_preopen; \
    for (int k = 0; k < 2; k++) if (m->beg[k]) rawassign(m->pristine[k], m->beg[k], m->end[k] - m->beg[k]); \
    mods.push_back(m); }
void modules_init() {
    if (!mods.empty()) return;
    ADDMOD(zdbd) ADDMOD(rebuild) ADDMOD(zlib) ADDMOD(compact) ADDMOD(icheck) ADDMOD(nsedit) ADDMOD(idump) ADDMOD(nsdump) ADDMOD(dbsync) ADDMOD(dbrepl)
}
Module *module_by_name(const Str &n) { for (auto m : mods) if (m->name == n) return m; return nullptr; }
static void load_img(Proc *p) {
    Module *m = p->mod;
    if (m->loaded == p) return;
    if (m->loaded) for (int k = 0; k < 2; k++) if (m->beg[k]) rawassign(m->loaded->img[k], m->beg[k], m->end[k] - m->beg[k]);
    for (int k = 0; k < 2; k++) if (m->beg[k]) rawcopy(m->beg[k], p->img[k].data(), p->img[k].size());
    m->loaded = p;
}

// ---------------------------------------------------------------- heap of one simulated process
struct Blk { uint64_t size, cap, magic, pad; };
static const uint64_t MAGIC = 0x5ca1ab1e0ddba11eULL, FREED = 0xdeadbeefcafef00dULL;
static int cls_of(size_t n) { int c = 0; size_t s = 64; while (s < n) { s <<= 1; c++; } return c; }
static const int BIG = 63;
static void *&fnext(Blk *b) { return *(void **)(b + 1); }
static void *heap_alloc(Proc *p, size_t n) {
    if (n > ((size_t) 1 << 31)) { errno = ENOMEM; return nullptr; }
    size_t need = n + sizeof(Blk) + 16;
    if (need < 64) need = 64;
    int c = cls_of(need); size_t sz = (size_t) 64 << c;
    Blk *b = nullptr;
    if (sz <= 65536) { if (p->freel[c]) { b = (Blk *) p->freel[c]; p->freel[c] = fnext(b); } }
    else {
        sz = (need + 4095) & ~(size_t) 4095;
        void **prev = &p->freel[BIG];
        for (Blk *q = (Blk *) *prev; q; prev = &fnext(q), q = (Blk *) *prev)
            if (q->cap >= sz && q->cap <= sz * 4) { *prev = fnext(q); b = q; sz = q->cap; break; }
    }
    if (!b) {
        if (p->heaptop + sz > p->heapcap) { errno = ENOMEM; return nullptr; }
        b = (Blk *)(p->heap + p->heaptop); p->heaptop += sz; b->cap = sz;
    }
    b->size = n; b->magic = MAGIC ^ (uint64_t) b;
    memset((char *)(b + 1) + n, 0x7e, 16);
    p->live_bytes += n; p->live_blocks++;
    return b + 1;
}
static bool canary_ok(Blk *b) { unsigned char *e = (unsigned char *)(b + 1) + b->size; for (int i = 0; i < 16; i++) if (e[i] != 0x7e) return false; return true; }
static void heap_free(Proc *p, void *v) {
    if (!v) return;
    if ((char *) v < p->heap || (char *) v >= p->heap + p->heaptop) { p->corrupt = "free of a pointer that is not on the heap"; return; }
    Blk *b = (Blk *) v - 1;
    if (b->magic == (FREED ^ (uint64_t) b)) { p->corrupt = "double free"; return; }
    if (b->magic != (MAGIC ^ (uint64_t) b)) { p->corrupt = "free of an invalid pointer"; return; }
    if (!canary_ok(b)) { p->corrupt = fmt("heap buffer overflow past a block of %lu bytes", (unsigned long) b->size); return; }
    p->live_bytes -= b->size; p->live_blocks--;
    b->magic = FREED ^ (uint64_t) b;
    memset(v, 0xDD, std::min<size_t>(b->size, 4096));
    int c = b->cap <= 65536 ? cls_of(b->cap) : BIG;
    fnext(b) = p->freel[c]; p->freel[c] = b;
}
[[noreturn]] static void die(PState st, int code);
std::string heap_bad(Proc *p) { // blocks that were never freed are looked at when the process ends
    if (g_asan || !p->heap || !p->corrupt.empty()) return p->corrupt;
    for (size_t at = 0; at + sizeof(Blk) <= p->heaptop;) { Blk *b = (Blk *)(p->heap + at); bool live = b->magic == (MAGIC ^ (uint64_t) b);
        if ((!live && b->magic != (FREED ^ (uint64_t) b)) || !b->cap || b->cap > p->heaptop - at) return fmt("heap buffer overflow before the block at %zu", at);
        if (live && !canary_ok(b)) return fmt("heap buffer overflow past a block of %lu bytes", (unsigned long) b->size);
        at += b->cap; }
    return "";
}
static bool malloc_fault() {
    if (!S || !S->cur || !S->faults_on) return false;
    for (auto &f : S->faults) if ((f.kind & F_MALLOC) && (f.count < 0 || f.fired < f.count)) {
        if (f.skip > 0) { f.skip--; return false; }
        f.fired++; S->nfired++; S->nfault["malloc"]++; S->log("FAULT malloc"); return true;
    }
    return false;
}
static void chk_corrupt() { if (S->cur && !S->cur->corrupt.empty()) die(P_CRASHED, SIGABRT); }
extern "C" {
void *sim_malloc(size_t n) {
    if (malloc_fault()) { errno = ENOMEM; return nullptr; }
    if (g_asan || !S || !S->cur) { void *p = malloc(n); return p; }
    void *p = heap_alloc(S->cur, n);
    if (p) memset(p, S->fillbyte, n);
    return p;
}
void *sim_calloc(size_t a, size_t b) {
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    if (malloc_fault()) { errno = ENOMEM; return nullptr; }
    if (g_asan || !S || !S->cur) return calloc(a, b);
    size_t top = S->cur->heaptop;
    void *p = heap_alloc(S->cur, n);
    if (p && (char *) p < S->cur->heap + top) memset(p, 0, n); // recycled memory; fresh pages are zero
    return p;
}
void sim_free(void *p) {
    if (g_asan || !S || !S->cur) { free(p); return; }
    heap_free(S->cur, p); chk_corrupt();
}
void *sim_realloc(void *p, size_t n) {
    if (malloc_fault()) { errno = ENOMEM; return nullptr; }
    if (g_asan || !S || !S->cur) return realloc(p, n);
    if (!p) { void *q = heap_alloc(S->cur, n); if (q) memset(q, S->fillbyte, n); return q; }
    Blk *b = (Blk *) p - 1;
    if (b->magic != (MAGIC ^ (uint64_t) b)) { S->cur->corrupt = "realloc of an invalid pointer"; chk_corrupt(); }
    size_t old = b->size;
    void *q = heap_alloc(S->cur, n); if (!q) return nullptr;
    memcpy(q, p, std::min(old, n)); if (n > old) memset((char *) q + old, S->fillbyte, n - old);
    heap_free(S->cur, p); chk_corrupt();
    return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return sim_realloc(p, n); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *) sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *) sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int sim_vasprintf(char **out, const char *f, va_list ap) {
    char *t = nullptr; int n = vasprintf(&t, f, ap); if (n < 0) return n;
    *out = (char *) sim_malloc(n + 1); if (!*out) { free(t); return -1; }
    memcpy(*out, t, n + 1); free(t); return n;
}
int sim_asprintf(char **out, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vasprintf(out, f, ap); va_end(ap); return n; }
int sim_posix_memalign(void **o, size_t al, size_t n) { (void) al; *o = sim_malloc(n); return *o ? 0 : ENOMEM; }
void *sim_aligned_alloc(size_t al, size_t n) { (void) al; return sim_malloc(n); }
}

// ---------------------------------------------------------------- life cycle
static int live_children_code = 0;
static void trampoline() {
    Proc *p = S->cur;
    int rc = p->mod->entry((int) p->args.size(), p->argv.data());
    die(P_EXITED, rc & 0xff);
    (void) live_children_code;
}
Ofd::~Ofd() { if (ino) ino->unlock(this); }

static void close_all(Proc *p);
extern "C" int sim_cfg_bits() { return S->cfg_bits; }
extern "C" size_t sim_cfg_datasize() { return S->cfg_datasize; }

// memory of simulated processes lies at addresses that do not differ from one execution to the next (when they are free)
static void *place(size_t n) { static uintptr_t at = 0x200000000000; void *p = mmap((void *) at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); at += (n + (16 << 20)) & ~(uintptr_t) 0xfffff; return p; }
Proc *Sim::spawn(Module *m, const std::vector<Str> &args) {
    Proc *p = new Proc; p->id = (int) procs.size() + 1; p->mod = m; p->args = args;
    for (auto &a : p->args) p->argv.push_back((char *) a.c_str());
    p->argv.push_back(nullptr);
    for (int k = 0; k < 2; k++) p->img[k] = m->pristine[k];
    p->stacksz = 4 << 20;
    p->stack = (char *) place(p->stacksz);
    mprotect(p->stack, 4096, PROT_NONE);
    p->heapcap = (size_t) 2 << 30;
    p->heap = (char *) place(p->heapcap);
    p->fds.resize(3);
    for (int i = 0; i < 3; i++) { p->fds[i] = std::make_shared<Ofd>(); p->fds[i]->t = Ofd::DEVNULL; }
    getcontext(&p->ctx);
    p->ctx.uc_stack.ss_sp = p->stack; p->ctx.uc_stack.ss_size = p->stacksz; p->ctx.uc_link = &sched_ctx;
    makecontext(&p->ctx, (void (*)()) trampoline, 0);
    p->st = P_RUN;
    procs.push_back(p);
    log("SPAWN %s #%d", m->name.c_str(), p->id);
    return p;
}
static void close_all(Proc *p) {
    for (auto &o : p->fds) if (o) {
        // (a process that was stopped in the middle of a call may have left references on its stack)
        bool held = false; for (auto &h : S->hooks) if (h.finish_us > S->mono_us) for (auto &x : h.held) if (x == o) held = true;
        if (o->ino && !held) o->ino->unlock(o.get());
        if (o->t == Ofd::LISTENER) { auto l = S->listeners.find(o->addr); if (l != S->listeners.end() && l->second.lock() == o) S->listeners.erase(l); }
        if (o->t == Ofd::CONN && o->conn && !o->conn->srvclosed) { o->conn->srvclosed = true; if (S->on_srvclose) S->on_srvclose(o->conn.get()); }
        if (o->t == Ofd::LISTENER) for (auto &c : o->backlog) { c->srvclosed = true; c->rst = true; if (S->on_srvclose) S->on_srvclose(c.get()); }
        o.reset();
    }
    p->fds.clear(); p->waiting_epoll.reset();
}
void Sim::reap(Proc *p) {
    vfs.unsettle(); vfs.dirty = true;
    close_all(p);
    if (p->mod->loaded == p) p->mod->loaded = nullptr;
    if (p->stack) { munmap(p->stack, p->stacksz); p->stack = nullptr; }
    if (p->heap) { munmap(p->heap, p->heapcap); p->heap = nullptr; }
}
[[noreturn]] static void die(PState st, int code) {
    Proc *p = S->cur; p->st = st; p->code = code;
    in_proc = 0;
    setcontext(&sched_ctx);
    abort();
}
void sim_die(PState st, int code) { die(st, code); }
void Sim::resume(Proc *p) {
    if (p->st == P_EXITED || p->st >= P_KILLED) return;
    load_img(p);
    cur = p; p->st = P_RUN; p->nsys_resume = 0;
    resume_no = resume_no + 1;
    volatile int done = 0;
    if (sigsetjmp(sched_jb, 1) == 0) {
        in_proc = 1;
        swapcontext(&sched_ctx, &p->ctx);
    } else done = 1;
    (void) done;
    in_proc = 0;
    cur = nullptr;
    if (p->st == P_EXITED) { p->corrupt = heap_bad(p); if (!p->corrupt.empty()) { p->st = P_CRASHED; p->code = SIGABRT; } }
    if (p->st == P_EXITED || p->st >= P_KILLED) {
        log("PROC #%d %s code %d", p->id, pstate_name[p->st], p->code);
        reap(p);
    }
}
void Sim::kill(Proc *p) {
    if (p->st == P_EXITED || p->st >= P_KILLED) return;
    if (heapbad.empty()) heapbad = heap_bad(p);
    p->st = P_KILLED; p->code = SIGKILL;
    log("KILL #%d", p->id);
    reap(p);
}
void sim_yield() { // called on a process stack
    S->vfs.settle();
    Proc *p = S->cur; in_proc = 0; p->st = P_BLOCKED;
    swapcontext(&p->ctx, &sched_ctx);
    in_proc = 1;
    // pending signals are delivered when the process runs again
    while (!p->pendsig.empty()) {
        int s = p->pendsig.front(); p->pendsig.pop_front();
        auto it = p->sig.find(s);
        void (*h)(int) = it == p->sig.end() ? SIG_DFL : it->second;
        S->log("SIGNAL %d to #%d", s, p->id);
        if (h == SIG_IGN) continue;
        if (h == SIG_DFL) die(P_KILLED, s);
        h(s);
    }
}

static void on_segv(int sig, siginfo_t *, void *) {
    if (!in_proc) { // simulator bug
        const char m[] = "simulator crashed\n"; if (write(2, m, sizeof m - 1)) {}
        signal(sig, SIG_DFL); raise(sig); return;
    }
    S->cur->st = P_CRASHED; S->cur->code = sig; in_proc = 0;
    siglongjmp(sched_jb, 1);
}
static void on_tick(int) {
    if (!in_proc) { tick_n = 0; return; }
    if (tick_resume == resume_no) tick_n = tick_n + 1; else { tick_resume = resume_no; tick_n = 0; }
    if (tick_n >= 8) { S->cur->st = P_HUNG; in_proc = 0; tick_n = 0; siglongjmp(sched_jb, 1); }
}
void sim_install_signals() {
    static char alt[1 << 16];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    if (!g_asan) for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
    memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGVTALRM, &sa, nullptr);
    struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

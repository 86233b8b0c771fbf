// Deterministic simulator for 0-db: shared declarations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <memory>
#include <functional>
#include <ucontext.h>
#include <setjmp.h>

typedef std::string Str;

// ---------------------------------------------------------------- randomness
static inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t) below((uint64_t)(b - a + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
uint64_t hash_str(const Str &s, uint64_t h = 1469598103934665603ULL);
uint64_t hash_mem(const void *p, size_t n, uint64_t h = 1469598103934665603ULL);
Str fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
Str printable(const Str &s, size_t max = 40);

// ---------------------------------------------------------------- simulated disk
struct PendWrite { uint64_t off; Str data; bool trunc; bool inplace = false; }; // trunc: set size to off
struct Inode {
    uint64_t id = 0;
    bool dir = false;
    Str data;                       // what processes see (page cache)
    Str durable;                    // what power loss keeps for sure
    std::vector<PendWrite> pend;    // written since the last fsync, in order
    int64_t mtime = 0;
    void *lock_owner = nullptr; std::set<void *> lock_sh;    // open file descriptions holding the flock, alone or shared
    bool locks(void *o) const { return lock_owner == o || lock_sh.count(o); }
    void unlock(void *o) { if (lock_owner == o) lock_owner = nullptr; lock_sh.erase(o); }
    bool lock_shared = false;
    // append-only monitor (data files)
    bool isdata = false;
    uint64_t sealed = 0;            // bytes up to the end of the last complete record
    bool rotated = false;           // a newer data file is in use
    std::weak_ptr<Inode> newer;     // a newer data file is being created
    bool ignore_monitor = false;    // file replaced by the test itself
};
typedef std::shared_ptr<Inode> InodeP;
struct MetaOp { enum T { LINK, UNLINK } t; Str path; InodeP ino; };

struct Vfs {
    std::map<Str, InodeP> tree;          // current name space
    std::map<Str, InodeP> dtree;         // durable name space
    std::vector<MetaOp> journal;         // name-space changes not yet committed
    uint64_t nextino = 1;
    uint64_t hashseed = 0;               // readdir order
    uint64_t disk_free = 1ull << 40;     // bytes left before ENOSPC
    bool dirty = false; void settle(); void unsettle(); bool linked(Inode *i) const;
    Str norm(const Str &p) const;
    InodeP get(const Str &p) const;
    InodeP create(const Str &p, bool dir);
    void unlink(const Str &p);
    int rename(const Str &a, const Str &b);
    void commit_meta();
    void sync_all();
    void fsync(Inode *i);
    void wr(Inode *i, uint64_t off, const void *p, size_t n);
    void trunc(Inode *i, uint64_t n);
    std::vector<Str> list(const Str &dir) const;    // names, in readdir order
    void powerloss(Rng &r, double keep);
    bool torn_inplace = false;           // a power loss kept a part of an overwrite of existing bytes
    Str parent(const Str &p) const;
    void mkdirs(const Str &p);
    void put(const Str &p, const Str &content);     // durable file written by the environment
    std::map<Str, Str> snapshot(const Str &prefix) const;
};

// ---------------------------------------------------------------- simulated network
struct Conn {
    int id = 0;
    Str inbuf;                 // delivered to the server socket, not yet read
    size_t inpos = 0;
    bool shut = false;         // the server shut the connection down
    bool fin = false;          // client closed its sending side (delivered)
    bool rst = false;          // connection reset (delivered)
    Str outbuf;                // sent by the server, not yet read by the client
    size_t outcap = 1 << 22;
    bool nospace = false;
    bool srvclosed = false;    // server closed its side
    bool accepted = false;
    uint64_t consumed = 0;     // bytes read by the server so far
    uint64_t sent = 0;         // bytes sent by the server so far
    int sfd = -1;
    // log of (consumed-up-to, time) steps is produced through callbacks
};
typedef std::shared_ptr<Conn> ConnP;

struct Ofd {
    enum T { FILE_, DIRT, SOCK, LISTENER, CONN, EPOLL, DEVNULL } t = FILE_;
    InodeP ino; Str path; uint64_t pos = 0; int flags = 0;
    ConnP conn;
    // listener
    Str addr; std::deque<ConnP> backlog; bool listening = false;
    // epoll
    struct Int { uint32_t ev; uint64_t data; std::weak_ptr<Ofd> o; };
    std::map<int, Int> interest; std::deque<int> ready;
    // which epoll instances watch this file description
    std::vector<std::pair<std::weak_ptr<Ofd>, int>> watchers;
    ~Ofd();
};
typedef std::shared_ptr<Ofd> OfdP;

// ---------------------------------------------------------------- processes
struct Module {                 // one linked program (server, tool, library driver)
    Str name;
    char *beg[2], *end[2];      // its writable sections
    Str pristine[2];
    int (*entry)(int, char **); void (*preopen)();
    struct Proc *loaded = nullptr;
};
enum PState { P_NEW, P_BLOCKED, P_RUN, P_EXITED, P_KILLED, P_CRASHED, P_HUNG };
extern const char *pstate_name[];
struct Hook { int pid; std::vector<Str> argv; int64_t finish_us; int code; bool reaped = false, waited = false; int64_t reap_s = 0, reap_us = 0; struct Proc *owner; int64_t start_us; std::vector<OfdP> held; };
struct Proc {
    int id = 0;
    Module *mod = nullptr;
    PState st = P_NEW;
    int code = 0;
    ucontext_t ctx;
    char *stack = nullptr; size_t stacksz = 0;
    char *heap = nullptr; size_t heapcap = 0, heaptop = 0;
    void *freel[64] = {0};
    uint64_t live_bytes = 0, live_blocks = 0;
    Str img[2];
    std::vector<Str> args; std::vector<char *> argv;
    std::vector<OfdP> fds;
    std::map<int, void (*)(int)> sig;
    std::deque<int> pendsig;
    bool in_sig = false, preopened = false;
    OfdP waiting_epoll;
    int64_t wait_deadline = 0;
    bool timed_out = false;
    uint64_t nsys = 0, nsys_resume = 0;
    Str corrupt;                // heap corruption report
    // library driver mailbox
    std::vector<Str> cmd; Str reply; bool want_cmd = false; int cmdcode = 0;
};

// ---------------------------------------------------------------- faults
enum FK { F_WRITE = 1, F_READ = 2, F_OPEN = 4, F_FSYNC = 8, F_LSEEK = 16, F_UNLINK = 32, F_MKDIR = 64, F_FORK = 128,
          F_MALLOC = 256, F_FTRUNC = 512, F_RENAME = 1024, F_SEND = 2048, F_RECV = 4096, F_ACCEPT = 8192, F_LOCK = 16384, F_CREATE = 32768, F_ANY = 1 << 30 };
const char *fk_name(int k);
int fk_parse(const Str &s);
struct Fault {
    int kind = 0;              // mask of FK
    Str path;                  // substring filter on the path class: data, index, desc, lock, "" = any
    int skip = 0;              // matching calls to let through first
    int count = 1;             // number of firings (-1 = until cleared)
    int err = 0;               // errno
    int64_t part = -1;         // for read/write: bytes done before the error / short count (-1: plain error)
    int fired = 0;
};

struct Sim {
    Vfs vfs;
    int64_t mono_us = 1000000;           // simulated monotonic clock
    int64_t wall_off_us = 1700000000LL * 1000000;
    int64_t tick_us = 1;                 // time consumed by each clock reading
    int64_t systick_us = 0;              // time consumed by each system call
    Rng tick_rng{1}; bool tick_random = false;
    Rng srand_rng{1};
    std::vector<Fault> faults;
    bool faults_on = true;
    // armed crash
    bool crash_armed = false; int crash_kind = 0; int crash_skip = 0; int crash_torn = -1; // torn: bytes/permille
    bool crash_fired = false;
    // asynchronous signal armed at the nth system call
    bool sig_armed = false; int sig_no = 0; int sig_skip = 0;
    std::vector<Proc *> procs;
    Proc *cur = nullptr;
    std::vector<Hook> hooks;
    std::function<void(Hook &)> on_hook;
    int nextpid = 1000;
    std::map<Str, std::weak_ptr<Ofd>> listeners;
    uint64_t loghash = 14695981039346656037ULL;
    bool trace = false; FILE *tracef = nullptr;
    bool srvout = false; bool capture = false; std::string outtext, heapbad; // (what a tool prints, when asked for)
    std::map<Str, uint64_t> nfault;      // what was really injected
    std::map<Str, uint64_t> probe;       // rare conditions reached
    std::set<uint64_t> states;           // distinct states (abstract) reached
    uint64_t nsyscalls = 0, nfired = 0;
    int fillbyte = 0xA5;
    // observers
    std::function<void(Conn *)> on_consume;     // server read bytes
    std::function<void(Conn *, size_t)> on_send; // server sent n bytes
    std::function<void(Conn *)> on_srvclose;
    std::function<void(const Str &, uint64_t, uint64_t)> on_write; std::function<void(const Str &)> on_fsync; int64_t syncperiod = 0;
    std::function<void(const Str &)> on_mutate;  // a process changes a path
    int64_t yield_after = -1;                   // system calls until the running process is suspended
    std::vector<Str> disk_violation;            // append-only monitor reports
    bool monitor = true;
    std::vector<Str> ro;                        // parts of the tree on a file system that is read-only now
    // fsync bookkeeping
    uint64_t fs_seq = 0;
    int64_t sockbuf = 1 << 22;
    int frag_send = 0;                          // >0: send() accepts at most this many bytes at once
    uint64_t max_sys = 3000000;
    int cfg_bits = 0; size_t cfg_datasize = 0;   // sizes given to the code under test
    uint64_t unfsynced_data() const;

    struct Net { ConnP c; Str tx, rx; bool eof = false; }; std::vector<Net> nets; int netwait = -1; std::map<Str, Str> hosts;   // outgoing connections of the running utility
    Proc *spawn(Module *m, const std::vector<Str> &args);
    void resume(Proc *p);
    void kill(Proc *p);
    void reap(Proc *p);
    int64_t wall() const { return mono_us + wall_off_us; }
    int64_t wall_s() const { return wall() / 1000000; }
    void log(const char *f, ...) __attribute__((format(printf, 2, 3)));
    void wake_conn(Conn *c);
    bool has_ready(Proc *p);
    ConnP connect(const Str &addr);
};
extern Sim *S;
extern bool g_asan;
void modules_init();
Module *module_by_name(const Str &n);
void sim_install_signals();
void ofd_wake(Ofd *o);
OfdP conn_ofd(Conn *c);
// data-file format, parsed independently of the code under test
struct DRec { uint64_t off; uint32_t prev, crc, ts; uint8_t flags; Str id, payload; };
struct DFile { bool header = false; uint32_t version = 0, fileid = 0; std::vector<DRec> recs; uint64_t end = 0; bool torn = false; };
DFile parse_data(const Str &d);
struct IRec { uint64_t off; uint32_t offset, length, previous, ts, crc, parentid, parentoff, dataid; uint8_t flags; Str id; };
struct IFile { bool header = false; uint32_t version = 0, fileid = 0; uint8_t mode = 0; std::vector<IRec> recs; bool torn = false; };
std::string heap_bad(Proc *p);
IFile parse_index(const Str &d);
uint32_t crc32c(const Str &s);
Str sha1_hex(const Str &s);

// Reference model of the whole server, written from the documentation: a map per namespace.
#pragma once
#include "sim.h"

struct Reply {
    char t = 0;                 // '+', '-', ':', '$', '*', 'n' (nil)
    Str s; int64_t i = 0; std::vector<Reply> a;
    bool err() const { return t == '-'; }
    bool nil() const { return t == 'n'; }
    Str show(size_t max = 60) const;
};
// parse one reply from b at pos; returns 1 ok (pos advanced), 0 incomplete, -1 malformed
int parse_reply(const Str &b, size_t &pos, Reply &r, int depth = 0);

struct TsRange { int64_t lo = 0, hi = 0; bool ok(int64_t v) const { return v >= lo && v <= hi; } void fix(int64_t v) { lo = hi = v; } };
struct Ver { Str val; TsRange ts; uint64_t num; bool gone = false; }; // gone: the payload was dropped by a compaction
struct MKey { Ver cur; std::vector<Ver> hist; uint64_t ord = 0; bool fuzzy = false; };
// what the data files must hold: one record per executed SET and DEL, in order
struct LogRec { Str key, val; bool del = false, anyid = false, maybe = false; TsRange ts; };
struct MNs {
    std::vector<LogRec> log;
    bool seq = false, pub = true, haspass = false, worm = false, anymax = false; Str pass; uint64_t maxsize = 0; int locked = 0;
    std::map<Str, MKey> keys;
    uint64_t nextord = 1, nextver = 1, gen = 0;
    bool anyid = false; uint64_t maxid = 0, upd = 0;   // upd: attempts that may have consumed an id
    std::set<uint64_t> ids;               // every id generated so far
    std::vector<Ver> ghosts;              // insertions that may have happened with an unknown id
    bool mayused = false, fresh = true;                    // nothing was ever written
    int64_t promise = -1;                 // next_internal_id as last announced
    std::map<Str, std::pair<Str, uint64_t>> ekeys;   // history reference -> key, version number
    std::map<Str, uint64_t> cursors;      // scan cursor -> order position
    std::map<Str, Str> curkey;            // scan cursor -> key it stood on
    bool maybeghost(uint64_t id) const { for (auto &g : ghosts) if (id >= g.num) return true; return false; }
    uint64_t datasize() const { uint64_t t = 0; for (auto &k : keys) t += k.second.cur.val.size(); return t; }
};
struct MSess { Str ns = "default"; uint64_t gen = 0; bool detached = false, admin = false, writable = true, hasnonce = false, noncemaybe = false, master = false, mirror = false; Str nonce; };

struct Op {
    int client = 0; int step = 0; std::vector<Str> args; Str raw;
    uint64_t end = 0;           // offset in the client's byte stream where the request ends
    bool consumed = false, replied = false, indoubt = false, dead = false;
    bool faulted = false;       // a fault was injected while it executed
    bool wait = false; bool noreply = false;
    int64_t t_issue = 0, t_cons = 0, t_cons_mono = 0, t_sent = 0, t_sent_mono = 0;
    Reply r; Str tag;           // remember results under this tag (cursor / history slots)
    uint64_t seqno = 0, f0 = 0;
    std::set<Str> gone, goneany;  // keys whose value (any version) could not be read: its data file is missing
};
typedef std::shared_ptr<Op> OpP;

struct Model {
    std::map<Str, MNs> ns;
    std::map<int, MSess> sess;
    uint64_t nextgen = 1;
    Str adminpwd; bool hasadmin = false;
    Str srvmode = "mix";
    void init(bool seqdefault);
    void restart();             // volatile state is gone
    // apply op with its reply (or, without a reply, its full effect); false + why when the reply is impossible
    bool step(const Op &op, const Reply *r, Str &why, Str &kind);
    bool mutates(const Op &op) const;
    void cut(const Op &op);     // op may have been cut by a crash: its record may exist
    uint64_t digest() const;
};
Str seqkey(uint64_t id);
Str upper(Str s);
extern const char *DEFNS;

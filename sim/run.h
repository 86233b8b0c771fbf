// Plans (what a run does) and the runner that executes one plan against the simulated system.
#pragma once
#include "sim.h"
#include "model.h"

struct Step { int id = 0; Str verb; std::vector<Str> a; };
struct Plan {
    std::map<Str, Str> cfg; std::vector<Step> steps;
    Str text() const; bool parse(const Str &t, Str &err);
    int64_t num(const Str &k, int64_t d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : strtoll(i->second.c_str(), 0, 10); }
    Str str(const Str &k, const Str &d = "") const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
    Step &add(const Str &verb, std::vector<Str> a = {}) { Step s; s.id = steps.empty() ? 1 : steps.back().id + 1; s.verb = verb; s.a = a; steps.push_back(s); return steps.back(); }
};
Str lit(const Str &s);                       // literal argument
Str gen_value(uint64_t len, uint64_t seed);

struct Viol { bool hit = false; Str kind, why; int step = 0; };

struct Client {
    int id = 0; ConnP conn; Str outq; uint64_t enq = 0; std::deque<OpP> ops; Str rx; size_t rxpos = 0;
    bool srvclosed = false, finsent = false, rstsent = false, raw = false, mirror = false, slow = false;
    std::vector<Reply> stream;               // what a mirror connection received
    OpP wait; Str nonce;                     // outstanding WAIT; last challenge
    std::set<Str> *dummy = nullptr;
};
struct Waiter { int client; Str ns; uint64_t gen; Str cmd; int64_t t_recv, t_set, timeout_ms; OpP op; int due = 0; bool matched = false, fuzzy = false; Str by; };

struct Runner {
    Plan plan; Viol v; std::vector<std::pair<Str, Str>> foreign;
    Proc *srv = nullptr; Module *mod = nullptr;
    std::map<int, Client> cl; std::map<int, int> conn2cl;
    std::vector<Model> cand; std::deque<OpP> execq;
    int curstep = 0, ghostid = 1000; uint64_t opseq = 0; Rng sched{1};
    bool hold = false, pipelined = false, ending = false, idling = false, roserved = false; Str roset; void setro(const Str &w); int nodelay = 0;
    std::map<Str, std::vector<Str>> seqkeys; std::map<Str, std::set<Str>> universe;   // per namespace
    std::map<int, Str> cursor, href;
    std::vector<Waiter> waiters;
    std::vector<Str> shapes; uint64_t nops = 0, nacked = 0, ncrash = 0, nrestart = 0, nverify = 0;
    int64_t t0 = 0;
    std::map<Str, uint64_t> cmdcount;
    std::function<bool(const Str &)> relevant;      // violation kinds of the property under check

    Runner(const Plan &p);
    void run();
    void fail(const Str &kind, const Str &why);
    // server
    std::vector<Str> server_args();
    bool start(bool mayfail = false);
    void after_end();                        // server process ended: settle in-doubt requests
    void resume(); void tick();
    bool alive() { return srv && srv->st == P_BLOCKED; }
    void expect_alive(const char *when);
    // clients
    bool open(int c, const Str &addr = ""); void closec(int c, bool rst);
    OpP issue(int c, const std::vector<Str> &args);
    void deliver(Client &c, size_t n); void turn(); bool pending(); bool unanswered();
    void quiesce(); void drain(Client &c, size_t n);
    void on_consume(Conn *k); void on_send(Conn *k, size_t n); void on_srvclose(Conn *k);
    void got(Client &c, const Reply &r);
    void process();
    void doubt(OpP o); void apply(OpP op, const Reply *r);
    void waited(Client &c, const Waiter &w, const Reply &r);
    void executed(OpP op);                   // WAIT bookkeeping
    Reply call(int c, const std::vector<Str> &args, bool *ok = nullptr);
    void verify(const Str &what);
    bool admin_session(int c);
    Str resolve(int c, const Str &a);
    void step(const Step &s);
    bool special(const Step &s);             // steps of single properties (special.cpp)
    void finish();
    void check_disk(); void datacheck(const Str &only = ""); void dataraw(); bool oom(); uint64_t oom0 = 0; void rebuild(const Step &s); std::vector<Step> torebuild; std::vector<Step> offline; void tools(const Step &s); bool tool_step(const Step &s);
    bool syncing(const Step &s); void sync_observe(); bool sync_pump(int n); void sync_ended(); void sync_compare(bool latest); void sync_finish();
    struct LeakRec { Str sig; int64_t blocks = 0, bytes = 0, fds = 0, files = 0; }; std::vector<LeakRec> leaks; bool leak_step(const Step &s);
    bool instances(const Step &s);
    // scripts run by the server
    void hook_cb(Hook &h); void hook_answered(OpP o); void hook_started(bool booted); void hook_stopped(); void hook_list(const Reply &r, uint64_t asked); void backup_now(bool reset); bool hooks(const Step &s); void hooks_init();
    void timers_init(); void timers_start(); void timers_before(); void timers_after(); void timers_sent();
    // program with the embedded library
    Proc *lib = nullptr; uint64_t libf0 = 0; bool libpart = false; void lib_go(bool closing); bool lib_open(); void lib_kill(); void lib_call(const Str &what, const Str &ns, const std::vector<Str> &a); void lib_verify(); bool library(const Step &s);
    std::vector<Str> encode_cmd(const std::vector<Str> &a);
    Str base = "/db"; Str root_data() const { return base + "/data"; } Str root_index() const { return base + "/index"; }
    // mirror connections and the replica
    void mirror_init(); void mirror_executed(OpP o, const Str &ns, const Reply *r); void mirror_check(bool all); void mirror_gone(); bool mirror(const Step &s);
};
Str resp(const std::vector<Str> &a);
struct Outcome { Viol v; std::vector<std::pair<Str, Str>> foreign; uint64_t hash = 0; int64_t simus = 0; uint64_t ops = 0, acked = 0, crashes = 0, restarts = 0, verifies = 0, nsys = 0; std::map<Str, uint64_t> faults, probes, cmds; std::set<uint64_t> states; };
Outcome execute(const Plan &p, const std::function<bool(const Str &)> &relevant, bool trace, bool srvout);
Plan generate(const Str &prop, uint64_t seed, bool thorough);
bool relevant_kind(const Str &prop, const Str &kind);

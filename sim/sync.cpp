// The utilities that copy the default namespace to another server through the network (C27): db-sync (once) and db-replicate (continuously).
#include "run.h"
#include <algorithm>

struct SyncSt {
    Proc *tool = nullptr, *B = nullptr; bool repl = false, excuse = false; Rng rng{1};
    std::map<Str, std::set<Str>> seen;      // what each key of the source held since the tool started ("-": nothing, "=value")
    std::map<Str, Str> pre; std::set<Str> ever;
    uint64_t f0 = 0; bool prot = false, first = false;
};
static SyncSt *Y;
static Str YA(const Step &s, size_t i, const Str &d = "") { return i < s.a.size() ? s.a[i] : d; }
static bool up(Proc *p) { return p && p->st == P_BLOCKED; }

struct Link2 { // one connection to the target, outside the model
    Runner &r; Proc *p; ConnP c; size_t pos = 0;
    Link2(Runner &r, Proc *p) : r(r), p(p) { c = S->connect("unix:/db-sync/sock"); if (c) c->outcap = 1 << 26; spin(); }
    ~Link2() { if (c) { c->fin = true; S->wake_conn(c.get()); spin(); } }
    void spin() { for (int i = 0; i < 500 && up(p) && S->has_ready(p) && !r.v.hit; i++) { S->yield_after = -1; S->resume(p); } if (!up(p) && !r.v.hit) r.fail("died", fmt("target: %s %s", pstate_name[p->st], p->corrupt.c_str())); }
    bool ask(const std::vector<Str> &a, Reply &x) { if (!c || r.v.hit) return false; c->inbuf += resp(a); S->wake_conn(c.get()); spin(); S->mono_us += 20; size_t q = pos; if (r.v.hit || parse_reply(c->outbuf, q, x) != 1) return false; pos = q; return true; }
};
void Runner::sync_observe() {
    if (!Y || !Y->tool) return;
    std::set<Str> all; for (auto &m : cand) for (auto &k : m.ns[DEFNS].keys) all.insert(k.first); for (auto &k : Y->seen) all.insert(k.first);
    for (auto &k : all) { bool fresh = !Y->seen.count(k); auto &s = Y->seen[k]; if (fresh && !Y->first) s.insert("-");
        for (auto &m : cand) { auto &ks = m.ns[DEFNS].keys; auto it = ks.find(k); if (it == ks.end()) s.insert("-"); else { s.insert("=" + it->second.cur.val); if (it->second.fuzzy) s.insert("?"); } } }
    Y->first = false;
}
bool Runner::sync_pump(int n) { // n steps of the network, the utility or one of the servers; false when nothing can move
    bool any = false;
    for (int i = 0; i < n && Y->tool && !v.hit; i++) {
        struct Act { int k; size_t j; }; std::vector<Act> can; auto &ns = S->nets;
        for (size_t j = 0; j < ns.size(); j++) { auto &x = ns[j]; if (!x.tx.empty() && !x.c->srvclosed) can.push_back({0, j}); if (!x.c->outbuf.empty()) can.push_back({1, j}); if (x.c->srvclosed && x.c->outbuf.empty()) x.eof = true; }
        if (alive() && S->has_ready(srv)) can.push_back({2, 0}); if (up(Y->B) && S->has_ready(Y->B)) can.push_back({3, 0});
        if (up(Y->tool) && (S->netwait < 0 || !ns[S->netwait].rx.empty() || ns[S->netwait].eof)) can.push_back({4, 0});
        if (can.empty()) return any;
        any = true; Act a = can[Y->rng.below(can.size())]; size_t whole = Y->rng.below(3);
        if (a.k == 0) { auto &x = ns[a.j]; size_t m = whole ? x.tx.size() : 1 + Y->rng.below(x.tx.size()); x.c->inbuf.append(x.tx, 0, m); x.tx.erase(0, m); S->wake_conn(x.c.get()); }
        else if (a.k == 1) { auto &x = ns[a.j]; size_t m = whole ? x.c->outbuf.size() : 1 + Y->rng.below(x.c->outbuf.size()); x.rx.append(x.c->outbuf, 0, m); x.c->outbuf.erase(0, m); if (x.c->nospace) { x.c->nospace = false; S->wake_conn(x.c.get()); } }
        else if (a.k == 2) resume();
        else if (a.k == 3) { S->yield_after = -1; S->resume(Y->B); if (!up(Y->B) && !S->crash_fired) fail("died", fmt("target: %s %s", pstate_name[Y->B->st], Y->B->corrupt.c_str())); }
        else { S->resume(Y->tool); if (!up(Y->tool)) sync_ended(); }
        S->mono_us += 5 + Y->rng.below(30);
    }
    return any;
}
void Runner::sync_ended() { // the utility ended by itself or was killed
    sync_observe();
    Proc *t = Y->tool; Y->tool = nullptr; Str name = Y->repl ? "db-replicate" : "db-sync";
    for (auto &x : S->nets) { x.c->fin = true; S->wake_conn(x.c.get()); } S->nets.clear(); S->netwait = -1;
    S->log("%s: %s, code %d", name.c_str(), pstate_name[t->st], t->code);
    if (t->st == P_KILLED) { S->probe["sync_killed"]++; return; }
    if (t->st != P_EXITED) { fail("sync.died", fmt("%s: %s %s", name.c_str(), pstate_name[t->st], t->corrupt.c_str())); return; }
    bool excuse = Y->excuse || S->nfired != Y->f0 || !alive() || !up(Y->B);
    if (Y->repl || t->code != 0) { if (!excuse) fail("sync.failed", fmt("%s ends with code %d although nothing failed", name.c_str(), t->code)); S->probe["sync_refused"]++; return; }
    S->probe["sync_done"]++; sync_compare(false);
}
void Runner::sync_compare(bool latest) {
    if (!alive() || !up(Y->B) || v.hit) return;
    while (up(Y->B) && S->has_ready(Y->B) && !v.hit) S->resume(Y->B);
    std::vector<Fault> keep = S->faults; S->faults.clear();
    { Link2 l(*this, Y->B); Reply x; std::set<Str> keys; Str cur; const char *who = latest ? "db-replicate" : "db-sync";
      for (auto &k : Y->pre) keys.insert(k.first); for (auto &k : Y->ever) keys.insert(k); for (auto &k : Y->seen) keys.insert(k.first);
      for (int i = 0; i < 100000 && !v.hit; i++) { // nothing else came to the target
          std::vector<Str> q = {"SCAN"}; if (i) q.push_back(cur); if (!l.ask(q, x) || x.t != '*' || x.a.size() < 2) break; cur = x.a[0].s;
          for (auto &e : x.a[1].a) if (e.a.size() && !keys.count(e.a[0].s)) { fail("sync.extra", fmt("after %s the target holds %s, which neither database had", who, printable(e.a[0].s).c_str())); break; } }
      for (auto &k : keys) { if (v.hit) break;
          if (!l.ask({"GET", k}, x)) { if (!v.hit) fail("sync.target", "the target does not answer"); break; }
          Str got = x.t == '$' && !x.nil() ? "=" + x.s : "-"; S->probe["sync_compared"]++;
          auto it = Y->seen.find(k); bool deleted = false; std::set<Str> may = it == Y->seen.end() ? std::set<Str>() : it->second;
          if (may.count("?")) continue;
          if (latest && may.count("-")) { bool now = false; for (auto &m : cand) if (m.ns[DEFNS].keys.count(k)) now = true; if (!now) deleted = true; } // (deletions are not replicated)
          if (latest && !deleted) { may.clear(); for (auto &m : cand) { auto &ks = m.ns[DEFNS].keys; auto j = ks.find(k); may.insert(j == ks.end() ? "-" : "=" + j->second.cur.val); } }
          if (may.count("-") && (it == Y->seen.end() || it->second.count("-"))) { if (Y->pre.count(k)) may.insert("=" + Y->pre[k]); if (Y->ever.count(k)) continue; }
          if (it == Y->seen.end()) { if (Y->ever.count(k)) continue; may.insert("=" + Y->pre[k]); }
          if (!may.count(got)) { Str w; for (auto &m : may) w += (w.empty() ? "" : " or ") + printable(m, 30); fail("sync.value", fmt("after %s the target holds %s for the key %s, the source %s", who, printable(got, 30).c_str(), printable(k).c_str(), w.c_str())); } }
    }
    S->faults = keep;
}
bool Runner::syncing(const Step &s) {
    if (s.verb == "SYNC") { // tool, mode of the target, its size limit, protected, keys it has, keep what the last one left
        if (!alive() || (Y && Y->tool)) return true;
        quiesce(); if (v.hit || !alive() || cand.size() != 1) return true;
        static SyncSt st; bool cont = Y && YA(s, 5) == "1" && up(Y->B);
        if (!Y) Y = &st;
        if (!cont) { if (up(Y->B)) S->kill(Y->B); Y->pre.clear(); Y->ever.clear(); for (auto &k : S->vfs.snapshot("/db-sync/")) S->vfs.unlink(k.first); for (const char *d : {"/db-sync/data/default", "/db-sync/index/default", "/db-sync/data", "/db-sync/index"}) if (S->vfs.get(d)) S->vfs.unlink(d); }
        else for (auto &k : Y->seen) Y->ever.insert(k.first);
        Y->rng = Rng(plan.num("sched", 1) * 613ULL + s.id); Y->repl = YA(s, 0) == "repl"; Y->seen.clear(); Y->f0 = S->nfired;
        if (!cont) {
            Y->excuse = false; Y->prot = false; S->vfs.mkdirs("/db-sync"); std::vector<Str> a = {"zdb", "--data", "/db-sync/data", "--index", "/db-sync/index", "--socket", "/db-sync/sock", "--mode", YA(s, 1, "user")};
            if (YA(s, 1) == "seq") Y->excuse = true; if (YA(s, 2, "-") != "-") { a.push_back("--maxsize"); a.push_back(YA(s, 2)); Y->excuse = true; }
            if (YA(s, 3) == "1") { for (const char *o : {"--admin", "adm", "--protect"}) a.push_back(o); Y->excuse = true; Y->prot = true; }
            std::vector<Fault> keep = S->faults; S->faults.clear();
            Y->B = S->spawn(mod, a); S->resume(Y->B); if (!up(Y->B)) { fail("start", "the target server does not start"); return true; }
            Link2 l(*this, Y->B); Reply x; int n = atoi(YA(s, 4, "0").c_str()); if (Y->prot) l.ask({"SELECT", "default", "adm"}, x);
            for (int i = 0; i < n && !v.hit; i++) { Str k = resolve(0, fmt("k:%d", (int) Y->rng.below(60))), val = fmt("before %d", i); if (l.ask({"SET", k, val}, x) && !x.err()) Y->pre[k] = val; }
            S->faults = keep;
            if (v.hit) return true;
        }
        S->hosts["source"] = plan.str("net", "unix") == "tcp" ? Str("tcp:9900") : "unix:" + base + "/sock"; S->hosts["target"] = "unix:/db-sync/sock"; S->nets.clear(); S->netwait = -1;
        Y->tool = S->spawn(module_by_name(Y->repl ? "dbrepl" : "dbsync"), {Y->repl ? "db-replicate" : "db-sync", "--source-host", "source", "--remote-host", "target"});
        Y->first = true; sync_observe(); S->probe[Y->repl ? "replicate" : "sync"]++;
        S->resume(Y->tool); if (!up(Y->tool)) sync_ended();
        return true;
    }
    if (!Y || !Y->tool) return s.verb == "SYNCEND" || s.verb == "SYNCKILL";
    sync_observe();
    if (s.verb == "RESTART") Y->excuse = true;
    if (s.verb == "C" && YA(s, 3) == "s:freeze") { Y->excuse = true; S->probe["sync_frozen"]++; }
    if (s.verb == "SYNCKILL") { // tool or target
        S->nfault[YA(s, 0) == "tool" ? "kill-utility" : "kill-target"]++;
        if (YA(s, 0).compare(0, 4, "conn") == 0) { size_t j = atoi(YA(s, 0).c_str() + 4); Y->excuse = true; if (j < S->nets.size()) { auto &x = S->nets[j]; S->nfault["cut-utility"]++; x.tx.clear(); x.c->outbuf.clear(); if (Y->rng.below(2)) x.rx.clear(); x.eof = true; x.c->fin = true; S->wake_conn(x.c.get()); } return true; }
        if (YA(s, 0) == "tool") { S->kill(Y->tool); sync_ended(); } else if (up(Y->B)) S->kill(Y->B);
        return true;
    }
    if (s.verb == "SYNCEND") {
        int idle = 0; bool hang = false; int64_t t = S->mono_us; std::vector<Fault> keep = S->faults; if (Y->repl) S->faults.clear();
        for (int i = 0; Y->tool && !v.hit; i++) {
            if (sync_pump(50)) { idle = 0; if (i > 20000) { hang = true; break; } if (!Y->repl || S->mono_us - t < 40000000) continue; break; }
            if (!Y->tool || v.hit) break;
            if (++idle > 30 && !Y->repl) { hang = true; break; }
            if (Y->repl && S->mono_us - t > 40000000) break;
            if (alive()) tick(); else S->mono_us += 200000;
            if (up(Y->B) && !S->has_ready(Y->B) && Y->B->wait_deadline <= S->mono_us) { Y->B->timed_out = true; S->resume(Y->B); }
        }
        S->faults = keep;
        if (hang && !v.hit) fail("sync.hung", fmt("%s does not end", Y->repl ? "db-replicate" : "db-sync"));
        if (v.hit || !Y->tool) return true;
        if (Y->repl) { sync_observe(); if (!Y->excuse && S->nfired == Y->f0 && up(Y->B) && alive()) { S->probe["replicated"]++; sync_compare(true); } if (!v.hit) { S->kill(Y->tool); sync_ended(); } }
        return true;
    }
    sync_pump((int) Y->rng.below(60));
    return false;
}
void Runner::sync_finish() { if (Y && Y->tool && !v.hit) { S->kill(Y->tool); sync_ended(); } if (Y && up(Y->B)) S->kill(Y->B); }

// Several instances over the same directories (C23).
#include "run.h"
#include <csignal>
#include <algorithm>

struct Inst { Proc *p = nullptr; Str d, i; bool running = false, rival = false, ending = false; std::set<Str> touched; };
struct Instances {
    std::map<int, Inst> in; std::map<Str, Str> dpart, ipart;       // which directories were used together
    std::map<Str, std::map<Str, Str>> kv; std::set<Str> mixed;
    Str bad;
};
static Instances *X;
static bool up(const Inst &x) { return x.p && x.p->st != P_EXITED && x.p->st < P_KILLED; }
static bool under(const Str &p, const Str &d) { return p == d || p.compare(0, d.size() + 1, d + "/") == 0; }
static bool lockf(const Str &p) { size_t k = p.rfind('/'); return p.substr(k + 1) == ".lockfile"; }
static bool holds(const Inst &x, const Str &dir) { for (auto &o : x.p->fds) if (o && o->t == Ofd::FILE_ && under(o->path, dir) && !lockf(o->path)) return true; return false; }
static bool share(const Inst &a, const Inst &b) { return a.d == b.d || a.i == b.i || a.d == b.i || a.i == b.d; }
static void mutated(const Str &path) {
    if (lockf(path)) return;
    for (auto &k : X->in) {
        Inst &x = k.second; if (x.p != S->cur) continue;
        for (auto &dir : {x.d, x.i}) {
            if (path == dir || !under(path, dir)) continue; // making the directory itself is harmless
            x.touched.insert(path);
            for (auto &q : X->in) if (q.first != k.first && up(q.second) && (q.second.d == dir || q.second.i == dir) && holds(q.second, dir) && X->bad.empty()) X->bad = fmt("instance %d changes %s while instance %d has files of %s open", k.first, path.c_str(), q.first, dir.c_str());
        }
    }
}
static void settle(Runner &r, int id) {
    Inst &x = X->in[id];
    for (auto &q : X->in) if (q.first != id && up(q.second) && share(x, q.second)) { if (!x.running && up(x)) x.rival = true; if (!q.second.running) q.second.rival = true; }
    if (!X->bad.empty()) { r.fail("instance.shared", X->bad); return; }
    Str pair = x.d + " " + x.i;
    bool mism = x.d == x.i || (X->dpart.count(x.d) && X->dpart[x.d] != x.i) || (X->ipart.count(x.i) && X->ipart[x.i] != x.d);
    if (x.touched.size() && (x.running || up(x))) { if (mism) { for (auto &k : X->kv) X->mixed.insert(k.first); X->mixed.insert(pair); } X->dpart[x.d] = x.i; X->ipart[x.i] = x.d; }
    if (up(x)) {
        if (x.p->wait_deadline == 0 || x.running) return; // suspended
        x.running = true; S->probe["instance_started"]++;
        for (auto &q : X->in) if (q.first != id && up(q.second) && q.second.running && !q.second.ending && share(x, q.second)) { r.fail("instance.both", fmt("instances %d (%s, %s) and %d (%s, %s) run at the same time", id, x.d.c_str(), x.i.c_str(), q.first, q.second.d.c_str(), q.second.i.c_str())); return; }
        return;
    }
    if (x.p->st == P_CRASHED || x.p->st == P_HUNG) { r.fail("died", fmt("instance %d: %s %s", id, pstate_name[x.p->st], x.p->corrupt.c_str())); return; }
    if (!x.running && x.p->st == P_EXITED && !x.ending) { // refused
        S->probe["instance_refused"]++;
        if (x.touched.size()) { r.fail("instance.touched", fmt("instance %d refused to start but changed %s", id, x.touched.begin()->c_str())); return; }
        if (!x.rival && !mism) { r.fail("instance.refused", fmt("instance %d (%s, %s) does not start although no other instance uses its directories", id, x.d.c_str(), x.i.c_str())); return; }
        if (x.p->code == 0) { r.fail("instance.status", fmt("instance %d refused to start but ended with status 0", id)); return; }
    }
}
static void go(Runner &r, int id, int64_t yield) { Inst &x = X->in[id]; S->yield_after = yield; S->resume(x.p); S->yield_after = -1; settle(r, id); }
static bool ask(Runner &r, int id, const std::vector<Str> &args, Reply &rep) {
    Inst &x = X->in[id]; ConnP c = S->connect(fmt("unix:/db/sock%d", id)); if (!c) return false;
    c->inbuf += resp(args); S->wake_conn(c.get()); bool ok = false; r.nops++; r.cmdcount[args[0]]++;
    for (int i = 0; i < 60 && up(x) && !r.v.hit; i++) {
        if (S->has_ready(x.p)) go(r, id, -1); else break;
        size_t pos = 0; if (parse_reply(c->outbuf, pos, rep) == 1) { ok = true; r.nacked++; break; }
    }
    c->fin = true; S->wake_conn(c.get()); if (up(x) && !r.v.hit && S->has_ready(x.p)) go(r, id, -1);
    return ok;
}
static int64_t N(const Step &s, size_t i, int64_t d = 0) { return i < s.a.size() ? strtoll(s.a[i].c_str(), 0, 10) : d; }
static void traffic(Runner &r, int id, int n, uint64_t seed) {
    Inst &x = X->in[id]; Str pair = x.d + " " + x.i; Rng g(seed); Reply rep;
    for (auto &k : std::map<Str, Str>(X->kv[pair])) {
        if (X->mixed.count(pair)) break;
        if (!ask(r, id, {"GET", k.first}, rep)) { if (!r.v.hit) r.fail("instance.mute", fmt("instance %d does not answer", id)); return; }
        if (rep.t != '$' || rep.s != k.second) { r.fail("instance.data", fmt("instance %d answers %s for key %s", id, rep.show().c_str(), k.first.c_str())); return; }
    }
    for (int q = 0; q < n; q++) {
        Str k = fmt("k%d", (int) g.below(6)), v = gen_value(1 + g.below(40), g.next() % 100000);
        if (g.below(5) == 0) { if (!ask(r, id, {"NSJUMP"}, rep)) return; }
        if (!ask(r, id, {"SET", k, v}, rep)) { if (!r.v.hit) r.fail("instance.mute", fmt("instance %d does not answer", id)); return; }
        if (rep.err()) { if (!X->mixed.count(pair)) r.fail("instance.data", fmt("instance %d: SET answers %s", id, rep.show().c_str())); return; }
        if (!rep.nil()) X->kv[pair][k] = v; // nil: the value is there already
    }
}
bool Runner::instances(const Step &s) {
    if (s.verb != "INST") return false;
    if (!X) { X = new Instances; S->on_mutate = mutated; }
    Str what = s.a[0]; int id = (int) N(s, 1); Inst &x = X->in[id];
    S->mono_us += 1000;
    { uint64_t h = 7; for (auto &k : X->in) { Inst &q = k.second; h = hash_str(fmt("%d %s %s %d %d %d %d", k.first, q.d.c_str(), q.i.c_str(), up(q), q.running, q.ending, up(q) && q.p->wait_deadline == 0 ? (int) q.p->nsys : -1), h); } S->states.insert(h); }
    if (what == "START") { // id, data, index, data as spelled, index as spelled, yield
        if (up(x)) return true;
        x = Inst(); x.d = s.a[2]; x.i = s.a[3];
        x.p = S->spawn(mod, {"zdb", "--data", s.a[4], "--index", s.a[5], "--socket", fmt("/db/sock%d", id), "--mode", "user"});
        if (plan.cfg.count("hook")) { x.p->args.push_back("--hook"); x.p->args.push_back("/hook"); x.p->argv.clear(); for (auto &a : x.p->args) x.p->argv.push_back((char *) a.c_str()); x.p->argv.push_back(nullptr); }
        settle(*this, id); if (v.hit) return true;
        go(*this, id, N(s, 6, -1));
        nrestart++;
    } else if (what == "CONT") { if (up(x) && (x.p->wait_deadline == 0 || x.ending) && !(x.running && !x.ending)) go(*this, id, N(s, 2, -1)); }
    else if (what == "TRAFFIC") { if (up(x) && x.running && !x.ending) traffic(*this, id, (int) N(s, 2), N(s, 3)); }
    else if (what == "ROUND") { if (up(x) && x.running && !x.ending) { x.p->timed_out = true; if (x.p->wait_deadline > S->mono_us) S->mono_us = x.p->wait_deadline; go(*this, id, -1); } }
    else if (what == "WAIT") S->mono_us += N(s, 2);
    else if (what == "END") {
        Str how = s.a[2]; if (!up(x)) return true;
        if (how == "kill") { S->kill(x.p); S->nfault["kill"]++; ncrash++; return true; }
        if (!x.running || x.ending) return true;
        x.ending = true;
        if (how == "stop") { ConnP c = S->connect(fmt("unix:/db/sock%d", id)); if (!c) { fail("instance.mute", "connection refused"); return true; } c->inbuf += resp({"STOP"}); S->wake_conn(c.get()); go(*this, id, N(s, 3, -1)); for (int k = 0; k < 5 && N(s, 3, -1) < 0 && up(x) && S->has_ready(x.p) && !v.hit; k++) go(*this, id, -1); }
        else { x.p->pendsig.push_back(how == "term" ? SIGTERM : SIGINT); S->nfault["signal"]++; go(*this, id, N(s, 3, -1)); }
        if (!v.hit && N(s, 3, -1) < 0 && up(x)) fail("stop", fmt("instance %d does not end", id));
    } else if (what == "FINAL") { // everything ends; every consistent pair of directories can be used again
        for (auto &k : X->in) for (int q = 0; q < 8 && up(k.second) && !v.hit && (!k.second.running || k.second.ending); q++) go(*this, k.first, -1);
        if (v.hit) return true;
        for (auto &k : X->in) if (up(k.second)) { if (k.second.running && !k.second.ending) traffic(*this, k.first, 1, 7); if (v.hit) return true; if (up(k.second)) S->kill(k.second.p); }
        S->mono_us += N(s, 1, 1000);
        auto parts = X->dpart;
        for (auto &k : parts) if (X->ipart[k.second] == k.first) {
            X->in.clear(); Inst &y = X->in[0]; y.d = k.first; y.i = k.second;
            y.p = S->spawn(mod, {"zdb", "--data", y.d, "--index", y.i, "--socket", "/db/sock0", "--mode", "user"});
            go(*this, 0, -1); if (v.hit) return true;
            if (up(y)) { traffic(*this, 0, 1, 9); if (v.hit) return true; if (up(y)) S->kill(y.p); }
            else if (!X->mixed.count(y.d + " " + y.i)) { fail("instance.refused", fmt("no instance starts on %s and %s at the end", y.d.c_str(), y.i.c_str())); return true; }
        }
    }
    return true;
}

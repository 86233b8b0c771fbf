// Executes one plan: scheduler, clients, crash and fault handling, model checking of every reply.
#include "run.h"
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <cerrno>
#include <algorithm>

Runner::Runner(const Plan &p) : plan(p) {}
static bool changes_ns(const OpP &o) { if (o->args.empty()) return false; Str u = upper(o->args[0]); return u == "SELECT" || u == "NSDEL"; }

void Runner::fail(const Str &kind, const Str &why) {
    if (v.hit) return;
    S->log("VIOLATION %s: %s", kind.c_str(), why.substr(0, 300).c_str());
    if (relevant && !relevant(kind)) { if (foreign.size() < 50) foreign.push_back({kind, why}); return; }
    v.hit = true; v.kind = kind; v.why = why; v.step = curstep;
    // known finding of C03: the index entries overwritten in place are not protected against torn writes
    if (S->vfs.torn_inplace && kind != "died" && kind != "hung" && kind != "memory") {
        if (plan.str("prop", "") == "C03") { v.kind = "torn.inplace"; v.why = "[" + kind + "] after the overwrite of an index entry was torn by power loss: " + why; }
        else v.kind = "";   // outside this property
    }
}
std::vector<Str> Runner::server_args() {
    std::vector<Str> a = {"zdb", "--data", root_data(), "--index", root_index()};
    Str net = plan.str("net", "unix");
    if (net != "tcp") { a.push_back("--socket"); a.push_back(base + "/sock"); if (net == "dual") { a.push_back("--dualnet"); a.push_back("--port"); a.push_back("9900"); } }
    else { a.push_back("--port"); a.push_back("9900"); }
    for (const char *k : {"mode", "synctime", "rotate", "hook", "admin", "maxsize"}) if (plan.cfg.count(k)) { a.push_back(Str("--") + k); a.push_back(plan.cfg[k]); }
    for (const char *k : {"sync", "secure", "protect", "verbose"}) if (plan.num(k)) a.push_back(Str("--") + k);
    return a;
}
void Runner::expect_alive(const char *when) { if (!alive() && !v.hit) fail("died", fmt("the server is not running (%s)", when)); }

// an allocation failed since the server was started (only where the plan is about that): it may end, or drop a connection
bool Runner::oom() { return plan.num("oom") && S->nfault["malloc"] != oom0; }
bool Runner::start(bool mayfail) {
    oom0 = S->nfault.count("malloc") ? S->nfault["malloc"] : 0;
    S->crash_fired = false; ending = false; if (S->ro.empty()) roserved = false; else S->probe["started_read_only"]++;
    srv = S->spawn(mod, server_args());
    uint64_t f0 = S->nfired; hook_started(false); timers_start(); timers_before();
    S->resume(srv); timers_after();
    if (srv->st == P_BLOCKED && srv->wait_deadline != 0) { nrestart++; for (auto &m : cand) m.restart(); hook_started(true); return true; }
    if (S->crash_fired || mayfail) return false;
    if (S->nfired != f0) return false;
    fail("start", fmt("the server does not start: %s, code %d%s%s", pstate_name[srv->st], srv->code, srv->corrupt.empty() ? "" : ", ", srv->corrupt.c_str()));
    return false;
}
// the server process is gone: requests it had read but not answered may or may not be in effect
void Runner::after_end() {
    std::vector<OpP> q(execq.begin(), execq.end()); execq.clear();
    int last = -1; for (int i = 0; i < (int) q.size(); i++) if (q[i]->replied) last = i;
    for (int i = 0; i <= last; i++) { if (q[i]->wait || q[i]->dead || cl[q[i]->client].raw) continue; if (q[i]->replied) apply(q[i], &q[i]->r); else doubt(q[i]); }
    if (last + 1 < (int) q.size()) {
        // a candidate for every number of requests that took effect; those behind may have left a record
        std::vector<Model> base = cand, all; int n = (int) q.size();
        auto keep = [&](const std::vector<Model> &x, int from) { for (auto m : x) { for (int k = from; k < n; k++) if (q[k]->consumed) m.cut(*q[k]); all.push_back(m); } };
        keep(base, last + 1);
        for (int i = last + 1; i < n; i++) {
            bool mut = false; for (auto &m : base) if (m.mutates(*q[i])) mut = true;
            S->log("in doubt: %s", q[i]->args.empty() ? "?" : q[i]->args[0].c_str());
            std::vector<Model> refused; if (mut && oom() && S->nfired != q[i]->f0) refused = base;
            for (auto &m : base) { Str w, k; m.step(*q[i], nullptr, w, k); }
            for (auto &m : refused) { m.cut(*q[i]); base.push_back(m); }
            if (all.size() + base.size() > 200) { S->probe["abandoned"]++; v.hit = true; v.kind = ""; break; }
            if (mut) { for (auto &m : all) for (auto &k : m.ns) k.second.mayused = true; for (auto &m : base) for (auto &k : m.ns) k.second.mayused = true; S->probe["indoubt_mutation"]++; if (all.size() < (oom() ? 1000u : 64u)) keep(base, i + 1); }
        }
        cand = all;
    }
    mirror_gone();
    for (auto &c : cl) { c.second.srvclosed = true; c.second.ops.clear(); c.second.outq.clear(); c.second.wait.reset(); }
    waiters.clear();
    for (auto &m : cand) m.restart();
}
void Runner::resume() {
    if (!alive()) return;
    int64_t before = S->mono_us; timers_before();
    S->resume(srv); timers_after();
    if (S->disk_violation.size()) { fail("disk.append", S->disk_violation[0]); S->disk_violation.clear(); }
    if (srv->st != P_BLOCKED) {
        if (S->crash_fired) { ncrash++; after_end(); }
        else if (ending) after_end();
        else if (oom() && srv->corrupt.empty() && srv->st != P_HUNG) { S->probe[srv->st == P_EXITED ? "oom_exited" : "oom_crashed"]++; S->crash_fired = true; ncrash++; after_end(); }
        else {
            Str in = execq.empty() ? Str("idle") : Str("after [") + (execq.back()->args.empty() ? Str("?") : printable(execq.back()->args[0])) + "]";
            fail("died", fmt("server %s, code %d, %s%s%s", pstate_name[srv->st], srv->code, in.c_str(), srv->corrupt.empty() ? "" : ": ", srv->corrupt.c_str()));
            after_end();
        }
        return;
    }
    process();
    for (auto &k : cl) if (!k.second.slow) drain(k.second, (size_t) -1);
    for (size_t i = 0; i < waiters.size(); i++) {
        Waiter &w = waiters[i]; bool due = !w.fuzzy && before - w.t_set > w.timeout_ms * 1000 + 2000;
        if (w.matched) { fail("wait.missed", fmt("client %d: WAIT %s in %s was not answered although another client executed %s", w.client, w.cmd.c_str(), w.ns.c_str(), w.by.c_str())); }
        else if (due && (idling || ++w.due > 120)) { fail("wait.late", fmt("client %d: WAIT %s %ld is still unanswered after %.1f ms", w.client, w.cmd.c_str(), (long) w.timeout_ms, (S->mono_us - w.t_recv) / 1000.0)); }
        else continue;
        if (!v.hit) waiters.erase(waiters.begin() + i--);
    }
}
void Runner::tick() {
    if (!alive()) return;
    if (S->has_ready(srv)) { resume(); return; } // no timeout while something is ready
    if (srv->wait_deadline > S->mono_us) S->mono_us = srv->wait_deadline;
    srv->timed_out = true; S->probe["idle_tick"]++;
    idling = true; resume(); idling = false;
}
void Runner::drain(Client &c, size_t n) {
    if (!c.conn || c.conn->outbuf.empty()) return;
    c.conn->outbuf.erase(0, std::min(n, c.conn->outbuf.size()));
    if (c.conn->nospace) { c.conn->nospace = false; S->wake_conn(c.conn.get()); }
}
bool Runner::open(int id, const Str &addr) {
    // requests of the previous connection may still be on their way: it lives on under another number
    if (cl.count(id) && cl[id].conn && !cl[id].srvclosed && !cl[id].ops.empty()) {
        int nid = ghostid++; cl[nid] = cl[id]; Client &g = cl[nid]; g.id = nid; conn2cl[g.conn->id] = nid;
        for (auto &o : g.ops) o->client = nid; for (auto &o : execq) if (o->client == id) o->client = nid;
        for (auto &m : cand) if (m.sess.count(id)) m.sess[nid] = m.sess[id];
        for (auto &w : waiters) if (w.client == id) w.client = nid;
    } else if (cl.count(id)) { int nid = 0; for (auto &o : execq) if (o->client == id) { if (!nid) { nid = ghostid++; cl[nid] = Client(); cl[nid].id = nid; cl[nid].srvclosed = true; for (auto &m : cand) if (m.sess.count(id)) m.sess[nid] = m.sess[id]; } o->client = nid; } }
    Client &c = cl[id]; c = Client(); c.id = id;
    Str a = addr; Str net = plan.str("net", "unix");
    if (a.empty()) a = net == "tcp" || (net == "dual" && id % 2) ? "tcp:9900" : "unix:" + base + "/sock";
    c.conn = S->connect(a);
    for (auto &m : cand) m.sess.erase(id);
    if (!c.conn) return false;
    conn2cl[c.conn->id] = id;
    return true;
}
void Runner::closec(int id, bool rst) {
    Client &c = cl[id]; if (!c.conn || c.srvclosed) return;
    S->log("client %d closes%s", id, rst ? " (reset)" : "");
    if (rst) { c.conn->rst = true; c.rstsent = true; c.outq.clear(); S->nfault["client-reset"]++; }
    else { // everything sent before the close still arrives
        c.conn->inbuf += c.outq; c.outq.clear(); c.conn->fin = true; c.finsent = true; S->nfault["client-close"]++; }
    for (auto it = c.ops.begin(); it != c.ops.end();) { if (rst && !(*it)->consumed) it = c.ops.erase(it); else ++it; }
    for (auto &w : waiters) if (w.client == id) { w.client = -1; }
    waiters.erase(std::remove_if(waiters.begin(), waiters.end(), [](const Waiter &w) { return w.client < 0; }), waiters.end());
    S->wake_conn(c.conn.get());
}
OpP Runner::issue(int id, const std::vector<Str> &args) {
    if (!cl.count(id) || !cl[id].conn || cl[id].srvclosed || cl[id].finsent || cl[id].rstsent) if (!open(id)) { return nullptr; }
    Client &c = cl[id];
    OpP op = std::make_shared<Op>(); op->client = id; op->step = curstep; op->args = args; op->f0 = S->nfired;
    Str b = resp(args); c.outq += b; c.enq += b.size(); op->end = c.enq; op->t_issue = S->wall();
    op->wait = upper(args[0]) == "WAIT";
    c.ops.push_back(op); nops++; cmdcount[upper(args[0]).substr(0, 12)]++;
    Str l; for (size_t i = 0; i < args.size() && i < 5; i++) l += (i ? " " : "") + printable(args[i], 30);
    S->log("client %d: %s", id, l.c_str());
    return op;
}
void Runner::deliver(Client &c, size_t n) {
    if (!c.conn || c.outq.empty()) return;
    if (c.srvclosed || c.conn->srvclosed) { c.outq.clear(); return; }
    n = std::min(n, c.outq.size());
    c.conn->inbuf.append(c.outq, 0, n); c.outq.erase(0, n);
    S->log("deliver conn %d %zu", c.conn->id, n);
    S->wake_conn(c.conn.get());
}
bool Runner::pending() { for (auto &c : cl) if (!c.second.outq.empty()) return true; return false; }
bool Runner::unanswered() { for (auto &c : cl) if (!c.second.raw && !c.second.srvclosed) for (auto &o : c.second.ops) if (!o->wait && !o->replied) return true; return false; }

// one step of the network/scheduler, chosen at random
void Runner::turn() {
    if (!alive() || v.hit) return;
    std::vector<int> can; for (auto &c : cl) if (!c.second.outq.empty()) can.push_back(c.first);
    std::vector<int> dr; for (auto &c : cl) if (c.second.slow && c.second.conn && !c.second.conn->outbuf.empty()) dr.push_back(c.first);
    bool rdy = S->has_ready(srv);
    int w = 0; int wd = can.empty() ? 0 : 4, wr = rdy ? 5 : 0, wx = dr.empty() ? 0 : 2; w = wd + wr + wx; if (!w) return;
    int x = (int) sched.below(w);
    if (x < wd) {
        Client &c = cl[can[sched.below(can.size())]]; size_t n = c.outq.size();
        switch (plan.num("frag", 0) ? sched.below(7) : 6) {
        case 0: n = 1; break; case 1: n = 1 + sched.below(4); break; case 2: n = 1 + sched.below(64); break;
        case 3: { uint64_t left = 8192 - ((c.enq - c.outq.size()) % 8192); n = left - 1 + sched.below(3); break; }
        case 4: n = 8190 + sched.below(5); break; case 5: n = 1 + sched.below(c.outq.size()); break; }
        if (n < c.outq.size()) S->nfault["fragment"]++;
        deliver(c, std::max<size_t>(1, n));
    } else if (x < wd + wr) resume();
    else { Client &c = cl[dr[sched.below(dr.size())]]; drain(c, 1 + sched.below(c.conn->outbuf.size() + 4096)); S->nfault["slow-reader"]++; }
}
void Runner::quiesce() {
    int idle = 0; uint64_t guard = 0;
    while (!v.hit && alive()) {
        if (++guard > 2000000) { fail("livelock", "the server never becomes idle"); return; }
        bool prog = pending() || S->has_ready(srv);
        for (auto &c : cl) if (c.second.slow && c.second.conn && !c.second.conn->outbuf.empty() && !c.second.rstsent) prog = true;
        if (prog) { if (plan.num("frag", 0) || pipelined) turn(); else { for (auto &c : cl) if (!c.second.outq.empty()) deliver(c.second, (size_t) -1); for (auto &c : cl) if (c.second.slow) drain(c.second, (size_t) -1); if (S->has_ready(srv)) resume(); } idle = 0; continue; }
        if (!unanswered()) break;
        if (++idle > 25) {
            for (auto &c : cl) if (!c.second.raw && !c.second.srvclosed) for (auto &o : c.second.ops) if (!o->wait && !o->replied) {
                Str l; for (size_t i = 0; i < o->args.size() && i < 4; i++) l += (i ? " " : "") + printable(o->args[i], 24);
                fail("noreply", fmt("client %d: [%s] %s by the server was never answered", c.first, l.c_str(), o->consumed ? "read" : "not read"));
                o->replied = true; o->dead = true; if (!v.hit) { c.second.ops.clear(); execq.clear(); }
                return;
            }
        }
        tick();
    }
}
void Runner::on_consume(Conn *k) {
    auto it = conn2cl.find(k->id); if (it == conn2cl.end()) return;
    Client &c = cl[it->second]; if (!c.conn || c.conn.get() != k) return;
    for (auto &o : c.ops) if (!o->consumed && o->end <= k->consumed) {
        o->consumed = true; o->seqno = ++opseq; o->t_cons = S->wall(); o->t_cons_mono = S->mono_us;
        if (o->wait) {
            Waiter w; w.client = c.id; w.op = o; w.t_recv = w.t_set = S->mono_us; w.cmd = o->args.size() > 1 ? upper(o->args[1]) : "";
            w.timeout_ms = o->args.size() > 2 ? strtoll(o->args[2].c_str(), 0, 10) : 5000;
            auto &m = cand[0]; w.ns = DEFNS; w.gen = m.ns[DEFNS].gen; if (m.sess.count(c.id)) { w.ns = m.sess[c.id].ns; w.gen = m.sess[c.id].gen; }
            for (auto &q : execq) if (changes_ns(q)) w.fuzzy = true;
            if (!c.finsent && !c.rstsent) { waiters.push_back(w); c.wait = o; }
        }
        execq.push_back(o);
    }
}
void Runner::on_srvclose(Conn *k) {
    auto it = conn2cl.find(k->id); if (it == conn2cl.end()) return;
    Client &c = cl[it->second]; if (!c.conn || c.conn.get() != k) return;
    c.srvclosed = true; c.outq.clear(); c.wait.reset();
    waiters.erase(std::remove_if(waiters.begin(), waiters.end(), [&](const Waiter &w) { return w.client == c.id; }), waiters.end());
    if (!alive() && srv->st != P_RUN) return;
    if (!c.raw && !c.finsent && !c.rstsent && !ending && srv->st == P_RUN) {
        // closing is expected only after the error for a removed namespace
        bool det = false; for (auto &m : cand) if (m.sess.count(c.id)) { MSess &s = m.sess[c.id]; if (s.detached || !m.ns.count(s.ns) || m.ns[s.ns].gen != s.gen) det = true; }
        for (auto &o : execq) if (!o->args.empty() && upper(o->args[0]) == "NSDEL") det = true;
        if (plan.num("lax") || oom()) det = true;
        if (!det && S->nfault.count("recv-error") == 0 && S->nfault.count("send-error") == 0) fail("closed", fmt("the server closed the connection of client %d", c.id));
    }
}
void Runner::on_send(Conn *k, size_t n) {
    timers_sent();
    auto it = conn2cl.find(k->id); if (it == conn2cl.end()) return;
    Client &c = cl[it->second]; if (!c.conn || c.conn.get() != k) return;
    c.rx.append(k->outbuf, k->outbuf.size() - n, n);
    if (c.raw) { c.rx.clear(); c.rxpos = 0; return; }
    for (;;) {
        Reply r; int x = parse_reply(c.rx, c.rxpos, r);
        if (x == 0) break;
        if (x < 0) { fail("reply.malformed", fmt("client %d received bytes that are no reply: %s", c.id, printable(c.rx.substr(c.rxpos, 60), 60).c_str())); c.rx.clear(); c.rxpos = 0; return; }
        got(c, r);
    }
    if (c.rxpos > 4096) { c.rx.erase(0, c.rxpos); c.rxpos = 0; }
}
// a command that has to write: refused on a read-only file system
static bool rochange(const Op &o) {
    if (o.args.empty()) return false;
    static const std::set<Str> w = {"SET", "SETX", "DEL", "NSNEW", "NSDEL", "NSSET", "NSJUMP", "FLUSH"}; return w.count(upper(o.args[0])) > 0;
}
void Runner::setro(const Str &w) {
    S->ro.clear(); if (w.find('i') != Str::npos) S->ro.push_back(root_index()); if (w.find('d') != Str::npos) S->ro.push_back(root_data());
    if (!S->ro.empty()) { roserved = true; S->nfault["read-only"]++; } S->log("read-only: %s", w.c_str());
}
void Runner::got(Client &c, const Reply &r) {
    if (c.mirror && (c.ops.empty() || r.t == '*')) { c.stream.push_back(r); return; }
    if (c.ops.empty()) { fail("reply.extra", fmt("client %d received %s without having asked anything", c.id, r.show().c_str())); return; }
    OpP o = c.ops.front();
    if (!o->consumed && oom() && r.err() && S->nfired != o->f0) { // the request was refused while it was read, and the connection is closed
        S->probe["oom_discarded"]++; c.ops.pop_front(); o->dead = true; return;
    }
    if (!o->consumed) { fail("reply.extra", fmt("client %d received %s before its request was complete", c.id, r.show().c_str())); return; }
    c.ops.pop_front(); o->replied = true; o->r = r; o->faulted = S->nfired != o->f0 || (roserved && rochange(*o)); o->t_sent = S->wall(); o->t_sent_mono = S->mono_us;
    S->log("reply client %d: %s", c.id, r.show(40).c_str()); nacked++;
    hook_answered(o);
    if (!o->args.empty() && r.t == '+' && !plan.num("mirrorok")) { // the connection now speaks another protocol: leave it
        Str u = upper(o->args[0]);
        if (u == "MIRROR" || u == "MASTER") { c.raw = true; c.rxpos = c.rx.size(); closec(c.id, true); c.ops.clear(); return; }
    }
    if (o->wait) { // answered: by a command, by the timeout, or refused
        c.wait.reset();
        for (size_t i = 0; i < waiters.size(); i++) if (waiters[i].op == o) {
            Waiter w = waiters[i]; waiters.erase(waiters.begin() + i);
            bool badargs = o->args.size() < 2 || o->args.size() > 3 || w.fuzzy || !cand[0].sess.count(c.id) || cand[0].sess[c.id].detached || !cand[0].ns.count(w.ns) || cand[0].ns[w.ns].gen != w.gen;
            for (auto &q : execq) if (changes_ns(q)) badargs = true;
            if (r.err() && r.s.find("Timeout") == Str::npos) { if (!badargs && w.timeout_ms >= 100 && w.timeout_ms <= 1800000) fail("wait.refused", fmt("WAIT refused: %s", r.show().c_str())); break; }
            if (r.err()) {
                S->probe["wait_timeout"]++;
                if (S->mono_us - w.t_recv < w.timeout_ms * 1000 - 1000) fail("wait.early", fmt("client %d: WAIT %s %ld timed out after %.3f ms", c.id, w.cmd.c_str(), (long) w.timeout_ms, (S->mono_us - w.t_recv) / 1000.0));
                if (w.matched) fail("wait.missed", fmt("client %d: WAIT %s timed out although %s was executed", c.id, w.cmd.c_str(), w.by.c_str()));
                break;
            }
            S->probe["wait_trigger"]++;
            waited(c, w, r);
            break;
        }
    }
}
// apply answered requests to the model, in execution order
void Runner::process() {
    while (!execq.empty()) {
        OpP o = execq.front();
        if (o->wait) { // from here on the namespace the client waits in is certain
            for (auto &w : waiters) if (w.op == o) { auto &m = cand[0]; w.fuzzy = false; w.t_set = S->mono_us; w.ns = DEFNS; w.gen = m.ns.count(DEFNS) ? m.ns[DEFNS].gen : 0; if (m.sess.count(o->client)) { w.ns = m.sess[o->client].ns; w.gen = m.sess[o->client].gen; } }
            execq.pop_front(); executed(o); continue;
        }
        bool closed = cl[o->client].srvclosed || !cl[o->client].conn || o->dead;
        if (!o->replied && !closed) break;
        execq.pop_front();
        if (o->dead) continue;
        if (cl[o->client].raw) continue;
        if (!o->replied) { S->probe["executed_unanswered"]++; doubt(o); }
        else apply(o, &o->r);
        executed(o);
    }
    mirror_check(false);
}
// commands whose success certainly counts as an execution in the client's namespace
static bool wakes(const Str &n) {
    static const std::set<Str> k = {"WAIT", "PING", "TIME", "AUTH", "SET", "SETX", "GET", "MGET", "DEL", "EXISTS", "CHECK", "SCAN", "SCANX", "RSCAN", "HISTORY", "KEYCUR", "LENGTH", "KEYTIME", "INFO", "DBSIZE", "NSNEW", "NSDEL", "NSLIST", "NSSET", "NSINFO", "NSJUMP", "FLUSH", "RELOAD", "HOOKS"};
    return k.count(n);
}
// a waiting client was answered with the name of a command: the first one since that it waits for
void Runner::waited(Client &c, const Waiter &w, const Reply &r) {
    auto &m = cand[0]; std::set<int> moved; bool gone = w.fuzzy;
    if (w.matched && r.s != w.by) { fail("wait.wrong", fmt("client %d: WAIT %s answered %s, %s came first", c.id, w.cmd.c_str(), r.show().c_str(), w.by.c_str())); return; }
    if (w.matched) return;
    for (auto &q : execq) {
        if (q->args.empty() || q->dead || cl[q->client].raw) continue;
        Str qn = upper(q->args[0]); bool mv = moved.count(q->client) || changes_ns(q);
        if (changes_ns(q)) { moved.insert(q->client); if (qn == "NSDEL") gone = true; }
        if (q->client == c.id || q->seqno <= w.op->seqno) continue;
        if (w.cmd != "*" && w.cmd != qn) continue;
        Str ns = DEFNS; if (m.sess.count(q->client)) ns = m.sess[q->client].ns;
        if (!mv && !gone && ns != w.ns) continue;
        if (qn == r.s) return;
        if (mv || gone || !q->replied || q->r.err() || !wakes(qn)) continue;
        fail("wait.wrong", fmt("client %d: WAIT %s answered %s, %s came first", c.id, w.cmd.c_str(), r.show().c_str(), qn.c_str())); return;
    }
    fail(w.cmd != "*" && w.cmd != r.s ? "wait.wrong" : "wait.phantom", fmt("client %d: WAIT %s in %s answered %s, which no other client executed there since", c.id, w.cmd.c_str(), w.ns.c_str(), r.show().c_str()));
}
// a command was executed: waiters it must have woken
void Runner::executed(OpP o) {
    if (waiters.empty() || o->args.empty()) return;
    Str name = upper(o->args[0]); if (name == "SELECT" || !wakes(name)) return;
    if (!o->wait && (!o->replied || o->r.err())) return; // refused: may or may not count
    if (o->wait && o->replied && o->r.err() && o->r.s.find("Timeout") == Str::npos) return;
    auto &m = cand[0]; MSess *se = m.sess.count(o->client) ? &m.sess[o->client] : nullptr; Str ns = se ? se->ns : Str(DEFNS);
    if (se && se->detached) return;
    for (auto &w : waiters) {
        if (w.client == o->client || w.op == o || w.ns != ns || w.fuzzy || w.matched || w.op->seqno > o->seqno) continue;
        if (!m.ns.count(ns) || m.ns[ns].gen != w.gen) continue;
        if (w.cmd == "*" || w.cmd == name) { w.matched = true; w.by = name; }
    }
}
void Runner::apply(OpP o, const Reply *r) {
    if (o->args.empty() || o->tag == "-" || plan.num("lax")) return;
    Str c = upper(o->args[0]);
    Str ns0 = cand[0].sess.count(o->client) ? cand[0].sess[o->client].ns : Str(DEFNS);
    Str why, kind; std::vector<char> ok(cand.size(), 1); size_t good = 0;
    for (size_t i = 0; i < cand.size(); i++) { Str w, k; ok[i] = cand[i].step(*o, r, w, k); if (ok[i]) good++; else if (why.empty()) { why = w; kind = k; } }
    if (!good) {
        if (getenv("ZDBSIM_CANDS")) for (size_t i = 0; i < cand.size(); i++) { Str w, k; Model m = cand[i]; m.step(*o, r, w, k); S->log("candidate %zu: %s: %s", i, k.c_str(), w.c_str()); }
        fail(kind, fmt("client %d: ", o->client) + why);
        if (!v.hit && r && !r->err() && cand[0].mutates(*o)) { v.hit = true; v.kind = ""; } // abandoned: state unknown, kind not this property's
    } else if (good < cand.size()) { size_t j = 0; for (size_t i = 0; i < cand.size(); i++) if (ok[i]) { if (i != j) cand[j] = std::move(cand[i]); j++; } cand.resize(j); }
    if (r && (c == "SET" || c == "SETX") && !r->err() && r->t == '$') {
        universe[ns0].insert(r->s); auto &ks = seqkeys[ns0];
        if (cand[0].ns.count(ns0) && cand[0].ns[ns0].seq && (o->args.size() > 1 && o->args[1].empty())) ks.push_back(r->s);
    }
    mirror_executed(o, ns0, r);
    if (c == "AUTH" && r && r->t == '+' && o->args.size() == 3 && upper(o->args[2]) == "CHALLENGE") cl[o->client].nonce = r->s;
    if (!o->tag.empty() && r) {
        int n = atoi(o->tag.c_str() + 1);
        if (o->tag[0] == 'c') { if (r->t == '*' && r->a.size() == 2) cursor[n] = r->a[0].s; else if (r->t == '$') cursor[n] = r->s; }
        if (o->tag[0] == 'h' && r->t == '*' && r->a.size() == 3) { if (r->a[0].t == '$') href[n] = r->a[0].s; else href.erase(n); }
    }
    uint64_t big = 0; for (auto &n : cand[0].ns) big += n.second.keys.size();
    if (big < 200 && S->states.size() < 100000) S->states.insert(cand[0].digest());
}
// executed, without an answer; when an allocation failed it may have been refused
void Runner::doubt(OpP o) {
    if (v.hit) return;
    std::vector<Model> refused; if (oom() && S->nfired != o->f0 && (cand[0].mutates(*o) || upper(o->args[0]) == "NSJUMP")) refused = cand;
    apply(o, nullptr); for (auto &m : refused) { m.cut(*o); cand.push_back(m); }
    if (cand.size() > 200 || (oom() && o->args.size() > 1 && o->args[1].empty())) { S->probe["abandoned"]++; v.hit = true; v.kind = ""; } // (which id it got is not known: updates that follow may be about it)
}
Str Runner::resolve(int c, const Str &a) {
    if (a.compare(0, 2, "s:") == 0) { Str o; for (size_t i = 2; i < a.size(); i++) if (a[i] == '%' && i + 2 < a.size()) { o += (char) strtol(a.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else o += a[i]; return o; }
    long x = 0, y = 0; const char *p = a.c_str();
    if (sscanf(p, "v:%ld:%ld", &x, &y) == 2) return gen_value(x, y);
    if (sscanf(p, "w:%ld:%ld", &x, &y) == 2) { // other bytes than v:x:y, same length and checksum
        Str b = gen_value(x, y); if (b.size() < 8) return b;
        Str d = "\x01\x5a\x33" + Str(1, (char) (y | 1)); uint32_t k = crc32c(d); for (int i = 0; i < 4; i++) d += (char) (k >> (8 * i));
        size_t at = y % (b.size() - 7); for (int i = 0; i < 8; i++) b[at + i] ^= d[i]; return b;
    }
    Str ns = cand[0].sess.count(c) ? cand[0].sess[c].ns : Str(DEFNS);
    if (sscanf(p, "k:%ld", &x) == 1) { auto &k = seqkeys[ns]; return k.empty() ? seqkey(x) : k[x % k.size()]; }
    if (sscanf(p, "K:%ld", &x) == 1) return seqkey(x);
    if (sscanf(p, "c:%ld", &x) == 1) return cursor.count(x) ? cursor[x] : Str("\x01?");
    if (sscanf(p, "h:%ld", &x) == 1) return href.count(x) ? href[x] : Str("\x01?");
    if (sscanf(p, "T:%ld", &x) == 1) return fmt("%ld", (long) (S->wall_s() + x));
    if (a.compare(0, 2, "a:") == 0) return sha1_hex(cl[c].nonce + ":" + a.substr(2));
    return a;
}
Reply Runner::call(int c, const std::vector<Str> &args, bool *ok) {
    if (ok) *ok = false;
    if (!alive() || v.hit) return Reply();
    OpP o = issue(c, args); if (!o) return Reply();
    quiesce();
    if (o->replied && !o->dead) { if (ok) *ok = true; return o->r; }
    return Reply();
}
bool Runner::admin_session(int c) {
    if (!cand[0].hasadmin) return true;
    bool ok; Reply r = call(c, {"AUTH", cand[0].adminpwd}, &ok);
    return ok && !r.err();
}
void Runner::verify(const Str &what) {
    if (!alive() || v.hit) return;
    quiesce(); if (v.hit || !alive()) return;
    nverify++; S->log("VERIFY %s", what.c_str()); mirror_check(true); if (v.hit) return;
    bool pp = pipelined; pipelined = false;
    int A = 99; bool ok;
    auto has = [&](char f) { return what.find(f) != Str::npos; };
    if (cl.count(A) && cl[A].conn && !cl[A].srvclosed) { closec(A, false); quiesce(); }
    if (!open(A)) { fail("refused", "the server does not accept connections"); pipelined = pp; return; }
    admin_session(A);
    call(A, {"NSLIST"});
    std::set<Str> names; for (auto &m : cand) for (auto &n : m.ns) names.insert(n.first);
    for (auto &ns : names) {
        if (v.hit || !alive()) break;
        if (has('i')) call(A, {"NSINFO", ns});
        bool any = false; for (auto &m : cand) if (m.ns.count(ns)) any = true; if (!any) continue;
        // passwords known to any candidate state
        std::set<Str> pws; bool open_ = false; for (auto &m : cand) if (m.ns.count(ns)) { if (m.ns[ns].haspass) pws.insert(m.ns[ns].pass); else open_ = true; }
        Reply r; bool in = false;
        if (open_) { r = call(A, {"SELECT", ns}, &ok); in = ok && !r.err(); }
        for (auto &p : pws) if (!in || open_) { r = call(A, {"SELECT", ns, p}, &ok); if (ok && !r.err()) in = true; }
        if (v.hit) break;
        if (!in) continue;
        any = false; for (auto &m : cand) if (m.ns.count(ns)) any = true; if (!any) continue;
        bool frozen = true; for (auto &m : cand) if (m.ns.count(ns) && m.ns[ns].locked != 2) frozen = false;
        if (frozen) continue;
        bool seq = cand[0].ns.count(ns) ? cand[0].ns[ns].seq : false;
        // ids that unanswered insertions may have taken
        uint64_t top = 0; bool gh = false;
        for (auto &m : cand) if (m.ns.count(ns)) { MNs &q = m.ns[ns]; if (q.seq) { top = std::max(top, (q.anyid ? q.maxid + 1 : 0) + q.ghosts.size() + 2 + (q.ghosts.empty() ? 0 : q.upd)); if (!q.ghosts.empty()) gh = true; } }
        if (gh) {
            for (uint64_t i = 0; i < top && !v.hit; i++) { bool known = false; for (auto &m : cand) if (m.ns.count(ns) && m.ns[ns].ids.count(i)) known = true; if (!known) call(A, {"GET", seqkey(i)}); }
            for (auto &m : cand) if (m.ns.count(ns)) m.ns[ns].ghosts.clear();
        }
        if (has('i')) call(A, {"DBSIZE"});
        std::set<Str> keys = universe[ns]; for (auto &m : cand) if (m.ns.count(ns)) for (auto &k : m.ns[ns].keys) keys.insert(k.first);
        if (seq && keys.size() < 400) for (uint64_t i = 0; i < top; i++) keys.insert(seqkey(i));
        if (has('g')) for (auto &k : keys) {
            if (v.hit || !alive()) break;
            if (k.empty() || k.size() > 255) continue;
            call(A, {"GET", k});
            bool live = cand[0].ns.count(ns) && cand[0].ns[ns].keys.count(k);
            if (has('x') || !live) call(A, {"EXISTS", k});
            if (live && has('x')) { call(A, {"LENGTH", k}); call(A, {"KEYTIME", k}); call(A, {"CHECK", k}); }
            else if (live) call(A, {"KEYTIME", k});
        }
        if (has('s') && !seq) { std::set<Str> pf; for (auto &k : keys) if (!k.empty() && k.size() <= 255) pf.insert(k.substr(0, 1)); int q = 0; for (auto &x : pf) if (!v.hit && alive() && q++ < 4) call(A, {"KSCAN", x}); }
        if (has('s')) for (int dir = 0; dir < 2; dir++) {
            Str cur; size_t n = 0;
            while (!v.hit && alive() && ++n < 3000) {
                std::vector<Str> a = {dir ? "RSCAN" : "SCAN"}; if (!cur.empty()) a.push_back(cur);
                r = call(A, a, &ok); if (!ok || r.err() || r.t != '*' || r.a.size() != 2) break;
                cur = r.a[0].s;
            }
            if (n >= 3000) fail("scan.endless", "the walk never ends");
        }
        if (has('h')) for (auto &k : keys) {
            if (!cand[0].ns.count(ns) || !cand[0].ns[ns].keys.count(k)) continue;
            Str ref; int n = 0;
            while (!v.hit && alive() && ++n < 1000) {
                std::vector<Str> a = {"HISTORY", k}; if (!ref.empty()) a.push_back(ref);
                r = call(A, a, &ok); if (!ok || r.t != '*' || r.a.size() != 3 || r.a[0].nil()) break;
                ref = r.a[0].s;
            }
        }
        call(A, {"SELECT", DEFNS, cand[0].ns[DEFNS].haspass ? cand[0].ns[DEFNS].pass : "x"});
    }
    closec(A, false); quiesce();
    pipelined = pp;
}
static int64_t A(const Step &s, size_t i, int64_t d = 0) { return i < s.a.size() ? strtoll(s.a[i].c_str(), 0, 10) : d; }
static Str AS(const Step &s, size_t i, const Str &d = "") { return i < s.a.size() ? s.a[i] : d; }
static int errno_of(const Str &s) {
    if (s == "EIO") return EIO; if (s == "ENOSPC") return ENOSPC; if (s == "EMFILE") return EMFILE; if (s == "EACCES") return EACCES; if (s == "ENOENT") return ENOENT; if (s == "EINTR") return EINTR; if (s == "EAGAIN") return EAGAIN; if (s == "EDQUOT") return EDQUOT; if (s == "ECONNABORTED") return ECONNABORTED; if (s == "ENOMEM") return ENOMEM; if (s == "EROFS") return EROFS;
    return atoi(s.c_str());
}
void Runner::step(const Step &s) {
    curstep = s.id; sched = Rng(plan.num("sched", 1) * 1000003ULL + s.id);
    const Str &V = s.verb;
    S->log("STEP %d %s", s.id, V.c_str());
    if (syncing(s)) return;
    if (V == "C") {
        if (!alive()) return;
        int c = A(s, 0); std::vector<Str> args; Str tag; bool skip = false;
        if (!cl.count(c) || !cl[c].conn || cl[c].srvclosed || cl[c].finsent || cl[c].rstsent) open(c);
        for (auto &o : cl[c].ops) if (o->wait) return; // a waiting client sends nothing
        for (size_t i = 1; i < s.a.size(); i++) { if (s.a[i][0] == '>') { tag = s.a[i].substr(1); continue; } Str x = resolve(c, s.a[i]); if (x == Str("\x01?")) skip = true; args.push_back(x); }
        if (skip || args.empty()) return;
        Str u = upper(args[0]);
        if (args.size() > 1 && (u == "SET" || u == "DEL" || u == "GET" || u == "SETX")) { Str ns = cand[0].sess.count(c) ? cand[0].sess[c].ns : Str(DEFNS); if (args[1].size() <= 255 && !args[1].empty()) universe[ns].insert(args[1]); }
        OpP o = issue(c, args); if (!o) { fail("refused", "the server does not accept connections"); return; }
        o->tag = tag;
        if (u == "MIRROR" && plan.num("mirrorok")) cl[c].mirror = true;
        if (u == "STOP") ending = true;
        if (!pipelined) quiesce();
        else if (!hold) { int n = (int) sched.below(4); for (int i = 0; i < n && alive() && !v.hit; i++) turn(); }
        return;
    }
    if (V == "OPEN") { if (alive()) { open(A(s, 0), AS(s, 1)); if (!pipelined) quiesce(); } return; }
    if (V == "CLOSE" || V == "RESET") { if (alive() && cl.count(A(s, 0))) { closec(A(s, 0), V == "RESET"); if (!pipelined) quiesce(); } return; }
    if (V == "SLOW") { if (cl.count(A(s, 0))) { cl[A(s, 0)].slow = A(s, 1, 1); if (!A(s, 1, 1)) drain(cl[A(s, 0)], (size_t) -1); } return; }
    if (V == "RAW") { // arbitrary bytes from a client that is not checked
        if (!alive()) return;
        int c = A(s, 0); if (!cl.count(c) || !cl[c].conn || cl[c].srvclosed || cl[c].finsent || cl[c].rstsent) open(c);
        cl[c].raw = true; Str b; for (size_t i = 1; i < s.a.size(); i++) b += resolve(c, s.a[i]); cl[c].outq += b; cl[c].enq += b.size(); S->log("raw client %d %s", c, printable(b, 80).c_str());
        S->nfault["raw-bytes"]++;
        if (!pipelined) quiesce(); return;
    }
    if (V == "BARRIER") { hold = false; quiesce(); return; }
    if (V == "HOLD") { hold = true; return; }   // until BURST nothing is delivered
    if (V == "BURST") { hold = false; for (auto &c : cl) if (!c.second.outq.empty()) deliver(c.second, (size_t) -1); return; }   // everything sent so far arrives at once
    if (V == "TURN") { for (int i = 0; i < A(s, 0, 1) && alive() && !v.hit; i++) turn(); return; }
    if (V == "ADVANCE") { // microseconds; the server sees its timeouts
        int64_t end = S->mono_us + A(s, 0);
        if (A(s, 1)) { S->mono_us = end; return; }   // silently: no timeout is processed in between
        int n = 0;
        while (alive() && !v.hit && S->mono_us < end && n++ < 400) { if (S->has_ready(srv)) { resume(); continue; } if (srv->wait_deadline >= 0 && srv->wait_deadline <= end) tick(); else break; }
        if (S->mono_us < end) S->mono_us = end;
        return;
    }
    if (V == "TICK") { for (int i = 0; i < A(s, 0, 1); i++) { if (!pipelined) quiesce(); tick(); } return; }
    if (V == "JUMP") { S->wall_off_us += A(s, 0) * 1000000; S->nfault["clock-jump"]++; S->log("wall clock jumps %ld s", (long) A(s, 0)); return; }
    if (V == "FAULT") { Fault f; f.kind = fk_parse(AS(s, 0)); f.path = AS(s, 1) == "-" ? "" : AS(s, 1); f.skip = A(s, 2); f.count = A(s, 3, 1); f.err = errno_of(AS(s, 4, "EIO")); f.part = A(s, 5, -1); S->faults.push_back(f); return; }
    if (V == "CLEAR") { S->faults.clear(); S->vfs.disk_free = 1ull << 40; return; }
    if (V == "RO") { // which parts of the tree are read-only from now on
        if (s.a.size() > 1) { roset = AS(s, 0); Step t = s; t.verb = "RESTART"; t.a = {AS(s, 1)}; step(t); return; } // between two runs
        quiesce(); if (!v.hit) setro(AS(s, 0)); return;
    }
    if (V == "DISK") { S->vfs.disk_free = A(s, 0); S->log("disk space %ld", (long) A(s, 0)); return; }
    if (V == "CRASH") { S->crash_armed = true; S->crash_fired = false; int k = AS(s, 0) == "any" ? F_ANY : fk_parse(AS(s, 0)); S->crash_kind = k; S->crash_skip = A(s, 1); S->crash_torn = A(s, 2, -1); return; }
    if (V == "SIG") { S->sig_armed = true; S->sig_no = A(s, 0); S->sig_skip = A(s, 1); ending = true; return; } // asynchronous
    if (V == "RESTART") { // how: kill | term | int | stop ; power: keep% or -1 ; crash at start: system call number or -1
        Str how = AS(s, 0, "kill"); int64_t power = A(s, 1, -1), atstart = A(s, 2, -1);
        if (alive()) {
            if (how != "kill") { if (S->sig_armed) ending = false; S->sig_armed = false; S->crash_armed = false; }
            if (how == "kill") { S->kill(srv); S->nfault["kill"]++; ncrash++; after_end(); }
            else if (how == "stop") { quiesce(); if (alive() && !v.hit) { ending = true; open(98); if (cand[0].hasadmin) { OpP o = issue(98, {"AUTH", cand[0].adminpwd}); quiesce(); } issue(98, {"STOP"}); quiesce(); if (alive()) fail("stop", "the server does not end after STOP"); else if (srv->st != P_EXITED || srv->code != 0) fail("stop", fmt("the server ended with %s, code %d", pstate_name[srv->st], srv->code)); } }
            else {
                int sg = how == "term" ? SIGTERM : SIGINT; S->nfault["signal"]++;
                if (!pipelined) quiesce();
                if (alive() && !v.hit) { ending = true; srv->pendsig.push_back(sg); resume(); if (alive()) fail("stop", "the server does not end on a signal"); else if (!S->crash_fired && (srv->st != P_EXITED || srv->code != 128 + sg)) fail("stop", fmt("the server ended with %s, code %d", pstate_name[srv->st], srv->code)); }
            }
        }
        if (!v.hit && how != "kill" && srv && srv->st == P_EXITED && !S->crash_fired) hook_stopped();
        if (v.hit) return;
        S->crash_armed = false; S->sig_armed = false; ending = false;
        if (power >= 0) { Rng r(plan.num("sched", 1) * 7919ULL + s.id); S->nfault["power-loss"]++; size_t lost = S->vfs.journal.size(); for (auto &k : S->vfs.tree) lost += k.second->pend.size(); if (lost) S->probe["powerloss_unflushed"]++; S->vfs.powerloss(r, power / 100.0); S->log("POWER LOSS"); }
        S->mono_us += 500000; if (roset.size()) { setro(roset); roset.clear(); }
        if (!special(s)) { }
        if (atstart >= 0) { S->crash_armed = true; S->crash_fired = false; S->crash_kind = F_ANY; S->crash_skip = atstart; S->crash_torn = A(s, 3, -1); if (S->crash_torn >= 0) S->crash_kind = F_WRITE; }
        for (int i = 0; i < 4; i++) { // a crash during start-up, then again
            if (start()) break;
            if (v.hit) return;
            if (S->crash_fired) { ncrash++; S->probe["crash_at_start"]++; if (power >= 0) { Rng r(plan.num("sched", 1) * 7919ULL + s.id + 1000 + i); S->vfs.powerloss(r, power / 100.0); } }
            S->mono_us += 300000;
        }
        S->crash_armed = false;
        if (!alive() && !v.hit && S->faults.empty()) fail("start", "the server does not start");
        return;
    }
    if (V == "VERIFY") { verify(AS(s, 0, "gisxh")); return; }
    if (special(s)) return;
    S->log("unknown step %s", V.c_str());
}
void Runner::finish() { sync_finish(); quiesce(); mirror_check(true); }
void Runner::run() {
    mod = module_by_name("zdbd"); t0 = S->mono_us;
    pipelined = plan.num("pipe");
    S->vfs.mkdirs("/db"); S->vfs.mkdirs("/cwd"); S->vfs.mkdirs("/tmp"); S->vfs.sync_all();
    S->vfs.hashseed = plan.num("dirseed"); S->cfg_bits = plan.num("bits", 4); S->cfg_datasize = plan.num("datasize", 0);
    S->tick_us = plan.num("tickus", 1); S->tick_random = plan.num("tickrand"); S->tick_rng = Rng(plan.num("sched", 1)); S->systick_us = plan.num("sysus", 0);
    S->sockbuf = plan.num("sockbuf", 1 << 22); S->frag_send = plan.num("fragsend", 0); S->fillbyte = plan.num("fill", 0xA5);
    S->wall_off_us = 1700000000LL * 1000000 + plan.num("sched", 1) % 100000 * 1000003;
    S->on_consume = [this](Conn *k) { on_consume(k); };
    S->on_send = [this](Conn *k, size_t n) { on_send(k, n); };
    S->on_srvclose = [this](Conn *k) { on_srvclose(k); };
    S->on_hook = [this](Hook &h) { hook_cb(h); }; hooks_init(); timers_init(); mirror_init();
    Model m; m.srvmode = plan.str("mode", "mix"); m.init(m.srvmode == "seq");
    if (plan.cfg.count("admin")) { m.hasadmin = true; m.adminpwd = plan.cfg["admin"]; }
    if (plan.num("protect")) { m.ns[DEFNS].haspass = true; m.ns[DEFNS].pass = m.adminpwd; }
    if (plan.cfg.count("maxsize")) m.ns[DEFNS].maxsize = plan.num("maxsize");
    cand = {m};
    if (plan.num("nostart") == 0) { start(); if (v.hit) return; }
    for (size_t i = 0, from = 0, left = 0; i < plan.steps.size() && !v.hit; i++) {
        const Step &s = plan.steps[i];
        if (s.verb == "LOOP") { from = i; left = s.a.empty() ? 1 : strtoul(s.a[0].c_str(), 0, 10); continue; } // the steps up to ENDLOOP are repeated
        if (s.verb == "ENDLOOP") { if (left > 1) { left--; i = from; } continue; }
        step(s);
    }
    if (!v.hit) finish();
    if (S->heapbad.empty() && srv && alive()) S->heapbad = heap_bad(srv);
    if (!v.hit && !S->heapbad.empty()) fail("died", S->heapbad);
}
Outcome execute(const Plan &p, const std::function<bool(const Str &)> &relevant, bool trace, bool srvout) {
    modules_init(); S = new Sim; S->trace = trace; S->srvout = srvout; S->tracef = stdout;
    sim_install_signals();
    Runner *r = new Runner(p); r->relevant = relevant; r->run();
    Outcome o; o.v = r->v; if (o.v.kind.empty()) o.v.hit = false;
    o.foreign = r->foreign; o.hash = S->loghash; o.simus = S->mono_us - r->t0; o.ops = r->nops; o.acked = r->nacked; o.crashes = r->ncrash; o.restarts = r->nrestart; o.verifies = r->nverify; o.nsys = S->nsyscalls;
    o.faults = S->nfault; o.probes = S->probe; o.cmds = r->cmdcount; o.states = S->states;
    return o;
}

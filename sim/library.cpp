// A program that links the library, taking turns with the server on the same directories (C22).
#include "run.h"
#include <algorithm>

static const int LC = 50; // its place among the clients
static bool up(Proc *p) { return p && p->st == P_BLOCKED; }
static Str unpack(const Str &b, size_t &p) { uint64_t n = 0; if (p + 8 > b.size()) return "?"; memcpy(&n, &b[p], 8); p += 8; Str s = b.substr(p, n); p += n; return s; }

void Runner::lib_go(bool closing) {
    lib->reply.clear(); S->resume(lib);
    if (S->disk_violation.size()) { fail("disk.append", S->disk_violation[0]); S->disk_violation.clear(); }
    if (up(lib)) return;
    if (S->crash_fired) { ncrash++; after_end(); return; }
    if (closing && lib->st == P_EXITED && lib->code == 0) { after_end(); return; }
    if (lib->st == P_EXITED && lib->code && execq.empty() && S->nfired != libf0) { after_end(); return; } // could not open
    fail("died", fmt("the program with the library: %s, code %d, in %s%s%s", pstate_name[lib->st], lib->code, lib->cmd.empty() ? "open" : lib->cmd[0].c_str(), lib->corrupt.empty() ? "" : ": ", lib->corrupt.c_str()));
    after_end();
}
bool Runner::lib_open() {
    if (up(lib) || alive()) return false;
    libf0 = S->nfired;
    lib = S->spawn(module_by_name("zlib"), {"prog", root_data(), root_index(), plan.str("mode", "mix"), plan.num("sync") ? "1" : "0"});
    S->crash_fired = false; lib_go(false); S->probe["lib_open"]++;
    if (up(lib) && lib->reply == "OPEN") { nrestart++; for (auto &m : cand) m.restart(); return true; }
    if (v.hit || S->crash_fired || S->nfired != libf0) return false;
    fail("start", fmt("the database does not open through the library: %s", lib->reply.c_str()));
    return false;
}
void Runner::lib_kill() { if (up(lib)) { S->kill(lib); S->nfault["kill"]++; ncrash++; after_end(); } }
// one library call, answered in the words of the server
void Runner::lib_call(const Str &what, const Str &ns, const std::vector<Str> &a) {
    if (!up(lib) || v.hit) return;
    static const std::map<Str, Str> cmd = {{"set", "SET"}, {"get", "GET"}, {"exists", "EXISTS"}, {"check", "CHECK"}, {"del", "DEL"}, {"nsnew", "NSNEW"}, {"jump", "NSJUMP"}};
    bool there = what == "nsnew" || std::any_of(cand.begin(), cand.end(), [&](Model &m) { return m.ns.count(ns) > 0; }); if (!there) return;
    for (auto &m : cand) { MSess s; s.admin = true; s.ns = what == "nsnew" ? DEFNS : ns; s.gen = m.ns.count(s.ns) ? m.ns[s.ns].gen : 0; m.sess[LC] = s; }
    OpP op = std::make_shared<Op>(); op->client = LC; op->step = curstep; op->args = {cmd.at(what)}; if (what == "nsnew") op->args.push_back(ns); for (auto &x : a) op->args.push_back(x);
    op->f0 = S->nfired; op->t_issue = op->t_cons = S->wall(); op->consumed = true; op->seqno = ++opseq; nops++; cmdcount["lib " + what]++;
    lib->cmd = {what, ns}; for (auto &x : a) lib->cmd.push_back(x);
    Str l; for (auto &x : lib->cmd) l += " " + printable(x, 30); S->log("library:%s", l.c_str());
    cl[LC].id = LC; cl[LC].srvclosed = false; cl[LC].raw = false; cl[LC].conn = std::make_shared<Conn>();
    execq.push_back(op);
    lib_go(false);
    if (!up(lib) || v.hit) return;
    op->faulted = S->nfired != op->f0; op->t_sent = S->wall(); op->replied = true; nacked++;
    const Str &b = lib->reply; Str st = b.c_str(); size_t p = st.size() + 1; Reply &r = op->r; bool okst = true;
    auto is = [&](const char *x) { return st == Str("ZDB_API_") + x; };
    bool live = false, dead = false, seq = false; // in some candidate
    if (a.size()) for (auto &m : cand) if (m.ns.count(ns)) { seq = m.ns[ns].seq; if (m.ns[ns].keys.count(a[0])) live = true; else { dead = true; } if (!m.ns[ns].ghosts.empty()) live = dead = true; }
    bool small = a.size() && !a[0].empty() && a[0].size() <= 255;
    if (what == "nsnew" || what == "jump") { r.t = st == "DONE" ? '+' : '-'; r.s = st; okst = st == "DONE" || st == "FAILED" || (st == "NO NAMESPACE" && (libpart || cand.size() > 1)); if (libpart && st == "NO NAMESPACE") op->faulted = true; }
    else if (st == "NO NAMESPACE") { r.t = '-'; r.s = st; op->faulted = true; if (!libpart && std::all_of(cand.begin(), cand.end(), [&](Model &m) { return m.ns.count(ns) > 0; })) okst = false; }
    else if (is("INTERNAL_ERROR")) { r.t = '-'; r.s = st; okst = op->faulted; }
    else if (is("FAILURE")) { r.t = '-'; r.s = st; okst = what == "set" || !small; }
    else if (what == "set") {
        if (is("BUFFER")) { r.t = '$'; r.s = unpack(b, p); }
        else if (is("UP_TO_DATE")) r.t = 'n';
        else if (is("INSERT_DENIED")) { r.t = '-'; r.s = st; okst = seq && a[0].size() && dead; }
        else okst = false;
    } else if (what == "get") {
        if (is("ENTRY")) { r.t = '$'; Str k = unpack(b, p); r.s = unpack(b, p); if (k != a[0]) fail("lib.key", fmt("get of %s returns the key %s", printable(a[0], 24).c_str(), printable(k, 24).c_str())); }
        else if (is("NOT_FOUND") || is("DELETED")) r.t = 'n';
        else okst = false;
    } else if (what == "exists") { r.t = ':'; r.i = is("TRUE"); okst = is("TRUE") || is("FALSE"); }
    else if (what == "check") { r.t = ':'; r.i = is("TRUE"); if (is("NOT_FOUND") || is("DELETED")) r.t = 'n'; else okst = is("TRUE") || is("FALSE"); }
    else if (what == "del") { r.t = is("SUCCESS") ? '+' : '-'; r.s = st; okst = is("SUCCESS") || ((is("NOT_FOUND") || is("DELETED")) && dead); }
    S->log("library answers %s %s", st.c_str(), r.show(40).c_str()); S->probe["lib " + st]++;
    if (!okst) { fail("lib.status", fmt("%s %s in %s answers %s", what.c_str(), a.empty() ? "" : printable(a[0], 24).c_str(), ns.c_str(), st.c_str())); return; }
    process();
}
void Runner::lib_verify() {
    std::set<Str> names; for (auto &m : cand) for (auto &n : m.ns) names.insert(n.first);
    nverify++;
    for (auto &nm : names) {
        std::set<Str> keys = universe[nm]; uint64_t top = 0;
        for (auto &m : cand) if (m.ns.count(nm)) { MNs &q = m.ns[nm]; for (auto &k : q.keys) keys.insert(k.first); if (q.seq) top = std::max(top, (q.anyid ? q.maxid + 1 : 0) + q.ghosts.size() + 2 + (q.ghosts.empty() ? 0 : q.upd)); }
        if (top && keys.size() < 300) for (uint64_t i = 0; i < top; i++) keys.insert(seqkey(i));
        for (auto &k : keys) { if (v.hit || !up(lib)) return; if (k.empty() || k.size() > 255) continue; lib_call("get", nm, {k}); }
        for (auto &m : cand) if (m.ns.count(nm)) m.ns[nm].ghosts.clear();
        for (auto &k : keys) { if (v.hit || !up(lib)) return; if (k.empty() || k.size() > 255) continue; lib_call("exists", nm, {k}); lib_call("check", nm, {k}); }
    }
}
static Str AS(const Step &s, size_t i, const Str &d = "") { return i < s.a.size() ? s.a[i] : d; }
bool Runner::library(const Step &s) {
    if (s.verb == "RESTART" || s.verb == "LIB") { // both end the program first
        bool srv_ = s.verb == "RESTART"; Str w = srv_ ? Str("close") : s.a[0];
        if (w == "close" && up(lib)) { lib->cmd = {"close"}; lib_go(true); }
        if (w != "verify") libpart = false; // (namespaces that could not be read are left out)
        if (srv_) return false;
        if (w == "takeover" && alive()) { // the program finds the directories in use, then the server ends
            quiesce(); if (v.hit || !alive()) return true;
            if (s.a.size() > 2) { Proc *q = S->spawn(module_by_name("zlib"), {"prog", root_data(), root_index(), plan.str("mode", "mix"), "0"}); S->resume(q); if (q->st != P_EXITED || q->code == 0 || q->reply != "REFUSED") { fail("lib.shared", fmt("the library opens directories that a server uses (%s, %s)", pstate_name[q->st], q->reply.c_str())); return true; } S->probe["lib_refused"]++; }
            if (AS(s, 1) == "stop") { ending = true; open(98); issue(98, {"STOP"}); quiesce(); if (alive() || v.hit) { fail("stop", "the server does not end after STOP"); return true; } }
            else { S->kill(srv); S->nfault["kill"]++; ncrash++; after_end(); }
            ending = false; S->mono_us += 500000;
        }
        if (w == "kill" || w == "power") { lib_kill(); }
        if (w == "power" && !alive() && plan.num("sync")) { Rng r(plan.num("sched", 1) * 7919ULL + s.id); S->nfault["power-loss"]++; S->vfs.powerloss(r, atoi(AS(s, 1, "0").c_str()) / 100.0); S->log("POWER LOSS"); }
        if (w != "verify") { S->faults.clear(); S->vfs.disk_free = 1ull << 40; }
        if (w == "reopen" && up(lib)) { libf0 = S->nfired; lib->cmd = {"reopen"}; lib_go(false); if (up(lib) && lib->reply == "OPEN") { for (auto &m : cand) m.restart(); } else if (!v.hit && !S->crash_fired && S->nfired == libf0) fail("start", fmt("the database does not open again through the library: %s", lib->reply.c_str())); }
        if (w == "openfault" && !up(lib) && !alive()) { // a disk call fails while it opens: whatever came of it, nothing is damaged
            Fault f; f.kind = fk_parse(AS(s, 1)); f.skip = atoi(AS(s, 2, "0").c_str()); f.err = atoi(AS(s, 3, "5").c_str()); S->faults.push_back(f);
            bool o = lib_open(); S->faults.clear(); S->mono_us += 300000; S->probe["lib_openfault"]++; if (o && S->nfired != libf0) libpart = true;
        }
        if (w == "open") { for (int i = 0; i < 5 && !v.hit && !up(lib) && !alive(); i++) { if (lib_open()) break; if (S->nfired != libf0 || i == 3) { S->faults.clear(); S->vfs.disk_free = 1ull << 40; } S->crash_armed = false; S->mono_us += 300000; } if (!v.hit && !up(lib) && !alive()) fail("start", "the database does not open through the library"); }
        if (w == "verify" && up(lib)) lib_verify();
        return true;
    }
    if (s.verb != "L") return false;
    if (!up(lib) || (libpart && s.a[0] == "nsnew")) return true;
    Str what = s.a[0], ns = resolve(LC, s.a[1]); std::vector<Str> a;
    for (auto &m : cand) { MSess x; x.ns = ns; if (m.ns.count(ns)) x.gen = m.ns[ns].gen; m.sess[LC] = x; }
    for (size_t i = 2; i < s.a.size(); i++) a.push_back(resolve(LC, s.a[i]));
    if (a.size() && a[0].size() <= 255 && a[0].size() && what != "nsnew") universe[ns].insert(a[0]);
    if (what != "set" && what != "nsnew" && what != "jump" && (a.empty() || a[0].empty())) return true;
    S->mono_us += 1000;
    lib_call(what, ns, a);
    return true;
}

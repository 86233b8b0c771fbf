// Mirror connections and a replica fed with what one of them received (C21).
#include "run.h"
#include <algorithm>

struct Fwd { std::vector<Str> args; Str ns; int64_t lo, hi; int client; bool maybe; };
struct MirSt {
    std::vector<Fwd> log; std::map<int, std::pair<size_t, size_t>> at;   // mirror client: next expected, stream items read
    std::map<int, bool> whole;                                            // attached before anything happened, and never lost
    int64_t owner = -1; bool dirty = false, looped = false;
};
static MirSt *M;
static bool changes(const Str &c) { static const std::set<Str> k = {"SET", "SETX", "DEL", "NSNEW", "NSDEL", "NSSET", "FLUSH"}; return k.count(c); }
static Str show(const std::vector<Str> &a) { Str o; for (auto &x : a) o += (o.empty() ? "" : " ") + printable(x, 24); return o; }

void Runner::mirror_executed(OpP o, const Str &ns, const Reply *r) { // in execution order
    if (!M || o->args.empty()) return;
    Str c = upper(o->args[0]);
    if (c == "MIRROR" && r && !r->err()) { M->at[o->client] = {M->log.size(), 0}; M->whole[o->client] = !M->dirty; return; }
    if (!changes(c) || (r && r->err())) return;
    M->dirty = true;
    Fwd f; f.args = o->args; f.ns = ns; f.client = o->client; f.maybe = !r; f.lo = o->t_cons / 1000000; f.hi = r ? o->t_sent / 1000000 + 1 : -1;
    if (r && plan.num("fragsend", 0) > 0) { uint64_t len = 300; for (auto &x : o->args) len += x.size() + 20; // (each copy is dated when it is handed over, after those before it were sent piece by piece)
        f.hi += (int64_t) ((len / plan.num("fragsend", 1) + 20) * (plan.num("sysus", 1) + plan.num("tickus", 1) + 50) * (M->at.size() + 4) / 1000000); }
    M->log.push_back(f);
}
static bool item(const Reply &r, int64_t &ts, Str &ns, int64_t &owner, std::vector<Str> &args) {
    if (r.t != '*' || r.a.size() < 4 || r.a[0].t != ':' || r.a[1].t != '$' || r.a[2].t != ':') return false;
    ts = r.a[0].i; ns = r.a[1].s; owner = r.a[2].i; args.clear();
    for (size_t i = 3; i < r.a.size(); i++) { if (r.a[i].t != '$' || r.a[i].nil()) return false; args.push_back(r.a[i].s); }
    return true;
}
void Runner::mirror_check(bool all) {
    if (!M || v.hit) return;
    for (auto &m : M->at) {
        Client &c = cl[m.first]; size_t &nx = m.second.first, &rd = m.second.second;
        for (; rd < c.stream.size(); rd++) {
            int64_t ts, owner; Str ns; std::vector<Str> a; const Reply &r = c.stream[rd];
            if (!item(r, ts, ns, owner, a)) { fail("mirror.malformed", fmt("mirror %d received %s", m.first, r.show().c_str())); return; }
            if (owner == 77 && M->looped) continue;
            if (M->owner < 0) M->owner = owner;
            if (owner != M->owner) { fail("mirror.owner", fmt("mirror %d received [%s] with owner %ld, before %ld", m.first, show(a).c_str(), (long) owner, (long) M->owner)); return; }
            if (!changes(upper(a[0]))) continue;
            if (nx >= M->log.size()) { if (!all) break; }   // its own answer may still be on its way
            size_t k = nx; while (k < M->log.size() && M->log[k].maybe && (M->log[k].args != a || M->log[k].ns != ns)) k++;
            if (k >= M->log.size()) { if (!all) break; fail("mirror.extra", fmt("mirror %d received [%s] (namespace %s), which no client executed successfully at that point", m.first, show(a).c_str(), ns.c_str())); return; }
            Fwd &f = M->log[k];
            if (f.args != a || f.ns != ns) {
                bool before = false; for (size_t q = 0; q < nx; q++) if (M->log[q].args == a && M->log[q].ns == ns) before = true;
                fail("mirror.order", fmt("mirror %d received [%s] (namespace %s)%s, the next command executed is [%s] (namespace %s)", m.first, show(a).c_str(), ns.c_str(), before ? " again or late" : "", show(f.args).c_str(), f.ns.c_str())); return;
            }
            if (ts < f.lo || (f.hi >= 0 && ts > f.hi)) { fail("mirror.time", fmt("mirror %d: [%s] executed at %ld..%ld is dated %ld", m.first, show(a).c_str(), (long) f.lo, (long) f.hi, (long) ts)); return; }
            nx = k + 1; S->probe["mirrored"]++;
        }
        if (all && c.conn && !c.srvclosed && !c.rstsent && !c.finsent) {
            while (nx < M->log.size() && M->log[nx].maybe) nx++;
            if (nx < M->log.size()) { fail("mirror.lost", fmt("mirror %d never received [%s] (namespace %s)", m.first, show(M->log[nx].args).c_str(), M->log[nx].ns.c_str())); return; }
        }
    }
    for (auto it = M->at.begin(); it != M->at.end();) { Client &c = cl[it->first]; if (!c.conn || c.srvclosed || c.rstsent || c.finsent) { M->whole.erase(it->first); it = M->at.erase(it); } else ++it; }
}
void Runner::mirror_gone() { if (M) { M->at.clear(); M->whole.clear(); M->owner = -1; M->dirty = true; } } // the server ended

// one connection outside the model
struct Link {
    Runner &r; Proc *p; ConnP c; size_t pos = 0;
    Link(Runner &r, Proc *p, const Str &addr) : r(r), p(p) { c = S->connect(addr); if (c) c->outcap = 1 << 24; spin(); }
    bool up() { return p->st == P_BLOCKED; }
    void spin() { for (int i = 0; i < 500 && up() && S->has_ready(p) && !r.v.hit; i++) { S->yield_after = -1; S->resume(p); } if (!up() && !r.v.hit) r.fail("died", fmt("%s %s", pstate_name[p->st], p->corrupt.c_str())); }
    void put(const std::vector<Str> &a) { if (!c || r.v.hit) return; c->inbuf += resp(a); S->wake_conn(c.get()); spin(); }
    bool get(Reply &x) { size_t q = pos; if (!c || parse_reply(c->outbuf, q, x) != 1) return false; pos = q; return true; }
    bool ask(const std::vector<Str> &a, Reply &x) { put(a); S->mono_us += 20; r.nops++; return !r.v.hit && get(x); }
    void done() { if (c) { c->fin = true; S->wake_conn(c.get()); if (up()) spin(); } }
};

bool Runner::mirror(const Step &s) {
    if (s.verb != "REPLICA") return false;
    if (!M || !alive()) return true;
    for (auto &c : cl) if (c.second.slow) { c.second.slow = false; drain(c.second, (size_t) -1); }
    quiesce(); mirror_check(true); if (v.hit || !alive()) return true;
    int m = -1; for (auto &w : M->whole) if (w.second && M->at.count(w.first)) m = w.first;
    if (m < 0 || cand.size() != 1) return true;
    for (auto &f : M->log) if (f.maybe) return true;
    std::vector<Reply> st = cl[m].stream; Rng g(s.a.size() > 0 ? strtoull(s.a[0].c_str(), 0, 10) : 1);
    // the second server
    Proc *A = srv; Str base0 = base; base = base == "/db" ? "/db-replica" : "/db"; if (S->vfs.get(base)) { base = base0; return true; }
    S->vfs.mkdirs(base); S->mono_us += 1003 + g.below(900000); Str net0 = plan.str("net", "unix"); plan.cfg["net"] = "unix"; std::vector<Str> args = server_args(); Str addr = "unix:" + base + "/sock";
    Proc *B = S->spawn(mod, args); S->resume(B);
    if (B->st != P_BLOCKED) { fail("start", "the second server does not start"); return true; }
    S->probe["replica"]++;
    Reply x; Link in(*this, B, addr), out(*this, B, addr);
    auto okay = [&](Link &l, const std::vector<Str> &a) { if (v.hit) return false; if (!l.ask(a, x)) { fail("mirror.apply", fmt("the replica does not answer [%s]", show(a).c_str())); return false; } if (x.err()) { fail("mirror.apply", fmt("the replica answers %s to [%s]", x.show().c_str(), show(a).c_str())); return false; } return true; };
    if (cand[0].hasadmin) for (Link *l : {&in, &out}) if (!okay(*l, {"AUTH", cand[0].adminpwd})) return true;
    if (!okay(out, {"MIRROR"}) || !okay(in, {"MASTER"})) return true;
    std::map<Str, Str> pass; Str cur; int64_t own = M->owner; std::vector<std::vector<Str>> back; Str os = fmt("%ld", (long) own);
    for (auto &r : st) {
        int64_t ts, owner; Str ns; std::vector<Str> a; if (!item(r, ts, ns, owner, a)) continue;
        Str c = upper(a[0]); if (!changes(c)) continue;
        if (cur != ns || c == "FLUSH") { std::vector<Str> q = {"SELECT", ns}; if (pass.count(ns)) q.push_back(pass[ns]); q.push_back(os); if (!okay(in, q)) return true; cur = ns; }
        if ((c == "SET" || c == "SETX") && a.size() == 3) {
            if (a[1].size()) { if (!in.ask({"GET", a[1], os}, x)) { if (!v.hit) fail("mirror.apply", "the replica does not answer"); return true; } if (x.t == '$' && !x.nil() && x.s == a[2]) continue; } // nothing changed
            a.push_back(fmt("%ld", (long) ts));
        }
        if (c == "NSSET" && a.size() >= 4 && upper(a[2]) == "PASSWORD") { if (a[3] == "*") pass.erase(a[1]); else pass[a[1]] = a[3]; }
        if (c == "NSDEL") pass.erase(a[1]);
        std::vector<Str> q = a; q.push_back(os);
        if (!okay(in, q)) return true;
        back.push_back(a); back.back().push_back(ns);
    }
    // what the replica itself forwards: the same commands, still with the owner they come from
    size_t bi = 0; std::vector<std::vector<Str>> loop;
    while (out.get(x)) {
        int64_t ts, owner; Str ns; std::vector<Str> a; if (!item(x, ts, ns, owner, a)) { fail("mirror.malformed", fmt("the replica's mirror received %s", x.show().c_str())); return true; }
        if (!changes(upper(a[0]))) continue;
        if (owner != own) { fail("mirror.owner", fmt("the replica forwards [%s] of owner %ld with owner %ld", show(a).c_str(), (long) own, (long) owner)); return true; }
        loop.push_back(a); loop.back().push_back(fmt("%ld", (long) owner)); a.push_back(ns);
        if (bi >= back.size() || back[bi] != a) { fail("mirror.order", fmt("the replica's mirror received [%s], expected [%s]", show(a).c_str(), bi < back.size() ? show(back[bi]).c_str() : "nothing")); return true; }
        bi++;
    }
    if (bi < back.size()) { fail("mirror.lost", fmt("the replica's mirror never received [%s]", show(back[bi]).c_str())); return true; }
    in.done(); out.done(); if (v.hit) return true;
    // sent back to where they come from they change nothing and are not answered
    if (g.below(2)) {
        base = base0; plan.cfg["net"] = net0; Link b(*this, A, net0 == "tcp" ? Str("tcp:9900") : "unix:" + base + "/sock"); base = "/db-replica";
        if (cand[0].hasadmin && !okay(b, {"AUTH", cand[0].adminpwd})) return true;
        if (!okay(b, {"MASTER"})) return true;
        for (auto &q : loop) b.put(q);
        if (v.hit) return true;
        if (b.get(x)) { fail("mirror.loop", fmt("a command coming back to its owner is answered %s", x.show().c_str())); return true; }
        M->looped = true; if (!okay(b, {"PING", "77"})) return true;
        b.done(); S->probe["mirror_loop"]++;
        base = base0; verify("gis"); if (v.hit || !alive()) return true; base = base0 == "/db" ? "/db-replica" : "/db"; plan.cfg["net"] = "unix";
    }
    // the replica takes over
    S->kill(A); for (auto &c : cl) { c.second.srvclosed = true; c.second.ops.clear(); c.second.outq.clear(); c.second.wait.reset(); } waiters.clear(); execq.clear(); srv = B; M->at.clear(); M->whole.clear(); M->owner = -1; nrestart++;
    for (auto &n : cand[0].ns) for (auto &k : n.second.keys) { k.second.cur.ts.lo--; k.second.cur.ts.hi++; k.second.hist.clear(); }
    for (auto &n : cand[0].ns) { n.second.cursors.clear(); n.second.curkey.clear(); n.second.ekeys.clear(); n.second.log.clear(); }
    cand[0].sess.clear(); cursor.clear(); href.clear();
    verify("gisx");
    return true;
}
void Runner::mirror_init() { static MirSt st; if (plan.num("mirrorok")) M = &st; }

// Scripts run by the server: missing data files (C17) and backups (C18).
#include "run.h"
#include <algorithm>

struct Hidden { InodeP ino; Str ns; uint64_t idx; };
struct Backup {
    uint64_t i0 = 0;                             // inode of the first data file: which incarnation of the namespace
    std::map<Str, Str> files;                    // what the backup holds
    std::map<uint32_t, Str> snap; std::set<uint32_t> touched;   // index files at the last reset; written since
    uint32_t base = 0; std::map<uint32_t, int> ji, jd; std::set<uint32_t> lost; // rotations seen by hooks; data files no hook handed over
    int closed = 0; bool full = true;
};
struct HookSt {
    std::map<Str, Hidden> hidden;
    Str modes; size_t nmode = 0;
    std::vector<std::pair<Str, bool>> calls;     // missing-data calls since the last answer: file, brought back
    uint64_t fork0 = 0; bool backups = false; uint64_t forkbad = 0;
    std::map<Str, Backup> b; bool booted = false; Str resetting;
};
static HookSt *H;
static uint64_t forkfails() { auto i = S->nfault.find("fork-error"); return i == S->nfault.end() ? 0 : i->second; }
static bool file_id(const Str &dir, const Str &path, char t, uint32_t &id) { // <dir>/<ns>/<t><id>
    if (path.compare(0, dir.size() + 1, dir + "/") != 0) return false;
    size_t k = path.rfind('/'); if (k == Str::npos || k + 2 > path.size() || path[k + 1] != t) return false;
    int used = 0; Str b = path.substr(k + 2); return sscanf(b.c_str(), "%u%n", &id, &used) == 1 && used == (int) b.size();
}
static Str ns_of(const Str &dir, const Str &path) { size_t k = path.rfind('/'); return k > dir.size() ? path.substr(dir.size() + 1, k - dir.size() - 1) : Str(); }
static std::map<uint32_t, InodeP> files_of(const Str &dir, const Str &ns, char t) {
    std::map<uint32_t, InodeP> o; uint32_t id; Str pre = dir + "/" + ns + "/";
    for (auto it = S->vfs.tree.lower_bound(pre); it != S->vfs.tree.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) if (!it->second->dir && file_id(dir, it->first, t, id) && ns_of(dir, it->first) == ns) o[id] = it->second;
    return o;
}

// ---------------------------------------------------------------- data files that disappear and come back
static bool bring_back(const Str &path) {
    auto it = H->hidden.find(path); if (it == H->hidden.end()) return false;
    Hidden h = it->second; H->hidden.erase(it);
    uint32_t id; file_id("/db/data", path, 'd', id);
    InodeP x = S->vfs.get(fmt("/db/index/%s/i%u", h.ns.c_str(), id));
    if (S->vfs.get(path) || !x || x->id != h.idx) return false;      // the namespace was flushed or removed since
    S->vfs.put(path, h.ino->data); InodeP n = S->vfs.get(path); if (!n) return false;
    n->isdata = h.ino->isdata; n->sealed = h.ino->sealed; n->rotated = true;
    S->log("file %s is back", path.c_str()); S->probe["file_back"]++;
    return true;
}
static void take_away(const Str &ns, uint64_t sel, int cnt) {
    auto d = files_of("/db/data", ns, 'd'), i = files_of("/db/index", ns, 'i'); if (d.empty() || i.empty()) return;
    uint32_t top = std::min(d.rbegin()->first, i.rbegin()->first); std::vector<uint32_t> c;
    for (auto &x : d) if (x.first < top && i.count(x.first)) c.push_back(x.first);
    for (int k = 0; k < cnt && !c.empty(); k++) {
        size_t at = (sel + k * 7) % c.size(); uint32_t id = c[at]; c.erase(c.begin() + at);
        Str path = fmt("/db/data/%s/d%u", ns.c_str(), id); Hidden h; h.ino = d[id]; h.ns = ns; h.idx = i[id]->id;
        S->vfs.unlink(path); S->vfs.sync_all(); H->hidden[path] = h; S->nfault["missing-file"]++; S->log("file %s is gone", path.c_str());
    }
}
// keys whose current value / any record lies in the files
static void keys_in(const std::set<Str> &files, const Str &ns, std::set<Str> &last, std::set<Str> &any) {
    std::map<uint32_t, InodeP> all = files_of("/db/data", ns, 'd'); uint32_t id;
    for (auto &h : H->hidden) if (h.second.ns == ns && file_id("/db/data", h.first, 'd', id)) all[id] = h.second.ino;
    std::map<Str, Str> where;
    for (auto &f : all) { Str path = fmt("/db/data/%s/d%u", ns.c_str(), f.first); bool in = files.count(path); for (auto &r : parse_data(f.second->data).recs) { if (!(r.flags & 1)) where[r.id] = path; if (in) any.insert(r.id); } }   // (a deletion interrupted by a crash may leave its record behind)
    std::map<Str, Str> byidx; for (auto &f : files_of("/db/index", ns, 'i')) for (auto &r : parse_index(f.second->data).recs) if (!(r.flags & 1)) byidx[r.id] = fmt("/db/data/%s/d%u", ns.c_str(), r.dataid);
    for (auto &w : where) if (files.count(w.second)) last.insert(w.first);
    for (auto &w : byidx) if (files.count(w.second)) last.insert(w.first);   // (a write interrupted by a crash may have left its record behind)
}
// a request was answered: which of its keys could not be read
void Runner::hook_answered(OpP o) {
    if (!H || o->args.empty() || (H->hidden.empty() && H->calls.empty())) return;
    std::vector<std::pair<Str, bool>> calls; calls.swap(H->calls);
    bool nofork = forkfails() != H->fork0; H->fork0 = forkfails();
    Str c = upper(o->args[0]); int max = c == "MGET" ? (int) o->args.size() - 1 : 1;
    static const std::set<Str> reads = {"GET", "MGET", "CHECK", "HISTORY", "SET", "SETX", "DATA"};
    if (calls.size() && !reads.count(c)) { fail("missing.spurious", fmt("[%s] called the missing-data hook for %s", c.c_str(), calls[0].first.c_str())); return; }
    if ((int) calls.size() > max) { fail("missing.twice", fmt("[%s] called the missing-data hook %zu times (%s)", c.c_str(), calls.size(), calls[0].first.c_str())); return; }
    if (calls.size() && !calls.back().second && !o->r.err() && (c == "GET" || c == "CHECK" || c == "HISTORY")) { fail("missing.trusted", fmt("[%s] answered %s although the script bringing %s back failed", c.c_str(), o->r.show(60).c_str(), calls.back().first.c_str())); return; }
    std::set<Str> bad; for (auto &x : calls) if (!x.second) bad.insert(x.first);
    if (!plan.cfg.count("hook") || nofork) for (auto &h : H->hidden) bad.insert(h.first);
    if (bad.empty()) return;
    std::set<Str> nss; for (auto &f : bad) nss.insert(ns_of("/db/data", f));
    Str ns = cand[0].sess.count(o->client) ? cand[0].sess[o->client].ns : Str(DEFNS);
    for (auto &q : execq) if (q->client == o->client && q != o && !q->args.empty() && upper(q->args[0]) == "SELECT") ns = "";  // not settled yet
    for (auto &x : nss) if (ns.empty() || x == ns) keys_in(bad, x, o->gone, o->goneany);
    if (o->r.err()) S->probe["missing_error"]++;
}

// ---------------------------------------------------------------- backups
static std::vector<Str> split(const Str &s) { std::vector<Str> o; size_t p = 0; while (p < s.size()) { size_t e = s.find(' ', p); if (e == Str::npos) e = s.size(); if (e > p) o.push_back(s.substr(p, e - p)); p = e + 1; } return o; }
static Backup &backup_of(const Str &ns) {
    Backup &b = H->b[ns]; InodeP i = S->vfs.get("/db/data/" + ns + "/d0"); uint64_t id = i ? i->id : 0;
    if (b.i0 != id) { b = Backup(); b.i0 = id; } // created, or flushed
    return b;
}
static void reset_dirty(const Str &ns) { Backup &b = backup_of(ns); b.snap.clear(); b.touched.clear(); for (auto &f : files_of("/db/index", ns, 'i')) b.snap[f.first] = f.second->data; }
static Str check_dirty(const Str &ns, const std::vector<uint32_t> &list) {
    if (!H->booted || H->resetting == ns) return "";
    Backup &b = backup_of(ns); std::set<uint32_t> s(list.begin(), list.end());
    if (s.size() != list.size()) return "an index file is listed twice";
    for (auto &f : files_of("/db/index", ns, 'i')) {
        const Str &x = f.second->data, &y = b.snap.count(f.first) ? b.snap[f.first] : "";
        bool changed = b.snap.count(f.first) ? x != y : x.size() > 29;
        if (changed && !s.count(f.first)) return fmt("index file i%u was modified since the last reset but is not listed", f.first);
        if (s.count(f.first) && !changed && !b.touched.count(f.first)) return fmt("index file i%u is listed but was not modified since the last reset", f.first);
        s.erase(f.first);
    }
    if (!s.empty()) return fmt("index file i%u is listed but does not exist", *s.begin());
    return "";
}
static void copy_file(Backup &b, const Str &p) { InodeP i = S->vfs.get(p); if (i) b.files[p] = i->data; }
static bool parse_list(const std::vector<Str> &l, std::vector<uint32_t> &o) { for (auto &x : l) { uint32_t v; int used = 0; if (sscanf(x.c_str(), "%u%n", &v, &used) != 1 || used != (int) x.size()) return false; o.push_back(v); } return true; }
// a server process started: the list of modified files starts empty
void Runner::hook_started(bool booted) {
    if (!H) return;
    H->booted = booted; std::set<Str> names; for (auto &m : cand) for (auto &n : m.ns) names.insert(n.first); for (auto &b : H->b) names.insert(b.first);
    if (booted) { if (H->backups) for (auto &m : names) { Backup &b = backup_of(m); b.snap.clear(); for (auto &f : files_of("/db/index", m, 'i')) b.snap[f.first] = f.second->data; } return; } // (loading may repair files)
    H->forkbad = forkfails(); H->calls.clear(); H->fork0 = forkfails();
    if (!H->backups) return;
    for (auto &m : names) {
        Backup &b = backup_of(m); auto f = files_of("/db/index", m, 'i'); b.base = f.empty() ? 0 : f.rbegin()->first;
        b.ji.clear(); b.jd.clear(); b.lost.clear(); if (!b.closed) b.full = true; b.closed = 0; reset_dirty(m);
    }
}
static void touched(const Str &p) { // index files written by the server
    uint32_t id; if (H && H->backups && file_id("/db/index", p, 'i', id)) backup_of(ns_of("/db/index", p)).touched.insert(id);
}
static Str jump_args(const std::vector<Str> &a, const Str &dir, char t, Str &ns, uint32_t &old) {
    uint32_t nw; Str how = a.size() < 5 ? "misses arguments" : "";
    if (how.empty() && (!file_id(dir, a[3], t, old) || !file_id(dir, a[4], t, nw))) how = "does not name two files";
    if (how.empty()) { ns = ns_of(dir, a[3]); if (ns_of(dir, a[4]) != ns || nw != old + 1 || !S->vfs.get(a[3]) || !S->vfs.get(a[4]) || S->vfs.get(fmt("%s/%s/%c%u", dir.c_str(), ns.c_str(), t, nw + 1))) how = fmt("names %s and %s, which is not the rotation that happens", a[3].c_str(), a[4].c_str()); }
    return how;
}
void Runner::hook_cb(Hook &h) {
    if (plan.num("hookms")) h.finish_us = S->mono_us + plan.num("hookms") * 1000;
    if (!H || h.argv.size() < 3 || h.argv[0] != plan.str("hook")) return;
    const Str &t = h.argv[1]; const std::vector<Str> &a = h.argv; S->nfault["hook-" + t]++;
    if (t == "ready" || t == "namespaces-init") return;
    char o = H->modes.empty() ? 'r' : H->modes[H->nmode++ % H->modes.size()];
    if (o == 's') { h.finish_us = S->mono_us + 1500000 + (H->nmode % 5) * 400000; o = 'r'; S->probe["hook_slow"]++; }
    if (o == 'z') { if (t != "jump-index" && t != "missing-data") { h.finish_us = S->mono_us + 1000000000000LL; S->probe["hook_stuck"]++; } o = 'r'; }   // never ends
    if (o == 'f' || o == 'R') h.code = 1 + H->nmode % 90;
    if (o == 'k' || o == 'K') h.code = -9;
    if (h.code) S->nfault["hook-failed"]++;
    if (t == "missing-data") {
        if (a.size() != 4) { fail("missing.args", fmt("the missing-data hook has %zu arguments", a.size())); return; }
        if (!H->hidden.count(a[3])) { fail("missing.spurious", fmt("the missing-data hook was called for %s", printable(a[3], 60).c_str())); return; }
        if (o == 'h') { Str p = a[3], ns = ns_of("/db/data", p); Hidden keep; bool other = false; take_away(ns, H->nmode, 1); (void) keep; (void) other; o = 'r'; }
        if (o == 'r' || o == 'R' || o == 'K') bring_back(a[3]);
        bool there = S->vfs.get(a[3]) != nullptr; H->calls.push_back({a[3], there && h.code == 0}); if (there) S->probe["missing_restored"]++;
        return;
    }
    if (!H->backups || h.owner != srv) return;
    if (t == "jump-index") {
        Str ns; uint32_t old = 0; Str e = jump_args(a, root_index(), 'i', ns, old); std::vector<uint32_t> d;
        if (e.empty() && a.size() != 6) e = fmt("has %zu arguments", a.size());
        if (e.empty() && !parse_list(split(a[5]), d)) e = "has a malformed list";
        if (!e.empty()) { fail("hook.args", "the jump-index hook " + e); return; }
        Backup &b = backup_of(ns); if (++b.ji[old] > 1) { fail("hook.twice", fmt("the jump-index hook ran twice for %s", a[3].c_str())); return; }
        if (old > 100 && old % 64) e = ""; else e = check_dirty(ns, d);   // (costly)
        if (!e.empty()) { fail("dirty.list", fmt("jump-index hook of %s: %s", ns.c_str(), e.c_str())); return; }
        if (h.code == 0) { copy_file(b, a[3]); for (auto x : d) copy_file(b, fmt("/db/index/%s/i%u", ns.c_str(), x)); reset_dirty(ns); S->probe["backup_jump"]++; }
    } else if (t == "jump-data") {
        Str ns; uint32_t old = 0; Str e = jump_args(a, root_data(), 'd', ns, old);
        if (e.empty() && a.size() != 5) e = fmt("has %zu arguments", a.size());
        if (!e.empty()) { fail("hook.args", "the jump-data hook " + e); return; }
        Backup &b = backup_of(ns); if (++b.jd[old] > 1) { fail("hook.twice", fmt("the jump-data hook ran twice for %s", a[3].c_str())); return; }
        if (h.code == 0) copy_file(b, a[3]); else b.lost.insert(old);
    } else if (t == "namespace-closing") {
        std::vector<uint32_t> d; Str e; if (a.size() != 7) e = fmt("has %zu arguments", a.size());
        if (e.empty()) { auto i = files_of(root_index(), a[3], 'i'), f = files_of(root_data(), a[3], 'd'); if (i.empty() || f.empty() || a[4] != fmt("/db/index/%s/i%u", a[3].c_str(), i.rbegin()->first) || a[5] != fmt("/db/data/%s/d%u", a[3].c_str(), i.rbegin()->first)) e = fmt("names %s and %s", a[4].c_str(), a[5].c_str()); }
        if (e.empty() && !parse_list(split(a[6]), d)) e = "has a malformed list";
        if (!e.empty()) { fail("hook.args", "the namespace-closing hook " + e); return; }
        Backup &b = backup_of(a[3]); e = check_dirty(a[3], d); if (!e.empty()) { fail("dirty.list", fmt("namespace-closing hook of %s: %s", a[3].c_str(), e.c_str())); return; }
        if (forkfails() != H->forkbad) for (auto &f : files_of(root_data(), a[3], 'd')) if (f.first >= b.base && !b.jd[f.first]) b.lost.insert(f.first);
        if (h.code == 0) { b.closed++; copy_file(b, a[4]); copy_file(b, a[5]); for (auto x : d) copy_file(b, fmt("/db/index/%s/i%u", a[3].c_str(), x)); for (auto x : b.lost) copy_file(b, fmt("/db/data/%s/d%u", a[3].c_str(), x)); S->probe["backup_closing"]++; }
    }
}
// a stop is complete: every namespace was announced once
void Runner::hook_stopped() {
    if (!H || !H->backups || forkfails() != H->forkbad || !plan.cfg.count("hook") || cand.size() != 1) return;
    std::map<Str, int> n; for (auto &h : S->hooks) if (h.owner == srv && h.argv.size() > 3 && h.argv[1] == "namespace-closing") n[h.argv[3]]++;
    for (auto &m : cand[0].ns) if (n[m.first] != 1) { fail("hook.count", fmt("the namespace-closing hook ran %d times for %s", n[m.first], m.first.c_str())); return; }
}
void Runner::backup_now(bool reset) {
    if (!alive() || v.hit) return;
    quiesce(); if (v.hit || !alive() || cand.size() != 1) return;
    S->probe["backup"]++;
    int c = 97; bool ok; if (cl.count(c) && cl[c].conn && !cl[c].srvclosed) { closec(c, false); quiesce(); }
    if (!open(c)) { fail("refused", "the server does not accept connections"); return; }
    bool pp = pipelined; pipelined = false; admin_session(c);
    std::vector<Str> names; for (auto &n : cand[0].ns) names.push_back(n.first);
    for (auto &ns : names) {
        if (v.hit || !alive()) break;
        MNs &m = cand[0].ns[ns]; if (m.locked == 2) continue;
        std::vector<Str> sel = {"SELECT", ns}; if (m.haspass) sel.push_back(m.pass);
        Reply r = call(c, sel, &ok); if (!ok || r.err()) continue;
        size_t nh = S->hooks.size(); r = call(c, {"INDEX", "DIRTY"}, &ok); if (!ok || v.hit) break;
        if (S->hooks.size() != nh) continue; // a rotation may have followed the answer
        if (r.t != '*') { if (!S->nfired) fail("dirty.list", fmt("INDEX DIRTY answered %s", r.show().c_str())); continue; }
        std::vector<uint32_t> d; for (auto &x : r.a) d.push_back(x.i);
        Str e = check_dirty(ns, d); if (!e.empty()) { fail("dirty.list", fmt("INDEX DIRTY in %s: %s", ns.c_str(), e.c_str())); break; }
        // rotations since the start, each announced once
        Backup &b = backup_of(ns); auto li = files_of(root_index(), ns, 'i'), ld = files_of(root_data(), ns, 'd'); if (li.empty() || ld.empty()) continue;
        uint32_t act = li.rbegin()->first, dact = ld.rbegin()->first; bool nofork = forkfails() != H->forkbad || !plan.cfg.count("hook");
        for (uint32_t k = b.base; k < act; k++) if ((b.ji[k] != 1 || b.jd[k] != 1) && !nofork) { fail("hook.count", fmt("rotation of %s from file %u: jump-index ran %d times, jump-data %d times", ns.c_str(), k, b.ji[k], b.jd[k])); break; }
        for (auto &k : b.ji) if (k.second && (k.first >= act || k.first < b.base)) { fail("hook.count", fmt("the jump-index hook announced a rotation of %s from file %u, the active one is %u", ns.c_str(), k.first, act)); break; }
        if (v.hit) break;
        if (nofork) for (uint32_t k = b.base; k < act; k++) if (!b.jd[k]) b.lost.insert(k);
        for (auto &f : li) { Str p = fmt("/db/index/%s/i%u", ns.c_str(), f.first); if (!b.files.count(p)) copy_file(b, p); }   // it knows which files it never saw
        // the backup: files listed, files no hook handed over, the active ones
        if (b.full) { for (auto &f : li) copy_file(b, fmt("/db/index/%s/i%u", ns.c_str(), f.first)); for (auto &f : ld) copy_file(b, fmt("/db/data/%s/d%u", ns.c_str(), f.first)); b.full = false; }
        for (auto x : d) copy_file(b, fmt("/db/index/%s/i%u", ns.c_str(), x));
        for (auto x : b.lost) copy_file(b, fmt("/db/data/%s/d%u", ns.c_str(), x)); b.lost.clear();
        copy_file(b, fmt("/db/index/%s/i%u", ns.c_str(), act)); copy_file(b, fmt("/db/data/%s/d%u", ns.c_str(), dact));
        for (auto &f : li) { Str p = fmt("/db/index/%s/i%u", ns.c_str(), f.first); if (!b.files.count(p) || b.files[p] != f.second->data) { fail("backup.incomplete", fmt("the backup of %s differs from the live file", p.c_str())); break; } }
        for (auto &f : ld) { Str p = fmt("/db/data/%s/d%u", ns.c_str(), f.first); if (!b.files.count(p) || b.files[p] != f.second->data) { fail("backup.incomplete", fmt("the backup of %s differs from the live file", p.c_str())); break; } }
        if (v.hit) break;
        S->probe["backup_files"] += li.size() + ld.size(); S->probe["backup_dirty"] += d.size();
        if (reset) { H->resetting = ns; r = call(c, {"INDEX", "DIRTY", "RESET"}, &ok); H->resetting.clear(); if (ok && !r.err()) reset_dirty(ns); r = call(c, {"INDEX", "DIRTY"}, &ok); if (ok && r.t == '*' && r.a.size()) fail("dirty.list", fmt("INDEX DIRTY in %s answered %s right after a reset", ns.c_str(), r.show().c_str())); }
    }
    if (!v.hit && alive()) { uint64_t t0 = S->mono_us; Reply r = call(c, {"HOOKS"}, &ok); hook_list(r, t0); }
    if (alive()) { closec(c, false); quiesce(); }
    pipelined = pp;
}
// HOOKS lists the scripts that run or ended in the last minutes
void Runner::hook_list(const Reply &r, uint64_t asked) {
    if (r.t != '*' || v.hit) return;
    std::map<int, const Reply *> seen; int64_t now = S->wall_s();
    for (auto &e : r.a) {
        if (e.t != '*' || e.a.size() != 6 || e.a[0].t != '$' || e.a[1].t != '*' || e.a[2].t != ':' || e.a[5].t != ':') { fail("hooks.list", fmt("HOOKS has a malformed entry %s", e.show().c_str())); return; }
        if (e.a[2].i == 0 && forkfails() != H->forkbad) { if (e.a[4].i == 0 || e.a[5].i == 0) { fail("hooks.list", fmt("HOOKS says that a script which could not be started %s", e.a[4].i ? "succeeded" : "still runs")); return; } continue; }
        seen[e.a[2].i] = &e;
    }
    if (!H) return;
    bool idle = true; for (auto &h : S->hooks) if (h.owner == srv && (!h.reaped || now - h.reap_s < 10)) idle = false;   // (entries are dropped when no script runs)
    for (auto &h : S->hooks) {
        if (h.owner != srv) continue;
        if (h.waited && h.argv.size() > 1 && (h.argv[1] == "jump-data" || h.argv[1] == "namespace-created" || h.argv[1] == "namespace-updated" || h.argv[1] == "namespace-deleted" || h.argv[1] == "namespace-reloaded")) { fail("hook.blocking", fmt("the server stopped serving until %s ended", h.argv[1].c_str())); return; }
        auto it = seen.find(h.pid);
        if (it == seen.end()) { if ((uint64_t) h.start_us >= asked) continue; if (!h.reaped || now - h.reap_s < 200) { fail("hooks.list", fmt("HOOKS does not list %s (pid %d)", h.argv.size() > 1 ? h.argv[1].c_str() : "?", h.pid)); return; } continue; }
        const Reply &e = *it->second; bool same = h.argv.size() > 2 && e.a[0].s == h.argv[1] && e.a[1].a.size() == h.argv.size() - 3;
        for (size_t i = 3; same && i < h.argv.size(); i++) if (e.a[1].a[i - 3].s != h.argv[i]) same = false;
        if (!same) { fail("hooks.list", fmt("HOOKS describes pid %d as %s", h.pid, e.show(200).c_str())); return; }
        if ((e.a[4].i != 0) != h.reaped && !(h.reaped && (uint64_t) h.reap_us >= asked)) { fail("hooks.list", fmt("HOOKS says that %s (pid %d) %s", h.argv[1].c_str(), h.pid, h.reaped ? "still runs" : "ended")); return; }
        if (h.reaped && e.a[4].i && (h.code == 0) != (e.a[5].i == 0)) { fail("hooks.list", fmt("HOOKS says that %s (pid %d) ended with %ld, it ended with %d", h.argv[1].c_str(), h.pid, (long) e.a[5].i, h.code)); return; }
        if (idle && now - h.reap_s > 320) { fail("hooks.list", fmt("HOOKS still lists %s (pid %d), which ended %ld s ago", h.argv[1].c_str(), h.pid, (long) (now - h.reap_s))); return; }
        seen.erase(it);
    }
    if (!seen.empty()) fail("hooks.list", fmt("HOOKS lists a script that was not started: pid %d", seen.begin()->first));
}

static int64_t A(const Step &s, size_t i, int64_t d = 0) { return i < s.a.size() ? strtoll(s.a[i].c_str(), 0, 10) : d; }
static Str AS(const Step &s, size_t i, const Str &d = "") { return i < s.a.size() ? s.a[i] : d; }
bool Runner::hooks(const Step &s) {
    const Str &V = s.verb;
    if (V == "HIDE") { if (!pipelined) quiesce(); if (!v.hit) take_away(resolve(0, AS(s, 0)), A(s, 1), A(s, 2, 1)); return true; }
    if (V == "UNHIDE") { Str ns = AS(s, 0) == "-" ? "" : resolve(0, AS(s, 0)); if (alive()) quiesce(); std::vector<Str> p; for (auto &h : H->hidden) if (ns.empty() || h.second.ns == ns) p.push_back(h.first); for (auto &x : p) bring_back(x); return true; }
    if (V == "HOOKMODE") { H->modes = AS(s, 0); H->nmode = A(s, 1); return true; }
    if (V == "BACKUP") { backup_now(A(s, 0)); return true; }
    if (V == "REAP") { // scripts that ended are noticed
        if (!alive()) return true; quiesce(); for (int i = 0; i < 2 && alive() && !v.hit; i++) tick();
        if (alive() && !v.hit) for (auto &h : S->hooks) if (h.owner == srv && !h.reaped && h.finish_us < S->mono_us - 3000000) fail("hook.zombie", fmt("%s (pid %d) ended but was not noticed", h.argv[1].c_str(), h.pid));
        return true;
    }
    return false;
}
void Runner::hooks_init() {
    static HookSt st; if (!plan.num("hookst")) return;
    H = &st; H->backups = plan.num("hookst") == 2; if (H->backups) S->on_mutate = touched;
}

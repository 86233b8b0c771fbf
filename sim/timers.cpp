// Rotation period and sync period against the simulated clock (C19).
#include "run.h"
#include <algorithm>

struct NsTime {
    uint64_t ino = 0; uint32_t act = 0; Str base, late;           // incarnation, active file and its content when it was opened
    int64_t omin = 0, omax = 0, due = -1;                   // wall clock when it was opened (us); monotonic time since when a rotation is due
    std::map<char, int64_t> flushed;                        // wall clock (s) of the last flush, per kind of file
};
struct TimerSt { std::map<Str, NsTime> ns; std::map<Str, int64_t> owed; bool booted = false; int64_t before_wall = 0; std::set<Str> adm; bool admall = false; int64_t maxval = 0; };
static TimerSt *T;
static int64_t wall_us() { return S->wall_s() * 1000000; }

static bool split(const Str &dir, const Str &p, Str &ns, uint32_t &id) {
    if (p.compare(0, dir.size() + 1, dir + "/") != 0) return false;
    size_t k = p.rfind('/'); if (k <= dir.size()) return false;
    ns = p.substr(dir.size() + 1, k - dir.size() - 1); char t = dir == "/db/data" ? 'd' : 'i'; int used = 0; Str b = p.substr(k + 1);
    return b.size() > 1 && b[0] == t && sscanf(b.c_str() + 1, "%u%n", &id, &used) == 1 && used == (int) b.size() - 1;
}
// the active data file of every namespace
static std::map<Str, std::pair<uint32_t, InodeP>> active() {
    std::map<Str, std::pair<uint32_t, InodeP>> o; Str ns; uint32_t id; Str pre = "/db/data/";
    for (auto it = S->vfs.tree.lower_bound(pre); it != S->vfs.tree.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) if (!it->second->dir && split("/db/data", it->first, ns, id)) if (!o.count(ns) || o[ns].first < id) o[ns] = {id, it->second};
    return o;
}
static uint64_t first_ino(const Str &ns) { InodeP i = S->vfs.get("/db/data/" + ns + "/d0"); return i ? i->id : 0; }
static void opened(const Str &ns, uint32_t id, const InodeP &f, int64_t a, int64_t b) { NsTime &t = T->ns[ns]; t.ino = first_ino(ns); t.act = id; t.base = t.late = f->data; t.omin = a; t.omax = b; t.due = -1; }

void Runner::timers_start() { // a server is being started
    if (!T) return;
    T->owed.clear(); T->booted = false;
}
void Runner::timers_before() { // the server is about to run
    if (!T) return;
    T->before_wall = wall_us(); T->adm.clear(); T->admall = false;
    static const std::set<Str> adm = {"NSJUMP", "RELOAD", "FLUSH", "NSNEW", "NSDEL", "STOP"};
    for (auto &c : cl) for (auto &o : c.second.ops) {
        if (o->args.empty()) continue;
        Str q = upper(o->args[0]); if (!adm.count(q)) continue;
        if (q == "NSJUMP" || q == "FLUSH") { if (cand.size() == 1 && cand[0].sess.count(o->client)) T->adm.insert(cand[0].sess[o->client].ns); else T->admall = true; }
        else if (o->args.size() > 1) T->adm.insert(o->args[1]); else T->admall = true;
    }
}
void Runner::timers_after() { // it blocked again
    if (!T || !alive()) return;
    int64_t R = plan.num("rotate"), now = wall_us(), mono = S->mono_us; auto act = active();
    std::vector<Str> gone; for (auto &t : T->ns) if (!act.count(t.first)) gone.push_back(t.first);
    for (auto &g : gone) T->ns.erase(g);
    for (auto &a : act) {
        const Str &nm = a.first; uint32_t id = a.second.first; InodeP f = a.second.second; auto it = T->ns.find(nm);
        if (!T->booted || it == T->ns.end() || it->second.ino != first_ino(nm)) { opened(nm, id, f, T->before_wall, now); if (T->booted) T->ns[nm].base = T->ns[nm].late = f->data.substr(0, 28); continue; }
        NsTime &t = it->second; bool adm = T->admall || T->adm.count(nm);
        if (id != t.act) {
            S->probe["rotations"]++;
            InodeP old = S->vfs.get(fmt("/db/data/%s/d%u", nm.c_str(), t.act));
            bool full = plan.num("datasize") && (!old || (int64_t) old->data.size() + 18 + 255 + T->maxval > plan.num("datasize")); // may be the size limit
            if (!adm && !full) {
                S->probe["timed_rotations"]++;
                if (!R) { fail("rotate.off", fmt("namespace %s was rotated without a rotation period, a full file or NSJUMP", nm.c_str())); return; }
                if (id != t.act + 1) { fail("rotate.twice", fmt("namespace %s was rotated from file %u to %u", nm.c_str(), t.act, id)); return; }
                if (now - t.omin < R * 1000000) { fail("rotate.early", fmt("namespace %s was rotated %.1f s after its file was opened, the period is %ld s", nm.c_str(), (now - t.omin) / 1e6, (long) R)); return; }
                if (old && old->data == t.base) { fail("rotate.unmodified", fmt("namespace %s was rotated although nothing was written since its file was opened", nm.c_str())); return; }
            }
            opened(nm, id, f, T->before_wall, now); T->ns[nm].base = T->ns[nm].late = f->data.substr(0, 28); continue;
        }
        if (adm) { t.omin = std::min(t.omin, T->before_wall); t.omax = std::max(t.omax, now); t.late = f->data; t.due = -1; continue; } // it may have been opened again
        if (!R) continue;
        bool is = now / 1000000 - t.omax / 1000000 > R && f->data != t.late;
        if (!is) t.due = -1; else if (t.due < 0) t.due = mono;
        else if (mono - t.due > 21000000) { fail("rotate.late", fmt("namespace %s was modified and its files are open for %.1f s, the period is %ld s, and it was not rotated for %.1f s", nm.c_str(), (now - t.omax) / 1e6, (long) R, (mono - t.due) / 1e6)); return; }
    }
    T->booted = true;
}
void Runner::timers_sent() { // an answer leaves: nothing that was due may be unflushed
    if (!T || T->owed.empty() || !T->booted) return;
    auto &o = *T->owed.begin(); fail("sync.late", fmt("an answer was sent although the write to %s, %ld s after the last flush, is not flushed (period %ld s)", o.first.c_str(), (long) o.second, (long) plan.num("synctime")));
    T->owed.clear();
}
static void wrote(const Str &p, uint64_t off, uint64_t) {
    Str ns; uint32_t id; char k = split("/db/data", p, ns, id) ? 'd' : split("/db/index", p, ns, id) ? 'i' : 0;
    if (!k || off < (k == 'd' ? 28u : 29u) || !S->syncperiod) return;
    NsTime &t = T->ns[ns]; int64_t now = S->wall_s();
    if (!t.flushed.count(k)) { t.flushed[k] = now; return; }
    if (now - t.flushed[k] > S->syncperiod + 1) { T->owed[p] = now - t.flushed[k]; S->probe["timed_syncs_due"]++; }
}
static void flushed(const Str &p) {
    Str ns; uint32_t id; char k = split("/db/data", p, ns, id) ? 'd' : split("/db/index", p, ns, id) ? 'i' : 0; if (!k) return;
    T->owed.erase(p); T->ns[ns].flushed[k] = S->wall_s();
}
void Runner::timers_init() {
    static TimerSt st; if (!plan.num("timers")) return;
    for (auto &s : plan.steps) for (auto &a : s.a) if (!a.empty()) st.maxval = std::max<int64_t>(st.maxval, (a[0] == 'v' || a[0] == 'w') && a[1] == ':' ? atol(a.c_str() + 2) : (int64_t) a.size());
    T = &st; S->syncperiod = plan.num("synctime"); S->on_write = wrote; S->on_fsync = flushed;
}

#include "model.h"
#include <algorithm>

const char *DEFNS = "default";
Str upper(Str s) { for (auto &c : s) c = toupper((unsigned char) c); return s; }
Str seqkey(uint64_t id) { Str s(8, 0); memcpy(&s[0], &id, 8); return s; }
static uint64_t idof(const Str &k) { uint64_t v; memcpy(&v, k.data(), 8); return v; }

Str Reply::show(size_t max) const {
    if (t == 'n') return "nil";
    if (t == ':') return fmt(":%ld", (long) i);
    if (t == '*') { Str o = "["; for (size_t k = 0; k < a.size() && k < 20; k++) o += (k ? ", " : "") + a[k].show(max); if (a.size() > 20) o += ", ..."; return o + "]"; }
    return Str(1, t) + printable(s, max);
}
int parse_reply(const Str &b, size_t &pos, Reply &r, int depth) {
    size_t p = pos; if (p >= b.size()) return 0;
    char t = b[p];
    size_t e = b.find("\r\n", p);
    if (t != '+' && t != '-' && t != ':' && t != '$' && t != '*') return -1;
    if (e == Str::npos) return b.size() - p > 70000 ? -1 : 0;
    Str line = b.substr(p + 1, e - p - 1); p = e + 2;
    r = Reply(); r.t = t;
    auto num = [&](int64_t &v) { if (line.empty()) return false; size_t k = line[0] == '-' ? 1 : 0; if (k == line.size() || line.size() > 19) return false; for (size_t q = k; q < line.size(); q++) if (!isdigit((unsigned char) line[q])) return false; v = strtoll(line.c_str(), 0, 10); return true; };
    if (t == '+' || t == '-') r.s = line;
    else if (t == ':') { if (!num(r.i)) return -1; }
    else if (t == '$') {
        int64_t n; if (!num(n)) return -1;
        if (n == -1) { r.t = 'n'; pos = p; return 1; }
        if (n < 0 || n > (1 << 28)) return -1;
        if (b.size() < p + n + 2) return 0;
        r.s = b.substr(p, n); if (b[p + n] != '\r' || b[p + n + 1] != '\n') return -1;
        p += n + 2;
    } else {
        int64_t n; if (!num(n)) return -1;
        if (n < 0 || n > 1 << 24 || depth > 4) return -1;
        for (int64_t k = 0; k < n; k++) { Reply x; int c = parse_reply(b, p, x, depth + 1); if (c != 1) return c; r.a.push_back(x); }
    }
    pos = p; return 1;
}

void Model::init(bool seqdefault) { ns.clear(); MNs d; d.seq = seqdefault; d.gen = nextgen++; ns[DEFNS] = d; }
void Model::restart() { sess.clear(); for (auto &k : ns) { k.second.locked = 0; k.second.promise = -1; } }
uint64_t Model::digest() const {
    uint64_t h = 7;
    for (auto &n : ns) { h = hash_str(n.first, h); h = mix64(h ^ n.second.seq ^ (n.second.maxsize << 3) ^ ((uint64_t) n.second.locked << 50) ^ ((uint64_t) n.second.worm << 60)); for (auto &k : n.second.keys) { h = hash_str(k.first, h); h = hash_str(k.second.cur.val, h); h = mix64(h + k.second.hist.size()); } }
    return h;
}
bool Model::mutates(const Op &op) const {
    if (op.args.empty()) return false;
    Str c = upper(op.args[0]);
    return c == "SET" || c == "SETX" || c == "DEL" || c == "NSNEW" || c == "NSDEL" || c == "NSSET" || c == "FLUSH";
}
void Model::cut(const Op &op) {
    const std::vector<Str> &A = op.args; if (A.size() < 2) return; Str c = upper(A[0]);
    bool set = c == "SET" || c == "SETX"; if ((!set && c != "DEL") || (set && A.size() < 3)) return;
    Str nn = sess.count(op.client) ? sess[op.client].ns : Str(DEFNS); if (!ns.count(nn)) return;
    MNs &n = ns[nn]; LogRec l; l.maybe = true; l.ts.hi = INT64_MAX; l.del = !set;
    if (set) { l.val = A[2]; l.anyid = n.seq && A[1].empty(); } l.key = A[1]; n.log.push_back(l);
}
static std::map<Str, Str> parse_info(const Str &s) {
    std::map<Str, Str> m; size_t p = 0;
    while (p < s.size()) { size_t e = s.find('\n', p); if (e == Str::npos) e = s.size(); Str l = s.substr(p, e - p); size_t c = l.find(": "); if (c != Str::npos) m[l.substr(0, c)] = l.substr(c + 2); p = e + 1; }
    return m;
}
#define BAD(k, ...) do { kind = k; why = fmt(__VA_ARGS__); return false; } while (0)

bool Model::step(const Op &op, const Reply *rp, Str &why, Str &kind) {
    const std::vector<Str> &A = op.args;
    if (A.empty()) return true;
    Str c = upper(A[0]);
    if (!sess.count(op.client)) { MSess s; s.admin = !hasadmin; s.gen = ns.count(DEFNS) ? ns[DEFNS].gen : 0; if (ns.count(DEFNS) && ns[DEFNS].haspass) s.writable = false; sess[op.client] = s; }
    MSess &se = sess[op.client];
    static Reply none; const Reply &r = rp ? *rp : none;
    Str rs = rp ? r.show() : Str("(none)");
    Str cs; for (size_t k = 0; k < A.size() && k < 5; k++) cs += (k ? " " : "") + printable(A[k], 24);
    const char *C = cs.c_str(), *R = rs.c_str();
    if (rp && op.faulted && r.err() && (r.s.find("emory error") != Str::npos || r.s.find("(memory)") != Str::npos || r.s.find("Memory Error") != Str::npos)) return true; // (no effect at all)
    // an injected fault may turn any answer into an error; the command then has no effect
    auto must_err = [&](const char *k) -> bool {
        if (!rp || r.err()) return true;
        kind = k; why = fmt("[%s] answered %s, an error was required", C, R); return false;
    };
    if (se.detached) return must_err("detached");
    if (!ns.count(se.ns) || ns[se.ns].gen != se.gen) return must_err("detached");
    MNs &n = ns[se.ns];
    bool fz = n.locked == 2;
    TsRange now; now.lo = op.t_cons / 1000000; now.hi = (op.t_sent ? op.t_sent : S->wall()) / 1000000; if (now.hi < now.lo) std::swap(now.lo, now.hi);

    auto getcheck = [&](const Str &key, const Reply &x) -> bool {
        auto it = n.keys.find(key);
        if (it == n.keys.end()) {
            if (x.nil()) return true;
            if (x.t == '$' && n.seq && key.size() == 8) for (size_t g = 0; g < n.ghosts.size(); g++) if (n.ghosts[g].val == x.s && idof(key) >= n.ghosts[g].num && !n.ids.count(idof(key))) {
                MKey k; k.cur = n.ghosts[g]; k.cur.num = n.nextver++; k.ord = idof(key); n.keys[key] = k; n.ids.insert(idof(key)); n.maxid = std::max(n.maxid, idof(key)); n.anyid = true;
                n.ghosts.erase(n.ghosts.begin() + g); return true;
            }
            if (x.err() && op.faulted) return true;
            kind = "get.phantom"; why = fmt("[%s] key %s does not exist but reads %s", C, printable(key, 24).c_str(), x.show().c_str()); return false;
        }
        if (x.err() && (op.faulted || op.gone.count(key))) return true;
        if (x.nil()) { kind = "get.lost"; why = fmt("[%s] key %s should read %s but is not found", C, printable(key, 24).c_str(), printable(it->second.cur.val).c_str()); return false; }
        if (x.t != '$' || x.s != it->second.cur.val) { kind = x.err() ? "get.error" : "get.value"; why = fmt("[%s] key %s should read %s but reads %s", C, printable(key, 24).c_str(), printable(it->second.cur.val).c_str(), x.show().c_str()); return false; }
        return true;
    };

    if (c == "PING") { if (rp && !(r.t == '+' && r.s == "PONG")) BAD("reply", "[PING] answered %s", R); return true; }
    if (c == "TIME" || c == "INFO" || c == "HOOKS") { if (rp && r.err() && !op.faulted) BAD("reply", "[%s] answered %s", C, R); return true; }
    if (c == "SET" || c == "SETX") {
        bool admin4 = A.size() == 4;
        if (A.size() != 3 && A.size() != 4) return must_err("args");
        if (admin4 && !se.admin) return must_err("rights");
        if (A[1].size() > 255) return must_err("args");
        if (!se.writable) return must_err("rights");
        if (n.locked) return must_err("locked");
        n.mayused = true; // the files may be rotated before the request is refused
        auto it = n.keys.find(A[1]);
        bool exists = !A[1].empty() && it != n.keys.end();
        if (exists && n.worm) return must_err("worm");
        if (n.seq) n.upd++;
        bool same = exists && it->second.cur.val == A[2];
        if (n.anymax) n.maxsize = 0;
        if (n.anymax && r.err()) return true;
        if (n.maxsize) {
            uint64_t used = n.datasize(), old = exists ? it->second.cur.val.size() : 0;
            if (used + A[2].size() > n.maxsize + old) { if (same && rp && !r.err()) { } else return must_err("quota"); }
        }
        // an id taken by an insertion whose reply was lost
        bool lost = n.seq && A[1].size() == 8 && !exists && !n.ids.count(idof(A[1])) && n.maybeghost(idof(A[1]));
        if (lost) {
            if (!rp) return true;
            if (r.err()) return true;
            if (r.t == '$' && r.s == A[1]) { LogRec l; l.key = A[1]; l.val = A[2]; l.ts = now; if (admin4) l.ts.fix((uint32_t) strtoll(A[3].c_str(), 0, 10)); n.log.push_back(l); }
            if (r.t != '$' || r.s != A[1]) { if (r.nil()) { for (auto &g : n.ghosts) if (g.val == A[2] && idof(A[1]) >= g.num) return true; } BAD("set.key", "[%s] answered %s", C, R); }
            MKey k; k.fuzzy = true; k.cur.val = A[2]; k.cur.ts = now; if (admin4) k.cur.ts.fix((uint32_t) strtoll(A[3].c_str(), 0, 10)); k.cur.num = n.nextver++; k.ord = idof(A[1]);
            n.keys[A[1]] = k; n.ids.insert(k.ord); n.maxid = std::max(n.maxid, k.ord); n.anyid = true; n.promise = -1; n.fresh = false;
            return true;
        }
        if (n.seq && !A[1].empty() && !exists) return must_err("seq.unknown-key");
        if (!n.seq && A[1].empty()) return must_err("args");
        if (rp && r.err()) { if (op.faulted || (n.maxsize && n.ghosts.size())) { n.mayused = true; return true; } BAD(n.maxsize ? "quota.refused" : "set.refused", "[%s] was refused (%s)", C, R); }
        if (same && !((op.faulted || op.goneany.count(A[1])) && rp && !r.nil())) { // (when the comparison fails, the value is written again)
            if (rp && !r.nil()) BAD("set.unchanged", "[%s] stores the value already there but answered %s", C, R);
            return true;
        }
        if (rp && r.nil()) BAD("set.changed", "[%s] answered nothing-changed but the stored value differs", C);
        if (rp && r.t != '$') BAD("reply", "[%s] answered %s", C, R);
        TsRange ts = now;
        if (admin4) { int64_t v = strtoll(A[3].c_str(), 0, 10); ts.fix((uint32_t) v); }
        n.fresh = false;
        LogRec lr; lr.key = n.seq && !exists ? (rp ? r.s : Str()) : A[1]; lr.anyid = lr.key.empty(); lr.val = A[2]; lr.ts = ts; n.log.push_back(lr);
        if (n.seq && !exists) {
            if (!rp) { Ver v; v.val = A[2]; v.ts = ts; v.num = n.anyid ? n.maxid + 1 : 0; n.ghosts.push_back(v); n.promise = -1; return true; }
            if (r.s.size() != 8) BAD("seq.key", "[%s] new key has %zu bytes", C, r.s.size());
            uint64_t id = idof(r.s);
            if (n.anyid && id <= n.maxid) BAD("seq.key", "[%s] new key %lu is not larger than %lu", C, (unsigned long) id, (unsigned long) n.maxid);
            if (n.promise >= 0 && (uint64_t) n.promise != id) BAD("seq.key", "[%s] new key %lu, but next_internal_id announced %ld", C, (unsigned long) id, (long) n.promise);
            n.anyid = true; n.maxid = id; n.ids.insert(id); n.promise = -1;
            MKey k; k.cur.val = A[2]; k.cur.ts = ts; k.cur.num = n.nextver++; k.ord = id; n.keys[r.s] = k;
            return true;
        }
        if (rp && r.s != A[1]) BAD("set.key", "[%s] answered key %s", C, R);
        MKey &k = n.keys[A[1]];
        if (exists) k.hist.push_back(k.cur);
        k.cur.val = A[2]; k.cur.ts = ts; k.cur.num = n.nextver++;
        k.ord = n.seq ? idof(A[1]) : n.nextord++;
        n.promise = -1;
        return true;
    }
    if (c == "DEL") {
        if (A.size() != 2 && A.size() != 3) return must_err("args");
        if (A.size() == 3 && !se.admin) return must_err("rights");
        if (A[1].empty() || A[1].size() > 255) return must_err("args");
        if (!se.writable) return must_err("rights");
        if (n.locked) return must_err("locked");
        TsRange dts = now; if (A.size() == 3) dts.fix((uint32_t) strtoll(A[2].c_str(), 0, 10));
        auto it = n.keys.find(A[1]);
        if (it == n.keys.end()) {
            if (n.seq && A[1].size() == 8 && !n.ids.count(idof(A[1])) && n.maybeghost(idof(A[1]))) { if (rp && !r.err()) { n.ids.insert(idof(A[1])); LogRec l; l.key = A[1]; l.del = true; l.ts = dts; n.log.push_back(l); } return true; }
            if (rp && !r.err()) BAD("del.phantom", "[%s] key does not exist but answered %s", C, R);
            return true;
        }
        if (n.worm) return must_err("worm");
        if (rp && r.err()) { if (op.faulted) return true; BAD("del.refused", "[%s] was refused (%s)", C, R); }
        if (rp && !(r.t == '+')) BAD("reply", "[%s] answered %s", C, R);
        { LogRec l; l.key = A[1]; l.del = true; l.ts = dts; n.log.push_back(l); }
        n.keys.erase(it); n.fresh = false;
        return true;
    }
    if (c == "GET") {
        if (A.size() != 2 || A[1].empty() || A[1].size() > 255) return must_err("args");
        if (fz) return must_err("frozen");
        return rp ? getcheck(A[1], r) : true;
    }
    if (c == "MGET") {
        if (A.size() < 2) return must_err("args");
        for (size_t k = 1; k < A.size(); k++) if (A[k].size() > 255) return must_err("args");
        if (fz) return must_err("frozen");
        if (!rp) return true;
        if (r.t != '*' || r.a.size() != A.size() - 1) { if (op.faulted && r.err()) return true; BAD("reply", "[%s] answered %s", C, R); }
        for (size_t k = 1; k < A.size(); k++) if (!getcheck(A[k], r.a[k - 1])) return false;
        return true;
    }
    if (c == "EXISTS" || c == "LENGTH" || c == "KEYTIME" || c == "CHECK") {
        if (A.size() != 2 || A[1].empty() || A[1].size() > 255) return must_err("args");
        if (fz) return must_err("frozen");
        if (!rp) return true;
        if (r.err() && (op.faulted || (c == "CHECK" && op.gone.count(A[1])))) return true;
        auto it = n.keys.find(A[1]); bool live = it != n.keys.end();
        if (!n.ghosts.empty() && !live) return true;
        if (c == "EXISTS") { if (r.t != ':' || r.i != (live ? 1 : 0)) BAD(live ? "get.lost" : "get.phantom", "[%s] answered %s, expected :%d", C, R, live ? 1 : 0); return true; }
        if (!live) { if (!r.nil()) BAD("get.phantom", "[%s] key does not exist but answered %s", C, R); return true; }
        if (r.t != ':') BAD(r.nil() ? "get.lost" : "reply", "[%s] answered %s for a live key", C, R);
        if (c == "LENGTH" && r.i != (int64_t) it->second.cur.val.size()) BAD("length", "[%s] answered %s, the value has %zu bytes", C, R, it->second.cur.val.size());
        if (c == "CHECK" && r.i != 1) { if (op.faulted && r.i < 0) return true; BAD("check", "[%s] answered %s for an intact value", C, R); }
        if (c == "KEYTIME") { if (!it->second.cur.ts.ok(r.i)) BAD("keytime", "[%s] answered %s, expected %ld..%ld", C, R, (long) it->second.cur.ts.lo, (long) it->second.cur.ts.hi); it->second.cur.ts.fix(r.i); }
        return true;
    }
    if (c == "SCAN" || c == "SCANX" || c == "RSCAN") {
        bool rev = c == "RSCAN";
        if (fz) return must_err("frozen");
        if (!rp) return true;
        uint64_t from = rev ? UINT64_MAX : 0; bool incl0 = A.size() == 1;
        if (A.size() >= 2) {
            auto it = n.cursors.find(A[1]);
            if (it == n.cursors.end()) { // a cursor this namespace never gave out
                return true;
            }
            from = it->second;
        }
        std::vector<std::pair<uint64_t, const Str *>> live;
        for (auto &k : n.keys) if (incl0 || (rev ? k.second.ord < from : k.second.ord > from)) live.push_back({k.second.ord, &k.first});
        std::sort(live.begin(), live.end()); if (rev) std::reverse(live.begin(), live.end());
        if (r.err()) {
            if (op.faulted && r.s.find("No more data") == Str::npos) return true;
            if (live.empty() && r.s.find("No more data") != Str::npos) return true;
            if (!n.ghosts.empty()) return true;
            if (live.empty()) BAD("scan.end", "[%s] answered %s at the end of the data", C, R);
            BAD("scan.missing", "[%s] answered %s although %zu live keys follow (next: %s)", C, R, live.size(), printable(*live[0].second, 24).c_str());
        }
        if (r.t != '*' || r.a.size() != 2 || r.a[1].t != '*' || r.a[1].a.empty()) BAD("reply", "[%s] answered %s", C, R);
        if (!n.ghosts.empty()) return true;
        auto &L = r.a[1].a;
        for (size_t k = 0; k < L.size(); k++) {
            if (L[k].t != '*' || L[k].a.size() != 3) BAD("reply", "[%s] answered %s", C, R);
            if (k >= live.size()) BAD("scan.extra", "[%s] lists %s although no further live key follows", C, L[k].show().c_str());
            if (L[k].a[0].s != *live[k].second) {
                bool isl = n.keys.count(L[k].a[0].s);
                BAD(isl ? "scan.order" : "scan.dead", "[%s] lists %s at position %zu, expected %s", C, L[k].show().c_str(), k, printable(*live[k].second, 24).c_str());
            }
            MKey &mk = n.keys[*live[k].second];
            if (L[k].a[1].i != (int64_t) mk.cur.val.size()) BAD("scan.length", "[%s] lists %s, the value has %zu bytes", C, L[k].show().c_str(), mk.cur.val.size());
            if (!mk.cur.ts.ok((uint32_t) L[k].a[2].i)) BAD("scan.time", "[%s] lists %s, expected time %ld..%ld", C, L[k].show().c_str(), (long) mk.cur.ts.lo, (long) mk.cur.ts.hi);
            mk.cur.ts.fix((uint32_t) L[k].a[2].i);
        }
        n.cursors[r.a[0].s] = live[L.size() - 1].first; n.curkey[r.a[0].s] = *live[L.size() - 1].second;
        return true;
    }
    if (c == "KEYCUR") {
        if (A.size() != 2 || A[1].empty() || A[1].size() > 255) return must_err("args");
        if (fz) return must_err("frozen");
        if (!rp) return true;
        auto it = n.keys.find(A[1]);
        if (r.err()) { if (op.faulted || it == n.keys.end()) return true; BAD("keycur", "[%s] answered %s for a live key", C, R); }
        if (it == n.keys.end()) { if (r.nil() || !n.ghosts.empty()) return true; BAD("keycur", "[%s] answered %s for a missing key", C, R); }
        if (r.t != '$') BAD("keycur", "[%s] answered %s for a live key", C, R);
        n.cursors[r.s] = it->second.ord; n.curkey[r.s] = A[1];
        return true;
    }
    if (c == "HISTORY") {
        if (A.size() != 2 && A.size() != 3) return must_err("args");
        if (fz) return must_err("frozen");
        if (!rp) return true;
        auto it = n.keys.find(A[1]);
        const Ver *v = nullptr, *prev = nullptr;
        if (A.size() == 2) {
            if (it == n.keys.end()) { if (r.err() || r.nil() || !n.ghosts.empty()) return true; BAD("history.phantom", "[%s] key does not exist but answered %s", C, R); }
            if (it->second.fuzzy) return true;
            v = &it->second.cur; if (!it->second.hist.empty()) prev = &it->second.hist.back();
        } else {
            if (A[2].size() != 8) return must_err("history.ref");
            if (A[2] == Str(8, 0)) return must_err("history.ref");
            auto e = n.ekeys.find(A[2]);
            if (e == n.ekeys.end()) return true;                         // never given out: no statement
            if (e->second.first != A[1]) return must_err("history.foreign");
            if (it == n.keys.end()) return true;                          // deleted since
            if (it->second.fuzzy) return true;
            auto &h = it->second.hist;
            for (size_t k = 0; k < h.size(); k++) if (h[k].num == e->second.second) { v = &h[k]; if (k) prev = &h[k - 1]; }
            if (!v) return true;                                          // belongs to an earlier life of the key
        }
        if (r.err() && (op.faulted || op.goneany.count(A[1]))) return true;
        if (r.t != '*' || r.a.size() != 3) BAD("history.error", "[%s] answered %s", C, R);
        if (!v->gone && (r.a[2].t != '$' || r.a[2].s != v->val)) BAD("history.value", "[%s] returns %s, expected %s", C, r.a[2].show().c_str(), printable(v->val).c_str());
        int64_t t = strtoll(r.a[1].s.c_str(), 0, 10);
        if (!v->ts.ok(t)) BAD("history.time", "[%s] returns time %ld, expected %ld..%ld", C, (long) t, (long) v->ts.lo, (long) v->ts.hi);
        if (!prev && !r.a[0].nil()) BAD("history.extra", "[%s] announces an older version than the first one", C);
        if (prev && r.a[0].nil()) BAD("history.lost", "[%s] ends although the older value %s exists", C, printable(prev->val).c_str());
        if (prev) { if (r.a[0].s.size() != 8) BAD("reply", "[%s] answered %s", C, R); n.ekeys[r.a[0].s] = {A[1], prev->num}; }
        return true;
    }
    if (c == "DBSIZE") {
        if (!rp || !n.ghosts.empty()) return true;
        if (r.t != ':' || r.i != (int64_t) n.keys.size()) BAD("counter.entries", "[DBSIZE] answered %s, %zu keys are live", R, n.keys.size());
        return true;
    }
    if (c == "NSINFO") {
        if (A.size() != 2 || A[1].empty() || A[1].size() > 128) return must_err("args");
        auto it = ns.find(A[1]); if (it == ns.end()) return must_err("ns.phantom");
        if (!rp) return true;
        if (r.t != '$') BAD("ns.missing", "[%s] answered %s", C, R);
        MNs &q = it->second; auto I = parse_info(r.s);
        auto yn = [](bool b) { return Str(b ? "yes" : "no"); };
        if (I["name"] != A[1] && A[1].find('\n') == Str::npos) BAD("nsinfo.name", "[%s] reports name %s", C, I["name"].c_str());
        if (q.ghosts.empty()) {
            if (I["entries"] != fmt("%zu", q.keys.size())) BAD("counter.entries", "[%s] reports %s entries, %zu keys are live", C, I["entries"].c_str(), q.keys.size());
            if (I["data_size_bytes"] != fmt("%lu", (unsigned long) q.datasize())) BAD("counter.datasize", "[%s] reports %s bytes, live payloads have %lu", C, I["data_size_bytes"].c_str(), (unsigned long) q.datasize());
        }
        if (I["public"] != yn(q.pub)) BAD("setting.public", "[%s] public: %s, expected %s", C, I["public"].c_str(), yn(q.pub).c_str());
        if (I["password"] != yn(q.haspass)) BAD("setting.password", "[%s] password: %s, expected %s", C, I["password"].c_str(), yn(q.haspass).c_str());
        if (I["worm"] != yn(q.worm)) BAD("setting.worm", "[%s] worm: %s, expected %s", C, I["worm"].c_str(), yn(q.worm).c_str());
        if (I["locked"] != yn(q.locked)) BAD("setting.locked", "[%s] locked: %s, expected %s", C, I["locked"].c_str(), yn(q.locked).c_str());
        if (q.anymax) { q.maxsize = strtoull(I["data_limits_bytes"].c_str(), 0, 10); q.anymax = false; } // no number a user would give: whatever the server made of it
        if (I["data_limits_bytes"] != fmt("%lu", (unsigned long) q.maxsize)) BAD("setting.maxsize", "[%s] limit: %s, expected %lu", C, I["data_limits_bytes"].c_str(), (unsigned long) q.maxsize);
        if (q.ghosts.empty()) { Str sp = q.maxsize ? fmt("%lu", (unsigned long) (q.maxsize > q.datasize() ? q.maxsize - q.datasize() : 0)) : Str(), h = I.count("space_available") ? I["space_available"] : Str(); if (h != sp) BAD("counter.space", "[%s] space available: %s, expected %s", C, h.c_str(), sp.c_str()); }
        if (I["mode"] != (q.seq ? "sequential" : "userkey")) BAD("setting.mode", "[%s] mode: %s, expected %s", C, I["mode"].c_str(), q.seq ? "sequential" : "userkey");
        if (q.seq && I.count("next_internal_id")) {
            uint64_t v = __builtin_bswap64(strtoull(I["next_internal_id"].c_str(), 0, 16));
            if (q.ghosts.empty() && q.anyid && v <= q.maxid) BAD("seq.nextid", "[%s] announces next id %lu, but %lu exists", C, (unsigned long) v, (unsigned long) q.maxid);
            if (q.ghosts.empty() && q.promise >= 0 && (uint64_t) q.promise != v) BAD("seq.nextid", "[%s] announces next id %lu, before it was %ld", C, (unsigned long) v, (long) q.promise);
            if (q.ghosts.empty()) q.promise = (int64_t) v;
        }
        return true;
    }
    if (c == "NSLIST") {
        if (!rp) return true;
        if (r.t != '*') BAD("reply", "[NSLIST] answered %s", R);
        std::multiset<Str> got; for (auto &x : r.a) got.insert(x.s);
        std::multiset<Str> want; for (auto &x : ns) want.insert(x.first);
        if (got != want) { Str w; for (auto &x : want) w += " " + x; BAD("ns.list", "[NSLIST] answered %s, existing:%s", R, w.c_str()); }
        return true;
    }
    if (c == "NSNEW") {
        if (!se.admin) return must_err("rights");
        if (A.size() != 2 || A[1].empty() || A[1].size() > 128) return must_err("args");
        if (A[1].find('/') != Str::npos || A[1].find('\0') != Str::npos || A[1] == "." || A[1] == "..") return must_err("ns.name");
        if (ns.count(A[1])) return must_err("ns.exists");
        if (rp && r.err()) { if (op.faulted) return true; BAD("ns.refused", "[%s] was refused (%s)", C, R); }
        if (rp && r.t != '+') BAD("reply", "[%s] answered %s", C, R);
        MNs q; q.seq = srvmode == "seq"; q.gen = nextgen++; ns[A[1]] = q;
        return true;
    }
    if (c == "NSDEL") {
        if (!se.admin) return must_err("rights");
        if (A.size() != 2 || A[1].empty() || A[1].size() > 128) return must_err("args");
        if (!ns.count(A[1]) || A[1] == DEFNS || A[1] == se.ns) return must_err("ns.del");
        if (rp && r.err()) { if (op.faulted) return true; BAD("ns.refused", "[%s] was refused (%s)", C, R); }
        ns.erase(A[1]);
        for (auto &s : sess) if (s.second.ns == A[1]) s.second.detached = true;
        return true;
    }
    if (c == "NSSET") {
        if (!se.admin) return must_err("rights");
        if (A.size() != 4) return must_err("args");
        for (auto &a : A) if (a.empty() || a.find('\0') != Str::npos) return must_err("args");
        if (A[3].size() > 63) return must_err("args");
        auto it = ns.find(A[1]); if (it == ns.end()) return must_err("ns.phantom");
        MNs &q = it->second; const Str &p = A[2], &v = A[3];
        bool def = A[1] == DEFNS;
        if (p == "mode") {
            if (srvmode != "mix" || (v != "user" && v != "seq")) return must_err("args");
            if (!q.fresh) { // once anything was written the key mode is fixed
                if (rp && !r.err() && (v == "seq") != q.seq) BAD("setting.mode", "[%s] changes the mode of a used namespace", C);
                return true;
            }
        } else if (p != "lock" && p != "freeze" && def) return must_err("args");
        else if (p != "lock" && p != "freeze" && p != "maxsize" && p != "password" && p != "public" && p != "worm") return must_err("args");
        if (rp && r.err() && p == "mode" && q.mayused) return true; // something incomplete may have been written
        if (rp && r.err()) { if (op.faulted) return true; BAD("setting.refused", "[%s] was refused (%s)", C, R); }
        if (p == "mode") { q.seq = v == "seq"; q.promise = -1; }
        else if (p == "lock") q.locked = v[0] == '1' ? 1 : 0;
        else if (p == "freeze") q.locked = v[0] == '1' ? 2 : 0;
        else if (p == "maxsize") { q.maxsize = strtoull(v.c_str(), 0, 10); q.anymax = q.maxsize > INT64_MAX || v.find_first_not_of("0123456789") != Str::npos; }
        else if (p == "password") { if (v == "*") { q.haspass = false; q.pass.clear(); } else { q.haspass = true; q.pass = v; } }
        else if (p == "public") q.pub = v[0] == '1';
        else if (p == "worm") q.worm = v[0] == '1';
        return true;
    }
    if (c == "SELECT") {
        if (A.size() < 2 || A[1].size() > 128) return must_err("args");
        auto it = ns.find(A[1]); if (it == ns.end()) return must_err("ns.phantom");
        MNs &q = it->second; bool w = true;
        if (q.haspass) {
            if (A.size() < 3) { if (!q.pub) return must_err("rights.select"); w = false; }
            else if (A.size() == 3) { if (A[2] != q.pass) return must_err("rights.select"); }
            else if (A.size() == 4) {
                bool sec = upper(A[2]) == "SECURE";
                bool good = sec && se.hasnonce && A[3] == sha1_hex(se.nonce + ":" + q.pass);
                if (sec && se.hasnonce) { if (A[3].size() == 40) se.hasnonce = false; else if (!good) se.noncemaybe = true; }  // a challenge serves once
                if (!good) return must_err("rights.challenge");
                if (rp && r.err() && se.noncemaybe) return true;
            } else return must_err("args");
        }
        if (rp && r.err()) { if (op.faulted) return true; BAD("select.refused", "[%s] was refused (%s)", C, R); }
        se.ns = A[1]; se.gen = q.gen; se.writable = w;
        return true;
    }
    if (c == "AUTH") {
        if (A.size() == 2) {
            if (!hasadmin || A[1] != adminpwd) return must_err("rights.auth");
            if (rp && r.err()) BAD("auth.refused", "[AUTH] with the right password answered %s", R);
            se.admin = true; return true;
        }
        if (A.size() == 3 && upper(A[1]) == "SECURE") {
            if (upper(A[2]) == "CHALLENGE") {
                if (!rp) return true;
                if (r.t != '+' || r.s.size() < 8) { if (op.faulted) return true; BAD("auth.challenge", "[%s] answered %s", C, R); }
                se.hasnonce = true; se.noncemaybe = false; se.nonce = r.s; return true;
            }
            bool had = se.hasnonce; Str want = had ? sha1_hex(se.nonce + ":" + adminpwd) : Str();
            if (!hasadmin || !had || A[2] != want) {
                // a failed attempt with a well-formed answer uses the challenge up
                if (rp && !r.err()) return must_err("rights.challenge");
                if (hasadmin && had) { if (A[2].size() == want.size()) se.hasnonce = false; else se.noncemaybe = true; }
                return true;
            }
            if (rp && r.err() && (se.noncemaybe || op.faulted)) { if (op.faulted) se.noncemaybe = true; else se.hasnonce = false; return true; }
            if (rp && r.err()) BAD("auth.refused", "[AUTH SECURE] with the right answer answered %s", R);
            se.admin = true; se.hasnonce = false; return true;
        }
        return must_err("args");
    }
    if (c == "RELOAD") {
        if (!se.admin) return must_err("rights");
        if (A.size() != 2 || !ns.count(A[1])) return must_err("args");
        if (rp && r.err()) { if (op.faulted) return true; BAD("reload.refused", "[%s] answered %s", C, R); }
        return true;
    }
    if (c == "NSJUMP") {
        if (!se.admin) return must_err("rights");
        if (!(rp && r.err() && op.faulted)) n.fresh = false;
        n.mayused = true;
        if (rp && r.err() && !op.faulted) BAD("jump.refused", "[%s] answered %s", C, R);
        return true;
    }
    if (c == "FLUSH") {
        if (n.pub || !n.haspass) return must_err("flush.public");
        if (n.locked || n.worm || !se.writable) return must_err("flush.locked");
        if (rp && r.err()) { if (op.faulted) return true; BAD("flush.refused", "[FLUSH] answered %s", R); }
        n.keys.clear(); n.log.clear(); n.ids.clear(); n.anyid = false; n.maxid = 0; n.ghosts.clear(); n.ekeys.clear(); n.cursors.clear(); n.curkey.clear(); n.promise = -1; n.fresh = true; n.mayused = false;
        return true;
    }
    if (c == "INDEX" || c == "DATA" || c == "HOOKS" || c == "MASTER" || c == "MIRROR" || c == "STOP") {
        if (!se.admin && (c == "INDEX" || c == "DATA" || c == "MASTER" || c == "MIRROR")) return must_err("rights");
        return true;
    }
    if (c == "KSCAN") {
        if (A.size() != 2 || A[1].empty()) return must_err("args");
        if (n.seq) return must_err("args");
        if (fz) return must_err("frozen");
        if (!rp || (r.err() && (op.faulted || r.s.find("disabled") != Str::npos))) return true;
        std::set<Str> got, want; if (!n.ghosts.empty()) return true;
        for (auto &k : n.keys) if (k.first.compare(0, A[1].size(), A[1]) == 0) want.insert(k.first);
        if (!r.err()) {
            if (r.t != '*' || r.a.size() != 2 || r.a[1].t != '*') BAD("reply", "[%s] answered %s", C, R);
            for (auto &x : r.a[1].a) if (!got.insert(x.s).second) BAD("kscan", "[%s] answers key %s twice", C, printable(x.s, 40).c_str());
        }
        for (auto &k : want) if (!got.count(k)) BAD("kscan", "[%s] does not answer key %s", C, printable(k, 40).c_str());
        for (auto &k : got) if (!want.count(k)) BAD("kscan", "[%s] answers key %s, which %s", C, printable(k, 40).c_str(), n.keys.count(k) ? "does not match" : "does not exist");
        return true;
    }
    // not a command (prefixes of commands are accepted by the server, the generators avoid them)
    return must_err("unknown-command");
}

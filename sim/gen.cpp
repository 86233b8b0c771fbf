// Seeded generation of plans, one profile per property.
#include "run.h"
#include <algorithm>

typedef std::map<Str, int> W;
struct G {
    Rng r; Plan p; bool thorough; Str prop;
    std::vector<Str> ns = {"default"}; std::map<Str, bool> seq; std::map<Str, Str> pass; std::map<Str, bool> priv;
    int ncl = 1; std::map<int, Str> cns; std::map<int, bool> adm;
    std::vector<Str> keys; uint64_t vseed; int vmax = 200; int nops = 30; bool hasadmin = false; int big = 0;
    G(const Str &pr, uint64_t seed, bool th) : r(seed), thorough(th), prop(pr) { vseed = r.next() % 900000; p.cfg["sched"] = fmt("%lu", (unsigned long)(r.next() % 1000000000)); }
    bool ch(double x) { return r.chance(x); }
    int n(int a, int b) { return (int) r.range(a, b); }
    void cfg(const Str &k, int64_t v) { p.cfg[k] = fmt("%ld", (long) v); }
    void C(int c, std::vector<Str> a) { a.insert(a.begin(), fmt("%d", c)); p.add("C", a); }
    Str val() {
        int x = n(0, 99); int len;
        if (x < 60) len = n(1, vmax); else if (x < 70) len = n(1, 12); else if (x < 74) len = 0; else if (x < 90) len = n(1, vmax * 4);
        else if (big && x < 97) len = n(1, big); else if (big) { static const int e[] = {4096, 8192, 16384, 65536}; len = e[n(0, 3)] + n(-40, 10); } else len = n(1, vmax * 2);
        if (vlist.size() && ch(0.12)) return vlist[r.below(vlist.size())];
        Str s = fmt("v:%d:%lu", len, (unsigned long) (vseed++)); if (vlist.size() < 30) vlist.push_back(s); else vlist[r.below(30)] = s;
        return s;
    }
    std::vector<Str> vlist;
    void mkkeys(int cnt) {
        static const char *names[] = {"a", "b", "ab", "aa", "key", "key1", "key10", "KEY", "x:y:z", "0", "k\r\n", "zdb", "default", "12345678"};
        for (int i = 0; i < cnt; i++) {
            Str k; int x = n(0, 9);
            if (x < 5) k = names[n(0, 13)]; else if (x < 6) k = gen_value(n(1, 16), vseed++); else if (x < 7) k = ch(0.5) ? Str(n(1, 4), '\0') + "q" : Str(ch(0.5) ? "a" : "") + Str(1, '\0') + fmt("%d", n(0, 20)); else if (x < 8) k = Str(ch(0.5) ? 250 : n(200, 255), 'L') + fmt("%d", n(0, 9)); else k = fmt("k%d", n(0, 40));
            if (k.size() > 255) k.resize(255);
            if (std::find(keys.begin(), keys.end(), k) == keys.end()) keys.push_back(k);
        }
    }
    bool isseq(int c) { return seq[cns[c]]; }
    Str key(int c) { if (isseq(c)) { if (ch(0.06)) return fmt("K:%d", n(0, 40)); return fmt("k:%d", n(0, 60)); } return lit(keys[r.below(keys.size())]); }
    Str newkey(int c) { if (isseq(c)) return ch(0.6) ? Str("s:") : key(c); return key(c); }
    void auth(int c) { if (hasadmin) { C(c, {"s:AUTH", "s:" + p.cfg["admin"]}); } adm[c] = true; }
    void select(int c, const Str &name, bool withpass = true) {
        std::vector<Str> a = {"s:SELECT", lit(name)}; if (pass.count(name) && withpass) a.push_back(lit(pass[name]));
        C(c, a); cns[c] = name;
    }
    // what every server start looks like to the clients
    void sessions() { for (int c = 0; c < ncl; c++) { cns[c] = "default"; if (c == 0) auth(0); Str nm = ns[r.below(ns.size())]; if (nm != "default" || ch(0.2)) select(c, nm); } }
    void namespaces(int extra, double pseq, double ppass) {
        seq["default"] = p.str("mode") == "seq";
        static const char *nm[] = {"n1", "ns-two", "default2", "n", "UPPER", "name space", "n1x"};
        for (int i = 0; i < extra; i++) {
            Str name = nm[(i + vseed) % 7]; if (std::find(ns.begin(), ns.end(), name) != ns.end()) continue;
            C(0, {"s:NSNEW", lit(name)}); ns.push_back(name); seq[name] = p.str("mode") == "seq";
            if (!p.cfg.count("mode") && ch(pseq)) { C(0, {"s:NSSET", lit(name), "s:mode", "s:seq"}); seq[name] = true; }
            if (ch(ppass)) { Str pw = fmt("pw%d", n(0, 99)); C(0, {"s:NSSET", lit(name), "s:password", lit(pw)}); pass[name] = pw; if (ch(0.5)) { C(0, {"s:NSSET", lit(name), "s:public", "s:0"}); priv[name] = true; } }
        }
    }
    Str pick(const W &w) { int t = 0; for (auto &x : w) t += x.second; int k = n(0, std::max(0, t - 1)); for (auto &x : w) { if (k < x.second) return x.first; k -= x.second; } return w.begin()->first; }
    void basic(double pmode = 0.25, double pdual = 0.2) {
        if (ch(pmode)) p.cfg["mode"] = ch(0.5) ? "user" : "seq";
        cfg("bits", n(1, 6)); cfg("dirseed", n(0, 1000000)); if (ch(0.3)) cfg("fill", n(0, 255));
        if (ch(pdual)) p.cfg["net"] = ch(0.5) ? "dual" : "tcp";
        if (ch(0.55)) cfg("datasize", n(0, 3) ? n(250, 4000) : n(4000, 40000));
        cfg("tickus", n(0, 3) ? n(1, 40) : n(100, 900)); if (ch(0.5)) cfg("tickrand", 1); if (ch(0.3)) cfg("sysus", n(1, 300));
    }
    void op(int c, const Str &o) {
        if ((o == "SET" || o == "UPD") && ch(0.02)) { Str k = key(c), v = fmt("%d:%lu", n(8, std::max(16, vmax)), (unsigned long) (vseed++)); C(c, {"s:SET", k, "v:" + v}); C(c, {"s:SET", k, "w:" + v}); if (ch(0.3)) C(c, {"s:SET", k, "v:" + v}); C(c, {"s:GET", k}); }
        else if (o == "SET") { std::vector<Str> a = {"s:SET", newkey(c), val()}; if (adm[c] && ch(0.08)) a.push_back(ch(0.3) ? "s:0" : fmt("T:%d", n(-100000, 1000))); C(c, a); }
        else if (o == "NEW") { C(c, {"s:SET", isseq(c) ? Str("s:") : key(c), val()}); }
        else if (o == "UPD") { C(c, {ch(0.9) ? "s:SET" : "s:set", key(c), val()}); }
        else if (o == "GET" || o == "EXISTS" || o == "LENGTH" || o == "KEYTIME" || o == "CHECK") C(c, {"s:" + o, key(c)});
        else if (o == "DEL") { std::vector<Str> a = {"s:DEL", key(c)}; if (adm[c] && ch(0.05)) a.push_back(fmt("T:%d", n(-1000, 1000))); C(c, a); }
        else if (o == "LONG") { static const char *cm[] = {"GET", "MGET", "EXISTS", "CHECK", "LENGTH", "KEYTIME", "DEL", "SET", "KEYCUR", "HISTORY"}; Str x = cm[n(0, 9)], k = isseq(c) ? Str(1, (char) n(0, 5)) + Str(7, '\0') : keys[r.below(keys.size())]; // (an existing key, then 256 bytes)
            k += Str(ch(0.8) ? 256 : n(256, 600), ch(0.5) ? 'x' : '\0'); std::vector<Str> a = {"s:" + x}; if (x == "MGET") for (int i = n(0, 3); i > 0; i--) a.push_back(key(c)); a.push_back(lit(k)); if (x == "MGET" && ch(0.5)) a.push_back(key(c)); if (x == "SET") a.push_back(val()); C(c, a); }
        else if (o == "MGET") { std::vector<Str> a = {"s:MGET"}; int k = n(1, 6); for (int i = 0; i < k; i++) a.push_back(key(c)); C(c, a); }
        else if (o == "SCAN" || o == "RSCAN" || o == "SCANX") { int sl = c * 4 + n(0, 1); std::vector<Str> a = {"s:" + o}; if (!ch(0.35)) a.push_back(fmt("c:%d", sl)); a.push_back(fmt(">c%d", sl)); C(c, a); }
        else if (o == "WALK") { int sl = c * 4 + 2; Str d = ch(0.5) ? "s:SCAN" : "s:RSCAN"; C(c, {d, fmt(">c%d", sl)}); int k = n(1, 6); for (int i = 0; i < k; i++) { if (ch(0.25)) op(n(0, ncl - 1), ch(0.5) ? "SET" : "DEL"); C(c, {ch(0.9) ? d : Str("s:SCAN"), fmt("c:%d", sl), fmt(">c%d", sl)}); } }
        else if (o == "KEYCUR") { int sl = c * 4 + 3; C(c, {"s:KEYCUR", key(c), fmt(">c%d", sl)}); if (ch(0.8)) C(c, {ch(0.5) ? "s:SCAN" : "s:RSCAN", fmt("c:%d", sl), fmt(">c%d", sl)}); }
        else if (o == "HISTORY") { int sl = c * 4 + n(0, 1); Str k = key(c); C(c, {"s:HISTORY", k, fmt(">h%d", sl)}); int m = n(0, 4); for (int i = 0; i < m; i++) { if (ch(0.2)) op(c, "UPD"); C(c, {"s:HISTORY", ch(0.93) ? k : key(c), fmt("h:%d", sl), fmt(">h%d", sl)}); } }
        else if (o == "KSCAN") { Str k = keys[r.below(keys.size())]; C(c, {"s:KSCAN", lit(k.substr(0, n(1, ch(0.6) ? 2 : (int) k.size() + 1)))}); }
        else if (o == "DBSIZE") C(c, {"s:DBSIZE"});
        else if (o == "PING") C(c, {"s:PING"});
        else if (o == "TIME") C(c, {"s:TIME"});
        else if (o == "NSINFO") C(c, {"s:NSINFO", lit(ns[r.below(ns.size())])});
        else if (o == "NSLIST") C(c, {"s:NSLIST"});
        else if (o == "NSJUMP") C(c, {"s:NSJUMP"});
        else if (o == "RELOAD") C(0, {"s:RELOAD", lit(ns[r.below(ns.size())])});
        else if (o == "SELECT") select(c, ns[r.below(ns.size())], ch(0.9));
        else if (o == "FLUSH") C(c, {"s:FLUSH"});
        else if (o == "NSDEL") { if (ns.size() > 1 || ch(0.2)) { Str nm = ns[r.below(ns.size())]; C(0, {"s:NSDEL", lit(nm)}); if (nm != "default" && ch(0.7)) recreate(nm); } }
        else if (o == "NSNEW") { Str nm = fmt("x%d", n(0, 3)); recreate(nm); }
        else if (o == "LOCK") { Str nm = lit(ns[r.below(ns.size())]); Str k = ch(0.5) ? "s:lock" : "s:freeze"; C(0, {"s:NSSET", nm, k, "s:1"}); int m = n(1, 5); for (int i = 0; i < m; i++) op(n(0, ncl - 1), pick(W{{"SET", 5}, {"GET", 4}, {"DEL", 3}, {"SCAN", 1}, {"HISTORY", 1}, {"EXISTS", 1}, {"FLUSH", 1}, {"KEYTIME", 1}, {"LENGTH", 1}, {"KEYCUR", 1}, {"MGET", 1}, {"CHECK", 1}, {"RSCAN", 1}})); C(0, {"s:NSSET", nm, ch(0.8) ? k : Str("s:lock"), "s:0"}); }
        else if (o == "NSSET") nsset();
        else if (o == "CLOSE") { p.add(ch(0.5) ? "CLOSE" : "RESET", {fmt("%d", c)}); cns[c] = "default"; adm[c] = !hasadmin; if (c == 0) auth(0); if (ch(0.7)) select(c, ns[r.below(ns.size())]); }
        else if (o == "ADVANCE") p.add("ADVANCE", {fmt("%ld", (long) (ch(0.5) ? n(1, 1500000) : n(1, 60) * 1000000L))});
        else if (o == "RESTART") { restart("clean"); }
        else if (o == "VERIFY") p.add("VERIFY", {"gisxh"});
        else if (o == "BARRIER") p.add("BARRIER");
    }
    void recreate(const Str &nm) {
        C(0, {"s:NSNEW", lit(nm)}); if (std::find(ns.begin(), ns.end(), nm) == ns.end()) { ns.push_back(nm); } bool sq = p.str("mode") == "seq"; pass.erase(nm);
        if (!p.cfg.count("mode") && ch(0.3)) { C(0, {"s:NSSET", lit(nm), "s:mode", "s:seq"}); sq = true; } seq[nm] = sq;
        if (ch(0.3)) { pass[nm] = "zz"; C(0, {"s:NSSET", lit(nm), "s:password", "s:zz"}); if (ch(0.6)) C(0, {"s:NSSET", lit(nm), "s:public", "s:0"}); }
    }
    Str msz() { // quotas small enough to be met, none, and ones above what 32 (and 63) bits hold
        int x = n(0, 19); if (x < 15) return fmt("s:%d", n(1, vmax * 12)); if (x < 18) return "s:0";
        return fmt("s:%llu", x == 18 ? (1ULL << 32) + n(0, vmax * 4) : (1ULL << n(33, 62)) + n(0, 300));
    }
    void nsset() {
        Str nm = ns[r.below(ns.size())];
        switch (n(0, 5)) {
        case 0: C(0, {"s:NSSET", lit(nm), "s:maxsize", msz()}); break;
        case 1: { if (ch(0.04)) { C(0, {"s:NSSET", lit(nm), "s:password", lit(Str("\0pw", ch(0.3) ? 1 : 3))}); break; } if (ch(0.03)) { C(0, {"s:NSSET", lit(nm), "s:password", lit(Str("pw5\0junk", 8))}); break; }
            Str pw = ch(0.3) ? "*" : ch(0.3) ? Str(n(1, 63), 'p') : fmt("pw%d", n(0, 99)); C(0, {"s:NSSET", lit(nm), "s:password", lit(pw)}); if (nm != "default") { if (pw == "*") pass.erase(nm); else pass[nm] = pw; } break; }
        case 2: C(0, {"s:NSSET", lit(nm), "s:public", ch(0.5) ? "s:1" : "s:0"}); break;
        case 3: C(0, {"s:NSSET", lit(nm), "s:worm", ch(0.5) ? "s:1" : "s:0"}); break;
        case 4: C(0, {"s:NSSET", lit(nm), "s:mode", ch(0.5) ? "s:user" : "s:seq"}); break;
        default: C(0, {"s:NSSET", lit(nm), ch(0.5) ? "s:lock" : "s:freeze", ch(0.3) ? "s:1" : "s:0"});
        }
    }
    void restart(const Str &kind) {
        Str how = "kill"; if (kind == "clean") how = std::vector<Str>{"stop", "term", "int"}[n(0, 2)];
        p.add("RESTART", {how}); for (int c = 0; c < ncl; c++) { cns[c] = "default"; adm[c] = !hasadmin; }
    }
    void mix(int cnt, const W &w) { for (int i = 0; i < cnt; i++) op(n(0, ncl - 1), pick(w)); }
    // requests bent out of shape: counts, lengths, types, line ends, truncation, garbage
    Str hostile_arg() {
        static const char *pool[] = {"", "0", "1", "-1", "5", "99999999999999999999", "4294967296", "2147483648", "-2147483648", "abcdefgh", "%s%n%x", "*", "default", "n1", "../x", "a/b", ".", "..", "DIRTY", "RAW", "RESET", "SECURE", "CHALLENGE", "INFO", "INTEGRITY", "maxsize", "password", "mode", "lock", "public", "worm", "freeze", "user", "seq", "adm1n", "key", "a"};
        int x = n(0, 19);
        if (x < 12) return lit(pool[n(0, 36)]);
        if (x < 14) { static const int len[] = {8, 12, 15, 16, 17, 20, 28, 39, 40, 41, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512}; return fmt("v:%d:%lu", len[n(0, 21)], (unsigned long) (vseed++)); }
        if (x < 15) return lit(Str(n(1, 300), (char) n(0, 255)));
        if (x < 16) return fmt("v:%d:%lu", n(8000, 8400), (unsigned long) (vseed++));
        if (x < 18) return lit(gen_value(n(1, 30), vseed++));
        return lit(keys[r.below(keys.size())]);
    }
    std::vector<Str> hostile_cmd() {
        static const char *cmds[] = {"PING", "TIME", "AUTH", "WAIT", "SET", "SETX", "GET", "MGET", "DEL", "EXISTS", "CHECK", "SCAN", "SCANX", "RSCAN", "KSCAN", "HISTORY", "KEYCUR", "LENGTH", "KEYTIME", "INFO", "DBSIZE", "NSNEW", "NSDEL", "NSLIST", "NSSET", "NSINFO", "NSJUMP", "SELECT", "RELOAD", "FLUSH", "INDEX", "DATA", "HOOKS", "*", "NOTHING"};
        std::vector<Str> a = {Str("s:") + cmds[n(0, 34)]}; int k = n(0, 9) ? n(0, 4) : n(5, 40); if (ch(0.01)) k = n(1010, 1021);
        if (a[0] == "s:AUTH" && ch(0.5)) { a.push_back("s:SECURE"); k = 1; }
        if (a[0] == "s:INDEX" && ch(0.6)) { a.push_back("s:DIRTY"); k = n(0, 2); }
        if (a[0] == "s:DATA" && ch(0.7)) { a.push_back("s:RAW"); k = n(0, 3); }
        if (a[0] == "s:NSSET" && ch(0.7)) { static const char *pr[] = {"maxsize", "password", "mode", "lock", "public", "worm", "freeze", "x"}; a.push_back(lit(ns[r.below(ns.size())])); a.push_back(Str("s:") + pr[n(0, 7)]); k = n(0, 2); }
        for (int i = 0; i < k; i++) a.push_back(hostile_arg());
        return a;
    }
    std::vector<Str> bent() { // pieces of a byte stream
        std::vector<Str> o; auto raw = [&](const Str &x) { o.push_back(lit(x)); };
        static const char *nums[] = {"-1", "0", "1", "2", "1024", "1025", "99999999", "2147483647", "2147483648", "4294967295", "4294967297", "18446744073709551615", "-2147483648", "-2", "abc", "", " 3", "3 ", "+3", "03", "3x", "0x3", "8388608", "8388609", "1e3", "--1", "\0"};
        auto num = [&](long v) { int x = n(0, 9); if (x < 4) return fmt("%ld", v + n(-2, 2)); return Str(nums[n(0, 26)]); };
        std::vector<Str> c = hostile_cmd(); if (c.size() > 60) c.resize(60);
        double pm = ch(0.3) ? 0.0 : ch(0.5) ? 0.08 : 0.3;
        if (ch(0.06)) { raw(gen_value(n(1, 600), vseed++)); return o; }
        if (ch(0.03)) { o.push_back(fmt("v:%d:%lu", n(7000, 20000), (unsigned long) (vseed++))); return o; }
        if (ch(0.03)) { raw("PING\r\n"); return o; }
        if (ch(0.04)) { raw(Str(ch(0.5) ? "*" : "*2\r\n$") + Str(ch(0.5) ? n(10, 9000) : n(8150, 8300), "10 \n\t\r"[n(0, 5)])); if (ch(0.5)) raw("\r\n"); return o; }
        auto eol = [&]() { return ch(pm) ? std::vector<Str>{"\n", "\r", "", "\r\r\n", "\n\r", "\r\n\r\n", "x\r\n"}[n(0, 6)] : Str("\r\n"); };
        raw((ch(pm) ? Str(1, "$:+-x\0%"[n(0, 6)]) : Str("*")) + (ch(pm) ? num(c.size()) : fmt("%zu", c.size())) + eol());
        size_t stop = ch(pm) ? r.below(c.size() + 1) : c.size();
        for (size_t i = 0; i < c.size(); i++) {
            if (i == stop) { if (ch(0.5)) break; continue; }
            long len; Str body = c[i]; long a, b; if (sscanf(body.c_str(), "v:%ld:%ld", &a, &b) == 2) len = a; else { len = 0; for (size_t k = 2; k < body.size(); k++, len++) if (body[k] == '%') k += 2; }
            raw((ch(pm) ? Str(1, "*:+-x\0%"[n(0, 6)]) : Str("$")) + (ch(pm) ? num(len) : fmt("%ld", len)) + eol());
            o.push_back(body); raw(eol());
        }
        return o;
    }
    void badstart(const Str &path) { // a disk call fails while the server starts
        static const char *kk[] = {"read", "read", "open", "read+open", "open", "write", "create+write", "fsync", "rename", "mkdir"};
        bool some = ch(0.2); p.add("BADSTART", {some ? "read" : kk[n(0, 9)], path, fmt("%d", path == "any" ? n(0, 20) : n(0, 6)), ch(0.8) ? "5" : ch(0.5) ? "24" : "12", some ? fmt("%d", n(0, 30)) : Str("-1"), "gi", ch(0.4) ? "stop" : "kill"});
    }
    void crash_point(bool sync) {
        static const char *kinds[] = {"any", "any", "write", "write", "create", "unlink", "mkdir", "rename+unlink", "fsync", "send", "lseek", "open"};
        Str k = kinds[n(0, sync ? 11 : 7)];
        bool torn = k == "write" && ch(0.5);
        p.add("CRASH", {k, fmt("%d", k == "any" ? n(0, 40) : n(0, 6)), fmt("%d", torn ? n(0, 60) : -1)});
    }
};
// far more of one thing than usual: files, keys, clients, namespaces, bytes
static bool scale(G &g, const Str &prop) {
    Plan &p = g.p; auto n = [&](int a, int b) { return g.n(a, b); }; auto ch = [&](double x) { return g.ch(x); };
    static const std::map<Str, Str> kinds = {{"C01", "kcbm"}, {"C02", "fk"}, {"C03", "fk"}, {"C04", "ff"}, {"C05", "fkn"}, {"C06", "fk"}, {"C07", "fh"}, {"C08", "nnd"}, {"C10", "k"}, {"C12", "cb"}, {"C14", "w"}, {"C15", "f"}, {"C16", "fk"}, {"C20", "n"}, {"C21", "c"}, {"C24", "fn"}};
    auto it = kinds.find(prop); if (it == kinds.end()) return false;
    char k = it->second[n(0, (int) it->second.size() - 1)]; bool seq = k == 'f' ? ch(prop == "C04" ? 0.9 : 0.6) : ch(0.3);
    g.ncl = 2; g.cfg("bits", n(1, 8)); g.cfg("dirseed", n(0, 1000000)); g.cfg("tickus", n(1, 5)); if (prop == "C03") g.cfg("sync", 1); if (prop == "C12" || prop == "C21") g.cfg("mirrorok", 1);
    auto sel = [&]() { g.C(0, {"s:SELECT", "s:n1"}); g.cns[0] = "n1"; g.C(1, {"s:SELECT", "s:n1"}); g.cns[1] = "n1"; };
    auto one = [&]() { g.C(0, {"s:NSNEW", "s:n1"}); g.ns.push_back("n1"); g.seq["n1"] = seq; g.seq["default"] = false; if (seq) g.C(0, {"s:NSSET", "s:n1", "s:mode", "s:seq"}); sel(); };
    auto val = [&](int lo, int hi) { return fmt("v:%d:%lu", n(lo, hi), (unsigned long) (g.vseed++)); };
    auto nm = [&](int i) { return fmt("s:key%d", i); };
    auto any = [&](int m) { return seq ? fmt("k:%d", n(0, m)) : nm(n(0, m - 1)); };
    auto end = [&](int m, const Str &flags) {
        for (int i = n(5, 40); i-- > 0;) { int x = n(0, 9); if (x < 3) g.C(0, {"s:SET", any(m), val(1, 30)}); else if (x < 5) g.C(0, {"s:DEL", any(m)}); else if (x < 8) g.C(1, {"s:GET", any(m)}); else if (seq) g.C(0, {"s:SET", "s:", val(1, 30)}); else g.C(0, {"s:SET", fmt("s:more%d", n(0, 20)), val(1, 30)}); }
        if (ch(0.8)) { if (prop == "C03") p.add("RESTART", {"kill", fmt("%d", n(0, 100))}); else g.restart(ch(0.5) && prop != "C04" ? "kill" : "clean"); sel(); for (int i = n(2, 15); i-- > 0;) { if (ch(0.5)) g.C(0, {"s:GET", any(m)}); else g.C(0, {"s:SET", any(m), val(1, 30)}); } if (seq) g.C(0, {"s:SET", "s:", val(1, 30)}); }
        p.add("VERIFY", {flags});
        if (prop == "C16") p.add("DATACHECK", {"raw"});
    };
    if (k == 'f') { // many files: the file tables grow beyond their first allocation
        g.cfg("datasize", 60); one(); int m = ch(0.8) ? n(1010, 1060) : n(200, 2100); if (prop == "C03" || prop == "C16") m = n(150, 400);
        for (int i = 0; i < m; i++) g.C(0, {"s:SET", seq ? Str("s:") : nm(i), val(30, 45)});
        if (prop == "C07") for (int i = 0; i < 40; i++) g.C(0, {"s:SET", any(6), val(30, 45)});
        end(m, m > 500 ? "gi" : "gisx");
    } else if (k == 'k') {
        one(); int m = n(600, 5000); if (prop == "C03" || prop == "C16") m = n(200, 900); if (ch(0.3)) g.cfg("datasize", n(2000, 60000)); if (prop == "C06") m = n(300, 1500); if (ch(0.5)) g.cfg("pipe", 1);
        for (int i = 0; i < m; i++) { g.C(0, {"s:SET", seq ? Str("s:") : nm(i), val(1, 20)}); if (ch(0.1)) g.C(1, {ch(0.5) ? "s:GET" : "s:DEL", any(i + 1)}); }
        if (prop == "C10") { g.C(0, {"s:DBSIZE"}); g.C(0, {"s:NSINFO", "s:n1"}); }
        end(m, m > 1500 ? "gi" : "gisx");
    } else if (k == 'h') { // long version chains
        seq = ch(0.3); one(); int m = n(200, 700); if (ch(0.6)) g.cfg("datasize", n(100, 3000)); if (seq) g.C(0, {"s:SET", "s:", val(1, 30)});
        for (int i = 0; i < m; i++) { g.C(0, {"s:SET", seq ? Str("k:0") : nm(n(0, 1)), val(1, 30)}); if (ch(0.02)) g.C(0, {"s:DEL", seq ? Str("k:0") : nm(0)}); if (seq && ch(0.05)) g.C(0, {"s:SET", "s:", val(1, 30)}); }
        end(2, "gih");
    } else if (k == 'c') { // many clients, all of them ready at once
        one(); int m = ch(0.3) ? n(19, 29) : ch(0.4) ? n(51, 61) : n(30, 140); g.ncl = m; g.cfg("pipe", 1); bool mir = prop == "C21"; if (mir) for (int i = 0; i < n(1, 40); i++) { p.add("OPEN", {fmt("%d", 200 + i)}); g.C(200 + i, {"s:MIRROR"}); }
        for (int rnd = n(1, 4); rnd-- > 0;) {
            bool hold = ch(0.6); if (hold) p.add("HOLD");
            for (int i = 0; i < m; i++) { int x = n(0, 9); if (x < 1) { p.add(ch(0.5) ? "CLOSE" : "RESET", {fmt("%d", i)}); continue; } if (x < 3) g.C(i, {"s:SELECT", "s:n1"}); if (ch(0.6)) g.C(i, {"s:SET", seq && x < 3 ? Str("s:") : nm(n(0, m)), val(1, 200)}); else g.C(i, {ch(0.5) ? "s:GET" : "s:EXISTS", nm(n(0, m))}); }
            if (hold) p.add("BURST"); if (ch(0.8)) p.add("BARRIER");
        }
        p.add("VERIFY", {"gi"}); if (mir) p.add("REPLICA", {"5"});
    } else if (k == 'w') { // many waiters
        g.ncl = ch(0.4) ? n(21, 26) : ch(0.5) ? n(53, 58) : n(30, 120); if (ch(0.6)) g.C(0, {"s:PING"}); for (int c = 1; c < g.ncl; c++) g.C(c, {"s:WAIT", ch(0.6) ? "s:SET" : ch(0.5) ? "s:*" : "s:DEL", fmt("s:%d", n(100, 20000))});
        if (ch(0.5)) p.add("BARRIER"); for (int i = n(1, 6); i-- > 0;) { g.C(0, {"s:SET", nm(i), val(1, 20)}); if (ch(0.4)) p.add("ADVANCE", {fmt("%d", n(1000, 3000000))}); if (ch(0.3)) g.C(0, {"s:DEL", nm(i)}); int c = n(1, g.ncl - 1); if (ch(0.5)) { p.add("BARRIER"); g.C(c, {"s:WAIT", "s:SET", "s:500"}); } }
        p.add("ADVANCE", {"26000000"}); p.add("VERIFY", {"gi"});
    } else if (k == 'd') { // many clients of a namespace that is removed, emptied or created again under them
        one(); int m = ch(0.4) ? n(19, 29) : ch(0.5) ? n(51, 61) : n(30, 120); g.ncl = m; if (ch(0.5)) g.cfg("pipe", 1);
        for (int rnd = n(1, 3); rnd-- > 0;) {
            for (int i = 1; i < m; i++) { if (ch(0.05)) { p.add(ch(0.5) ? "CLOSE" : "RESET", {fmt("%d", i)}); continue; } if (ch(0.6)) g.C(i, {"s:SELECT", ch(0.8) ? "s:n1" : "s:default"}); if (ch(0.5)) g.C(i, {"s:SET", nm(n(0, m)), val(1, 60)}); }
            if (ch(0.8)) p.add("BARRIER");
            g.C(0, {"s:SELECT", "s:default"}); g.C(0, {"s:NSDEL", "s:n1"}); if (ch(0.6)) g.C(0, {"s:NSNEW", "s:n1"});
            for (int i = m - 1; i > 0; i--) if (ch(0.7)) g.C(i, {ch(0.5) ? "s:GET" : "s:EXISTS", nm(n(0, m))});
            if (ch(0.5)) g.C(0, {"s:NSNEW", "s:n1"});
            p.add("BARRIER");
        }
        p.add("VERIFY", {"gis"});
    } else if (k == 'b') { // payloads up to the limit
        one(); p.cfg.erase("datasize"); if (ch(0.4)) { g.cfg("pipe", 1); g.cfg("sockbuf", n(50000, 3000000)); }
        static const int len[] = {8191, 8192, 8193, 65535, 65536, 1 << 20, 8388607, 8388608, 8388608 - 4096, 4194304, 5000000};
        for (int i = n(2, 6); i-- > 0;) { g.C(0, {"s:SET", seq ? Str("s:") : nm(n(0, 2)), fmt("v:%d:%lu", len[n(0, 10)], (unsigned long) g.vseed++)}); if (ch(0.5)) g.C(1, {"s:GET", any(3)}); }
        if (ch(0.4)) { g.restart("kill"); sel(); } p.add("VERIFY", {"gix"});
    } else if (k == 'm') { // requests with very many arguments
        seq = false; one(); int m = n(100, 1020); for (int i = 0; i < m; i += n(1, 3)) g.C(0, {"s:SET", nm(i), val(0, 60)});
        for (int q = n(1, 3); q-- > 0;) { std::vector<Str> a = {"s:MGET"}; int w = ch(0.5) ? 1023 : n(2, 1023); for (int i = 0; i < w; i++) a.push_back(nm(n(0, m))); g.C(n(0, 1), a); }
        p.add("VERIFY", {"gi"});
    } else { // many namespaces
        int m = n(20, 150); g.seq["default"] = false; if (ch(0.5)) g.cfg("datasize", n(100, 2000));
        for (int i = 0; i < m; i++) { Str s = fmt("s:space%d", i); g.C(0, {"s:NSNEW", s}); if (ch(0.3)) g.C(0, {"s:NSSET", s, "s:mode", "s:seq"}); if (ch(0.15)) g.C(0, {"s:NSSET", s, "s:maxsize", fmt("s:%d", n(10, 500))}); if (ch(0.15)) g.C(0, {"s:NSSET", s, "s:password", "s:pw"}); g.C(1, {"s:SELECT", s}); g.C(1, {"s:SET", "s:abcdefgh", val(1, 40)}); g.C(1, {"s:SET", "s:", val(1, 40)}); if (ch(0.2)) g.C(1, {"s:SET", nm(n(0, 9)), val(1, 40)}); if (ch(0.1)) { g.C(1, {"s:SELECT", "s:default"}); g.C(0, {"s:NSDEL", fmt("s:space%d", n(0, i))}); } }
        g.C(0, {"s:NSLIST"}); p.add("VERIFY", {"gis"}); if (ch(0.9)) { g.restart(ch(0.5) ? "clean" : "kill"); p.add("VERIFY", {"gis"}); } for (int i = n(1, 10); i-- > 0;) { g.C(0, {"s:NSDEL", fmt("s:space%d", n(0, m))}); g.C(0, {"s:NSNEW", fmt("s:late%d", i)}); } p.add("VERIFY", {"gi"});
    }
    return true;
}
static const W RW = {{"SET", 30}, {"GET", 14}, {"DEL", 10}, {"EXISTS", 4}, {"LENGTH", 3}, {"KEYTIME", 3}, {"MGET", 3}, {"CHECK", 2}, {"SCAN", 3}, {"RSCAN", 2}, {"KSCAN", 1}, {"HISTORY", 3}, {"KEYCUR", 2}, {"DBSIZE", 2}, {"NSINFO", 2}, {"PING", 1}};
static W plus(W a, const W &b) { for (auto &x : b) a[x.first] = x.second; return a; }

Plan generate(const Str &prop, uint64_t seed, bool thorough) {
    G g(prop, seed, thorough); Plan &p = g.p; Rng &r = g.r; (void) r;
    auto n = [&](int a, int b) { return g.n(a, b); }; auto ch = [&](double x) { return g.ch(x); };
    g.nops = thorough ? n(10, 160) : n(8, 60);
    g.mkkeys(n(2, 9)); g.vmax = ch(0.3) ? n(4, 30) : n(30, 300); if (ch(0.15)) g.big = 70000;
    if (((prop == "C14" || prop == "C12" ? seed % 15 == 7 : seed % 61 == 7) || getenv("ZDBSIM_SCALE")) && scale(g, prop)) return p;
    if (prop == "C01") {
        g.basic(); g.ncl = n(1, 3); if (ch(0.3)) { p.cfg["admin"] = "adm"; g.hasadmin = true; }
        if (ch(0.4)) { g.cfg("pipe", 1); if (ch(0.5)) g.cfg("frag", 1); }
        if (ch(0.04)) g.big = 3000000;
        g.auth(0); g.namespaces(n(0, 2), 0.5, 0.15); g.sessions();
        W w = plus(RW, {{"ADVANCE", 2}, {"CLOSE", 1}, {"SELECT", 2}, {"NSJUMP", 1}, {"BARRIER", 1}});
        g.mix(g.nops * 2, w); p.add("VERIFY", {"gisxh"});
    } else if (prop == "C02" || prop == "C03") {
        bool sync = prop == "C03";
        g.basic(0.25, 0.1); g.ncl = n(1, 3); if (sync) g.cfg("sync", 1); if (ch(0.4)) g.cfg("pipe", 1);
        if (ch(0.5)) g.cfg("datasize", n(200, 1200));
        g.auth(0); g.namespaces(n(0, 2), 0.5, 0.1); g.sessions();
        W w = {{"SET", 22}, {"UPD", 16}, {"NEW", 6}, {"DEL", 12}, {"GET", 3}, {"NSJUMP", 1}, {"NSNEW", 1}, {"NSDEL", 1}, {"SELECT", 1}, {"ADVANCE", 1}};
        int cyc = n(1, thorough ? 6 : 3);
        for (int k = 0; k < cyc; k++) {
            g.mix(n(2, g.nops / 2 + 3), w);
            if (ch(0.9)) g.crash_point(sync);
            g.mix(n(1, 12), w);
            int power = sync ? n(0, 3) * 33 : -1; if (power > 99) power = 100;
            p.add("RESTART", {"kill", fmt("%d", power), fmt("%d", ch(0.3) ? n(0, 60) : -1), fmt("%d", ch(0.3) ? n(0, 9) : -1)});
            if (ch(0.12)) g.badstart(ch(0.15) ? "desc" : ch(0.3) ? "data" : ch(0.3) ? "index" : "any");
            bool anyseq = p.str("mode") == "seq"; for (auto &x : g.seq) if (x.second) anyseq = true;
            if (anyseq || ch(0.8)) p.add("VERIFY", {"gix"});
            g.sessions();
        }
        g.mix(n(2, 10), w); p.add("VERIFY", {"gisxh"});
    } else if (prop == "C04") {
        g.basic(0.3); g.ncl = n(1, 3); if (ch(0.4)) p.cfg["mode"] = "seq";
        if (ch(0.3)) g.cfg("pipe", 1); g.cfg("datasize", n(120, 1500)); g.vmax = n(4, 80);
        g.auth(0); g.namespaces(n(1, 2), 1.0, 0.0); g.sessions();
        W w = {{"NEW", 30}, {"UPD", 14}, {"DEL", 8}, {"GET", 12}, {"NSINFO", 6}, {"NSJUMP", 4}, {"RESTART", 2}, {"BADSTART", 1}, {"RELOAD", 1}, {"SELECT", 2}, {"EXISTS", 3}, {"SCAN", 1}, {"DBSIZE", 1}};
        for (int i = 0; i < g.nops; i++) { Str o = g.pick(w); if (o == "BADSTART") { g.badstart(ch(0.15) ? "desc" : ch(0.3) ? "data" : ch(0.3) ? "index" : "any"); g.sessions(); } else if (o == "RESTART") { if (ch(0.5)) { g.restart("clean"); } else { if (ch(0.7)) g.crash_point(false); g.mix(n(1, 6), {{"NEW", 5}, {"UPD", 3}, {"DEL", 2}}); p.add("RESTART", {"kill", "-1", fmt("%d", ch(0.2) ? n(0, 60) : -1)}); p.add("VERIFY", {"gi"}); } g.sessions(); } else { g.op(n(0, g.ncl - 1), o); } }
        p.add("VERIFY", {"gisx"});
    } else if (prop == "C05") {
        g.basic(); g.ncl = n(1, 2); g.auth(0); g.namespaces(n(0, 3), 0.5, 0.2); g.sessions();
        int cyc = n(1, 4);
        for (int k = 0; k < cyc; k++) { g.mix(n(3, g.nops), plus(RW, {{"UPD", 10}, {"NSJUMP", 3}, {"RELOAD", 4}, {"SELECT", 2}, {"ADVANCE", 2}})); if (ch(0.5)) p.add("VERIFY", {"gisxh"}); if (ch(0.7)) g.restart(ch(0.8) ? "clean" : "kill"); else p.add("VERIFY", {"sh"}); if (ch(0.15)) g.badstart(ch(0.15) ? "desc" : ch(0.3) ? "data" : ch(0.3) ? "index" : "any"); if (ch(0.8)) p.add("VERIFY", {"gisxh"}); g.sessions(); }
        p.add("VERIFY", {"gisxh"});
    } else if (prop == "C06") {
        g.basic(); g.ncl = n(1, 3); g.cfg("tickus", n(0, 2) ? n(200, 1800) : n(1, 100)); g.cfg("datasize", n(150, 2000)); g.vmax = n(4, 60); g.mkkeys(n(0, 25));
        g.auth(0); g.namespaces(n(0, 2), 0.5, 0.0); g.sessions();
        g.mix(n(0, 25), {{"SET", 10}, {"DEL", 2}});
        W w = {{"SET", 16}, {"UPD", 8}, {"DEL", 12}, {"SCAN", 10}, {"RSCAN", 10}, {"SCANX", 2}, {"KSCAN", 4}, {"WALK", 16}, {"KEYCUR", 10}, {"NSJUMP", 6}, {"SELECT", 2}, {"RESTART", 1}, {"RELOAD", 1}, {"GET", 2}};
        for (int i = 0; i < g.nops; i++) { Str o = g.pick(w); if (o == "RESTART") { g.restart("clean"); g.sessions(); } else g.op(n(0, g.ncl - 1), o); }
        p.add("VERIFY", {"s"});
    } else if (prop == "C07") {
        g.basic(); g.ncl = n(1, 2); g.cfg("datasize", n(150, 3000)); g.vmax = n(4, 100); if (ch(0.6)) g.keys.resize(std::min<size_t>(g.keys.size(), 3));
        g.auth(0); g.namespaces(n(0, 2), 0.5, 0.0); g.sessions();
        W w = {{"SET", 20}, {"UPD", 25}, {"DEL", 5}, {"HISTORY", 25}, {"NSJUMP", 4}, {"RESTART", 2}, {"RELOAD", 1}, {"SELECT", 1}, {"GET", 3}, {"ADVANCE", 2}};
        for (int i = 0; i < g.nops; i++) { Str o = g.pick(w); if (o == "RESTART") { g.restart(ch(0.8) ? "clean" : "kill"); g.sessions(); } else g.op(n(0, g.ncl - 1), o); }
        p.add("VERIFY", {"gh"});
    } else if (prop == "C08") {
        g.basic(); g.ncl = n(2, 4); if (ch(0.4)) { p.cfg["admin"] = "adm"; g.hasadmin = true; } g.auth(0); g.namespaces(n(1, 3), 0.4, 0.4);
        g.sessions(); if (ch(0.3)) g.cfg("pipe", 1);
        W w = {{"SET", 20}, {"UPD", 6}, {"DEL", 5}, {"GET", 8}, {"SELECT", 12}, {"NSDEL", 5}, {"NSNEW", 4}, {"FLUSH", 5}, {"NSLIST", 3}, {"NSINFO", 4}, {"NSJUMP", 2}, {"RELOAD", 2}, {"CLOSE", 2}, {"DBSIZE", 2}, {"SCAN", 2}, {"KSCAN", 2}, {"RESTART", 2}, {"NSSET", 3}, {"HISTORY", 1}, {"LOCK", 1}};
        for (int i = 0; i < g.nops; i++) { Str o = g.pick(w); if (o == "RESTART") { if (ch(0.4)) g.restart("clean"); else { if (ch(0.8)) g.crash_point(false); g.mix(n(1, 6), {{"NSDEL", 4}, {"NSNEW", 4}, {"SET", 2}, {"FLUSH", 2}}); p.add("RESTART", {"kill"}); } p.add("VERIFY", {"gis"}); g.sessions(); } else g.op(n(0, g.ncl - 1), o); }
        p.add("VERIFY", {"gisxh"});
    } else if (prop == "C09") {
        g.basic(); g.ncl = n(2, 4); p.cfg["admin"] = "adm1n"; g.hasadmin = true; if (ch(0.2)) { g.cfg("protect", 1); g.pass["default"] = "adm1n"; }
        g.auth(0); g.namespaces(n(1, 3), 0.3, 0.8); g.sessions();
        for (int c = 1; c < g.ncl; c++) g.adm[c] = false;
        for (int i = 0; i < g.nops * 2; i++) {
            int c = n(0, g.ncl - 1); Str nm = g.ns[r.below(g.ns.size())];
            switch (n(0, 23)) {
            case 0: g.C(c, {"s:SELECT", lit(nm)}); break;
            case 1: { Str w = "wrong"; if (ch(0.3)) w = (g.pass.count(nm) ? g.pass[nm] : Str("pw")) + Str("\0x", ch(0.5) ? 1 : 2); g.C(c, {"s:SELECT", lit(nm), lit(w)}); break; } // (the right one, cut short)
            case 18: if (ch(0.5)) { g.C(c, {"s:AUTH", lit(Str("adm1n\0x", ch(0.5) ? 6 : 7))}); break; } g.C(c, {ch(0.5) ? "s:NSDEL" : "s:SELECT", lit(nm + Str("\0x", 2))}); break;
            case 2: case 3: case 4: g.select(c, nm); break;
            case 5: { g.C(c, {"s:AUTH", "s:SECURE", "s:CHALLENGE"}); if (ch(0.2)) g.C(n(0, g.ncl - 1), {"s:AUTH", "s:SECURE", "s:CHALLENGE"}); g.C(c, {"s:SELECT", lit(nm), "s:SECURE", "a:" + (g.pass.count(nm) && ch(0.8) ? g.pass[nm] : Str("bad"))}); if (ch(0.4)) g.C(c, {"s:SELECT", lit(nm), "s:SECURE", "a:" + (g.pass.count(nm) ? g.pass[nm] : Str("x"))});
                if (ch(0.3)) { Str pw = g.pass.count(nm) ? g.pass[nm] : Str("x"), an = "a:" + pw; g.C(c, {"s:AUTH", "s:SECURE", "s:CHALLENGE"}); int x = n(0, 5);   // ill-formed ways to ask
                    if (x == 0) g.C(c, {"s:SELECT", lit(nm), ch(0.5) ? "s:PLAIN" : "s:SECURED", an}); else if (x == 1) g.C(c, {"s:SELECT", lit(nm), "s:SECURE", ch(0.5) ? "v:39:1" : ch(0.5) ? "v:41:1" : "s:"}); else if (x == 2) g.C(c, {"s:SELECT", lit(nm), "s:SECURE", an, "s:x"});
                    else if (x == 3) g.C(c, {"s:SELECT", lit(nm), fmt("v:%d:1", n(200, 300))}); else if (x == 4) g.C(c, {"s:SELECT", lit(nm), lit(pw), lit(pw)}); else g.C(c, {"s:SELECT", lit(nm), lit(pw + "x")});
                    g.C(c, {"s:SELECT", lit(nm), "s:SECURE", an}); }
                break; }
            case 6: { g.C(c, {"s:AUTH", ch(0.3) ? "s:adm1n" : ch(0.5) ? "s:adm1" : ch(0.5) ? "s:adm1nn" : "s:bad"}); break; }
            case 7: { g.C(c, {"s:AUTH", "s:SECURE", "s:CHALLENGE"}); g.C(c, {"s:AUTH", "s:SECURE", ch(0.5) ? "a:adm1n" : "a:bad"}); if (ch(0.5)) g.C(c, {"s:AUTH", "s:SECURE", "a:adm1n"}); break; }
            case 8: g.C(c, {"s:NSNEW", fmt("s:q%d", n(0, 5))}); break;
            case 9: g.C(c, {"s:NSDEL", lit(nm)}); break;
            case 10: g.C(c, {"s:NSSET", lit(nm), "s:password", "s:hack"}); if (c == 0 && nm != "default") g.pass[nm] = "hack"; break;
            case 11: g.C(c, {"s:RELOAD", lit(nm)}); break;
            case 12: g.C(c, {"s:FLUSH"}); break;
            case 13: g.op(0, "NSSET"); break;
            case 14: g.op(0, "LOCK"); break;
            case 15: g.C(c, {"s:NSJUMP"}); break;
            case 16: g.op(c, "CLOSE"); break;
            case 17: { static const char *q[] = {"INDEX", "DATA", "MASTER", "MIRROR", "SET4", "DEL3", "STOP"}; Str x = q[n(0, 5)]; if (c == 0) break; if (x == "INDEX") g.C(c, {"s:INDEX", "s:INFO"}); else if (x == "DATA") g.C(c, {"s:DATA", "s:INFO"}); else if (x == "SET4") g.C(c, {"s:SET", g.newkey(c), g.val(), "s:1000"}); else if (x == "DEL3") g.C(c, {"s:DEL", g.key(c), "s:1000"}); else g.C(c, {"s:" + x}); break; }
            default: g.op(c, g.pick(RW));
            }
            if (n(0, 60) == 0) { g.restart("clean"); g.sessions(); for (int q = 1; q < g.ncl; q++) g.adm[q] = false; }
        }
        p.add("VERIFY", {"gix"});
    } else if (prop == "C10") {
        g.basic(); g.ncl = n(1, 3); if (ch(0.3)) g.cfg("maxsize", n(50, 3000)); g.auth(0); g.namespaces(n(1, 2), 0.4, 0.0); g.sessions();
        for (auto &x : g.ns) if (x != "default" && ch(0.8)) g.C(0, {"s:NSSET", lit(x), "s:maxsize", g.msz()});
        W w = {{"SET", 25}, {"UPD", 20}, {"DEL", 12}, {"NSINFO", 12}, {"DBSIZE", 6}, {"NSJUMP", 2}, {"RELOAD", 2}, {"SELECT", 3}, {"RESTART", 2}, {"QUOTA", 4}, {"GET", 2}, {"LONG", 3}, {"FLUSH", 1}};
        for (int i = 0; i < g.nops; i++) { Str o = g.pick(w); if (o == "RESTART") { if (ch(0.5)) g.restart("clean"); else { if (ch(0.7)) g.crash_point(false); g.mix(n(1, 5), {{"SET", 3}, {"DEL", 2}, {"UPD", 3}}); p.add("RESTART", {"kill"}); } p.add("VERIFY", {"gi"}); g.sessions(); } else if (o == "QUOTA") { Str nm = g.ns[r.below(g.ns.size())]; g.C(0, {"s:NSSET", lit(nm), "s:maxsize", g.msz()}); } else g.op(n(0, g.ncl - 1), o); }
        p.add("VERIFY", {"gi"});
    } else if (prop == "C11") {
        g.basic(); g.ncl = n(1, 2); if (ch(0.25)) g.cfg("sync", 1); if (ch(0.5)) g.cfg("datasize", n(200, 1500));
        g.auth(0); g.namespaces(n(0, 2), 0.5, 0.1); g.sessions(); g.mix(n(0, 15), {{"SET", 10}, {"UPD", 4}, {"DEL", 2}});
        W w = {{"SET", 20}, {"UPD", 18}, {"DEL", 10}, {"GET", 12}, {"EXISTS", 2}, {"CHECK", 2}, {"HISTORY", 3}, {"SCAN", 3}, {"RSCAN", 2}, {"KEYCUR", 2}, {"MGET", 2}, {"NSJUMP", 3}, {"NSINFO", 1}, {"NSSET", 1}, {"LENGTH", 1}, {"KEYTIME", 1}};
        int cyc = n(1, 5);
        static const char *kinds[] = {"write", "write", "write", "read", "read", "open", "create", "mkdir+rename+unlink", "write+read", "open+create", "write+read+open+create", "write"};
        static const char *errs[] = {"EIO", "ENOSPC", "EMFILE", "EDQUOT", "EACCES"};
        for (int k = 0; k < cyc; k++) {
            if (ch(0.15)) p.add("DISK", {fmt("%d", n(0, 600))});
            else { // an error and a second one on the repair of the first would leave nothing to guarantee: failing writes, one cut write, or failing syncs
                int cl = n(0, 9), m = cl < 5 ? n(1, 3) : cl < 8 ? 1 : n(1, 2); static const char *cls[] = {"-", "-", "data", "index"};
                for (int i = 0; i < m; i++) {
                    Str kk = cl < 5 ? kinds[n(0, 10)] : cl < 8 ? (ch(0.75) ? "write" : "read") : (i ? (ch(0.5) ? "fsync" : "read+open") : "fsync");
                    bool rep = cl >= 5 && cl < 8 && ch(0.3); // (only index entries are repaired by a write)
                    p.add("FAULT", {rep ? "write" : kk, rep ? "data" : cls[n(0, 3)], fmt("%d", n(0, 8)), fmt("%d", rep ? n(2, 3) : cl >= 5 && cl < 8 ? 1 : ch(0.8) ? n(1, 2) : n(3, 12)), errs[n(0, 4)], fmt("%d", cl >= 5 && cl < 8 ? (ch(0.5) ? n(0, 40) : 1000000 + n(0, 999)) : -1)});
                }
            }
            g.mix(n(2, 14), w);
            p.add("CLEAR"); if (ch(0.6)) p.add("VERIFY", {"gisxh"});
            if (ch(0.35)) { if (ch(0.4)) g.badstart(ch(0.15) ? "desc" : ch(0.3) ? "data" : ch(0.3) ? "index" : "any"); else g.restart(ch(0.6) ? "clean" : "kill"); p.add("VERIFY", {"gisxh"}); g.sessions(); }
            g.mix(n(0, 6), w);
        }
        p.add("CLEAR"); p.add("VERIFY", {"gisxh"}); g.restart(ch(0.5) ? "clean" : "kill"); p.add("VERIFY", {"gisxh"});
    } else if (prop == "C22") { // a program with the library and the server take turns
        g.basic(0.4, 0); g.cfg("nostart", 1); g.ncl = 1; if (ch(0.2)) g.cfg("sync", 1); if (ch(0.6)) g.cfg("datasize", n(200, 2000));
        g.seq["default"] = p.str("mode") == "seq"; int seg = n(2, 5); bool server = ch(0.3);
        static const char *kinds[] = {"write", "write", "write", "read", "read", "open", "create", "mkdir+rename+unlink", "write+read", "open+create", "write+read+open+create"};
        static const char *errs[] = {"EIO", "ENOSPC", "EMFILE", "EDQUOT", "EACCES"}; int uk = 0; bool fault = false, powered = false;
        auto L = [&](std::vector<Str> a) { p.add("L", a); };
        auto libops = [&](int cnt) { for (int i = 0; i < cnt; i++) {
            Str nm = g.ns[r.below(g.ns.size())]; g.cns[0] = nm; Str l = lit(nm);
            switch (n(0, 19)) {
            case 0: case 1: case 2: case 3: case 4: L({"set", l, g.newkey(0), g.val()}); break;
            case 5: case 6: L({"set", l, g.key(0), g.val()}); break;
            case 7: case 8: case 9: L({"get", l, g.key(0)}); break;
            case 10: L({"exists", l, g.key(0)}); break; case 11: L({"check", l, g.key(0)}); break;
            case 12: case 13: case 14: L({"del", l, g.key(0)}); break;
            case 15: if (!fault && ch(0.3) && g.ns.size() < 5) { Str x = fmt("lib%d", uk++); L({"nsnew", lit(x)}); g.ns.push_back(x); g.seq[x] = p.str("mode") == "seq"; } else L({"jump", l}); break;
            case 16: if (ch(0.2)) L({ch(0.5) ? "set" : "get", l, fmt("v:%d:%d", n(256, 600), n(0, 9)), "s:x"}); else if (ch(0.3)) p.add("LIB", {"verify"}); break;
            case 17: { Str k = g.key(0), v = g.val(); if (ch(0.3)) { Str q = fmt("%d:%lu", n(8, 100), (unsigned long) (g.vseed++)); L({"set", l, k, "v:" + q}); L({"set", l, k, "w:" + q}); L({"get", l, k}); break; } L({"set", l, k, v}); L({"set", l, k, v}); break; }
            case 18: if (ch(0.25)) p.add("LIB", {"reopen"}); break;
            default: L({"get", l, g.key(0)}); }
        } };
        for (int k = 0; k < seg; k++) {
            if (server) {
                p.add("RESTART", {"kill"}); g.cns[0] = "default"; g.adm[0] = true; if (ch(0.6)) p.add("VERIFY", {"gisxh"});
                if (k == 0) g.namespaces(n(0, 3), 0.6, 0.1); else if (ch(0.4)) g.sessions();
                if (ch(0.15)) { Str nm = g.ns[r.below(g.ns.size())]; g.C(0, {"s:NSSET", lit(nm), "s:maxsize", g.msz()}); }
                g.mix(n(0, 12), {{"SET", 20}, {"UPD", 8}, {"DEL", 10}, {"GET", 4}, {"NSJUMP", 2}, {"SELECT", 2}});
                std::vector<Str> a = {"takeover", ch(0.5) ? "stop" : "kill"}; if (ch(0.3)) a.push_back("try"); p.add("LIB", a);
            } else {
                fault = false; if (ch(0.08)) p.add("LIB", {"openfault", kinds[n(0, 10)], fmt("%d", n(0, 12)), ch(0.5) ? "5" : "28"}); if (p.steps.size() && p.steps.back().a[0] == "openfault") { fault = true; p.add("LIB", {"verify"}); libops(n(1, 8)); p.add("LIB", {"verify"}); p.add("LIB", {"kill"}); fault = false; }
                p.add("LIB", {"open"}); if (ch(0.4)) p.add("LIB", {"verify"});
                libops(n(2, g.nops / 2 + 4));
                if (ch(0.35)) { g.crash_point(false); libops(n(3, 20)); }
                else if (ch(0.5)) { fault = true;
                    static const char *cls[] = {"-", "-", "data", "index"};
                    if (ch(0.15)) p.add("DISK", {fmt("%d", n(0, 600))});
                    else { int cl = n(0, 7), m = cl < 5 ? n(1, 3) : 1; for (int i = 0; i < m; i++) { bool rep = cl >= 5 && ch(0.3); p.add("FAULT", {rep ? "write" : cl < 5 ? kinds[n(0, 10)] : ch(0.75) ? "write" : "read", rep ? "data" : cls[n(0, 3)], fmt("%d", n(0, 8)), fmt("%d", rep ? n(2, 3) : cl >= 5 ? 1 : ch(0.8) ? n(1, 2) : n(3, 12)), errs[n(0, 4)], fmt("%d", cl >= 5 ? (ch(0.5) ? n(0, 40) : 1000000 + n(0, 999)) : -1)}); } }
                    libops(n(2, 14)); p.add("CLEAR"); p.add("LIB", {"verify"}); libops(n(0, 5));
                }
                int e = n(0, 9);
                if (e < 4) { p.add("LIB", {"verify"}); p.add("LIB", {"close"}); } else if (p.num("sync") && !fault && e < 7 && (powered = true)) p.add("LIB", {"power", fmt("%d", n(0, 1) ? 0 : n(0, 100))}); else p.add("LIB", {"kill"});
            }
            server = ch(server ? 0.2 : 0.45);
        }
        p.add("LIB", {"open"}); p.add("LIB", {"verify"}); p.add("LIB", {"close"}); p.add("RESTART", {"kill"}); p.add("VERIFY", {"gisxh"}); if (!powered) p.add("DATACHECK");
    } else if (prop == "C17") {
        g.basic(0.35, 0.1); g.ncl = n(1, 3); g.cfg("hookst", 1); g.cfg("datasize", n(150, 1500)); if (ch(0.3)) g.cfg("pipe", 1); if (ch(0.2)) { p.cfg["admin"] = "adm"; g.hasadmin = true; }
        bool hook = ch(0.85); if (hook) { p.cfg["hook"] = "/hook"; if (ch(0.3)) g.cfg("hookms", n(1, 3000)); }
        static const char *modes[] = {"r", "f", "rf", "rrfR0", "0", "kK", "rs", "h", "rhf", "R", "sf0rkKhR"};
        g.vmax = n(10, 200); g.auth(0); g.namespaces(n(0, 2), 0.5, 0.1); g.sessions();
        W w = {{"SET", 14}, {"UPD", 14}, {"GET", 26}, {"MGET", 8}, {"DEL", 8}, {"CHECK", 6}, {"HISTORY", 8}, {"EXISTS", 3}, {"LENGTH", 3}, {"KEYTIME", 3}, {"SCAN", 3}, {"RSCAN", 2}, {"NSINFO", 2}, {"DBSIZE", 1}, {"NSJUMP", 6}, {"SELECT", 2}, {"ADVANCE", 1}, {"RELOAD", 1}, {"FLUSH", 1}, {"NSDEL", 1}};
        g.mix(n(6, g.nops), {{"SET", 20}, {"UPD", 12}, {"DEL", 3}, {"NSJUMP", 6}, {"GET", 1}});
        int cyc = n(1, 5);
        for (int k = 0; k < cyc; k++) {
            if (hook && ch(0.6)) p.add("HOOKMODE", {modes[n(0, 10)], fmt("%d", n(0, 20))});
            int hd = n(1, 3); for (int i = 0; i < hd; i++) p.add("HIDE", {lit(g.ns[r.below(g.ns.size())]), fmt("%d", n(0, 50)), fmt("%d", ch(0.3) ? n(2, 6) : 1)});
            if (hook && ch(0.08)) p.add("FAULT", {"fork", "-", fmt("%d", n(0, 3)), fmt("%d", n(1, 2)), "EAGAIN"});
            g.mix(n(2, g.nops / 2), w);
            if (ch(0.15)) { if (ch(0.6)) g.restart(ch(0.5) ? "clean" : "kill"); else { g.crash_point(false); g.mix(n(1, 8), w); p.add("RESTART", {"kill", "-1", fmt("%d", ch(0.3) ? n(0, 60) : -1)}); p.add("VERIFY", {"gix"}); } g.sessions(); }
            if (ch(0.3)) p.add("VERIFY", {ch(0.5) ? "gisxh" : "s"});
            if (ch(0.35)) p.add("UNHIDE", {ch(0.5) ? Str("-") : lit(g.ns[r.below(g.ns.size())])});
            if (ch(0.3)) g.mix(n(1, 6), w);
        }
        p.add("CLEAR"); p.add("UNHIDE", {"-"}); p.add("VERIFY", {"gisxh"}); p.add("DATACHECK");
    } else if (prop == "C18") {
        g.basic(0.35, 0.1); g.ncl = n(1, 3); g.cfg("hookst", 2); g.cfg("datasize", n(150, 1500)); if (ch(0.3)) g.cfg("pipe", 1); if (ch(0.2)) { p.cfg["admin"] = "adm"; g.hasadmin = true; }
        p.cfg["hook"] = "/hook"; if (ch(0.3)) g.cfg("hookms", n(1, 3000)); if (ch(0.15)) g.cfg("rotate", n(1, 20));
        static const char *modes[] = {"r", "f", "rf", "rrf", "k", "rk", "rs", "rsfk", "rrrrf", "s", "rrk"};
        g.vmax = n(4, 150); g.auth(0); g.namespaces(n(0, 2), 0.5, 0.1); g.sessions();
        W w = {{"SET", 16}, {"UPD", 20}, {"NEW", 10}, {"GET", 3}, {"DEL", 12}, {"HISTORY", 1}, {"NSJUMP", 8}, {"SELECT", 3}, {"ADVANCE", 3}, {"RELOAD", 2}, {"FLUSH", 1}, {"NSDEL", 1}, {"NSNEW", 1}, {"NSSET", 1}};
        int cyc = n(2, 6);
        if (ch(0.004)) { // many files: a long list
            int N = n(600, 1300); p.add("HOOKMODE", {"f", "0"}); int c = 0;
            for (int i = 0; i < N; i++) { if (ch(0.97)) g.op(c, "NEW"); p.add("C", {fmt("%d", c), "s:NSJUMP"}); }
            p.add("TICK"); p.add("TICK"); p.add("ADVANCE", {fmt("%ld", n(301, 400) * 1000000L)}); p.add("TICK"); p.add("TICK"); g.op(c, "NSJUMP"); p.add("BACKUP", {"0"}); cyc = 1;
        }
        for (int k = 0; k < cyc; k++) {
            if (ch(0.45)) p.add("HOOKMODE", {modes[n(0, 10)], fmt("%d", n(0, 20))});
            if (ch(0.08)) p.add("FAULT", {"fork", "-", fmt("%d", n(0, 6)), fmt("%d", n(1, 3)), "EAGAIN"});
            g.mix(n(2, g.nops), w);
            if (ch(0.25)) p.add("REAP");
            if (ch(0.1)) { p.add("ADVANCE", {fmt("%ld", n(250, 400) * 1000000L)}); p.add("REAP"); }
            if (ch(0.7)) p.add("BACKUP", {ch(0.5) ? "1" : "0"});
            if (ch(0.25)) { if (ch(0.7)) g.restart(ch(0.7) ? "clean" : "kill"); else { g.crash_point(false); g.mix(n(1, 8), w); p.add("RESTART", {"kill", "-1"}); p.add("VERIFY", {"gix"}); } g.sessions(); }
        }
        p.add("CLEAR"); p.add("BACKUP", {"0"}); p.add("VERIFY", {"gisx"});
    } else if (prop == "C19") {
        g.basic(0.35, 0.1); g.ncl = n(1, 3); g.cfg("timers", 1); bool sized = ch(0.12); if (!sized) p.cfg.erase("datasize"); else g.cfg("datasize", n(200, 3000)); g.vmax = n(4, 150); if (ch(0.35)) g.cfg("pipe", 1);
        int R = 0, N = 0; if (ch(0.75)) R = ch(0.5) ? n(1, 8) : n(1, 90); if (!R || ch(0.5)) N = ch(0.5) ? n(1, 5) : n(1, 60);
        if (R) g.cfg("rotate", R); if (N) g.cfg("synctime", N);
        int unit = std::max(1, ch(0.5) && R ? R : N ? N : R);
        g.auth(0); g.namespaces(n(0, 3), 0.5, 0.1); g.sessions(); p.add("BARRIER");
        W w = {{"SET", 14}, {"UPD", 14}, {"NEW", 6}, {"GET", 6}, {"DEL", 10}, {"EXISTS", 3}, {"HISTORY", 1}, {"SCAN", 2}, {"DBSIZE", 1}, {"NSINFO", 1}, {"SELECT", 3}, {"PING", 2}};
        auto adv = [&](int64_t lo, int64_t hi) { p.add("ADVANCE", {fmt("%ld", (long) (lo + (int64_t) r.below(std::max<int64_t>(1, hi - lo))))}); };
        int cyc = n(3, 9); bool steady = ch(0.12);
        for (int k = 0; k < cyc; k++) {
            switch (n(0, 9)) {
            case 0: case 1: g.mix(n(1, 8), w); adv(0, 2200000LL * unit); break;                               // some requests, then silence
            case 2: case 3: for (int i = n(2, 10); i-- > 0;) { g.mix(n(1, 2), w); adv(0, 1300000LL * unit); } break;
            case 4: adv(500000LL * unit, 3000000LL * unit); break;                                            // only silence
            case 5: { int c = n(0, g.ncl - 1); for (int i = n(1, 6); i-- > 0;) { g.op(c, ch(0.6) ? "DEL" : "UPD"); adv(0, 2500000LL * unit); } break; }
            case 6: if (steady) { steady = false; int64_t gap = n(20, 190) * 1000; int cnt = std::min<int64_t>(600, (int64_t) (unit + 24) * 1000000 / gap + n(0, 60)); // never idle
                    static const char *idle[] = {"PING", "GET", "EXISTS"}; double wr = ch(0.5) ? 0.05 : 0.5;
                    if (ch(0.35)) { p.add("RAW", {"20", lit("*3\r\n$3\r\nSET\r\n$1\r\nk\r\n$5000\r\n")}); for (int i = 0; i < cnt; i++) { if (i && ch(0.02)) g.op(n(0, g.ncl - 1), ch(wr) ? "UPD" : "GET"); p.add("RAW", {"20", "s:x"}); p.add("ADVANCE", {fmt("%ld", (long) gap)}); } p.add("CLOSE", {"20"}); break; } // one long request, byte by byte
                    for (int i = 0; i < cnt; i++) { int c = n(0, g.ncl - 1); g.op(c, ch(wr) ? "UPD" : idle[n(0, 2)]); p.add("ADVANCE", {fmt("%ld", (long) gap)}); } break; }
                    // fall through
            case 7: { p.add("BARRIER"); int c = n(0, g.ncl - 1); int x = n(0, 9); if (x < 3) g.op(c, "NSJUMP"); else if (x < 5) g.op(c, "RELOAD"); else if (x < 6) g.op(c, "FLUSH"); else if (x < 7) g.op(c, "NSNEW"); else if (x < 8) g.op(c, "NSDEL"); else if (ch(0.5)) g.mix(2, w); else { g.mix(n(0, 2), w); g.C(0, {"s:NSSET", lit(g.ns[r.below(g.ns.size())]), ch(0.5) ? "s:lock" : "s:freeze", ch(0.8) ? "s:1" : "s:0"}); } p.add("BARRIER"); break; }
            case 8: if (ch(0.4)) p.add("JUMP", {fmt("%d", ch(0.7) ? n(1, 3 * unit) : -n(1, 3 * unit))}); g.mix(n(1, 5), w); break;
            default: g.mix(n(2, g.nops), w); }
            if (ch(0.12)) { p.add("BARRIER"); g.restart(ch(0.7) ? "clean" : "kill"); g.sessions(); p.add("BARRIER"); }
        }
        adv(1100000LL * unit, 2200000LL * unit); adv(22000000, 30000000); p.add("VERIFY", {"gisxh"});
    } else if (prop == "C21") {
        g.basic(0.4, 0.2); g.ncl = n(1, 4); g.cfg("mirrorok", 1); if (ch(0.6)) g.cfg("pipe", 1); if (ch(0.4)) g.cfg("frag", 1); if (ch(0.4)) g.cfg("sockbuf", n(0, 2) ? n(50, 3000) : n(3000, 200000)); if (ch(0.3)) g.cfg("fragsend", n(1, 3000));
        if (ch(0.4)) { p.cfg["admin"] = "adm"; g.hasadmin = true; } if (ch(0.2)) g.big = 9000;
        auto mirror = [&](int c) { if (ch(0.8)) p.add("OPEN", {fmt("%d", c)}); if (g.hasadmin) g.C(c, {"s:AUTH", "s:adm"}); g.C(c, {"s:MIRROR"}); if (ch(0.3)) p.add("SLOW", {fmt("%d", c), "1"}); };
        bool early = ch(0.85); if (early) { mirror(40); if (ch(0.7)) p.add("BARRIER"); }
        g.auth(0); g.namespaces(n(0, 3), 0.5, 0.3); g.sessions();
        W w = {{"SET", 18}, {"UPD", 10}, {"NEW", 8}, {"DEL", 8}, {"GET", 4}, {"EXISTS", 1}, {"SELECT", 3}, {"PING", 2}, {"NSINFO", 1}, {"SCAN", 1}, {"CLOSE", 1}, {"BARRIER", 2}, {"TURN", 4}, {"NSSET", 4}, {"NSNEW", 2}, {"NSDEL", 1}, {"FLUSH", 1}, {"NSJUMP", 1}, {"TIME", 1}, {"MIR", 3}};
        bool restarts = ch(0.15); std::vector<int> mirs; int nm = 41;
        for (int i = 0; i < g.nops; i++) {
            Str o = g.pick(w); int c = n(0, g.ncl - 1);
            if (o == "TURN") p.add("TURN", {fmt("%d", n(1, 30))});
            else if (o == "NSSET") g.op(0, "NSSET");
            else if (o == "MIR") { int x = n(0, 9);
                if (x < 4 && mirs.size() < 4) { mirs.push_back(nm); mirror(nm++); }
                else if (mirs.size()) { int m = mirs[n(0, (int) mirs.size() - 1)]; if (x < 7) p.add("SLOW", {fmt("%d", m), ch(0.5) ? "1" : "0"}); else { p.add(ch(0.5) ? "RESET" : "CLOSE", {fmt("%d", m)}); mirs.erase(std::find(mirs.begin(), mirs.end(), m)); } } }
            else g.op(c, o);
            if (restarts && ch(0.02)) { p.add("BARRIER"); g.restart(ch(0.5) ? "clean" : "kill"); g.sessions(); mirs.clear(); }
        }
        if (ch(0.5)) p.add("VERIFY", {"gi"});
        p.add("REPLICA", {fmt("%ld", (long) r.below(1000000))});
        if (early && ch(0.4)) { g.sessions(); g.mix(n(1, 20), {{"SET", 10}, {"UPD", 6}, {"DEL", 4}, {"GET", 4}, {"SELECT", 1}}); p.add("VERIFY", {"gisx"}); if (ch(0.5)) { g.restart(ch(0.5) ? "clean" : "kill"); p.add("VERIFY", {"gisx"}); } }
    } else if (prop == "C12") {
        g.basic(0.25, 0.3); g.ncl = n(2, 5); g.cfg("pipe", 1); g.cfg("frag", 1); if (ch(0.5)) g.cfg("sockbuf", n(0, 2) ? n(1, 3000) : n(3000, 200000)); if (ch(0.3)) g.cfg("fragsend", n(1, 3000));
        g.big = ch(0.5) ? 70000 : 9000; if (ch(0.05)) g.big = 2000000;
        g.auth(0); g.namespaces(n(0, 2), 0.4, 0.0); g.sessions();
        for (int c = 0; c < g.ncl; c++) if (ch(0.4)) p.add("SLOW", {fmt("%d", c), "1"});
        if (seed % 10 == 3) { static const char *er[] = {"EMFILE", "EINTR", "ENOMEM"}; for (int i = n(1, 3); i > 0; i--) { p.add("FAULT", {"accept", "-", fmt("%d", n(0, 3)), fmt("%d", n(1, 4)), er[n(0, 2)], "-1"}); g.op(n(0, g.ncl - 1), "CLOSE"); } }   // connections that cannot be accepted at once
        W w = plus(RW, {{"PING", 8}, {"CLOSE", 3}, {"BARRIER", 1}, {"TURN", 6}, {"SELECT", 1}, {"NSLIST", 1}, {"SLOW", 1}, {"STORM", 1}, {"TIME", 1}});
        for (int i = 0; i < g.nops; i++) { Str o = g.pick(w); int c = n(0, g.ncl - 1); if (o == "TURN") p.add("TURN", {fmt("%d", n(1, 30))}); else if (o == "SLOW") p.add("SLOW", {fmt("%d", c), ch(0.5) ? "1" : "0"}); else if (o == "STORM") { int m = n(5, 60); for (int k = 0; k < m; k++) g.op(c, g.pick(W{{"PING", 4}, {"GET", 4}, {"SET", 2}})); } else g.op(c, o); }
        p.add("VERIFY", {"gi"});
    } else if (prop == "C13") {
        int fl = n(0, 19);
        if (fl < 4) { static const char *o[] = {"C01", "C04", "C06", "C07", "C08", "C09", "C10", "C12", "C20", "C05"}; return generate(o[n(0, 9)], r.next(), thorough); }
        bool lax = fl < 8, raw = fl < 15;
        g.basic(0.25, 0.2); g.ncl = n(1, 3); if (!raw) g.ncl = n(2, 3); if (ch(0.5)) { g.cfg("pipe", 1); if (ch(0.7)) g.cfg("frag", 1); } if (ch(0.2)) g.cfg("sockbuf", n(1, 5000));
        if (raw && !lax) { p.cfg["admin"] = "adm1n-strong"; g.hasadmin = true; g.cfg("protect", 1); g.pass["default"] = "adm1n-strong"; }
        if (lax) g.cfg("lax", 1);
        g.auth(0); g.namespaces(n(0, 2), 0.4, raw && !lax ? 1.0 : 0.1); g.sessions();
        if (raw && !lax) { for (int c = 0; c < g.ncl; c++) { if (c) g.adm[c] = false; g.select(c, g.cns[c]); } }
        g.mix(n(0, 12), {{"SET", 10}, {"UPD", 4}, {"DEL", 1}, {"NSJUMP", 1}});
        int R = 20, nr = n(1, 3);
        for (int i = 0; i < g.nops; i++) {
            int x = n(0, 9);
            if (raw && x < 6) {
                int c = R + n(0, nr - 1); if (lax && ch(0.1)) c = n(0, g.ncl - 1) + 30; std::vector<Str> a = {fmt("%d", c)}; int k = ch(0.5) ? 1 : n(1, 12);
                for (int q = 0; q < k; q++) { auto b = g.bent(); a.insert(a.end(), b.begin(), b.end()); }
                // never the command that ends the server
                for (auto &y : a) if (y.compare(0, 2, "s:") == 0) for (size_t q = 2; q + 1 < y.size(); q++) if (toupper(y[q]) == 'S' && toupper(y[q + 1]) == 'T') y[q + 1] = 'X';
                p.add("RAW", a);
                if (ch(0.25)) p.add(ch(0.5) ? "CLOSE" : "RESET", {fmt("%d", c)}); else if (ch(0.05)) p.add("SLOW", {fmt("%d", c), "1"});
            } else if (!raw && x < 7) { auto a = g.hostile_cmd(); Str u = a[0]; if (u == "s:WAIT" || u == "s:NSDEL" || u == "s:FLUSH") { if (ch(0.5)) continue; } if (u == "s:WAIT") { a.resize(std::min<size_t>(a.size(), 2)); if (a.size() == 2) continue; } g.C(n(0, g.ncl - 1), a); }
            else if (lax) g.C(n(0, g.ncl - 1), {ch(0.5) ? "s:PING" : "s:TIME"});
            else g.op(n(0, g.ncl - 1), g.pick(RW));
        }
        if (!lax) p.add("VERIFY", {"gisxh"});
        g.restart(ch(0.5) ? "clean" : "kill"); if (!lax) p.add("VERIFY", {"gisxh"}); else for (int c = 0; c < g.ncl; c++) g.C(c, {"s:PING"});
    } else if (prop == "C14") {
        g.basic(0.25, 0.3); g.ncl = n(2, 6); if (ch(0.75)) { g.cfg("pipe", 1); if (ch(0.5)) g.cfg("frag", 1); } if (ch(0.5)) g.cfg("sysus", n(1, 3000));
        g.auth(0); g.namespaces(n(0, 2), 0.3, 0.2); g.sessions();
        if (ch(0.5)) { for (int c = 0; c < g.ncl; c++) g.select(c, g.ns[r.below(2) % g.ns.size()]); }
        static const char *cmds[] = {"*", "*", "SET", "SET", "SET", "DEL", "GET", "PING", "SETX", "NSINFO", "MGET", "SCAN", "WAIT", "TIME", "EXISTS", "NSJUMP", "set", "FLUSH", "NSLIST", "STOP"};
        W w = {{"WAIT", 10}, {"SET", 10}, {"GET", 4}, {"DEL", 2}, {"PING", 3}, {"MGET", 1}, {"SCAN", 1}, {"NSINFO", 1}, {"NSJUMP", 1}, {"EXISTS", 1}, {"SELECT", 2}, {"CLOSE", 2}, {"NSDEL", 1}, {"NSNEW", 1}, {"FLUSH", 1}, {"TIME", 1}, {"ADV", 5}, {"JUMP", 2}, {"TURN", 3}, {"BARRIER", 2}, {"STORM", 1}, {"LOCK", 1}, {"RELOAD", 1}, {"TICK", 1}, {"RESTART", 0}};
        int quiet = ch(0.3) ? n(1, 2) : 0; // clients that mostly wait
        g.nops = n(15, 90);
        for (int i = 0; i < g.nops; i++) {
            Str o = g.pick(w); int c = n(0, g.ncl - 1);
            if (o == "WAIT") { if (quiet) c = n(0, quiet); std::vector<Str> a = {ch(0.95) ? "s:WAIT" : "s:wait", Str("s:") + cmds[n(0, 18)]}; if (ch(0.8)) a.push_back(fmt("s:%d", ch(0.6) ? n(100, 900) : ch(0.7) ? n(100, 20000) : ch(0.5) ? n(20000, 1800000) : n(0, 110))); g.C(c, a); }
            else if (o == "ADV") p.add("ADVANCE", {fmt("%ld", (long) (ch(0.6) ? n(1000, 900000) : ch(0.8) ? n(1, 30) * 1000000L : n(60, 2000) * 1000000L)), ch(0.4) ? "1" : "0"});
            else if (o == "JUMP") p.add("JUMP", {fmt("%d", ch(0.5) ? n(-10, 10) : n(-100000, 100000))});
            else if (o == "TURN") p.add("TURN", {fmt("%d", n(1, 20))});
            else if (o == "TICK") p.add("TICK", {fmt("%d", n(1, 3))});
            else if (o == "STORM") { int m = n(20, 130), d = ch(0.5) ? n(1, 190) * 1000 : 0; for (int k = 0; k < m; k++) { g.op(c, g.pick(W{{"PING", 6}, {"GET", 2}})); if (d) p.add("ADVANCE", {fmt("%d", d), "1"}); else if (ch(0.2)) p.add("BARRIER"); } }
            else g.op(c, o);
        }
        if (ch(0.7)) p.add("ADVANCE", {"3000000"});
        if (ch(0.3)) { g.restart("clean"); p.add("VERIFY", {"gi"}); }
    } else if (prop == "C15") {
        g.basic(0.25, 0.0); g.ncl = n(1, 2); if (ch(0.6)) g.cfg("datasize", n(200, 1500)); if (ch(0.2)) g.cfg("sync", 1);
        g.auth(0); g.namespaces(n(0, 2), 0.5, 0.0); g.sessions();
        W w = plus(RW, {{"UPD", 12}, {"NSJUMP", 4}, {"RELOAD", 2}, {"SELECT", 2}, {"LOCK", 1}, {"FLUSH", 1}});
        int cyc = n(1, 4);
        for (int k = 0; k < cyc; k++) {
            g.mix(n(3, g.nops / 2 + 3), w); if (ch(0.3)) p.add("FAULT", {ch(0.6) ? "write" : "read+open", ch(0.5) ? "-" : "data", fmt("%d", n(0, 8)), "1", "EIO", fmt("%d", ch(0.5) ? n(0, 40) : -1)});
            if (ch(0.6)) g.crash_point(false); W wf = w; wf.erase("RELOAD"); wf.erase("FLUSH"); g.mix(n(1, 8), wf); p.add("CLEAR"); p.add("RESTART", {ch(0.5) ? "kill" : "stop", "-1", fmt("%d", ch(0.2) ? n(0, 60) : -1)}); p.add("DATACHECK"); g.sessions();
        }
        g.mix(n(2, 10), w); p.add("DATACHECK", {"raw"});
    } else if (prop == "C16") {
        g.basic(0.35, 0.0); if (p.cfg.count("mode") && ch(0.7)) p.cfg["mode"] = "user"; g.ncl = n(1, 3); if (ch(0.6)) g.cfg("datasize", n(200, 1500)); if (ch(0.3)) { g.cfg("pipe", 1); if (ch(0.3)) g.cfg("frag", 1); } if (ch(0.1)) p.cfg["hook"] = "/hook";
        g.auth(0); g.namespaces(n(0, 2), 0.3, 0.0); g.sessions();
        W w = plus(RW, {{"UPD", 12}, {"NSJUMP", 3}, {"RELOAD", 1}, {"SELECT", 2}, {"LOCK", 1}, {"NSSET", 1}});
        int cyc = n(1, 5);
        for (int k = 0; k < cyc; k++) {
            g.mix(n(3, g.nops / 2 + 3), w); bool flt = ch(0.35); if (flt) p.add("BARRIER");
            if (flt) p.add("FAULT", {ch(0.6) ? "write" : ch(0.5) ? "read+open" : "fsync+create", ch(0.5) ? "-" : ch(0.5) ? "data" : "index", fmt("%d", n(0, 10)), "1", ch(0.3) ? "ENOSPC" : "EIO", fmt("%d", ch(0.5) ? n(0, 40) : -1)});
            else if (ch(0.6)) g.crash_point(false);
            W wf = w; wf.erase("RELOAD"); g.mix(n(1, 12), wf); p.add("CLEAR"); if (flt && ch(0.5)) p.add("DATACHECK");
            if (ch(0.5)) { p.add("RESTART", {"kill", "-1", fmt("%d", ch(0.2) ? n(0, 60) : -1)}); p.add("DATACHECK"); g.sessions(); g.mix(n(0, 4), w); }
            for (auto &x : g.ns) if (ch(0.8)) { if (ch(0.2)) p.add("REBUILD", {lit(x), ch(0.5) ? "write" : ch(0.5) ? "read" : "open", fmt("%d", n(0, 30)), ch(0.5) ? "-1" : fmt("%d", n(0, 40))}); else p.add("REBUILD", {lit(x)}); }
            p.add("RESTART", {ch(0.5) ? "kill" : "stop", "-1", "-1"}); p.add("DATACHECK", {"raw"}); p.add("VERIFY", {"gisx"}); g.sessions();
        }
        g.mix(n(2, 10), w); p.add("DATACHECK", {"raw"}); p.add("VERIFY", {"gisxh"});
    } else if (prop == "C20") {
        g.basic(0.2, 0.1); g.ncl = n(1, 2); if (ch(0.5)) { p.cfg["admin"] = "adm"; g.hasadmin = true; } g.auth(0); g.namespaces(n(1, 3), 0.4, 0.5); g.sessions();
        W w = {{"NSSET", 30}, {"NSNEW", 6}, {"NSDEL", 4}, {"NSINFO", 6}, {"SET", 6}, {"SELECT", 4}, {"NSLIST", 2}, {"RELOAD", 2}, {"FLUSH", 2}};
        int cyc = n(1, 4);
        for (int k = 0; k < cyc; k++) {
            g.mix(n(2, g.nops / 2 + 3), w); int how = n(0, 4);
            if (how > 1) g.crash_point(false); g.mix(n(1, 8), w);
            if (how == 0) g.restart("clean"); else p.add("RESTART", {"kill", "-1", fmt("%d", ch(0.3) ? n(0, 60) : -1)});
            if (ch(0.4)) g.badstart(ch(0.7) ? "desc" : "any");
            p.add("VERIFY", {"gi"}); g.sessions();
        }
        p.add("VERIFY", {"gi"});
    } else if (prop == "C26") {
        g.basic(0.3, 0.0); g.ncl = n(1, 3); if (ch(0.5)) { p.cfg["admin"] = "adm"; g.hasadmin = true; } if (ch(0.6)) g.cfg("datasize", n(100, 1500)); if (ch(0.2)) g.cfg("pipe", 1);
        g.auth(0); g.namespaces(n(0, 3), 0.5, 0.2); g.sessions();
        W w = plus(RW, {{"UPD", 14}, {"NSJUMP", 4}, {"NEW", 6}, {"SELECT", 3}, {"NSSET", 2}, {"NSNEW", 1}, {"NSDEL", 1}, {"FLUSH", 1}, {"ADVANCE", 1}});
        int cyc = n(1, 4);
        for (int k = 0; k < cyc; k++) {
            g.mix(n(3, g.nops), w); if (ch(0.3)) { g.crash_point(false); g.mix(n(1, 8), w); p.add("RESTART", {"kill", "-1", "-1"}); if (ch(0.5)) p.add("VERIFY", {"gi"}); g.sessions(); g.mix(n(0, 5), w); }
            p.add("BARRIER"); int m = n(1, 3);
            while (m-- > 0) { Str x = lit(g.ns[r.below(g.ns.size())]); int t = n(0, 11);
                if (t < 5) { if (ch(0.2)) p.add("COMPACT", {x, ch(0.6) ? "write" : ch(0.5) ? "read" : "open", fmt("%d", n(0, 30)), ch(0.5) ? "-1" : fmt("%d", n(0, 40))}); else p.add("COMPACT", {x}); }
                else if (t < 7) p.add("ICHECK", {x});
                else if (t < 9) { bool f = ch(0.3), h = ch(0.25); p.add("DUMP", {x, f ? ch(0.8) ? "read" : "open" : "", fmt("%d", ch(0.5) ? n(0, 5) : n(0, 60)), h ? ch(0.7) ? "read" : "open" : "", fmt("%d", n(0, 3))}); }
                else if (x != "s:default") { bool pw = ch(0.5); Str pass = fmt("np%d", n(0, 99)); p.add("NSEDIT", {x, pw ? "s:" + pass : Str("-"), ch(0.4) ? "-" : fmt("%d", ch(0.5) ? n(1, 5000) : n(100000, 2000000000)), ch(0.4) ? "-" : ch(0.5) ? "yes" : "no", ch(0.5) ? "-" : ch(0.5) ? "yes" : "no", ch(0.3) ? fmt("%d", ch(0.4) ? n(0, 30) : 1000 * n(1, 80) + n(0, 3)) : "-1", ch(0.15) ? "write" : ch(0.1) ? "open+create" : ch(0.1) ? "rename" : "", fmt("%d", n(0, 3))}); if (pw) g.pass[x.substr(2)] = pass; else g.pass.erase(x.substr(2)); }
            }
            p.add("RESTART", {ch(0.6) ? "stop" : ch(0.5) ? "kill" : "term", "-1", "-1"}); p.add("VERIFY", {"gisxh"}); g.sessions();
        }
        g.mix(n(2, 12), w); if (ch(0.4)) g.restart("clean"); p.add("VERIFY", {"gisxh"});
    } else if (prop == "C27") {
        g.basic(0.2, 0.2); g.ncl = n(1, 3); bool repl = ch(0.4); if (repl && p.cfg["mode"] == "seq") p.cfg["mode"] = "user"; bool seq = p.cfg["mode"] == "seq"; if (p.cfg["mode"].empty()) p.cfg.erase("mode");
        if (ch(0.2)) g.cfg("frag", 1); if (ch(0.2)) g.cfg("sockbuf", n(50, 20000)); if (ch(0.3)) g.big = 20000;
        if (ch(0.3)) { g.namespaces(n(1, 2), 0.5, 0.2); g.sessions(); }
        W w = {{"SET", 14}, {"UPD", 8}, {"NEW", 6}, {"DEL", 5}, {"GET", 2}, {"NSJUMP", 1}, {"SELECT", 1}, {"SCAN", 1}};
        int rounds = n(1, 3); bool idle = ch(0.3);
        for (int k = 0; k < rounds; k++) {
            if (ch(0.9)) g.mix(n(0, ch(0.3) ? 3 * g.nops : g.nops), w);
            if (!k && ch(0.1)) { if (ch(0.6)) { g.cfg("tickus", n(1, 4)); p.cfg.erase("sysus"); } for (int i = n(100, 420); i > 0; i--) p.add("C", {"0", "s:SET", seq ? Str("s:") : fmt("s:many%d", i), "v:3:1"}); }
            bool cont = k && ch(0.5); int x = n(0, 19); bool hurt = ch(0.4);
            p.add("SYNC", {repl ? "repl" : "sync", seq ? (x < 6 ? "seq" : "user") : x < 1 ? "seq" : "user", x == 2 ? fmt("%d", n(1, 600)) : "-", x == 3 ? "1" : "0", fmt("%d", ch(0.5) ? n(1, 20) : 0), cont ? "1" : "0"});
            if (hurt && ch(0.5)) { int t = n(0, 9); int f = n(0, 9); if (t < 3) p.add("FAULT", {"read", ch(0.7) ? "data" : "index", fmt("%d", n(0, 30)), "1", "EIO", ch(0.5) ? "-1" : fmt("%d", n(0, 20))}); else if (t < 6) p.add("FAULT", {"write", ch(0.7) ? "data" : "index", fmt("%d", n(0, 30)), fmt("%d", n(1, 5)), f < 5 ? "ENOSPC" : "EIO", ch(0.5) ? "-1" : fmt("%d", n(0, 20))}); else if (t < 8) p.add("FAULT", {"open", "data", fmt("%d", n(0, 6)), "1", "EMFILE"}); }
            int m = idle ? n(0, 3) : n(0, 40), at = hurt && ch(0.4) ? n(0, m) : -1; int fz = seed % 8 == 3 ? n(0, std::min(m, 8)) : -1, th = fz < 0 ? -1 : fz + n(1, 6);
            for (int i = 0; i < m; i++) { if (i == fz || i == th) g.C(0, {"s:NSSET", "s:default", "s:freeze", i == fz ? "s:1" : "s:0"}); if (i == at) { int t = n(0, 8); if (t < 2) p.add("SYNCKILL", {"tool"}); else if (t < 4) p.add("SYNCKILL", {"target"}); else if (t < 7) p.add("SYNCKILL", {fmt("conn%d", n(0, 2))}); else { g.restart(ch(0.5) ? "clean" : "kill"); g.sessions(); } } if (idle) p.add("TICK", {"1"}); else if (ch(0.1)) p.add("ADVANCE", {fmt("%d", n(1000, 3000000))}); else g.mix(1, w); }
            p.add("SYNCEND"); p.add("CLEAR"); if (fz >= 0) g.C(0, {"s:NSSET", "s:default", "s:freeze", "s:0"});
        }
        g.mix(n(0, 5), w); p.add("VERIFY", {"gi"});
    } else if (prop == "C28") { // the same things again and again
        g.basic(0.3, 0.2); g.ncl = n(1, 4); bool lax = ch(0.25); if (ch(0.4)) { g.cfg("pipe", 1); if (ch(0.5)) g.cfg("frag", 1); } if (ch(0.3)) { p.cfg["admin"] = "adm"; g.hasadmin = true; } if (ch(0.2)) g.cfg("sockbuf", n(50, 20000)); if (ch(0.2)) g.cfg("sync", 1);
        g.cfg("mirrorok", 1); if (lax) g.cfg("lax", 1); bool hook = ch(0.3); if (hook) { p.cfg["hook"] = "/hook"; if (!lax) g.cfg("hookst", 1); if (ch(0.3)) g.cfg("hookms", n(1, 3000)); } if (ch(0.15)) g.cfg("rotate", n(1, 20)); if (ch(0.4)) g.big = 20000;
        g.auth(0); g.namespaces(n(0, 3), 0.5, 0.3); std::vector<Str> fixed; for (auto &x : g.ns) fixed.push_back(lit(x)); auto ns0 = g.ns; auto seq0 = g.seq; auto pass0 = g.pass;
        g.sessions(); g.mix(n(0, 15), {{"SET", 10}, {"NEW", 4}, {"NSJUMP", 1}, {"DEL", 1}});
        for (auto &x : fixed) for (int i = n(0, 1); i > 0; i--) { g.C(0, {"s:SELECT", x}); for (auto &k : g.keys) g.C(0, {"s:SET", lit(k), "v:5:1"}); }
        if (hook && !lax && ch(0.3)) { p.add("BARRIER"); p.add("HOOKMODE", {"z", "0"}); g.C(0, {"s:NSSET", "s:default", "s:worm", "s:1"}); g.C(0, {"s:NSSET", "s:default", "s:lock", "s:1"}); p.add("BARRIER"); p.add("HOOKMODE", {"r", "0"}); }
        bool lng = seed % 12 == 5; p.add("BARRIER"); p.add("LOOP", {fmt("%d", lng ? n(40, 72) : n(6, 9))});
        g.ns = ns0; g.seq = seq0; g.pass = pass0; for (auto &x : pass0) { g.C(0, {"s:NSSET", lit(x.first), "s:password", lit(x.second)}); g.C(0, {"s:NSSET", lit(x.first), "s:public", "s:0"}); } g.sessions();
        W w = plus(RW, {{"UPD", 8}, {"NEW", 3}, {"NSJUMP", 2}, {"RELOAD", 3}, {"FLUSH", 2}, {"NSDEL", 3}, {"NSNEW", 3}, {"NSSET", 4}, {"LOCK", 1}, {"SELECT", 4}, {"CLOSE", 4}, {"NSLIST", 1}, {"WALK", 1}, {"ADVANCE", 2}, {"BARRIER", 1}, {"TIME", 1}, {"WAITX", 4}, {"MIRRORX", 2}, {"AUTHX", 4}, {"INFOX", 4}, {"HOSTILE", 12}, {"RAWX", 6}, {"SLOWX", 2}, {"MASTERX", 2}, {"FAULTNS", 4}, {"FAULTRD", 4}, {"FAULTX", 5}, {"HOOKX", 1}});
        // few kinds of requests per run, so that a leak of one is not hidden by what another leaves behind
        { W few; for (int i = n(1, 8); i > 0; i--) { Str k = g.pick(w); few[k] = w[k]; } if (ch(0.8)) few["SET"] = 10; w = few; }
        static const char *kinds[] = {"write", "write", "read", "open", "create", "mkdir+rename+unlink", "fsync", "fsync", "read+open", "read", "unlink", "lock"}; static const char *errs[] = {"EIO", "ENOSPC", "EMFILE", "EACCES"};
        bool mem = ch(0.1); static const char *info[] = {"INDEX INFO", "DATA INFO", "INFO", "DATA EXISTS", "INDEX DIRTY", "INDEX DIRTY RESET", "HOOKS", "PING", "TIME", "COMMAND", "NSLIST", "DATA EXISTS 0", "DATA RAW 0 26", "INDEX EXISTS 0"};
        auto few = [&](int lo, int hi) { for (int m = n(lo, hi); m > 0; m--) { Str o = g.pick(w); int c = n(0, g.ncl - 1);
            if (o == "WAITX") g.C(c, {"s:WAIT", ch(0.5) ? "s:SET" : "s:*", fmt("s:%d", n(100, 3000))});
            else if (o == "MIRRORX") { p.add("CLOSE", {"40"}); p.add("OPEN", {"40"}); if (g.hasadmin) g.C(40, {"s:AUTH", "s:adm"}); g.C(40, {"s:MIRROR"}); if (ch(0.5)) p.add("SLOW", {"40", "1"}); }
            else if (o == "AUTHX") { int x = n(0, 5); if (x < 2) g.C(c, {"s:AUTH", ch(0.5) ? "s:adm" : "s:bad"}); else if (x < 4) { g.C(c, {"s:AUTH", "s:SECURE", "s:CHALLENGE"}); if (ch(0.6)) g.C(c, {"s:AUTH", "s:SECURE", ch(0.5) ? "a:adm" : "a:bad"}); } else { g.C(c, {"s:AUTH", "s:SECURE", "s:CHALLENGE"}); g.C(c, {"s:SELECT", fixed[r.below(fixed.size())], "s:SECURE", "a:pw"}); } }
            else if (o == "INFOX") { std::vector<Str> a; Str t = info[n(0, 13)]; size_t q; while ((q = t.find(' ')) != Str::npos) { a.push_back("s:" + t.substr(0, q)); t = t.substr(q + 1); } a.push_back("s:" + t); g.C(c, a); }
            else if (o == "HOSTILE") { auto a = g.hostile_cmd(); if (a[0] == "s:WAIT" || (!lax && (a[0] == "s:NSDEL" || a[0] == "s:FLUSH" || a[0] == "s:NSSET"))) continue; g.C(c, a); }
            else if (o == "RAWX") { std::vector<Str> a = {fmt("%d", 20 + n(0, 2))}; for (int k = n(1, 4); k > 0; k--) { auto b = g.bent(); a.insert(a.end(), b.begin(), b.end()); }
                for (auto &y : a) if (y.compare(0, 2, "s:") == 0) for (size_t q = 2; q + 1 < y.size(); q++) if (toupper(y[q]) == 'S' && toupper(y[q + 1]) == 'T') y[q + 1] = 'X';
                if (!lax) { if (!g.hasadmin) continue; } p.add("RAW", a); if (ch(0.4)) p.add(ch(0.5) ? "CLOSE" : "RESET", {a[0]}); }
            else if (o == "SLOWX") p.add("SLOW", {fmt("%d", c), "1"});
            else if (o == "FAULTX") { if (ch(0.2)) p.add("DISK", {fmt("%d", n(0, 600))}); else p.add("FAULT", {kinds[n(0, 11)], ch(0.6) ? "-" : ch(0.4) ? "data" : ch(0.5) ? "index" : "desc", fmt("%d", n(0, 8)), fmt("%d", n(1, 2)), errs[n(0, 3)], ch(0.3) ? fmt("%d", n(0, 30)) : Str("-1")}); }
            else if (o == "MASTERX") { std::vector<Str> a = {"41"}; auto put = [&](std::vector<Str> q) { a.push_back(lit(fmt("*%zu\r\n", q.size()))); for (auto &x : q) { a.push_back(lit(fmt("$%zu\r\n", x.size()))); a.push_back(lit(x)); a.push_back(lit("\r\n")); } };
                if (g.hasadmin) put({"AUTH", "adm"}); put({"MASTER"}); for (int i = n(1, 4); i > 0; i--) switch (n(0, 5)) { case 0: case 1: put({"SET", g.keys[r.below(g.keys.size())], "forwarded", "1000", fmt("%d", n(1, 99999))}); break; case 2: put({"DEL", g.keys[r.below(g.keys.size())], "1000", "77"}); break; case 3: put({"PING", "5"}); break; case 4: put({"NSNEW", "x1", "12345678901234567890"}); break; default: put({"SET", "a"}); }
                p.add("RAW", a); if (ch(0.4)) p.add(ch(0.5) ? "CLOSE" : "RESET", {"41"}); }
            else if (o == "FAULTNS" || o == "FAULTRD") { bool nsx = o == "FAULTNS"; p.add("BARRIER"); static const char *pc[] = {"data", "index", "desc", "-"};
                p.add("FAULT", {mem && ch(0.3) ? "malloc" : nsx ? kinds[n(0, 11)] : ch(0.6) ? "read" : ch(0.5) ? "open" : "read+open", pc[n(nsx ? 0 : 0, nsx ? 3 : 1)], fmt("%d", n(0, nsx ? 4 : 2)), fmt("%d", ch(0.7) ? 1 : 2), errs[n(0, 3)], ch(0.2) ? fmt("%d", n(0, 30)) : Str("-1")});
                static const char *rd[] = {"GET", "SCAN", "RSCAN", "KEYCUR", "HISTORY", "EXISTS", "MGET", "CHECK", "UPD", "DEL", "KSCAN", "WALK"}; Str nm = fmt("x%d", n(0, 3));
                if (!nsx) { g.op(c, rd[n(0, 11)]); if (ch(0.5)) g.op(c, rd[n(0, 11)]); }
                else switch (n(0, 6)) { case 0: case 1: g.C(0, {"s:NSNEW", lit(nm)}); break; case 2: g.C(0, {"s:NSNEW", lit(nm)}); g.C(0, {"s:NSSET", lit(nm), "s:mode", ch(0.5) ? "s:seq" : "s:user"}); break; case 3: g.C(0, {"s:NSDEL", lit(nm)}); g.C(0, {"s:NSNEW", lit(nm)}); break; case 4: g.op(c, "NSJUMP"); break; case 5: g.op(0, "NSSET"); break; default: g.op(c, "FLUSH"); }
                p.add("BARRIER"); if (ch(0.7)) p.add("CLEAR"); }
            else if (o == "HOOKX") { if (!hook || lax) continue; if (ch(0.5)) { p.add("HIDE", {fixed[r.below(fixed.size())], fmt("%d", n(0, 50)), "1"}); continue; } static const char *modes[] = {"r", "f", "rf", "k", "s"}; p.add("HOOKMODE", {modes[n(0, 4)], "0"}); }
            else if (lax && o != "CLOSE" && o != "SELECT" && n(0, 1)) g.C(c, {"s:PING"});
            else g.op(c, o); } };
        few(lng ? 1 : 3, lng ? 8 : ch(0.3) ? 40 : 15);
        p.add("CLEAR"); if (hook && !lax) p.add("UNHIDE", {"-"}); { std::vector<Str> a = fixed; p.add("LEAK", a); }
        p.add("ENDLOOP");
    } else if (prop == "C30") { // the memory runs out
        g.basic(0.3, 0.1); g.ncl = n(1, 3); g.cfg("oom", 1); if (ch(0.25)) g.cfg("sync", 1); if (ch(0.5)) g.cfg("datasize", n(200, 1500)); if (ch(0.3)) { p.cfg["admin"] = "adm"; g.hasadmin = true; }
        if (ch(0.3)) { g.cfg("pipe", 1); if (ch(0.5)) g.cfg("frag", 1); if (ch(0.6)) g.cfg("sockbuf", n(0, 2) ? n(1, 600) : n(600, 20000)); if (ch(0.3)) g.cfg("fragsend", n(1, 600)); } // replies wait in memory
        g.auth(0); g.namespaces(n(0, 2), 0.5, 0.2); g.sessions(); g.mix(n(0, 15), {{"SET", 10}, {"UPD", 4}, {"DEL", 2}});
        if (p.num("sockbuf")) for (int c = 0; c < g.ncl; c++) if (ch(0.5)) p.add("SLOW", {fmt("%d", c), "1"});
        W w = plus(RW, {{"UPD", 12}, {"NEW", 6}, {"NSJUMP", 3}, {"NSNEW", 2}, {"NSDEL", 2}, {"NSSET", 3}, {"SELECT", 2}, {"CLOSE", 2}, {"FLUSH", 1}, {"RELOAD", 1}, {"NSLIST", 1}});
        for (int k = n(1, thorough ? 6 : 4); k > 0; k--) {
            g.mix(n(0, 8), w);
            for (int i = n(1, 3); i > 0; i--) { p.add("FAULT", {"malloc", "-", fmt("%d", ch(0.6) ? n(0, 12) : n(0, 120)), fmt("%d", ch(0.7) ? 1 : n(2, 20)), "ENOMEM", "-1"}); g.mix(n(1, 10), w); }
            p.add("CLEAR"); if (ch(0.4)) p.add("VERIFY", {"gisxh"});
            p.add("RESTART", {ch(0.6) ? "kill" : "stop"});
            p.add("VERIFY", {"gisxh"}); g.sessions();
        }
        g.mix(n(2, 8), w); p.add("VERIFY", {"gisxh"}); p.add("DATACHECK");
    } else if (prop == "C29") { // the file system of the index, of the data or of both becomes read-only, for some time
        g.basic(0.4, 0.1); g.ncl = n(1, 3); if (ch(0.25)) g.cfg("sync", 1); if (ch(0.6)) g.cfg("datasize", n(200, 1500)); if (ch(0.2)) { p.cfg["admin"] = "adm"; g.hasadmin = true; } if (ch(0.2)) g.cfg("rotate", n(1, 20)); if (ch(0.2)) g.cfg("synctime", n(1, 10));
        g.auth(0); g.namespaces(n(0, 3), 0.5, 0.2); g.sessions();
        W w = {{"SET", 20}, {"UPD", 16}, {"DEL", 10}, {"GET", 10}, {"SCAN", 2}, {"NSJUMP", 3}, {"SELECT", 3}, {"NSNEW", 1}, {"NSSET", 1}};
        W ro = {{"GET", 22}, {"MGET", 4}, {"EXISTS", 4}, {"CHECK", 4}, {"LENGTH", 3}, {"KEYTIME", 3}, {"HISTORY", 6}, {"SCAN", 6}, {"RSCAN", 5}, {"KEYCUR", 3}, {"KSCAN", 2}, {"NSINFO", 3}, {"DBSIZE", 2}, {"SELECT", 4}, {"SET", 8}, {"UPD", 8}, {"DEL", 7}, {"NSJUMP", 2}, {"NSSET", 2}, {"NSNEW", 2}, {"NSDEL", 1}, {"FLUSH", 1}, {"RELOAD", 3}, {"ADVANCE", 4}, {"WALK", 1}};
        static const char *part[] = {"id", "id", "i", "d"}; int cyc = n(1, 3);
        for (int k = 0; k < cyc; k++) {
            g.mix(n(2, g.nops), w); Str what = part[n(0, 3)];
            if (ch(0.3)) { p.add("RO", {what}); g.mix(n(1, 12), ro); if (ch(0.5)) p.add("VERIFY", {"gisxh"}); } // remounted under a running server
            else { if (ch(0.35)) { g.crash_point(false); g.mix(n(3, 20), w); g.restart("kill"); g.sessions(); g.mix(n(0, 6), w); } p.add("RO", {what, ch(0.5) ? "kill" : ch(0.5) ? "stop" : "term"}); g.sessions(); if (ch(0.6)) p.add("VERIFY", {"gisxh"}); }
            for (int q = n(0, 3); q-- > 0;) { g.mix(n(1, 12), ro); if (ch(0.5)) p.add("VERIFY", {"gisxh"}); if (ch(0.4)) { g.restart(ch(0.5) ? "kill" : "clean"); g.sessions(); } }
            if (ch(0.4)) { p.add("RO", {"-"}); g.mix(n(0, 6), ro); g.restart(ch(0.5) ? "kill" : "clean"); } else p.add("RO", {"-", ch(0.5) ? "kill" : "stop"}); // (until the restart, changes may still be refused)
            g.sessions(); p.add("VERIFY", {"gisxh"});
        }
        g.mix(n(0, 10), w); g.restart(ch(0.5) ? "kill" : "clean"); p.add("VERIFY", {"gisxh"});
    } else if (prop == "C23") {
        g.cfg("nostart", 1); g.cfg("bits", n(1, 4)); g.cfg("dirseed", n(0, 1000000)); g.cfg("tickus", n(1, 40)); if (ch(0.3)) { p.cfg["hook"] = "/hook"; g.cfg("hookms", n(0, 3) ? n(1, 3000) : 60000); }
        int nd = n(1, 2), ni = n(1, 2), ids = n(2, 4); double py = ch(0.3) ? 0.0 : ch(0.5) ? 0.3 : 0.8;
        auto spell = [&](const Str &d) { switch (n(0, 9)) { case 0: return d + "/"; case 1: return "/db/./" + d.substr(4); case 2: return "/" + d; case 3: return "/db/../db/" + d.substr(4); case 4: return "../" + d.substr(1); default: return d; } };
        auto y = [&](int m) { return ch(py) ? fmt("%d", n(0, m)) : Str("-1"); };
        int steps = n(6, thorough ? 60 : 30); std::map<Str, std::pair<Str, Str>> last;
        for (int k = 0; k < steps; k++) {
            Str id = fmt("%d", n(0, ids - 1)); int x = n(0, 19);
            if (x < 8) { Str d = fmt("/db/data%d", n(0, nd - 1)), i = ch(0.04) ? d : fmt("/db/index%d", n(0, ni - 1)); p.add("INST", {"START", id, d, i, spell(d), spell(i), y(45)}); last[id] = {d, i}; }
            else if (x < 12) p.add("INST", {"CONT", id, y(30)});
            else if (x < 14) p.add("INST", {"TRAFFIC", id, fmt("%d", n(0, 4)), fmt("%d", n(1, 100000))});
            else if (x < 19) { static const char *how[] = {"stop", "term", "int", "kill", "kill"}; Str yy = y(30); p.add("INST", {"END", id, how[n(0, 4)], yy});
                if (yy != "-1" && last.count(id) && ch(0.6)) { Str o = fmt("%d", (atoi(id.c_str()) + 1) % ids); if (ch(0.5)) p.add("INST", {"END", o, "kill", "-1"}); p.add("INST", {"START", o, last[id].first, last[id].second, spell(last[id].first), spell(last[id].second), y(45)}); p.add("INST", {"CONT", id, y(30)}); last[o] = last[id]; } }
            else p.add("INST", {ch(0.5) ? "ROUND" : "WAIT", id, fmt("%d", n(1, 5000000))});
        }
        p.add("INST", {"FINAL", fmt("%d", n(1000, 3000000))});
    } else if (prop == "C24") {
        g.basic(0.25, 0.1); g.ncl = n(1, 3); if (ch(0.4)) g.cfg("pipe", 1); if (ch(0.4)) p.cfg["hook"] = "/hook"; if (ch(0.3)) { p.cfg["admin"] = "adm"; g.hasadmin = true; }
        bool rot = ch(0.4); p.cfg.erase("datasize"); if (rot) { g.cfg("secure", 1); g.cfg("datasize", n(200, 1500)); } else if (ch(0.2)) g.cfg("secure", 1);
        g.auth(0); g.namespaces(n(0, 3), 0.5, 0.1); g.sessions();
        // files left by a rotation are flushed with --secure; marks set in such files later are not
        W w = {{"SET", 22}, {"UPD", 10}, {"DEL", 10}, {"NSNEW", 2}, {"NSSET", 3}, {"SELECT", 3}, {"GET", 2}, {"ADVANCE", 1}};
        W wr = {{"FRESH", 30}, {"NSJUMP", 3}, {"NSNEW", 2}, {"NSSET", 3}, {"SELECT", 3}, {"GET", 2}, {"ADVANCE", 1}};
        int cyc = n(1, 3), uk = 0;
        auto mixx = [&](int cnt) { for (int i = 0; i < cnt; i++) { Str o = g.pick(rot ? wr : w); int c = n(0, g.ncl - 1); if (o == "FRESH") g.C(c, {"s:SET", g.isseq(c) ? Str("s:") : fmt("s:u%d", uk++), g.val()}); else g.op(c, o); } };
        for (int k = 0; k < cyc; k++) {
            mixx(n(2, g.nops / 2 + 3)); Str how = std::vector<Str>{"stop", "term", "int"}[n(0, 2)];
            if (ch(0.25)) { p.add("SIG", {ch(0.5) ? "15" : "2", fmt("%d", n(0, 60))}); mixx(n(1, 10)); }
            p.add("RESTART", {how, fmt("%d", n(0, 2) ? 0 : 50)}); p.add("VERIFY", {"gix"}); g.sessions();
        }
        p.add("VERIFY", {"gisxh"});
    }
    return p;
}
bool relevant_kind(const Str &prop, const Str &kind) { return prop != "C28" || kind.compare(0, 5, "leak-") == 0; }   // (what C28 does beyond the model is not checked here)
int budget_runs(const Str &prop, bool thorough) { if (prop == "C28") return thorough ? 150000 : 8000; if (prop == "C13" || prop == "C18") return thorough ? 200000 : 8000; return thorough ? 400000 : 16000; }
Str real_components(const Str &prop) { return Str(prop == "C16" ? "real: tools/index-rebuild, " : prop == "C26" ? "real: tools/quick-compaction, tools/integrity-check, tools/namespace-editor, tools/index-dump, tools/namespace-dump, " : prop == "C27" ? "real: utilities/db-sync, utilities/db-replicate (hiredis is a stub), " : "real: ") + "all of zdbd/*.c and libzdb/*.c compiled from the working tree, glibc string/format functions; simulated: file system, sockets, epoll, clock, signals, fork/exec of hooks, memory allocator"; }

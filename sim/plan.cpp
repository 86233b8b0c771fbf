// Textual form of plans.
#include "run.h"
#include <cstdio>
#include <cstdlib>

static bool plain(unsigned char c) { return c && (isalnum(c) || strchr("_-.*/:+,=@", c)); }
Str lit(const Str &s) { Str r = "s:"; for (unsigned char c : s) { if (plain(c)) r += (char) c; else r += fmt("%%%02x", c); } return r; }
Str gen_value(uint64_t len, uint64_t seed) {
    Str s(len, 0); Rng r(seed ^ 0x76616c7565ULL); size_t i = 0;
    if (len >= 12) { Str h = fmt("<%lx:%lu>", (unsigned long) (seed & 0xffffff), (unsigned long) len); for (; i < h.size() && i < len; i++) s[i] = h[i]; }
    uint64_t w = 0; int b = 0;
    for (; i < len; i++) { if (!b) { w = r.next(); b = 8; } s[i] = (char) w; w >>= 8; b--; }
    return s;
}
Str Plan::text() const {
    Str o = "zdbsim-plan 1\n";
    for (auto &k : cfg) o += "cfg " + k.first + "=" + k.second + "\n";
    for (auto &s : steps) { o += fmt("%d %s", s.id, s.verb.c_str()); for (auto &x : s.a) o += " " + x; o += "\n"; }
    return o;
}
bool Plan::parse(const Str &t, Str &err) {
    cfg.clear(); steps.clear(); size_t p = 0; int ln = 0;
    while (p < t.size()) {
        size_t e = t.find('\n', p); if (e == Str::npos) e = t.size();
        Str l = t.substr(p, e - p); p = e + 1; ln++;
        if (l.empty() || l[0] == '#') continue;
        if (ln == 1) { if (l != "zdbsim-plan 1") { err = "not a plan file"; return false; } continue; }
        std::vector<Str> w; size_t q = 0;
        while (q <= l.size()) { size_t k = l.find(' ', q); if (k == Str::npos) k = l.size(); w.push_back(l.substr(q, k - q)); q = k + 1; }
        if (w[0] == "cfg") { Str r = l.substr(4); size_t k = r.find('='); if (k == Str::npos) { err = "bad cfg"; return false; } cfg[r.substr(0, k)] = r.substr(k + 1); continue; }
        if (w.size() < 2) { err = fmt("line %d", ln); return false; }
        Step s; s.id = atoi(w[0].c_str()); s.verb = w[1]; s.a.assign(w.begin() + 2, w.end()); steps.push_back(s);
    }
    return true;
}
Str resp(const std::vector<Str> &a) {
    Str o = fmt("*%zu\r\n", a.size());
    for (auto &x : a) { o += fmt("$%zu\r\n", x.size()); o += x; o += "\r\n"; }
    return o;
}

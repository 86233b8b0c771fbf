// The server must not grow: after the same things happened again, with the same namespaces, keys and clients left,
// it must not hold more memory blocks or more descriptors than before.
#include "run.h"

bool Runner::leak_step(const Step &s) {
    if (s.verb != "LEAK") return false;
    if (!alive() || v.hit) return true;
    S->faults.clear(); S->vfs.disk_free = 1ull << 40; hold = false;
    // everybody leaves
    for (auto &c : cl) if (c.second.conn && !c.second.srvclosed && !c.second.rstsent) { if (c.second.slow) drain(c.second, (size_t) -1); closec(c.first, c.first % 2); }
    quiesce(); if (!alive() || v.hit) return true;
    for (int i = 0; i < 3 && alive() && !v.hit; i++) tick();
    S->mono_us += 310000000; // what is kept for a while has expired
    for (int i = 0; i < 4 && alive() && !v.hit; i++) { tick(); quiesce(); }
    if (!alive() || v.hit) return true;
    // the same namespaces are left, without passwords and limits
    std::set<Str> keep(s.a.begin(), s.a.end()); std::map<Str, Str> sig; bool clean = true;
    open(99); admin_session(99); if (v.hit || !alive()) return true;
    bool ok = false; Reply l = call(99, {"NSLIST"}, &ok); if (!ok || l.err()) { leaks.clear(); return true; }
    for (auto &e : l.a) {
        if (!keep.count(lit(e.s)) && e.s != DEFNS) { Reply r = call(99, {"NSDEL", e.s}, &ok); if (!ok || r.err()) { call(99, {"NSSET", e.s, "lock", "0"}); call(99, {"NSSET", e.s, "freeze", "0"}); call(99, {"NSSET", e.s, "worm", "0"}); r = call(99, {"NSDEL", e.s}, &ok); if (!ok || r.err()) clean = false; } continue; }
        for (auto p : {"lock", "freeze", "worm", "maxsize"}) call(99, {"NSSET", e.s, p, "0"});
        if (e.s != DEFNS) call(99, {"NSSET", e.s, "password", "*"});
        Reply r = call(99, {"NSINFO", e.s}, &ok); if (!ok || r.err()) { clean = false; continue; }
        auto f = [&](const char *k) { size_t p = r.s.find(Str(k) + ": "); if (p == Str::npos) return Str(); size_t q = r.s.find('\n', p); return r.s.substr(p, q - p); };
        sig[e.s] = (f("mode").find("seq") != Str::npos ? Str("seq") : f("entries")) + "/" + f("password") + "/" + f("public");
    }
    closec(99, false); quiesce(); for (int i = 0; i < 2 && alive() && !v.hit; i++) tick();
    if (!alive() || v.hit) return true;
    LeakRec r; for (auto &x : sig) r.sig += x.first + "=" + x.second + ";"; if (!clean) r.sig += fmt("#%zu", leaks.size());
    r.blocks = srv->live_blocks; r.bytes = srv->live_bytes; for (auto &f : srv->fds) if (f) r.fds++; for (auto &f : S->vfs.tree) if (!f.second->dir) r.files++;
    S->log("LEAK %ld blocks %ld bytes %ld descriptors [%s]", (long) r.blocks, (long) r.bytes, (long) r.fds, printable(r.sig, 400).c_str()); S->probe["leak_round"]++;
    leaks.push_back(r);
    size_t n = leaks.size(), w = 4;
    if (n <= w) return true;
    bool same = true, mem = true, fd = true, byt = true;
    for (size_t i = n - w; i < n; i++) { if (leaks[i].sig != leaks[i - 1].sig) same = false; if (leaks[i].blocks <= leaks[i - 1].blocks) mem = false; if (leaks[i].fds <= leaks[i - 1].fds) fd = false; if (leaks[i].bytes <= leaks[i - 1].bytes || leaks[i].files != leaks[i - 1].files) byt = false; }
    if (!same) { S->probe["leak_differs"]++; return true; }
    S->probe["leak_compared"]++;
    auto row = [&](int64_t LeakRec::*m) { Str t; for (size_t i = n - w - 1; i < n; i++) t += fmt(" %ld", (long) (leaks[i].*m)); return t; };
    if (fd) fail("leak-descriptor", "the same requests again and again, all clients gone, the same keys left: open descriptors" + row(&LeakRec::fds));
    else if (mem) fail("leak-memory", "the same requests again and again, all clients gone, the same keys left: memory blocks" + row(&LeakRec::blocks));
    else if (byt) fail("leak-memory", "the same requests again and again, all clients gone, the same keys and files left: bytes" + row(&LeakRec::bytes));
    if (n >= 32 && n % 8 == 0) { // lists that grow now and then
        bool eq = true, files = true; for (size_t i = n / 4; i < n; i++) { if (leaks[i].sig != leaks[n - 1].sig) eq = false; if (leaks[i].files != leaks[n - 1].files) files = false; }
        if (!eq) return true;
        S->probe["leak_long"]++;
        auto grows = [&](int64_t LeakRec::*m) { int steps = 0; for (size_t i = n / 4 + 1; i < n; i++) { if (leaks[i].*m < leaks[i - 1].*m) return false; if (leaks[i].*m > leaks[i - 1].*m) steps++; } return steps > 1; };
        auto at = [&](int64_t LeakRec::*m) { return fmt(" after %zu, %zu and %zu of the same requests: %ld %ld %ld", n / 4 + 1, n / 2 + 1, n, (long) (leaks[n / 4].*m), (long) (leaks[n / 2].*m), (long) (leaks[n - 1].*m)); };
        if (grows(&LeakRec::fds)) fail("leak-descriptor", "open descriptors" + at(&LeakRec::fds));
        else if (grows(&LeakRec::blocks)) fail("leak-memory", "memory blocks" + at(&LeakRec::blocks));
        else if (files && grows(&LeakRec::bytes)) fail("leak-memory", "bytes" + at(&LeakRec::bytes));
    }
    return true;
}

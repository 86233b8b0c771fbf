// The offline tools: quick-compact, integrity-check and namespace-editor run as processes of their own on the simulated disk while no server runs.
#include "run.h"
#include <algorithm>

static Str AT(const Step &s, size_t i, const Str &d = "") { return i < s.a.size() ? s.a[i] : d; }
static Str outcome(Proc *p) { return fmt("%s, code %d%s%s", pstate_name[p->st], p->code, p->corrupt.empty() ? "" : ", ", p->corrupt.c_str()); }
bool Runner::tool_step(const Step &s) {
    if (s.verb == "COMPACT" || s.verb == "ICHECK" || s.verb == "NSEDIT" || s.verb == "DUMP") { offline.push_back(s); return true; }
    if (s.verb == "RESTART") { for (auto &x : offline) if (!v.hit && !alive()) tools(x); offline.clear(); }
    return false;
}
void Runner::tools(const Step &s) {
    Str nm = resolve(0, AT(s, 0)); for (auto &m : cand) if (!m.ns.count(nm)) return;
    Str din = root_data() + "/" + nm, iin = root_index() + "/" + nm;
    auto numbered = [](const Str &b, char c) { return b.size() > 1 && b[0] == c && b.find_first_not_of("0123456789", 1) == Str::npos; };
    S->faults.clear(); S->vfs.disk_free = 1ull << 40;
    std::vector<std::pair<Str, DFile>> files; bool torn = false; // (a database left by a crash is repaired by the next start)
    for (auto &k : S->vfs.snapshot(din)) { Str b = k.first.substr(din.size() + 1); if (!numbered(b, 'd')) continue; DFile f = parse_data(k.second); if (!f.header || f.torn) torn = true; files.push_back({k.first, f}); }
    for (auto &k : S->vfs.snapshot(iin)) { Str b = k.first.substr(iin.size() + 1); if (!numbered(b, 'i')) continue; IFile f = parse_index(k.second); if (!f.header || f.torn) torn = true; }
    if (torn || files.empty()) { S->probe["tool_torn"]++; return; }
    auto arm = [&](int at) { if (at < 0) return; S->crash_armed = true; S->crash_fired = false; S->crash_kind = F_ANY; S->crash_skip = at % 1000; S->crash_torn = at >= 1000 ? at / 1000 : -1; if (at >= 1000) { S->crash_kind = F_WRITE; S->crash_skip %= 4; } };
    auto same = [&](const char *tool, const std::vector<std::pair<Str, Str>> &a, const Str &dir) { std::vector<std::pair<Str, Str>> b; for (auto &k : S->vfs.snapshot(dir)) b.push_back({k.first, k.second}); if (a != b) fail("tool.input", fmt("%s changes its input %s", tool, dir.c_str())); };
    if (s.verb == "ICHECK") { // (what to damage)
        Rng r(plan.num("sched", 1) * 31ULL + s.id); auto &f = files[r.below(files.size())]; Str body; for (auto &k : S->vfs.snapshot(din)) if (k.first == f.first) body = k.second;
        Str b = f.first.substr(din.size() + 1); S->vfs.mkdirs("/db/check"); Str path = "/db/check/" + b;
        auto run = [&](const Str &p) { Proc *q = S->spawn(module_by_name("icheck"), {"integrity-check", p}); S->resume(q); return q; };
        Proc *p = run(f.first); S->probe["icheck"]++;
        if (p->st != P_EXITED || p->code != 0) { fail("icheck.alarm", fmt("integrity-check of the intact file %s: %s", f.first.c_str(), outcome(p).c_str())); return; }
        for (int i = 0; i < 3 && !v.hit; i++) {
            Str bad = body, what; std::vector<DRec> pay; for (auto &x : f.second.recs) if (x.payload.size()) pay.push_back(x);
            int k = r.below(5);
            if (k < 3 && pay.size()) { auto &x = pay[r.below(pay.size())]; uint64_t at = x.off + 18 + x.id.size() + r.below(x.payload.size()); bad[at] ^= 1 << r.below(8); what = fmt("a flipped bit at offset %lu", (unsigned long) at); }
            else if (k == 3 && f.second.recs.size()) { auto &x = f.second.recs.back(); uint64_t len = 18 + x.id.size() + x.payload.size(); bad.resize(x.off + 1 + r.below(len - 1)); what = fmt("the last record cut at offset %zu", bad.size()); }
            else { uint64_t at = r.below(8); bad[at] ^= 1 << r.below(8); what = fmt("a flipped header bit at offset %lu", (unsigned long) at); }
            S->vfs.put(path, bad); p = run(path); S->probe["icheck_damage"]++; S->nfault["bit-rot"]++;
            if (p->st != P_EXITED) fail("icheck.died", fmt("integrity-check of %s with %s: %s", b.c_str(), what.c_str(), outcome(p).c_str()));
            else if (p->code == 0) fail("icheck.missed", fmt("integrity-check approves %s with %s", b.c_str(), what.c_str()));
        }
        if (!v.hit && r.below(3) == 0) { // a disk that cannot be read
            Fault f; f.path = "data"; f.kind = r.below(4) ? F_READ : F_OPEN; f.err = 5; f.skip = r.below(f.kind == F_READ ? 4 + 3 * files[0].second.recs.size() : 3); uint64_t f0 = S->nfired; S->faults.push_back(f);
            p = run(files[0].first); S->faults.clear(); S->probe["icheck_ioerror"]++;
            if (p->st != P_EXITED) fail("icheck.died", fmt("integrity-check on a failing disk: %s", outcome(p).c_str()));
            else if (S->nfired != f0 && p->code == 0) fail("icheck.missed", fmt("integrity-check approves %s, which it could not read", files[0].first.c_str()));
        }
        if (!v.hit && f.second.recs.size() && r.below(4) == 0) { // a file with many bad records
            Str bad = body.substr(0, f.second.recs[0].off); uint64_t want = r.below(3) ? 256 : 1 + r.below(600), nb = 0; bool any = false; for (auto &x : f.second.recs) any |= x.payload.size() && x.payload.size() < 3000;
            while (any && nb < want) for (auto &x : f.second.recs) { uint64_t len = 18 + x.id.size() + x.payload.size(); if (len > 3000 || nb == want) continue; Str one = body.substr(x.off, len); if (x.payload.size()) { one[18 + x.id.size()] ^= 1; nb++; } bad += one; }
            if (any) { S->vfs.put(path, bad); p = run(path); S->probe["icheck_many"]++;
                if (p->st != P_EXITED) fail("icheck.died", fmt("integrity-check of a file with %lu damaged records: %s", (unsigned long) nb, outcome(p).c_str()));
                else if (p->code == 0) fail("icheck.missed", fmt("integrity-check approves a file with %lu damaged records", (unsigned long) nb)); }
        }
        S->vfs.unlink(path); return;
    }
    if (s.verb == "NSEDIT") { // password (or -), maxsize (or -), public, worm, system call it is killed at (or -1)
        std::vector<Str> a = {"namespace-editor", "--index", root_index(), "--namespace", nm}; Str pw = resolve(0, AT(s, 1, "-")), mx = AT(s, 2, "-"), pub = AT(s, 3, "-"), wm = AT(s, 4, "-"); int at = atoi(AT(s, 5, "-1").c_str());
        if (pw != "-") { a.push_back("--password"); a.push_back(pw); } if (mx != "-") { a.push_back("--maxsize"); a.push_back(mx); } if (pub != "-") { a.push_back("--public"); a.push_back(pub); } if (wm != "-") { a.push_back("--worm"); a.push_back(wm); }
        uint64_t f0 = S->nfired; bool io = AT(s, 6) != ""; if (io) { Fault f; f.kind = fk_parse(AT(s, 6)); f.err = 28; f.skip = atoi(AT(s, 7, "0").c_str()); S->faults.push_back(f); }
        arm(at); Proc *p = S->spawn(module_by_name("nsedit"), a); S->resume(p); S->crash_armed = false; bool cut = S->crash_fired; S->crash_fired = false; bool fired = S->nfired != f0; S->faults.clear(); S->probe["nsedit"]++;
        S->log("NSEDIT %s: %s", nm.c_str(), outcome(p).c_str());
        if (!cut && p->st != P_EXITED) { fail("nsedit.died", fmt("namespace-editor of %s: %s", nm.c_str(), outcome(p).c_str())); return; }
        if (!cut && !fired && p->code != 0) { fail("nsedit.failed", fmt("namespace-editor of %s: %s", nm.c_str(), outcome(p).c_str())); return; }
        std::vector<Model> neu = cand;
        for (auto &m : neu) { MNs &n = m.ns[nm]; n.haspass = pw != "-"; n.pass = pw != "-" ? pw : Str(); n.maxsize = mx != "-" ? strtoull(mx.c_str(), 0, 10) : 0; n.anymax = false; n.pub = pub != "no"; n.worm = wm == "yes"; }
        if (cut) { S->nfault["kill"]++; cand.insert(cand.end(), neu.begin(), neu.end()); }
        else if (p->code == 0) cand = neu; // it said so: the settings are there
        S->mono_us += 1000; return;
    }
    if (s.verb == "DUMP") { // what index-dump and namespace-dump print; [kind of fault, skip]
        std::vector<std::pair<Str, Str>> i0; std::map<uint32_t, IFile> idx; uint64_t total = 0; std::vector<std::pair<Str, Str>> want; std::map<uint32_t, Str> raw;
        for (auto &k : S->vfs.snapshot(iin)) { Str b = k.first.substr(iin.size() + 1); i0.push_back({k.first, k.second}); if (numbered(b, 'i')) { idx[atoi(b.c_str() + 1)] = parse_index(k.second); raw[atoi(b.c_str() + 1)] = k.second; } }
        for (auto &x : idx) { uint64_t n = 0;
            for (auto &e : x.second.recs) { Str key = "0x"; for (unsigned char c : e.id) key += fmt("%02x", c); n++; total++;
                want.push_back({"index entry", fmt("%lu, offset: %lu", (unsigned long) n, (unsigned long) e.off)}); want.push_back({"id length", fmt("%zu", e.id.size())}); want.push_back({"data length", fmt("%u", e.length)}); want.push_back({"data offset", fmt("%u", e.offset)}); want.push_back({"data fileid", fmt("%u", e.dataid)});
                want.push_back({"entry flags", fmt("0x%X", e.flags)}); want.push_back({"previous", fmt("%u", e.previous)}); want.push_back({"data crc", fmt("%08x", e.crc)}); want.push_back({"parent id", fmt("%u", e.parentid)}); want.push_back({"parent offs", fmt("%u", e.parentoff)}); want.push_back({"entry key", key}); }
            want.push_back({"file done, file entries found", fmt("%lu", (unsigned long) n)}); }
        want.push_back({"all done, entries found", fmt("%lu", (unsigned long) total)});
        auto lines = [](const Str &o) { std::vector<std::pair<Str, Str>> r; size_t i = 0; while (i < o.size()) { size_t e = o.find('\n', i); if (e == Str::npos) e = o.size(); Str l = o.substr(i, e - i); i = e + 1; size_t b = l.find_first_not_of(" ", l.compare(0, 3, "[+]") ? 0 : 3), c = l.find(": "); if (b == Str::npos || c == Str::npos || c < b) continue; Str k = l.substr(b, c - b); while (k.size() && k.back() == ' ') k.pop_back(); r.push_back({k, l.substr(c + 2)}); } return r; };
        auto run = [&](const char *mod, std::vector<Str> a) { S->capture = true; S->outtext.clear(); Proc *q = S->spawn(module_by_name(mod), a); S->resume(q); S->capture = false; return q; };
        uint64_t f0 = S->nfired; if (AT(s, 1) != "") { Fault f; f.path = "index"; f.kind = fk_parse(AT(s, 1)); f.err = 5; f.skip = atoi(AT(s, 2, "0").c_str()); S->faults.push_back(f); }
        Proc *p = run("idump", {"index-dump", iin}); bool fired = S->nfired != f0; S->faults.clear(); S->probe["index_dump"]++; if (fired) S->probe["index_dump_fault"]++; S->log("DUMP %s: %s", nm.c_str(), outcome(p).c_str());
        if (p->st != P_EXITED) { fail("dump.died", fmt("index-dump of %s: %s", nm.c_str(), outcome(p).c_str())); return; }
        if (p->code != 0 && !fired) { fail("dump.failed", fmt("index-dump of the intact index of %s: %s", nm.c_str(), outcome(p).c_str())); return; }
        std::set<Str> labels; for (auto &w : want) labels.insert(w.first); for (const char *l : {"index entry", "id length", "data length"}) labels.insert(l);
        if (p->code == 0) { std::vector<std::pair<Str, Str>> got; for (auto &l : lines(S->outtext)) if (labels.count(l.first)) got.push_back(l);
            for (size_t i = 0; i < std::max(got.size(), want.size()); i++) if (i >= got.size() || i >= want.size() || got[i] != want[i]) { fail("dump.wrong", fmt("index-dump of %s%s prints '%s: %s' where '%s: %s' is due", nm.c_str(), fired ? " on a failing disk" : "", i < got.size() ? got[i].first.c_str() : "nothing", i < got.size() ? got[i].second.c_str() : "", i < want.size() ? want[i].first.c_str() : "nothing", i < want.size() ? want[i].second.c_str() : "")); return; } }
        // an index file that is not one, or that ends within an entry
        Rng r(plan.num("sched", 1) * 37ULL + s.id); uint32_t id = r.below(idx.size()); auto &x = idx[id]; Str path = iin + fmt("/i%u", id), bad = raw[id], what; if (raw.count(id)) {
            int k = r.below(3); if (k == 0 && x.recs.size()) { bad.resize(bad.size() - 1 - r.below(29)); what = "cut within its last entry"; } else if (k == 1) { bad[r.below(8)] ^= 1 << r.below(8); what = "with a flipped header bit"; } else { bad.resize(r.below(26)); what = "cut within its header"; }
            S->vfs.put(path, bad); p = run("idump", {"index-dump", iin}); S->vfs.put(path, raw[id]); S->probe["index_dump_damage"]++; S->nfault["bit-rot"]++;
            if (p->st != P_EXITED) { fail("dump.died", fmt("index-dump of %s with i%u %s: %s", nm.c_str(), id, what.c_str(), outcome(p).c_str())); return; }
            if (p->code == 0) { fail("dump.missed", fmt("index-dump of %s succeeds with i%u %s", nm.c_str(), id, what.c_str())); return; } }
        // the settings
        f0 = S->nfired; if (AT(s, 3) != "") { Fault f; f.path = "index"; f.kind = fk_parse(AT(s, 3)); f.err = 5; f.skip = atoi(AT(s, 4, "0").c_str()); S->faults.push_back(f); }
        p = run("nsdump", {"namespace-dump", root_index(), nm}); fired = S->nfired != f0; S->faults.clear(); S->probe["namespace_dump"]++; if (fired) S->probe["namespace_dump_fault"]++;
        if (p->st != P_EXITED) { fail("dump.died", fmt("namespace-dump of %s: %s", nm.c_str(), outcome(p).c_str())); return; }
        if (p->code != 0 && !fired) { fail("dump.failed", fmt("namespace-dump of %s: %s", nm.c_str(), outcome(p).c_str())); return; }
        if (p->code == 0) { std::map<Str, Str> got; for (auto &l : lines(S->outtext)) got[l.first] = l.second; if (atoi(got["mode worm"].c_str())) got["mode worm"] = "1"; if (atoi(got["public flag"].c_str())) got["public flag"] = "1"; bool ok = false; Str exp;
            for (auto &m : cand) { MNs &n = m.ns[nm]; std::map<Str, Str> w = {{"name", nm}, {"password", n.haspass && n.pass.size() ? n.pass : "<no password set>"}, {"public flag", n.pub ? "1" : "0"}, {"mode worm", n.worm ? "1" : "0"}}; bool good = true; exp.clear();
                for (auto &y : w) { if (got[y.first] != y.second) { good = false; exp += fmt("%s: '%s', printed '%s'; ", y.first.c_str(), y.second.c_str(), got[y.first].c_str()); } }
                if (!n.anymax && got["maximum size"].compare(0, fmt("%lu bytes", (unsigned long) n.maxsize).size(), fmt("%lu bytes", (unsigned long) n.maxsize))) { good = false; exp += fmt("maximum size: %lu, printed '%s'", (unsigned long) n.maxsize, got["maximum size"].c_str()); }
                ok |= good; }
            if (!ok) { fail("dump.settings", fmt("namespace-dump of %s%s: %s", nm.c_str(), fired ? " on a failing disk" : "", exp.c_str())); return; } }
        if (r.below(3) == 0) { p = run("nsdump", {"namespace-dump", root_index(), nm + "-none"}); S->probe["namespace_dump_none"]++; if (p->st != P_EXITED || p->code == 0) { fail("dump.none", fmt("namespace-dump of a namespace that does not exist: %s", outcome(p).c_str())); return; } }
        same("index-dump or namespace-dump", i0, iin); return;
    }
    // COMPACT: the output of the tool replaces the files of the namespace
    std::vector<std::pair<Str, Str>> d0, i0; size_t before = 0; for (auto &k : S->vfs.snapshot(din)) { d0.push_back({k.first, k.second}); } for (auto &k : S->vfs.snapshot(iin)) i0.push_back({k.first, k.second});
    for (const char *o : {"/db/cdata", "/db/cindex"}) { for (auto &k : S->vfs.snapshot(o)) S->vfs.unlink(k.first); S->vfs.mkdirs(o); }
    uint64_t f0 = S->nfired; bool io = AT(s, 1) != ""; if (io) { Fault f; f.kind = fk_parse(AT(s, 1)); f.err = 5; f.skip = atoi(AT(s, 2, "0").c_str()); f.part = atoi(AT(s, 3, "-1").c_str()); S->faults.push_back(f); }
    Proc *p = S->spawn(module_by_name("compact"), {"quick-compact", "--in-data", root_data(), "--in-index", root_index(), "--out-data", "/db/cdata", "--out-index", "/db/cindex", "--namespace", nm});
    S->resume(p); bool fired = S->nfired != f0; S->faults.clear(); S->probe["compact"]++; S->log("COMPACT %s: %s", nm.c_str(), outcome(p).c_str());
    if (p->st != P_EXITED) { fail("compact.died", fmt("quick-compact of %s: %s", nm.c_str(), outcome(p).c_str())); return; }
    same("quick-compact", d0, din); same("quick-compact", i0, iin); if (v.hit) return;
    if (p->code != 0) { if (!fired) fail("compact.failed", fmt("quick-compact of %s: %s", nm.c_str(), outcome(p).c_str())); return; } // (it said that it failed: nothing is replaced)
    std::vector<std::pair<Str, Str>> put; size_t after = 0; Str desc, desc0;
    for (auto &k : S->vfs.snapshot("/db/cdata/" + nm)) { Str b = k.first.substr(10 + nm.size() + 1); if (numbered(b, 'd')) { put.push_back({din + "/" + b, k.second}); after += k.second.size(); } }
    for (auto &k : S->vfs.snapshot("/db/cindex/" + nm)) { Str b = k.first.substr(11 + nm.size() + 1); if (numbered(b, 'i')) put.push_back({iin + "/" + b, k.second}); if (b == "zdb-namespace") desc = k.second; }
    for (auto &k : d0) { Str b = k.first.substr(din.size() + 1); if (numbered(b, 'd')) { before += k.second.size(); S->vfs.unlink(k.first); } }
    for (auto &k : i0) { Str b = k.first.substr(iin.size() + 1); if (numbered(b, 'i')) S->vfs.unlink(k.first); if (b == "zdb-namespace") desc0 = k.second; }
    if (desc != desc0) { fail("compact.settings", fmt("the settings of %s differ after the compaction", nm.c_str())); return; }
    if (after > before) { fail("compact.size", fmt("the data files of %s take %zu bytes after the compaction, %zu before", nm.c_str(), after, before)); return; }
    if (after < before) S->probe["compact_smaller"]++;
    std::map<uint32_t, DFile> outd; for (auto &x : put) if (x.first.compare(0, din.size() + 1, din + "/") == 0) outd[atoi(x.first.c_str() + din.size() + 2)] = parse_data(x.second);
    uint64_t prev = 0; for (auto &k : outd) { // the records of the output chain back to the one before; what is dropped is marked so
        if (!k.second.header || k.second.torn) { fail("compact.output", fmt("data file d%u of %s is torn after the compaction", k.first, nm.c_str())); return; }
        for (auto &x : k.second.recs) { if (x.prev != prev) { fail("compact.output", fmt("the record at %lu of d%u of %s has %lu for the one before, which is at %lu", (unsigned long) x.off, k.first, nm.c_str(), (unsigned long) x.prev, (unsigned long) prev)); return; } prev = x.off;
            if (x.payload.size() ? crc32c(x.payload) != x.crc : x.crc != 0) { fail("compact.output", fmt("the record at %lu of d%u of %s has a wrong checksum", (unsigned long) x.off, k.first, nm.c_str())); return; } } }
    for (auto &x : put) S->vfs.put(x.first, x.second);
    for (auto &m : cand) { MNs &n = m.ns[nm]; for (auto &k : n.keys) for (auto &h : k.second.hist) h.gone = true; n.log.clear(); n.cursors.clear(); n.curkey.clear(); n.ekeys.clear(); }
}

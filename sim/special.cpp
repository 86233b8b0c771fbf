// Steps and checks of single properties.
#include "run.h"
#include <algorithm>

// ---------------------------------------------------------------- data files (C15, C16)
static Str AS(const Step &s, size_t i, const Str &d = "") { return i < s.a.size() ? s.a[i] : d; }
struct DataNs { std::vector<DRec> recs; std::vector<uint32_t> file; bool torn = false; Str err; };
static DataNs read_data(const Str &dir) {
    DataNs d; std::map<uint32_t, Str> files;
    for (auto &k : S->vfs.tree) {
        if (k.second->dir || k.first.compare(0, dir.size() + 1, dir + "/") != 0) continue;
        Str b = k.first.substr(dir.size() + 1); uint32_t id; int used = 0;
        if (b.find('/') != Str::npos) continue;
        if (sscanf(b.c_str(), "d%u%n", &id, &used) != 1 || used != (int) b.size()) continue;
        files[id] = k.second->data;
    }
    uint32_t want = 0;
    for (auto &f : files) {
        if (f.first != want++) { d.err = fmt("data file d%u is missing", want - 1); return d; }
        DFile p = parse_data(f.second);
        if (!p.header) { d.torn = true; if (d.err.empty() && f.second.size() >= 28) d.err = fmt("d%u has no valid header", f.first); continue; }
        if (p.fileid != f.first) { d.err = fmt("d%u says it is file %u", f.first, p.fileid); return d; }
        if (p.torn) { d.torn = true; if (d.err.empty()) d.err = fmt("d%u: incomplete record at offset %lu (%zu bytes left)", f.first, (unsigned long) p.end, f.second.size() - (size_t) p.end); }
        for (auto &r : p.recs) {
            if (((r.flags & 1) && !r.payload.empty()) || crc32c(r.payload) != r.crc) { d.err = fmt("d%u: the record at offset %lu (key %s) has a wrong checksum", f.first, (unsigned long) r.off, printable(r.id, 24).c_str()); return d; }
            d.recs.push_back(r); d.file.push_back(f.first);
        }
    }
    return d;
}
static bool rec_is(const LogRec &l, const DRec &r) {
    return (l.anyid ? r.id.size() == 8 : r.id == l.key) && l.del == ((r.flags & 1) != 0) && (l.del || r.payload == l.val) && (l.maybe || l.ts.ok(r.ts) || (l.ts.lo <= UINT32_MAX && l.ts.ok((int64_t) r.ts)));
}
// every certain entry appears in order, and every record is an entry
static bool log_matches(const std::vector<LogRec> &log, const std::vector<DRec> &recs, Str &why) {
    std::set<size_t> at = {0}; // number of log entries behind us
    auto skip = [&](std::set<size_t> &s) { for (auto it = s.begin(); it != s.end(); ++it) if (*it < log.size() && log[*it].maybe) s.insert(*it + 1); };
    skip(at);
    for (size_t i = 0; i < recs.size(); i++) {
        std::set<size_t> nx; for (auto p : at) if (p < log.size() && rec_is(log[p], recs[i])) nx.insert(p + 1);
        if (nx.empty()) {
            size_t p = *at.rbegin();
            why = fmt("record %zu (offset %lu) is %s %s %s, expected %s", i, (unsigned long) recs[i].off, (recs[i].flags & 1) ? "DEL" : "SET", printable(recs[i].id, 24).c_str(), printable(recs[i].payload, 24).c_str(), p < log.size() ? fmt("%s %s %s", log[p].del ? "DEL" : "SET", printable(log[p].key, 24).c_str(), printable(log[p].val, 24).c_str()).c_str() : "none");
            return false;
        }
        skip(nx); at = nx;
    }
    if (!at.count(log.size())) { size_t p = *at.rbegin(); why = fmt("no record of %s %s %s", log[p].del ? "DEL" : "SET", printable(log[p].key, 24).c_str(), printable(log[p].val, 24).c_str()); return false; }
    return true;
}
void Runner::datacheck(const Str &only) {
    S->probe["datacheck"]++;
    std::set<Str> names; for (auto &m : cand) for (auto &n : m.ns) names.insert(n.first);
    Str err; std::vector<char> ok(cand.size(), 1);
    for (auto &nm : names) {
        if (!only.empty() && nm != only) continue;
        DataNs d = read_data(root_data() + "/" + nm);
        for (size_t i = 0; i < cand.size(); i++) {
            auto it = cand[i].ns.find(nm);
            if (it == cand[i].ns.end()) continue;
            if (!d.err.empty()) { fail("datafile.format", fmt("namespace %s: %s", nm.c_str(), d.err.c_str())); return; }
            Str w; if (ok[i] && !log_matches(it->second.log, d.recs, w)) { ok[i] = 0; if (err.empty()) err = fmt("namespace %s: %s", nm.c_str(), w.c_str()); }
        }
        S->probe["datacheck_records"] += d.recs.size();
    }
    std::vector<Model> good; for (size_t i = 0; i < cand.size(); i++) if (ok[i]) good.push_back(cand[i]);
    if (good.empty()) { fail("datafile.log", err); return; }
    cand = good;
}
// DATA RAW answers the record at an offset of a data file, exactly as the file holds it
void Runner::dataraw() {
    if (!alive() || v.hit) return;
    const int A = 96; bool pp = pipelined, ok; pipelined = false; if (!open(A)) { pipelined = pp; return; }
    std::set<Str> names; for (auto &n : cand[0].ns) names.insert(n.first);
    if (!admin_session(A)) names.clear();
    for (auto &nm : names) {
        if (v.hit || !alive() || !cand[0].ns.count(nm)) break;
        const MNs &m = cand[0].ns[nm]; Reply r;
        r = m.haspass ? call(A, {"SELECT", nm, m.pass}, &ok) : call(A, {"SELECT", nm}, &ok);
        if (!ok || r.err() || v.hit) continue;
        Str dir = root_data() + "/" + nm; DataNs d = read_data(dir); if (d.torn || !d.err.empty()) continue;
        size_t step = d.recs.size() / 12 + 1; uint64_t f0 = S->nfired;
        for (size_t i = d.recs.size() % step; i < d.recs.size() && !v.hit && alive(); i += step) {
            const DRec &x = d.recs[i]; Str what = fmt("DATA RAW %u %lu in %s", d.file[i], (unsigned long) x.off, nm.c_str());
            r = call(A, {"DATA", "RAW", fmt("%u", d.file[i]), fmt("%lu", (unsigned long) x.off)}, &ok);
            if (!ok || v.hit || S->nfired != f0) break;
            S->probe["data_raw"]++;
            if (x.flags & 1) { if (!r.err()) { fail("data.raw", what + ": a deletion is answered as a value: " + r.show()); break; } continue; }
            if (x.payload.empty()) { if (!r.err() && !(r.a.size() == 6 && r.a[5].s.empty())) { fail("data.raw", what + ": an empty value is answered as " + r.show()); break; } continue; }
            if (r.t != '*' || r.a.size() != 6 || r.a[0].s != x.id || r.a[5].s != x.payload) { fail("data.raw", what + fmt(" answers %s, the file has key %s", r.show().c_str(), printable(x.id, 40).c_str())); break; }
            if (r.a[1].i != (int64_t) x.prev || r.a[2].s != fmt("0x%08x", x.crc) || r.a[3].i != x.flags || r.a[4].i != (int64_t) x.ts) { fail("data.raw", what + fmt(" answers %s, the file has previous %u crc 0x%08x flags %u timestamp %u", r.show().c_str(), x.prev, x.crc, x.flags, x.ts)); break; }
        }
        if (!v.hit && alive() && !d.recs.empty() && S->nfired == f0) {
            uint32_t last = d.file.back(); Str path = dir + fmt("/d%u", last); size_t sz = 0; for (auto &k : S->vfs.tree) if (k.first == path) sz = k.second->data.size();
            r = call(A, {"DATA", "RAW", fmt("%u", last), fmt("%zu", sz)}, &ok);
            if (ok && !v.hit && S->nfired == f0 && (!r.err() || r.s.find("EOF") == Str::npos)) fail("data.raw", fmt("DATA RAW at the end of d%u of %s answers %s", last, nm.c_str(), r.show().c_str()));
        }
    }
    if (cl.count(A) && cl[A].conn) closec(A, false);
    if (!v.hit) quiesce();
    pipelined = pp;
}
// replace the index files of ns by what the repository's rebuild tool makes of its data files
void Runner::rebuild(const Step &s) {
    if (alive()) return;
    Str nm = resolve(0, s.a[0]);
    for (auto &m : cand) if (!m.ns.count(nm) || m.ns[nm].seq != cand[0].ns[nm].seq) return;
    bool seq = cand[0].ns[nm].seq; // a command cut by a crash can leave a record whose id is given again: only complete histories of a sequential namespace are the same again
    if (seq) for (auto &m : cand) for (auto &l : m.ns[nm].log) if (l.maybe || l.anyid) { S->probe["rebuild_seq_skipped"]++; return; }
    Str dir = root_data() + "/" + nm; DataNs d = read_data(dir);
    if (d.torn || !d.err.empty()) return; // a restart repairs the data file first
    datacheck(nm); if (v.hit) return;
    Str out = "/db/rebuilt";
    for (auto &k : S->vfs.snapshot(out)) S->vfs.unlink(k.first);
    S->vfs.mkdirs(out);
    Module *tool = module_by_name("rebuild");
    Proc *p = S->spawn(tool, {"index-rebuild", "--data", root_data(), "--index", out, "--namespace", nm, "--mode", seq ? "seq" : "user"});
    uint64_t f0 = S->nfired; std::vector<Fault> keep = S->faults; S->faults.clear();
    if (s.a.size() > 1) { Fault f; f.kind = fk_parse(s.a[1]); f.err = 5; f.skip = atoi(AS(s, 2, "0").c_str()); f.part = atoi(AS(s, 3, "-1").c_str()); S->faults.push_back(f); }
    S->resume(p); bool fired = S->nfired != f0; S->faults = keep;
    if (fired && p->st == P_EXITED && p->code) { S->probe["rebuild_refused"]++; return; } // (it said that it failed: nothing is replaced)
    if (p->st != P_EXITED || p->code != 0) { fail("rebuild.failed", fmt("index-rebuild of %s: %s, code %d%s%s", nm.c_str(), pstate_name[p->st], p->code, p->corrupt.empty() ? "" : ", ", p->corrupt.c_str())); return; }
    S->probe[seq ? "rebuild_seq" : "rebuild"]++;
    Str idx = root_index() + "/" + nm; std::vector<std::pair<Str, Str>> put;
    for (auto &k : S->vfs.snapshot(idx)) { Str b = k.first.substr(idx.size() + 1); if (b[0] == 'i' && b.find('/') == Str::npos) S->vfs.unlink(k.first); }
    for (auto &k : S->vfs.snapshot(out + "/" + nm)) { Str b = k.first.substr(out.size() + nm.size() + 2); if (b[0] == 'i') put.push_back({idx + "/" + b, k.second}); }
    for (auto &x : put) S->vfs.put(x.first, x.second);
    // the data files say what the database holds now
    if (seq) { for (auto &m : cand) m.ns[nm].cursors.clear(); return; }
    for (auto &m : cand) {
        MNs &n = m.ns[nm]; n.keys.clear(); n.ekeys.clear(); n.cursors.clear(); n.curkey.clear(); n.log.clear();
        for (auto &r : d.recs) {
            LogRec l; l.key = r.id; l.val = r.payload; l.del = r.flags & 1; l.ts.fix(r.ts); n.log.push_back(l);
            universe[nm].insert(r.id);
            if (r.flags & 1) { n.keys.erase(r.id); continue; }
            MKey &k = n.keys[r.id]; if (k.ord) k.hist.push_back(k.cur);
            k.cur.val = r.payload; k.cur.ts.fix(r.ts); k.cur.num = n.nextver++; k.ord = n.nextord++;
        }
    }
}

bool Runner::special(const Step &s) {
    const Str &V = s.verb; if (instances(s) || library(s) || hooks(s) || mirror(s) || tool_step(s) || leak_step(s)) return true;
    if (V == "RESTART") { for (auto &n : torebuild) { if (!v.hit) rebuild(n); } torebuild.clear(); return true; }
    if (V == "DATACHECK") { if (S->nfault.count("power-loss")) return true; if (alive()) { quiesce(); if (!v.hit && alive()) datacheck(); if (!v.hit && alive() && AS(s, 0) == "raw") dataraw(); } return true; }
    if (V == "BADSTART") { // a start-up with a failing disk: what cannot be read may be missing from it, everything else is as it was, and the next start has it all
        if (alive()) quiesce();
        if (v.hit) return true;
        if (alive()) { S->kill(srv); S->nfault["kill"]++; ncrash++; after_end(); S->mono_us += 300000; }
        std::vector<Fault> keep = S->faults; S->faults.clear();
        Fault f; f.kind = fk_parse(AS(s, 0)); f.path = AS(s, 1) == "any" ? Str() : AS(s, 1); f.skip = atoi(AS(s, 2, "0").c_str()); f.err = atoi(AS(s, 3, "5").c_str()); f.part = atoi(AS(s, 4, "-1").c_str()); S->faults.push_back(f);
        uint64_t f0 = S->nfired; bool up_ = start(true); bool fired = S->nfired != f0; S->faults = keep; S->probe[fired ? "badstart_fired" : "badstart_unfired"]++;
        if (v.hit) return true;
        if (!up_ && srv->st != P_EXITED) { fail("start", fmt("the server does not end, nor start: %s, code %d%s%s", pstate_name[srv->st], srv->code, srv->corrupt.empty() ? "" : ", ", srv->corrupt.c_str())); return true; }
        if (up_) {
            std::vector<Model> before = cand; S->probe["badstart_up"]++;
            if (fired) { // the namespaces that were read
                if (!open(99)) { fail("refused", "the server does not accept connections"); return true; }
                OpP o = issue(99, {"NSLIST"}); if (o) o->tag = "-"; quiesce(); if (v.hit || !alive()) return true;
                std::set<Str> got; if (o && o->replied) for (auto &x : o->r.a) got.insert(x.s);
                for (auto &m : cand) for (auto it = m.ns.begin(); it != m.ns.end();) { if (!got.count(it->first)) { S->probe["badstart_missing"]++; it = m.ns.erase(it); } else ++it; }
                if (!got.count(DEFNS)) { fail("ns.list", "the server runs without the namespace default"); return true; }
            }
            verify(AS(s, 5, "gis")); if (v.hit) return true;
            cand = before;
            if (AS(s, 6) == "stop") { ending = true; open(98); if (cand[0].hasadmin) { issue(98, {"AUTH", cand[0].adminpwd}); quiesce(); } issue(98, {"STOP"}); quiesce(); if (alive() && !v.hit) fail("stop", "the server does not end after STOP"); ending = false; }
            else { S->kill(srv); after_end(); }
            cand = before; for (auto &m : cand) m.restart();
        }
        S->mono_us += 300000;
        if (!v.hit) start();
        return true;
    }
    if (V == "REBUILD") { torebuild.push_back(s); return true; }
    return false;
}

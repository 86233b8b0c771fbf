// Front end: seeded search over plans, confirmation, minimisation, replay, evidence.
#include "run.h"
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <csignal>
#include <poll.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <algorithm>

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static Str slurp(const Str &p) { Str s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static Str esc(const Str &s) { Str o; for (unsigned char c : s) { if (c == '%' || c < 32 || c > 126) o += fmt("%%%02x", c); else o += (char) c; } return o; }
static Str unesc(const Str &s) { Str o; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size()) { o += (char) strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else o += s[i]; return o; }
static Str json(const Str &s) { Str o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char) c; } else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += (char) c; } return o + "\""; }

static Str serialize(const Outcome &o) {
    Str s = fmt("R %d %d %lx %ld %lu %lu %lu %lu %lu %lu\n", o.v.hit, o.v.step, (unsigned long) o.hash, (long) o.simus, (unsigned long) o.ops, (unsigned long) o.acked, (unsigned long) o.crashes, (unsigned long) o.restarts, (unsigned long) o.verifies, (unsigned long) o.nsys);
    if (o.v.hit) s += "V " + esc(o.v.kind) + " " + esc(o.v.why) + "\n";
    for (auto &f : o.foreign) s += "G " + esc(f.first) + " " + esc(f.second) + "\n";
    for (auto &f : o.faults) s += fmt("F %s %lu\n", f.first.c_str(), (unsigned long) f.second);
    for (auto &f : o.probes) s += fmt("P %s %lu\n", f.first.c_str(), (unsigned long) f.second);
    for (auto &f : o.cmds) s += fmt("C %s %lu\n", esc(f.first).c_str(), (unsigned long) f.second);
    s += "S"; int n = 0; for (auto x : o.states) { if (++n > 4000) break; s += fmt(" %lx", (unsigned long) x); } s += "\nEND\n";
    return s;
}
static bool deserialize(const Str &t, Outcome &o) {
    size_t p = 0; bool end = false;
    while (p < t.size()) {
        size_t e = t.find('\n', p); if (e == Str::npos) break; Str l = t.substr(p, e - p); p = e + 1;
        if (l.empty()) continue;
        if (l == "END") { end = true; break; }
        char k[400]; unsigned long n; 
        if (l[0] == 'R') { int h; unsigned long hs, a, b, c, d, q, z; long su; if (sscanf(l.c_str(), "R %d %d %lx %ld %lu %lu %lu %lu %lu %lu", &h, &o.v.step, &hs, &su, &a, &b, &c, &d, &q, &z) != 10) return false; o.v.hit = h; o.hash = hs; o.simus = su; o.ops = a; o.acked = b; o.crashes = c; o.restarts = d; o.verifies = q; o.nsys = z; }
        else if (l[0] == 'V') { size_t s = l.find(' ', 2); o.v.kind = unesc(l.substr(2, s - 2)); o.v.why = unesc(l.substr(s + 1)); }
        else if (l[0] == 'G') { size_t s = l.find(' ', 2); o.foreign.push_back({unesc(l.substr(2, s - 2)), unesc(l.substr(s + 1))}); }
        else if (l[0] == 'F' && sscanf(l.c_str(), "F %399s %lu", k, &n) == 2) o.faults[k] = n;
        else if (l[0] == 'P' && sscanf(l.c_str(), "P %399s %lu", k, &n) == 2) o.probes[k] = n;
        else if (l[0] == 'C' && sscanf(l.c_str(), "C %399s %lu", k, &n) == 2) o.cmds[k] = n;
        else if (l[0] == 'S') { const char *c = l.c_str() + 1; char *q; while (*c) { unsigned long x = strtoul(c, &q, 16); if (q == c) break; o.states.insert(x); c = q; } }
    }
    return end;
}
// one run in a process of its own
struct Job { pid_t pid = -1; int fd = -1; Str out; uint64_t idx = 0; double t0 = 0; Str errf; };
static Job launch(const Plan &p, const Str &prop, uint64_t idx) {
    Job j; j.idx = idx; int pp[2]; if (pipe(pp)) { perror("pipe"); exit(2); }
    fflush(stdout); fflush(stderr);
    j.pid = fork(); if (j.pid < 0) { perror("fork"); exit(2); }
    if (j.pid == 0) {
        close(pp[0]);
        if (g_asan) { dup2(pp[1], 2); } // the sanitizer's report
        Outcome o = execute(p, [&](const Str &k) { return relevant_kind(prop, k); }, false, false);
        Str s = serialize(o); size_t w = 0; while (w < s.size()) { ssize_t n = write(pp[1], s.data() + w, s.size() - w); if (n <= 0) break; w += n; }
        _exit(0);
    }
    close(pp[1]); j.fd = pp[0]; j.t0 = now(); return j;
}
// 1: finished, fills o. -1: simulator failure
static int reap_job(Job &j, Outcome &o, bool killed) {
    close(j.fd); int st; waitpid(j.pid, &st, 0);
    o = Outcome();
    if (killed) { o.v.hit = true; o.v.kind = "hung"; o.v.why = "the run did not end within its time limit"; return 1; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && deserialize(j.out, o)) return 1;
    if (g_asan && WIFEXITED(st) && WEXITSTATUS(st) == 77) {
        o.v.hit = true; o.v.kind = "memory"; size_t k = j.out.find("ERROR: AddressSanitizer"); o.v.why = k == Str::npos ? "sanitizer report" : j.out.substr(k, j.out.find('\n', k) - k);
        size_t a = o.v.why.find(" on address"); if (a != Str::npos) o.v.why.resize(a);
        // frames of the code under test
        size_t q = k; int n = 0; while (q != Str::npos && n < 3 && (q = j.out.find(" in ", q)) != Str::npos) { Str f = j.out.substr(q + 4, j.out.find_first_of(" \n", q + 4) - q - 4); q += 4; if (f.compare(0, 2, "__") && f.compare(0, 4, "sim_")) { o.v.why += " < " + f; n++; } }
        return 1;
    }
    fprintf(stderr, "run failed: status %x, output %s\n", st, printable(j.out, 2000).c_str());
    return -1;
}
static bool run_one(const Plan &p, const Str &prop, Outcome &o, double limit = 60) {
    Job j = launch(p, prop, 0); bool killed = false;
    for (;;) {
        struct pollfd f = {j.fd, POLLIN, 0}; int r = poll(&f, 1, 200);
        if (r > 0) { char b[65536]; ssize_t n = read(j.fd, b, sizeof b); if (n <= 0) break; j.out.append(b, n); }
        if (now() - j.t0 > limit) { kill(j.pid, SIGKILL); killed = true; break; }
    }
    return reap_job(j, o, killed) == 1;
}
static bool same(const Outcome &a, const Str &kind) { return a.v.hit && a.v.kind == kind; }
static Plan minimise(Plan p, const Str &prop, const Str &kind, double budget) {
    double t0 = now(); Outcome o;
    // nothing after the violation matters
    if (run_one(p, prop, o) && same(o, kind) && o.v.step > 0) { Plan q = p; while (!q.steps.empty() && q.steps.back().id > o.v.step) q.steps.pop_back(); if (run_one(q, prop, o) && same(o, kind)) p = q; }
    for (size_t chunk = std::max<size_t>(1, p.steps.size() / 2); chunk >= 1; chunk /= 2) {
        bool again = true;
        while (again && now() - t0 < budget) {
            again = false;
            for (size_t i = 0; i + 1 <= p.steps.size() && now() - t0 < budget;) {
                Plan q = p; size_t n = std::min(chunk, p.steps.size() - i); q.steps.erase(q.steps.begin() + i, q.steps.begin() + i + n);
                if (!q.steps.empty() && run_one(q, prop, o) && same(o, kind)) { p = q; again = true; } else i += chunk;
            }
            if (chunk > 1) again = false;
        }
        if (chunk == 1) break;
    }
    // simpler configuration and shorter values
    std::vector<Str> keys; for (auto &k : p.cfg) keys.push_back(k.first);
    for (auto &k : keys) { if (k == "sched" || k == "prop" || now() - t0 > budget) continue; Plan q = p; q.cfg.erase(k); if (run_one(q, prop, o) && same(o, kind)) p = q; }
    for (size_t i = 0; i < p.steps.size(); i++) for (size_t a = 0; a < p.steps[i].a.size(); a++) {
        long n, sd; if (sscanf(p.steps[i].a[a].c_str(), "v:%ld:%ld", &n, &sd) != 2 || n <= 16 || now() - t0 > budget) continue;
        Plan q = p; q.steps[i].a[a] = fmt("v:16:%ld", sd); if (run_one(q, prop, o) && same(o, kind)) p = q;
    }
    return p;
}
struct Known { Str prop, kind, match, what; };
static std::vector<Known> load_known(const Str &path) { // "KNOWN property=<id> kind=<kind> match=<text> :: what fails"
    std::vector<Known> r; Str t = slurp(path); size_t p = 0;
    while (p < t.size()) {
        size_t e = t.find('\n', p); if (e == Str::npos) e = t.size(); Str l = t.substr(p, e - p); p = e + 1;
        if (l.compare(0, 6, "KNOWN ")) continue;
        Known k; size_t w = l.find(" :: "); if (w == Str::npos) continue; k.what = l.substr(w + 4);
        auto get = [&](const char *n) { size_t a = l.find(n); if (a == Str::npos || a > w) return Str(); a += strlen(n); size_t b = l.find(' ', a); return l.substr(a, b - a); };
        k.prop = get("property="); k.kind = get("kind="); k.match = unesc(get("match=")); r.push_back(k);
    }
    return r;
}
static int usage() { fprintf(stderr, "usage: zdbsim check --property C01 [--tier quick|thorough] [--seed N] [--runs N] [--jobs N] [--limit SECONDS]\n       zdbsim replay FILE [-v|-vv]\n       zdbsim gen --property C01 --seed N | hashes --property C01 --seed N --runs N\n"); return 2; }
static uint64_t plan_seed(const Str &prop, uint64_t seed, uint64_t i) { return mix64(hash_str(prop) ^ mix64(seed * 1000003 + i)); }
int budget_runs(const Str &prop, bool thorough);
Str real_components(const Str &prop);
int main(int argc, char **argv) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    modules_init(); signal(SIGPIPE, SIG_IGN);
    if (argc < 2) return usage();
    Str cmd = argv[1], prop, tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick", file, root = "/verif";
    uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1; int runs = -1, jobs = 8, verb = 0; double limit = -1; bool keep = false, first = false; int only = -1;
    for (int i = 2; i < argc; i++) {
        Str a = argv[i]; auto nx = [&]() { return i + 1 < argc ? Str(argv[++i]) : Str(); };
        if (a == "--property") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--runs") runs = atoi(nx().c_str());
        else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--limit") limit = atof(nx().c_str()); else if (a == "--root") root = nx(); else if (a == "-v") verb = 1; else if (a == "-vv") verb = 2; else if (a == "--keep") keep = true; else if (a == "--first") first = true; else if (a == "--only") only = atoi(nx().c_str()); else file = a;
    }
    bool thorough = tier == "thorough";
    if (cmd == "replay") {
        Plan p; Str e; if (slurp(file).empty()) { fprintf(stderr, "%s: cannot be read\n", file.c_str()); return 2; } if (!p.parse(slurp(file), e)) { fprintf(stderr, "%s: %s\n", file.c_str(), e.c_str()); return 2; }
        Str pr = p.str("prop"); uint64_t want = strtoull(p.str("expecthash", "0").c_str(), 0, 16);
        if (verb || g_asan) {
            Outcome o; if (verb) { o = execute(p, [&](const Str &k) { return relevant_kind(pr, k); }, true, verb > 1); } else if (!run_one(p, pr, o)) return 2;
            for (auto &g : o.foreign) printf("note: %s: %s\n", g.first.c_str(), g.second.c_str());
            if (o.v.hit) { printf("violation at step %d: %s: %s\nhash %lx%s\n", o.v.step, o.v.kind.c_str(), o.v.why.c_str(), (unsigned long) o.hash, want && want != o.hash ? " (differs from the recorded one)" : ""); return 1; }
            printf("no violation, hash %lx\n", (unsigned long) o.hash); return 0;
        }
        Outcome o; if (!run_one(p, pr, o)) return 2;
        for (auto &g : o.foreign) printf("note: %s: %s\n", g.first.c_str(), g.second.c_str());
        if (o.v.hit) { printf("violation at step %d: %s: %s\nhash %lx%s\n", o.v.step, o.v.kind.c_str(), o.v.why.c_str(), (unsigned long) o.hash, want ? (want != o.hash ? " (differs from the recorded one)" : " (as recorded)") : ""); return 1; }
        printf("no violation, hash %lx\n", (unsigned long) o.hash); return 0;
    }
    if (prop.empty()) return usage();
    if (cmd == "gen") { Plan p = generate(prop, plan_seed(prop, seed, std::max(0, only)), thorough); p.cfg["prop"] = prop; printf("%s", p.text().c_str()); return 0; }
    if (cmd != "check" && cmd != "hashes") return usage();
    if (runs < 0) runs = budget_runs(prop, thorough);
    if (limit < 0) limit = thorough ? 7200 : 300;
    if (only >= 0) runs = only + 1;
    double t0 = now();
    auto known = load_known(root + "/known-findings.txt");
    std::vector<Job> act; uint64_t next = std::max(0, only), done = 0; Outcome tot; uint64_t violations = 0; std::map<Str, Str> knownhit; std::map<Str, uint64_t> foreign; std::map<Str, Str> foreignwhy;
    std::set<uint64_t> hashes; std::map<uint64_t, uint64_t> hashof; std::vector<Str> samples; bool simfail = false;
    struct Hit { uint64_t idx; Outcome o; }; std::vector<Hit> hits; uint64_t stop_at = UINT64_MAX, nontrivial = 0;
    while ((next < (uint64_t) runs && next < stop_at) || !act.empty()) {
        while ((int) act.size() < jobs && next < (uint64_t) runs && next < stop_at && now() - t0 < limit) {
            Plan p = generate(prop, plan_seed(prop, seed, next), thorough); p.cfg["prop"] = prop;
            if (samples.size() < 2 && next % 7 == 0) { Str t = p.text(); samples.push_back(t.size() > 3000 ? t.substr(0, 3000) + "..." : t); }
            act.push_back(launch(p, prop, next)); next++;
        }
        if (now() - t0 >= limit && act.empty()) break;
        std::vector<struct pollfd> f; for (auto &j : act) f.push_back({j.fd, POLLIN, 0});
        poll(f.data(), f.size(), 100);
        for (size_t i = 0; i < act.size();) {
            Job &j = act[i]; bool fin = false, killed = false;
            struct pollfd q = {j.fd, POLLIN, 0};
            if (poll(&q, 1, 0) > 0) { char b[65536]; ssize_t n = read(j.fd, b, sizeof b); if (n <= 0) fin = true; else j.out.append(b, n); }
            if (!fin && now() - j.t0 > 120) { kill(j.pid, SIGKILL); fin = killed = true; }
            if (!fin) { i++; continue; }
            Outcome o; if (reap_job(j, o, killed) < 0) { simfail = true; fprintf(stderr, "run %lu of %s failed in the simulator\n", (unsigned long) j.idx, prop.c_str()); act.erase(act.begin() + i); stop_at = 0; continue; }
            done++; hashes.insert(o.hash); hashof[j.idx] = o.hash;
            if (o.acked > 5) nontrivial++;
            tot.simus += o.simus; tot.ops += o.ops; tot.acked += o.acked; tot.crashes += o.crashes; tot.restarts += o.restarts; tot.verifies += o.verifies; tot.nsys += o.nsys;
            for (auto &x : o.faults) tot.faults[x.first] += x.second; for (auto &x : o.probes) tot.probes[x.first] += x.second; for (auto &x : o.cmds) tot.cmds[x.first] += x.second;
            if (tot.states.size() < 3000000) tot.states.insert(o.states.begin(), o.states.end());
            for (auto &g : o.foreign) { if (!foreign[g.first]++) foreignwhy[g.first] = fmt("run %lu: ", (unsigned long) j.idx) + g.second; }
            if (o.v.hit) {
                bool kn = false; for (auto &k : known) if (k.prop == prop && k.kind == o.v.kind && o.v.why.find(k.match) != Str::npos) { knownhit[k.what] = o.v.why; kn = true; }
                if (!kn) { violations++; hits.push_back({j.idx, o}); if (!keep) stop_at = std::min<uint64_t>(stop_at, j.idx); if (keep) printf("run %lu: %s: %s\n", (unsigned long) j.idx, o.v.kind.c_str(), o.v.why.substr(0, 300).c_str()); }
            }
            act.erase(act.begin() + i);
        }
    }
    if (cmd == "hashes") { for (auto &h : hashof) printf("%lu %lx\n", (unsigned long) h.first, (unsigned long) h.second); return simfail ? 2 : 0; }
    if (simfail) return 2;
    double wall = now() - t0; int rc = 0; Str vio;
    for (auto &k : known) if (k.prop == prop) printf("KNOWN-FINDING: property=%s %s%s\n", prop.c_str(), k.what.c_str(), knownhit.count(k.what) ? "" : " (not hit in this run)");
    for (auto &g : foreign) fprintf(stderr, "note: %lu observation(s) outside %s: %s: %s\n", (unsigned long) g.second, prop.c_str(), g.first.c_str(), foreignwhy[g.first].substr(0, 300).c_str());
    if (!hits.empty() && !keep) {
        std::sort(hits.begin(), hits.end(), [](const Hit &a, const Hit &b) { return a.idx < b.idx; });
        if (first) { printf("%s %s run %lu: %s\n", prop.c_str(), hits[0].o.v.kind.c_str(), (unsigned long) hits[0].idx, hits[0].o.v.why.substr(0, 200).c_str()); return 1; }
        // (code that uses memory it does not own may behave differently each time: then any later run that does reproduce is reported)
        Plan p; Outcome a, b; size_t hi = 0; bool okrep = false;
        for (uint64_t extra = 0; extra < 400 && !okrep; hi++) {
            if (hi == hits.size()) { for (; extra < 400; extra++) { p = generate(prop, plan_seed(prop, seed, next), thorough); p.cfg["prop"] = prop; Hit n; n.idx = next++; if (run_one(p, prop, n.o) && n.o.v.hit) { hits.push_back(n); break; } } if (hi == hits.size()) break; }
            Hit &h = hits[hi]; p = generate(prop, plan_seed(prop, seed, h.idx), thorough); p.cfg["prop"] = prop; extra++;
            okrep = run_one(p, prop, a) && run_one(p, prop, b) && a.v.hit && b.v.hit && a.hash == b.hash && a.v.kind == h.o.v.kind && (a.hash == h.o.hash);
            if (okrep) break;
            fprintf(stderr, "run %lu does not reproduce: %s/%lx, then %s/%lx and %s/%lx\n", (unsigned long) h.idx, h.o.v.kind.c_str(), (unsigned long) h.o.hash, a.v.kind.c_str(), (unsigned long) a.hash, b.v.kind.c_str(), (unsigned long) b.hash);
        }
        if (!okrep) return 2;
        Hit h = hits[hi];
        Plan m = minimise(p, prop, h.o.v.kind, thorough ? 120 : 45);
        Outcome c; if (!run_one(m, prop, c) || !same(c, h.o.v.kind)) { m = p; c = a; }
        // the minimised run must not be a known finding in disguise
        bool kn = false; for (auto &k : known) if (k.prop == prop && k.kind == c.v.kind && c.v.why.find(k.match) != Str::npos) kn = true;
        if (kn) { m = p; c = a; }
        m.cfg["expecthash"] = fmt("%lx", (unsigned long) c.hash);
        mkdir((root + "/replays").c_str(), 0755);
        Str path = fmt("%s/replays/%s-%lu-%lu%s.plan", root.c_str(), prop.c_str(), (unsigned long) seed, (unsigned long) h.idx, g_asan ? "-asan" : "");
        FILE *f = fopen(path.c_str(), "wb"); if (!f) { perror(path.c_str()); return 2; }
        fprintf(f, "%s# %s: %s\n", m.text().c_str(), c.v.kind.c_str(), c.v.why.c_str()); fclose(f);
        // fresh process
        Str self(4096, 0); ssize_t n = readlink("/proc/self/exe", &self[0], 4095); self.resize(std::max<ssize_t>(0, n));
        int st = system(("'" + self + "' replay '" + path + "' >/dev/null").c_str());
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { fprintf(stderr, "replay of %s does not reproduce (status %x)\n", path.c_str(), st); return 2; }
        printf("seed %lu run %lu step %d: %s: %s\n%s", (unsigned long) seed, (unsigned long) h.idx, c.v.step, c.v.kind.c_str(), c.v.why.c_str(), m.text().c_str());
        vio = fmt("VIOLATION property=%s replay=%s", prop.c_str(), path.c_str()); rc = 1;
    }
    // evidence
    Str j = "{\n";
    j += fmt(" \"property\": %s, \"tier\": \"%s\", \"seed\": %lu, \"level\": \"exploration\",\n", json(prop).c_str(), thorough ? "thorough" : "quick", (unsigned long) seed);
    j += fmt(" \"wall_s\": %.3f, \"violations\": %lu,\n \"coverage\": {\n", wall, (unsigned long) violations);
    j += fmt("  \"evaluations\": %lu, \"distinct_nontrivial\": %lu,\n", (unsigned long) done, (unsigned long) std::min<uint64_t>(hashes.size(), nontrivial));
    j += "  \"rule\": \"one evaluation is one simulated run of a plan (configuration, client commands, network fragments, faults, crashes, restarts) derived from the seed and run number; a run counts as distinct when the hash of its complete event log differs from every other run, and as non-trivial when the server answered more than five commands in it\",\n";
    j += fmt("  \"runs_per_hour\": %.0f, \"simulated_seconds\": %.1f, \"commands\": %lu, \"answers_checked\": %lu, \"system_calls\": %lu, \"crashes\": %lu, \"server_starts\": %lu, \"full_verifications\": %lu, \"distinct_model_states\": %lu,\n", done / std::max(0.001, wall) * 3600, tot.simus / 1e6, (unsigned long) tot.ops, (unsigned long) tot.acked, (unsigned long) tot.nsys, (unsigned long) tot.crashes, (unsigned long) tot.restarts, (unsigned long) tot.verifies, (unsigned long) tot.states.size());
    auto mp = [&](const char *n, std::map<Str, uint64_t> &m) { j += fmt("  \"%s\": {", n); bool first = true; for (auto &x : m) { j += (first ? "" : ", ") + json(x.first) + fmt(": %lu", (unsigned long) x.second); first = false; } j += "},\n"; };
    mp("faults_injected", tot.faults); mp("conditions_reached", tot.probes); mp("commands_by_name", tot.cmds);
    j += "  \"components\": " + json(real_components(prop)) + ",\n";
    j += "  \"states_measure\": \"hash of the reference model (namespaces, settings, keys, values, versions) after each answered command\",\n";
    j += "  \"samples\": ["; for (size_t i = 0; i < samples.size(); i++) j += (i ? ", " : "") + json(samples[i]); j += "]\n },\n";
    j += " \"assumptions\": [\"the simulated kernel (file system, sockets, epoll, signals) behaves as documented in DESIGN.md\", \"sampling: runs not explored are not covered\"]\n}\n";
    mkdir((root + "/evidence").c_str(), 0755);
    FILE *f = fopen((root + "/evidence/" + prop + ".json").c_str(), "wb"); if (!f) { perror("evidence"); return 2; }
    fputs(j.c_str(), f); fclose(f);
    printf("%s: %lu runs, %lu commands, %lu crashes, %.0f simulated s, %lu distinct states, %.1f s%s\n", prop.c_str(), (unsigned long) done, (unsigned long) tot.ops, (unsigned long) tot.crashes, tot.simus / 1e6, (unsigned long) tot.states.size(), wall, next < (uint64_t) runs && hits.empty() ? " (time limit)" : "");
    if (rc) printf("%s\n", vio.c_str());
    return rc;
}

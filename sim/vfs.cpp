// Simulated disk with separate volatile and durable state.
#include "sim.h"
#include <cstdarg>
#include <cstdio>
#include <algorithm>

uint64_t hash_mem(const void *p, size_t n, uint64_t h) {
    const unsigned char *c = (const unsigned char *) p;
    while (n >= 8) { uint64_t w; memcpy(&w, c, 8); h = mix64(h ^ w); c += 8; n -= 8; }
    uint64_t w = n; memcpy(&w, c, n);
    return mix64(h ^ w ^ ((uint64_t) n << 56));
}
uint64_t hash_str(const Str &s, uint64_t h) { return hash_mem(s.data(), s.size(), h); }
Str fmt(const char *f, ...) {
    va_list ap; va_start(ap, f);
    char *p = nullptr; int n = vasprintf(&p, f, ap); va_end(ap);
    Str r(p, n < 0 ? 0 : n); free(p); return r;
}
Str printable(const Str &s, size_t max) {
    Str r;
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char c = s[i];
        if (c >= 32 && c < 127 && c != '\\') r += (char) c; else r += fmt("\\x%02x", c);
    }
    if (s.size() > max) r += fmt("...(%zu bytes)", s.size());
    return r;
}

static const size_t DHDR = 28, DREC = 18;
template <class T> static T rd(const Str &d, size_t o) { T v; memcpy(&v, d.data() + o, sizeof v); return v; }

// length of the complete record at off, 0 if incomplete
static uint64_t rec_len(const Str &d, uint64_t off) {
    if (off + DREC > d.size()) return 0;
    uint64_t l = DREC + (uint8_t) d[off] + (uint64_t) rd<uint32_t>(d, off + 1);
    return off + l <= d.size() ? l : 0;
}
static void seal(Inode *i) {
    if (!i->isdata) return;
    if (i->sealed == 0) { if (i->data.size() < DHDR) return; i->sealed = DHDR; }
    // an all-zero record header is not a record
    while (uint64_t l = rec_len(i->data, i->sealed)) {
        bool zero = true;
        for (int k = 0; k < (int) DREC; k++) if (i->data[i->sealed + k]) zero = false;
        if (zero) break;
        i->sealed += l;
    }
}

Str Vfs::norm(const Str &p) const {
    std::vector<Str> out; Str cur;
    auto push = [&]() {
        if (cur.empty() || cur == ".") { cur.clear(); return; }
        if (cur == "..") { if (!out.empty()) out.pop_back(); cur.clear(); return; }
        out.push_back(cur); cur.clear();
    };
    for (char c : p) { if (c == '/') push(); else cur += c; }
    push();
    Str r; for (auto &s : out) r += "/" + s;
    return r.empty() ? "/" : r;
}
Str Vfs::parent(const Str &p) const {
    size_t k = p.rfind('/');
    return k == 0 || k == Str::npos ? "/" : p.substr(0, k);
}
InodeP Vfs::get(const Str &p) const { auto it = tree.find(p); return it == tree.end() ? nullptr : it->second; }
static bool is_datafile(const Str &p) {
    // .../data*/<namespace>/d<digits>
    size_t k = p.rfind("/d");
    if (k == Str::npos || k + 2 >= p.size()) return false;
    for (size_t i = k + 2; i < p.size(); i++) if (p[i] < '0' || p[i] > '9') return false;
    return p.find("/data") != Str::npos;
}
InodeP Vfs::create(const Str &p, bool dir) {
    auto i = std::make_shared<Inode>();
    i->id = nextino++; i->dir = dir; i->mtime = S ? S->wall() : 0;
    i->isdata = !dir && is_datafile(p);
    if (i->isdata) {
        // every other data file of this namespace with a smaller number is now rotated
        Str d = parent(p); uint64_t num = strtoull(p.c_str() + p.rfind('/') + 2, 0, 10);
        for (auto &kv : tree) if (kv.second->isdata && !kv.second->rotated && parent(kv.first) == d && strtoull(kv.first.c_str() + kv.first.rfind('/') + 2, 0, 10) < num) { kv.second->newer = i; dirty = true; }
    }
    tree[p] = i;
    journal.push_back({MetaOp::LINK, p, i});
    return i;
}
void Vfs::unlink(const Str &p) {
    auto it = tree.find(p); if (it == tree.end()) return;
    journal.push_back({MetaOp::UNLINK, p, it->second});
    tree.erase(it);
}
int Vfs::rename(const Str &a, const Str &b) {
    auto it = tree.find(a); if (it == tree.end()) return -1;
    InodeP i = it->second;
    tree.erase(it);
    // one atomic journal unit: link new name first, then drop the old one
    if (i->dir) {
        std::vector<std::pair<Str, InodeP>> mv;
        for (auto &kv : tree) if (kv.first.compare(0, a.size() + 1, a + "/") == 0) mv.push_back(kv);
        for (auto &kv : mv) { tree.erase(kv.first); tree[b + kv.first.substr(a.size())] = kv.second; }
        tree[b] = i;
        commit_meta(); dtree = tree;   // directory renames are treated as durable at once
        return 0;
    }
    tree[b] = i;
    journal.push_back({MetaOp::LINK, b + "\n" + a, i});
    return 0;
}
static void apply_meta(std::map<Str, InodeP> &t, const MetaOp &m) {
    if (m.t == MetaOp::LINK) {
        size_t k = m.path.find('\n');
        if (k != Str::npos) { t.erase(m.path.substr(k + 1)); t[m.path.substr(0, k)] = m.ino; }
        else t[m.path] = m.ino;
    } else t.erase(m.path);
}
void Vfs::commit_meta() { for (auto &m : journal) apply_meta(dtree, m); journal.clear(); }
void Vfs::fsync(Inode *i) { commit_meta(); i->durable = i->data; i->pend.clear(); }
void Vfs::sync_all() {
    commit_meta();
    for (auto &kv : tree) { kv.second->durable = kv.second->data; kv.second->pend.clear(); }
}
void Vfs::wr(Inode *i, uint64_t off, const void *p, size_t n) {
    if (!n) return;
    if (i->isdata && S && S->monitor && !i->ignore_monitor) {
        if (off < i->sealed) {
            uint64_t m = std::min<uint64_t>(n, i->sealed - off);
            if (memcmp(i->data.data() + off, p, m) != 0)
                S->disk_violation.push_back(fmt("write of %zu bytes at offset %lu changes bytes below %lu that belong to complete records", n, (unsigned long) off, (unsigned long) i->sealed));
        }
        bool differs = off + n > i->data.size() || memcmp(i->data.data() + off, p, n) != 0;
        if (i->rotated && differs) S->disk_violation.push_back(fmt("write of %zu bytes at offset %lu to a rotated data file", n, (unsigned long) off));
        if (off > i->data.size()) S->disk_violation.push_back(fmt("write at offset %lu leaves a hole (size %lu)", (unsigned long) off, (unsigned long) i->data.size()));
    }
    bool inplace = off + n <= i->data.size();
    if (!inplace) i->data.resize(off + n, '\0');
    memcpy(&i->data[off], p, n);
    i->pend.push_back({off, Str((const char *) p, n), false, inplace});
    i->mtime = S ? S->wall() : 0;
    if (i->isdata) dirty = true;
}
// a command is complete: the records it wrote must never change again
void Vfs::settle() {
    if (!dirty) return;
    dirty = false;
    for (auto &kv : tree) if (kv.second->isdata) { seal(kv.second.get()); if (auto q = kv.second->newer.lock()) { if (q->data.size() >= DHDR && linked(q.get())) kv.second->rotated = true; kv.second->newer.reset(); } }
}
bool Vfs::linked(Inode *i) const { for (auto &kv : tree) if (kv.second.get() == i) return true; return false; }
// the process is gone: an unfinished rotation may be abandoned or completed
void Vfs::unsettle() {
    for (auto &kv : tree) if (kv.second->isdata) {
        Str d = parent(kv.first); uint64_t num = strtoull(kv.first.c_str() + kv.first.rfind('/') + 2, 0, 10); bool rot = false;
        for (auto &k : tree) if (k.second->isdata && parent(k.first) == d && strtoull(k.first.c_str() + k.first.rfind('/') + 2, 0, 10) > num && k.second->data.size() > DHDR) rot = true;
        kv.second->rotated = rot; kv.second->newer.reset();
    }
}
void Vfs::trunc(Inode *i, uint64_t n) {
    if (i->isdata && S && S->monitor && !i->ignore_monitor) {
        if (n < i->sealed) S->disk_violation.push_back(fmt("truncation to %lu removes complete records up to %lu", (unsigned long) n, (unsigned long) i->sealed));
    }
    i->data.resize(n, '\0');
    i->pend.push_back({n, Str(), true});
    if (i->sealed > n) i->sealed = n;
    if (i->isdata) dirty = true;
}
std::vector<Str> Vfs::list(const Str &dir) const {
    std::vector<std::pair<uint64_t, Str>> v;
    Str pre = dir == "/" ? "/" : dir + "/";
    for (auto it = tree.lower_bound(pre); it != tree.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) {
        Str n = it->first.substr(pre.size());
        if (n.empty() || n.find('/') != Str::npos) continue;
        v.push_back({mix64(hash_str(n) ^ hashseed), n});
    }
    std::sort(v.begin(), v.end());
    std::vector<Str> r; for (auto &x : v) r.push_back(x.second);
    return r;
}
void Vfs::mkdirs(const Str &p) {
    Str q = norm(p);
    if (get(q)) return;
    if (q != "/") mkdirs(parent(q));
    create(q, true);
}
void Vfs::put(const Str &p, const Str &content) {
    InodeP i = get(p);
    if (!i) i = create(p, false);
    i->data = content; i->ignore_monitor = true; i->sealed = 0; seal(i.get()); i->ignore_monitor = false;
    fsync(i.get());
}
std::map<Str, Str> Vfs::snapshot(const Str &prefix) const {
    std::map<Str, Str> r;
    for (auto &kv : tree) if (!kv.second->dir && kv.first.compare(0, prefix.size(), prefix) == 0) r[kv.first] = kv.second->data;
    return r;
}
// Power loss: keep what was flushed, plus a prefix of the name-space journal and any
// subset (each possibly torn at a sector boundary) of the writes since the last flush.
void Vfs::powerloss(Rng &r, double keep) {
    size_t np = 0;
    if (!journal.empty()) np = r.chance(keep) ? journal.size() : r.below(journal.size() + 1);
    for (size_t k = 0; k < np; k++) apply_meta(dtree, journal[k]);
    journal.clear();
    std::set<Inode *> seen;
    for (auto &kv : dtree) {
        Inode *i = kv.second.get();
        if (!seen.insert(i).second || i->dir) continue;
        Str d = i->durable;
        for (auto &w : i->pend) {
            if (!r.chance(keep)) {
                if (r.chance(0.5)) continue;               // lost
                if (w.trunc) continue;
                // torn: keep whole sectors of the write, in any combination
                Str was = w.inplace && w.off + w.data.size() <= d.size() ? d.substr(w.off, w.data.size()) : Str(); uint64_t off = w.off, end = w.off + w.data.size();
                while (off < end) {
                    uint64_t se = std::min<uint64_t>(end, (off / 512 + 1) * 512);
                    if (r.chance(0.5)) {
                        if (se > d.size()) d.resize(se, '\0');
                        memcpy(&d[off], w.data.data() + (off - w.off), se - off);
                    }
                    off = se;
                }
                if (!was.empty() && d.compare(w.off, was.size(), was) && d.compare(w.off, was.size(), w.data)) torn_inplace = true;
                continue;
            }
            if (w.trunc) { d.resize(w.off, '\0'); continue; }
            if (w.off + w.data.size() > d.size()) d.resize(w.off + w.data.size(), '\0');
            memcpy(&d[w.off], w.data.data(), w.data.size());
        }
        i->data = i->durable = d; i->pend.clear();
        i->lock_owner = nullptr; i->lock_sh.clear();
        if (i->isdata) { i->sealed = 0; i->rotated = false; dirty = true; }
    }
    // a file whose directory did not survive is gone
    for (auto it = dtree.begin(); it != dtree.end();) {
        Str par = parent(it->first);
        if (par != "/" && (!dtree.count(par) || !dtree[par]->dir)) it = dtree.erase(it); else ++it;
    }
    tree = dtree;
}

// ---------------------------------------------------------------- independent format parsers
DFile parse_data(const Str &d) {
    DFile f;
    if (d.size() < DHDR || d.compare(0, 4, "DAT0") != 0) { f.torn = !d.empty(); return f; }
    f.header = true; f.version = rd<uint32_t>(d, 4); f.fileid = rd<uint32_t>(d, 24);
    uint64_t off = DHDR;
    while (off < d.size()) {
        uint64_t l = rec_len(d, off);
        if (!l) { f.torn = true; break; }
        DRec r; r.off = off; uint8_t il = (uint8_t) d[off]; uint32_t dl = rd<uint32_t>(d, off + 1);
        r.prev = rd<uint32_t>(d, off + 5); r.crc = rd<uint32_t>(d, off + 9); r.flags = (uint8_t) d[off + 13]; r.ts = rd<uint32_t>(d, off + 14);
        r.id = d.substr(off + DREC, il); r.payload = d.substr(off + DREC + il, dl);
        f.recs.push_back(r); off += l;
    }
    f.end = off;
    return f;
}
IFile parse_index(const Str &d) {
    IFile f; const size_t H = 4 + 4 + 8 + 8 + 4 + 1, R = 34;
    if (d.size() < H || d.compare(0, 4, "IDX0") != 0) { f.torn = !d.empty(); return f; }
    f.header = true; f.version = rd<uint32_t>(d, 4); f.fileid = rd<uint32_t>(d, 24); f.mode = (uint8_t) d[28];
    uint64_t off = H;
    while (off < d.size()) {
        if (off + R > d.size() || off + R + (uint8_t) d[off] > d.size()) { f.torn = true; break; }
        IRec r; r.off = off; uint8_t il = (uint8_t) d[off];
        r.offset = rd<uint32_t>(d, off + 1); r.length = rd<uint32_t>(d, off + 5); r.previous = rd<uint32_t>(d, off + 9);
        r.flags = (uint8_t) d[off + 13]; r.dataid = rd<uint32_t>(d, off + 14); r.ts = rd<uint32_t>(d, off + 18);
        r.crc = rd<uint32_t>(d, off + 22); r.parentid = rd<uint32_t>(d, off + 26); r.parentoff = rd<uint32_t>(d, off + 30);
        r.id = d.substr(off + 34, il);
        f.recs.push_back(r); off += 34 + il;
    }
    return f;
}
uint32_t crc32c(const Str &s) {
    static uint32_t t[256]; static bool init = false;
    if (!init) { for (uint32_t i = 0; i < 256; i++) { uint32_t c = i; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0x82f63b78u : c >> 1; t[i] = c; } init = true; }
    uint32_t c = 0; // the file format starts from zero and does not invert
    for (unsigned char ch : s) c = t[(c ^ ch) & 0xff] ^ (c >> 8);
    return c;
}
Str sha1_hex(const Str &in) {
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    Str m = in; uint64_t bits = (uint64_t) in.size() * 8;
    m += (char) 0x80; while (m.size() % 64 != 56) m += (char) 0;
    for (int i = 7; i >= 0; i--) m += (char) (bits >> (8 * i));
    auto rol = [](uint32_t v, int n) { return (v << n) | (v >> (32 - n)); };
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[80];
        for (int i = 0; i < 16; i++) w[i] = (uint32_t)(unsigned char) m[o + 4 * i] << 24 | (uint32_t)(unsigned char) m[o + 4 * i + 1] << 16 | (uint32_t)(unsigned char) m[o + 4 * i + 2] << 8 | (unsigned char) m[o + 4 * i + 3];
        for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 80; i++) {
            uint32_t f, k;
            if (i < 20) { f = (b & c) | (~b & d); k = 0x5A827999; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ED9EBA1; }
            else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDC; } else { f = b ^ c ^ d; k = 0xCA62C1D6; }
            uint32_t t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    Str r; for (int i = 0; i < 5; i++) r += fmt("%08x", h[i]);
    return r;
}

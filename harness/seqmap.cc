// The table executed one operation at a time: long random histories over keys of all lengths, at several node
// widths, recorded for MapTrace.
#include "config.h"
#include "compiler.hh"
#include "masstree.hh"
#include "kvthread.hh"
#include "kvrow.hh"
#include "masstree_tcursor.hh"
#include "masstree_get.hh"
#include "masstree_insert.hh"
#include "masstree_split.hh"
#include "masstree_remove.hh"
#include "masstree_scan.hh"
#include "masstree_print.hh"
#include "json.hh"
#include <stdio.h>
#include <string>
#include <vector>
#include <set>
#include <algorithm>
relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
kvepoch_t global_log_epoch; volatile bool recovering = false; kvtimestamp_t initial_timestamp;
using lcdf::Json; using lcdf::Str; using lcdf::String;
struct Rng { uint64_t s; uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; } int below(int n) { return (next() >> 33) % n; } };
template <int LW, int IW> struct tparams : public Masstree::nodeparams<LW, IW> { typedef row_type* value_type; typedef Masstree::value_print<value_type> value_print_type; typedef ::threadinfo threadinfo_type; };
struct lexless { bool operator()(const std::string& a, const std::string& b) const { int c = memcmp(a.data(), b.data(), std::min(a.size(), b.size())); return c ? c < 0 : a.size() < b.size(); } };
typedef std::set<std::string, lexless> keyset;
// a leaf must be able to hold all keys of one 8-byte slice
static bool fits(const keyset& v, const std::string& s, int limit) {
    for (size_t lay = 0; lay * 8 <= s.size(); ++lay) {
        auto cls = [&](const std::string& k) { size_t r = k.size() - lay * 8; return r > 8 ? 9 : (int) r; };
        auto slice = [&](const std::string& k) { std::string x = k.substr(lay * 8, 8); x.resize(8, 0); return x; };
        unsigned set = 1u << cls(s); std::string me = slice(s);
        for (auto& k : v) if (k.size() >= lay * 8 && k.compare(0, lay * 8, s, 0, lay * 8) == 0 && slice(k) == me) set |= 1u << cls(k);
        if (__builtin_popcount(set) > limit) return false;
        if (cls(s) != 9) break;
    }
    return true;
}
static std::vector<std::string> universe(Rng& r, int n, int W) {
    keyset v; std::vector<std::string> bag; int style = r.below(6), limit = W < 15 ? W - 1 : 10;
    static const char al[] = { 0, 1, 'a', (char) 0x7f, (char) 0x80, (char) 0xff }; int nal = 2 + r.below(5), off = r.below(6);
    auto ch = [&]() -> char { return style == 0 ? (char) r.below(256) : al[(off + r.below(nal)) % 6]; };
    auto add = [&](const std::string& s) { if (s.size() <= 255 && fits(v, s, limit) && v.insert(s).second) bag.push_back(s); };
    add(""); if (r.below(2)) add(std::string(255, (char) 0xff));
    for (int tries = 0; (int) v.size() < n && tries < n * 20; ++tries) {
        std::string s;
        if (style != 0 && r.below(4)) {   // from another key: cut near a slice boundary, or anywhere, then extend
            s = bag[r.below(bag.size())]; int cut = r.below(3) ? 8 * r.below(s.size() / 8 + 1) + r.below(3) - 1 : r.below(s.size() + 1); s.resize(std::max(0, std::min((int) s.size(), cut)));
        }
        int ext; switch (style) { case 1: ext = r.below(4); break; case 2: ext = r.below(3) ? 8 : r.below(18); break; case 3: ext = r.below(20) == 0 ? r.below(256) : r.below(12); break; case 4: ext = 1; break; default: ext = r.below(11); }
        while (ext--) s += ch();
        if (style == 5 && r.below(2)) { s.clear(); int x = r.below(3 * n); char b[16]; s.assign(b, sprintf(b, r.below(3) ? "%04d" : "prefix00%04d", x)); }
        add(s);
    }
    return std::vector<std::string>(v.begin(), v.end());
}
static std::vector<std::string> U;
static int rank_of(Str s) { std::string x(s.s, s.len); auto it = std::lower_bound(U.begin(), U.end(), x, lexless()); return it != U.end() && *it == x ? int(it - U.begin()) + 1 : 0; }
static std::string text(int tok) { char b[16]; std::string s(b, sprintf(b, "%d", tok)); s.append((tok * 7919) % (tok % 10 == 0 ? 300 : 23), '.'); return s; }
static int token(Str s) { if (s.len == 0) return 0; int v = atoi(std::string(s.s, std::min(s.len, 9)).c_str()); return v > 0 && text(v) == std::string(s.s, s.len) ? v : -1; }
static std::string row_of(const row_type* row) { std::string s = "["; for (int c = 0; c < row->ncol(); ++c) s += (c ? "," : "") + std::to_string(token(row->col(c))); return s + "]"; }
static std::string num(int x) { return std::to_string(x); }
struct visitor { std::string s; int n, limit; template <typename SS, typename KK> void visit_leaf(const SS&, const KK&, threadinfo&) {}
    bool visit_value(Str key, row_type* row, threadinfo&) { s += (n ? ",[" : "[") + num(rank_of(key)) + "," + row_of(row) + "]"; ++n; return !limit || n < limit; } };
template <typename T> static void program(FILE* f, Rng& r, int W, int n, int len) {
    U = universe(r, n, W); n = U.size();
    globalepoch.store(1 + 2 * r.below(1000)); active_epoch.store(globalepoch.load());
    threadinfo::allthreads = nullptr; threadinfo& ti = *threadinfo::make(threadinfo::TI_PROCESS, 0);
    // a second, idle thread: epochs only move when it does
    T table; ti.rcu_start(); table.initialize(ti); query<row_type> q;
    std::string s; int ne = 0, tok = 0; int mode = 0, left = 0; int multi = r.below(3) == 0, seqat = 0;
    auto ev = [&](const std::string& x) { s += (ne++ ? ",{" : "{") + x + "}"; };
    auto JK = [&](int x) { return String(U[x].data(), (int) U[x].size()); };
    for (int i = 0; i < len; ++i) {
        if (left-- <= 0) { mode = r.below(6); left = 5 + r.below(n * 2); seqat = r.below(n); }
        if (i % 7 == 0) { globalepoch.store(globalepoch.load() + 2); active_epoch.store(threadinfo::min_active_epoch()); }
        if (r.below(3) == 0) { ti.rcu_quiesce(); }
        int x = mode >= 4 ? (mode == 4 ? seqat++ : seqat-- + n) % n : r.below(n), k = r.below(20); if (x < 0) x += n; if (seqat < 0) seqat += n; Str key(U[x].data(), (int) U[x].size()); std::string kx = "\"x\":" + num(x + 1);
        bool scan = k == 0, get = k == 1, grow = mode == 0 || mode == 4 || mode == 5 ? k < 15 : mode == 1 ? k < 6 : k < 11;
        if ((mode == 4 || mode == 5) && left % 3 == 0) grow = false;
        if (scan) {
            int a = r.below(2), b = r.below(3) ? 1 + r.below(8) : 0; if (r.below(8) == 0) x = r.below(2) ? 0 : n - 1; key = Str(U[x].data(), (int) U[x].size()); kx = "\"x\":" + num(x + 1);
            if (r.below(4)) { visitor v{"", 0, b}; bool up = r.below(2); int c = up ? table.scan(key, a, v, ti) : table.rscan(key, a, v, ti);
                ev("\"k\":\"" + std::string(up ? "s" : "z") + "\"," + kx + ",\"a\":" + num(a) + ",\"b\":" + num(b) + ",\"n\":" + num(c) + ",\"s\":[" + v.s + "]"); }
            else { if (!b) b = 1000; bool up = r.below(2); Json j; j.push_back(0); j.push_back(0); j.push_back(JK(x)); j.push_back(b); if (up) q.run_scan(table, j, ti); else q.run_rscan(table, j, ti);
                std::string o; int c = 0; for (int y = 2; y + 1 < j.size(); y += 2) { String kk = j[y].as_s(); o += (c ? ",[" : "[") + num(rank_of(Str(kk.data(), kk.length()))) + ",["; if (j[y + 1].is_a()) for (int z = 0; z < j[y + 1].size(); ++z) { String vv = j[y + 1][z].as_s(); o += (z ? "," : "") + num(token(Str(vv.data(), vv.length()))); } else { String vv = j[y + 1].as_s(); o += num(token(Str(vv.data(), vv.length()))); } o += "]]"; ++c; }
                ev("\"k\":\"" + std::string(up ? "S" : "Z") + "\"," + kx + ",\"a\":1,\"b\":" + num(b) + ",\"n\":" + num(c) + ",\"s\":[" + o + "]"); }
        } else if (get || k == 19) {
            int res = 0; std::string row = "[]";
            switch (r.below(4)) {
            case 0: { typename T::unlocked_cursor_type lp(table, key); if ((res = lp.find_unlocked(ti))) row = row_of(lp.value()); break; }
            case 1: { row_type* v = nullptr; if ((res = table.get(key, v, ti))) row = row_of(v); break; }
            case 2: { typename T::cursor_type lp(table, key); if ((res = lp.find_locked(ti))) row = row_of(lp.value()); lp.finish(0, ti); break; }
            default: { Json j; j.push_back(0); j.push_back(0); j.push_back(JK(x)); q.run_get(table, j, ti); res = j.size() > 2; if (res) { row = "["; for (int c = 2; c < j.size(); ++c) { String vv = j[c].as_s(); row += (c > 2 ? "," : "") + num(token(Str(vv.data(), vv.length()))); } row += "]"; } }
            }
            ev("\"k\":\"g\"," + kx + ",\"r\":" + num(res) + ",\"row\":" + row);
        } else if (grow) {
            ++tok; std::string v = text(tok); int kind = r.below(8), res;
            if (kind == 0) { res = q.run_replace(table, key, Str(v.data(), (int) v.size()), ti) == Inserted; ev("\"k\":\"l\"," + kx + ",\"v\":" + num(tok) + ",\"r\":" + num(res)); }
            else if (kind == 1) { typename T::cursor_type lp(table, key); bool fnd = lp.find_insert(ti); if (fnd) lp.finish(0, ti); else { ti.observe_phantoms(lp.node()); lp.value() = row_type::create1(Str(v.data(), (int) v.size()), ti.update_timestamp(), ti); lp.finish(1, ti); } ev("\"k\":\"i\"," + kx + ",\"v\":" + num(tok) + ",\"r\":" + num(!fnd)); }
            else { int mask = multi ? 1 + r.below(7) : 1; Json req; std::string c; for (int z = 0; z < 3; ++z) if (mask & (1 << z)) { req.push_back(z); req.push_back(String(v.data(), (int) v.size())); c += (c.empty() ? "" : ",") + num(z + 1); }
                res = q.run_put(table, key, req.array_data(), req.end_array_data(), ti) == Inserted; ev("\"k\":\"p\"," + kx + ",\"v\":" + num(tok) + ",\"c\":[" + c + "],\"r\":" + num(res)); }
        } else { int res = q.run_remove(table, key, ti); ev("\"k\":\"d\"," + kx + ",\"r\":" + num(res)); }
    }
    // the whole content, from both ends
    { visitor v{"", 0, 0}; int c = table.scan(Str("", 0), true, v, ti); ev("\"k\":\"s\",\"x\":1,\"a\":1,\"b\":0,\"n\":" + num(c) + ",\"s\":[" + v.s + "]"); }
    { visitor v{"", 0, 0}; std::string hi(255, (char) 0xff); int top = rank_of(Str(hi.data(), 255)); int c = table.rscan(Str(hi.data(), 255), true, v, ti); ev("\"k\":\"z\",\"x\":" + num(top ? top : n + 1) + ",\"a\":1,\"b\":0,\"n\":" + num(c) + ",\"s\":[" + v.s + "]"); }
    ti.rcu_stop();
    std::string ks; for (auto& u : U) { ks += ks.empty() ? "[" : ",["; for (size_t i = 0; i < u.size(); ++i) ks += (i ? "," : "") + num((unsigned char) u[i]); ks += "]"; }
    fprintf(f, "{\"w\":%d,\"keys\":[%s],\"e\":[%s]}\n", W, ks.c_str(), s.c_str()); fflush(f);
}
int main(int argc, char** argv) {
    setenv("_", "valgrind", 1);
    FILE* f = fopen(argv[1], "w"); uint64_t seed = atoll(argv[2]); int nprog = atoi(argv[3]), len = atoi(argv[4]); int only = argc > 5 ? atoi(argv[5]) : -1;
    for (int p = 0; p < nprog; ++p) {
        if (only >= 0 && p != only) continue;
        Rng r{(seed * 1000003 + p) * 0x9E3779B97F4A7C15ull + 1}; for (int i = 0; i < 5; ++i) r.next();
        fprintf(stderr, "program %d\n", p);
        switch (r.below(5)) {
        case 0: program<Masstree::basic_table<tparams<3, 3> > >(f, r, 3, 12 + r.below(50), len); break;
        case 1: program<Masstree::basic_table<tparams<4, 3> > >(f, r, 4, 12 + r.below(60), len); break;
        case 2: program<Masstree::basic_table<tparams<5, 4> > >(f, r, 5, 12 + r.below(60), len); break;
        case 3: program<Masstree::basic_table<tparams<15, 15> > >(f, r, 15, 60 + r.below(140), len); break;
        default: program<Masstree::basic_table<tparams<15, 15> > >(f, r, 15, 20 + r.below(60), len); break;
        }
    }
    fclose(f); return 0;
}

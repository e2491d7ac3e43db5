// Scenarios: a table width, a key universe, a set-up, and thread programs.
#pragma once
#include <string>
#include <vector>
#include <sstream>
#include <algorithm>
#include <string.h>
#include "vsched.hh"

struct Op {
    char k;            // g get, p put, l replace, d remove, i insert-if-absent, s scan, z rscan, q quiesce/drain step, t tick, v scan+validate, w lookup+validate
    int key = 0;       // universe index (start key for scans; -1 = empty string start)
    int a = 0, b = 0;  // p: column mask (bit c), scans: a = inclusive, b = limit (0 = none)
    int tok = 0;       // value token of the write
};
struct Scenario {
    int W = 3, ncol = 1; bool rcu = false; bool post = false; bool startstop = false; int drain = 0;
    std::vector<std::string> keys;                 // sorted, distinct
    std::vector<Op> setup;
    std::vector<std::vector<Op>> th;
    std::vector<vs::Seg> order;                    // directed schedule; n = 0: to be varied

    static std::string hex(const std::string& s) { static const char* d = "0123456789abcdef"; std::string r = "x"; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
    static std::string unhex(const std::string& s) { std::string r; for (size_t i = 1; i + 1 < s.size(); i += 2) r += (char) strtol(s.substr(i, 2).c_str(), 0, 16); return r; }
    static std::string opstr(const Op& o) { std::ostringstream x; x << o.k << ':' << o.key << ':' << o.a << ':' << o.b; return x.str(); }
    static Op parseop(const std::string& s) { Op o; o.k = s[0]; sscanf(s.c_str() + 1, ":%d:%d:%d", &o.key, &o.a, &o.b); return o; }
    std::string str() const {
        std::ostringstream x;
        x << "W " << W << " ncol " << ncol << " rcu " << rcu << " post " << post << " ss " << startstop << " drain " << drain << " keys " << keys.size();
        for (auto& k : keys) x << ' ' << hex(k);
        x << " setup " << setup.size(); for (auto& o : setup) x << ' ' << opstr(o);
        x << " threads " << th.size(); for (auto& t : th) { x << " ops " << t.size(); for (auto& o : t) x << ' ' << opstr(o); }
        if (!order.empty()) { x << " order " << order.size(); for (auto& g : order) x << ' ' << (int) g.fiber << g.mode << g.n; }
        return x.str();
    }
    static Scenario parse(const std::string& s) {
        std::istringstream x(s); Scenario c; std::string w; size_t n;
        x >> w >> c.W >> w >> c.ncol >> w >> c.rcu >> w >> c.post >> w >> c.startstop >> w >> c.drain >> w >> n;
        for (size_t i = 0; i < n; ++i) { x >> w; c.keys.push_back(unhex(w)); }
        x >> w >> n; for (size_t i = 0; i < n; ++i) { x >> w; c.setup.push_back(parseop(w)); }
        size_t nt; x >> w >> nt;
        for (size_t t = 0; t < nt; ++t) { c.th.emplace_back(); x >> w >> n; for (size_t i = 0; i < n; ++i) { x >> w; c.th.back().push_back(parseop(w)); } }
        if (x >> w >> n && w == "order") for (size_t i = 0; i < n; ++i) { x >> w; vs::Seg g{(int8_t) (w[0] - '0'), w[1], (uint32_t) atoi(w.c_str() + 2)}; c.order.push_back(g); }
        if (!std::is_sorted(c.keys.begin(), c.keys.end())) { fprintf(stderr, "scenario keys out of order\n"); exit(2); }
        c.tokens(); return c;
    }
    void tokens() { int t = 1; for (auto& o : setup) o.tok = t++; for (auto& v : th) for (auto& o : v) o.tok = t++; }
};

// A leaf must be able to hold every key that shares its 8-byte slice (up to 10
// length classes), so narrow tables only get universes with few of them.
inline bool fits_width(const std::vector<std::string>& v, const std::string& s, int limit) {
    for (size_t lay = 0; lay * 8 <= s.size(); ++lay) {
        auto cls = [&](const std::string& k) { size_t r = k.size() - lay * 8; return r > 8 ? 9 : (int) r; };
        auto slice = [&](const std::string& k) { std::string x = k.substr(lay * 8, 8); x.resize(8, 0); return x; };
        unsigned set = 1u << cls(s); std::string me = slice(s);
        for (auto& k : v) if (k.size() >= lay * 8 && k.compare(0, lay * 8, s, 0, lay * 8) == 0 && slice(k) == me) set |= 1u << cls(k);
        if (__builtin_popcount(set) > limit) return false;
        if (cls(s) != 9) break;
    }
    return true;
}
// ---- key universes ---------------------------------------------------------
inline std::vector<std::string> make_universe(vs::rng& r, int n, int kind, int W = 15) {
    std::vector<std::string> v;
    auto add = [&](std::string s) { if (fits_width(v, s, W <= 3 ? 2 : W <= 4 ? 3 : 10) && std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s); };
    int tries = 0;
    while ((int) v.size() < n && tries++ < 500) {
        std::string s;
        switch (kind) {
        case 0: // single slice, short keys
            { int L = 1 + r.below(2); for (int i = 0; i < L; ++i) s += "abcdefghij"[r.below(10)]; break; }
        case 1: // one shared 8-byte prefix: everything lands in one second layer
            { s = "prefix00"; int L = r.below(3); for (int i = 0; i < L; ++i) s += "abcde"[r.below(5)]; break; }
        case 2: // a few prefixes, suffixes that collide in the second slice too
            { s = r.below(2) ? "AAAAAAAA" : "BBBBBBBB"; if (r.below(3)) { s += r.below(2) ? "CCCCCCCC" : "DDDDDDDD"; } int L = r.below(3); for (int i = 0; i < L; ++i) s += "ab"[r.below(2)]; break; }
        case 3: // same 8 bytes at every length, with NULs
            { static const char base[] = "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0"; s = std::string(base, r.below(18)); if (r.below(3) == 0) s += (char) r.below(3); break; }
        case 4: // mix
            { s = std::string("mmmmmmmmmmmmmmmmmmmm").substr(0, r.below(18)); if (r.below(2)) s += "az"[r.below(2)]; break; }
        case 5: // deep shared prefix with one outsider either side
            { int c = r.below(6); if (c == 0) s = "A"; else if (c == 1) s = "z"; else { s = "kkkkkkkkkkkkkkkk"; s += "pqrstuvw"[r.below(8)]; } break; }
        case 6: // boundary bytes
            { int L = r.below(10); for (int i = 0; i < L; ++i) s += "\x00\x01\x7f\x80\xff"[r.below(5)]; break; }
        case 7: // two-digit keys, dense (B+-tree structure)
            { int x = r.below(40); s += '0' + x / 10; s += '0' + x % 10; break; }
        case 8: // dense second layer plus first-layer neighbours
            { int x = r.below(40); s = r.below(4) ? "pppppppp" : "ppppppp"; s += '0' + x / 10; s += '0' + x % 10; break; }
        case 9: // few keys all sharing slices and length classes around 8
            { s = std::string("qqqqqqqqqqqqqqqqqq").substr(0, 6 + r.below(5)); if (r.below(2)) s += (char) ('a' + r.below(3)); break; }
        default: s = "x";
        }
        add(s);
    }
    std::sort(v.begin(), v.end(), [](const std::string& a, const std::string& b) { int c = memcmp(a.data(), b.data(), std::min(a.size(), b.size())); return c ? c < 0 : a.size() < b.size(); });
    return v;
}

// kpermuter<W>: every legal value and every operation for small widths, random walks for all widths.
#include "config.h"
#include "kpermuter.hh"
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <set>
#include <vector>
#include <deque>
#include <map>
#include "vsched.hh"
typedef std::vector<int> V;
static std::string js(const V& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += std::to_string(v[i]); } return s + "]"; }
template <int W> struct T {
    typedef kpermuter<W> K; static FILE* out; static long nops, nval;
    static V list(const K& k) { V v; for (int i = 0; i < W; ++i) v.push_back(k[i]); return v; }
    static std::string step(const char* o, int a, int b, int r, const K& k) {
        V f; auto x = k.value_from(0); for (int i = 0; i < W; ++i) { f.push_back((int) (x & 15)); x >>= 4; }
        ++nops; return std::string("{\"o\":\"") + o + "\",\"a\":" + std::to_string(a) + ",\"b\":" + std::to_string(b) + ",\"r\":" + std::to_string(r) + ",\"l\":" + js(list(k)) + ",\"s\":" + std::to_string(K::size(k.value()) == k.size() ? k.size() : -1) + ",\"k\":" + std::to_string(k.back()) + ",\"f\":" + js(f) + "}";
    }
    // apply op number `which`; returns false when its precondition does not hold
    static bool apply(K& k, int which, int a, int b, std::string& s) {
        int n = k.size(), r = -1; const char* nm;
        switch (which) {
        case 0: if (n >= W || a > n || b) return false; nm = "ins"; r = k.insert_from_back(a); break;
        case 1: if (n >= W || a > n || b < n || b >= W) return false; nm = "sel"; k.insert_selected(a, b); break;
        case 2: if (a >= n || b) return false; nm = "rem"; k.remove(a); break;
        case 3: if (a >= n || b) return false; nm = "rtb"; k.remove_to_back(a); break;
        case 4: if (a > b || b > n) return false; nm = "rot"; k.rotate(a, b); break;
        case 5: if (a >= W || b >= W) return false; nm = "exc"; k.exchange(a, b); break;
        case 6: if (a >= W || b >= W) return false; nm = "exv"; k.exchange_values(a, b); break;
        case 7: if (b) return false; nm = "siz"; k.set_size(a); break;
        default: return false; }
        s = step(nm, a, b, r, k); return true;
    }
    static void head(const K& k, int b) { fprintf(out, "{\"w\":%d,\"b\":%d,\"l\":%s,\"s\":%d,\"o\":[", W, b, js(list(k)).c_str(), k.size()); }
    static void exhaustive() {
        std::set<std::pair<V,int>> seen; std::deque<K> q; K e = K::make_empty(); q.push_back(e); seen.insert({list(e), e.size()});
        while (!q.empty()) { K k = q.front(); q.pop_front(); ++nval; head(k, 1); bool c = false;
            for (int o = 0; o < 8; ++o) for (int a = 0; a <= W; ++a) for (int b = 0; b <= W; ++b) { K x = k; std::string s; if (!apply(x, o, a, b, s)) continue;
                fprintf(out, "%s%s", c ? "," : "", s.c_str()); c = true;
                bool sane = x.size() >= 0 && x.size() <= W; if (sane && seen.size() < 200000 && seen.insert({list(x), x.size()}).second) q.push_back(x); }
            fprintf(out, "]}\n"); }
    }
    static void walks(uint64_t seed, int n, int len) {
        vs::rng r(seed * 131 + W);
        for (int i = 0; i < n; ++i) { K k = K::make_empty(); head(k, 0); bool c = false;
            for (int j = 0; j < len; ++j) { std::string s;
                if (r.below(25) == 0) { int m = (int) r.below(W + 2) - 1; k = m < 0 ? K(K::make_empty()) : K(K::make_sorted(m)); s = step("new", m, 0, -1, k); }
                else { static const int pick[] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 5, 6, 7}; int o = pick[r.below(15)]; int a = r.below(W + 1), b = (o == 1 || o >= 4) && o != 7 ? r.below(W + 1) : 0; if (!apply(k, o, a, b, s)) continue; }
                fprintf(out, "%s%s", c ? "," : "", s.c_str()); c = true; if (k.size() < 0 || k.size() > W) break; }
            fprintf(out, "]}\n"); }
    }
};
template <int W> FILE* T<W>::out; template <int W> long T<W>::nops; template <int W> long T<W>::nval;
static long tot, vals;
template <int W> static void go(FILE* f, int ex, uint64_t seed, int n, int len) { T<W>::out = f; if (W <= ex) T<W>::exhaustive(); T<W>::walks(seed, n, len); tot += T<W>::nops; vals += T<W>::nval; if (W <= ex) printf("%d:%ld ", W, T<W>::nval); }
int main(int argc, char** argv) { // out exhaustive-up-to seed walks length
    FILE* f = fopen(argv[1], "w"); int ex = atoi(argv[2]); uint64_t s = atoll(argv[3]); int n = atoi(argv[4]), l = atoi(argv[5]);
    go<1>(f, ex, s, n, l); go<2>(f, ex, s, n, l); go<3>(f, ex, s, n, l); go<4>(f, ex, s, n, l); go<5>(f, ex, s, n, l); go<6>(f, ex, s, n, l); go<7>(f, ex, s, n, l);
    go<8>(f, ex, s, n, l); go<9>(f, ex, s, n, l); go<10>(f, ex, s, n, l); go<11>(f, ex, s, n, l); go<12>(f, ex, s, n, l); go<13>(f, ex, s, n, l); go<14>(f, ex, s, n, l); go<15>(f, ex, s, n, l);
    printf("\n%ld %ld\n", tot, vals); fclose(f); return 0;
}

// Small concurrent objects under the deterministic scheduler: node versions and leaf links.
#include "config.h"
#include "compiler.hh"
#include "nodeversion.hh"
#include "btree_leaflink.hh"
#include "vsched.hh"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>

struct Ev { const char* k; int t, o, a, b, c, d; };
enum { MAXEV = 4000, MAXOBJ = 64, MAXOP = 8 };
static Ev ev[MAXEV]; static int nev;
static void log(const char* k, int t, int o, int a = 0, int b = 0, int c = 0, int d = 0) { if (nev >= MAXEV) vs::fail("harness", "too many events"); ev[nev++] = Ev{k, t, o, a, b, c, d}; }
struct Op { char k; int o, a, b; };
struct Prog { int np, n[4]; Op op[4][MAXOP]; int n0, variant; };
static Prog P;

// ---- node versions -------------------------------------------------------------
template <typename PP> struct NV {
    typedef nodeversion<PP> V;
    struct node { V v; uint64_t d0, pad[7], d1; explicit node(bool leaf) : v(leaf), d0(0), d1(0) {} };
    // the table of objects is not memory of the tested code: no scheduling points
    static node* obj[MAXOBJ]; static int nobj; static int tok;
    static void setup() { nobj = 0; tok = 0; for (int i = 0; i < P.n0; ++i) { obj[i] = new node(P.variant & 1); obj[i]->v.mark_root(); ++nobj; } }
    static void thread(int t) {
        for (int i = 0; i < P.n[t]; ++i) { Op& o = P.op[t][i]; int x = o.o % nobj; node* n = obj[x];
            if (o.k == 'r') {
                log("R", t, x); V v = n->v.stable(); log("r", t, x, v.isleaf(), v.is_root(), v.deleted(), v.inserting() || v.splitting());
                int tries = o.a; uint64_t a, b;
                do { a = *(volatile uint64_t*) &n->d0; fence(); b = *(volatile uint64_t*) &n->d1; } while (tries--);
                log("V", t, x); bool ch = n->v.has_changed(v); log("v", t, x, !ch, a, b, 0);
                log("X", t, x); bool sp = n->v.has_split(v); log("x", t, x, sp);
                continue;
            }
            if (o.b & 1) { bool got = false; for (int q = 0; q < 1 + (o.b >> 1); ++q) if ((got = n->v.try_lock())) break; if (!got) { log("F", t, x); continue; } }
            else if (o.b & 2) { V v = n->v; v = n->v.lock(v, relax_fence_function()); if (!v.locked()) log("bad", t, x); }
            else n->v.lock();
            log("L", t, x, n->v.locked());
            if (o.k == 'l') { log("U", t, x, 0); n->v.unlock(); log("u", t, x, 0); continue; }
            int tk = ++tok; bool split = o.k == 's';
            log("M", t, x, split ? 2 : 1, tk);
            if (o.a == 0) { if (split) n->v.mark_split(); else n->v.mark_insert(); } else if (o.a == 1) n->v.mark_change(split); else if (split) n->v.mark_split(); else { V c = n->v; n->v.mark_insert(c); }
            log("m", t, x, split ? 2 : 1, tk);
            int y = -1;
            if (split && nobj < MAXOBJ - 4 && (o.b & 4)) {          // hand-off: the new sibling starts out locked
                node* c = new node(P.variant & 1); c->v.assign_version(n->v); c->d0 = c->d1 = 0; int id; obj[id = nobj] = c; y = id; log("A", t, y, c->v.locked(), tk); nobj = id + 1;
                *(volatile uint64_t*) &c->d0 = tk; fence(); *(volatile uint64_t*) &c->d1 = tk; }
            *(volatile uint64_t*) &n->d0 = tk; fence(); *(volatile uint64_t*) &n->d1 = tk; fence();
            if (y >= 0 && (o.b & 8)) { log("U", t, y, 2, tk); obj[y]->v.unlock(); log("u", t, y, 2, tk); }
            log("U", t, x, split ? 2 : 1, tk); if (o.b & 16) { V c = n->v; n->v.unlock(c); } else n->v.unlock(); log("u", t, x, split ? 2 : 1, tk);
            if (y >= 0 && !(o.b & 8)) { log("U", t, y, 2, tk); obj[y]->v.unlock(); log("u", t, y, 2, tk); }
        }
    }
    static void gen(vs::rng& r) {
        P.np = 2 + r.below(3); P.n0 = 1 + (r.below(3) == 0); P.variant = r.below(2);
        for (int t = 0; t < P.np; ++t) { P.n[t] = 1 + r.below(3); bool reader = r.below(3) == 0;
            for (int i = 0; i < P.n[t]; ++i) P.op[t][i] = Op{reader ? (r.below(5) ? 'r' : 'i') : "iissrl"[r.below(6)], (int) r.below(4), (int) r.below(3), (int) (r.next() & 31)}; }
    }
    static std::string emit() {
        std::string s = "{\"n\":" + std::to_string(P.n0) + ",\"l\":" + std::to_string(P.variant & 1) + ",\"e\":["; char b[160];
        for (int i = 0; i < nev; ++i) { Ev& e = ev[i]; sprintf(b, "%s[\"%s\",%d,%d,%d,%d,%d,%d]", i ? "," : "", e.k, e.t + 1, e.o + 1, e.a, e.b, e.c, e.d); s += b; }
        return s + "]}";
    }
};
template <typename PP> typename NV<PP>::node* NV<PP>::obj[MAXOBJ]; template <typename PP> int NV<PP>::nobj; template <typename PP> int NV<PP>::tok;

// sequential behaviour at the level of flags and comparisons
template <typename PP> static void seqnv(FILE* f, vs::rng& r, int n, int bits) {
    typedef nodeversion<PP> V; typedef typename PP::value_type U;
    while (n--) {
        bool leaf = r.below(2); V v(leaf); bool poke = r.below(3) == 0;
        U ones = 0; for (U b = PP::vinsert_lowbit; b != (U) PP::unused1_bit; b <<= 1) ones |= b;
        auto dopoke = [&]() { U raw; memcpy(&raw, &v, sizeof raw); raw = (raw | ones) - (U) PP::vinsert_lowbit * r.below(4) - (U) PP::vsplit_lowbit * r.below(3); memcpy((void*) &v, &raw, sizeof raw); };
        if (poke) dopoke();
        V sv[3] = {v, v, v}; std::string s; int steps = 4 + r.below(14);
        for (int i = 0; i < steps; ++i) {
            const char* k; int cnt = 1, x = r.below(100);
            auto big = [&]() { return r.below(3) ? 1 + r.below(3) : r.below(2) ? 55 + r.below(20) : bits == 64 ? 65530 + r.below(12) : 500 + r.below(3000); };
            if (v.locked()) {
                if (x < 25) { k = "mi"; if (r.below(2)) v.mark_insert(); else v.mark_insert(v); }
                else if (x < 45) { k = "ms"; if (r.below(2)) v.mark_split(); else v.mark_change(true); }
                else if (x < 50) { k = "mi"; v.mark_change(false); }
                else if (x < 55) { k = "md"; v.mark_deleted(); }
                else if (x < 58 && v.is_root()) { k = "mt"; v.mark_deleted_tree(); }
                else if (x < 66) { k = "nr"; v.mark_nonroot(); }
                else if (x < 70) { k = "mr"; v.mark_root(); }
                else { k = "un"; if (r.below(2)) v.unlock(); else v.unlock(v); }
            } else {
                if (x < 30) { k = "lo"; if (r.below(3) == 0) v.try_lock(); else v.lock(); }
                else if (x < 50) { k = "I"; cnt = big(); for (int q = 0; q < cnt; ++q) { v.lock(); v.mark_insert(); v.unlock(); } }
                else if (x < 70) { k = "S"; cnt = r.below(12) == 0 && bits == 32 ? (1 << 19) - 3 + r.below(6) : big(); for (int q = 0; q < cnt; ++q) { v.lock(); v.mark_split(); v.unlock(); } }
                else if (x < 76) { k = "mr"; v.mark_root(); }
                else if (x < 82 && poke) { k = "po"; dopoke(); }
                else { k = "sv"; cnt = r.below(3); sv[cnt] = v; }
            }
            char b[300]; sprintf(b, "%s{\"k\":\"%s\",\"n\":%d,\"f\":[%d,%d,%d,%d,%d,%d],\"s\":[[%d,%d,%d],[%d,%d,%d],[%d,%d,%d]],\"st\":%d,\"u\":[%d,%d,%d]}", i ? "," : "", k, cnt, v.locked(), v.inserting(), v.splitting(), v.isleaf(), v.is_root(), v.deleted(),
                v.has_changed(sv[0]), v.has_split(sv[0]), v.simple_has_split(sv[0]), v.has_changed(sv[1]), v.has_split(sv[1]), v.simple_has_split(sv[1]), v.has_changed(sv[2]), v.has_split(sv[2]), v.simple_has_split(sv[2]),
                v.inserting() || v.splitting() ? -1 : (v.stable().version_value() == v.version_value()),
                v.unlocked_version_value() == sv[0].unlocked_version_value(), v.unlocked_version_value() == sv[1].unlocked_version_value(), v.unlocked_version_value() == sv[2].unlocked_version_value()); s += b;
        }
        fprintf(f, "{\"p\":%d,\"poke\":%d,\"leaf\":%d,\"o\":[%s]}\n", bits, poke, leaf, s.c_str());
    }
}

// ---- leaf links -----------------------------------------------------------------
template <bool C> struct LL {
    struct node { union { node* ptr; uintptr_t x; } next_; node* prev_; nodeversion32 v; int lab, hi; bool dead; int id; enum { concurrent = C }; };
    typedef btree_leaflink<node, C> link;
    static node* obj[MAXOBJ]; static int nobj;
    static node* make(int lab, int hi) { node* n = (node*) malloc(sizeof(node)); memset((void*) n, 0, sizeof *n); n->v = nodeversion32(true); n->lab = lab; n->hi = hi; int i; n->id = i = nobj; obj[i] = n; nobj = i + 1; return n; }
    static node* next(node* n) { return reinterpret_cast<node*>(*(volatile uintptr_t*) &n->next_.x & ~(uintptr_t) 1); }
    static void setup() { nobj = 0; node* p = nullptr; for (int i = 0; i < P.n0; ++i) { node* n = make(i << 20, (i + 1) << 20); n->prev_ = p; if (p) p->next_.ptr = n; p = n; } }
    static void walk(int t) { log("W", t, 0); for (node* n = obj[0]; n; n = next(n)) log("w", t, n->lab); log("E", t, 0); }
    static void thread(int t) {
        for (int i = 0; i < P.n[t]; ++i) { Op& o = P.op[t][i];
            if (o.k == 'w') { walk(t); continue; }
            node* n = obj[o.o % nobj];
            n->v.lock();
            if (n->dead || (o.k == 'u' && n->id == 0) || (o.k == 's' && nobj >= MAXOBJ - 2)) { n->v.unlock(); continue; }
            if (o.k == 's') {
                // the new leaf is not visible to the others before it is linked
                int mid = n->lab + (n->hi - n->lab) / 2; if (mid == n->lab) { n->v.unlock(); continue; }
                node* r = (node*) malloc(sizeof(node)); memset((void*) r, 0, sizeof *r); r->v = nodeversion32(true); r->lab = mid; r->hi = n->hi; n->hi = mid;
                r->v.lock();
                log("S", t, r->lab, n->lab);
                if (o.a & 1) link::link_split(n, r); else link::link_split(n, r, relax_fence_function());
                log("s", t, r->lab);
                int q; r->id = q = nobj; obj[q] = r; nobj = q + 1;
                r->v.unlock(); n->v.unlock();
            } else {
                n->dead = true; log("U", t, n->lab);
                if (o.a & 1) link::unlink(n); else link::unlink(n, relax_fence_function());
                log("u", t, n->lab);
                n->v.unlock();
            }
        }
    }
    static void fin() {
        walk(7); node* last = nullptr; for (node* n = obj[0]; n; n = next(n)) { if (n->next_.x & 1) log("B", 7, n->lab, -1); last = n; }
        for (node* n = last; n; n = n->prev_) log("B", 7, n->lab, 1);
        log("Z", 7, 0);
    }
    static void gen(vs::rng& r) {
        P.np = C ? 2 + r.below(3) : 1; P.n0 = 2 + r.below(4); P.variant = 0; int win = 1 + r.below(P.n0), lo = r.below(P.n0 - win + 1);
        for (int t = 0; t < P.np; ++t) { P.n[t] = C ? 1 + r.below(3) : 1 + r.below(MAXOP); int reader = C && t == 0 && r.below(3);
            if (reader) P.n[t] = 1 + r.below(2);
            for (int i = 0; i < P.n[t]; ++i) P.op[t][i] = Op{reader ? 'w' : "suuusw"[r.below(6)], (int) (r.below(5) ? lo + r.below(win) : r.below(12)), (int) r.below(2), 0}; }
    }
    static std::string emit() {
        // labels become ranks
        std::map<int,int> rk; for (int i = 0; i < nev; ++i) rk[ev[i].o] = 0; for (int i = 0; i < P.n0; ++i) rk[i << 20] = 0; int q = 0; for (auto& x : rk) x.second = ++q;
        std::string s = "{\"i\":["; for (int i = 0; i < P.n0; ++i) s += (i ? "," : "") + std::to_string(rk[i << 20]); s += "],\"e\":["; char b[100];
        for (int i = 0; i < nev; ++i) { Ev& e = ev[i]; bool lab = strchr("wSsUuB", e.k[0]); sprintf(b, "%s[\"%s\",%d,%d,%d]", i ? "," : "", e.k, e.t + 1, lab ? rk[e.o] : 0, e.k[0] == 'S' ? rk[e.a] : e.a); s += b; }
        return s + "]}";
    }
};
template <bool C> typename LL<C>::node* LL<C>::obj[MAXOBJ]; template <bool C> int LL<C>::nobj;

// ---- driver -----------------------------------------------------------------------
struct F { void (*gen)(vs::rng&); void (*setup)(); void (*thread)(int); void (*fin)(); std::string (*emit)(); };
static void nofin() {}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int main(int argc, char** argv) {
    if (argc < 6) return 2;
    std::string fam = argv[1], out = argv[2]; uint64_t seed = atoll(argv[3]); double secs = atof(argv[4]); int cap = atoi(argv[5]);
    FILE* f = fopen(out.c_str(), "w"); FILE* ff = fopen((out + ".fail").c_str(), "w"); vs::rng R(seed * 31 + 7);
    if (fam == "seq") { seqnv<nodeversion_parameters<uint32_t>>(f, R, cap, 32); seqnv<nodeversion_parameters<uint64_t>>(f, R, cap, 64); fclose(f); fclose(ff); printf("%d\n", 2 * cap); return 0; }
    typedef NV<nodeversion_parameters<uint32_t>> N32; typedef NV<nodeversion_parameters<uint64_t>> N64;
    std::vector<F> fs;
    if (fam == "nv") { fs.push_back(F{N32::gen, N32::setup, N32::thread, nofin, N32::emit}); fs.push_back(F{N64::gen, N64::setup, N64::thread, nofin, N64::emit}); }
    else { fs.push_back(F{LL<true>::gen, LL<true>::setup, LL<true>::thread, LL<true>::fin, LL<true>::emit}); fs.push_back(F{LL<false>::gen, LL<false>::setup, LL<false>::thread, LL<false>::fin, LL<false>::emit}); }
    vs::arena_init(16ul << 20);
    std::unordered_set<std::string> seen; double t0 = now(); long nexec = 0, nsteps = 0, nsw = 0, nprog = 0, nfail = 0; int only = argc > 6 ? atoi(argv[6]) : -1;
    for (int s = 0; now() - t0 < secs && (int) seen.size() < cap; ++s) {
        uint64_t ps = R.next(); if (only >= 0 && s > only) break;
        vs::rng r(ps); F& fn = fs[r.below(6) == 0 ? 1 : 0]; fn.gen(r); ++nprog; uint32_t len = 0; if (only >= 0 && s != only) continue;
        vs::clear_learning(); vs::arena_reset(); vs::Policy fp; fp.kind = vs::P_FREE; nev = 0; vs::fiber_spawn([&] { fn.setup(); }); vs::Outcome o = vs::run(fp); if (!o.ok) return 3; vs::arena_snapshot();
        auto fail = [&](vs::Outcome& o, int i) { if (++nfail <= 3) { fprintf(ff, "{\"kind\":\"%s\",\"what\":\"%s\",\"program\":%d,\"run\":%d}\n", o.kind.c_str(), o.what.c_str(), s, i); fflush(ff); } };
        for (int i = 0; i < 60 && now() - t0 < secs; ++i) {
            vs::arena_restore(); nev = 0; N32::nobj = N64::nobj = LL<true>::nobj = LL<false>::nobj = P.n0; N32::tok = N64::tok = 0; vs::Policy p; p.seed = r.next(); p.all_yield = i < 4; p.max_steps = 60000; p.fair_after = 20000; int m = r.below(10);
            if (i < 4 || m < 5) { p.kind = vs::P_RANDOM; static const double q[] = {0.5, 0.3, 0.15, 0.05}; p.p = q[r.below(4)]; } else if (m < 8) { p.kind = vs::P_PCT; p.depth = 1 + r.below(5); p.len = std::max(10u, len); }
            else { p.kind = vs::P_LIST; p.first = r.below(P.np); p.list.push_back(vs::Switch{1 + r.below(std::max(2u, len)), (int8_t) r.below(P.np)}); if (r.below(2)) p.list.push_back(vs::Switch{p.list[0].step + 1 + r.below(60), (int8_t) r.below(P.np)}); }
            for (int t = 0; t < P.np; ++t) vs::fiber_spawn([&fn, t] { fn.thread(t); });
            o = vs::run(p); ++nexec; nsteps += o.steps; nsw += o.switches; len = std::max(len, o.steps);
            if (!o.ok) { fail(o, i); continue; }
            vs::fiber_spawn([&] { fn.fin(); }); o = vs::run(fp); if (!o.ok) { fail(o, i); continue; }
            std::string t = fn.emit(); if (seen.insert(t).second) fprintf(f, "%s\n", t.c_str());
        }
    }
    fclose(f); fclose(ff);
    printf("{\"executions\":%ld,\"steps\":%ld,\"switches\":%ld,\"programs\":%ld,\"failures\":%ld,\"behaviours\":%zu}\n", nexec, nsteps, nsw, nprog, nfail, seen.size());
    return 0;
}

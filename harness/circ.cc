// circular_int: all pairs at 8 bits, boundary and random pairs at 16, 32 and 64 bits; thread clocks near the wrap.
#include "config.h"
#include "compiler.hh"
#include "kvthread.hh"
#include "circular_int.hh"
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <vector>
#include "vsched.hh"
relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
static FILE* out;
typedef std::vector<long> V;
static std::string js(const V& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += std::to_string(v[i]); } return s + "]"; }
template <typename U> static std::string by(U x) { V v; for (size_t i = 0; i < sizeof(U); ++i) v.push_back((unsigned char) (x >> (8 * i))); return js(v); }
template <typename U> static std::string two(U a, U b) { return "[" + by(a) + "," + by(b) + "]"; }

static void all8() {
    typedef circular_int<uint8_t> C;
    for (int a = 0; a < 256; ++a) {
        V eq, ne, lt, gt, le, ge, sl, sle, d, p, pi, m, mi, pn, cx, cr; C A((uint8_t) a);
        for (int b = 0; b < 256; ++b) {
            C B((uint8_t) b);
            eq.push_back(A == B); ne.push_back(A != B); lt.push_back(A < B); gt.push_back(A > B); le.push_back(A <= B); ge.push_back(A >= B);
            sl.push_back(C::less(a, b)); sle.push_back(C::less_equal(a, b)); d.push_back(A - B);
            C x = A + unsigned(b); p.push_back(x.value()); x = A; x += unsigned(b); pi.push_back(x == A + int(b) ? x.value() : -1);
            x = A - unsigned(b); m.push_back(x.value()); x = A; x -= unsigned(b); mi.push_back(x == A - int(b) ? x.value() : -1);
            x = A; x += -b; C y = A; y -= b; pn.push_back(x == y && x == A + (-b) ? x.value() : -1);
            x = A; cx.push_back((b & 1 ? x.cmpxchg(B, A + 1) : x.cmpxchg((uint8_t) b, (uint8_t) (a + 1))).value()); cr.push_back(x.value());
        }
        C x = A; C y = ++x; V inc{y.value(), x.value()}; x = A; y = x++; V pinc{y.value(), x.value()}; x = A; y = --x; V dec{y.value(), x.value()}; x = A; y = x--; V pdec{y.value(), x.value()};
        fprintf(out, "{\"kind\":\"x\",\"a\":%d,\"eq\":%s,\"ne\":%s,\"lt\":%s,\"gt\":%s,\"le\":%s,\"ge\":%s,\"sl\":%s,\"sle\":%s,\"d\":%s,\"p\":%s,\"pi\":%s,\"m\":%s,\"mi\":%s,\"pn\":%s,\"cx\":%s,\"cr\":%s,\"t\":%d,\"f\":%d,\"nn\":%d,\"snn\":%d,\"inc\":%s,\"pinc\":%s,\"dec\":%s,\"pdec\":%s}\n",
            a, js(eq).c_str(), js(ne).c_str(), js(lt).c_str(), js(gt).c_str(), js(le).c_str(), js(ge).c_str(), js(sl).c_str(), js(sle).c_str(), js(d).c_str(), js(p).c_str(), js(pi).c_str(), js(m).c_str(), js(mi).c_str(), js(pn).c_str(), js(cx).c_str(), js(cr).c_str(),
            A ? 1 : 0, !A ? 1 : 0, (int) A.next_nonzero().value(), (int) C::next_nonzero(a), js(inc).c_str(), js(pinc).c_str(), js(dec).c_str(), js(pdec).c_str());
    }
}
template <typename U> static void wide(vs::rng& r, int n) {
    typedef circular_int<U> C; const U H = U(1) << (8 * sizeof(U) - 1);
    auto base = [&]() -> U { U z[] = {0, 1, H, U(H - 1), U(-1), U(H + 1), 2}; U x = r.below(4) ? z[r.below(7)] : U(r.next()); return x + U(r.below(5)) - 2; };
    auto dist = [&]() -> U { switch (r.below(7)) { case 0: return r.below(4); case 1: return H - 1 - r.below(3); case 2: return U(0) - U(r.below(4)); case 3: return H + 1 + r.below(3); case 4: return U(1) << r.below(8 * sizeof(U)); case 5: return U(U(1) << r.below(8 * sizeof(U))) - 1; default: return r.next(); } };
    while (n--) {
        U a = base(), b = r.below(8) ? U(a + dist()) : a; int k = r.below(200); C A(a), B(b);
        C x = A; C y = ++x; std::string inc = two(y.value(), x.value()); x = A; y = x++; std::string pinc = two(y.value(), x.value()); x = A; y = --x; std::string dec = two(y.value(), x.value()); x = A; y = x--; std::string pdec = two(y.value(), x.value());
        x = A; x += unsigned(k); C x2 = A; x2 += k; if (x != x2 || x != A + int(k)) x = C(U(a + k + 1));
        y = A; y -= unsigned(k); C y2 = A; y2 -= k; if (y != y2 || y != A - int(k)) y = C(U(a - k - 1));
        C z = A; z += -k; if (z != A + (-k)) z = C(U(a - k - 1));
        C c = A; U cx = (k & 1 ? c.cmpxchg(B, C(U(a + 1))) : c.cmpxchg(b, U(a + 1))).value();
        fprintf(out, "{\"kind\":\"w\",\"a\":%s,\"b\":%s,\"k\":%d,\"eq\":%d,\"ne\":%d,\"lt\":%d,\"gt\":%d,\"le\":%d,\"ge\":%d,\"sl\":%d,\"sle\":%d,\"d\":%s,\"p\":%s,\"pi\":%s,\"m\":%s,\"mi\":%s,\"pn\":%s,\"nn\":%s,\"snn\":%s,\"inc\":%s,\"pinc\":%s,\"dec\":%s,\"pdec\":%s,\"t\":%d,\"cx\":%s,\"cr\":%s}\n",
            by(a).c_str(), by(b).c_str(), k, A == B, A != B, A < B, A > B, A <= B, A >= B, C::less(a, b), C::less_equal(a, b), by(U(A - B)).c_str(),
            by((A + unsigned(k)).value()).c_str(), by(x.value()).c_str(), by((A - unsigned(k)).value()).c_str(), by(y.value()).c_str(), by(z.value()).c_str(),
            by(A.next_nonzero().value()).c_str(), by(C::next_nonzero(a)).c_str(), inc.c_str(), pinc.c_str(), dec.c_str(), pdec.c_str(), A ? 1 : 0, by(cx).c_str(), by(c.value()).c_str());
    }
}
struct fakenode { kvtimestamp_t phantom_epoch_[1]; };
static void clock(vs::rng& r, int n) {
    const uint64_t H = uint64_t(1) << 63; uint64_t z[] = {0, 1, H, H - 1, uint64_t(-1), H + 1};
    while (n--) {
        threadinfo* ti = threadinfo::make(threadinfo::TI_PROCESS, 0); fakenode f;
        // bring the clock to the start in steps that it accepts
        uint64_t goal = z[r.below(6)] + r.below(7) - 3;
        while (ti->update_timestamp() != goal) { uint64_t t = ti->update_timestamp(), d = goal - t; f.phantom_epoch_[0] = d < H / 2 ? goal : t + H / 2; ti->observe_phantoms(&f); if (ti->update_timestamp() == t) break; }
        for (int i = 0; i < 6; ++i) {
            uint64_t t = ti->update_timestamp(), x = t, d = r.below(4) ? r.below(5) : H - 5 - r.below(4); if (r.below(2)) x += d; else x -= d;
            if (r.below(2)) { uint64_t res = ti->update_timestamp(x); fprintf(out, "{\"kind\":\"t\",\"w\":1,\"t\":%s,\"x\":%s,\"r\":%s,\"u\":%s}\n", by(t).c_str(), by(x).c_str(), by(res).c_str(), by(ti->update_timestamp()).c_str()); }
            else { f.phantom_epoch_[0] = x; ti->observe_phantoms(&f); fprintf(out, "{\"kind\":\"t\",\"w\":0,\"t\":%s,\"x\":%s,\"r\":%s,\"u\":%s}\n", by(t).c_str(), by(x).c_str(), by(ti->update_timestamp()).c_str(), by(ti->operation_timestamp()).c_str()); }
        }
    }
}
int main(int, char** argv) {
    out = fopen(argv[1], "w"); vs::rng r(atoi(argv[2])); int n = atoi(argv[3]);
    all8(); wide<uint8_t>(r, n / 4); wide<uint16_t>(r, n); wide<uint32_t>(r, n); wide<uint64_t>(r, n * 2); clock(r, n / 10);
    fclose(out); return 0;
}

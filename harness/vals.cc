// Values: random and enumerated programs over Strings, Jsons and StringAccums that share storage in every way the
// interface offers; after every operation the contents of all values are compared with their earlier contents and the
// changes are recorded, for ValuesTrace.
#include "config.h"
#include "compiler.hh"
#include "json.hh"
#include "straccum.hh"
#include "string_slice.hh"
#include "vsched.hh"
#include <malloc.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <new>
using lcdf::Json; using lcdf::Str; using lcdf::String; using lcdf::StringAccum;
static long live;   // blocks allocated and not released
void* operator new(size_t n) { static long k; ++live; void* p = malloc(n ? n : 1); if (!p) abort(); memset(p, ++k % 3 ? 0 : 0xa5, n); return p; }
static void gone(void* p) { memset(p, 0xdb, malloc_usable_size(p)); free(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { --live; gone(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
static FILE* out; static vs::rng* R; static int below(int n) { return R->below(n); }
enum { NS = 4, NJ = 3, NA = 2, NV = NS + NJ + NA };   // values 1..4 are Strings, 5..7 Jsons, 8..9 StringAccums
static String S[NS]; static Json J[NJ]; static StringAccum A[NA];
static long nops, nprog;
// ---- showing values --------------------------------------------------------------
static std::string num(long x) { return std::to_string(x); }
static std::string bytes(const char* s, long n) { std::string r = "["; for (long i = 0; i < n; ++i) { if (i) r += ","; r += num((uint8_t) s[i]); } return r + "]"; }
static std::string bytes(const std::string& s) { return bytes(s.data(), s.size()); }
static std::string bytes(const String& s) { return bytes(s.data(), s.length()); }
static std::string show(const Json& j) {
    if (j.is_null()) return "[\"n\"]"; if (j.is_b()) return j.as_b() ? "[\"b\",1]" : "[\"b\",0]";
    if (j.is_i()) return "[\"i\"," + num(j.as_i()) + "]"; if (j.is_d()) return "[\"d\"," + num((long) (j.as_d() * 2)) + "]";
    if (j.is_s()) return "[\"s\"," + bytes(j.as_s()) + "]";
    if (j.is_a()) { std::string r = "[\"a\",["; for (int i = 0; i < j.size(); ++i) r += (i ? "," : "") + show(j[i]); return r + "]]"; }
    std::string r = "[\"o\",["; int n = 0; for (auto it = j.cobegin(); it != j.coend(); ++it, ++n) r += std::string(n ? "," : "") + "[\"" + std::string(it.key().data(), it.key().length()) + "\"," + show(it.value()) + "]"; if (n != j.size()) r += ",[\"(size differs)\",[\"n\"]]"; return r + "]]";
}
static std::string was[NV];
static std::string look(int v) { return v < NS ? "[\"s\"," + bytes(S[v]) + "]" : v < NS + NJ ? show(J[v - NS]) : "[\"s\"," + bytes(A[v - NS - NJ].data(), A[v - NS - NJ].length()) + "]"; }
static std::string prog;
static struct { const char* p; int n; std::string text; } held[NS];   // a pointer from c_str() is good while the string is not changed
static void begin() { ++nprog; for (int v = 0; v < NV; ++v) was[v] = look(v); for (auto& h : held) h.p = nullptr; }
static std::string op(const char*, long, long, long, long, const std::string&);
static void step(const std::string& op) {   // `op` has been carried out: what changed?
    std::string c = "["; ++nops;
    for (int v = 0; v < NV; ++v) { std::string x = look(v); if (x != was[v]) { c += (c.size() > 1 ? ",[" : "[") + num(v + 1) + "," + x + "]"; was[v] = x; } }
    if (getenv("VT")) fprintf(stderr, "%s %s\n", op.c_str(), c.c_str()); prog += (prog.empty() ? "[" : ",[") + op + "," + c + "]]";
    for (int v = 0; v < NS; ++v) if (auto& h = held[v]; h.p) {
        if (S[v].data() != h.p || S[v].length() != h.n || memcmp(h.p, h.text.data(), h.n)) h.p = nullptr;
        else if (h.p[h.n]) { h.p = nullptr; step(::op("read", v + 1, 0, 0, 0, bytes(S[v]))); }
    }
}
static void finish(long before) {
    for (auto& s : S) s = String(); for (auto& j : J) j = Json(); for (auto& a : A) { StringAccum b; a.swap(b); }
    for (auto& w : was) std::string().swap(w);
    for (auto& h : held) std::string().swap(h.text);
    fprintf(out, "{\"p\":[%s]", prog.c_str()); std::string().swap(prog); fprintf(out, ",\"left\":%ld}\n", live - before);
}
// ---- strings ------------------------------------------------------------------------
static std::string rstr(int n) { std::string s; static const char ab[] = "ab \tAz\"\\/\n0-"; while ((int) s.size() < n) s += ab[below(12)]; return s; }
static int rlen() { int x = below(20); return x < 12 ? below(6) : x < 19 ? below(40) : below(6) ? 40 + below(80) : 990 + below(60); }
static String fresh(const std::string& s) { char* p = (char*) malloc(s.size() + 1); memcpy(p, s.data(), s.size()); p[s.size()] = 'X'; String r(p, s.size()); free(p); return r; }   // (of memory that goes away)
static const char stable[] = "stable text";
static std::string op(const char* n, long a, long b = 0, long c = 0, long d = 0) { return std::string("\"") + n + "\"," + num(a) + "," + num(b) + "," + num(c) + "," + num(d) + ",[]"; }
static std::string op(const char* n, long a, long b, long c, long d, const std::string& data) { return std::string("\"") + n + "\"," + num(a) + "," + num(b) + "," + num(c) + "," + num(d) + "," + data; }
enum { O_NEW, O_STABLE, O_COPY, O_SUB, O_FRONT, O_SLICE, O_APP, O_APPPART, O_APPC, O_FILL, O_EXT, O_MUT, O_CSTR, O_MOVE, O_SWAP, O_KEEP, O_SELF, O_CASE, O_TRIM, O_CMP, O_APPSTD, N_SOPS };
static void sop(int o, int d, int s, int x, int y, const std::string& t) {
    String &D = S[d], &Q = S[s]; int n = D.length(), m = Q.length(); int w = below(4);
    switch (o) {
    case O_NEW: { if (w == 0) D = fresh(t); else if (w == 1) D.assign(t.data(), t.data() + t.size()); else if (w == 2) D = t; else D.assign(Str(t.data(), t.size())); step(op("new", d + 1, 0, 0, 0, bytes(t))); break; }
    case O_STABLE: { int k = x % 12; if (w & 1) D = String::make_stable(stable, k); else D = String::make_stable(Str(stable, k)); step(op("new", d + 1, 0, 0, 0, bytes(stable, k))); break; }
    case O_COPY: if (w == 0) D = Q; else if (w == 1) D = String(Q); else if (w == 2) D.assign(Q); else { String z(Q.internal_rep()); D = z; } step(op("copy", d + 1, s + 1)); break;
    case O_SUB: { int a = x % (2 * m + 3) - m - 1, l = y % (m + 3) - 2; if (w == 0) { D = Q.substr(a); step(op("sub", d + 1, s + 1, a, m + 1)); } else { D = Q.substr(a, l); step(op("sub", d + 1, s + 1, a, l)); } break; }
    case O_FRONT: { int k = m ? x % (m + 1) : 0; D = Q.substr(0, k); step(op("sub", d + 1, s + 1, 0, k)); break; }
    case O_SLICE: { int a = m ? x % (m + 1) : 0, b = m ? y % (m + 1) : 0; if (a > b) std::swap(a, b); const char* p = Q.begin();
        if (w == 0) D = Q.fast_substring(p + a, p + b); else if (w == 1) D = Q.substring(p + a, p + b); else if (w == 2) D.assign(p + a, p + b); else D = String(p + a, p + b); step(op("slice", d + 1, s + 1, a, b)); break; }
    case O_APP: if (w == 0) D += Q; else if (w == 1) D.append(Q); else if (w == 2) D = D + Q; else D.append(Q.begin(), Q.end()); step(op("app", d + 1, s + 1, 0, m)); break;
    case O_APPPART: { int a = m ? x % (m + 1) : 0, b = m ? y % (m + 1) : 0; if (a > b) std::swap(a, b); if (w == 0) D.append(Q.begin() + a, Q.begin() + b); else if (w == 1) D.append(Q.data() + a, b - a); else if (w == 2) D += Q.substr(a, b - a); else D.append((const unsigned char*) Q.begin() + a, (const unsigned char*) Q.begin() + b); step(op("app", d + 1, s + 1, a, b)); break; }
    case O_APPC: { char c = 'a' + x % 26; D += c; step(op("fill", d + 1, c, 1)); break; }
    case O_FILL: { int k = x % 20; D.append_fill('f', k); step(op("fill", d + 1, 'f', k)); break; }
    case O_EXT: { int k = 1 + x % 20; if (char* p = D.append_uninitialized(k)) memset(p, 'u', k); step(op("fill", d + 1, 'u', k)); break; }
    case O_MUT: if (n) { int k = x % n; char c = '0' + y % 10; char* p = w == 0 ? D.mutable_c_str() : w == 1 ? (char*) D.mutable_udata() : D.mutable_data(); bool z = w != 0 || p[n] == 0; p[k] = c; step(op("mut", d + 1, k + 1, z ? c : 999)); } break;
    case O_CSTR: { const char* p = Q.c_str(); std::string z(p, m); bool good = p[m] == 0; held[s].p = p; held[s].n = m; held[s].text = z; step(op("read", s + 1, good, 0, 0, bytes(z))); break; }
    case O_MOVE: if (d != s) { if (w & 1) D = std::move(Q); else { String z(std::move(Q)); D = z; } Q = String(); step(op("move", d + 1, s + 1)); } break;
    case O_SWAP: if (w & 1) D.swap(Q); else std::swap(D, Q); step(op("swap", d + 1, s + 1)); break;
    case O_KEEP: { if (w == 0) D.align(1 << below(4)); else if (w == 1) D.shrink_to_fit(); else if (w == 2) { String z = D.unique(); D = z; } else { String z(D); (void) z.mutable_data(); } step(op("keep", d + 1)); break; }
    case O_SELF: { int k = n ? x % (n + 1) : 0; std::string z(D.data() + k, n - k); const char* c = D.c_str(); if (z.find('\0') == std::string::npos) { if (w & 1) D = c + k; else D.assign(c + k); step(op("slice", d + 1, d + 1, k, n)); } else step(op("keep", d + 1)); break; }
    case O_CASE: D = w & 1 ? Q.lower() : Q.upper(); step(op(w & 1 ? "lower" : "upper", d + 1, s + 1)); break;
    case O_TRIM: D = w == 0 ? Q.ltrim() : w == 1 ? Q.rtrim() : Q.trim(); step(op("trim", d + 1, s + 1, w == 0 ? 1 : w == 1 ? 2 : 3)); break;
    case O_CMP: { int c = D.compare(Q); bool e = D == Q, l = D < Q, p = D.starts_with(Q); int f = m ? D.find_left(Q) : 0; bool h = !e || D.hashcode() == Q.hashcode(); step(op("cmp", d + 1, s + 1, c < 0 ? -1 : c > 0, (e ? 1 : 0) + (l ? 2 : 0) + (p ? 4 : 0) + (h ? 8 : 0), m ? "[" + num(f) + "]" : "[]")); break; }
    case O_APPSTD: D += Str(t.data(), t.size()); step(op("apps", d + 1, 0, 0, 0, bytes(t))); break;
    }
}
// ---- accumulators -----------------------------------------------------------------------
static void aop(int o, int a, int s, int x, int y, const std::string& t) {
    StringAccum& B = A[a]; int av = NS + NJ + a + 1, n = B.length();
    switch (o) {
    case 0: if (x & 1) B << S[s]; else B.append(S[s].begin(), S[s].end()); step(op("app", av, s + 1, 0, S[s].length())); break;
    case 1: B << char('a' + x % 26); step(op("fill", av, 'a' + x % 26, 1)); break;
    case 2: { int k = x % 50; if (y & 1) B.append_fill('g', k); else if (char* p = B.extend(k, y % 40)) memset(p, 'g', k); step(op("fill", av, 'g', k)); break; }
    case 3: { int k = n ? x % (n + 1) : 0; if (y & 1) B.pop_back(k); else B.adjust_length(-k); step(op("slice", av, av, 0, n - k)); break; }
    case 4: B.clear(); step(op("new", av, 0, 0, 0, "[]")); break;
    case 5: S[s] = B.take_string(); step(op("move", s + 1, av)); break;
    case 6: { StringAccum z(StringAccum::make_transfer(S[s])); B.swap(z); step(op("move", av, s + 1)); break; }   // (gives its storage away)
    case 7: { int p = n ? x % (n + 1) : 0, q = n ? y % (n + 1) : 0; if (p > q) std::swap(p, q); if (y & 1) B.append(B.data() + p, q - p); else B.append(B.begin() + p, B.begin() + q); step(op("app", av, av, p, q)); break; }
    case 8: if (n) { B[x % n] = '0' + y % 10; step(op("mut", av, x % n + 1, '0' + y % 10)); } break;
    case 9: { StringAccum z(B); z << "more"; if (y & 1) { A[1 - a] = B; step(op("copy", NS + NJ + 2 - a, av)); } else step(op("keep", av)); break; }
    case 10: { const char* p = B.c_str(); std::string z(p, n); step(op("read", av, p[n] == 0, 0, 0, bytes(z))); break; }
    case 11: { char* p = B.reserve(t.size()); memcpy(p, t.data(), t.size()); B.adjust_length(t.size()); step(op("apps", av, 0, 0, 0, bytes(t))); break; }
    case 12: { StringAccum z(std::move(S[s])); step(op("new", s + 1, 0, 0, 0, "[]")); B = std::move(z); was[av - 1] = ""; step(op("new", av, 0, 0, 0, bytes(B.data(), B.length()))); break; }
    }
}
// ---- JSON ----------------------------------------------------------------------------------
static std::vector<std::string> crowd;   // keys that share a hash bucket (if not empty)
static std::string key() { if (crowd.size() && below(4)) return crowd[below(crowd.size())]; int x = below(12); return x < 7 ? std::string(1, 'a' + below(4)) : x < 9 ? num(below(4)) : x < 11 ? "k" + num(below(14)) : "k" + num(below(80)); }
struct Key { bool num; int i; std::string k; };
typedef std::vector<Key> Path;
static Path rpath(int most) { Path p; int n = below(most + 1); while (n--) { Key k; k.num = below(3) == 0; k.i = below(3) ? below(4) : below(14); k.k = key(); p.push_back(k); } return p; }
static std::string show(const Path& p) { std::string r = "["; for (auto& k : p) r += (r.size() > 1 ? "," : "") + (k.num ? "[\"i\"," + num(k.i) + "]" : "[\"k\",\"" + k.k + "\"]"); return r + "]"; }
static const Json& at(const Json& j, const Path& p) { const Json* x = &j; for (auto& k : p) x = k.num ? &x->get(k.i) : &x->get(Str(k.k.data(), k.k.size())); return *x; }
static Json& put(Json& j, const Path& p, size_t n) { Json* x = &j; for (size_t i = 0; i < n; ++i) x = p[i].num ? &x->get_insert(p[i].i) : below(2) ? &x->get_insert(String(p[i].k)) : &x->get_insert(Str(p[i].k.data(), p[i].k.size())); return *x; }
// call f with the place j[p], written with []
template <typename T, typename F> static void place(T& j, const Path& p, size_t i, F f) {
    if (i == p.size()) f(j); else if (i == 3) abort();
    else if constexpr (std::is_same<T, Json>::value || !std::is_same<T, void>::value) {
        if (i + 1 == p.size()) { if (p[i].num) f(j[p[i].i]); else if (below(3) == 0) { const char* c = p[i].k.c_str(); f(j[c]); } else f(j[String(p[i].k)]); }
        else { auto g = [&](auto&& q) { const Key& k = p[i + 1]; if (k.num) f(q[k.i]); else f(q[String(k.k)]); }; if (p[i].num) g(j[p[i].i]); else g(j[String(p[i].k)]); }
    }
}
static Json literal(std::string& text) {
    Json j; int x = below(9);
    if (x == 0) j = Json(); else if (x == 1) j = bool(below(2)); else if (x < 4) j = below(200) - 100; else if (x == 4) j = unsigned(below(100)); else if (x == 5) j = (below(100) * 2 + 1) / 2.0;
    else if (x == 6) { j = Json(fresh(rstr(below(12)))); } else if (x == 7) { j = Json::make_array(); for (int k = below(5); k; --k) j.push_back(below(9)); } else { j = Json::make_object(); for (int k = below(4); k; --k) j.set(String(key()), below(9)); }
    text = "[\"l\"," + show(j) + "]"; return j;
}
struct Src { int kind; int v; Path p; Json lit; std::string text; };   // a value to be stored: literal, copy of a place, or a place
static Src source() { Src s; s.kind = below(5); s.v = below(NJ); if (s.kind > 1) { s.p = rpath(2); if (s.kind == 4 && s.p.empty()) s.kind = 3; s.text = "[\"v\"," + num(NS + s.v + 1) + "," + show(s.p) + "]"; } else s.lit = literal(s.text); return s; }
// hand the source to f in one of the ways an argument can be passed
template <typename F> static void give(Src& s, F f) {
    if (s.kind < 2) f(std::move(s.lit)); else if (s.kind == 4) place(J[s.v], s.p, 0, [&](auto&& q) { if constexpr (!std::is_same<std::decay_t<decltype(q)>, Json>::value) f(q); });
    else { Json z(at(J[s.v], s.p)); if (below(2)) f(z); else f(Json(z)); }
}
static void jop(int o) {
    int d = below(NJ); Json& D = J[d]; Path p = rpath(2); Src s = source(); int s1 = below(NS);
    auto log = [&](const char* n, long a = 0, long b = 0) { step(std::string("\"j_") + n + "\"," + num(NS + d + 1) + "," + show(p) + "," + s.text + "," + num(a) + ",[" + num(b) + "]"); };
    const Json& at_d = at(D, p); bool ia = at_d.is_a(), io = at_d.is_o(), in = at_d.is_null(); int n = ia || io ? at_d.size() : 0;
    if (crowd.size() && o == 23) o = io && below(3) == 0 ? 9 : 0; else if (o == 23) o = 19;
    if (crowd.size() && o < 4 && below(2)) { p.clear(); Key k{false, 0, key()}; p.push_back(k); }
    switch (o) {
    case 0: case 1: case 2: case 3: {   // store
        int w = below(5);
        if (p.empty() || w < 3) { if (s.kind == 3 && s.p.empty() && w < 2) place(D, p, 0, [&](auto&& q) { q = J[s.v]; });   // "j[k] = j"
            else if (p.empty() && s.kind == 3 && w == 2) D = at(J[s.v], s.p);                                      // "j = j's element"
            else place(D, p, 0, [&](auto&& q) { give(s, [&](auto&& x) { q = std::forward<decltype(x)>(x); }); }); }
        else if (w == 3) { Json z; give(s, [&](auto&& x) { z = std::forward<decltype(x)>(x); }); put(D, p, p.size()) = z; }
        else if (p.back().num) { Json z; give(s, [&](auto&& x) { z = std::forward<decltype(x)>(x); }); put(D, p, p.size() - 1).get_insert(p.back().i) = std::move(z); }
        else if (p.size() == 1) { give(s, [&](auto&& x) { D.set(String(p[0].k), std::forward<decltype(x)>(x)); }); }
        else { Json z; give(s, [&](auto&& x) { z = std::forward<decltype(x)>(x); }); put(D, p, p.size() - 1).set(String(p.back().k), z); }
        log("store"); break; }
    case 4: if (ia || in) { place(D, p, 0, [&](auto&& q) { give(s, [&](auto&& x) { q.push_back(std::forward<decltype(x)>(x)); }); }); log("push"); } break;
    case 5: if (ia && n) { put(D, p, p.size()).pop_back(); s.text = "[]"; log("resize", n - 1); } break;
    case 6: if (ia || in) { int k = below(4) ? below(8) : below(30); put(D, p, p.size()).resize(k); s.text = "[]"; log("resize", k); } break;
    case 7: if (ia) { int k = below(n + 1); if (p.empty()) give(s, [&](auto&& x) { D.insert(D.abegin() + k, std::forward<decltype(x)>(x)); }); else { Json z; give(s, [&](auto&& x) { z = std::forward<decltype(x)>(x); }); Json& q = put(D, p, p.size()); q.insert(q.abegin() + k, z); } log("insert", k); } break;
    case 8: if (ia) { int a = below(n + 1), b = a + below(n + 1 - a); Json& q = put(D, p, p.size()); if (b == a + 1) q.erase(q.abegin() + a); else q.erase(q.abegin() + a, q.abegin() + b); s.text = "[]"; log("cut", a, b); } break;
    case 9: if (io) { Json& q = put(D, p, p.size()); std::string k; if (n && below(3)) { int c = below(n); auto it = q.cobegin(); while (c--) ++it; k = std::string(it.key().data(), it.key().length()); } else k = key();
        long had = q.count(Str(k.data(), k.size())); long got = had; int w = below(3); if (w == 0) got = q.erase(Str(k.data(), k.size())); else if (w == 1) q.unset(Str(k.data(), k.size())); else if (had) { auto it = q.obegin(); while (it.key() != String(k)) ++it; q.erase(it); }
        s.text = "[]"; Path full = p; Key kk{false, 0, k}; (void) full; s.text = "[\"k\",\"" + k + "\"]"; log("erase", got, had); } break;
    case 10: put(D, p, p.size()).clear(); s.text = "[]"; log("clear"); break;
    case 11: if (D.is_o() && D.size() && below(3) == 0) {   // an object merged with its own element, which that very merge may replace
            int c = below(D.size()); auto it = D.cobegin(); while (c--) ++it; std::string k(it.key().data(), it.key().length()); if (it.value().is_o()) {
                Key kk{false, 0, k}; p = Path{kk}; p.push_back(kk); D.get_insert(String(k)).get_insert(String(k)) = s.kind < 2 ? Json(s.lit) : Json(at(J[s.v], s.p)); log("store");
                p.clear(); s.text = "[\"v\"," + num(NS + d + 1) + "," + show(Path{kk}) + "]"; if (below(2)) D.merge(D.get(String(k))); else { Json& q = D.get_insert(String(k)); D.merge(q); } log("merge", 0, 1); break; } }
        { const Json& sv = s.kind < 2 ? s.lit : at(J[s.v], s.p); if ((io || in) && (sv.is_o() || sv.is_null())) {
            if (p.empty() && s.kind >= 2) D.merge(at(J[s.v], s.p)); else if (s.kind == 4) place(D, p, 0, [&](auto&& q) { give(s, [&](auto&& x) { q.merge(x); }); }); else { Json z(sv); put(D, p, p.size()).merge(z); } log("merge", 0, at(D, p).is_o()); } break; }
    case 12: if (at_d.is_i() || at_d.is_null()) { const Json& sv = s.kind < 2 ? s.lit : at(J[s.v], s.p); if (sv.is_i() && sv.to_i() < 100000 && sv.to_i() > -100000 && at_d.to_i() < 1000000 && at_d.to_i() > -1000000) { int w = below(2), x = sv.to_i(); bool plus = below(2) || sv.is_u() || at_d.is_u(); bool ok = plus || true;
        if (at_d.is_u() && x < 0) break; if (!ok) break; Json z(sv); Json& q = put(D, p, p.size()); if (w) { if (plus) q += x; else q -= x; } else { if (plus) q += z; else q -= z; } log("add", plus ? 1 : -1); } } break;
    case 13: { int e = below(NJ); if (below(2)) D.swap(J[e]); else std::swap(D, J[e]); p.clear(); s.text = "[\"v\"," + num(NS + e + 1) + ",[]]"; log("swap"); break; }
    case 14: { int e = below(NJ); if (e != d) { if (below(2)) D = std::move(J[e]); else { Json z(std::move(J[e])); D = z; } J[e] = Json(); p.clear(); s.text = "[\"v\"," + num(NS + e + 1) + ",[]]"; log("move"); } break; }
    case 15: if (io || ia) { Json z; give(s, [&](auto&& x) { z = std::forward<decltype(x)>(x); }); Json& q = put(D, p, p.size()); int k = n ? below(n) : 0, c = 0, w = below(2);   // through an iterator
        if (n) { if (ia && w) (q.abegin() + k).value() = z; else if (io && w) { for (auto it = q.obegin(); it != q.oend(); ++it, ++c) if (c == k) it.value() = z; } else for (auto it = q.begin(); it != q.end(); ++it, ++c) if (c == k) it.value() = z; log("nth", k); } } break;
    case 16: { String t = at_d.to_s(); if (at_d.is_s() || in) { S[s1] = t; s.text = "[]"; log("to_s", s1 + 1); } break; }
    case 17: { if (below(2)) place(D, p, 0, [&](auto&& q) { q = S[s1]; }); else { Json z(S[s1]); put(D, p, p.size()) = z; } s.text = "[\"v\"," + num(s1 + 1) + ",[]]"; log("from_s"); break; }
    case 18: if (at_d.is_s()) { Json& q = put(D, p, p.size()); int w = below(3); s.text = "[]"; if (w == 0) { q.as_s() += S[s1]; log("apps", s1 + 1); } else if (w == 1) { if (n || q.as_s().length()) { q.as_s().mutable_data()[0] = 'M'; log("mut0"); } } else { q = q.as_s(); log("keep"); } } break;
    case 19: { Json z(at_d); String t; int w = below(4); if (w == 0) t = z.unparse(); else if (w == 1) t = z.unparse(Json::indent_depth(1 + below(4))); else if (w == 2) t = z.unparse(Json::space_separator(true)); else { StringAccum sa; z.unparse(sa); t = sa.take_string(); }
        int e = below(NJ); bool good; if (below(2)) { good = true; J[e] = Json::parse(t); } else { lcdf::Json::streaming_parser sp; const char *f = t.begin(), *l = t.end(); while (f != l && !sp.done()) { int k = 1 + below(6); if (k > l - f) k = l - f; char* m = (char*) malloc(k); memcpy(m, f, k); f += sp.consume(m, k, String(), f + k == l); free(m); } char sp1 = ' '; if (!sp.done()) sp.consume(&sp1, 1, String(), true); good = sp.success(); J[e] = sp.result(); }
        s.text = "[]"; log("text", NS + e + 1, good); break; }
    case 20: { int e = below(NJ); Path q = rpath(2); bool eq = at_d == at(J[e], q); s.text = "[\"v\"," + num(NS + e + 1) + "," + show(q) + "]"; log("eq", eq); break; }
    case 21: { int a = below(NA); if (below(2)) { const Json z(at_d); std::string x = show(z); s.text = "[]"; was[NS + d] = was[NS + d]; log("keep"); } else { A[a].clear(); step(op("new", NS + NJ + a + 1, 0, 0, 0, "[]")); } break; }
    case 22: { Json z = Json::array(D, J[(d + 1) % NJ], 1); J[(d + 2) % NJ] = z; s.text = "[]"; p.clear(); log("array", NS + (d + 1) % NJ + 1, NS + (d + 2) % NJ + 1); break; }
    }
}
int main(int, char** argv) {
    out = fopen(argv[1], "w"); vs::rng r(atoi(argv[2])); R = &r; int n = atoi(argv[3]), part = atoi(argv[4]), parts = atoi(argv[5]);
    { Json j = Json::parse("[1,2,{\"a\":3}]"); (void) j.unparse(); }
    for (int i = 0; i < n; ++i) {
        long before = live; crowd.clear(); begin(); int mix = below(3), len = 10 + below(50);
        if (mix == 1 && below(3) == 0) for (int k = 0, b = below(8); k < 80; ++k) { std::string s = "k" + num(k); if (crowd.size() < 11 && (int) (String::hashcode(s.data(), s.data() + s.size()) & 7) == b) crowd.push_back(s); }
        for (int k = 0; k < len; ++k) { int x = below(10); int where = mix == 0 ? 0 : mix == 1 ? (x < 8 ? 2 : x == 8) : (x < 4 ? 0 : x < 6 ? 1 : 2);
            if (where == 0 && x < 9) sop(below(N_SOPS), below(NS), below(NS), below(10000), below(10000), rstr(rlen())); else if (where < 2) aop(below(13), below(NA), below(NS), below(10000), below(10000), rstr(rlen())); else if (crowd.size() && below(2)) jop(23); else jop(below(23)); }
        std::vector<std::string>().swap(crowd); finish(before);
    }
    // every sequence of four of these operations on two strings
    struct T { int o, d, s, x, y; const char* t; }; static const T ts[] = { {O_NEW, 0, 0, 0, 0, "abc"}, {O_NEW, 1, 0, 0, 0, "defghijklmnopqrstuvw"}, {O_COPY, 1, 0, 0, 0, ""}, {O_COPY, 0, 1, 0, 0, ""}, {O_FRONT, 1, 0, 2, 0, ""}, {O_FRONT, 0, 1, 1, 0, ""}, {O_APPC, 0, 0, 1, 0, ""}, {O_APPC, 1, 0, 2, 0, ""}, {O_APP, 0, 1, 0, 0, ""}, {O_APP, 1, 1, 0, 0, ""}, {O_MUT, 0, 0, 1, 1, ""}, {O_MUT, 1, 0, 0, 2, ""}, {O_APPPART, 0, 0, 1, 3, ""}, {O_CSTR, 0, 0, 0, 0, ""}, {O_STABLE, 0, 0, 4, 0, ""}, {O_SLICE, 1, 1, 1, 3, ""} };
    int K = sizeof ts / sizeof *ts; long c = 0;
    for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) for (int e = 0; e < K; ++e) for (int f = 0; f < K; ++f) { if (c++ % parts != part) continue; long before = live; begin(); for (int o : {a, b, e, f}) sop(ts[o].o, ts[o].d, ts[o].s, ts[o].x, ts[o].y, ts[o].t); finish(before); }
    fclose(out); printf("{\"programs\":%ld,\"operations\":%ld}\n", nprog, nops); return 0;
}

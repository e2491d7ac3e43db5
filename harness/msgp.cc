// Messages: what the real encoder writes, and what the real decoders make of whole, divided, truncated, damaged and
// foreign messages, recorded for MsgpackTrace.
#include "config.h"
#include "compiler.hh"
#include "json.hh"
#include "msgpack.hh"
#include "straccum.hh"
#include "kvio.hh"
#include "vsched.hh"
#include <stdio.h>
#include <string>
#include <vector>
#include <set>
using lcdf::Json; using lcdf::Str; using lcdf::String; using lcdf::StringAccum;
static FILE* out; static vs::rng* R;
static int below(int n) { return R->below(n); }
static bool steady;   // in large messages every integer is written the same way
// ---- values ------------------------------------------------------------------
struct V { char t = 'n'; int64_t i = 0; uint64_t u = 0; bool big = false; double d = 0; std::string s; std::vector<V> a; std::vector<std::pair<std::string, V>> m; };
static std::string runs(const std::string& s) {
    std::string r = "["; char b[40];
    for (size_t i = 0; i < s.size(); ) { size_t j = i; while (j < s.size() && s[j] == s[i]) ++j; snprintf(b, sizeof b, "%s[%d,%zu]", r.size() > 1 ? "," : "", (uint8_t) s[i], j - i); r += b; i = j; }
    return r + "]";
}
static std::string bytes(uint64_t x) { std::string r = "["; for (int i = 56; i >= 0; i -= 8) r += (i == 56 ? "" : ",") + std::to_string((x >> i) & 255); return r + "]"; }
static std::string jint(bool neg, uint64_t x) { return std::string("[\"i\",") + (neg ? "1" : "0") + "," + bytes(x) + "]"; }
static std::string jdbl(double d) { uint64_t x; memcpy(&x, &d, 8); return "[\"d\"," + bytes(x) + "]"; }
template <typename C, typename F> static std::string jarr(const C& n, F get) {
    std::string r = "[\"a\",[", last; size_t cnt = 0; bool first = true;
    auto flush = [&] { if (cnt) { if (!first) r += ","; first = false; r += "[" + last + "," + std::to_string(cnt) + "]"; } };
    for (size_t i = 0; i < (size_t) n; ++i) { std::string x = get(i); if (cnt && x == last) ++cnt; else { flush(); last = x; cnt = 1; } }
    flush(); return r + "]]";
}
static std::string show(const V& v) {
    switch (v.t) {
    case 'n': return "[\"n\"]"; case 'b': return v.i ? "[\"b\",1]" : "[\"b\",0]"; case 'i': return jint(v.i < 0, v.i); case 'u': return jint(false, v.u); case 'd': return jdbl(v.d);
    case 's': return "[\"s\"," + runs(v.s) + "]"; case 'a': return jarr(v.a.size(), [&](size_t i) { return show(v.a[i]); });
    default: { std::string r = "[\"m\",["; for (size_t i = 0; i < v.m.size(); ++i) r += (i ? ",[" : "[") + runs(v.m[i].first) + "," + show(v.m[i].second) + "]"; return r + "]]"; }
    }
}
static std::string show(const Json& j) {
    if (j.is_null()) return "[\"n\"]"; if (j.is_b()) return j.as_b() ? "[\"b\",1]" : "[\"b\",0]";
    if (j.is_u()) return jint(false, j.as_u()); if (j.is_i()) return jint(j.as_i() < 0, j.as_i()); if (j.is_d()) return jdbl(j.as_d());
    if (j.is_s()) return "[\"s\"," + runs(std::string(j.as_s().data(), j.as_s().length())) + "]";
    if (j.is_a()) return jarr(j.size(), [&](size_t i) { return show(j[i]); });
    std::string r = "[\"m\",["; bool f = true; for (auto it = j.cobegin(); it != j.coend(); ++it) { r += std::string(f ? "" : ",") + "[" + runs(std::string(it.key().data(), it.key().length())) + "," + show(it.value()) + "]"; f = false; } return r + "]]";
}
static Json json(const V& v) {
    switch (v.t) {
    case 'n': return Json(); case 'b': return Json(bool(v.i)); case 'i': return Json(v.i); case 'u': return Json(v.u); case 'd': return Json(v.d); case 's': return Json(String(v.s.data(), v.s.size()));
    case 'a': { Json j = Json::make_array(); for (auto& x : v.a) j.push_back(json(x)); return j; }
    default: { Json j = Json::make_object(); for (auto& x : v.m) j.set(String(x.first.data(), x.first.size()), json(x.second)); return j; }
    }
}
template <typename T> static void prim(msgpack::unparser<T>& u, const V& v) {   // through the overloads for C++ types
    switch (v.t) {
    case 'n': u.null(); break; case 'b': u << Json(bool(v.i)); break; case 'd': if (below(2)) u << v.d; else u << Json(v.d); break;
    case 'i': { int k = steady ? 4 : below(5); if (k == 0 && v.i == int(v.i)) u << int(v.i); else if (k == 1) u << long(v.i); else if (k == 2) u << (long long) v.i; else if (k == 3) u.write_wide(int64_t(v.i)); else u << Json(v.i); break; }
    case 'u': { int k = below(5); if (k == 0 && v.u == unsigned(v.u)) u << unsigned(v.u); else if (k == 1) u << (unsigned long) v.u; else if (k == 2) u << (unsigned long long) v.u; else if (k == 3) u.write_wide(uint64_t(v.u)); else u << Json(v.u); break; }
    case 's': if (below(2)) u << Str(v.s.data(), v.s.size()); else if (below(2)) u << String(v.s.data(), v.s.size()); else u.write(Str(v.s.data(), v.s.size())); break;
    case 'a': if (below(2)) u << msgpack::array(v.a.size()); else u.write_array_header(v.a.size()); for (auto& x : v.a) prim(u, x); break;
    default: u << msgpack::object(v.m.size()); for (auto& x : v.m) { u << Str(x.first.data(), x.first.size()); prim(u, x.second); } break;
    }
}
// ---- random values -------------------------------------------------------------
static std::string rstr(int n) { std::string s; while ((int) s.size() < n) { int k = n > 300 ? std::min<int>(n - s.size(), 1 + below(n)) : 1 + (below(3) ? 0 : below(4)); s.append(std::min<int>(k, n - s.size()), (char) (below(3) ? 'a' + below(3) : below(256))); } return s; }
static int size_of() { static const int z[] = {0, 1, 2, 15, 16, 31, 32, 33, 255, 256, 257}; return below(3) ? below(6) : z[below(11)]; }
static V gen(int depth, int budget) {
    V v; int x = below(depth ? 16 : 11);
    if (x == 0) v.t = 'n'; else if (x == 1) { v.t = 'b'; v.i = below(2); }
    else if (x < 6) { // integers around the borders of every size class
        uint64_t u; int k = below(4); if (k == 0) u = below(300) - 150; else { u = uint64_t(1) << below(64); u += below(5) - 2; if (k == 2) u = -u; if (k == 3) u = R->next() >> below(64); }
        if (below(2)) { v.t = 'i'; v.i = u; } else { v.t = 'u'; v.u = u; } }
    else if (x < 8) { v.t = 'd'; static const double z[] = {0.0, -0.0, 1, -1.5, 1e300, -1e-300, 5e-324, 0.1, 1.0 / 0.0, -1.0 / 0.0}; if (below(2)) v.d = z[below(10)]; else { uint64_t u = R->next(); memcpy(&v.d, &u, 8); } }
    else if (x < 11) { v.t = 's'; v.s = rstr(size_of()); }
    else if (x < 14) { v.t = 'a'; int n = depth > 2 || below(4) ? below(5) : size_of() % 64; n = std::min(n, budget); for (int i = 0; i < n; ++i) if (i && below(3) == 0) v.a.push_back(v.a.back()); else v.a.push_back(gen(depth - 1, budget / (n + 1))); }
    else { v.t = 'm'; int n = below(5) ? below(4) : below(40); n = std::min(n, budget); std::set<std::string> have; for (int i = 0; i < n; ++i) { std::string k = below(2) ? rstr(below(4)) : rstr(size_of() % 300); if (have.insert(k).second) v.m.push_back({k, gen(depth - 1, budget / (n + 1))}); } }
    return v;
}
// ---- another writer: any encoding the format allows -------------------------------
static void be(std::string& o, uint64_t x, int n) { while (n--) o += char(x >> (8 * n)); }
static void foreign(std::string& o, const V& v) {
    switch (v.t) {
    case 'n': o += char(0xc0); break; case 'b': o += char(0xc2 + v.i); break;
    case 'd': { float f = v.d; if (below(2) && (double) f == v.d && (f == 0 || std::abs(f) > 1e-30)) { uint32_t b; memcpy(&b, &f, 4); o += char(0xca); be(o, b, 4); } else { uint64_t b; memcpy(&b, &v.d, 8); o += char(0xcb); be(o, b, 8); } break; }
    case 'i': case 'u': { uint64_t x = v.t == 'i' ? v.i : v.u; bool neg = v.t == 'i' && v.i < 0;
        if (steady && x < 128) { o += char(x); return; }
        for (;;) { int k = below(10); int n = 1 << (k & 3);
            if (k == 8) { if (!neg && x < 128) { o += char(x); return; } } else if (k == 9) { if (neg && v.i >= -32) { o += char(x); return; } }
            else if (k < 4) { if (!neg && (n == 8 || x < (uint64_t(1) << (8 * n)))) { o += char(0xcc + k); be(o, x, n); return; } }
            else { int64_t y = n == 8 ? int64_t(x) : int64_t(x << (64 - 8 * n)) >> (64 - 8 * n); if (uint64_t(y) == x && (neg || y >= 0)) { o += char(0xd0 + k - 4); be(o, x, n); return; } } } }
    case 's': { size_t n = v.s.size(); for (;;) { int k = below(7); if (k == 0) { if (n < 32) { o += char(0xa0 + n); break; } } else { int w = (k - 1) % 3; if (n < (uint64_t(1) << (8 << w))) { o += char((k < 4 ? 0xd9 : 0xc4) + w); be(o, n, 1 << w); break; } } } o += v.s; break; }
    case 'a': { size_t n = v.a.size(); for (;;) { int k = below(3); if (k == 0) { if (n < 16) { o += char(0x90 + n); break; } } else if (k == 2 || n < 65536) { o += char(0xdb + k); be(o, n, 2 * k); break; } } for (auto& x : v.a) foreign(o, x); break; }
    default: { size_t n = v.m.size(); bool dup = n && below(4) == 0; n += dup; for (;;) { int k = below(3); if (k == 0) { if (n < 16) { o += char(0x80 + n); break; } } else if (k == 2 || n < 65536) { o += char(0xdd + k); be(o, n, 2 * k); break; } }
        if (dup) { V k; k.t = 's'; k.s = v.m[below(n - 1)].first; foreign(o, k); foreign(o, gen(1, 5)); }
        for (auto& x : v.m) { if (below(8) == 0) { o += char(below(2) ? below(128) : 224 + below(32)); } else { V k; k.t = 's'; k.s = x.first; foreign(o, k); } foreign(o, x.second); } }
    }
}
// ---- decoding --------------------------------------------------------------------
static std::set<std::string> seen; static long ndec, ncut;
static void emit(const std::string& l) { if (seen.insert(l).second) fprintf(out, "%s\n", l.c_str()); }
static int depth(const Json& j) { int d = 0; if (j.is_a()) { for (auto it = j.cabegin(); it != j.caend(); ++it) d = std::max(d, 1 + depth(*it)); } else if (j.is_o()) for (auto it = j.cobegin(); it != j.coend(); ++it) d = std::max(d, 1 + depth(it.value())); return d; }
static void answer(const std::string& msg, const msgpack::streaming_parser& sp, size_t n) {
    ++ndec; std::string r = sp.success() ? "ok" : sp.error() ? "bad" : sp.done() ? "?" : "more";
    emit("{\"k\":\"d\",\"b\":" + runs(msg) + ",\"r\":\"" + r + "\",\"v\":" + (sp.success() && depth(sp.result()) <= 70 ? show(sp.result()) : "[\"n\"]") + ",\"n\":" + std::to_string(n) + "}");
}
// feed `msg` in pieces of the given sizes; a piece's memory is gone once it has been consumed
template <typename F> static void feed(msgpack::streaming_parser& sp, const std::string& msg, F piece, int how) {
    size_t at = 0; String whole; if (how == 2) whole = String(msg.data(), msg.size());
    while (at < msg.size() && !sp.done()) {
        size_t n = std::min<size_t>(msg.size() - at, std::max<size_t>(1, piece())), got;
        if (how == 0) { char* p = (char*) malloc(n); memcpy(p, msg.data() + at, n); got = sp.consume(p, n); free(p); }
        else if (how == 1) { String s(msg.data() + at, n); got = sp.consume(s.data(), n, s); }
        else got = sp.consume(whole.data() + at, n, whole);
        at += got; if (!got) break;   // (a piece may be taken in several steps)
    }
    answer(msg, sp, at);
}
static msgpack::streaming_parser* kept;
static void decode(const std::string& msg, bool cuts) {
    size_t L = msg.size();
    for (int how = 0; how < 3; ++how) { msgpack::streaming_parser sp; feed(sp, msg, [&] { return L; }, how); }
    if (cuts) {
        if (L <= 48) for (size_t c = 1; c < L; ++c) { msgpack::streaming_parser sp; bool f = true; feed(sp, msg, [&] { size_t z = f ? c : L; f = false; return z; }, below(3)); ++ncut; }
        if (L <= 2000) for (int how = 0; how < 3; ++how) { msgpack::streaming_parser sp; feed(sp, msg, [&] { return 1; }, how); ++ncut; }
        for (int k = 0; k < 3; ++k) { msgpack::streaming_parser sp; int mx = 1 + below(std::min<size_t>(L + 1, k == 0 ? 4 : k == 1 ? 40 : 70000)); feed(sp, msg, [&] { return 1 + below(mx); }, below(3)); ++ncut; }
    }
    // one parser for message after message, while its earlier result is still in use
    Json before = kept->result(); std::string was = show(before); kept->reset(); size_t c = 1 + below(L + 1); feed(*kept, msg, [&] { return c; }, below(3));
    if (show(before) != was) emit("{\"k\":\"d\",\"b\":" + runs(msg) + ",\"r\":\"an earlier result changed\",\"v\":[\"n\"],\"n\":0}");
}
// the reader for messages known to be whole
static void reader(const V& v, const std::string& enc) {
    std::string m = enc; m.append(below(3), char(0xc1)); char* p = (char*) malloc(m.size()); memcpy(p, m.data(), m.size());
    auto em = [&](const std::string& val, const char* pos) { ++ndec; emit("{\"k\":\"d\",\"b\":" + runs(m) + ",\"r\":\"ok\",\"v\":" + val + ",\"n\":" + std::to_string(pos - p) + "}"); };
    if (v.t == 'i') { if (v.i == int(v.i)) { msgpack::parser q(p); int x; q >> x; em(jint(x < 0, (int64_t) x), q.position()); } { msgpack::parser q(p); long x; q >> x; em(jint(x < 0, x), q.position()); } { msgpack::parser q(p); long long x; q >> x; em(jint(x < 0, x), q.position()); }
        if (v.i >= -32 && v.i < 128 && enc.size() == 1) { msgpack::parser q(p); int x = q.read_tiny_int(); em(jint(x < 0, (int64_t) x), q.position()); } }
    if (v.t == 'u') { if (v.u == unsigned(v.u)) { msgpack::parser q(p); unsigned x; q >> x; em(jint(false, x), q.position()); } { msgpack::parser q(p); unsigned long x; q >> x; em(jint(false, x), q.position()); } { msgpack::parser q(p); unsigned long long x; q >> x; em(jint(false, x), q.position()); } }
    if (v.t == 'b') { msgpack::parser q(p); bool x; q >> x; em(x ? "[\"b\",1]" : "[\"b\",0]", q.position()); }
    if (v.t == 'd' && (uint8_t) enc[0] == 0xcb) { msgpack::parser q(p); double x; q >> x; em(jdbl(x), q.position()); }
    if (v.t == 'n') { msgpack::parser q(p); if (q.try_read_null()) em("[\"n\"]", q.position()); else em("[\"b\",0]", p); } else { msgpack::parser q(p); if (q.try_read_null()) em("[\"n\"]", p); }
    if (v.t == 's') { { msgpack::parser q(p); Str x; q >> x; em("[\"s\"," + runs(std::string(x.data(), x.length())) + "]", q.position()); } { msgpack::parser q(p); String x; q >> x; em("[\"s\"," + runs(std::string(x.data(), x.length())) + "]", q.position()); }
        String w(m.data(), m.size()); msgpack::parser q(w); String x; q >> x; const char* base = p; ++ndec; emit("{\"k\":\"d\",\"b\":" + runs(m) + ",\"r\":\"ok\",\"v\":[\"s\"," + runs(std::string(x.data(), x.length())) + "],\"n\":" + std::to_string(q.position() - w.data()) + "}"); (void) base; }
    if (v.t == 'a') { { msgpack::parser q(p); unsigned n; q.read_array_header(n); emit("{\"k\":\"h\",\"b\":" + runs(m) + ",\"c\":" + std::to_string(n) + ",\"n\":" + std::to_string(q.position() - p) + "}"); } { msgpack::parser q(p); q.skip_array_size(); emit("{\"k\":\"h\",\"b\":" + runs(m) + ",\"c\":" + std::to_string(v.a.size()) + ",\"n\":" + std::to_string(q.position() - p) + "}"); } }
    { msgpack::parser q(p); Json j; j = Json("left over"); q >> j; em(show(j), q.position()); }
    { String w(m.data(), m.size()); Json j; { msgpack::parser q(w); q >> j; emit("{\"k\":\"d\",\"b\":" + runs(m) + ",\"r\":\"ok\",\"v\":" + show(j) + ",\"n\":" + std::to_string(q.position() - w.data()) + "}"); } if (enc.size() == m.size()) { j = msgpack::parse(w); em(show(j), p + enc.size()); } }
    free(p);
}
static void skips(int n) {   // primitives one after the other
    std::string m; int k = 1 + below(6); while (k--) { V v; do v = gen(0, 1); while (v.s.size() > 300); if (below(6) == 0) { v = V(); v.t = 's'; v.s = rstr(65536 + below(3)); } foreign(m, v); }
    char* p = (char*) malloc(m.size()); memcpy(p, m.data(), m.size());
    for (int c = 0; ; ++c) { msgpack::parser q(p); if (c == 1) q.skip_primitive(); else q.skip_primitives(c); emit("{\"k\":\"s\",\"b\":" + runs(m) + ",\"c\":" + std::to_string(c) + ",\"n\":" + std::to_string(q.position() - p) + "}"); if (q.position() >= p + m.size()) break; }
    free(p); (void) n;
}
static std::string encode(const V& v) {
    std::string e;
    auto ok = [&](const char* s, size_t n) { emit("{\"k\":\"e\",\"b\":" + runs(std::string(s, n)) + ",\"v\":" + show(v) + "}"); e.assign(s, n); };
    { Json j = json(v); String s = msgpack::unparse(j); ok(s.data(), s.length()); }
    { StringAccum sa; msgpack::unparser<StringAccum> u(sa); prim(u, v); ok(sa.data(), sa.length()); }
    { kvout* k = new_bufkvout(); msgpack::unparser<kvout> u(*k); prim(u, v); ok(k->buf, k->n); kvout_reset(k); msgpack::unparse(*k, json(v)); ok(k->buf, k->n); free_kvout(k); }
    return e;
}
static void one(const V& v, bool cuts) {
    std::string e = encode(v); decode(e, cuts); reader(v, e);
    if (below(2)) decode(e + std::string(1 + below(3), char(below(256))), cuts);            // something follows
    if (e.size() > 1) { int n = e.size() <= 40 ? e.size() - 1 : 3; for (int i = 0; i < n; ++i) decode(e.substr(0, e.size() <= 40 ? i + 1 : 1 + below(e.size() - 1)), i % 4 == 0); }   // something is missing
    std::string f; foreign(f, v); decode(f, cuts); V w = v; if (w.t != 'm') reader(w, f);
    for (int i = 0; i < 3; ++i) { std::string g = below(2) ? e : f; for (int k = 1 + below(2); k; --k) { size_t at = below(4) ? below(std::min<size_t>(g.size(), 8)) : below(g.size()); g[at] = below(2) ? below(256) : 0xc0 + below(32); } if (g.size() < 3000) decode(g, true); }
}
template <typename T> static void number(T x, const std::string& v) {
    auto ok = [&](const String& s) { emit("{\"k\":\"e\",\"b\":" + runs(std::string(s.data(), s.length())) + ",\"v\":" + v + "}"); decode(std::string(s.data(), s.length()), false); };
    { StringAccum sa; msgpack::unparser<StringAccum> u(sa); u << x; ok(sa.take_string()); } ok(msgpack::unparse(Json(x)));
}
static void borders() {   // every power of two and its neighbours, in every type that holds it
    for (int s = 0; s < 64; ++s) for (int d = -2; d <= 2; ++d) for (int neg = 0; neg < 2; ++neg) {
        uint64_t u = (uint64_t(1) << s) + d; if (neg) u = -u;
        int64_t i = u; std::string vi = jint(i < 0, u), vu = jint(false, u);
        number<long>(i, vi); number<long long>(i, vi); number<unsigned long>(u, vu); number<unsigned long long>(u, vu); if (i == int(i)) number<int>(i, vi); if (u == unsigned(u)) number<unsigned>(u, vu);
        { StringAccum sa; msgpack::unparser<StringAccum> w(sa); w.write_wide(i); String m = sa.take_string(); emit("{\"k\":\"e\",\"b\":" + runs(std::string(m.data(), m.length())) + ",\"v\":" + vi + "}"); V v; v.t = 'i'; v.i = i; reader(v, std::string(m.data(), m.length())); }
        { StringAccum sa; msgpack::unparser<StringAccum> w(sa); w << u; String m = sa.take_string(); V v; v.t = 'u'; v.u = u; reader(v, std::string(m.data(), m.length())); }
        { StringAccum sa; msgpack::unparser<StringAccum> w(sa); w << i; String m = sa.take_string(); V v; v.t = 'i'; v.i = i; reader(v, std::string(m.data(), m.length())); }
    }
    for (int n = 0; n <= 300; n += n < 40 || n > 250 ? 1 : 10) { V v; v.t = 's'; v.s = std::string(n, 'b'); if (n) v.s[n - 1] = 0; one(v, n < 40); v = V(); v.t = 'a'; V x; x.t = 'b'; v.a.assign(n, x); one(v, false); }
}
static void large() {
    for (int n : {65535, 65536, 70000}) { V v; v.t = 's'; v.s = rstr(n); one(v, true); }
    steady = true;
    for (int n : {16, 1024, 1025, 2048, 2049, 65535, 65536}) { V v; v.t = 'a'; V x; x.t = 'i'; int k = 0; while ((int) v.a.size() < n) { x.i = below(100); for (int c = std::min<int>(n - v.a.size(), k++ < 60 ? 1 + below(n / 20) : n); c; --c) v.a.push_back(x); } one(v, true); }
    for (int n : {15, 16, 200, 1100}) { V v; v.t = 'm'; for (int i = 0; i < n; ++i) { char b[16]; snprintf(b, sizeof b, "k%d", i); V x; x.t = 'u'; x.u = i; v.m.push_back({b, x}); } one(v, n < 300); }
    for (int n : {900, 1000}) { std::string e(n, char(0x91)); e += char(0x05); std::string f; for (int i = 0; i < n; ++i) f += "\x81\xa1k"; f += "\x05";
        for (auto& x : {e, f}) for (size_t step : {x.size(), size_t(1), size_t(7)}) { msgpack::streaming_parser sp; size_t at = 0; while (at < x.size() && !sp.done()) at += sp.consume(x.data() + at, std::min(step, x.size() - at)); String back = sp.success() ? msgpack::unparse(sp.result()) : String("?"); if (back != String(x.data(), x.size())) emit("{\"k\":\"d\",\"b\":[[192,1]],\"r\":\"a deep message changes\",\"v\":[\"n\"],\"n\":0}"); } }
    for (int n : {30, 60}) { std::string e(n, char(0x91)); e += char(0x05); decode(e, true); decode(e.substr(0, n / 2), true); std::string f; for (int i = 0; i < n; ++i) f += "\x81\xa1k"; decode(f + "\x05", true); }
    // sizes and depths that no message has: refused, or waiting for more, but nothing worse
    for (unsigned n : {0x7fffffffu, 0x7ffffffeu, 0x80000000u, 0xffffffffu, 0x10000000u, 0x40000000u}) for (int t : {0xdb, 0xc6, 0xdd, 0xdf}) { std::string e(1, char(t)); be(e, n, 4); decode(e, true); decode(e + std::string(200, 'x'), true); decode("\x92" + e + "\xa2zz", true); }
    for (int n : {1023, 1024, 1025, 30000, 300000}) for (int t : {0x91, 0x92}) { decode(std::string(n, char(t)), false); decode(std::string(n, char(t)) + "\x05", false); }
    { std::string e; for (int i = 0; i < 100000; ++i) e += "\x81\xa1k"; decode(e.substr(0, 900), true); msgpack::streaming_parser sp; sp.consume(e.data(), e.size()); if (sp.success()) emit("{\"k\":\"d\",\"b\":[[144,1]],\"r\":\"bad\",\"v\":[\"n\"],\"n\":0}"); }
}
int main(int, char** argv) {
    out = fopen(argv[1], "w"); vs::rng r(atoi(argv[2])); R = &r; int n = atoi(argv[3]); kept = new msgpack::streaming_parser;
    for (int i = 0; i < n; ++i) { one(gen(below(4), 60), true); skips(1); }
    for (int i = 0; i < n * 3; ++i) { std::string m; for (int k = 1 + below(12); k; --k) m += char(below(3) ? below(256) : 0x80 + below(0x60)); decode(m, true); }
    borders(); large();
    fclose(out); printf("{\"decodings\":%ld,\"divided\":%ld,\"items\":%zu}\n", ndec, ncut, seen.size()); delete kept; return 0;
}

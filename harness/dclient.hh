// A client of the simulated server: its own encoder and decoder of the wire format.
#pragma once
#include "dsim.hh"
#include <string.h>
#include <string>
#include <vector>
#include <memory>

struct val {   // a decoded wire value
    enum K { NIL, BOOL, INT, STR, ARR, MAP, OTHER } k = NIL; int64_t i = 0; std::string s; std::vector<val> a;
};
namespace wire {
inline void put_be(std::string& o, uint64_t x, int n) { for (int i = n - 1; i >= 0; --i) o += (char)(x >> (8 * i)); }
inline void integer(std::string& o, int64_t x) {
    if (x >= -32 && x < 128) o += (char) x;
    else if (x >= 0 && x < 256) { o += (char) 0xCC; put_be(o, x, 1); }
    else if (x >= 0 && x < 65536) { o += (char) 0xCD; put_be(o, x, 2); }
    else if (x >= 0 && x < (1LL << 32)) { o += (char) 0xCE; put_be(o, x, 4); }
    else if (x >= 0) { o += (char) 0xCF; put_be(o, x, 8); }
    else if (x >= -128) { o += (char) 0xD0; put_be(o, x, 1); }
    else if (x >= -32768) { o += (char) 0xD1; put_be(o, x, 2); }
    else if (x >= -(1LL << 31)) { o += (char) 0xD2; put_be(o, x, 4); }
    else { o += (char) 0xD3; put_be(o, x, 8); }
}
inline void string(std::string& o, const std::string& s) {
    size_t n = s.size();
    if (n < 32) o += (char)(0xA0 + n); else if (n < 256) { o += (char) 0xD9; put_be(o, n, 1); } else if (n < 65536) { o += (char) 0xDA; put_be(o, n, 2); } else { o += (char) 0xDB; put_be(o, n, 4); }
    o += s;
}
inline void array(std::string& o, size_t n) { if (n < 16) o += (char)(0x90 + n); else if (n < 65536) { o += (char) 0xDC; put_be(o, n, 2); } else { o += (char) 0xDD; put_be(o, n, 4); } }
inline void map(std::string& o, size_t n) { o += (char)(0x80 + n); }
// returns bytes used, 0 = incomplete, -1 = malformed
struct reader {
    const unsigned char* p; size_t n, i = 0; bool bad = false;
    reader(const std::string& s) : p((const unsigned char*) s.data()), n(s.size()) {}
    bool need(size_t k) { return i + k <= n; }
    uint64_t be(int k) { uint64_t x = 0; for (int j = 0; j < k; ++j) x = x << 8 | p[i + j]; i += k; return x; }
    bool get(val& v) {
        if (!need(1)) return false;
        unsigned char t = p[i++]; size_t len;
        if (t < 0x80 || t >= 0xE0) { v.k = val::INT; v.i = (int8_t) t; return true; }
        if (t < 0x90) { len = t & 15; goto mp; }
        if (t < 0xA0) { len = t & 15; goto ar; }
        if (t < 0xC0) { len = t & 31; goto st; }
        switch (t) {
        case 0xC0: v.k = val::NIL; return true;
        case 0xC2: case 0xC3: v.k = val::BOOL; v.i = t & 1; return true;
        case 0xCC: if (!need(1)) return false; v.k = val::INT; v.i = be(1); return true;
        case 0xCD: if (!need(2)) return false; v.k = val::INT; v.i = be(2); return true;
        case 0xCE: if (!need(4)) return false; v.k = val::INT; v.i = be(4); return true;
        case 0xCF: if (!need(8)) return false; v.k = val::INT; v.i = be(8); return true;
        case 0xD0: if (!need(1)) return false; v.k = val::INT; v.i = (int8_t) be(1); return true;
        case 0xD1: if (!need(2)) return false; v.k = val::INT; v.i = (int16_t) be(2); return true;
        case 0xD2: if (!need(4)) return false; v.k = val::INT; v.i = (int32_t) be(4); return true;
        case 0xD3: if (!need(8)) return false; v.k = val::INT; v.i = be(8); return true;
        case 0xCA: if (!need(4)) return false; i += 4; v.k = val::OTHER; return true;
        case 0xCB: if (!need(8)) return false; i += 8; v.k = val::OTHER; return true;
        case 0xC4: case 0xD9: if (!need(1)) return false; len = be(1); goto st;
        case 0xC5: case 0xDA: if (!need(2)) return false; len = be(2); goto st;
        case 0xC6: case 0xDB: if (!need(4)) return false; len = be(4); goto st;
        case 0xDC: if (!need(2)) return false; len = be(2); goto ar;
        case 0xDD: if (!need(4)) return false; len = be(4); goto ar;
        case 0xDE: if (!need(2)) return false; len = be(2); goto mp;
        default: bad = true; return false;
        }
    st: if (!need(len)) return false; v.k = val::STR; v.s.assign((const char*) p + i, len); i += len; return true;
    ar: v.k = val::ARR; v.a.clear(); for (size_t j = 0; j < len; ++j) { v.a.emplace_back(); if (!get(v.a.back())) return false; } return true;
    mp: v.k = val::MAP; v.a.clear(); for (size_t j = 0; j < 2 * len; ++j) { v.a.emplace_back(); if (!get(v.a.back())) return false; } return true;
    }
};
}

struct client {
    sim::vconn* c = nullptr; std::string rx; int64_t seq = 0; bool dead = false;
    // pushes bytes to the server in pieces of random size
    void send(const std::string& b, uint32_t piece) {
        size_t i = 0;
        while (i < b.size()) {
            size_t k = std::min<size_t>(b.size() - i, piece ? 1 + sim::R.below(piece) : b.size());
            c->in.insert(c->in.end(), b.begin() + i, b.begin() + i + k); i += k;
            if (i < b.size()) sim::sleep_us(1 + sim::R.below(300));
        }
    }
    // false: the server closed the connection (or sent something malformed)
    bool recv(val& v) {
        while (true) {
            while (!c->out.empty()) { rx.insert(rx.end(), c->out.begin(), c->out.end()); c->out.clear(); }
            wire::reader r(rx); val w;
            if (r.get(w)) { v = w; rx.erase(0, r.i); return true; }
            if (r.bad) { dead = true; return false; }
            if (c->server_closed && c->out.empty()) { dead = true; return false; }
            sim::block([this] { return !c->out.empty() || c->server_closed; });
        }
    }
    bool open(int core) {
        c = sim::connect();
        std::string b; wire::array(b, 3); wire::integer(b, 0); wire::integer(b, 14); wire::map(b, 2); wire::string(b, "core"); wire::integer(b, core); wire::string(b, "maxkeylen"); wire::integer(b, 255);
        send(b, 0); val v; return recv(v) && v.k == val::ARR && v.a.size() >= 3 && v.a[1].i == 15 && v.a[2].k == val::BOOL && v.a[2].i;
    }
    std::string head(int cmd, size_t n) { std::string b; wire::array(b, n); wire::integer(b, seq); wire::integer(b, cmd); return b; }
    bool call(const std::string& b, val& v, uint32_t piece = 0) { int64_t s = seq++; send(b, piece); return recv(v) && v.k == val::ARR && v.a.size() >= 2 && v.a[0].i == s; }
};

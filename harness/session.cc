// Runs the real server (its own main) in the simulation, with clients that cut,
// batch and damage their requests in many ways, and writes what each connection
// sent and received as a behaviour for Session.
#include "dclient.hh"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <algorithm>
#include <map>
using namespace sim;
int mtd_main(int argc, char** argv);

enum { OUTMAX = 24 << 20 };
struct shared { filetab ft; uint64_t requests, pieces, malformed, datagrams, cuts, held; char note[200]; size_t n; char buf[OUTMAX]; };
static shared* S;
struct plan { uint64_t seed; int j, ntcp, nudp; uint32_t piece, chunk, wchunk, preempt; bool log, big, split; int batches; double pause; };
static plan P; static std::string base;
static void fail(const std::string& s) { snprintf(S->note, sizeof S->note, "%s", s.c_str()); finish(1); }

static std::string value(int id) {
    static const int sizes[] = {0, 1, 3, 24, 25, 26, 27, 200, 248, 249, 250, 251, 40, 0, 2, 700};
    if (!id) return "";
    std::string s = "v" + std::to_string(id) + ":"; size_t n = sizes[id % 16];
    if (P.big && id % 16 == 15) n = id % 32 == 15 ? 30000 - id % 7 : 66; else if (P.big && id % 16 == 13) n = 4000 + id % 5;
    for (size_t i = 0; i < n; ++i) s += (char)('a' + (id + i) % 26);
    if (id % 16 == 12) s[s.size() - 1] = (char) 0xC1;
    return s;
}
static int unvalue(const std::string& s) {
    if (s.empty()) return 0; if (s[0] != 'v') return -1;
    int id = atoi(s.c_str() + 1); return id > 0 && value(id) == s ? id : -1;
}
static std::vector<std::string> universe;
static int rank_of(const std::string& k) { auto i = std::lower_bound(universe.begin(), universe.end(), k); return i != universe.end() && *i == k ? int(i - universe.begin()) + 1 : -1; }

struct request { std::string q; char c; int k = 1, n = 0; std::string v = "[]"; std::string bytes; bool valid = true; };
struct reply { std::string q; int64_t c; std::string v; };
struct party {
    int id; bool udp; int core; rng r; std::vector<std::string> keys; std::vector<request> R; std::vector<reply> A; bool closed = false, cut = false, done = false; int vno = 0; client cl; uint32_t port = 0;
    party(int i, uint64_t s) : id(i), udp(false), core(0), r(s) {}
    std::string num(int64_t x) { return std::to_string(x); }
    std::string seqno(std::string& b) {
        static const int64_t special[] = {0, 1, 31, 127, 128, 255, 256, 65535, 65536, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 9223372036854775807LL, -1, -32, -33, -128, -129, -32768, -32769, -2147483648LL, -2147483649LL};
        int64_t x = r.below(3) ? (int64_t) R.size() : special[r.below(sizeof special / sizeof *special)]; wire::integer(b, x); return num(x);
    }
    int newval(bool huge) { while (true) { int v = id + 1 + 16 * 0 + (++vno) * 16; v = ++vno * 8 + id; int id2 = v; if (!huge && P.big && id2 % 32 == 15) continue; if (udp && value(id2).size() > 900) continue; if (r.below(20) == 0) return 0; return id2; } }
    request make() {
        request q; uint32_t x = r.below(100); q.k = 0; std::string h, b, key = keys[r.below(keys.size())]; q.k = rank_of(key); size_t n;
        h.clear(); std::string sq; q.q = seqno(sq);
        if (x < 30) { q.c = 'P'; int cols[6], nc = 1 + r.below(r.below(3) ? 3 : 6), top = r.below(8) ? 4 + nc : 40; for (int i = 0; i < nc; ++i) while (true) { cols[i] = r.below(top); bool dup = false; for (int y = 0; y < i; ++y) dup |= cols[y] == cols[i]; if (!dup) break; }
            std::sort(cols, cols + nc); wire::string(b, key); q.v = ""; for (int i = 0; i < nc; ++i) { int v = newval(false); wire::integer(b, cols[i]); wire::string(b, value(v)); q.v += (i ? ",[" : "[[") + num(cols[i]) + "," + num(v) + "]"; } q.v += "]"; n = 3 + 2 * nc; wire::array(h, n); h += sq; wire::integer(h, 6); }
        else if (x < 45) { q.c = 'R'; int v = newval(true); wire::array(h, 4); h += sq; wire::integer(h, 8); wire::string(b, key); wire::string(b, value(v)); q.v = "[[0," + num(v) + "]]"; }
        else if (x < 58) { q.c = 'D'; wire::array(h, 3); h += sq; wire::integer(h, 10); wire::string(b, key); }
        else if (x < 82) { q.c = 'G'; int nc = r.below(2) ? 0 : r.below(8) ? 1 + r.below(4) : 14 + r.below(6); wire::array(h, 3 + nc); h += sq; wire::integer(h, 2); wire::string(b, key); q.v = "["; for (int i = 0; i < nc; ++i) { int c = r.below(10) ? r.below(7) : 20 + r.below(300); wire::integer(b, c); q.v += (i ? "," : "") + num(c); } q.v += "]"; }
        else if (x < 98 || udp) { q.c = 'S'; int nc = r.below(2) ? 0 : 1 + r.below(3); q.n = r.below(3) == 0 ? 1000000 : 1 + r.below(12); if (udp) q.n = 1 + r.below(3);
            q.k = r.below(3) ? rank_of(key) : 1 + (int) r.below(universe.size()); wire::array(h, 4 + nc); h += sq; wire::integer(h, 4); wire::string(b, universe[q.k - 1]); wire::integer(b, q.n); q.v = "["; for (int i = 0; i < nc; ++i) { int c = r.below(6); wire::integer(b, c); q.v += (i ? "," : "") + num(c); } q.v += "]"; }
        else { q.c = 'C'; wire::array(h, 2); h += sq; wire::integer(h, 12); }
        q.bytes = h + b; return q;
    }
    // something the server can't serve
    request bad() {
        request q; q.c = 'X'; q.k = 1; std::string key = keys[r.below(keys.size())], b, sq; q.q = seqno(sq); q.valid = false;
        auto head = [&](int cmd, int n) { wire::array(b, n); b += sq; wire::integer(b, cmd); };
        std::string v = value(7 * 16 + 2);
        switch (r.below(34)) {
        case 0: head(99, 3); wire::string(b, key); break;
        case 1: head(0, 3); wire::string(b, key); break;
        case 2: head(-6, 3); wire::string(b, key); break;
        case 3: head(7, 5); wire::string(b, key); wire::integer(b, 0); wire::string(b, v); break;
        case 4: wire::array(b, 0); q.q = ""; break;
        case 5: wire::array(b, 1); b += sq; break;
        case 6: wire::array(b, 3); b += sq; wire::string(b, "put"); wire::string(b, key); break;
        case 7: wire::integer(b, 5); q.q = ""; break;
        case 8: wire::string(b, key); q.q = ""; break;
        case 9: wire::map(b, 1); wire::string(b, "a"); wire::integer(b, 1); q.q = ""; break;
        case 10: b += (char) 0xC1; q.q = ""; break;
        case 11: wire::map(b, 1); wire::integer(b, 1); wire::integer(b, 1); q.q = ""; break;
        case 12: head(6, 4); wire::string(b, key); wire::integer(b, 1); break;                                  // put without a value
        case 13: head(6, 5); wire::string(b, std::string(256 + r.below(3000), 'k')); wire::integer(b, 0); wire::string(b, v); break;
        case 14: head(6, 5); wire::string(b, key); wire::integer(b, -1); wire::string(b, v); break;
        case 15: head(6, 5); wire::string(b, key); wire::integer(b, 65536); wire::string(b, v); break;
        case 16: head(6, 7); wire::string(b, key); wire::integer(b, 3); wire::string(b, v); wire::integer(b, 1); wire::string(b, v); break;
        case 17: head(6, 7); wire::string(b, key); wire::integer(b, 1); wire::string(b, v); wire::integer(b, 1); wire::string(b, v); break;
        case 18: head(6, 5); wire::string(b, key); wire::string(b, "0"); wire::string(b, v); break;
        case 19: head(6, 5); wire::string(b, key); wire::integer(b, 0); wire::integer(b, 7); break;
        case 20: head(8, 3); wire::string(b, key); break;
        case 21: head(8, 4); wire::string(b, key); wire::integer(b, 4); break;
        case 22: head(8, 4); wire::integer(b, 4); wire::string(b, v); break;
        case 23: head(10, 2); break;
        case 24: head(10, 3); wire::array(b, 1); wire::string(b, key); break;
        case 25: head(2, 2); break;
        case 26: head(2, 4); wire::string(b, key); wire::string(b, "x"); break;
        case 27: head(2, 4); wire::string(b, key); wire::integer(b, 65536); break;
        case 28: head(4, 3); wire::string(b, key); break;
        case 29: head(4, 4); wire::string(b, key); wire::string(b, "5"); break;
        case 30: head(4, 4); wire::string(b, key); wire::integer(b, -3); break;
        case 31: head(14, 3); wire::map(b, 0); break;                                                         // a handshake again
        case 32: head(6, 3); wire::string(b, key); break;                                                      // put of nothing
        case 33: wire::array(b, 3); b += sq; b += (char) 0xC0; wire::string(b, key); break;
        }
        ++S->malformed; q.bytes = b; return q;
    }
    void decode(const val& v) {
        reply a; a.q = "?"; a.c = -99; a.v = "[]";
        if (v.k == val::ARR && v.a.size() >= 1 && v.a[0].k == val::INT) a.q = num(v.a[0].i);
        if (v.k == val::ARR && v.a.size() >= 2 && v.a[1].k == val::INT) a.c = v.a[1].i;
        if (v.k != val::ARR || v.a.size() < 2) { A.push_back(a); return; }
        auto one = [](const val& w) { return w.k == val::STR ? unvalue(w.s) : w.k == val::NIL ? -3 : -2; };
        a.v = "[";
        if (a.c == 5) for (size_t i = 2; i < v.a.size(); i += 2) {
            a.v += i > 2 ? ",[" : "["; a.v += num(v.a[i].k == val::STR ? rank_of(v.a[i].s) : -2) + ",";
            if (i + 1 >= v.a.size()) { a.v += "9,[]]"; break; }
            const val& w = v.a[i + 1]; if (w.k == val::ARR) { a.v += "0,["; for (size_t x = 0; x < w.a.size(); ++x) a.v += (x ? "," : "") + num(one(w.a[x])); a.v += "]]"; } else a.v += "1,[" + num(one(w)) + "]]";
        } else for (size_t i = 2; i < v.a.size(); ++i) { const val& w = v.a[i]; a.v += (i > 2 ? "," : "") + num(a.c == 3 ? one(w) : w.k == val::BOOL || w.k == val::INT ? w.i : -2); }
        a.v += "]"; A.push_back(a);
    }
    bool open() {   // a handshake, possibly in pieces
        cl.c = connect(); std::string b; wire::array(b, 3); wire::integer(b, 0); wire::integer(b, 14); wire::map(b, 2); wire::string(b, "core"); wire::integer(b, core); wire::string(b, "maxkeylen"); wire::integer(b, 255);
        cl.send(b, r.below(3) == 0 ? 1 + r.below(20) : 0); val v; return cl.recv(v) && v.k == val::ARR && v.a.size() >= 3 && v.a[1].i == 15 && v.a[2].k == val::BOOL && v.a[2].i;
    }
    void take(size_t upto) { val v; while (!closed && A.size() < upto) { if (cl.recv(v)) decode(v); else { if (cl.c->server_closed) closed = true; else fail("a reply that can't be decoded"); } } }
    // everything the server sends until it stops
    void drain() { while (!closed) { size_t n = A.size(); take(n + 1); } }
    void tcp();
    void datagrams();
    std::string item(const std::vector<std::string>& rows);
};
static int ndone = 0; static std::vector<party*> parties;
static bool others_done(const party* me) { for (party* p : parties) if (p != me && !p->done && !p->udp && !p->cut) { if (!p->closed) return false; } return true; }
static int holding = 0;
void party::tcp() {
    if (!open()) fail("connection refused");
    if (P.split) {   // cut batches of requests in two, at every byte
        while (R.size() < 160) {
            std::string b; size_t n = 1 + r.below(3), at = R.size(); for (size_t i = 0; i < n; ++i) { R.push_back(make()); b += R.back().bytes; }
            size_t L = b.size(); if (L > 400) { cl.send(b, 0); take(R.size()); S->requests += n; continue; }
            (void) at; size_t cut = L < 2 ? 1 : 1 + (S->pieces++ * 7 + id) % (L - 1);
            cl.send(b.substr(0, cut), 0); sleep_us(2000 + r.below(3000)); if (r.below(3) == 0 && cut + 1 < L) { size_t c2 = cut + 1 + r.below(L - cut - 1); cl.send(b.substr(cut, c2 - cut), 0); sleep_us(3000); cut = c2; }
            cl.send(b.substr(cut), 0); take(R.size()); S->requests += n;
        }
    }
    for (int z = 0; z < P.batches && !closed; ++z) {
        size_t n = r.below(3) ? 1 + r.below(4) : 1 + r.below(30); std::string b; uint32_t piece = P.piece && r.below(2) ? P.piece : r.below(4) == 0 ? 3000 : 0;
        for (size_t i = 0; i < n; ++i) { R.push_back(r.below(400) == 0 ? bad() : make()); b += R.back().bytes; }
        S->requests += n; cl.send(b, piece);
        if (r.below(4)) { size_t want = 0; bool x = false; for (auto& q : R) { want += q.valid; x |= !q.valid; } if (x) break; take(want); }
        if (r.below(3)) sleep_us(r.below(5000));
    }
    uint32_t end = r.below(8); bool anybad = false; size_t want = 0; for (auto& q : R) { anybad |= !q.valid; want += q.valid; }
    if (anybad) end = 9;
    if (end <= 2 && !closed) {   // an unsupported request, perhaps with more behind it
        take(want); R.push_back(bad()); std::string b = R.back().bytes; if (r.below(2)) { R.push_back(make()); b += R.back().bytes; } cl.send(b, P.piece && r.below(2) ? 1 + r.below(7) : 0); anybad = true;
    } else if (end == 3 || end == 4) {   // part of a request, the rest much later
        take(want); request q = make(); size_t cut = q.bytes.size() > 1 ? 1 + r.below(q.bytes.size() - 1) : 1; ++holding; ++S->held; std::string first = "";
        if (r.below(2)) { R.push_back(make()); first = R.back().bytes; ++want; }
        cl.send(first + q.bytes.substr(0, cut), 0); done = true; if (!first.empty()) take(want); block([this] { return others_done(this); });
        sleep_us(1000000);
        if (end == 3) { cl.send(q.bytes.substr(cut), 0); R.push_back(q); ++want; take(want); }
    } else if (end == 5) {   // gone without reading
        ++S->cuts; int n = 1 + r.below(6); std::string b; for (int i = 0; i < n; ++i) { R.push_back(make()); b += R.back().bytes; }
        if (r.below(2)) b += make().bytes.substr(0, 5); cut = true; cl.send(b, r.below(2) ? 50 : 0); if (r.below(2)) sleep_us(r.below(300)); cl.c->client_closed = true; done = true; ++ndone; return;
    }
    if (anybad) { sleep_us(3000000); val v; while (true) { cl.rx.insert(cl.rx.end(), cl.c->out.begin(), cl.c->out.end()); cl.c->out.clear(); wire::reader rd(cl.rx); val w; if (rd.get(w)) { cl.rx.erase(0, rd.i); decode(w); } else break; } closed = cl.c->server_closed; if (!cl.rx.empty() && !closed) fail("part of a reply"); }
    else take(want);
    sleep_us(20000); if (cl.c->server_closed) closed = true; if (!cl.c->out.empty()) { val v; take(A.size() + 1); }
    done = true; ++ndone; bool was = closed; block([] { return ndone == (int) parties.size(); }); cl.c->client_closed = true; closed = was;
}
void party::datagrams() {
    sleep_us(r.below(3000)); int n = 10 + r.below(30), lost = 0;
    for (int z = 0; z < n; ++z) {
        uint32_t x = r.below(12); std::string b;
        if (x == 0) { R.push_back(bad()); b = R.back().bytes; }
        else { request q = make(); if (q.bytes.size() > 3000) continue; b = q.bytes; if (x == 1 && b.size() > 1) { b.resize(1 + r.below(b.size() - 1)); q.c = 'X'; q.valid = false; ++S->malformed; } R.push_back(q); }
        if (r.below(30) == 0) { b.clear(); R.back().c = 'X'; R.back().valid = false; }
        request& q = R.back(); ++S->requests; ++S->datagrams; bool valid = q.valid; udp_in[core].push_back(vdgram{b, port});
        auto mine = [this] { for (auto& d : udp_out) if (d.from == port) return true; return false; };
        if (valid) block(mine); else sleep_us(200000 + r.below(1000));
        for (size_t i = 0; i < udp_out.size();) if (udp_out[i].from == port) { std::string d = udp_out[i].data; udp_out.erase(udp_out.begin() + i); wire::reader rd(d); val w; if (!rd.get(w) || rd.i != d.size()) fail("a datagram that isn't one reply"); decode(w); } else ++i;
        (void) lost;
    }
    done = true; ++ndone;
}
std::string party::item(const std::vector<std::string>& rows) {
    std::string s = "{\"t\":\""; s += udp ? 'U' : 'T'; s += "\",\"own\":["; for (size_t i = 0; i < keys.size(); ++i) s += (i ? "," : "") + num(rank_of(keys[i]));
    s += std::string("],\"o\":") + (closed ? "true" : "false") + ",\"cut\":" + (cut ? "true" : "false") + ",\"r\":[";
    bool f = true; for (auto& q : R) { s += f ? "{" : ",{"; f = false; s += "\"q\":\"" + q.q + "\",\"c\":\"" + q.c + "\",\"k\":" + num(q.k) + ",\"n\":" + num(q.n) + ",\"v\":" + q.v + "}"; }
    s += "],\"p\":["; f = true; for (auto& a : A) { s += f ? "{" : ",{"; f = false; s += "\"q\":\"" + a.q + "\",\"c\":" + num(a.c) + ",\"v\":" + a.v + "}"; }
    s += "],\"f\":["; for (size_t i = 0; i < rows.size(); ++i) s += (i ? "," : "") + rows[i]; return s + "]}\n";
}
static void director() {
    stuck_note = "a request is not answered"; rng r(P.seed * 31 + 7);
    std::vector<std::string> tails = {"", "a", "aaaaaa", "aaaaaaaa", std::string("aaaaaa\0b", 8), "aaaaaaaaaaaaaaaa", "\xff", std::string(253, 'L')};
    for (int i = 0; i < P.ntcp + P.nudp; ++i) {
        party* p = new party(i, r.next()); p->udp = i >= P.ntcp; p->core = r.below(P.j); p->port = 1000 + i;
        int nk = 2 + r.below(5); for (int k = 0; k < nk; ++k) { std::string key = std::string("k") + (char)('0' + i) + tails[r.below(tails.size())]; if (p->udp && key.size() > 60) key.resize(60); if (std::find(p->keys.begin(), p->keys.end(), key) == p->keys.end()) p->keys.push_back(key); }
        std::sort(p->keys.begin(), p->keys.end()); universe.insert(universe.end(), p->keys.begin(), p->keys.end()); parties.push_back(p);
    }
    universe.push_back("k"); universe.push_back("zz"); std::sort(universe.begin(), universe.end());
    for (party* p : parties) spawn([p] { if (p->udp) p->datagrams(); else p->tcp(); });
    if (r.below(3) == 0) spawn([] { connect(); });                       // connects and says nothing
    if (r.below(4) == 0) spawn([] { vconn* c = connect(); std::string b("\x93\x00\x0e\x82", 4); c->in.insert(c->in.end(), b.begin(), b.end()); sleep_us(1000000); c->client_closed = true; });
    if (r.below(4) == 0) spawn([] { vconn* c = connect(); std::string b("\x93\x00\x02\xa1k", 5); c->in.insert(c->in.end(), b.begin(), b.end()); });   // no handshake
    block([] { return ndone == (int) parties.size(); }); sleep_us(3000000);
    stuck_note = "the final scan is not answered";
    client c; if (!c.open(0)) fail("connection refused at the end");
    for (party* p : parties) {
        std::vector<std::string> rows;
        for (auto& k : p->keys) {
            std::string b = c.head(2, 3); wire::string(b, k); val v; if (!c.call(b, v)) fail("no proper reply to the last requests");
            std::string row = "["; for (size_t x = 2; x < v.a.size(); ++x) row += (x > 2 ? "," : "") + std::to_string(v.a[x].k == val::STR ? unvalue(v.a[x].s) : -2); rows.push_back(row + "]");
        }
        std::string s = p->item(rows); if (S->n + s.size() > OUTMAX) finish(9); memcpy(S->buf + S->n, s.data(), s.size()); S->n += s.size();
    }
    finish(EXIT_DONE);
}
static void child(const std::string& dir) {
    int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); fd = open((dir + "/stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666); dup2(fd, 2);
    if (chdir(base.c_str())) _exit(9); alarm(60); signal(SIGPIPE, SIG_DFL); setenv("_", "valgrind", 1); files = &S->ft;
    cfg.seed = P.seed; cfg.preempt = P.preempt; cfg.pause = P.pause; cfg.pause_us = 20000; cfg.chunk = P.chunk ? P.chunk : 65536; cfg.wchunk = P.wchunk; cfg.start_us = 1600000000ull * 1000000ull; cfg.limit = 400000000;
    static std::vector<std::string> a = {"mtd", "-j", std::to_string(P.j), "--logdir", dir, "--ckpdir", dir, "--epoch-interval", "100", "-c3600"}; if (!P.log) a.push_back("--no-log");
    size_t tot = 0; for (auto& s : a) tot += s.size() + 1;
    static char* buf = (char*) malloc(tot); char* q = buf; static char* av[20]; int ac = 0; for (auto& s : a) { av[ac++] = q; q = stpcpy(q, s.c_str()) + 1; } av[ac] = nullptr;
    run([ac] { spawn(director); mtd_main(ac, av); });
}
static FILE *out, *failf; static std::map<std::string, long> st; static int nfail; static std::string fam;
static void rmdir_all(const std::string& d) { DIR* p = opendir(d.c_str()); if (!p) return; while (dirent* e = readdir(p)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str()); closedir(p); rmdir(d.c_str()); }
static std::string errtail(const std::string& dir) {
    FILE* f = fopen((dir + "/stderr").c_str(), "r"); std::string s; if (!f) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f);
    size_t at = std::min(s.find("Assert"), s.find("assert")); if (at != std::string::npos) { size_t b0 = s.rfind('\n', at); s = s.substr(b0 == std::string::npos ? 0 : b0 + 1); s = s.substr(0, s.find('\n')); }
    else if (s.size() > 300) s = s.substr(s.size() - 300);
    std::string o; for (char c : s) o += c == '"' || c == '\\' || (unsigned char) c < 32 || (unsigned char) c > 126 ? ' ' : c; return o;
}
static void program(uint64_t no) {
    rng r(no); std::string d = base + "/srv"; rmdir_all(d); mkdir(d.c_str(), 0777);
    P.seed = r.next(); P.j = 1 + r.below(3); P.ntcp = 1 + r.below(4); P.nudp = r.below(3); P.piece = r.below(3) ? 1 + r.below(30) : 0; P.chunk = r.below(2) ? 1 + r.below(60) : 0; P.wchunk = r.below(3) ? 0 : 1 + r.below(200); P.preempt = 200 + r.below(4000); P.log = r.below(4) > 0; P.big = r.below(4) == 0; P.split = false; P.batches = 3 + r.below(10); P.pause = 0.01 * r.below(3);
    if (P.big) { if (P.piece) P.piece *= 100; if (P.chunk) P.chunk = 50 + P.chunk * 100; if (P.wchunk) P.wchunk *= 50; }
    if (fam == "split") { P.split = true; P.batches = 1; P.ntcp = 1 + r.below(2); P.nudp = 0; P.big = false; P.piece = 0; }
    S->n = 0; S->note[0] = 0; S->ft.n = 0; pid_t p = fork(); if (!p) { child(d); _exit(9); }
    int status; waitpid(p, &status, 0); int code = WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status);
    if (code == EXIT_DONE) { fwrite(S->buf, 1, S->n, out); for (size_t i = 0; i < S->n; ++i) st["items"] += S->buf[i] == '\n'; }
    else {
        std::string why = code == 1 && S->note[0] ? S->note : code == EXIT_STUCK ? "" : code > 1000 ? "the server died of signal " + std::to_string(code - 1000) : "the server exited with " + std::to_string(code);
        fprintf(failf, "{\"program\":%lu,\"kind\":\"session\",\"what\":\"%s: %s\",\"code\":%d}\n", (unsigned long) no, why.c_str(), errtail(d).c_str(), code); fflush(failf); ++nfail;
    }
    ++st["server_runs"];
}
int main(int argc, char** argv) {
    if (argc < 7) { fprintf(stderr, "usage: session FAMILY OUT SEED FIRST COUNT SECONDS [program]\n"); return 2; }
    fam = argv[1]; out = fopen(argv[2], "w"); failf = fopen((std::string(argv[2]) + ".fail").c_str(), "w"); fclose(fopen((std::string(argv[2]) + ".logs").c_str(), "w"));
    uint64_t seed = strtoull(argv[3], 0, 0), first = strtoull(argv[4], 0, 0), count = strtoull(argv[5], 0, 0); double secs = atof(argv[6]);
    S = (shared*) mmap(0, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    char tmpl[64]; snprintf(tmpl, sizeof tmpl, "%s/session.XXXXXX", access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp"); if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; } base = tmpl;
    time_t t0 = time(0);
    if (argc > 7) program(strtoull(argv[7], 0, 0));
    else for (uint64_t i = first; i < first + count && time(0) - t0 < secs && nfail < 40; ++i) { program(seed * 1000003 + i); ++st["programs"]; }
    fclose(out); fclose(failf); if (getenv("KEEP")) printf("%s\n", base.c_str()); else { rmdir_all(base + "/srv"); rmdir(base.c_str()); }
    st["requests"] = S->requests; st["malformed_requests"] = S->malformed; st["datagrams"] = S->datagrams; st["connections_cut"] = S->cuts; st["requests_held_back"] = S->held;
    printf("{"); bool f = true; for (auto& x : st) { printf("%s\"%s\":%ld", f ? "" : ",", x.first.c_str(), x.second); f = false; } printf("}\n");
}

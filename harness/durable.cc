// Runs the real server (its own main) in the simulation through sequences of
// work, crash and restart, and writes what happened as behaviours for DurTrace.
#include "dclient.hh"
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <algorithm>
#include <map>
using namespace sim;
int mtd_main(int argc, char** argv);

static const char* KEYS[] = {"a", "user0001", "", "user0001y-long-suffix-0001", "user0001x", "user0002", "\xff\xff", "c"};
enum { NK = 8, NC = 3, MAXOP = 400 };
struct op { int cl, log, key, kind, n, col[3], v[3]; uint32_t inv, res; uint64_t tres; int reply; };
struct row { int n; int c[12]; };
struct shared { filetab ft; uint32_t nops; op o[MAXOP]; uint32_t tick; bool dumped; row dump[NK]; int extra; uint64_t ready_at, end_at, quiet_from; char note[200]; uint64_t file_calls; uint32_t nb; struct { int log; uint64_t off; } bound[400]; int ckpts; };
static shared* S;

struct plan {
    uint64_t seed; int j; int nclients; int nkeys; bool sharedk; bool work; int len_ms; bool calm; bool stop; double pause, slow; uint32_t preempt; int ckpt; int bigv; uint32_t piece, chunk; bool rotate; int think_ms; uint64_t crash_call = ~0ull; uint64_t crash_time = ~0ull; int vbase = 0; uint64_t clock; bool serial = false; int64_t seq0 = 0; int put_pct = 55; uint32_t commit_n = 0, commit_us = 0;
};
static const uint64_t SETTLE = 2000000;   // with no traffic, changes this old must survive
static int bigv; static std::string base_dir;
static std::string value(int id) {
    if (!id) return "";
    std::string s = "v" + std::to_string(id) + ":"; size_t n = id % 5 == 0 ? 40 : id % 7 == 0 ? 300 : id % 3;
    if (bigv && id % 3 == 0) n = 4000 + (id * 977) % bigv;
    for (size_t i = 0; i < n; ++i) s += (char)('a' + (id + i) % 26);
    return s;
}
static int unvalue(const std::string& s) {
    if (s.empty()) return 0; if (s[0] != 'v') return -1;
    int id = atoi(s.c_str() + 1); return id > 0 && value(id) == s ? id : -1;
}
static bool take_dump(client& c) {
    std::string b = c.head(4, 4); wire::string(b, ""); wire::integer(b, 1000); val v;
    if (!c.call(b, v) || v.a[1].i != 5) return false;
    for (int k = 0; k < NK; ++k) S->dump[k].n = 0;
    S->extra = 0;
    for (size_t i = 2; i + 1 < v.a.size(); i += 2) {
        int k = -1; for (int x = 0; x < NK; ++x) if (v.a[i].s == KEYS[x]) k = x;
        if (k < 0) { ++S->extra; continue; }
        row& r = S->dump[k]; val& w = v.a[i + 1];
        if (w.k == val::STR) { r.n = 1; r.c[0] = unvalue(w.s); }
        else { r.n = std::min<size_t>(12, w.a.size()); for (int x = 0; x < r.n; ++x) r.c[x] = w.a[x].k == val::STR ? unvalue(w.a[x].s) : -1; if (r.n == 0) { r.n = 1; r.c[0] = -2; } }
    }
    S->dumped = true; return true;
}
static void note(const char* s) { snprintf(S->note, sizeof S->note, "%s", s); }

static void worker(const plan& P, int id, rng r, bool* stop, bool* turn, int* turns, int nw) {
    int nconn = P.rotate ? P.j : 1; std::vector<client> cs(nconn);
    for (int i = 0; i < nconn; ++i) { cs[i].seq = P.seq0; if (!cs[i].open(P.rotate ? i : id % P.j)) { note("connection refused"); finish(1); } }
    int vno = 0;
    while (true) {
        uint64_t th = r.below(3) == 0 ? r.below(P.think_ms * 3000 + 1) : r.below(P.think_ms * 300 + 1);
        sleep_us(th);
        if (P.serial) { block([turn] { return !*turn; }); *turn = true; }
        if (*stop || S->nops >= MAXOP - 8) { if (P.serial) *turn = false; return; }
        int w = P.rotate ? r.below(nconn) : 0; client& c = cs[w];
        int key; if (P.sharedk) key = r.below(P.nkeys); else { do key = r.below(P.nkeys); while (key % nw != id % nw); }
        op& o = S->o[S->nops]; memset(&o, 0, sizeof o); o.cl = id; o.log = P.rotate ? w : id % P.j; o.key = key;
        uint32_t x = r.below(100);
        o.kind = x < (uint32_t) P.put_pct ? 'P' : x < (uint32_t) P.put_pct + 20 ? 'R' : 'D';
        std::string b; std::string ks = KEYS[key];
        if (o.kind == 'P') {
            bool used[NC] = {}; o.n = 1 + r.below(2);
            for (int i = 0; i < o.n; ++i) { int cc; do cc = r.below(NC); while (used[cc]); used[cc] = true; o.col[i] = cc; }
            std::sort(o.col, o.col + o.n);
            b = c.head(6, 3 + 2 * o.n); wire::string(b, ks);
            for (int i = 0; i < o.n; ++i) { o.v[i] = P.vbase + id + 4 * ++vno; wire::integer(b, o.col[i]); wire::string(b, value(o.v[i])); }
        } else if (o.kind == 'R') { o.n = 1; o.v[0] = P.vbase + id + 4 * ++vno; b = c.head(8, 4); wire::string(b, ks); wire::string(b, value(o.v[0])); }
        else { b = c.head(10, 3); wire::string(b, ks); }
        o.inv = ++S->tick; uint32_t oi = S->nops++; val v;
        if (!c.call(b, v, P.piece)) { note("no proper reply to a request"); finish(1); }
        op& q = S->o[oi]; q.res = ++S->tick; q.tres = now(); q.reply = v.a.size() > 2 ? (int) v.a[2].i : -9;
        if (v.a[1].i != (q.kind == 'P' ? 7 : q.kind == 'R' ? 9 : 11)) { note("wrong reply code"); finish(1); }
        if (P.serial) *turn = false;
        ++*turns;
    }
}
static void checkpointer(const plan& P, rng r) {
    client c; if (!c.open(0)) return;
    while (true) { sleep_us(r.below(P.ckpt * 1000)); std::string b = c.head(12, 2); val v; if (!c.call(b, v)) { note("checkpoint request not answered"); finish(1); } }
}
static void child(const std::string& dir, const plan& P) {
    int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); std::string e = dir + "/stderr"; fd = open(e.c_str(), O_WRONLY | O_CREAT | (getenv("KEEP") ? O_APPEND : O_TRUNC), 0666); dup2(fd, 2);
    if (chdir(base_dir.c_str())) _exit(9); alarm(40); ::signal(SIGPIPE, SIG_DFL); setenv("_", "valgrind", 1); files = &S->ft; bigv = P.bigv;
    cfg.seed = P.seed; cfg.preempt = P.preempt; cfg.pause = P.pause; cfg.slow_sync = P.slow; cfg.chunk = P.chunk ? P.chunk : 65536; cfg.crash_call = P.crash_call; cfg.crash_at = P.crash_time; cfg.start_us = P.clock;
    if (P.calm) cfg.quiet_from = 0;
    cfg.commit_n = P.work ? P.commit_n : 0; cfg.commit_us = P.commit_us;
    S->dumped = false; S->note[0] = 0; S->ready_at = 0;
    static std::string js = std::to_string(P.j), ld = dir, iv = "100", cv = "3600"; static const char* argv[] = {"mtd", "-j", js.c_str(), "--logdir", ld.c_str(), "--ckpdir", ld.c_str(), "--epoch-interval", iv.c_str(), "-c", cv.c_str(), nullptr};
    static char buf[400]; char* q = buf; static char* av[16]; int ac = 0; for (; argv[ac]; ++ac) { av[ac] = q; q = stpcpy(q, argv[ac]) + 1; }
    av[ac] = nullptr; av[ac - 1] = nullptr; ac -= 1; // "-c" takes an optional, attached argument
    strcpy(q, "-c3600"); av[ac - 1] = q;
    static plan PP; PP = P;
    run([ac] {
        spawn([] {
            const plan& P = PP; stuck_note = "recovery or the first request does not finish";
            client c; if (!c.open(0)) { note("connection refused"); finish(1); }
            if (!take_dump(c)) { note("no proper reply to the first scan"); finish(1); }
            S->ready_at = now(); S->file_calls = file_calls;
            if (!P.work) finish(EXIT_DONE);
            stuck_note = "requests are not answered";
            static bool stop = false, turn = false; static int turns = 0;
            uint64_t len = P.len_ms * 1000ull, end = now() + len + (P.calm || P.stop ? SETTLE : 0);
            if (P.stop) cfg.quiet_from = now() + len;
            S->quiet_from = P.calm ? 0 : P.stop ? cfg.quiet_from : ~0ull; S->end_at = end; cfg.crash_at = end; cfg.crash_in_sync = P.seed % 2;
            rng r(P.seed * 77 + 5);
            for (int i = 0; i < P.nclients; ++i) { rng q(r.next()); spawn([i, q] { worker(PP, i, q, &stop, &turn, &turns, PP.nclients); }); }
            if (P.ckpt) { rng q(r.next()); spawn([q] { checkpointer(PP, q); }); }
            if (P.stop || r.below(2)) { sleep_us(len); stop = true; }
            while (true) sleep_us(1000000);
        });
        mtd_main(ac, av);
    });
}
static std::string errtail(const std::string& dir) {
    std::string e = dir + "/stderr"; FILE* f = fopen(e.c_str(), "r"); std::string s; if (!f) return s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f);
    size_t a = s.find("Assert"), g = s.find("assert"); size_t at = std::min(a, g); if (at != std::string::npos) { size_t b0 = s.rfind('\n', at); s = s.substr(b0 == std::string::npos ? 0 : b0 + 1); s = s.substr(0, s.find('\n')); }
    else if (s.size() > 300) s = s.substr(s.size() - 300);
    std::string o; for (char c : s) o += c == '"' || c == '\\' || (unsigned char) c < 32 || (unsigned char) c > 126 ? ' ' : c; return o;
}
static void settle_files(const std::string& dir) { S->ft.n = 0; (void) dir; }
static void rmdir_all(const std::string& d) { DIR* p = opendir(d.c_str()); if (!p) return; while (dirent* e = readdir(p)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str()); closedir(p); rmdir(d.c_str()); }
static std::string slurp(const std::string& f) { std::string s; FILE* p = fopen(f.c_str(), "r"); if (!p) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n); fclose(p); return s; }
static void spit(const std::string& f, const std::string& s) { FILE* p = fopen(f.c_str(), "w"); fwrite(s.data(), 1, s.size(), p); fclose(p); }
static void copy_dir(const std::string& a, const std::string& b) { rmdir_all(b); mkdir(b.c_str(), 0777); DIR* p = opendir(a.c_str()); while (dirent* e = readdir(p)) if (e->d_name[0] != '.') spit(b + "/" + e->d_name, slurp(a + "/" + e->d_name)); closedir(p); }
static FILE *out, *failf; static uint64_t progno; static std::map<std::string, long> st; static int nfail;

// ---- the log files, parsed independently ------------------------------------
// Records up to the first that is not intact. Types: E epoch, W wake, Q quiesce, P put, M modify, R replace, D remove.
struct logrec { char t; uint64_t e; uint64_t ts, prev; int key; std::vector<std::pair<int, int>> c; size_t pos, size, keylen_at; };
static uint32_t u32(const std::string& s, size_t i) { uint32_t x; memcpy(&x, s.data() + i, 4); return x; }
static uint64_t u64(const std::string& s, size_t i) { uint64_t x; memcpy(&x, s.data() + i, 8); return x; }
static std::vector<logrec> parse_log(const std::string& s) {
    std::vector<logrec> r; size_t i = 0;
    static const struct { const char* name; char t; uint32_t min; } K[] = {{"kPUT", 'P', 24}, {"kPU1", 'R', 24}, {"kMOD", 'M', 32}, {"kREM", 'D', 24}, {"kEPO", 'E', 16}, {"kQUI", 'Q', 8}, {"kWAK", 'W', 8}};
    while (s.size() - i >= 8) {
        logrec x; x.t = 0; uint32_t min = 0; x.pos = i; x.size = u32(s, i + 4); x.e = x.ts = x.prev = 0; x.key = -1; x.keylen_at = 0;
        for (auto& k : K) if (memcmp(s.data() + i, k.name, 4) == 0) { x.t = k.t; min = k.min; }
        if (!x.t || x.size < min || x.size > s.size() - i) break;
        if (x.t == 'E') x.e = u64(s, i + 8);
        if (strchr("PRMD", x.t)) {
            x.ts = u64(s, i + 8); size_t h = 16; if (x.t == 'M') { x.prev = u64(s, i + 16); h = 24; }
            uint32_t kl = u32(s, i + h); x.keylen_at = i + h; h += 4; if (kl > 255 || min + kl > x.size) break;
            std::string k = s.substr(i + h, kl), v = s.substr(i + h + kl, x.size - min - kl);   // (records end in padding)
            for (int y = 0; y < NK; ++y) if (k == KEYS[y]) x.key = y;
            if (x.t == 'R') x.c.push_back({1, unvalue(v)});
            else if (x.t != 'D') { wire::reader w(v); while (w.i < w.n) { val a, b; if (!w.get(a) || !w.get(b)) { x.key = -1; break; } x.c.push_back({(int) a.i + 1, unvalue(b.s)}); } }
        }
        r.push_back(x); i += x.size;
    }
    return r;
}
static bool read_logs(const std::string& dir, int j, std::vector<std::vector<logrec>>& L) {
    for (int i = 0; i < j; ++i) L.push_back(parse_log(slurp(dir + "/kvd-log-" + std::to_string(i))));
    if (access((dir + "/kvd-ckp-gen").c_str(), 0) == 0) return false;
    for (auto& l : L) for (auto& x : l) if (strchr("PRMD", x.t) && x.key < 0) return false;
    return true;
}
static std::string log_item(const std::vector<std::vector<logrec>>& L, const std::vector<std::string>& finals, int nk, const char* what) {
    std::vector<uint64_t> T; for (auto& l : L) for (auto& x : l) if (x.key >= 0) T.push_back(x.ts); std::sort(T.begin(), T.end());
    std::string s = "{\"program\":" + std::to_string(progno) + ",\"damage\":\"" + what + "\",\"nk\":" + std::to_string(nk) + ",\"logs\":[";
    for (size_t i = 0; i < L.size(); ++i) {
        s += i ? ",[" : "["; bool f = true;
        for (auto& x : L[i]) {
            s += std::string(f ? "" : ",") + "{\"t\":\"" + x.t + "\""; f = false;
            if (x.t == 'E') s += ",\"e\":" + std::to_string(x.e % 2000000000);
            if (x.key >= 0) { s += ",\"ts\":" + std::to_string(std::lower_bound(T.begin(), T.end(), x.ts) - T.begin()) + ",\"k\":" + std::to_string(x.key + 1) + ",\"c\":["; for (size_t c = 0; c < x.c.size(); ++c) s += std::string(c ? "," : "") + "[" + std::to_string(x.c[c].first) + "," + std::to_string(x.c[c].second) + "]"; s += "]"; }
            s += "}";
        }
        s += "]";
    }
    s += "],\"finals\":["; for (size_t i = 0; i < finals.size(); ++i) s += (i ? "," : "") + finals[i];
    return s + "]}";
}
static FILE* logsf;
static const char* DAMAGE[] = {"cut", "cut between records", "zeros", "garbage", "unknown command", "size too small", "size too large", "long key", "short record", "no command", "lost"};
// damage one log; false if that was not possible
static bool damage(std::string& s, int kind, rng& r) {
    std::vector<logrec> R = parse_log(s); if (R.empty()) return false;
    const logrec& x = R[r.below(R.size())]; auto put32 = [&](size_t at, uint32_t v) { memcpy(&s[at], &v, 4); };
    switch (kind) {
    case 0: s.resize(r.below(s.size())); return true;
    case 1: s.resize(x.pos); return true;
    case 2: if (r.below(2)) { size_t at = r.below(s.size()); for (size_t i = at; i < s.size(); ++i) s[i] = 0; } else s.append(1 + r.below(r.below(2) ? 64 : 5000), 0); return true;
    case 3: if (r.below(2)) s.resize(x.pos); { size_t n = 1 + r.below(200); for (size_t i = 0; i < n; ++i) s += (char)(i == 1 ? 'X' : r.below(256)); } return true;
    case 4: s[x.pos + r.below(4)] ^= 1 << r.below(8); return parse_log(s).size() < R.size();
    case 5: put32(x.pos + 4, r.below(8)); return true;
    case 6: put32(x.pos + 4, r.below(2) ? s.size() - x.pos + 1 + r.below(100) : 0xffffff00u + r.below(256)); return true;
    case 7: if (!x.keylen_at) return false; put32(x.keylen_at, r.below(2) ? (uint32_t) x.size - (x.t == 'M' ? 32 : 24) + 1 + r.below(12) : r.below(3) == 0 ? 256 + r.below(10) : r.below(2) ? 0x80000000u + r.below(1000) : (uint32_t) x.size + r.below(100)); return parse_log(s).size() < R.size();
    case 8: if (x.t == 'Q' || x.t == 'W') return false; if (x.keylen_at && u32(s, x.keylen_at) && r.below(2)) { put32(x.pos + 4, (x.t == 'M' ? 32 : 24) + r.below(u32(s, x.keylen_at))); return parse_log(s).size() < R.size(); } put32(x.pos + 4, 8 + r.below((x.t == 'E' ? 16 : x.t == 'M' ? 32 : 24) - 8)); return true;
    case 9: put32(x.pos, 0); return true;
    case 10: s.clear(); return true;
    }
    return false;
}
static int run_child(const std::string& dir, const plan& P) {
    fflush(out); pid_t pid = fork(); if (pid == 0) { child(dir, P); _exit(9); }
    int w; waitpid(pid, &w, 0); ++st["server_runs"];
    return WIFEXITED(w) ? WEXITSTATUS(w) : 1000 + WTERMSIG(w);
}
// lose an unsynced suffix of every file
static void lose(rng& r, bool none) {
    for (uint32_t i = 0; i < S->ft.n; ++i) {
        filerec& f = S->ft.f[i]; struct stat sb; if (stat(f.path, &sb) != 0) continue;
        uint64_t n = sb.st_size, s = std::min<uint64_t>(f.synced, n);
        int m = none ? 0 : r.below(3); uint64_t keep = m == 0 ? n : m == 1 ? s : s + (n > s ? r.next() % (n - s + 1) : 0);
        if (keep < n) { if (truncate(f.path, keep)) abort(); ++st["suffixes_lost"]; }
    }
    S->ft.n = 0;
}
static void failed(const std::string& dir, const char* where, int code) {
    std::string why = code == EXIT_STUCK ? "does not finish" : code >= 1000 ? std::string("died (signal ") + std::to_string(code - 1000) + ")" : std::string("failed: ") + S->note;
    fprintf(failf, "{\"program\":%lu,\"kind\":\"%s\",\"what\":\"%s: %s\",\"code\":%d}\n", (unsigned long) progno, where, why.c_str(), errtail(dir).c_str(), code); fflush(failf); ++nfail;
}
static std::string rows(const row* d, int nk) { std::string s = "["; for (int k = 0; k < nk; ++k) { s += k ? ",[" : "["; for (int i = 0; i < d[k].n; ++i) s += (i ? "," : "") + std::to_string(d[k].c[i]); s += "]"; } return s + "]"; }
struct run_rec { std::vector<op> ops; uint64_t end_at, quiet_from; std::vector<row> init; };
static std::string item(const run_rec& W, const std::vector<std::string>& finals, int nk, bool same, bool mono, int without_log = -1) {
    std::string s = "{\"program\":" + std::to_string(progno) + ",\"init\":" + rows(W.init.data(), nk) + ",\"ops\":["; bool first = true;
    for (const op& o : W.ops) {
        if (without_log >= 0 && o.log == without_log) continue;
        bool must = o.res && W.quiet_from != ~0ull && o.tres + SETTLE <= W.end_at && W.quiet_from + SETTLE <= W.end_at;
        s += std::string(first ? "" : ",") + "{\"k\":" + std::to_string(o.key + 1) + ",\"t\":\"" + (char) o.kind + "\",\"c\":["; first = false;
        for (int i = 0; i < o.n; ++i) s += std::string(i ? "," : "") + "[" + std::to_string(o.col[i] + 1) + "," + std::to_string(o.v[i]) + "]";
        s += "],\"r\":" + std::to_string(!o.res ? 2 : o.kind == 'D' ? o.reply : o.reply == 1 ? 1 : 0) + ",\"inv\":" + std::to_string(o.inv) + ",\"res\":" + std::to_string(o.res ? o.res : 1000000) + ",\"must\":" + (must ? "true" : "false") + "}";
    }
    s += "],\"finals\":["; for (size_t i = 0; i < finals.size(); ++i) s += (i ? "," : "") + finals[i];
    return s + "],\"same\":" + (same ? "true" : "false") + ",\"mono\":" + (mono ? "true" : "false") + "}";
}
static std::string base;
// recover a copy of `dir`, crashing `ncrash` times inside recovery first
static bool recover_copy(const std::string& dir, plan P, rng& r, int ncrash, std::string& res, const char* where, bool again = false) {
    std::string d = base + "/alt"; copy_dir(dir, d); settle_files(d); P.work = false;
    uint64_t calls = 0;
    for (int i = 0; i < ncrash; ++i) {
        P.seed = r.next(); P.crash_call = 1 + r.below(12 * P.j + 6); P.clock += 1000000;
        int c = run_child(d, P); calls += 1;
        if (c != EXIT_CRASH && c != EXIT_DONE) { failed(d, where, c); rmdir_all(d); return false; }
        if (c == EXIT_CRASH) ++st["recovery_crashes"];
        lose(r, false);
    }
    P.crash_call = ~0ull;
    for (int i = 0; i <= again; ++i) {
        P.seed = r.next(); P.clock += 1000000; S->ft.n = 0; int c = run_child(d, P);
        if (c != EXIT_DONE) { failed(d, where, c); rmdir_all(d); return false; }
        lose(r, true);
    }
    res = rows(S->dump, P.nkeys); if (S->extra) res = "[[-7]]"; ++st["recoveries"]; rmdir_all(d); return true;
}
static std::string fam;
static void program(uint64_t no) {
    progno = no; rng r(no); plan P; std::string d = base + "/srv"; rmdir_all(d); mkdir(d.c_str(), 0777);
    P.j = 1 + r.below(3); P.nclients = 1 + r.below(3); P.nkeys = 3 + r.below(NK - 2); P.sharedk = r.below(2); P.rotate = r.below(3) == 0; P.bigv = 0; P.piece = P.chunk = 0; P.ckpt = 0; P.think_ms = 5 + r.below(4) * 40; P.clock = 1600000000ull * 1000000ull;
    if (r.below(4) == 0) { P.piece = 1 + r.below(40); P.chunk = 1 + r.below(30); }
    if (r.below(6) == 0) P.bigv = 9000;
    bigv = fam == "damage" ? 0 : P.bigv;
    if (r.below(8) == 0) P.seq0 = 4294967290ull;
    if (fam == "replay") { P.rotate = true; P.sharedk = true; P.j = 2 + r.below(2); P.nkeys = 1 + r.below(3); P.serial = r.below(2); P.put_pct = 40 + r.below(45); }
    if (fam == "ckpt") P.ckpt = 200 + r.below(1500);
    if (fam == "damage") { P.bigv = 0; if (r.below(2)) { P.rotate = P.sharedk = false; } }
    int incs = fam == "restart" ? 3 + r.below(3) : fam == "damage" ? 1 : 1 + r.below(3);
    run_rec W; bool have = false;
    for (int inc = 0; inc <= incs; ++inc) {
        int nk = P.nkeys; std::vector<std::string> alts;
        std::vector<std::vector<logrec>> image; bool exact = have && (fam == "default" || fam == "damage") && read_logs(d, P.j, image);
        if (have && fam == "damage")
            for (int a = 0; a < 8; ++a) {
                std::string bad = base + "/bad"; copy_dir(d, bad); int kind = r.below(11); if (kind == 10 && (P.sharedk || P.rotate)) kind = 0;
                int l = r.below(P.j); std::string f = bad + "/kvd-log-" + std::to_string(l), c = slurp(f);
                if (!damage(c, kind, r)) { rmdir_all(bad); continue; }
                if (kind == 10 && r.below(2)) unlink(f.c_str()); else spit(f, c);
                std::vector<std::vector<logrec>> D; bool readable = read_logs(bad, P.j, D), epochs = true; for (auto& x : D) { bool e = false; for (auto& y : x) e |= y.t == 'E'; epochs &= e; }
                if (!epochs && (P.sharedk || P.rotate)) { rmdir_all(bad); continue; }   // changes of a key are spread over logs, and one is gone
                plan Q = P; Q.calm = r.below(2); Q.pause = Q.calm ? 0 : 0.02; Q.slow = 0.1; Q.preempt = 200 + r.below(3000); std::string x; ++st[std::string("damage_") + DAMAGE[kind]];
                bool fine = recover_copy(bad, Q, r, 0, x, (std::string("recovery of a damaged log (") + DAMAGE[kind] + ")").c_str(), r.below(3) == 0); rmdir_all(bad);
                if (!fine) return;
                if (readable) fprintf(logsf, "%s\n", log_item(D, {x}, nk, DAMAGE[kind]).c_str());
                if (epochs) { run_rec V = W; V.quiet_from = ~0ull; fprintf(out, "%s\n", item(V, {x}, nk, false, false).c_str()); ++st["damaged_items"]; }
            }
        if (have) {   // recover copies of this crash image in other ways
            int na = fam == "restart" ? 2 : fam == "replay" ? 2 : r.below(3);
            for (int a = 0; a < na; ++a) { std::string x; plan Q = P; Q.calm = r.below(2); Q.pause = Q.calm ? 0 : 0.02; Q.slow = 0.1; Q.preempt = 200 + r.below(3000); Q.bigv = P.bigv;
                int nc = fam == "restart" ? r.below(4) : fam == "ckpt" ? r.below(2) : 0;
                if (!recover_copy(d, Q, r, nc, x, "recovery", r.below(3) == 0)) return; alts.push_back(x); }
        }
        P.work = inc < incs; P.seed = r.next(); P.calm = (fam == "replay" ? r.below(3) > 0 : r.below(3) == 0); P.stop = !P.calm && r.below(2); P.pause = P.calm ? 0 : 0.01 * r.below(4); P.slow = P.calm ? 0 : 0.1 * r.below(5);
        P.preempt = 100 + r.below(r.below(2) ? 400 : 8000); P.len_ms = r.below(4) == 0 ? 1 + r.below(300) : 300 + r.below(2500); P.vbase = inc * 10000;
        P.commit_n = 0; if (P.ckpt && P.work && !P.calm && !P.stop && r.below(2)) { P.commit_n = 1 + r.below(2); P.commit_us = r.below(250000); P.len_ms = 2500; }
        P.clock += 200000000ull; settle_files(d); S->nops = 0; S->tick = 0;
        int c = run_child(d, P);
        if (c != EXIT_CRASH && c != EXIT_DONE) { failed(d, S->ready_at ? "serving" : "recovery", c); return; }
        std::vector<row> dump(S->dump, S->dump + NK);
        std::string f = rows(dump.data(), nk); if (S->extra) f = "[[-7]]";
        if (have && exact) fprintf(logsf, "%s\n", log_item(image, [&] { std::vector<std::string> all(alts); all.insert(all.begin(), f); return all; }(), nk, "").c_str());
        if (have) { alts.insert(alts.begin(), f); fprintf(out, "%s\n", item(W, alts, nk, true, false).c_str()); ++st["items"]; }
        if (!P.work) break;
        W.ops.assign(S->o, S->o + S->nops); W.end_at = S->end_at; W.quiet_from = S->quiet_from; W.init = dump; have = true; st["requests"] += S->nops; if (access((d + "/kvd-ckp-gen").c_str(), 0) == 0) ++st["images_with_checkpoint"];
        lose(r, r.below(fam == "damage" ? 2 : 4) == 0);
        if (fam == "replay") { }
    }
}
int main(int argc, char** argv) {
    if (argc < 7) { fprintf(stderr, "usage: durable FAMILY OUT SEED FIRST COUNT SECONDS [program]\n"); return 2; }
    fam = argv[1]; out = fopen(argv[2], "w"); failf = fopen((std::string(argv[2]) + ".fail").c_str(), "w"); logsf = fopen((std::string(argv[2]) + ".logs").c_str(), "w");
    uint64_t seed = strtoull(argv[3], 0, 0), first = strtoull(argv[4], 0, 0), count = strtoull(argv[5], 0, 0); double secs = atof(argv[6]);
    S = (shared*) mmap(0, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char tmpl[64]; struct stat sb; snprintf(tmpl, sizeof tmpl, "%s/durable.XXXXXX", stat("/dev/shm", &sb) == 0 && access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp"); if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; } base = base_dir = tmpl;
    time_t t0 = time(0);
    if (argc > 7) { progno = strtoull(argv[7], 0, 0); program(progno); }
    else for (uint64_t i = first; i < first + count && time(0) - t0 < secs && nfail < 40; ++i) { program(seed * 1000003 + i); ++st["programs"]; }
    fclose(out); fclose(failf); fclose(logsf); if (getenv("KEEP")) { printf("%s\n", base.c_str()); } else rmdir_all(base + "/srv"); rmdir_all(base + "/alt"); rmdir(base.c_str());
    printf("{"); bool f = true; for (auto& x : st) { printf("%s\"%s\":%ld", f ? "" : ",", x.first.c_str(), x.second); f = false; } printf("}\n");
}

// Real threads on one narrow-node table; pauses are injected at shared-memory accesses.
// Every key has one writer. Its k-th operation writes k (odd: put, even: remove), so any
// read returns a number between "finished before the read" and "started before its end".
#include "config.h"
#include "compiler.hh"
#include "masstree.hh"
#include "kvthread.hh"
#include "masstree_tcursor.hh"
#include "masstree_get.hh"
#include "masstree_insert.hh"
#include "masstree_split.hh"
#include "masstree_remove.hh"
#include "masstree_scan.hh"
#include "masstree_print.hh"
#include <atomic>
#include <thread>
#include <vector>
#include <string>
#include <algorithm>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <malloc.h>
#include <time.h>
relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
kvepoch_t global_log_epoch;
volatile bool recovering = false;
kvtimestamp_t initial_timestamp;
#ifndef WIDTH
#define WIDTH 3
#endif
struct params : public Masstree::nodeparams<WIDTH, 3> {
    typedef uint64_t value_type;
    typedef Masstree::value_print<value_type> value_print_type;
    typedef ::threadinfo threadinfo_type;
};
typedef Masstree::basic_table<params> table_t;
static table_t* table;
static std::vector<std::string> keys;
static std::atomic<uint64_t> started[512], done[512];
static std::atomic<uint64_t> progress[64];
static std::atomic<bool> stop{false};
static const char* what;
#define NOI __attribute__((no_sanitize("thread")))
static void bad(const char* s, int k, uint64_t lo, uint64_t v, uint64_t hi) { printf("WRONG: %s: key %d value %llu outside [%llu,%llu]\n", s, k, (unsigned long long) v, (unsigned long long) lo, (unsigned long long) hi); fflush(stdout); _exit(1); }
static void check(const char* s, int k, bool found, uint64_t v, uint64_t lo, uint64_t hi) {
    if (found) { if (!(v & 1) || v < lo || v > hi) bad(s, k, lo, v, hi); }
    else if (lo == hi && (lo & 1)) bad(s, k, lo, 0, hi);
}
struct scanner {
    std::vector<std::pair<int, uint64_t>> got; int last, limit; bool rev;
    template <typename A, typename B> void visit_leaf(const A&, const B&, threadinfo&) {}
    bool visit_value(lcdf::Str key, uint64_t v, threadinfo&) {
        int i = std::lower_bound(keys.begin(), keys.end(), std::string(key.s, key.len)) - keys.begin();
        if (i >= (int) keys.size() || keys[i] != std::string(key.s, key.len)) { printf("WRONG: scan returned an unknown key\n"); fflush(stdout); _exit(1); }
        if (last != -1 && (rev ? i >= last : i <= last)) { printf("WRONG: scan not ordered\n"); fflush(stdout); _exit(1); }
        last = i; got.push_back(std::make_pair(i, v)); return (int) got.size() < limit;
    }
};
static void worker(int t, int nw, unsigned seed, threadinfo* ti, bool ro) {
    unsigned long long r = seed * 7919 + t + 1; auto rnd = [&](unsigned n) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return (unsigned) ((r >> 20) % n); };
    for (int z = 0; z < 20; ++z) rnd(2);
    int nk = keys.size();
    while (!stop) {
        ti->rcu_start(); int n = 1 + rnd(3);
        while (n--) {
            int k = rnd(nk); unsigned op = rnd(10);
            if (!ro && op < 7) {
                k = k - k % nw + t; if (k >= nk) continue;
                // remove or re-add one key, or a short run of keys of this thread
                uint64_t x = started[k] + 1; if (rnd(8) == 0 && !(x & 1)) continue; started[k] = x;
                table_t::cursor_type lp(*table, lcdf::Str(keys[k].data(), keys[k].size()));
                if (x & 1) { bool f = lp.find_insert(*ti); if (f) bad("insert found", k, x - 1, lp.value(), x); lp.value() = x; fence(); lp.finish(1, *ti); }
                else { bool f = lp.find_locked(*ti); if (!f) bad("remove missed", k, x - 1, 0, x); if (lp.value() != x - 1) bad("remove saw", k, x - 1, lp.value(), x); lp.finish(-1, *ti); }
                done[k] = x;
            } else if (op < 9) {
                uint64_t lo = done[k]; uint64_t v = 0; bool f = table->get(lcdf::Str(keys[k].data(), keys[k].size()), v, *ti); uint64_t hi = started[k]; check("get", k, f, v, lo, hi);
            } else {
                scanner s; s.last = -1; s.rev = rnd(2); s.limit = 1 + rnd(nk); std::vector<uint64_t> lo(nk); for (int i = 0; i < nk; ++i) lo[i] = done[i];
                lcdf::Str key(keys[k].data(), keys[k].size());
                if (s.rev) table->rscan(key, true, s, *ti); else table->scan(key, true, s, *ti);
                bool cut = (int) s.got.size() >= s.limit; std::vector<int> has(nk, -1); for (size_t i = 0; i < s.got.size(); ++i) has[s.got[i].first] = i;
                for (int i = 0; i < nk; ++i) { if (s.rev ? i > k || (cut && i < s.last) : i < k || (cut && i > s.last)) { if (has[i] >= 0) { printf("WRONG: scan out of range\n"); fflush(stdout); _exit(1); } continue; }
                    check(s.rev ? "reverse scan" : "scan", i, has[i] >= 0, has[i] >= 0 ? s.got[has[i]].second : 0, lo[i], started[i]); }
            }
            ++progress[t];
        }
        ti->rcu_stop();
    }
}
int main(int argc, char** argv) {
    double secs = argc > 1 ? atof(argv[1]) : 20; int shape = argc > 2 ? atoi(argv[2]) : 0; int nw = argc > 3 ? atoi(argv[3]) : 4, nr = 2; unsigned seed = time(0);
    setenv("_", "valgrind", 1);
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    auto el = [&] { clock_gettime(CLOCK_MONOTONIC, &t1); return t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) * 1e-9; };
    if (shape == 0) for (int i = 0; i < 24; ++i) { char b[40]; sprintf(b, "k%02d", i); keys.push_back(b); }
    else if (shape == 1) for (int i = 0; i < 24; ++i) { char b[60]; sprintf(b, "aaaaaaaa%c%02d", 'a' + i / 8, i); keys.push_back(b); if (i % 6 == 0) { sprintf(b, "aaaaaaaa%c%02dlonger suffix", 'a' + i / 8, i); keys.push_back(b); } }
    else if (shape == 3) for (int i = 0; i < 9; ++i) { char b[60]; sprintf(b, "pref%03d", i); keys.push_back(b); keys.push_back(std::string(b) + std::string("\0tail", 5)); }
    else if (shape == 4) for (int i = 0; i < 12; ++i) { char b[60]; sprintf(b, "pref%03d", i / 2); keys.push_back(std::string(b) + (i % 2 ? std::string("\0", 1) : std::string())); }
    else for (int i = 0; i < 8; ++i) for (int j = 0; j < 3; ++j) { char b[60]; sprintf(b, "pref%04d%s", i, j == 0 ? "" : j == 1 ? "xxxxxxxxyy" : "xxxxxxxxzz"); keys.push_back(b); }
    std::sort(keys.begin(), keys.end());
    std::vector<threadinfo*> ti; threadinfo* m = threadinfo::make(threadinfo::TI_MAIN, -1); for (int i = 0; i < nw + nr; ++i) ti.push_back(threadinfo::make(threadinfo::TI_PROCESS, i));
    table = new table_t; table->initialize(*m);
    std::vector<std::thread> th; for (int i = 0; i < nw + nr; ++i) th.emplace_back(worker, i, nw, seed, ti[i], i >= nw);
    uint64_t last[64] = {0}; double lt[64] = {0};
    while (el() < secs) { usleep(500); globalepoch.store(globalepoch.load() + 2); active_epoch.store(threadinfo::min_active_epoch());
        for (int i = 0; i < nw + nr; ++i) { if (progress[i] != last[i]) { last[i] = progress[i]; lt[i] = el(); } else if (el() - lt[i] > 8) { printf("WRONG: thread %d does not finish\n", i); fflush(stdout); _exit(1); } } }
    stop = true; for (auto& t : th) t.join();
    uint64_t tot = 0; for (int i = 0; i < nw + nr; ++i) tot += progress[i];
    printf("fine: %llu operations\n", (unsigned long long) tot); return 0;
}

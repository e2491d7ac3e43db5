// Epoch-based reclamation, sequentially: several thread states driven by one thread, long histories,
// many retirements (limbo groups fill up), epochs around the wrap.
#include "config.h"
#include "compiler.hh"
#include "kvthread.hh"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <algorithm>
#include <map>
#include <functional>
relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
kvepoch_t global_log_epoch; volatile bool recovering = false; kvtimestamp_t initial_timestamp;
struct Rng { uint64_t s; uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; } int below(int n) { return (next() >> 33) % n; } };
static std::vector<int> got; static std::map<void*, int> blocks; static int reent; static int nextid; static threadinfo* inside;
static std::function<void(threadinfo&)> nested;
struct cb : threadinfo::mrcu_callback { int id, again; bool visit = false; void operator()(threadinfo& ti); };
static std::function<void(threadinfo&, int)> registered;
void cb::operator()(threadinfo& ti) { if (visit) nested(ti); got.push_back(id); if (again) { cb* c = new cb; c->id = ++nextid; c->again = again - 1; registered(ti, c->id); ti.rcu_register(c); } }
extern "C" void __real_free(void*);
extern "C" void __wrap_free(void* p) { if (p && !blocks.empty()) { auto it = blocks.find(p); if (it != blocks.end()) { got.push_back(it->second); blocks.erase(it); } } __real_free(p); }
static std::string ranges(std::vector<int> v) { std::sort(v.begin(), v.end()); std::string s = "["; for (size_t i = 0; i < v.size(); ) { size_t j = i; while (j + 1 < v.size() && v[j + 1] == v[j] + 1) ++j; s += (i ? "," : "") + std::string("[") + std::to_string(v[i]) + "," + std::to_string(v[j]) + "]"; i = j + 1; } return s + "]"; }
int main(int argc, char** argv) {
    FILE* f = fopen(argv[1], "w"); Rng r{(uint64_t) atoll(argv[2]) * 977 + 13}; int nprog = atoi(argv[3]), len = atoi(argv[4]); setenv("_", "valgrind", 1);
    for (int pr = 0; pr < nprog; ++pr) {
        int nt = 2 + r.below(3); std::vector<threadinfo*> T; std::vector<int> in(nt, 0);
        threadinfo::allthreads = nullptr;
        uint64_t e0; switch (r.below(4)) { case 0: e0 = 1; break; case 1: e0 = ~0ull - 2 * r.below(12); break; case 2: e0 = (1ull << 63) - 13 + 2 * r.below(12); break; default: e0 = 1 + 2 * (r.next() >> 20); }
        globalepoch.store(e0); active_epoch.store(e0);
        for (int i = 0; i < nt; ++i) T.push_back(threadinfo::make(threadinfo::TI_PROCESS, i));
        for (int i = 0; i < nt; ++i) { T[i]->rcu_start(); T[i]->rcu_stop(); }
        nextid = 0; std::string s; int n = 0; bool calm = false; bool big = r.below(4) == 0; int frozen = r.below(3) == 0 ? r.below(nt) : -1;
        auto put = [&](const char* k, int t, const std::string& rest) { s += std::string(n++ ? "," : "") + "{\"k\":\"" + k + "\",\"t\":" + std::to_string(t + 1) + rest + "}"; };
        auto collected = [&](int) { std::string x = ",\"f\":" + ranges(got); got.clear(); return x; };
        registered = [&](threadinfo& ti, int id) { int me = 0; while (T[me] != &ti) ++me; put("reg", me, ",\"id\":" + std::to_string(id)); };
        auto tick = [&]() { globalepoch.store(globalepoch.load() + 2); active_epoch.store(threadinfo::min_active_epoch()); put("tick", 0, ""); };
        auto retire = [&](int t, int m) { int lo = nextid + 1; int kind = r.below(3);
            for (int i = 0; i < m; ++i) { int id = ++nextid; if (kind == 0) { cb* c = new cb; c->id = id; c->again = r.below(60) == 0 ? 1 + r.below(2) : 0; c->visit = r.below(m > 20 ? 40 : 6) == 0; T[t]->rcu_register(c); }
                else if (kind == 1) { void* p = T[t]->allocate(40, memtag_value); T[t]->deallocate_rcu(p, 40, memtag_value); blocks[p] = id; }
                else { cb* c = new cb; c->id = id; c->again = 0; T[t]->rcu_register(c); } }
            put("ret", t, ",\"lo\":" + std::to_string(lo) + ",\"hi\":" + std::to_string(nextid)); };
        // a callback takes its time: meanwhile other threads go on, and the one that runs it is still inside its section
        int busy = 0;
        nested = [&](threadinfo& ti) {
            if (busy || calm) return;
            int me = 0; while (T[me] != &ti) ++me;
            busy = 1; auto g = got; got.clear();
            for (int k = 1 + r.below(10); k; --k) {
                int u = (me + 1 + r.below(nt - 1)) % nt, x = r.below(10);
                if (x < 4) tick();
                else if (!in[u]) { T[u]->rcu_start(); in[u] = 1; put("start", u, ""); }
                else if (x < 6) retire(u, 1 + r.below(3));
                else if (x < 8) { T[u]->rcu_quiesce(); put("quiesce", u, collected(u)); }
                else { T[u]->rcu_stop(); in[u] = 0; put("stop", u, collected(u)); }
            }
            busy = 0; got = g;
        };
        for (int i = 0; i < len; ++i) {
            int t = r.below(nt), x = r.below(20);
            if (t == frozen && in[t] && r.below(8)) { t = (t + 1) % nt; }
            if (x < 4) { tick(); continue; }
            if (!in[t]) { if (x < 16) { T[t]->rcu_start(); in[t] = 1; put("start", t, ""); } continue; }
            if (x < 8) { put("start", t, ""); T[t]->rcu_quiesce(); put("quiesce", t, collected(t)); }
            else if (x < 11) { T[t]->rcu_stop(); in[t] = 0; put("stop", t, collected(t)); }
            else if (x < 12 && r.below(3) == 0) { T[t]->rcu_start(); put("start", t, ""); }     // a second start inside a section only refreshes the epoch it published
            else retire(t, big ? (r.below(3) ? 1 + r.below(130) : 200 + r.below(400)) : 1 + r.below(5));
        }
        calm = true;
        for (int i = 0; i < nt; ++i) if (in[i]) { T[i]->rcu_stop(); put("stop", i, collected(i)); }
        // calm: everything must go
        int rounds = 8 + (nextid + 3 * nt) / 100; for (int k = 0; k < rounds; ++k) { tick(); for (int i = 0; i < nt; ++i) { T[i]->rcu_start(); put("start", i, ""); T[i]->rcu_stop(); put("stop", i, collected(i)); } }
        put("calm", 0, ",\"n\":" + std::to_string(nextid));
        fprintf(f, "{\"nt\":%d,\"e\":[%s]}\n", nt, s.c_str());
    }
    fclose(f); return 0;
}

// Deterministic scheduler for unmodified /repo code.
//
// Translation units of /repo are compiled with -fsanitize=thread but linked
// against the __tsan_* functions defined in vsched.cc, so that every memory
// access is a call into this scheduler.  Threads are fibers on one OS thread;
// an access to a shared word is a possible context switch.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <functional>
#include <vector>
#include <string>

namespace vs {

enum { MAXF = 8 };

// ---- deterministic memory -------------------------------------------------
void arena_init(size_t bytes);            // fixed-address arena; malloc is redirected while arena_on
extern bool arena_on;
void arena_reset();                        // forget everything
void arena_snapshot();                     // remember current content
void arena_restore();                      // back to snapshot
size_t arena_used();
void register_global(void* p, size_t n);   // a range outside the arena that is shared; saved in snapshots
bool in_arena(const void* p);

// ---- object lifetimes (memdebug hooks, see vs_memdebug.hh) -----------------
struct live_stats { long live_blocks; long live_bytes; long made; long freed; long retired; };
live_stats mem_stats();

// ---- fibers ---------------------------------------------------------------
enum PolicyKind { P_RANDOM, P_PCT, P_LIST, P_FREE, P_SEG };
struct Seg { int8_t fiber; char mode; uint32_t n; };   // run `fiber` for n scheduling points ('n'), n stores ('w'), n operations ('b') or to its end ('e')
struct Switch { uint32_t step; int8_t to; };   // at yield number `step`, continue with fiber `to`
struct Policy {
    PolicyKind kind = P_RANDOM;
    uint64_t seed = 1;
    double p = 0.1;            // P_RANDOM: switch probability
    int depth = 3;             // P_PCT: change points
    uint32_t len = 1000;       // P_PCT: estimated length
    std::vector<Switch> list;  // P_LIST: forced switches (non-preemptive otherwise)
    int first = 0;             // P_LIST: first fiber
    std::vector<Seg> segs;     // P_SEG: segments in order, then round robin
    uint32_t max_steps = 300000;
    uint32_t fair_after = 60000;
    bool all_yield = false;    // learning mode: yield at every arena access
    int after_retire_pct = 0;  // P_RANDOM: extra switch chance right after a retirement
};
struct Outcome {
    bool ok = true;
    std::string kind;          // assert, segv, uaf, doublefree, reclaim, stuck, lock
    std::string what;
    uint32_t steps = 0;
    uint32_t switches = 0;
    std::vector<Switch> trace; // every switch taken (replay with P_LIST)
    int first = 0;
    uint32_t points[MAXF];     // scheduling points of every fiber
    uint32_t wpoints[MAXF];    // those that follow a store
};
void clear_learning();
int fiber_spawn(std::function<void()> fn); // before run()
Outcome run(const Policy& pol);
int self();                                // fiber id or -1
void yield_hint();                         // explicit scheduling point (thread may spin here)
void op_boundary();                        // scheduling point between operations
[[noreturn]] void fail(const char* kind, const std::string& what);
[[noreturn]] void fail(const char* kind, const char* what);
extern bool (*node_busy)(const void*);     // is this node (pool object) locked?
extern "C" const char* busy_node();
uint32_t now_step();
void block_until(std::function<bool()> pred);   // not runnable until pred() holds

// read-side section bookkeeping, used by the reclamation oracle
void section_enter();      // a new section starts
void section_quiesce();    // a new section starts; nothing of the old one is held
void section_leave();
struct rcu_event { uint8_t kind; uint8_t fiber; uint32_t obj; uint64_t epoch; };  // 'S' 'Q' 'E' 'T'ouch 'R'etire 'F'ree 'A'lloc
extern bool rcu_trace_on;
extern bool uaf_fatal;       // report accesses to released memory
extern std::vector<rcu_event> rcu_trace;

struct rng {
    uint64_t s;
    explicit rng(uint64_t x = 1) : s(x * 0x9E3779B97F4A7C15ULL + 0x1234567) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint32_t below(uint32_t n) { return n ? next() % n : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
}

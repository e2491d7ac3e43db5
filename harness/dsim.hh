// Deterministic simulation of the whole server process.
//
// The server's own main() runs with every thread as a fiber, on virtual time,
// a virtual network and tracked files: libc calls are redirected here with
// --wrap, and shared-memory accesses (compiled with -fsanitize=thread, linked
// against the functions in dsim.cc) are possible context switches.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <deque>
#include <functional>

namespace sim {
struct rng {
    uint64_t s;
    explicit rng(uint64_t x = 1) : s(x * 0x9E3779B97F4A7C15ULL + 0x1234567) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint32_t below(uint32_t n) { return n ? next() % n : 0; }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
};
struct config {
    uint64_t seed = 1;
    uint32_t preempt = 3000;       // mean number of memory accesses between preemptions
    double pause = 0;              // chance that a preempted fiber is held back for long
    uint32_t pause_us = 1500000;   // ... at most this long
    uint64_t quiet_from = ~0ull;   // no long pauses or slow syncs from this time on
    uint32_t sync_us = 3000;       // an fsync takes up to this long
    double slow_sync = 0;          // chance of one that takes up to a second
    uint64_t crash_at = ~0ull;     // virtual time of the crash
    bool crash_in_sync = false;    // ... moved to the next fsync after it
    uint64_t crash_call = ~0ull;   // ... or number of the file operation at which it happens
    uint32_t commit_n = 0, commit_us = 0;   // ... or at most this long after this many checkpoints have been committed
    uint64_t limit = 120000000;    // a run that gets here is stuck
    uint32_t chunk = 65536;        // largest piece one network read returns
    uint32_t wchunk = 0;           // if nonzero, largest piece one network write takes
    uint64_t start_us = 1000000000ull * 1000000ull;   // virtual clock at start
};
extern config cfg;
extern rng R;

// durable state of files, shared with the driver
struct filerec { char path[200]; uint64_t synced; uint64_t size; };
struct filetab { uint32_t n; filerec f[64]; };
extern filetab* files;
extern uint64_t file_calls;

uint64_t now();                            // virtual microseconds since start
void run(std::function<void()> main_fn);   // does not return
int spawn(std::function<void()> fn, bool server = false);
void sleep_us(uint64_t us);
void block(std::function<bool()> pred);
[[noreturn]] void finish(int code);        // leave the process
extern const char* stuck_note;

// ---- network
struct vconn { std::deque<char> in, out; bool client_closed = false, server_closed = false; int fd = -1; bool accepted = false; int served = 0; };
vconn* connect();                          // blocks until accepted is possible; the handshake is the client's job
extern bool listening;
struct vdgram { std::string data; uint32_t from; };
extern std::deque<vdgram> udp_in[8], udp_out;
enum { EXIT_CRASH = 77, EXIT_STUCK = 78, EXIT_DONE = 79 };
}

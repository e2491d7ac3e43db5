// See vsched.hh.  This file is compiled WITHOUT -fsanitize=thread.
#include "vsched.hh"
#include <sys/mman.h>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <new>

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_realloc(void*, size_t);
void* __real_calloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
}

namespace vs {

// ---------------------------------------------------------------- arena ----
static char* base = nullptr;
static size_t asize = 0, used = 0;
bool arena_on = false;
enum { G_NONE = 0, G_LIVE = 1, G_FREED = 2 };
static uint8_t* gran;       // per 16 bytes
static uint32_t* objof;     // per 16 bytes: object index + 1
static uint16_t* shar;      // per 8 bytes: readers | writers<<8
struct globrange { char* p; size_t n; size_t off; char* save; };
static std::vector<globrange> globs;
static size_t globtop;      // shadow offset for globals
static const size_t GLOBMAX = 65536;

struct object {
    uint32_t off, size; uint8_t state; // 1 live 2 retired 3 freed
    uint8_t nl; uint32_t touch[MAXF]; uint64_t retire_epoch;
};
static object* objs; static uint32_t nobjs, capobjs;
static live_stats stats;

static char* snap_mem; static size_t snap_used; static uint8_t* snap_gran; static uint32_t* snap_objof;
static object* snap_objs; static uint32_t snap_nobjs; static live_stats snap_stats;

bool rcu_trace_on = false; bool uaf_fatal = true;
std::vector<rcu_event> rcu_trace;
static rcu_event rcu_buf[1 << 18]; static size_t rcu_n;
static inline void rcu_push(rcu_event e) { if (rcu_n < (1 << 18)) rcu_buf[rcu_n++] = e; }

bool in_arena(const void* p) { return (size_t)((const char*)p - base) < used; }
size_t arena_used() { return used; }
live_stats mem_stats() { return stats; }

void arena_init(size_t bytes) {
    asize = bytes;
    base = (char*) mmap((void*) 0x200000000000ULL, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (base == MAP_FAILED) { perror("mmap"); exit(3); }
    auto mk = [](size_t n) { void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; };
    gran = (uint8_t*) mk(bytes / 16); objof = (uint32_t*) mk(bytes / 16 * 4);
    shar = (uint16_t*) mk((bytes + GLOBMAX) / 8 * 2);
    capobjs = bytes / 64; objs = (object*) mk(capobjs * sizeof(object));
    snap_mem = (char*) mk(bytes); snap_gran = (uint8_t*) mk(bytes / 16); snap_objof = (uint32_t*) mk(bytes / 16 * 4);
    snap_objs = (object*) mk(capobjs * sizeof(object));
}
void register_global(void* p, size_t n) {
    globs.push_back(globrange{(char*) p, n, asize + globtop, (char*) __real_malloc(n)});
    globtop += (n + 63) & ~63ul;
    if (globtop > GLOBMAX) abort();
}
void arena_reset() {
    memset(gran, 0, used / 16 + 1); memset(objof, 0, (used / 16 + 1) * 4);
    used = 64; nobjs = 0; stats = live_stats();
}
void arena_snapshot() {
    snap_used = used; __real_memcpy(snap_mem, base, used); __real_memcpy(snap_gran, gran, used / 16 + 1);
    __real_memcpy(snap_objof, objof, (used / 16 + 1) * 4);
    snap_nobjs = nobjs; __real_memcpy(snap_objs, objs, nobjs * sizeof(object)); snap_stats = stats;
    for (auto& g : globs) __real_memcpy(g.save, g.p, g.n);
}
void arena_restore() {
    if (used > snap_used) { memset(gran + snap_used / 16, 0, (used - snap_used) / 16 + 1); memset(objof + snap_used / 16, 0, ((used - snap_used) / 16 + 1) * 4); }
    used = snap_used; __real_memcpy(base, snap_mem, used); __real_memcpy(gran, snap_gran, used / 16 + 1);
    __real_memcpy(objof, snap_objof, (used / 16 + 1) * 4);
    nobjs = snap_nobjs; __real_memcpy(objs, snap_objs, nobjs * sizeof(object)); stats = snap_stats;
    for (auto& g : globs) __real_memcpy(g.p, g.save, g.n);
}
static void* arena_alloc(size_t n, size_t align = 16) {
    size_t off = used + 16;
    off = (off + align - 1) & ~(align - 1);
    size_t n2 = (n + 15) & ~15ul; if (!n2) n2 = 16;
    if (off + n2 + 16 > asize) { fail("arena", "arena exhausted"); }
    *(size_t*)(base + off - 16) = n2;
    used = off + n2;
    memset(gran + off / 16, G_LIVE, n2 / 16);
    __real_memset(base + off, 0xCB, n2);
    return base + off;
}
static void arena_free(void* p) {
    size_t off = (char*) p - base, n = *(size_t*)(base + off - 16);
    if (gran[off / 16] == G_FREED) fail("doublefree", "memory block released twice");
    memset(gran + off / 16, G_FREED, n / 16);
}

// ---------------------------------------------------------------- fibers ---
struct fiber {
    void* sp; char* stack; std::function<void()> fn; bool done; int prio; std::function<bool()> pred;
    uint32_t cursec; bool insec;
};
static fiber F[MAXF]; static int nf = 0; static int cur = -1;
static const size_t STK = 512 * 1024;
static void* main_sp; static sigjmp_buf main_jmp;
static Policy pol; static rng R(1); static Outcome out;
static uint32_t step, last_switch_step, yields; static size_t li, si; static bool boundary; static std::vector<uint32_t> cps; static size_t cpi; static int lowprio;
static const void* lastaddr; static int samecount;
static bool retire_pending;
static Switch* trbuf; static size_t trn; static const size_t TRCAP = 1 << 20;
static char failkind[32], failwhat[512];

extern "C" void vs_swtch(void** save, void* to);
asm(R"(
.text
.globl vs_swtch
vs_swtch:
  push %rbp
  push %rbx
  push %r12
  push %r13
  push %r14
  push %r15
  mov %rsp, (%rdi)
  mov %rsi, %rsp
  pop %r15
  pop %r14
  pop %r13
  pop %r12
  pop %rbx
  pop %rbp
  ret
)");

int self() { return cur; }
uint32_t now_step() { return step; }
void clear_learning() { if (shar) { memset(shar, 0, (used + 65536 < asize ? used + 65536 : asize) / 8 * 2); memset((char*)shar + asize / 8 * 2, 0, GLOBMAX / 8 * 2); } }

static bool runnable(int i) { return !F[i].done && (!F[i].pred || F[i].pred()); }
static int nrunnable_other() { int n = 0; for (int i = 0; i < nf; ++i) if (i != cur && runnable(i)) ++n; return n; }
static int pick_random_other() {
    int c[MAXF], n = 0;
    for (int i = 0; i < nf; ++i) if (i != cur && runnable(i)) c[n++] = i;
    return n ? c[R.below(n)] : -1;
}
static int pick_next_rr() { for (int k = 1; k <= nf; ++k) { int i = (cur + k + nf) % nf; if (i != cur && runnable(i)) return i; } return -1; }
static int pick_prio() { int b = -1; for (int i = 0; i < nf; ++i) if (runnable(i) && (b < 0 || F[i].prio > F[b].prio)) b = i; return b; }

// allocates nothing: the scheduler itself gets here
[[noreturn]] void fail(const char* kind, const char* what) {
    if (getenv("VS_DEBUG_ABORT")) { fprintf(stderr, "vs::fail %s: %s (fiber %d step %u)\n", kind, what, cur, step); abort(); }
    if (cur < 0 && nf == 0) { fprintf(stderr, "vs: failure outside run: %s: %s\n", kind, what); abort(); }
    if (out.ok) { out.ok = false; snprintf(failkind, sizeof failkind, "%s", kind); snprintf(failwhat, sizeof failwhat, "%s", what); }
    siglongjmp(main_jmp, 1);
}
[[noreturn]] void fail(const char* kind, const std::string& what) { fail(kind, what.c_str()); }
bool (*node_busy)(const void*) = nullptr;

static void switch_to(int to) {
    if (to == cur) return;
    if (trn < TRCAP) trbuf[trn++] = Switch{step, (int8_t) to};
    ++out.switches;
    int me = cur; cur = to; last_switch_step = step; lastaddr = nullptr; samecount = 0; retire_pending = false;
    vs_swtch(&F[me].sp, F[to].sp);
}

static bool wpoint;   // the current scheduling point follows a store
// must = the current fiber cannot or should not continue
static void schedule(bool must, bool yieldpt) {
    bool bd = boundary; boundary = false;
    if (step > pol.max_steps) fail("stuck", "operations did not finish under a fair schedule");
    int to = -1;
    if (pol.kind == P_LIST) {
        while (li < pol.list.size() && pol.list[li].step < step) ++li;
        if (li < pol.list.size() && pol.list[li].step == step) { to = pol.list[li].to; ++li; if (to == cur || to >= nf || !runnable(to)) to = -1; }
        if (to < 0 && must) to = pick_next_rr();
    } else if (pol.kind == P_FREE) {
        if (must) to = pick_next_rr();
    } else if (pol.kind == P_SEG && si < pol.segs.size()) {
        Seg& g = pol.segs[si]; bool over = must || g.fiber != cur;
        if (g.mode == 'n' ? yieldpt : g.mode == 'w' ? wpoint : g.mode == 'b' ? bd : false) { if (g.n <= 1) over = true; else --g.n; }
        if (over) { do ++si; while (si < pol.segs.size() && !(pol.segs[si].fiber < nf && runnable(pol.segs[si].fiber) && !(must && pol.segs[si].fiber == cur)));
            if (si < pol.segs.size()) to = pol.segs[si].fiber; else if (must) to = pick_next_rr(); }
    } else if (pol.kind == P_SEG && step <= pol.fair_after) {
        if (must) to = pick_next_rr();
    } else if (step > pol.fair_after) {
        if (must || (yieldpt && R.below(8) == 0)) to = pick_random_other();
    } else if (pol.kind == P_RANDOM) {
        if (must) to = pick_random_other();
        else if (retire_pending && (int) R.below(100) < pol.after_retire_pct) to = pick_random_other();
        else if (yieldpt && R.unit() < pol.p) to = pick_random_other();
        retire_pending = false;
    } else { // PCT
        if (yieldpt) { ++yields; if (cpi < cps.size() && yields >= cps[cpi]) { F[cur].prio = --lowprio; ++cpi; } }
        if (must && !F[cur].done && !F[cur].pred) F[cur].prio = --lowprio;
        int b = pick_prio();
        if (b == cur && must) b = pick_next_rr();
        to = b;
    }
    if (to >= 0 && to != cur) switch_to(to);
    else if (must && (F[cur].done || (F[cur].pred && !F[cur].pred()))) {
        // nobody else can run
        to = pick_next_rr();
        if (to >= 0) switch_to(to);
        else fail("deadlock", "every unfinished thread is blocked");
    }
}

static bool wrote[MAXF];   // its last scheduling point was a store
static inline void step_event(bool force, bool yieldpt) {
    wpoint = yieldpt && wrote[cur]; if (yieldpt) { if (wpoint) ++out.wpoints[cur]; wrote[cur] = false; }
    ++step; if (yieldpt) ++out.points[cur];
    if (pol.kind == P_LIST) {
        if (force || (li < pol.list.size() && pol.list[li].step <= step) || step > pol.max_steps) schedule(force, yieldpt);
    } else if (force || yieldpt || step > pol.max_steps) schedule(force, yieldpt);
}

static void fiber_main() {
    F[cur].fn();
    F[cur].done = true;
    ++step;
    for (int i = 0; i < nf; ++i) if (!F[i].done) { schedule(true, true); }
    out.steps = step;
    cur = -1;
    siglongjmp(main_jmp, 2);
}

int fiber_spawn(std::function<void()> fn) {
    int i = nf++;
    if (i >= MAXF) abort();
    if (!F[i].stack) F[i].stack = (char*) mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    F[i].fn = fn; F[i].done = false; F[i].pred = nullptr; F[i].insec = false; F[i].cursec = 1;
    uintptr_t* sp = (uintptr_t*)(F[i].stack + STK - 64);
    sp = (uintptr_t*)((uintptr_t) sp & ~63ul);
    *--sp = 0; // alignment + fake return
    *--sp = (uintptr_t) fiber_main;
    for (int k = 0; k < 6; ++k) *--sp = 0;
    F[i].sp = sp;
    return i;
}

static void on_signal(int sig) {
    if (cur < 0 && nf == 0) { signal(sig, SIG_DFL); raise(sig); return; }
    sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, 0);
    fail(sig == SIGSEGV || sig == SIGBUS ? "segv" : "signal", sig == SIGSEGV ? "invalid memory access" : "fatal signal");
}
static void setup_signals() {
    static bool done = false; if (done) return; done = true;
    if (getenv("VS_DEBUG_ABORT")) return;
    static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof(alt); ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, 0);
}

Outcome run(const Policy& p) {
    setup_signals();
    pol = p; R = rng(p.seed); out = Outcome(); step = 0; yields = 0; si = 0; boundary = false; memset(out.points, 0, sizeof out.points); memset(out.wpoints, 0, sizeof out.wpoints); memset(wrote, 0, sizeof wrote); last_switch_step = 0; li = 0; cpi = 0; cps.clear(); lowprio = 0; lastaddr = nullptr; samecount = 0; retire_pending = false;
    rcu_n = 0; trn = 0; failkind[0] = failwhat[0] = 0;
    if (!trbuf) trbuf = (Switch*) mmap(0, TRCAP * sizeof(Switch), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    int first = 0;
    if (p.kind == P_LIST || p.kind == P_FREE) first = p.first;
    else if (p.kind == P_PCT) {
        std::vector<int> pr; for (int i = 0; i < nf; ++i) pr.push_back(i + 1);
        for (int i = nf - 1; i > 0; --i) std::swap(pr[i], pr[R.below(i + 1)]);
        for (int i = 0; i < nf; ++i) { F[i].prio = pr[i]; if (pr[i] == nf) first = i; }
        for (int i = 0; i < p.depth; ++i) cps.push_back(1 + R.below(p.len));
        std::sort(cps.begin(), cps.end());
    } else if (p.kind == P_SEG) first = p.segs.empty() || p.segs[0].fiber >= nf ? 0 : p.segs[0].fiber;
    else first = R.below(nf);
    out.first = first;
    if (sigsetjmp(main_jmp, 0) == 0) {
        cur = first; arena_on = true;
        vs_swtch(&main_sp, F[first].sp);
    }
    cur = -1; arena_on = false;
    out.kind = failkind; out.what = failwhat; out.trace.assign(trbuf, trbuf + trn);
    rcu_trace.assign(rcu_buf, rcu_buf + rcu_n);
    for (int i = 0; i < nf; ++i) { F[i].fn = nullptr; F[i].pred = nullptr; }
    nf = 0;
    out.steps = step;
    return out;
}

void yield_hint() { if (cur >= 0) step_event(true, true); }
void op_boundary() { if (cur >= 0) { boundary = true; step_event(false, true); boundary = false; } }
void block_until(std::function<bool()> pred) {
    if (cur < 0) return;
    if (pred()) { step_event(false, true); return; }
    bool s = arena_on; arena_on = false; F[cur].pred = pred; arena_on = s;
    while (!F[cur].pred()) step_event(true, true);
    arena_on = false; F[cur].pred = nullptr; arena_on = s;
}

// ------------------------------------------------------------- access hook --
static inline void touch(uint32_t oi) {
    object& o = objs[oi];
    if (o.touch[cur] != F[cur].cursec) {
        o.touch[cur] = F[cur].cursec;
        if (rcu_trace_on) rcu_push(rcu_event{'T', (uint8_t) cur, oi, 0});
    }
}
static inline bool acc(const void* a, unsigned sz, bool w) {
    size_t off = (const char*) a - base, widx;
    if (off < used) {
        if (gran[off >> 4] == G_FREED && uaf_fatal) fail("uaf", "access to freed memory");
        if (uint32_t oi = objof[off >> 4]) touch(oi - 1);
        widx = off >> 3;
    } else {
        widx = 0;
        for (auto& g : globs) if ((size_t)((const char*) a - g.p) < g.n) { widx = (g.off + ((const char*) a - g.p)) >> 3; break; }
        if (!widx) return false;
    }
    uint16_t& s = shar[widx]; unsigned me = 1u << cur;
    s |= w ? me << 8 : me;
    bool conflict = (s & 0xff00) && ((s | (s >> 8)) & 0xff & ~me);
    bool spin = false;
    if (!w && a == lastaddr) { if (++samecount >= 4) { spin = true; samecount = 0; } }
    else { lastaddr = a; samecount = 0; }
    if (step - last_switch_step > 4000) spin = true;
    bool y = conflict || pol.all_yield;
    step_event(spin, y);
    if (y && w) wrote[cur] = true;
    // the object may have been released while we were switched out
    if (off < used && gran[off >> 4] == G_FREED && uaf_fatal) fail("uaf", "access to freed memory");
    if (off < used) { if (uint32_t oi = objof[off >> 4]) touch(oi - 1); }
    (void) sz;
    return true;
}
static inline void R_(const void* a, unsigned sz) { if (cur >= 0) acc(a, sz, false); }
static inline void W_(const void* a, unsigned sz) { if (cur >= 0) acc(a, sz, true); }

void section_enter() { if (cur >= 0) { ++F[cur].cursec; F[cur].insec = true; if (rcu_trace_on) rcu_push(rcu_event{'S', (uint8_t) cur, 0, 0}); } }
void section_quiesce() { if (cur >= 0) { ++F[cur].cursec; F[cur].insec = true; if (rcu_trace_on) rcu_push(rcu_event{'Q', (uint8_t) cur, 0, 0}); } }
void section_leave() { if (cur >= 0) { ++F[cur].cursec; F[cur].insec = false; if (rcu_trace_on) rcu_push(rcu_event{'E', (uint8_t) cur, 0, 0}); } }

} // namespace vs
using namespace vs;

// ------------------------------------------------------- memdebug hooks -----
extern "C" {
void* vsmd_make(void* p, size_t sz, unsigned nl) {
    if (!p || !in_arena(p)) return p;
    uint32_t off = (char*) p - base;
    uint32_t i = nobjs++;
    if (nobjs >= capobjs) fail("arena", "too many objects");
    object& o = objs[i]; memset(&o, 0, sizeof o); o.off = off; o.size = sz; o.state = 1; o.nl = nl;
    size_t n2 = (sz + 15) & ~15ul;
    for (size_t k = 0; k < n2 / 16; ++k) objof[off / 16 + k] = i + 1;
    ++stats.made; ++stats.live_blocks; stats.live_bytes += sz;
    if (rcu_trace_on && cur >= 0) rcu_push(rcu_event{'A', (uint8_t) cur, i, 0});
    return p;
}
static object* getobj(void* p, const char* what) {
    uint32_t off = (char*) p - base; uint32_t oi = objof[off / 16];
    if (!oi || objs[oi - 1].off != off) { static char b[128]; snprintf(b, sizeof b, "%s of something that is not an allocated object", what); fail("badfree", b); }
    return &objs[oi - 1];
}
static void* replace_block(object* o, unsigned nl) {
    size_t off = o->off, n2 = (o->size + 15) & ~15ul;
    memset(gran + off / 16, G_FREED, n2 / 16);
    // hand out a fresh block in its place, so that the address is never reused
    return arena_alloc(nl ? nl * 64 : n2, nl ? 64 : 16);
}
void* vsmd_free(void* p, size_t sz, unsigned nl) {
    if (!in_arena(p)) return p;
    object* o = getobj(p, "deallocation");
    if (o->state == 3) fail("doublefree", "object freed twice");
    if (o->state == 2) fail("doublefree", "retired object freed directly");
    if (o->nl != nl) fail("badfree", "object freed to a different pool than it was allocated from");
    if (rcu_trace_on && cur >= 0) rcu_push(rcu_event{'D', (uint8_t) cur, (uint32_t)(o - objs), 0});
    o->state = 3; ++stats.freed; --stats.live_blocks; stats.live_bytes -= o->size;
    return replace_block(o, nl);
}
void vsmd_retire(void* p, size_t, unsigned nl) {
    if (!in_arena(p)) return;
    object* o = getobj(p, "retirement");
    if (o->state == 3) fail("doublefree", "freed object retired");
    if (o->state == 2) fail("doublefree", "object retired twice");
    if (o->nl != nl) fail("badfree", "object retired to a different pool than it was allocated from");
    o->state = 2; ++stats.retired; retire_pending = true;
    if (rcu_trace_on && cur >= 0) rcu_push(rcu_event{'R', (uint8_t) cur, (uint32_t)(o - objs), 0});
}
void* vsmd_free_after_rcu(void* p, unsigned nl) {
    if (!in_arena(p)) return p;
    object* o = getobj(p, "reclamation");
    if (o->state == 3) fail("doublefree", "object reclaimed twice");
    if (nl && node_busy && node_busy(p)) fail("lock", "a node is reclaimed with its lock still held");
    if (rcu_trace_on && cur >= 0) rcu_push(rcu_event{'F', (uint8_t) cur, (uint32_t)(o - objs), 0});
    o->state = 3; ++stats.freed; --stats.live_blocks; stats.live_bytes -= o->size;
    return replace_block(o, nl);
}

// nodes whose lock is held although no operation is running
const char* busy_node() {
    if (node_busy) for (uint32_t i = 0; i < nobjs; ++i) if (objs[i].nl && objs[i].state != 3 && node_busy(base + objs[i].off)) return objs[i].state == 2 ? "a retired node's lock is still held after all operations finished" : "a node's lock is still held after all operations finished";
    return nullptr;
}
// ------------------------------------------------------- libc redirection ---
void* __wrap_malloc(size_t n) { return arena_on ? arena_alloc(n) : __real_malloc(n); }
void __wrap_free(void* p) { if (!p) return; if ((size_t)((char*) p - base) < asize) arena_free(p); else __real_free(p); }
void* __wrap_calloc(size_t a, size_t b) { if (!arena_on) return __real_calloc(a, b); void* p = arena_alloc(a * b); __real_memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) {
    if (p && (size_t)((char*) p - base) < asize) {
        size_t on = *(size_t*)((char*) p - 16); void* q = __wrap_malloc(n); __real_memcpy(q, p, on < n ? on : n); arena_free(p); return q;
    }
    if (arena_on && !p) return arena_alloc(n);
    return __real_realloc(p, n);
}
int __wrap_posix_memalign(void** r, size_t al, size_t n) { if (!arena_on) return __real_posix_memalign(r, al, n); *r = arena_alloc(n, al < 16 ? 16 : al); return 0; }

static inline bool interesting(const void* a) { return (size_t)((const char*) a - base) < used; }
void* __wrap_memcpy(void* d, const void* s, size_t n) {
    if (cur < 0 || n > 512 || (!interesting(d) && !interesting(s))) return __real_memcpy(d, s, n);
    char* dd = (char*) d; const char* ss = (const char*) s;
    while (n) { size_t k = n < 8 ? n : 8; if (interesting(ss)) acc(ss, k, false); char tmp[8]; __real_memcpy(tmp, ss, k); if (interesting(dd)) acc(dd, k, true); __real_memcpy(dd, tmp, k); dd += k; ss += k; n -= k; }
    return d;
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
    if (cur >= 0 && n) { if (interesting(s)) { acc(s, 1, false); } if (interesting(d)) { acc(d, 1, true); acc((char*) d + n - 1, 1, true); } }
    return __real_memmove(d, s, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n) {
    if (cur >= 0 && n) { if (interesting(a)) acc(a, 1, false); if (interesting(b)) acc(b, 1, false); if (n > 8) { if (interesting(a)) acc((char*) a + n - 1, 1, false); if (interesting(b)) acc((char*) b + n - 1, 1, false); } }
    return __real_memcmp(a, b, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
    if (cur >= 0 && n && interesting(d)) { acc(d, 1, true); acc((char*) d + n - 1, 1, true); }
    return __real_memset(d, c, n);
}
void __wrap_abort() { fail("abort", "abort() called"); }
[[noreturn]] void __assert_fail(const char* e, const char* f, unsigned l, const char*) { const char* b = strrchr(f, '/'); static char m[400]; snprintf(m, sizeof m, "assertion failed: %s at %s:%u", e, b ? b + 1 : f, l); fail("assert", m); }

// ------------------------------------------------------- tsan entry points --
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** a, void*) { W_(a, 8); }
void __tsan_vptr_read(void** a) { R_(a, 8); }
#define RW(n) void __tsan_read##n(void* a) { R_(a, n); } void __tsan_write##n(void* a) { W_(a, n); } \
  void __tsan_unaligned_read##n(void* a) { R_(a, n); } void __tsan_unaligned_write##n(void* a) { W_(a, n); } \
  void __tsan_volatile_read##n(void* a) { R_(a, n); } void __tsan_volatile_write##n(void* a) { W_(a, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void range(const void* a, size_t n, bool w) { if (cur < 0) return; if (!interesting(a)) { acc(a, n, w); return; } for (size_t i = 0; i < n && i < 512; i += 8) acc((const char*) a + i, 8, w); }
void __tsan_read_range(void* a, size_t n) { range(a, n, false); }
void __tsan_write_range(void* a, size_t n) { range(a, n, true); }
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int) {}
#define ATOM(bits, T) \
 T __tsan_atomic##bits##_load(const volatile T* a, int) { R_((const void*) a, sizeof(T)); return *a; } \
 void __tsan_atomic##bits##_store(volatile T* a, T v, int) { W_((const void*) a, sizeof(T)); *a = v; } \
 T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { W_((const void*) a, sizeof(T)); T o = *a; *a = v; return o; } \
 T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { W_((const void*) a, sizeof(T)); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { W_((const void*) a, sizeof(T)); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { W_((const void*) a, sizeof(T)); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { W_((const void*) a, sizeof(T)); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { W_((const void*) a, sizeof(T)); T o = *a; *a = o ^ v; return o; } \
 T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { W_((const void*) a, sizeof(T)); T o = *a; *a = ~(o & v); return o; } \
 static inline bool cas##bits(volatile T* a, T* e, T d) { if (cur >= 0) acc((const void*) a, sizeof(T), *a == *e); if (*a == *e) { *a = d; return true; } *e = *a; return false; } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T d, int, int) { return cas##bits(a, e, d); } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T d, int, int) { return cas##bits(a, e, d); } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T d, int, int) { T x = e; cas##bits(a, &x, d); return x; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
}

void* operator new(size_t n) { return __wrap_malloc(n); }
void* operator new[](size_t n) { return __wrap_malloc(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }

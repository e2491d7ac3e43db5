// Concurrent tree harness: runs the real table code (query<row_type> on
// basic_table at several node widths) under the deterministic scheduler and
// records histories for validation by TLC.
#include "config.h"
#include "compiler.hh"
#include "masstree.hh"
#include "kvthread.hh"
#include "kvrow.hh"
#include "masstree_tcursor.hh"
#include "masstree_get.hh"
#include "masstree_insert.hh"
#include "masstree_split.hh"
#include "masstree_remove.hh"
#include "masstree_scan.hh"
#include "masstree_print.hh"
#include "json.hh"
#include "scn.hh"
#include <unordered_map>
#include <map>
#include <set>
#include <time.h>
#include <stdio.h>

relaxed_atomic<mrcu_epoch_type> globalepoch(1);
relaxed_atomic<mrcu_epoch_type> active_epoch(1);
kvepoch_t global_log_epoch;
volatile bool recovering = false;
kvtimestamp_t initial_timestamp;

using lcdf::Json; using lcdf::Str; using lcdf::String;

template <int LW, int IW> struct tparams : public Masstree::nodeparams<LW, IW> {
    typedef row_type* value_type;
    typedef Masstree::value_print<value_type> value_print_type;
    typedef ::threadinfo threadinfo_type;
};

enum { MAXCOL = 4, MAXOPS = 400, MAXSC = 64 };
struct Rec {   // one executed operation (or per-key part of a scan)
    char k; int thr, key, a, b, tok;
    int inv, ret;            // event numbers
    int res;                 // p,l,i: inserted; d: existed; g: found
    int row[MAXCOL], ncol;   // g: row
    uint64_t ts;
    int ns; int skey[MAXSC]; int scb[MAXSC]; int srow[MAXSC][MAXCOL]; int sncol[MAXSC]; uint64_t sts[MAXSC]; int scount; int stopped;
    int vres, vinv, vret;    // validation
};
static Rec recs[MAXOPS]; static int nrecs; static int evclock;
static Scenario const* SC;
static const char* keyp[256]; static int keyl[256]; static int nkeys;   // raw universe (no allocation in fibers)
static threadinfo* TI[vs::MAXF + 1];

static Str K(int i) { return i < 0 ? Str("", 0) : Str(keyp[i], keyl[i]); }
static int keyindex(Str s) { for (int i = 0; i < nkeys; ++i) if (keyl[i] == s.len && memcmp(keyp[i], s.s, s.len) == 0) return i; return -1; }
static int parse_tok(Str s) { if (s.len == 0) return 0; int v = 0; for (int i = 0; i < s.len; ++i) { if (s.s[i] < '0' || s.s[i] > '9') return i == 0 ? -1 : (s.s[i] == '.' ? v : -1); v = v * 10 + s.s[i] - '0'; } return v; }
static int fmt_tok(char* buf, int tok) {   // different lengths so that torn rows show
    int n = sprintf(buf, "%d", tok); int pad = (tok * 7) % 11; for (int i = 0; i < pad; ++i) buf[n++] = '.'; return n;
}
static Rec& newrec(const Op& o, int thr) {
    if (nrecs >= MAXOPS) vs::fail("harness", "too many operations");
    Rec& r = recs[nrecs++]; memset(&r, 0, sizeof r); r.k = o.k; r.thr = thr; r.key = o.key == -1 && nkeys && keyl[0] == 0 ? 0 : o.key; r.a = o.a; r.b = o.b; r.tok = o.tok; r.inv = ++evclock; return r;
}
static void read_row(const row_type* row, int* out, int& ncol, uint64_t& ts) {
    ts = row->timestamp(); ncol = row->ncol(); if (ncol > MAXCOL) ncol = MAXCOL;
    for (int c = 0; c < ncol; ++c) out[c] = parse_tok(row->col(c));
}

template <typename T> struct Exec {
    typedef T table_type;
    static T* table;
    struct visitor {
        Rec& r; const Op& o; std::vector<std::pair<void*, uint64_t>>* vers;
        template <typename SS, typename KK> void visit_leaf(const SS& ss, const KK&, threadinfo&) { if (vers) vers->emplace_back(ss.node(), ss.full_version_value()); }
        bool visit_value(Str key, row_type* row, threadinfo&) {
            if (row_is_marker(row)) return true;
            if (r.ns >= MAXSC) { r.skey[MAXSC - 1] = -2; r.stopped = 1; return false; }
            int i = r.ns++; r.skey[i] = keyindex(key); read_row(row, r.srow[i], r.sncol[i], r.sts[i]); r.scb[i] = ++evclock;
            if (o.b && r.ns >= o.b) { r.stopped = 1; return false; }
            return true;
        }
    };
    static void run_op(const Op& o, int thr, threadinfo& ti, query<row_type>& q) {
        char buf[64];
        switch (o.k) {
        case 'g': { Rec& r = newrec(o, thr);
            typename T::unlocked_cursor_type lp(*table, K(o.key)); bool f = lp.find_unlocked(ti);
            if (f && row_is_marker(lp.value())) f = false;
            if (f) read_row(lp.value(), r.row, r.ncol, r.ts);
            r.res = f; r.ret = ++evclock; break; }
        case 'G': { Rec& r = newrec(o, thr); r.k = 'g';   // through the query interface, whole row
            Json j; j.push_back(0); j.push_back(0); j.push_back(String(K(o.key).s, K(o.key).len));
            q.run_get(*table, j, ti);
            bool f = j.size() > 2;   // an absent key gives an answer without columns
            if (f) { r.ncol = j.size() - 2; if (r.ncol > MAXCOL) r.ncol = MAXCOL; for (int c = 0; c < r.ncol; ++c) r.row[c] = j[2 + c].is_s() ? parse_tok(j[2 + c].as_s()) : 0; }
            r.res = f; r.ret = ++evclock; break; }
        case 'p': { Rec& r = newrec(o, thr); Json req; int first = 0;
            for (int c = 0; c < MAXCOL; ++c) if (o.a & (1 << c)) { req.push_back(c); int n = fmt_tok(buf, o.tok); req.push_back(String(buf, n)); }
            (void) first;
            result_t x = q.run_put(*table, K(o.key), req.array_data(), req.end_array_data(), ti);
            r.res = x == Inserted; r.ts = q.query_times().ts; r.ret = ++evclock; break; }
        case 'l': { Rec& r = newrec(o, thr); int n = fmt_tok(buf, o.tok);
            result_t x = q.run_replace(*table, K(o.key), Str(buf, n), ti);
            r.res = x == Inserted; r.ts = q.query_times().ts; r.ret = ++evclock; break; }
        case 'd': { Rec& r = newrec(o, thr);
            r.res = q.run_remove(*table, K(o.key), ti); r.ts = r.res ? (uint64_t) q.query_times().ts : 0; r.ret = ++evclock; break; }
        case 'i': { Rec& r = newrec(o, thr); int n = fmt_tok(buf, o.tok);
            typename T::cursor_type lp(*table, K(o.key)); bool f = lp.find_insert(ti);
            if (f) { r.res = 0; lp.finish(0, ti); }
            else { ti.observe_phantoms(lp.node()); r.ts = ti.update_timestamp(); lp.value() = row_type::create1(Str(buf, n), r.ts, ti); lp.finish(1, ti); r.res = 1; }
            r.ret = ++evclock; break; }
        case 's': case 'z': { Rec& r = newrec(o, thr); visitor v{r, o, nullptr};
            r.scount = o.k == 's' ? table->scan(K(o.key), o.a, v, ti) : table->rscan(o.key == -2 ? Str("\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", 26) : K(o.key), o.a, v, ti);
            r.ret = ++evclock; break; }
        case 'v': { // recorded forward scan, then validation of the leaves visited
            std::vector<std::pair<void*, uint64_t>> vers; Rec& r = newrec(o, thr); visitor v{r, o, &vers};
            r.scount = table->scan(K(o.key), o.a, v, ti); r.ret = ++evclock;
            vs::op_boundary();
            r.vinv = ++evclock; bool ok = true;
            for (auto& x : vers) if (((typename T::leaf_type*) x.first)->full_unlocked_version_value() != x.second) ok = false;
            r.vres = ok; r.vret = ++evclock; break; }
        case 'w': { // recorded lookup, then validation of the leaf it ended in
            Rec& r = newrec(o, thr); typename T::unlocked_cursor_type lp(*table, K(o.key)); bool f = lp.find_unlocked(ti);
            if (f) read_row(lp.value(), r.row, r.ncol, r.ts);
            r.res = f; r.ret = ++evclock; auto ver = lp.full_version_value(); auto nd = lp.node();
            vs::op_boundary();
            r.vinv = ++evclock; r.vres = nd->full_unlocked_version_value() == ver; r.vret = ++evclock; break; }
        case 't': globalepoch.store(globalepoch.load() + 2); active_epoch.store(threadinfo::min_active_epoch()); break;
        case 'q': break;
        }
    }
    static void thread_main(int thr, const std::vector<Op>* ops) {
        threadinfo& ti = *TI[thr]; query<row_type> q;
        for (const Op& o : *ops) {
            if (SC->rcu) {
                if (o.k == 't') { run_op(o, thr, ti, q); vs::op_boundary(); continue; }
                if (SC->startstop) { vs::section_enter(); ti.rcu_start(); run_op(o, thr, ti, q); vs::section_quiesce(); ti.rcu_stop(); vs::section_leave(); }
                else { vs::section_quiesce(); ti.rcu_quiesce(); run_op(o, thr, ti, q); }
            } else run_op(o, thr, ti, q);
            vs::op_boundary();
        }
        if (SC->rcu) { vs::section_quiesce(); ti.rcu_stop(); vs::section_leave(); }
    }
    static void drain(int rounds) {
        for (int k = 0; k < rounds; ++k) {
            globalepoch.store(globalepoch.load() + 2); active_epoch.store(threadinfo::min_active_epoch());
            for (int i = 0; i <= (int) SC->th.size(); ++i) { vs::section_enter(); TI[i]->rcu_start(); vs::section_quiesce(); TI[i]->rcu_stop(); vs::section_leave(); }
        }
    }
    static void setup_main() {
        for (int i = 0; i <= (int) SC->th.size(); ++i) TI[i] = threadinfo::make(threadinfo::TI_PROCESS, i);
        threadinfo& ti = *TI[SC->th.size()];
        table = new T; table->initialize(ti);
        query<row_type> q;
        for (const Op& o : SC->setup) { if (o.k == 'q') drain(3); else run_op(o, 99, ti, q); }
    }
    static void final_main() {
        threadinfo& ti = *TI[SC->th.size()]; query<row_type> q; int thr = 98;
        if (SC->drain & 2) drain(4);
        Op o; o.k = 'g'; for (int i = 0; i < nkeys; ++i) { o.key = i; run_op(o, thr, ti, q); }
        o.k = 's'; o.key = -1; o.a = 1; o.b = 0; run_op(o, thr, ti, q);
        o.k = 'z'; o.key = -2; o.a = 1; run_op(o, thr, ti, q);
        if (SC->post) {
            // the tree must still be a fully working map
            int tok = 5000;
            for (int i = 0; i < nkeys; ++i) { Op p; p.k = 'p'; p.key = (i * 5) % nkeys; p.a = 1; p.tok = ++tok; run_op(p, thr, ti, q); }
            o.k = 'z'; o.key = -2; o.a = 1; run_op(o, thr, ti, q);
            o.k = 's'; o.key = -1; run_op(o, thr, ti, q);
            for (int i = 0; i < nkeys; ++i) { Op p; p.k = 'd'; p.key = (i * 3) % nkeys; run_op(p, thr, ti, q); }
            if (SC->rcu) drain(3);
            o.k = 's'; o.key = -1; run_op(o, thr, ti, q);
            for (int i = nkeys - 1; i >= 0; --i) { Op p; p.k = 'l'; p.key = i; p.tok = ++tok; run_op(p, thr, ti, q); }
            o.k = 's'; o.key = -1; run_op(o, thr, ti, q);
            o.k = 'z'; o.key = -2; run_op(o, thr, ti, q);
        }
    }
};
template <typename T> T* Exec<T>::table;

// leak measurement (C06): live objects after emptying the table, repeatedly
static int leakv[16], nleak;
template <typename T> static void leak_main() {
    threadinfo& ti = *TI[SC->th.size()]; query<row_type> q; nleak = 0;
    for (int round = 0; round < 6; ++round) {
        nrecs = 0;
        if (round) for (int i = 0; i < nkeys; ++i) { Op p; p.k = 'p'; p.key = (i * 7 + round) % nkeys; p.a = 1; p.tok = i + 1; Exec<T>::run_op(p, 98, ti, q); nrecs = 0; }
        int st = 7; while (nkeys % st == 0) st += 4;
        for (int i = 0; i < nkeys; ++i) { Op p; p.k = 'd'; p.key = round == 1 ? nkeys - 1 - i : round == 2 ? (i * st) % nkeys : i; Exec<T>::run_op(p, 98, ti, q); nrecs = 0; }
        if (round == 2) for (int i = 0; i < nkeys; ++i) { Op p; p.k = 'd'; p.key = i; Exec<T>::run_op(p, 98, ti, q); nrecs = 0; }
        Exec<T>::drain(12);
        leakv[nleak++] = (int) vs::mem_stats().live_blocks;
    }
    Exec<T>::table->destroy(ti);
    Exec<T>::drain(12);
    leakv[nleak++] = (int) vs::mem_stats().live_blocks;
}

struct Vt { bool (*busy)(const void*); void (*setup)(); void (*thread)(int, const std::vector<Op>*); void (*fin)(); void (*leak)(); };
template <int L, int I> static Vt mkvt() { typedef Masstree::basic_table<tparams<L, I>> T; return Vt{[](const void* p) { return static_cast<const typename T::node_type*>(p)->locked(); }, Exec<T>::setup_main, Exec<T>::thread_main, Exec<T>::final_main, leak_main<T>}; }
static Vt vt_for(int W) {
    switch (W) { case 3: return mkvt<3, 3>(); case 4: return mkvt<4, 3>(); case 15: return mkvt<15, 15>(); }
    fprintf(stderr, "no width %d\n", W); exit(3);
}

#include "treex_main.inc"

// ---- scenario generation -----------------------------------------------------
static Scenario gen_scenario(vs::rng& r, const std::string& fam, int forceW) {
    Scenario c;
    int wsel = r.below(10);
    c.W = forceW ? forceW : wsel < 7 ? 3 : wsel < 8 ? 4 : 15;
    bool big = c.W == 15;
    int nk = big ? 8 + r.below(30) : fam == "cols" ? 2 + r.below(3) : fam == "ts" ? 3 + r.below(6) : 3 + r.below(r.below(3) ? 8 : 26);
    if (big && fam == "cols") nk = 17;
    int uk = r.below(10); if (nk > 12) { static const int d[] = {7, 8, 7, 8, 0, 6, 2, 5}; uk = d[r.below(8)]; }
    c.keys = make_universe(r, nk, uk, c.W); int n = c.keys.size();
    c.ncol = fam == "cols" ? 3 : 1;
    c.rcu = fam == "rcu" || fam == "struct" || fam == "leak" || ((fam == "ts" || fam == "progress" || fam == "scan" || fam == "point" || fam == "phantom") && r.below(3) == 0);
    c.startstop = r.below(2);
    c.post = fam == "struct" ; 
    c.drain = c.rcu ? 2 : 0;
    // set-up: insert most keys in random order, remove some, maybe reinsert
    std::vector<int> ord; for (int i = 0; i < n; ++i) ord.push_back(i);
    if (r.below(2)) for (int i = n - 1; i > 0; --i) std::swap(ord[i], ord[r.below(i + 1)]);
    int keepmode = r.below(5);
    std::vector<int> present(n, 0);
    for (int i : ord) if (keepmode == 0 ? r.below(2) : keepmode == 1 ? true : keepmode == 2 ? r.below(4) != 0 : keepmode == 3 ? r.below(5) == 0 : r.below(8) != 0) {
        Op o; o.k = fam == "cols" && r.below(3) == 0 ? 'l' : 'p'; o.key = i; o.a = fam == "cols" ? (r.below(2) ? 7 : 1 + r.below(7)) : 1; c.setup.push_back(o); present[i] = 1; }
    if (r.below(3) == 0) { // removals, clustered, to get small or empty leaves
        int lo = r.below(n), len = 1 + r.below(std::max(1, n / 2));
        for (int i = lo; i < n && i < lo + len; ++i) if (present[i] && r.below(5)) { Op o; o.k = 'd'; o.key = i; c.setup.push_back(o); present[i] = 0; }
        if (c.rcu && r.below(2)) { Op o; o.k = 'q'; c.setup.push_back(o); }
        if (r.below(4) == 0) for (int i = 0; i < n; ++i) if (!present[i] && r.below(4) == 0) { Op o; o.k = 'p'; o.key = i; o.a = 1; c.setup.push_back(o); present[i] = 1; }
    }
    if (r.below(3) == 0) { // a longer past: keys come and go, in runs
        int dir = r.below(3), at = r.below(n), in = 0, left = 0;
        for (int k = (1 + r.below(3)) * n; k > 0; --k) { if (left-- <= 0) { dir = r.below(3); at = r.below(n); in = r.below(2); left = 1 + r.below(n); }
            int i = dir == 0 ? r.below(n) : dir == 1 ? at++ % n : (at += n - 1) % n; bool put = r.below(5) ? in : !in; if (put == (bool) present[i]) continue;
            Op o; o.k = put ? 'p' : 'd'; o.key = i; o.a = fam == "cols" ? 7 : 1; c.setup.push_back(o); present[i] = put; }
        if (c.rcu && r.below(2)) { Op o; o.k = 'q'; c.setup.push_back(o); }
    }
    int nt = 2 + (r.below(3) == 0); 
    int win = 1 + r.below(std::min(n, 5)), wlo = r.below(n - win + 1);
    auto key = [&]() { return r.below(10) < 8 ? wlo + (int) r.below(win) : (int) r.below(n); };
    // mutators get structure-changing programs
    for (int t = 0; t < nt; ++t) {
        std::vector<Op> p; int no = fam == "cols" ? 1 + r.below(3) : 1 + r.below(r.below(3) ? 3 : 6);
        int style = r.below(6);
        bool reader = (fam == "scan" || fam == "phantom") ? t == 0 : false;
        if (reader) no = 1 + (r.below(4) == 0);
        for (int i = 0; i < no; ++i) {
            Op o; o.key = key(); o.a = 1; int x = r.below(100);
            if (reader && fam == "scan") {
                o.k = r.below(2) ? 's' : 'z'; if (o.k == 's' && r.below(2)) o.key = -1; if (o.k == 'z' && r.below(2)) o.key = -2; o.a = r.below(4) != 0; o.b = r.below(3) ? 0 : 1 + r.below(5);
            } else if (reader) {
                o.k = r.below(2) ? 'v' : 'w'; if (o.k == 'v') { if (r.below(2)) o.key = -1; o.b = r.below(2) ? 0 : 1 + r.below(4); }
            } else if (fam == "cols") {
                if (x < 40) { o.k = 'p'; o.a = 1 + r.below(7); } else if (x < 52) o.k = 'l'; else if (x < 62) o.k = 'd'; else if (x < 85) o.k = r.below(2) ? 'g' : 'G'; else { o.k = r.below(2) ? 's' : 'z'; if (o.k == 's') o.key = -1; else o.key = -2; }
            } else if (fam == "ts") {
                o.k = x < 30 ? 'p' : x < 40 ? 'l' : x < 85 ? 'd' : x < 92 ? 'g' : 'i';
            } else if (style == 0) { o.k = x < 80 ? 'd' : x < 90 ? 'p' : 'g'; }       // remover
            else if (style == 1) { o.k = x < 75 ? (r.below(3) ? 'p' : 'i') : x < 90 ? 'd' : 'g'; }   // inserter
            else if (style == 2 && fam != "phantom") { o.k = x < 70 ? 'g' : x < 80 ? 'd' : 'p'; }   // reader
            else if (style == 3) { o.k = i & 1 ? 'd' : 'p'; if (i & 1) o.key = std::max(0, p.back().key); }
            else if (style == 4) { o.k = i & 1 ? 'p' : 'd'; if (i & 1) o.key = std::max(0, p.back().key); }
            else { o.k = x < 35 ? 'p' : x < 45 ? 'l' : x < 75 ? 'd' : x < 85 ? 'i' : 'g'; }
            if ((fam == "struct" || fam == "rcu" || fam == "progress" || fam == "leak") && r.below(12) == 0) { o.k = r.below(2) ? 's' : 'z'; o.key = o.k == 's' ? -1 : -2; if (r.below(3) == 0) o.key = key(); o.a = 1; o.b = r.below(2) ? 0 : 1 + r.below(3); }
            p.push_back(o);
        }
        c.th.push_back(p);
    }
    if (c.rcu) { std::vector<Op> p; int no = 2 + r.below(6); for (int i = 0; i < no; ++i) { Op o; o.k = 't'; p.push_back(o); } c.th.push_back(p); 
        // give at least one worker enough trailing operations to reclaim
        if (r.below(2)) for (int k = 0; k < 2; ++k) { Op o; o.k = 'g'; o.key = key(); c.th[r.below(nt)].push_back(o); } }
    // a layer is emptied and collapses while other threads are on their way into it
    if (c.rcu && fam != "cols" && r.below(4) == 0) {
        std::vector<std::pair<int, int>> cand;   // two keys of one second-layer leaf
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && c.keys[i].size() > 8 && c.keys[j].size() > 8 && !c.keys[i].compare(0, 8, c.keys[j], 0, 8)) cand.push_back({i, j});
        if (!cand.empty()) {
            auto kk = cand[r.below(cand.size())]; int K = kk.first; std::string pre = c.keys[K].substr(0, 8);
            auto op = [&](char k, int key) { Op o; o.k = k; o.key = key; o.a = 1; return o; };
            c.setup.push_back(op('p', K)); c.setup.push_back(op('p', kk.second));
            for (int i = 0; i < n; ++i) if (i != K && !c.keys[i].compare(0, 8, pre) && c.keys[i].size() > 8) c.setup.push_back(op('d', i));
            if (r.below(3)) c.setup.push_back(op('q', 0));
            c.th[0].clear(); c.th[0].push_back(op('d', K)); for (int i = 2 + r.below(4); i; --i) c.th[0].push_back(op('g', key())); if (r.below(2)) c.th[0].push_back(op('p', r.below(2) ? K : kk.second)); c.th[0].push_back(op('g', K));
            for (int t = 1; t < nt; ++t) for (auto& o : c.th[t]) if (o.key >= 0 && r.below(4)) o.key = r.below(3) ? K : kk.second;
            auto& T = c.th.back(); while (T.size() < 6) T.push_back(op('t', 0));
            if (r.below(2)) { int tk = c.th.size() - 1, A = 1 + r.below(nt - 1); auto seg = [&](int f, char m, int q) { c.order.push_back(vs::Seg{(int8_t) f, m, (uint32_t) q}); };
                seg(0, 'b', 1); seg(tk, 'b', 1 + r.below(2)); seg(A, 'n', 0); seg(tk, 'b', 1 + r.below(2)); seg(0, 'b', 1 + r.below(2)); if (r.below(2)) seg(0, 'n', 0); if (r.below(2)) seg(A, 'n', 0); seg(tk, 'b', 1); seg(0, 'e', 1); seg(A, 'e', 1); }
        }
    }
    // a leaf is emptied while others fill the gap it leaves, in a tree of some height
    if (fam != "cols" && fam != "ts" && fam != "leak" && !big && r.below(5) == 0) {
        Scenario g; g.W = c.W; g.rcu = c.rcu; g.startstop = c.startstop; g.post = c.post; g.drain = c.drain;
        int m = 28 + r.below(24), gap = 2 + r.below(3); bool layer = r.below(4) == 0; char b[24];
        for (int i = 0; i < m; ++i) { sprintf(b, "%s%02d", layer ? "llllllll" : "", i); g.keys.push_back(b); }
        auto op = [&](char k, int key) { Op o; o.k = k; o.key = key; o.a = 1; return o; };
        std::vector<int> in, have(m, 0); int hlen = r.below(3) ? 8 + r.below(16) : 0, hat = hlen ? 3 + r.below(m - hlen - 3) : m; if (hlen) gap = 1 + r.below(2);
        for (int i = r.below(gap); i < m; i += 1 + r.below(2 * gap - 1)) if (i < hat || i >= hat + hlen) in.push_back(i);
        int hold = 0; if (hlen) { hold = 1 + r.below(3); for (int i = 0; i < hold; ++i) in.push_back(hat + i); }
        if (r.below(2)) for (int i = in.size() - 1; i > 0; --i) std::swap(in[i], in[r.below(i + 1)]);
        for (int i : in) { g.setup.push_back(op('p', i)); have[i] = 1; }
        std::vector<int> pr; for (int i = 0; i < m; ++i) if (have[i]) pr.push_back(i);
        if (pr.size() > 4) {
            int cnt = 1 + r.below(4), at = 1 + r.below(pr.size() - 1); if (hlen) { at = std::find(pr.begin(), pr.end(), hat) - pr.begin(); at = std::max(1, at - (int) r.below(3)); cnt = std::min<int>(pr.size() - at, std::find(pr.begin(), pr.end(), hat + hold - 1) - pr.begin() - at + 1); } std::vector<Op> del, add; int lo = pr[at], hi = lo;
            for (int i = at; i < (int) pr.size() && i < at + cnt; ++i) { hi = pr[i]; if (r.below(4) || i == at + cnt - 1) del.push_back(op('d', pr[i])); else g.setup.push_back(op('d', pr[i])); }
            if (r.below(2)) std::reverse(del.begin(), del.end());
            int ahi = hlen ? hat + hlen : hi + 1; for (int i = std::max(0, lo - (int) r.below(4)); i < std::min(m, ahi + (int) r.below(gap + 2)); ++i) if (!have[i]) add.push_back(op('p', i));
            int how = r.below(3); if (how == 1) std::reverse(add.begin(), add.end()); else if (how == 2) for (int i = (int) add.size() - 1; i > 0; --i) std::swap(add[i], add[r.below(i + 1)]);
            if (r.below(3) == 0) add.push_back(op('g', pr[r.below(pr.size())]));
            g.th.push_back(del); g.th.push_back(add); int q = r.below(4);
            if (q == 0) g.th.push_back({op('s', -1), op('g', pr[r.below(pr.size())])}); else if (q == 1) { std::vector<Op> p; for (int i = 0; i < 3; ++i) p.push_back(op('d', pr[std::min((int) pr.size() - 1, at + cnt + i)])); g.th.push_back(p); }
            if (g.rcu) { std::vector<Op> p; for (int i = 0; i < 4; ++i) p.push_back(op('t', 0)); g.th.push_back(p); }
            if (r.below(3)) { auto seg = [&](int f, char mo, int n) { g.order.push_back(vs::Seg{(int8_t) f, mo, (uint32_t) n}); };
                seg(0, 'n', 0); if (q == 1 && r.below(2)) seg(2, 'n', 0); if (r.below(4)) seg(1, 'e', 1); else seg(1, 'n', 0); seg(0, 'e', 1); seg(1, 'e', 1); }
            c = g;
        }
    }
    c.tokens();
    return c;
}

// ---- histories -----------------------------------------------------------------
struct HOp { char k; int inv, ret; int ins; std::vector<int> row; std::vector<int> mask; int tok; uint64_t ts; int ref; int thr; };
static std::string hist_for_key(int k, int nsetup, bool use_ts) {
    std::vector<int> irow; uint64_t its = 0;
    for (int i = 0; i < nsetup; ++i) { Rec& r = recs[i]; if (r.key != k) continue;
        if (r.k == 'p') { for (int c = 0; c < MAXCOL; ++c) if (r.a & (1 << c)) { if ((int) irow.size() <= c) irow.resize(c + 1, 0); irow[c] = r.tok; } its = r.ts; }
        else if (r.k == 'l') { irow.assign(1, r.tok); its = r.ts; }
        else if (r.k == 'd') { irow.clear(); if (r.ts) its = r.ts; } }
    std::vector<HOp> ops;
    auto addg = [&](Rec& r, int ret, int* row, int ncol, bool f, uint64_t ts, char kk) { HOp h{kk, r.inv, ret, f, {}, {}, 0, ts, -1, r.thr}; if (f) for (int c = 0; c < ncol; ++c) h.row.push_back(row[c]); if (f && ncol == 0) h.row.push_back(-7); ops.push_back(h); };
    for (int i = nsetup; i < nrecs; ++i) { Rec& r = recs[i];
        bool scan = r.k == 's' || r.k == 'z' || r.k == 'v';
        if (!scan && r.key != k) continue;
        if (scan) {
            bool fwd = r.k != 'z'; int st = r.key; // -1: from the beginning, -2: from beyond the end
            bool cov = fwd ? (st == -1 || k > st || (k == st && r.a)) : (st == -2 || k < st || (k == st && r.a));
            if (r.stopped && r.ns) { int last = r.skey[r.ns - 1]; cov = cov && (fwd ? k <= last : k >= last); }
            if (r.stopped && !r.ns) cov = false;
            int at = -1; for (int j = 0; j < r.ns; ++j) if (r.skey[j] == k) { at = j; break; }
            if (!cov && at < 0) continue;
            if (at >= 0) addg(r, r.scb[at], r.srow[at], r.sncol[at], true, r.sts[at], 'g'); else { int pass = r.ret; for (int j = 0; j < r.ns; ++j) if (fwd ? r.skey[j] > k : (r.skey[j] >= 0 && r.skey[j] < k)) { pass = r.scb[j]; break; } addg(r, pass, nullptr, 0, false, 0, 'g'); }
            if (r.k == 'v' && r.vret && r.vres) { ops.back().k = 'k'; HOp h{'v', r.vinv, r.vret, 1, {}, {}, 0, 0, (int) ops.size() - 1, r.thr}; ops.push_back(h); }
        } else if (r.k == 'g' || r.k == 'w') { addg(r, r.ret, r.row, r.ncol, r.res, r.ts, 'g');
            if (r.k == 'w' && r.vret && r.vres) { ops.back().k = 'k'; HOp h{'v', r.vinv, r.vret, 1, {}, {}, 0, 0, (int) ops.size() - 1, r.thr}; ops.push_back(h); } }
        else { HOp h{r.k, r.inv, r.ret, r.res, {}, {}, r.tok, r.ts, -1, r.thr}; if (r.k == 'p') for (int c = 0; c < MAXCOL; ++c) if (r.a & (1 << c)) h.mask.push_back(c + 1); ops.push_back(h); }
        // repeated sequential observations add nothing
        if (ops.size() >= 2 && r.thr == 98) { HOp& a = ops[ops.size() - 2]; HOp& b = ops.back(); if (a.k == 'g' && b.k == 'g' && a.thr == 98 && a.row == b.row && a.ts == b.ts) ops.pop_back(); }
    }
    if (ops.empty()) return "";
    // canonical form: blocks of invocations / responses, sorted
    int n = ops.size(); std::vector<std::pair<int,int>> ev; // time, +-(i+1)
    for (int i = 0; i < n; ++i) { ev.emplace_back(ops[i].inv, i + 1); ev.emplace_back(ops[i].ret ? ops[i].ret : 1 << 29, -(i + 1)); }
    std::sort(ev.begin(), ev.end());
    std::vector<int> ib(n), rb(n); int blk = 0, last = 1;
    for (auto& e : ev) { int s = e.second > 0 ? 1 : -1; if (s != last) { ++blk; last = s; } if (s > 0) ib[e.second - 1] = blk; else rb[-e.second - 1] = blk; }
    std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i;
    std::stable_sort(perm.begin(), perm.end(), [&](int x, int y) { return std::make_tuple(ib[x], rb[x], ops[x].k, ops[x].ins, ops[x].mask, ops[x].row.size()) < std::make_tuple(ib[y], rb[y], ops[y].k, ops[y].ins, ops[y].mask, ops[y].row.size()); });
    std::vector<int> pos(n); for (int i = 0; i < n; ++i) pos[perm[i]] = i;
    std::map<int,int> tk; auto T = [&](int t) { if (t == 0) return 0; auto it = tk.find(t); if (it != tk.end()) return it->second; int v = tk.size() + 1; tk[t] = v; return v; };
    std::set<uint64_t> tss; if (use_ts) { if (its) tss.insert(its); for (auto& o : ops) if (o.ts) tss.insert(o.ts); }
    auto TS = [&](uint64_t t) { if (!use_ts || !t) return 0; return 1 + (int) std::distance(tss.begin(), tss.find(t)); };
    std::string s = "{\"i\":["; char b[64]; auto list = [&](const std::vector<int>& v, bool tok) { std::string q; for (size_t i = 0; i < v.size(); ++i) { if (i) q += ','; q += std::to_string(tok ? T(v[i]) : v[i]); } return q; };
    s += list(irow, true) + "],\"t\":" + std::to_string(TS(its)) + ",\"o\":[";
    for (int i = 0; i < n; ++i) { HOp& o = ops[perm[i]]; if (i) s += ',';
        sprintf(b, "{\"k\":\"%c\",\"x\":%d,\"t\":%d,", o.k, o.k == 'v' ? pos[o.ref] + 1 : o.ins, TS(o.ts)); s += b;
        s += "\"r\":[" + list(o.row, true) + "],\"m\":[" + list(o.mask, false) + "],\"v\":" + std::to_string((o.k == 'p' || o.k == 'l' || o.k == 'i') ? T(o.tok) : 0) + "}"; }
    s += "],\"e\":["; 
    bool first = true; for (int q = 0; q <= blk; ++q) { for (int i = 0; i < n; ++i) if (ib[perm[i]] == q) { if (!first) s += ','; first = false; s += std::to_string(i + 1); } for (int i = 0; i < n; ++i) if (rb[perm[i]] == q) { if (!first) s += ','; first = false; s += std::to_string(-(i + 1)); } }
    s += "]}";
    return s;
}
static std::string shape_of(Rec& r) {
    std::string s = "{\"d\":\""; s += r.k == 'z' ? 'r' : 'f'; s += "\",\"s\":" + std::to_string(r.key) + ",\"n\":" + std::to_string(nkeys) + ",\"i\":" + std::to_string(r.a) + ",\"l\":" + std::to_string(r.b) + ",\"c\":" + std::to_string(r.scount) + ",\"p\":" + std::to_string(r.stopped) + ",\"k\":[";
    for (int j = 0; j < r.ns; ++j) { if (j) s += ','; s += std::to_string(r.skey[j]); }
    return s + "]}";
}
// per-object projection of the reclamation trace
static std::vector<vs::rcu_event> rcu_before;   // retirements and releases during the setup
static void rcu_projections(std::vector<std::string>& out) {
    struct st { std::string s; uint32_t holders = 0; bool any = false; };
    std::unordered_map<uint32_t, st> m; std::vector<std::vector<uint32_t>> held(vs::MAXF);
    auto put = [&](st& x, char c, int f) { if (!x.s.empty()) x.s += ','; x.s += "[\""; x.s += c; x.s += "\","; x.s += std::to_string(f); x.s += "]"; };
    std::vector<uint32_t> touched; for (auto& e : vs::rcu_trace) if (e.kind == 'R' || e.kind == 'F' || e.kind == 'D' || e.kind == 'T') touched.push_back(e.obj);
    std::sort(touched.begin(), touched.end()); touched.erase(std::unique(touched.begin(), touched.end()), touched.end());
    for (auto& e : rcu_before) if (std::binary_search(touched.begin(), touched.end(), e.obj)) put(m[e.obj], e.kind, vs::MAXF - 1 + 1 > 9 ? 9 : vs::MAXF);
    for (auto& e : vs::rcu_trace) {
        switch (e.kind) {
        case 'S': case 'Q': case 'E': for (uint32_t o : held[e.fiber]) { st& x = m[o]; if (x.holders & (1u << e.fiber)) { x.holders &= ~(1u << e.fiber); put(x, 'E', e.fiber + 1); } } held[e.fiber].clear(); break;
        case 'T': { st& x = m[e.obj]; if (!(x.holders & (1u << e.fiber))) { x.holders |= 1u << e.fiber; held[e.fiber].push_back(e.obj); put(x, 'T', e.fiber + 1); } break; }
        case 'R': case 'F': case 'D': { st& x = m[e.obj]; x.any = true; put(x, e.kind, e.fiber + 1); break; }
        }
    }
    for (auto& p : m) if (p.second.any) {
        // rename threads by first appearance
        std::string t = "["; int ren[16] = {0}, nx = 0; const std::string& s = p.second.s;
        for (size_t i = 0; i < s.size(); ++i) { if (isdigit(s[i])) { int f = s[i] - '0'; if (!ren[f]) ren[f] = ++nx; t += '0' + ren[f]; } else t += s[i]; }
        out.push_back(t + "]");
    }
}

// ---- driver ---------------------------------------------------------------------
struct Origin { int scn; int first; std::vector<vs::Switch> tr; int key; };
static std::unordered_map<std::string, Origin> hists, shapes, projs, leaks;
static std::vector<std::string> scns;
static uint64_t nexec, nsteps, nswitch, nfail, noverlap; 
static FILE* ffail; static bool opt_ts, opt_rcutrace, opt_leak, opt_uaf; static size_t cap_h = 30000;
static std::map<std::string, int> failcount;

static std::string tracestr(int first, const std::vector<vs::Switch>& tr) { std::string s = std::to_string(first); for (auto& t : tr) s += " " + std::to_string(t.step) + ":" + std::to_string((int) t.to); return s; }
static void record_fail(const vs::Outcome& o, const std::string& scn, const char* phase) {
    ++nfail; int& n = failcount[o.kind + o.what]; if (++n > 3) return;
    fprintf(ffail, "{\"kind\":\"%s\",\"what\":\"", o.kind.c_str()); for (char c : o.what) { if (c == '"' || c == '\\') fputc('\\', ffail); fputc(c < 32 ? ' ' : c, ffail); }
    fprintf(ffail, "\",\"phase\":\"%s\",\"scenario\":\"%s\",\"trace\":\"%s\"}\n", phase, scn.c_str(), tracestr(o.first, o.trace).c_str()); fflush(ffail);
}
static void add(std::unordered_map<std::string, Origin>& m, const std::string& s, int scn, const vs::Outcome& o, int key) {
    if (s.empty() || m.size() >= cap_h) return;
    auto it = m.find(s); if (it == m.end()) m.emplace(s, Origin{scn, o.first, o.trace, key});
}
static Vt VT; static int nsetup;
static char keybuf[256][260];
static bool scn_setup(const Scenario& c, vs::Outcome* fo = nullptr) {
    SC = &c; nkeys = c.keys.size(); if (nkeys > 250) exit(3);
    for (int i = 0; i < nkeys; ++i) { memcpy(keybuf[i], c.keys[i].data(), c.keys[i].size()); keyp[i] = keybuf[i]; keyl[i] = c.keys[i].size(); }
    VT = vt_for(c.W); vs::node_busy = VT.busy; vs::clear_learning(); vs::arena_reset(); nrecs = 0; evclock = 0;
    threadinfo::allthreads = nullptr; globalepoch.store(1); active_epoch.store(1);
    vs::Policy p; p.kind = vs::P_FREE; p.max_steps = 20000000; vs::rcu_trace_on = opt_rcutrace;
    vs::fiber_spawn([] { VT.setup(); });
    vs::Outcome o = vs::run(p); nsetup = nrecs;
    if (!o.ok) { if (fo) *fo = o; else record_fail(o, c.str(), "setup"); return false; }
    rcu_before.clear(); if (opt_rcutrace) for (auto& e : vs::rcu_trace) if (e.kind == 'R' || e.kind == 'F' || e.kind == 'D') rcu_before.push_back(e);
    vs::arena_snapshot(); return true;
}
static vs::Outcome scn_exec(const Scenario& c, const vs::Policy& p, const char** phase) {
    vs::arena_restore(); nrecs = nsetup; evclock = 0; for (int i = 0; i < nsetup; ++i) ; 
    vs::rcu_trace_on = opt_rcutrace; vs::uaf_fatal = opt_uaf;
    for (size_t t = 0; t < c.th.size(); ++t) { const std::vector<Op>* ops = &c.th[t]; int tt = t; vs::fiber_spawn([tt, ops] { VT.thread(tt, ops); }); }
    vs::Outcome o = vs::run(p); *phase = "run"; ++nexec; nsteps += o.steps; nswitch += o.switches;
    if (!o.ok) return o;
    if (const char* w = vs::busy_node()) { o.ok = false; o.kind = "lock"; o.what = w; return o; }
    vs::Policy f; f.kind = vs::P_FREE; f.max_steps = 20000000;
    std::vector<vs::rcu_event> keep; if (opt_rcutrace) keep = vs::rcu_trace;
    vs::fiber_spawn([] { VT.fin(); }); vs::Outcome o2 = vs::run(f);
    if (!o2.ok) { *phase = "after"; o2.trace = o.trace; o2.first = o.first; return o2; }
    if (opt_rcutrace) { keep.push_back(vs::rcu_event{'E', 0, 0, 0}); for (int i = 0; i < vs::MAXF; ++i) keep.push_back(vs::rcu_event{'E', (uint8_t) i, 0, 0}); for (auto e : vs::rcu_trace) { e.fiber = vs::MAXF - 1; keep.push_back(e); } vs::rcu_trace = keep; }
    return o;
}
static void harvest(const Scenario& c, int scn, const vs::Outcome& o) {
    if (!opt_rcutrace && !opt_leak) for (int k = 0; k < nkeys; ++k) add(hists, hist_for_key(k, nsetup, opt_ts), scn, o, k);
    if (!opt_rcutrace && !opt_leak) for (int i = nsetup; i < nrecs; ++i) if (recs[i].k == 's' || recs[i].k == 'z' || recs[i].k == 'v') add(shapes, shape_of(recs[i]), scn, o, -1);
    if (opt_rcutrace) { std::vector<std::string> v; rcu_projections(v); for (auto& s : v) add(projs, s, scn, o, -1); }
    (void) c;
}
static bool leak_phase(const Scenario& c, int scn, const vs::Outcome& o) {
    vs::Policy f; f.kind = vs::P_FREE; f.max_steps = 50000000; vs::rcu_trace_on = false;
    vs::fiber_spawn([] { VT.leak(); }); vs::Outcome o2 = vs::run(f);
    if (!o2.ok) { o2.trace = o.trace; o2.first = o.first; record_fail(o2, c.str(), "leak"); return false; }
    std::string s = "{\"nt\":" + std::to_string(c.th.size() + 1) + ",\"w\":" + std::to_string(c.W) + ",\"nk\":" + std::to_string(nkeys) + ",\"live\":["; for (int i = 0; i < nleak; ++i) { if (i) s += ','; s += std::to_string(leakv[i]); } s += "]}";
    add(leaks, s, scn, o, -1); return true;
}
static void dump(const std::string& prefix, const char* kind, const std::unordered_map<std::string, Origin>& m) {
    if (m.empty()) return;
    FILE* f = fopen((prefix + "." + kind).c_str(), "w");
    for (auto& p : m) fprintf(f, "%s\t%d\t%d\t%s\n", p.first.c_str(), p.second.scn, p.second.key, tracestr(p.second.first, p.second.tr).c_str());
    fclose(f);
}
static double nowsec() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int main(int argc, char** argv) {
    std::map<std::string, std::string> A; for (int i = 1; i + 1 < argc; i += 2) A[argv[i]] = argv[i + 1];
    setenv("_", "valgrind", 1);   // allocate pool objects one by one
    vs::arena_init(256ul << 20);
    vs::register_global(&globalepoch, sizeof globalepoch); vs::register_global(&active_epoch, sizeof active_epoch); vs::register_global(&threadinfo::allthreads, sizeof threadinfo::allthreads);
    std::string fam = A["--family"], out = A["--out"]; uint64_t seed = atoll(A["--seed"].c_str()); double secs = atof(A["--secs"].c_str());
    int per = A.count("--per") ? atoi(A["--per"].c_str()) : 400; int W = A.count("--width") ? atoi(A["--width"].c_str()) : 0;
    int maxscn = A.count("--scenarios") ? atoi(A["--scenarios"].c_str()) : 1 << 30;
    opt_ts = fam == "ts" || A.count("--ts"); opt_rcutrace = fam == "rcu"; opt_leak = fam == "leak"; opt_uaf = fam == "rcu" || fam == "leak" || A.count("--uaf");
    if (A.count("--cap")) cap_h = atoi(A["--cap"].c_str());
    ffail = fopen((out + ".fail").c_str(), "w"); double t0 = nowsec();
    const char* phase = "";
    if (A.count("--replay")) { // file: scenario line, trace line
        FILE* f = fopen(A["--replay"].c_str(), "r"); char* l = nullptr; size_t cap = 0; std::string s[2]; for (int i = 0; i < 2 && getline(&l, &cap, f) > 0; ++i) { s[i] = l; while (s[i].size() && s[i].back() == '\n') s[i].pop_back(); }
        Scenario c = Scenario::parse(s[0]); vs::Outcome so; scns.push_back(c.str());
        if (!scn_setup(c, &so)) { so.ok = false; record_fail(so, c.str(), "setup"); return 0; }
        vs::Policy p; p.kind = vs::P_LIST; std::istringstream x(s[1]); x >> p.first; std::string w; while (x >> w) { vs::Switch q; int to; sscanf(w.c_str(), "%u:%d", &q.step, &to); q.to = to; p.list.push_back(q); }
        vs::Outcome o = scn_exec(c, p, &phase); if (!o.ok) record_fail(o, c.str(), phase); else { harvest(c, 0, o); if (opt_leak) leak_phase(c, 0, o); }
        dump(out, "hist", hists); dump(out, "shape", shapes); dump(out, "proj", projs); dump(out, "leak", leaks);
        return 0;
    }
    vs::rng R(seed * 7919 + 13);
    std::vector<std::string> fixed; if (A.count("--scnfile")) { FILE* f = fopen(A["--scnfile"].c_str(), "r"); char* l = nullptr; size_t cap = 0; while (f && getline(&l, &cap, f) > 0) { std::string s = l; while (s.size() && s.back() == '\n') s.pop_back(); if (s.size()) fixed.push_back(s); } }
    for (int si = 0; si < maxscn && nowsec() - t0 < secs; ++si) {
        Scenario c = fixed.empty() ? gen_scenario(R, fam, W) : Scenario::parse(fixed[si % fixed.size()]); scns.push_back(c.str());
        if (!scn_setup(c)) continue;
        vs::Policy p; uint32_t len = 0, ylen = 0, pts[vs::MAXF] = {0}, wpts[vs::MAXF] = {0}; bool bad = false;
        auto one = [&](const vs::Policy& q) { vs::Outcome o = scn_exec(c, q, &phase); if (!o.ok) { record_fail(o, c.str(), phase); bad = true; } else { harvest(c, si, o); if (opt_leak && nexec % 8 == 0) leak_phase(c, si, o); } len = std::max(len, o.steps); for (int z = 0; z < vs::MAXF; ++z) pts[z] = std::max(pts[z], std::min(o.points[z], 400u)), wpts[z] = std::max(wpts[z], std::min(o.wpoints[z], 200u)); uint32_t yy = 0; for (int z = 0; z < vs::MAXF; ++z) yy += o.points[z]; ylen = std::max(ylen, yy); return o; };
        for (int i = 0; i < 6; ++i) { p.kind = vs::P_RANDOM; p.p = 0.3; p.all_yield = true; p.seed = R.next(); one(p); }
        p.all_yield = false; len = ylen = 0; memset(pts, 0, sizeof pts); memset(wpts, 0, sizeof wpts);   // the lengths of runs that yield everywhere mislead
        for (int i = 0; i < (int) c.th.size(); ++i) { p.kind = vs::P_LIST; p.list.clear(); p.first = i; one(p); }   // one thread after the other
        uint32_t spts[vs::MAXF], slen = len, sylen = ylen; for (int z = 0; z < vs::MAXF; ++z) spts[z] = pts[z] + pts[z] / 4 + 2;
        for (int i = 0; i < per && nowsec() - t0 < secs; ++i) {
            p.seed = R.next(); int m = R.below(10); p.after_retire_pct = 0;
            if (m < 5) { p.kind = vs::P_PCT; p.depth = 1 + R.below(5); p.len = std::max(10u, R.below(4) ? sylen / (1 + R.below(2)) : slen / (1 + R.below(3))); }
            else if (m < 8) { p.kind = vs::P_RANDOM; static const double ps[] = {0.5, 0.2, 0.08, 0.03, 0.01}; p.p = ps[R.below(5)]; p.after_retire_pct = R.below(2) ? 60 : 0; }
            else { // pause one thread at one point, run the others to completion
                p.kind = vs::P_LIST; p.list.clear(); p.first = R.below(c.th.size()); uint32_t s = 1 + R.below(std::max(2u, len)); int to = R.below(c.th.size());
                p.list.push_back(vs::Switch{s, (int8_t) to}); if (R.below(2)) p.list.push_back(vs::Switch{s + 1 + R.below(200), (int8_t) R.below(c.th.size())}); }
            if (!c.order.empty() ? R.below(10) != 0 : R.below(6) == 0) {
                p.kind = vs::P_SEG; p.segs.clear();
                if (!c.order.empty()) for (auto g : c.order) { if (g.mode == 'w' && !g.n) g.n = 1 + R.below(wpts[g.fiber] / 2 + 3); if (g.mode == 'n' && !g.n) g.n = 1 + R.below(std::max(1u, spts[g.fiber] >> R.below(4))); p.segs.push_back(g); }
                else for (int k = 3 + R.below(5); k > 0; --k) { vs::Seg g; g.fiber = R.below(c.th.size()); int z = R.below(10); g.mode = z < 3 ? 'n' : z < 6 ? 'w' : z < 8 ? 'b' : 'e'; g.n = g.mode == 'n' ? 1 + R.below(std::max(1u, pts[g.fiber])) : g.mode == 'w' ? 1 + R.below(wpts[g.fiber] / 2 + 3) : 1 + R.below(2); p.segs.push_back(g); }
            }
            one(p);
            if (bad && nfail > 200) break;
        }
        (void) bad;
    }
    dump(out, "hist", hists); dump(out, "shape", shapes); dump(out, "proj", projs); dump(out, "leak", leaks);
    FILE* f = fopen((out + ".scn").c_str(), "w"); for (auto& s : scns) fprintf(f, "%s\n", s.c_str()); fclose(f);
    f = fopen((out + ".stat").c_str(), "w"); fprintf(f, "{\"executions\":%lu,\"steps\":%lu,\"switches\":%lu,\"scenarios\":%zu,\"failures\":%lu,\"histories\":%zu,\"shapes\":%zu,\"projections\":%zu,\"leaks\":%zu,\"secs\":%.1f}\n", nexec, nsteps, nswitch, scns.size(), nfail, hists.size(), shapes.size(), projs.size(), leaks.size(), nowsec() - t0); fclose(f);
    return 0;
}

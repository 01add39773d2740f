// C16: COLAMD and SYMAMD on valid and invalid input, every array exactly sized,
// against an independent model of the statistics; both integer types.
#include "fill.hpp"
void harness_init() {}
struct Run { int64_t ok; vector<int64_t> q, st; };
static const double* kp(const Knob& k) { return k.null ? NULL : k.k; }
static int64_t need_of(int64_t nz, int64_t m, int64_t n) { return 2 * nz + 6 * (n + 1) + 4 * (m + 1) + n; }
// Alen = the minimum plus extra
template <class I> static Run col(Ctx& c, const Pat& P, const Knob& k, int64_t extra)
{
    Run u; int64_t nz = P.nnz(), len = need_of(nz, P.m, P.n) + extra;
    Arr<I> A(len, (int)c.rng.below(256)), p(P.p), st(COLAMD_STATS); Arr<double> kn(COLAMD_KNOBS); memcpy(kn.a, k.k, sizeof k.k);
    for (int64_t e = 0; e < nz; e++) A[e] = (I)P.i[e];
    u.ok = OrdApi<I>::col((I)P.m, (I)P.n, (I)len, A, p, k.null ? NULL : kn.a, st);
    if (!k.null && memcmp(kn.a, k.k, sizeof k.k)) c.fail("modified:knobs", "colamd changed the knobs");
    u.q = p.vec(); u.q.resize(P.n); u.st = st.vec(); cnt("colamd"); return u;
}
// with so much workspace that nothing is ever collected: how much of it is used (the end of the matrix and of the
// rows made by merging, both within what is not taken by the two structures at the end of A)
template <class I> static Run roomy(Ctx& c, const Pat& P, const Knob& k, int64_t& used)
{
    Run u; int64_t nz = P.nnz(), extra = P.n * P.n + P.n + 8, len = need_of(nz, P.m, P.n) + extra; I sent; memset(&sent, 0x5A, sizeof sent);
    Arr<I> A(len, 0x5A), p(P.p), st(COLAMD_STATS); Arr<double> kn(COLAMD_KNOBS); memcpy(kn.a, k.k, sizeof k.k);
    for (int64_t e = 0; e < nz; e++) A[e] = (I)P.i[e];
    u.ok = OrdApi<I>::col((I)P.m, (I)P.n, (I)len, A, p, k.null ? NULL : kn.a, st);
    u.q = p.vec(); u.q.resize(P.n); u.st = st.vec(); cnt("colamd"); used = 2 * nz + P.n + extra;
    while (used > 0 && A[used - 1] == sent) used--;
    return u;
}
// garbage is collected when the workspace runs out, at most once for each pivot, and not when there is room
static void garbage(Ctx& c, const char* who, const Run& u, int64_t room, int64_t used, int64_t n, int64_t ignored)
{
    if (!u.ok) return;
    cnt(room < used ? "must collect" : room > used + n ? "must not collect" : "may collect");
    if (room < used && u.st[2] < 1) c.fail("garbage:none", "%s reports no garbage collection with %ld entries of workspace of which it needs %ld", who, (long)room, (long)used);
    if (room > used + n && u.st[2] != 0) c.fail("garbage:some", "%s reports %ld garbage collections with %ld entries of workspace of which it needs %ld", who, (long)u.st[2], (long)room, (long)used);
    if (u.st[2] > n - ignored) c.fail("garbage:many", "%s reports %ld garbage collections for %ld columns to order", who, (long)u.st[2], (long)(n - ignored));
}
// the same settings in other words: any nonzero value turns absorption on, the other knobs are not used
static Knob reword(Rng& r, const Knob& k, bool symm)
{
    Knob t = k; if (t.null || r.pct(50)) return t;
    if (t.k[COLAMD_AGGRESSIVE] != 0) { static const double v[] = {-1, 7, 0.25, -0.5, 1e300}; t.k[COLAMD_AGGRESSIVE] = v[r.below(5)]; }
    for (int q = 3; q < COLAMD_KNOBS; q++) t.k[q] = r.unit() * 100 - 50;
    if (symm) t.k[COLAMD_DENSE_COL] = r.unit() * 20 - 5;
    cnt("settings reworded"); return t;
}
static int64_t g_live; static int64_t g_fail = -1, g_failed = 0;
static std::map<void*, size_t> g_blk;
static void* sy_alloc(size_t a, size_t b)
{
    if (g_fail == 0) { g_fail--; g_failed++; return NULL; }
    if (g_fail > 0) g_fail--;
    void* p = calloc(a ? a : 1, b); g_blk[p] = a * b; g_live++; return p;
}
static bool g_badfree;
static void sy_free(void* p) { auto it = g_blk.find(p); if (it == g_blk.end()) { g_badfree = true; return; } g_blk.erase(it); g_live--; free(p); }
template <class I> static Run sym(Ctx& c, const Pat& P, const Knob& k)
{
    Run u; Arr<I> A(P.i), p(P.p), q(P.n + 1, 0x77), st(COLAMD_STATS); Arr<double> kn(COLAMD_KNOBS); memcpy(kn.a, k.k, sizeof k.k);
    g_badfree = false;
    u.ok = OrdApi<I>::sym((I)P.n, A, p, q, k.null ? NULL : kn.a, st, sy_alloc, sy_free);
    if (!A.eq(P.i) || !p.eq(P.p)) c.fail("modified:symamd", "symamd (%s) changed its input", OrdApi<I>::name());
    if (!k.null && memcmp(kn.a, k.k, sizeof k.k)) c.fail("modified:knobs", "symamd changed the knobs");
    if (!g_blk.empty() || g_badfree) c.fail("symamd:leak", "symamd (%s) left %zu blocks or freed a foreign one", OrdApi<I>::name(), g_blk.size());
    for (auto& b : g_blk) free(b.first);
    g_blk.clear();
    u.q = q.vec(); u.q.resize(P.n); u.st = st.vec(); cnt("symamd"); return u;
}
// what the documentation promises for a valid matrix
struct Model { int64_t rows = 0, cols = 0; vector<int64_t> tail; };
static Model model(const Cols& cc, int64_t m, double k0, double k1)
{
    int64_t n = (int64_t)cc.size(); Model M;
    auto thr = [](double k, int64_t d, int64_t neg) -> double { return k < 0 ? (double)neg : std::max(16.0, k * sqrt((double)d)); };
    double dr = thr(k0, n, n - 1), dc = thr(k1, std::min(m, n), m - 1);
    vector<int> st(n, 0); vector<int64_t> deg(m, 0);
    for (int64_t j = 0; j < n; j++) { if (cc[j].empty()) st[j] = 1; else if ((double)cc[j].size() > dc) st[j] = 2; else for (auto i : cc[j]) deg[i]++; }
    vector<char> dead(m, 0);
    for (int64_t i = 0; i < m; i++) if (deg[i] == 0 || (double)deg[i] > dr) { dead[i] = 1; M.rows++; }
    for (int64_t j = 0; j < n; j++) if (!st[j]) { bool any = false; for (auto i : cc[j]) if (!dead[i]) any = true; if (!any) st[j] = 3; }
    for (int w : {3, 2, 1}) for (int64_t j = 0; j < n; j++) if (st[j] == w) M.tail.push_back(j);
    M.cols = (int64_t)M.tail.size(); return M;
}
struct Jum { int64_t status = 0, col = -1, row = -1, n = 0; };
static Jum jum(const Pat& P)
{
    Jum J;
    for (int64_t j = 0; j < P.n; j++) { set<int64_t> seen; int64_t last = -1; for (int64_t k = P.p[j]; k < P.p[j + 1]; k++) { int64_t i = P.i[k]; if (i <= last || seen.count(i)) { J.status = 1; J.col = j; J.row = i; J.n++; } seen.insert(i); last = i; } }
    return J;
}
static void stats(Ctx& c, const char* who, const Run& u, const Jum& J, int64_t rows, const Model& M, int64_t n)
{
    if (!u.ok) { c.fail(string(who) + ":failed", "%s failed with status %ld for valid input", who, (long)u.st[3]); return; }
    if (!is_perm(u.q.data(), n)) { c.fail(string(who) + ":perm", "%s: not a permutation", who); return; }
    if (u.st[3] != J.status) c.fail(string(who) + ":status", "%s: status %ld instead of %ld", who, (long)u.st[3], (long)J.status);
    if (J.status && (u.st[4] != J.col || u.st[5] != J.row || u.st[6] != J.n)) c.fail(string(who) + ":jumbled", "%s reports column %ld row %ld count %ld as jumbled instead of %ld %ld %ld", who, (long)u.st[4], (long)u.st[5], (long)u.st[6], (long)J.col, (long)J.row, (long)J.n);
    if (u.st[0] != rows) c.fail(string(who) + ":rows", "%s ignored %ld rows, it should be %ld", who, (long)u.st[0], (long)rows);
    if (u.st[1] != M.cols) c.fail(string(who) + ":cols", "%s ignored %ld columns, it should be %ld", who, (long)u.st[1], (long)M.cols);
    if (u.st[2] < 0) c.fail(string(who) + ":garbage", "%s: %ld garbage collections", who, (long)u.st[2]);
    else for (int64_t k = 0; k < M.cols; k++) if (u.q[n - M.cols + k] != M.tail[k]) { c.fail(string(who) + ":last", "%s: position %ld holds column %ld, but the dense and empty columns must be last (column %ld)", who, (long)(n - M.cols + k), (long)u.q[n - M.cols + k], (long)M.tail[k]); break; }
}
static const vector<int64_t> C0 = {0};
template <class I> static void invalid(Ctx& c, const Pat& P, bool symm)
{
    Rng& r = c.rng; typedef OrdApi<I> O; int64_t n = P.n, m = symm ? P.n : P.m, nz = P.nnz();
    vector<int64_t> p = P.p, i = P.i; bool nA = false, np = false; int64_t al = need_of(nz, m, n) + r.below(5), status = 0, s4 = -99, s5 = -99, s6 = -99; int64_t am = m, an = n;
    static const int64_t NEG[] = {-1, -2, -100, INT32_MIN};
    // a few more entries can be wrong as well: what is documented as checked first is reported
    int k = (int)r.below(9);
    if (k == 0) { nA = true; status = -1; }
    else if (k == 1) { np = true; status = -2; }
    else if (k == 2) { if (symm) return; am = NEG[r.below(4)]; status = -3; s4 = am; }
    else if (k == 3) { an = NEG[r.below(4)]; status = -4; s4 = an; }
    else if (k == 4) { p[n] = NEG[r.below(4)]; status = -5; s4 = p[n]; if (n == 0) {} }
    else if (k == 5) { if (n < 1) return; p[0] = r.pct(50) ? 1 : NEG[r.below(4)]; status = -6; s4 = p[0]; }
    else if (k == 6) { if (symm) return; int64_t d = need_of(nz, m, n); al = r.pct(40) ? d - 1 : r.pct(50) ? r.below(d) : NEG[r.below(4)]; status = -7; s4 = d; s5 = al; }
    else if (k == 7)
    {
        if (n < 2) return; int64_t j = r.range(1, n - 1); p[j] = r.pct(40) ? p[j - 1] - 1 : r.pct(60) ? p[n] + r.range(1, 50) : r.pct(50) ? INT32_MAX / 2 : INT32_MIN / 2;
        int64_t b = -1; for (int64_t q = 0; q < n; q++) if (p[q + 1] < p[q]) { b = q; break; }
        if (b < 0) return;
        status = -8; s4 = b; s5 = p[b + 1] - p[b];
    }
    else
    {
        if (nz < 1) return; int64_t e = r.below(nz); i[e] = r.pct(40) ? m : r.pct(50) ? INT32_MAX : NEG[r.below(4)];
        int64_t j = 0; while (P.p[j + 1] <= e) j++;
        status = -9; s4 = j; s5 = i[e]; s6 = m;
    }
    int64_t room = std::max<int64_t>(nz, std::max<int64_t>(al, 0));
    Arr<I> A(symm ? nz : room, 0x11), pp(p), q(n + 1), st(COLAMD_STATS, 0x33);
    for (int64_t e = 0; e < nz; e++) A[e] = (I)i[e];
    int64_t ok;
    if (symm) { g_badfree = false; ok = O::sym((I)an, nA ? NULL : A.a, np ? NULL : pp.a, q, NULL, st, sy_alloc, sy_free);
        if (!pp.eq(p)) c.fail("modified:invalid", "symamd changed p");
        for (int64_t e = 0; e < nz; e++) if (A[e] != i[e]) c.fail("modified:invalid", "symamd changed A");
        if (!g_blk.empty() || g_badfree) c.fail("symamd:leak", "symamd left blocks after status %ld", (long)st[3]);
        for (auto& b : g_blk) free(b.first);
        g_blk.clear(); }
    else ok = O::col((I)am, (I)an, (I)al, nA ? NULL : A.a, np ? NULL : pp.a, NULL, st);
    string who = symm ? "symamd" : "colamd";
    if (ok) c.fail(fmt("accepted:%ld", (long)-status), "%s (%s) accepted input invalid with status %ld", who.c_str(), O::name(), (long)status);
    else if (st[3] != status) c.fail(fmt("error:%ld", (long)-status), "%s (%s) reports status %ld instead of %ld", who.c_str(), O::name(), (long)st[3], (long)status);
    else if ((s4 != -99 && st[4] != s4) || (s5 != -99 && st[5] != s5) || (s6 != -99 && st[6] != s6)) c.fail(fmt("details:%ld", (long)-status), "%s (%s) status %ld: details %ld %ld %ld instead of %ld %ld %ld (-99: any)", who.c_str(), O::name(), (long)status, (long)st[4], (long)st[5], (long)st[6], (long)s4, (long)s5, (long)s6);
    cnt(fmt("invalid:%s%ld", who.c_str(), (long)status)); cnt("invalid");
}
template <class I> static void recommended(Ctx& c)
{
    Rng& r = c.rng; const int64_t MX = sizeof(I) == 4 ? (int64_t)INT32_MAX : INT64_MAX;
    auto v = [&]() -> int64_t { int w = (int)r.below(6); return w == 0 ? -1 - (int64_t)r.below(3) : w == 1 ? MX - (int64_t)r.below(3) : w == 2 ? MX / (2 + r.below(12)) : w == 3 ? r.below(10) : w == 4 ? r.below(100000) : MX / 16; };
    int64_t nz = v(), m = v(), n = v(); if (r.pct(20)) nz = sizeof(I) == 4 ? -INT64_C(2147483648) : INT64_MIN;
    size_t got = OrdApi<I>::rec((I)nz, (I)m, (I)n), want = 0;
    if (nz >= 0 && m >= 0 && n >= 0)
    {
        unsigned __int128 s = 2 * (unsigned __int128)nz + 6 * ((unsigned __int128)n + 1) + 4 * ((unsigned __int128)m + 1) + n + nz / 5;
        // the byte counts of the structures must not overflow either
        bool over = ((unsigned __int128)n + 1) * 6 * sizeof(I) > SIZE_MAX || ((unsigned __int128)m + 1) * 4 * sizeof(I) > SIZE_MAX;
        want = s < (unsigned __int128)MX && !over ? (size_t)s : 0;
    }
    if (got != want) c.fail("recommended", "colamd_recommended (%s) (%ld, %ld, %ld) is %zu instead of %zu", OrdApi<I>::name(), (long)nz, (long)m, (long)n, got, want);
    cnt(want ? "recommended" : "recommended:0");
}
void run_case(Ctx& c)
{
    Rng& r = c.rng; PatOpt po; po.maxn = 45; po.maxm = 45; po.square = false; po.big_pct = 8; po.bigmax = r.pct(10) ? 900 : 250;
    Pat P = gen_pat(r, po); Knob k = gen_knob(r); int64_t m = P.m, n = P.n, nz = P.nnz(); Cols cc = cols_of(P);
    c.desc = P.str() + " " + k.str();
    // ---- COLAMD
    {
        Jum J = jum(P); Model M = model(cc, m, k.k[0], k.k[1]);
        int64_t e1 = r.pct(50) ? 0 : r.below(6), e2 = r.pct(50) ? nz / 5 : 20 * nz + r.below(1000);
        Run a = col<int>(c, P, k, e1), b = col<LL>(c, P, k, r.pct(70) ? e1 : e2);
        stats(c, "colamd", a, J, M.rows, M, n); stats(c, "colamd_l", b, J, M.rows, M, n);
        if (a.q != b.q) c.fail("int_long", "colamd and colamd_l give different orderings");
        Knob kd = reword(r, k, false); Run d = r.pct(50) ? col<int>(c, P, kd, e2) : col<LL>(c, P, kd, e2);
        if (d.q != a.q) c.fail("workspace", "the ordering of colamd depends on the workspace, on unused knobs or on which nonzero value turns absorption on: %s", kd.str().c_str());
        if (n <= 300 || r.pct(10))
        {
            int64_t used = 0, l = 2 * nz + n; Run h = r.pct(50) ? roomy<int>(c, P, k, used) : roomy<LL>(c, P, k, used); stats(c, "colamd:roomy", h, J, M.rows, M, n);
            if (h.q != a.q) c.fail("workspace", "the ordering of colamd depends on the workspace");
            if (h.st[2] != 0) c.fail("garbage:some", "colamd reports %ld garbage collections with workspace for every step", (long)h.st[2]);
            garbage(c, "colamd", a, l + e1, used, n, M.cols); garbage(c, "colamd:again", d, l + e2, used, n, M.cols);
        }
        if (d.st[2] > 0) cnt("garbage_roomy");
        if (a.st[2] > 0) cnt("garbage");
        // the order and repetition of entries do not matter
        Pat Q = pack(r, cc, m, r.pct(60)); Run f = r.pct(50) ? col<int>(c, Q, k, r.pct(50) ? 0 : e2) : col<LL>(c, Q, k, r.pct(50) ? 0 : e2);
        if (f.q != a.q) c.fail("arrangement", "the ordering of colamd depends on the order or repetition of entries");
        stats(c, "colamd:again", f, jum(Q), M.rows, M, n);
        // null knobs are the defaults
        if (k.null) { double dk[COLAMD_KNOBS]; for (double& x : dk) x = 3; if (r.pct(50)) OrdApi<int>::col_def(dk); else OrdApi<LL>::col_def(dk);
            if (dk[0] != 10 || dk[1] != 10 || !dk[2]) c.fail("defaults", "colamd_set_defaults sets %g %g %g", dk[0], dk[1], dk[2]);
            for (int q = 3; q < COLAMD_KNOBS; q++) if (dk[q] != 0) c.fail("defaults", "colamd_set_defaults sets knob %d to %g", q, dk[q]);
            Knob k2 = k; k2.null = false; memcpy(k2.k, dk, sizeof dk); Run g = col<int>(c, P, k2, 0); if (g.q != a.q) c.fail("null_knobs", "null knobs do not give the default ordering"); }
        // the recommended workspace suffices
        size_t rec = OrdApi<int>::rec((int)nz, (int)m, (int)n), rl = OrdApi<LL>::rec(nz, m, n);
        if ((int64_t)rec < need_of(nz, m, n) || rl != rec) c.fail("recommended", "colamd_recommended is %zu (int), %zu (long); %ld are needed", rec, rl, (long)need_of(nz, m, n));
        cnt(J.status ? "jumbled" : "sorted"); if (M.rows) cnt("with ignored rows"); if (M.cols) cnt("with ignored columns"); cnt(fmt("family:%d", P.family));
        if (n > 1 && nz > 0) { Hash h; h.add(P.hash()); h.adds(k.str()); c.sig(h.h); }
    }
    // ---- SYMAMD
    PatOpt ps = po; ps.square = true; if (r.pct(15)) { ps.family = 4; ps.maxn = 200; }
    Pat S = gen_pat(r, ps); Knob ks = gen_knob(r);
    {
        int64_t N = S.n; Cols sc = cols_of(S); Jum J = jum(S); c.desc += "; symamd " + S.str() + " " + ks.str();
        // the strictly lower triangle, as a symmetric graph: vertex j has as many entries as neighbours
        vector<set<int64_t>> g(N); int64_t edges = 0;
        for (int64_t j = 0; j < N; j++) for (auto i : sc[j]) if (i > j) { g[i].insert(j); g[j].insert(i); edges++; }
        double k0 = ks.k[0];
        // columns: empty, dense, then those left with dense neighbours only
        Model M; bool known = k0 >= 0;      // (a negative knob is not documented for symamd)
        if (known)
        {
            double t = std::max(16.0, k0 * sqrt((double)N)); vector<int> st(N, 0);
            for (int64_t j = 0; j < N; j++) st[j] = g[j].empty() ? 1 : (double)g[j].size() > t ? 2 : 0;
            vector<int> s2 = st;
            for (int64_t j = 0; j < N; j++) if (!st[j])
            {   // an edge to a dense vertex stays as a row with one entry: the vertex is not empty
                s2[j] = 0;
            }
            for (int w : {3, 2, 1}) for (int64_t j = 0; j < N; j++) if (s2[j] == w) M.tail.push_back(j);
            M.cols = (int64_t)M.tail.size();
        }
        Run a = sym<int>(c, S, ks), b = sym<LL>(c, S, ks);
        if (!known) { M.cols = a.st[1]; M.tail.assign(a.q.end() - std::min<int64_t>(N, std::max<int64_t>(0, M.cols)), a.q.end()); cnt("symamd:negative knob"); }
        stats(c, "symamd", a, J, M.cols, M, N); stats(c, "symamd_l", b, J, M.cols, M, N);
        if (a.q != b.q) c.fail("symamd:int_long", "symamd and symamd_l give different orderings");
        // only the strictly lower triangle counts
        {
            Cols low(N); for (int64_t j = 0; j < N; j++) { for (auto i : sc[j]) if (i > j) low[j].insert(i); int64_t e = r.below(3); while (e-- && j > 0) low[j].insert(r.below(j + 1)); }
            Pat Q = pack(r, low, N, r.pct(50)); Knob kd = reword(r, ks, true); Run f = r.pct(50) ? sym<int>(c, Q, kd) : sym<LL>(c, Q, kd);
            if (f.q != a.q) { cnt("symamd:arrangement differs"); if (!S.jumbled && !Q.jumbled) c.fail("symamd:triangle", "the ordering of symamd depends on the upper triangle"); }
            else cnt("symamd:arrangement same");
            stats(c, "symamd:again", f, jum(Q), M.cols, M, N);
        }
        if (M.cols) cnt("symamd with ignored columns");
        // memory
        for (int64_t at = 0; at < 4; at++)
        {
            g_fail = at; g_failed = 0; Run f = r.pct(50) ? sym<int>(c, S, ks) : sym<LL>(c, S, ks); g_fail = -1;
            if (g_failed ? f.ok || f.st[3] != -10 : !f.ok) c.fail("symamd:oom", "symamd returned %ld with status %ld after %ld failures of memory", (long)f.ok, (long)f.st[3], (long)g_failed);
            if (!g_failed && f.q != a.q) c.fail("symamd:repeat", "symamd does not repeat its ordering");
            cnt(g_failed ? "oom" : "no_oom");
        }
        if (N > 1 && edges > 0) { Hash h; h.add(S.hash()); h.adds(ks.str()); h.add(2); c.sig(h.h); }
    }
    if (r.pct(5)) { Arr<int> A(100), p(C0); if (OrdApi<int>::col(0, 0, 100, A, p, NULL, NULL)) c.fail("null_stats", "colamd accepts null statistics"); Arr<LL> B(100), q(C0), pm(1); if (OrdApi<LL>::sym(0, B, q, pm, NULL, NULL, sy_alloc, sy_free)) c.fail("null_stats", "symamd accepts null statistics"); }
    for (int q = 0; q < 4; q++) { bool s = r.pct(40); const Pat& X = s ? S : P; if (r.pct(50)) invalid<int>(c, X, s); else invalid<LL>(c, X, s); }
    recommended<int>(c); recommended<LL>(c);
}

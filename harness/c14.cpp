// C14: AMD on every kind of valid and invalid input, both integer types side by side.
#include "fill.hpp"
void harness_init() {}
struct Run { int st; vector<int64_t> q; double info[AMD_INFO]; };
template <class I> static Run amd(Ctx& c, const Pat& P, const double* ctl, bool winfo = true)
{
    Run u; Arr<I> p(P.p), i(P.i), q(P.n, 0x5a); double cc[AMD_CONTROL]; if (ctl) memcpy(cc, ctl, sizeof cc); for (double& x : u.info) x = -77;
    Arr<double> ci(AMD_CONTROL), inf(AMD_INFO); if (ctl) memcpy(ci.a, ctl, sizeof cc);
    u.st = (int)OrdApi<I>::amd((I)P.n, p, i, q, ctl ? ci.a : NULL, winfo ? inf.a : NULL);
    if (winfo) memcpy(u.info, inf.a, sizeof u.info);
    if (!p.eq(P.p) || !i.eq(P.i)) c.fail(string("modified:") + OrdApi<I>::name(), "amd (%s) changed its input", OrdApi<I>::name());
    if (ctl && memcmp(ci.a, ctl, sizeof cc)) c.fail("modified:control", "amd changed the Control array");
    if (winfo && u.info[AMD_STATUS] != u.st) c.fail("info:status", "Info [AMD_STATUS] is %g but amd returned %d", u.info[AMD_STATUS], u.st);
    u.q = q.vec(); cnt("orderings"); return u;
}
template <class I> static void invalid(Ctx& c, const Pat& P)
{
    Rng& r = c.rng; typedef OrdApi<I> O;
    vector<int64_t> p = P.p, i = P.i; int64_t n = P.n, nz = P.nnz(); int k = (int)r.below(10); bool nulls[3] = {0, 0, 0}; string w; bool nz0 = false;
    switch (k)
    {
        case 0: nulls[0] = true; w = "Ap NULL"; break;
        case 1: nulls[1] = true; w = "Ai NULL"; break;
        case 2: nulls[2] = true; w = "P NULL"; break;
        case 3: n = -r.range(1, 3); if (r.pct(20)) n = INT32_MIN; w = "n negative"; break;
        case 4: if (n < 1) return; p[0] = r.pct(50) ? 1 : r.pct(50) ? -1 : INT32_MIN; w = fmt("Ap[0]=%ld", (long)p[0]); break;
        case 5: { if (n < 2) return; int64_t j = r.range(1, n - 1); p[j] = r.pct(40) ? p[j - 1] - 1 : r.pct(50) ? p[j + 1] + 1 : r.pct(50) ? INT32_MAX : INT32_MIN; w = fmt("Ap[j=%ld]=%ld", (long)j, (long)p[j]); break; }
        case 6: if (n < 1) return; p[n] = r.pct(50) ? -1 : INT32_MIN; nz0 = true; w = "Ap[n] negative"; break;
        case 7: { if (nz < 1) return; int64_t e = r.below(nz); i[e] = r.pct(50) ? n : r.pct(50) ? INT32_MAX : n + r.below(9); w = "row index too large"; break; }
        case 8: { if (nz < 1) return; int64_t e = r.below(nz); i[e] = r.pct(50) ? -1 : INT32_MIN; w = "row index negative"; break; }
        case 9: { if (n < 2 || nz < 1) return; // last pointer below an earlier one
            p[n] = p[n - 1] - 1; if (p[n] < 0) nz0 = true; w = "Ap[n] decreasing"; break; }
    }
    (void)nz0;
    Arr<I> ap(p), ai(i), q(std::max<int64_t>(P.n, 0)); Arr<double> inf(AMD_INFO); bool winfo = r.pct(70);
    int st = (int)O::amd((I)n, nulls[0] ? NULL : ap.a, nulls[1] ? NULL : ai.a, nulls[2] ? NULL : q.a, NULL, winfo ? inf.a : NULL);
    if (st != AMD_INVALID) c.fail(string("invalid:") + w.substr(0, 5), "amd (%s) returned %d for invalid input: %s; %s", O::name(), st, w.c_str(), P.str().c_str());
    if (winfo && inf[AMD_STATUS] != st) c.fail("info:status", "Info [AMD_STATUS] is %g but amd returned %d (%s)", inf[AMD_STATUS], st, w.c_str());
    if (!ap.eq(p) || !ai.eq(i)) c.fail("modified:invalid", "amd changed its invalid input");
    if (k != 2)
    {
        int s2 = (int)O::valid((I)n, (I)n, nulls[0] ? NULL : ap.a, nulls[1] ? NULL : ai.a);
        if (s2 != AMD_INVALID) c.fail(string("valid:") + w.substr(0, 5), "amd_valid (%s) returned %d for invalid input: %s", O::name(), s2, w.c_str());
    }
    cnt("invalid:" + w.substr(0, w.find_first_of("=0123456789"))); cnt("invalid");
}
template <class I> static void valid_rect(Ctx& c)
{
    Rng& r = c.rng; PatOpt po; po.maxn = 14; po.maxm = 14; po.square = false; po.big_pct = 0; Pat P = gen_pat(r, po);
    Arr<I> p(P.p), i(P.i); int s = (int)OrdApi<I>::valid((I)P.m, (I)P.n, p, i), want = P.jumbled ? AMD_OK_BUT_JUMBLED : AMD_OK;
    if (s != want) c.fail("valid:rect", "amd_valid (%s) returned %d instead of %d; %s", OrdApi<I>::name(), s, want, P.str().c_str());
    if (P.nnz() > 0) { int64_t e = r.below(P.nnz()); i[e] = (I)(r.pct(50) ? P.m : -1); s = (int)OrdApi<I>::valid((I)P.m, (I)P.n, p, i); if (s != AMD_INVALID) c.fail("valid:rect", "amd_valid (%s) returned %d for a row index out of range", OrdApi<I>::name(), s); }
    s = (int)OrdApi<I>::valid((I)-1, (I)P.n, p, i); if (s != AMD_INVALID) c.fail("valid:rect", "amd_valid accepted a negative number of rows");
    cnt("amd_valid");
}
void run_case(Ctx& c)
{
    Rng& r = c.rng; PatOpt po; po.maxn = 50; po.big_pct = 8; po.bigmax = r.pct(10) ? 1500 : 300;
    Pat P = gen_pat(r, po); Ctl t = gen_ctl(r); int64_t n = P.n;
    c.desc = P.str() + " " + t.str();
    const double* ctl = t.null ? NULL : t.c;
    Run a = amd<int>(c, P, ctl), b = amd<LL>(c, P, ctl);
    int want = P.jumbled ? AMD_OK_BUT_JUMBLED : AMD_OK;
    if (n == 0) want = AMD_OK;
    if (a.st != want || b.st != want) c.fail("status", "amd returned %d (int) and %d (long) instead of %d", a.st, b.st, want);
    if (!is_perm(a.q.data(), n)) c.fail("perm:int", "the ordering (int) is not a permutation");
    if (!is_perm(b.q.data(), n)) c.fail("perm:long", "the ordering (long) is not a permutation");
    if (a.q != b.q) c.fail("int_long", "the int and long versions give different orderings");
    for (int k = 0; k < AMD_INFO; k++)
    {
        double x = a.info[k], y = b.info[k]; if (k == AMD_MEMORY && n > 0) x *= 2;
        if (x != y) c.fail("int_long:info", "Info [%d] is %g in the int and %g in the long version", k, a.info[k], b.info[k]);
    }
    if (!c.failed && n > 0)
    {
        bool L = r.pct(50);
        auto again = [&](const char* key, const Pat& Q, const double* cc, bool winfo, int st, const vector<int64_t>& q0) {
            Run u = L ? amd<LL>(c, Q, cc, winfo) : amd<int>(c, Q, cc, winfo);
            if (u.st != st) c.fail(string("status:") + key, "%s: amd returned %d instead of %d", key, u.st, st);
            else if (u.q != q0) c.fail(string("differs:") + key, "%s: the ordering differs", key); };
        // the statistics are optional; defaults are what NULL means
        again("Info NULL", P, ctl, false, want, a.q);
        if (t.null) { double d[AMD_CONTROL]; for (double& x : d) x = 3; if (L) OrdApi<LL>::amd_def(d); else OrdApi<int>::amd_def(d); if (d[AMD_DENSE] != 10 || d[AMD_AGGRESSIVE] == 0) c.fail("defaults", "amd_defaults sets %g %g", d[0], d[1]); again("defaults", P, d, true, want, a.q); }
        else { double d[AMD_CONTROL]; memcpy(d, t.c, sizeof d); for (int k = 2; k < AMD_CONTROL; k++) d[k] = r.unit() * 100 - 50; if (d[AMD_AGGRESSIVE] != 0) d[AMD_AGGRESSIVE] = r.pct(50) ? 7 : -1; again("unused controls", P, d, true, want, a.q); }
        Cols cc = cols_of(P);
        // the diagonal is ignored
        {
            Cols d = cc; for (int64_t j = 0; j < n; j++) { int w = (int)r.below(3); if (w == 0) d[j].insert(j); else if (w == 1) d[j].erase(j); }
            Pat Q = pack(r, d, n, false); Run u0, u1;
            Pat C0 = pack(r, cc, n, false); u0 = amd<LL>(c, C0, ctl); u1 = amd<LL>(c, Q, ctl);
            if (u0.st != AMD_OK || u1.st != AMD_OK) c.fail("status:clean", "amd returned %d and %d for sorted input", u0.st, u1.st);
            if (u0.q != u1.q) c.fail("diagonal", "the ordering depends on the diagonal");
            if (!P.jumbled && u0.q != a.q) c.fail("repeat", "the ordering of an equal matrix differs");
            // jumbled input gives a similar ordering: it orders the same A+A'
            cnt(string("jumbled_same:") + (u0.q == a.q ? "yes" : "no"));
            if (P.jumbled) for (int k : {AMD_N, AMD_SYMMETRY, AMD_NZDIAG, AMD_NZ_A_PLUS_AT, AMD_NDENSE}) if (u0.info[k] != a.info[k]) c.fail("jumbled:info", "Info [%d] is %g for jumbled input and %g for its cleaned version", k, a.info[k], u0.info[k]);
            if (P.jumbled)
            {
                Adj g = adj_of(P); Fill f0 = fill_of(g, u0.q), f1 = fill_of(g, a.q);
                if (f1.lnz > 2 * f0.lnz + 60 || f0.lnz > 2 * f1.lnz + 60) c.fail("jumbled:fill", "the ordering of jumbled input has %g entries in L, that of its cleaned version %g", f1.lnz, f0.lnz);
            }
        }
        // the arrangement of jumbled input does not matter
        if (P.jumbled)
        {
            Pat Q; int tries = 0; do Q = pack(r, cc, n, true); while (!Q.jumbled && ++tries < 9);
            if (Q.jumbled) again("another arrangement", Q, ctl, true, AMD_OK_BUT_JUMBLED, a.q);
        }
        int v = L ? (int)OrdApi<LL>::valid(n, n, Arr<LL>(P.p), Arr<LL>(P.i)) : (int)OrdApi<int>::valid((int)n, (int)n, Arr<int>(P.p), Arr<int>(P.i));
        if (v != want) c.fail("valid", "amd_valid returned %d instead of %d", v, want);
    }
    // memory
    if (r.pct(25) && n > 0)
    {
        SuiteSparse_config.malloc_func = tr_malloc; SuiteSparse_config.calloc_func = tr_calloc; SuiteSparse_config.realloc_func = tr_realloc; SuiteSparse_config.free_func = tr_free;
        for (int q = 0; q < 3; q++)
        {
            g_tr.live.clear(); g_tr.reset(); g_tr.inject = true; g_tr.fail_at = r.below(6); g_tr.fail_n = r.pct(50) ? 1 : 1000000;
            Run u = r.pct(50) ? amd<LL>(c, P, ctl) : amd<int>(c, P, ctl); g_tr.inject = false;
            if (g_tr.failed ? u.st != AMD_OUT_OF_MEMORY : u.st != want) c.fail("oom", "amd returned %d after %ld failures of memory", u.st, (long)g_tr.failed);
            if (!g_tr.live.empty() || g_tr.bad_free) c.fail("oom:leak", "amd left %zu blocks (%ld failures of memory)", g_tr.live.size(), (long)g_tr.failed);
            for (auto& kv : g_tr.live) free(kv.first);
            g_tr.live.clear(); cnt(g_tr.failed ? "oom" : "tracked");
        }
    }
    for (int q = 0; q < 3; q++) { if (r.pct(50)) invalid<int>(c, P); else invalid<LL>(c, P); }
    if (r.pct(50)) valid_rect<int>(c); else valid_rect<LL>(c);
    cnt(fmt("family:%d", P.family)); cnt(P.jumbled ? "jumbled" : "sorted"); cntmax("n", n);
    if (n > 1 && P.nnz() > 0) { Hash h; h.add(P.hash()); h.adds(t.str()); c.sig(h.h); }
}

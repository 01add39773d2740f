// C15: the statistics of AMD against the matrix and the returned ordering.
#include "fill.hpp"
void harness_init() {}
template <class I> static void one(Ctx& c, const Pat& P, const Ctl& t, double* sum_rep, double* sum_true)
{
    int64_t n = P.n; Arr<I> p(P.p), i(P.i), q(n); Arr<double> inf(AMD_INFO); const char* nm = OrdApi<I>::name();
    Arr<double> ctl(AMD_CONTROL); memcpy(ctl.a, t.c, sizeof t.c);
    int st = (int)OrdApi<I>::amd((I)n, p, i, q, t.null ? NULL : ctl.a, inf);
    auto bad = [&](const char* key, double got, double want) { c.fail(string("info:") + key, "amd (%s): %s is %.17g, should be %.17g; %s %s", nm, key, got, want, P.str().c_str(), t.str().c_str()); };
    auto eq = [&](const char* key, int k, double want) { cnt("values"); if (inf[k] != want) bad(key, inf[k], want); };
    if (st != AMD_OK && st != AMD_OK_BUT_JUMBLED) { c.fail("status", "amd returned %d", st); return; }
    eq("status", AMD_STATUS, st); eq("n", AMD_N, (double)n);
    if (n == 0) return;
    if (!is_perm(q.a, n)) { c.fail("perm", "not a permutation"); return; }
    // duplicates count once
    Cols cc = cols_of(P); int64_t ne = 0; for (auto& s : cc) ne += (int64_t)s.size();
    eq("nz", AMD_NZ, (double)ne); int64_t diag = 0, off = 0, match = 0;
    for (int64_t j = 0; j < n; j++) for (auto r : cc[j]) { if (r == j) diag++; else { off++; if (cc[r].count(j)) match++; } }
    Adj g = adj_of(P); int64_t aat = 0; for (auto& v : g) aat += (int64_t)v.size();
    eq("nzdiag", AMD_NZDIAG, (double)diag);
    { double want = off ? (double)match / (double)off : 1; if (fabs(inf[AMD_SYMMETRY] - want) > 1e-12) bad("symmetry", inf[AMD_SYMMETRY], want); }
    eq("nz_a_plus_at", AMD_NZ_A_PLUS_AT, (double)aat);
    // dense rows
    double alpha = t.null ? 10 : t.c[AMD_DENSE]; int64_t nd = 0, full = 0; vector<char> dn(n, 0), fl(n, 0);
    for (int64_t j = 0; j < n; j++)
    {
        double d = (double)g[j].size();
        if (alpha >= 0 && d > 16 && d > alpha * sqrt((double)n)) { dn[j] = 1; nd++; }
        if (d > 16 && d == n - 1) { fl[j] = 1; full++; }
    }
    int64_t rep = (int64_t)inf[AMD_NDENSE];
    if (alpha < 0 ? (rep != 0 && rep != full) : rep != nd) bad("ndense", inf[AMD_NDENSE], (double)(alpha < 0 ? full : nd));
    else { auto& f = alpha < 0 ? fl : dn; for (int64_t k = n - rep; k < n; k++) if (!f[q[k]]) { c.fail("dense_last", "amd (%s): a row that is not dense is placed among the last %ld; %s %s", nm, (long)rep, P.str().c_str(), t.str().c_str()); break; } }
    // fill and work of the returned ordering
    Fill f = fill_of(g, q.vec());
    struct { const char* nm; int k; double t; } v[] = {{"lnz", AMD_LNZ, f.lnz}, {"ndiv", AMD_NDIV, f.lnz}, {"nmultsubs_ldl", AMD_NMULTSUBS_LDL, f.nms_ldl}, {"nmultsubs_lu", AMD_NMULTSUBS_LU, f.nms_lu}, {"dmax", AMD_DMAX, (double)f.dmax}};
    for (auto& s : v)
    {
        double x = inf[s.k]; cnt("values");
        if (!(x >= s.t)) c.fail(string("low:") + s.nm, "amd (%s): %s is %.17g, below the %.17g of the returned ordering; %s %s", nm, s.nm, x, s.t, P.str().c_str(), t.str().c_str());
        if (x != floor(x)) c.fail(string("integral:") + s.nm, "amd (%s): %s is %.17g", nm, s.nm, x);
    }
    double N = (double)n, L = inf[AMD_LNZ];
    if (L > N * (N - 1) / 2 || inf[AMD_DMAX] > N) c.fail("high", "amd (%s): lnz %g, dmax %g for n = %ld", nm, L, inf[AMD_DMAX], (long)n);
    if (inf[AMD_NDIV] != L) bad("ndiv", inf[AMD_NDIV], L);
    if (inf[AMD_NMULTSUBS_LDL] * 2 != inf[AMD_NMULTSUBS_LU] + L) bad("nmultsubs_ldl", inf[AMD_NMULTSUBS_LDL], (inf[AMD_NMULTSUBS_LU] + L) / 2);
    if (inf[AMD_NMULTSUBS_LU] > L * (inf[AMD_DMAX] - 1) || inf[AMD_NMULTSUBS_LU] * N < L * L) c.fail("inconsistent", "amd (%s): nmultsubs_lu %g does not go with lnz %g and dmax %g", nm, inf[AMD_NMULTSUBS_LU], L, inf[AMD_DMAX]);
    if (rep == 0) { cnt(L == f.lnz ? "lnz_exact" : "lnz_above"); *sum_rep += L; *sum_true += f.lnz;
        if (L > 1.6 * f.lnz + 30) c.fail("loose:lnz", "amd (%s): lnz is %g, far above the %g of the returned ordering; %s", nm, L, f.lnz, P.str().c_str());
        if (inf[AMD_DMAX] > 1.6 * f.dmax + 12) c.fail("loose:dmax", "amd (%s): dmax is %g, far above the %ld of the returned ordering; %s", nm, inf[AMD_DMAX], (long)f.dmax, P.str().c_str());
        cntmax("lnz_percent", f.lnz >= 100 ? (int64_t)(100 * L / f.lnz) : 0); cntmax("dmax_excess", (int64_t)(inf[AMD_DMAX] - f.dmax)); }
    else cnt("with_dense");
    { Hash h; h.add(P.hash()); h.adds(t.str()); if (aat) c.sig(h.h); }
    cnt("matrices"); cntmax("n", n); cntmax("ndense", rep);
}
void run_case(Ctx& c)
{
    Rng& r = c.rng; double rep = 0, tru = 0;
    for (int k = 0; k < 12; k++)
    {
        PatOpt po; po.maxn = 60; po.big_pct = 10; po.bigmax = r.pct(10) ? 1200 : 300;
        Pat P = gen_pat(r, po); Ctl t = gen_ctl(r);
        if (k == 0) c.desc = P.str() + " " + t.str();
        if (r.pct(50)) one<int>(c, P, t, &rep, &tru); else one<LL>(c, P, t, &rep, &tru);
    }
    if (tru > 500) cntmax("batch_percent", (int64_t)(1000 * rep / tru));
    if (rep > 1.1 * tru + 60) c.fail("loose:batch", "the reported entries of L add up to %g for 12 matrices, the true ones to %g", rep, tru);
}

// C31: what AMD, COLAMD and SYMAMD say about a run: every number and word of
// their report functions against the settings and statistics they are given.
#include "ord.hpp"
#include "factor.hpp"
#include "std.hpp"
#include <ctype.h>
static string g_text; static int64_t g_calls = 0;
static int put(const char* f, ...)
{
    char b[4096]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
    g_calls++; if (n > 0) g_text.append(b, std::min<size_t>(n, sizeof b - 1)); return n;
}
void harness_init() {}
static string shown(const string& s) { string t; for (char ch : s.substr(0, 700)) t += ch == '\n' ? string("|") : string(1, ch); return t; }
static string lower(const string& s) { string t; for (char ch : s) t += (char)tolower((unsigned char)ch); return t; }
static bool has(const string& t, const char* w) { return t.find(w) != string::npos; }
// the text of one call, which must come through the print function only
template <class F> static bool capture(Ctx& c, const char* what, F f, string& text)
{
    bool std_too = c.rng.pct(4); SuiteSparse_config.printf_func = put; g_text.clear(); g_calls = 0; string raw; if (std_too) g_std.begin(); f(); if (std_too) raw = g_std.end(); text = g_text; cnt("reports read");
    if (!raw.empty()) { c.fail("bypass", "%s wrote '%s' directly", what, shown(raw).c_str()); return false; }
    if (text.empty()) { c.fail("silent", "%s printed nothing", what); return false; }
    if (c.rng.pct(4)) { SuiteSparse_config.printf_func = NULL; g_calls = 0; g_std.begin(); f(); raw = g_std.end(); SuiteSparse_config.printf_func = put; cnt("reports with printing disabled"); if (!raw.empty() || g_calls) { c.fail("disabled", "%s prints although printing is disabled", what); return false; } }
    return true;
}
// numbers after the last colon of the lines of a text
static vector<string> values(const string& t)
{
    vector<string> v; size_t i = 0;
    while (i < t.size())
    {
        size_t e = t.find('\n', i); if (e == string::npos) e = t.size(); string l = t.substr(i, e - i); i = e + 1; size_t k = l.rfind(':'); if (k == string::npos) continue;
        l = l.substr(k + 1); size_t a = l.find_first_not_of(" \t\r"); if (a == string::npos) continue; l = l.substr(a, l.find_last_not_of(" \t\r") - a + 1); char* end; strtod(l.c_str(), &end); if (!*end) v.push_back(l);
    }
    return v;
}
// all whole numbers in a text
static vector<string> integers(const string& t)
{
    vector<string> v; size_t i = 0; while (i < t.size()) { if (isdigit((unsigned char)t[i])) { size_t j = i; while (j < t.size() && isdigit((unsigned char)t[j])) j++; v.push_back((i && t[i - 1] == '-' ? "-" : "") + t.substr(i, j - i)); i = j; } else i++; }
    return v;
}
static bool near(const string& s, double want, double tol) { double x = strtod(s.c_str(), NULL); return fabs(x - want) <= tol + 1e-12 * fabs(want); }
//------------------------------------------------------------------------------
template <class I> static void info(Ctx& c)
{
    Rng& r = c.rng; Arr<double> F(AMD_INFO); string how;
    if (r.pct(40))
    {
        PatOpt po; po.maxn = 30; po.big_pct = 3; po.bigmax = 300; Pat P = gen_pat(r, po); Ctl t = gen_ctl(r); if (r.pct(15) && P.nnz()) P.i[r.below(P.nnz())] = P.n + r.below(3); Arr<I> p(P.p), i(P.i), q(P.n); for (int k = 0; k < AMD_INFO; k++) F[k] = -3;
        bool oom = r.pct(8); if (oom) { g_tr.inject = true; g_tr.fail_at = g_tr.nalloc + r.below(3); g_tr.fail_n = 1; } SuiteSparse_config.malloc_func = tr_malloc; SuiteSparse_config.free_func = tr_free; OrdApi<I>::amd((I)P.n, p, i, q, t.null ? NULL : t.c, F); g_tr.inject = false; SuiteSparse_config.malloc_func = malloc; SuiteSparse_config.free_func = free;
        how = P.str() + " " + t.str(); cnt("statistics of a run");
    }
    else
    {
        static const double S[] = { AMD_OK, AMD_OK_BUT_JUMBLED, AMD_OUT_OF_MEMORY, AMD_INVALID, 7 };
        for (int k = 0; k < AMD_INFO; k++) F[k] = r.pct(12) ? -1 : r.pct(10) ? 0 : r.pct(50) ? (double)r.range(0, 100000) : floor(ldexp(1 + r.unit(), (int)r.range(10, 52)));
        F[AMD_STATUS] = S[r.below(5)]; F[AMD_SYMMETRY] = r.pct(15) ? -1 : r.pct(15) ? 1 : r.pct(10) ? 0 : r.unit(); how = "statistics made up"; cnt("statistics made up");
    }
    how += ":"; for (int k = 0; k < AMD_INFO; k++) how += fmt(" %.17g", F[k]); c.desc = fmt("amd_info (%s) of %s", OrdApi<I>::name(), how.c_str());
    vector<double> before(F.a, F.a + AMD_INFO); string t; if (!capture(c, "amd_info", [&]() { OrdApi<I>::amd_inf(F); }, t)) return;
    if (memcmp(before.data(), F.a, AMD_INFO * sizeof(double))) { c.fail("info:changed", "amd_info changes the statistics"); return; }
    // words
    string l = lower(t); double st = F[AMD_STATUS]; size_t k = l.find("status:"); string w = k == string::npos ? "" : l.substr(k + 7, l.find('\n', k) - k - 7); bool ok = st == AMD_OK ? has(w, "ok") && !has(w, "jumbled") : st == AMD_OK_BUT_JUMBLED ? has(w, "jumbled") : st == AMD_OUT_OF_MEMORY ? has(w, "memory") : st == AMD_INVALID ? has(w, "invalid") : has(w, "unknown");
    if (!ok) { c.fail("info:status", "amd_info says '%s' for status %g", shown(w).c_str(), st); return; }
    // numbers
    struct Want { double v, tol; const char* nm; }; vector<Want> want; auto W = [&](double v, const char* nm, double tol = 0) { if (v >= 0) want.push_back({ v, tol, nm }); };
    double n = F[AMD_N], nd = F[AMD_NDIV], ml = F[AMD_NMULTSUBS_LDL], mu = F[AMD_NMULTSUBS_LU], lnz = F[AMD_LNZ];
    W(n, "n"); W(F[AMD_NZ], "nz"); W(F[AMD_SYMMETRY], "symmetry", 0.501e-4); W(F[AMD_NZDIAG], "nzdiag"); W(F[AMD_NZ_A_PLUS_AT], "nz_a_plus_at"); W(F[AMD_NDENSE], "ndense"); W(F[AMD_MEMORY], "memory"); W(F[AMD_NCMPA], "ncmpa"); W(lnz, "lnz"); if (n >= 0 && lnz >= 0) W(n + lnz, "lnz+n"); W(nd, "ndiv"); W(ml, "nmultsubs_ldl"); W(mu, "nmultsubs_lu"); W(F[AMD_DMAX], "dmax");
    if (n >= 0 && nd >= 0 && ml >= 0 && mu >= 0) { W(n + nd + 2 * ml, "chol flops"); W(nd + 2 * ml, "LDL' flops"); W(9 * nd + 8 * ml, "complex LDL' flops"); W(nd + 2 * mu, "LU flops"); W(9 * nd + 8 * mu, "complex LU flops"); }
    vector<string> v = values(t); for (size_t q = 0; q < want.size(); q++) { cnt("numbers compared"); if (q >= v.size() || !near(v[q], want[q].v, want[q].tol)) { c.fail(string("info:") + want[q].nm, "amd_info shows %s for %s = %.17g: %s", q < v.size() ? v[q].c_str() : "nothing", want[q].nm, want[q].v, shown(t).c_str()); return; } }
    if (v.size() != want.size()) c.fail("info:extra", "amd_info shows %zu numbers instead of %zu: %s", v.size(), want.size(), shown(t).c_str());
    Hash h; for (int q = 0; q < AMD_INFO; q++) { uint64_t u; memcpy(&u, &F[q], 8); h.add(u); } c.sig(h.h);
}
template <class I> static void control(Ctx& c)
{
    Rng& r = c.rng; Ctl q = gen_ctl(r); if (!q.null && r.pct(50)) { q.c[AMD_DENSE] = r.pct(20) ? -r.unit() * 10 : r.pct(30) ? floor(r.unit() * 1000) : r.unit() * 20; } if (!q.null && r.pct(30)) q.c[AMD_AGGRESSIVE] = r.pct(50) ? 0.25 : -1; string t;
    Arr<double> C(AMD_CONTROL); memcpy(C.a, q.c, sizeof q.c); c.desc = fmt("amd_control (%s) of %s", OrdApi<I>::name(), q.str().c_str());
    if (!capture(c, "amd_control", [&]() { OrdApi<I>::amd_ctl(q.null ? NULL : C.a); }, t)) return; if (memcmp(C.a, q.c, sizeof q.c)) { c.fail("control:changed", "amd_control changes the settings"); return; }
    double alpha = q.null ? 10 : q.c[AMD_DENSE]; bool aggr = q.null || q.c[AMD_AGGRESSIVE] != 0; string l = lower(t); vector<string> v = values(t);
    if (v.size() != 2 || fabs(strtod(v[0].c_str(), NULL) - alpha) > 1e-5 * fabs(alpha)) { c.fail("control:dense", "amd_control shows the dense row parameter %g as: %s", alpha, shown(t).c_str()); return; }
    if (strtod(v[1].c_str(), NULL) != (double)sizeof(I)) { c.fail("control:size", "amd_control shows the integer size %zu as %s", sizeof(I), v[1].c_str()); return; }
    bool none = has(l, "no rows treated as dense"); size_t k = l.find("max ("); if (none != (alpha < 0) || (k != string::npos) == none || (!none && fabs(strtod(l.c_str() + k + 5, NULL) - alpha) > 1e-5 * fabs(alpha))) { c.fail("control:rule", "amd_control describes the dense rows for the parameter %g as: %s", alpha, shown(t).c_str()); return; }
    k = l.find("aggressive absorption:"); string w = k == string::npos ? "" : l.substr(k + 22, l.find('\n', k) - k - 22); if (has(w, "yes") != aggr || has(w, "no") == aggr) { c.fail("control:aggressive", "amd_control shows the aggressive absorption (%s) as: %s", aggr ? "on" : "off", shown(t).c_str()); return; }
    cnt("numbers compared", 3); Hash h; h.adds(q.str()); c.sig(h.h);
}
//------------------------------------------------------------------------------
template <class I> static int64_t some(Rng& r, bool neg)
{
    int64_t v = r.pct(15) ? 0 : r.pct(60) ? r.range(0, 100000) : r.range(0, 0x7fffffff); if (sizeof(I) == 8 && r.pct(35)) v = r.range(0, INT64_MAX - 2) >> r.below(31); return neg && r.pct(50) ? -v : v;
}
template <class I> static void report(Ctx& c)
{
    typedef OrdApi<I> O; Rng& r = c.rng; bool sym = r.pct(50); Arr<I> st(COLAMD_STATS); string how; const char* nm = sym ? "symamd" : "colamd"; string full = fmt("%s%s_report", nm, sizeof(I) == 8 ? "_l" : "");
    if (r.pct(4)) { string t; c.desc = full + " of NULL"; if (capture(c, full.c_str(), [&]() { if (sym) O::sym_report(NULL); else O::col_report(NULL); }, t) && (!has(lower(t), "no statistics") || !has(lower(t), nm))) c.fail("report:null", "%s says '%s' when there are no statistics", full.c_str(), shown(t).c_str()); return; }
    if (r.pct(45))
    {
        PatOpt po; po.maxm = po.maxn = 30; po.big_pct = 3; po.bigmax = 200; po.square = sym; Pat P = gen_pat(r, po); Knob kn = gen_knob(r); I n = (I)P.n, m = (I)P.m; size_t nz = P.nnz(), al = O::rec((I)nz, m, n); Arr<I> A(al, 0x33), p(P.p); for (size_t k = 0; k < nz; k++) A[k] = (I)P.i[k]; int spoil = r.pct(50) ? (int)r.range(1, 8) : 0; bool nA = false, np = false;
        if (spoil == 1) nA = true; if (spoil == 2) np = true; if (spoil == 3) m = (I)-(some<I>(r, false) + 1); if (spoil == 4) n = (I)-(some<I>(r, false) + 1); if (spoil == 5) p[P.n] = (I)-(some<I>(r, false) + 1); if (spoil == 6) p[0] = (I)some<I>(r, false) + (P.n == 0 ? 0 : 1); if (spoil == 7) al = r.below(nz + 1); if (spoil == 8 && nz) A[r.below(nz)] = (I)(r.pct(50) ? -1 - some<I>(r, false) : m + some<I>(r, false));
        if (sym && (spoil == 3)) m = n;
        if (spoil == 6 && !sym) {} for (int k = 0; k < COLAMD_STATS; k++) st[k] = (I)-99;
        if (sym) { Arr<I> q(P.n + 1); O::sym(n, nA ? NULL : A.a, np ? NULL : p.a, q, kn.null ? NULL : kn.k, st, calloc, free); } else O::col(m, n, (I)al, nA ? NULL : A.a, np ? NULL : p.a, kn.null ? NULL : kn.k, st);
        how = fmt("a run (%d) on %s", spoil, P.str().c_str()); cnt("statistics of a run");
    }
    else
    {
        for (int k = 0; k < COLAMD_STATS; k++) st[k] = (I)some<I>(r, false); static const int S[] = { 0, 1, -1, -2, -3, -4, -5, -6, -7, -8, -9, -10 }; st[COLAMD_STATUS] = S[r.below(12)]; if (st[COLAMD_STATUS] <= -3) { st[COLAMD_INFO1] = (I)some<I>(r, true); st[COLAMD_INFO2] = (I)some<I>(r, true); }
        how = "statistics made up"; cnt("statistics made up");
    }
    how += ":"; for (int k = 0; k < 7; k++) how += fmt(" %ld", (long)st[k]); c.desc = full + " of " + how; vector<int64_t> before = st.vec(); string t;
    if (!capture(c, full.c_str(), [&]() { if (sym) O::sym_report(st); else O::col_report(st); }, t)) return;
    if (st.vec() != before) { c.fail("report:changed", "%s changes the statistics", full.c_str()); return; }
    string l = lower(t); int64_t s = st[COLAMD_STATUS], i1 = st[COLAMD_INFO1], i2 = st[COLAMD_INFO2], i3 = st[COLAMD_INFO3]; cnt(fmt("status %ld", (long)s)); if (!has(l, nm) || has(l, sym ? "colamd" : "symamd")) { c.fail("report:name", "%s names the method as in '%s'", full.c_str(), shown(t).c_str()); return; }
    bool err = has(l, "error"), okw = has(l, "ok."); if (err != (s < 0) || okw != (s >= 0)) { c.fail("report:verdict", "%s reports status %ld as '%s'", full.c_str(), (long)s, shown(t).c_str()); return; }
    vector<int64_t> want; vector<string> v; const char* word = ""; const char* word2 = "";
    if (s >= 0) { if (s == 1) { want = { i3, i2, i1 }; word = "unsorted or duplicate"; } want.push_back(st[COLAMD_DENSE_ROW]); want.push_back(st[COLAMD_DENSE_COL]); want.push_back(st[COLAMD_DEFRAG_COUNT]); v = values(t); if (s == 0 && has(l, "unsorted or duplicate")) { c.fail("report:jumbled", "%s calls a sorted matrix unsorted: '%s'", full.c_str(), shown(t).c_str()); return; } }
    else
    {
        switch (s) { case -1: word = "array a"; word2 = "not present"; break; case -2: word = "array p"; word2 = "not present"; break; case -3: word = "number of rows"; want = { i1 }; break; case -4: word = "number of columns"; want = { i1 }; break; case -5: word = "number of nonzero"; want = { i1 }; break; case -6: word = "must be zero"; want = { 0, i1 }; break; case -7: word = "too small"; want = { i1, i2 }; break; case -8: word = "negative number of nonzero"; want = { i1, i2 }; break; case -9: word = "out of bounds"; want = { i2, 0, i3 - 1, i1 }; break; case -10: word = "out of memory"; break; default: c.fail("report:status", "%s %ld", full.c_str(), (long)s); return; }
        size_t k = l.find("error"); v = integers(t.substr(k));
    }
    if (!has(l, word) || !has(l, word2)) { c.fail(fmt("report:words:%ld", (long)-s), "%s reports status %ld as '%s'", full.c_str(), (long)s, shown(t).c_str()); return; }
    for (size_t q = 0; q < want.size(); q++) { cnt("numbers compared"); if (q >= v.size() || v[q] != fmt("%ld", (long)want[q])) { c.fail(fmt("report:number:%ld", (long)s), "%s shows %s instead of %ld (number %zu): %s", full.c_str(), q < v.size() ? v[q].c_str() : "nothing", (long)want[q], q, shown(t).c_str()); return; } }
    if (v.size() != want.size()) c.fail("report:extra", "%s shows %zu numbers instead of %zu: %s", full.c_str(), v.size(), want.size(), shown(t).c_str());
    Hash h; for (int k = 0; k < 7; k++) h.add((uint64_t)st[k]); h.add(sym); c.sig(h.h);
}
//------------------------------------------------------------------------------
// what the analysis shows at a print level is the report of its ordering
static void analysis(Ctx& c)
{
    Rng& r = c.rng; SuiteSparse_config.printf_func = put; if (SL(SLIP_initialize()) != SLIP_OK) { c.fail("init", "no session"); return; }
    SLIP_options* o = SL(SLIP_create_default_options()); o->order = (SLIP_col_order)r.below(3); o->print_level = (int)r.range(0, 4); GenOpt g; g.maxn = 20; g.big_pct = 0; rare_large(r, g, 40, 30, 60); MatZ M = gen_square(r, g); int64_t n = M.n; SLIP_matrix* A = mk_csc(M, Q(1)); SLIP_LU_analysis* S = NULL;
    c.desc = fmt("SLIP_LU_analyze, order %d, level %d, n=%ld p=", (int)o->order, o->print_level, (long)n); for (auto v : M.p) c.desc += fmt("%ld,", (long)v); c.desc += " i="; for (auto v : M.i) c.desc += fmt("%ld,", (long)v);
    g_text.clear(); g_calls = 0; SLIP_info st = SL(SLIP_LU_analyze(&S, A, o)); string t = g_text; cnt("analyses");
    if (st != SLIP_OK) c.fail("analyze", "status %d", (int)st);
    else if (o->print_level == 0 || o->order == SLIP_NO_ORDERING) { if (o->print_level == 0 && !t.empty()) c.fail("analyze:print", "prints '%s' at level 0", shown(t).c_str()); }
    else
    {
        vector<int64_t> q; string want; g_text.clear(); Arr<LL> p(M.p), i(M.i);
        if (o->order == SLIP_AMD) { Arr<LL> P(n); double F[AMD_INFO]; amd_l_order(n, p, i, P, NULL, F); amd_l_info(F); want = g_text; q = P.vec(); }
        else { size_t al = colamd_l_recommended(M.nnz(), n, n); Arr<LL> W(al, 0); for (int64_t k = 0; k < M.nnz(); k++) W[k] = M.i[k]; LL s[COLAMD_STATS]; colamd_l(n, n, al, W, p, NULL, s); colamd_l_report(s); want = g_text; q.assign(p.a, p.a + n); }
        if (o->order != SLIP_AMD) { size_t k = want.rfind("garbage"); if (k != string::npos) want = want.substr(0, want.rfind('\n', k)); }     // their number depends on the workspace
        if (t.find(want) == string::npos) c.fail("analyze:report", "at level %d the analysis shows '%s' instead of '%s'", o->print_level, shown(t).c_str(), shown(want).c_str());
        for (int64_t k = 0; k < n; k++) if (S->q[k] != q[k]) { c.fail("analyze:order", "the ordering is not the one reported"); break; }
        cnt("analyses with a report"); Hash h; h.adds(c.desc); c.sig(h.h);
    }
    SL(SLIP_LU_analysis_free(&S, o)); mfree(A); { SlipMode sm; SLIP_free(o); } SL(SLIP_finalize());
}
void run_case(Ctx& c)
{
    Rng& r = c.rng;
    for (int k = 0; k < 20 && !c.failed; k++) switch (r.below(8)) { case 0: info<int>(c); break; case 1: info<LL>(c); break; case 2: control<int>(c); break; case 3: control<LL>(c); break; case 4: case 5: report<int>(c); break; case 6: report<LL>(c); break; default: if (r.pct(25)) analysis(c); else report<LL>(c); }
}

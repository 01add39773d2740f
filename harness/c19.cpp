// C19: what is printed, when, and through which channel.
#define PROG_MAIN
#include "prog.hpp"
#include "std.hpp"
#include <ctype.h>
void harness_init() {}
static string shown(const string& s) { string t; for (char ch : s.substr(0, 160)) t += ch == '\n' ? string("\\n") : string(1, ch); return t; }

//------------------------------------------------------------------------------
// 1. the text of the matrix checker
//------------------------------------------------------------------------------
struct Tok { bool sp = false; int kind = 0; Q q; string s; };
static bool number(const string& t, Tok& o)
{
    o.s = t; string u; for (char ch : t) u += (char)tolower((unsigned char)ch);
    size_t k = 0; bool neg = false; if (u[k] == '-' || u[k] == '+') { neg = u[k] == '-'; k++; }
    string b = u.substr(k); if (b.size() && b[0] == '@') b = b.substr(1, b.size() > 1 ? b.size() - 2 : 0);
    if (b == "inf" || b == "infinity") { o.sp = true; o.kind = neg ? SP_NINF : SP_PINF; return true; }
    if (b == "nan") { o.sp = true; o.kind = SP_NAN; return true; }
    if (b.empty() || !isdigit((unsigned char)b[0])) return false;
    Z num = 0, den = 1; size_t i = 0; string dig; int64_t frac = 0, ex = 0; bool dot = false;
    for (; i < b.size() && (isdigit((unsigned char)b[i]) || (b[i] == '.' && !dot)); i++) { if (b[i] == '.') dot = true; else { dig += b[i]; if (dot) frac++; } }
    if (mpz_set_str(num.get_mpz_t(), dig.c_str(), 10)) return false;
    if (i < b.size() && b[i] == '/' && !dot) { string d = b.substr(i + 1); if (d.empty() || mpz_set_str(den.get_mpz_t(), d.c_str(), 10) || den == 0) return false; i = b.size(); }
    else if (i < b.size() && b[i] == 'e') { ex = atol(b.c_str() + i + 1); i = b.size(); }
    if (i < b.size() && (b[i] == ',' || b[i] == ':' || b[i] == ')' || b[i] == ';') && i + 1 == b.size()) i++;
    if (i != b.size()) return false;
    Z p; ex -= frac; mpz_ui_pow_ui(p.get_mpz_t(), 10, (unsigned long)(ex < 0 ? -ex : ex)); if (ex < 0) den *= p; else num *= p;
    o.q = Q(num, den); o.q.canonicalize(); if (neg) o.q = -o.q;
    return true;
}
static vector<Tok> numbers(const string& s)
{
    vector<Tok> v; size_t i = 0;
    while (i < s.size())
    {
        while (i < s.size() && (isspace((unsigned char)s[i]) || strchr(":,;()[]=", s[i]))) i++;
        size_t j = i; while (j < s.size() && !isspace((unsigned char)s[j]) && !strchr(":,;()[]=", s[j])) j++;
        Tok t; if (j > i && number(s.substr(i, j - i), t)) v.push_back(t);
        i = j;
    }
    return v;
}
struct Want { Q q; int sp = 0; double tol = 0; const char* what = ""; };
static bool same(const Tok& t, const Want& w, int64_t prec)
{
    if (t.sp || w.sp) return t.sp && t.kind == w.sp;
    if (w.tol == 0) return t.q == w.q;
    Q d = abs(t.q - w.q), lim; Z p; mpz_ui_pow_ui(p.get_mpz_t(), 10, (unsigned long)prec); lim = Q(Z(1), p * 2); lim.canonicalize(); lim *= Q(101, 100);
    return d <= lim || d <= abs(w.q) * Q(1, 100000);
}
static void text_case(Ctx& c)
{
    Rng& r = c.rng; if (SL(SLIP_initialize()) != SLIP_OK) { c.fail("init", "no session"); return; }
    SLIP_kind k = (SLIP_kind)r.below(3); SLIP_type ty = (SLIP_type)r.below(5); int64_t m = r.pct(8) ? 0 : r.range(1, 7), n = r.pct(8) ? 0 : r.range(1, 7); if (r.pct(15)) { m = r.range(5, 20); n = r.range(5, 20); }
    SLIP_options* o = SL(SLIP_create_default_options()); ZooOpt z; z.vm = r.pct(15) ? 4 : (int)r.below(4); if (r.pct(10)) z.density = 0;
    SLIP_matrix* A = mk_zoo(r, k, ty, m, n, o, z); static const int PR[] = {2, 5, 10, 24, 53, 64, 128, 300};
    if (!A) { c.fail("alloc", "no matrix"); return; }
    c.desc = zoo_str(A); int64_t nz = zoo_nz(A); uint64_t d0 = mdigest(A);
    // what should be seen
    vector<Want> head, body; auto in = [&](vector<Want>& v, int64_t x, const char* nm) { Want w; mpz_set_si(mpq_numref(w.q.get_mpq_t()), x); w.what = nm; v.push_back(w); };
    in(head, m, "number of rows"); in(head, n, "number of columns"); in(head, nz, "number of entries"); in(head, A->nzmax, "nzmax"); { Want w; w.q = scale_of(A); w.what = "scale"; head.push_back(w); }
    vector<int64_t> line_end; // index into body after each line
    auto val = [&](int64_t e) { Want w; w.sp = stored(A, e, w.q); w.tol = ty == SLIP_FP64 || ty == SLIP_MPFR; w.what = "value"; if (!w.sp) w.q.canonicalize(); body.push_back(w); line_end.push_back((int64_t)body.size()); };
    if (k == SLIP_TRIPLET) for (int64_t e = 0; e < nz; e++) { in(body, A->i[e], "row"); in(body, A->j[e], "column"); val(e); }
    else for (int64_t j = 0; j < n; j++)
    {
        in(body, j, "column"); line_end.push_back((int64_t)body.size());
        for (int64_t e = k == SLIP_CSC ? A->p[j] : j * m; e < (k == SLIP_CSC ? A->p[j + 1] : (j + 1) * m); e++) { in(body, k == SLIP_CSC ? A->i[e] : e - j * m, "row"); val(e); }
    }
    bool bad = r.pct(20); int64_t save = 0; int what = -1;      // an invalid matrix
    if (bad) { if (k == SLIP_DENSE || nz == 0) { what = 0; save = A->m; A->m = -1; } else if (k == SLIP_CSC && r.pct(40)) { what = 1; save = A->p[0]; A->p[0] = 1; } else { what = 2; save = A->i[nz - 1]; A->i[nz - 1] = r.pct(50) ? -1 : m; } }
    static const int LV[] = {0, 1, 2, 3, -1, 4, 100}; SLIP_info first = SLIP_OK;
    for (int lv : LV)
    {
        o->print_level = lv; o->prec = PR[r.below(8)]; int64_t calls = g_sink.calls; g_sink.text.clear(); g_sink.keep = true;
        bool off = r.pct(10); SuiteSparse_config.printf_func = off ? NULL : sink_printf;
        g_std.begin(); SLIP_info st = SL(SLIP_matrix_check(A, o)); string raw = g_std.end(); g_sink.keep = false; calls = g_sink.calls - calls; string txt = g_sink.text; cnt("checker calls");
        if (!raw.empty()) c.fail("text:bypass", "SLIP_matrix_check at level %d wrote '%s' directly; %s", lv, shown(raw).c_str(), c.desc.c_str());
        if (lv == 0) first = st; else if (st != first) c.fail("text:status", "SLIP_matrix_check returned %d at level 0, %d at level %d; %s", (int)first, (int)st, lv, c.desc.c_str());
        if (lv == 0 && st != (bad ? SLIP_INCORRECT_INPUT : SLIP_OK)) c.fail("text:verdict", "SLIP_matrix_check returned %d; %s", (int)st, c.desc.c_str());
        if (lv <= 0 && calls) c.fail("text:quiet", "SLIP_matrix_check printed '%s' at level %d; %s", shown(txt).c_str(), lv, c.desc.c_str());
        if (bad) { if (lv >= 1 && !off && txt.empty()) c.fail("text:error", "SLIP_matrix_check found the matrix invalid without saying so at level %d; %s", lv, c.desc.c_str()); continue; }
        if (lv == 1 && calls) c.fail("text:terse", "SLIP_matrix_check printed '%s' for a valid matrix at level 1; %s", shown(txt).c_str(), c.desc.c_str());
        if (lv < 2 || off) continue;
        // kind and type are named
        string low; for (char ch : txt.substr(0, txt.find('\n'))) low += (char)tolower((unsigned char)ch);
        static const char* KN[] = {"csc", "triplet", "dense"}; static const char* TN[] = {"mpz", "mpq", "mpfr", "int64", "double"};
        if (low.find(KN[k]) == string::npos || (low.find(TN[ty]) == string::npos && !(ty == SLIP_FP64 && low.find("fp64") != string::npos))) c.fail("text:head", "the checker's first line '%s' does not name the format %s/%s", shown(low).c_str(), KIND[k], TYPE[ty]);
        vector<Tok> t = numbers(txt); size_t p = 0; bool cut = false;
        auto cmp = [&](const vector<Want>& w, size_t count) -> bool
        {
            for (size_t q = 0; q < count; q++, p++)
            {
                if (p >= t.size()) { c.fail("text:missing", "the checker's text ends before the %s number %zu at level %d; %s", w[q].what, q, lv, c.desc.c_str()); return false; }
                if (!same(t[p], w[q], ty == SLIP_MPFR ? o->prec : 6)) { c.fail(string("text:wrong:") + w[q].what + ":" + KIND[k] + "/" + TYPE[ty], "at level %d the checker shows '%s' for the %s (number %zu); %s", lv, t[p].s.substr(0, 60).c_str(), w[q].what, q, c.desc.c_str()); return false; }
            }
            return true;
        };
        if (!cmp(head, head.size())) continue;
        size_t left = t.size() - p, show = body.size(); cnt("texts read"); cnt("numbers compared", (int64_t)t.size());
        if (lv == 2 && line_end.size() > 30)
        {   // terse: the first 30 lines
            size_t L = 0; while (L < line_end.size() && (size_t)line_end[L] < left) L++; size_t lines = left == 0 ? 0 : L + 1;
            if (lines < 29 || lines > 33 || lines > line_end.size()) { c.fail("text:limit", "at level 2 the checker shows %zu lines of %zu; %s", lines, line_end.size(), c.desc.c_str()); continue; }
            show = left; cut = true; cnt("texts cut");
        }
        if (!cmp(body, show)) continue;
        if (p != t.size()) c.fail("text:extra", "at level %d the checker shows %zu numbers too many (%s); %s", lv, t.size() - p, t[p].s.substr(0, 60).c_str(), c.desc.c_str());
        (void)cut;
    }
    if (what == 0) A->m = save; else if (what == 1) A->p[0] = save; else if (what == 2) A->i[nz - 1] = save;
    if (mdigest(A) != d0) c.fail("text:changed", "printing changed the matrix; %s", c.desc.c_str());
    c.sig(mix64(d0) ^ (uint64_t)k * 31 ^ (uint64_t)ty); mfree(A); { SlipMode sm; SLIP_free(o); } SL(SLIP_finalize());
}
//------------------------------------------------------------------------------
// 2. one workload at several levels: what is computed is the same, with failures
//------------------------------------------------------------------------------
struct Flow { Hash h; vector<int> st; int64_t calls = 0; int64_t allocs = 0; };
static Flow flow(Ctx& c, uint64_t seed, int level, int chan, int64_t fail_at, string* raw, string* where)
{
    Flow f; Rng r(seed); g_tr.live.clear(); g_tr.reset(); SuiteSparse_config.printf_func = chan == 0 ? sink_printf : chan == 1 ? NULL : printf;
    if (slip_init_tracked() != SLIP_OK) { c.fail("init", "no session"); return f; }
    SLIP_options* o = SL(SLIP_create_default_options()); o->order = (SLIP_col_order)r.below(3); o->pivot = (SLIP_pivot)r.below(6); o->tol = gen_tol(r); o->check = r.pct(50); static const int P[] = {2, 24, 53, 64, 128, 256}; o->prec = P[r.below(6)]; o->round = (mpfr_rnd_t)r.below(4); o->print_level = level;
    SLIP_options* q = o; if (r.pct(15)) { if (level <= 0) q = NULL; else { SLIP_options* e = SL(SLIP_create_default_options()); *o = *e; o->print_level = level; SlipMode sm; SLIP_free(e); } }     // no options means the default ones
    GenOpt g; g.maxn = r.pct(20) ? 25 : 8; g.big_pct = 0; MatZ M = gen_square(r, g); int64_t n = M.n; Q as = gen_scale(r), bs = gen_scale(r); int64_t nrhs = r.range(0, 3); vector<Z> bv = gen_rhs(r, n, nrhs);
    SLIP_matrix *A = mk_csc(M, as), *b = mk_dense(bv, n, nrhs, bs), *L = NULL, *U = NULL, *rho = NULL, *x = NULL; SLIP_LU_analysis* S = NULL; int64_t* pinv = NULL;
    ZooOpt zo; zo.vm = (int)r.below(4); SLIP_matrix* Z1 = mk_zoo(r, (SLIP_kind)r.below(3), (SLIP_type)r.below(5), r.range(0, 6), r.range(0, 6), NULL, zo), *C = NULL;
    if (r.pct(15) && M.nnz() > 0) A->i[r.below(M.nnz())] = r.pct(50) ? -1 : n + 2;       // an invalid system
    bool valid = true; for (int64_t e = 0; e < M.nnz(); e++) if (A->i[e] < 0 || A->i[e] >= n) valid = false;
    int steps = (int)r.range(3, 9); vector<int> plan; for (int k = 0; k < steps; k++) plan.push_back((int)r.below(16)); vector<uint64_t> sub; for (int k = 0; k < steps; k++) sub.push_back(r.next());
    g_tr.nalloc = 0; if (fail_at >= 0) { g_tr.inject = true; g_tr.fail_at = fail_at; g_tr.fail_n = r.pct(50) ? 1 : 1 << 20; }
    int64_t c0 = g_sink.calls; g_std.begin();
    for (int k = 0; k < steps; k++)
    {
        Rng s(sub[k]); SLIP_info st = SLIP_OK; int64_t before = g_sink.calls; string nm;
        auto freshS = [&]() { mfree(L); mfree(U); mfree(rho); vfree(pinv); pinv = NULL; };
        switch (plan[k])
        {
            case 0: nm = "SLIP_matrix_check"; st = SL(SLIP_matrix_check(s.pct(50) ? A : Z1, q)); break;
            case 1: nm = "SLIP_matrix_copy"; { mfree(C); SLIP_kind kk = (SLIP_kind)s.below(3); SLIP_type tt = (SLIP_type)s.below(5); st = SL(SLIP_matrix_copy(&C, kk, tt, s.pct(60) || !valid ? Z1 : A, q)); f.h.add(st == SLIP_OK ? mdigest(C, false) : 0); } break;
            case 2: case 3: nm = "SLIP_LU_analyze"; freshS(); sfree(S); st = SL(SLIP_LU_analyze(&S, A, q)); f.h.add(st == SLIP_OK ? sdigest(S, n) : 0); break;
            case 4: case 5: nm = "SLIP_LU_factorize"; freshS(); if (!S) st = SL(SLIP_LU_analyze(&S, A, q)); if (st == SLIP_OK && S && valid) { st = SL(SLIP_LU_factorize(&L, &U, &rho, &pinv, A, S, q)); f.h.add(st == SLIP_OK ? mdigest(L, false) + mdigest(U, false) + mdigest(rho, false) + idigest(pinv, n) : 0); } break;
            case 6: case 7: nm = "SLIP_LU_solve"; mfree(x); st = SL(SLIP_LU_solve(&x, b, A, L, U, rho, S, pinv, q)); f.h.add(st == SLIP_OK ? mdigest(x, false) : 0); break;
            case 8: case 9: nm = "SLIP_backslash"; mfree(x); if (valid) { SLIP_type tt = s.pct(33) ? SLIP_MPQ : s.pct(50) ? SLIP_MPFR : SLIP_FP64; st = SL(SLIP_backslash(&x, tt, A, b, q)); f.h.add(st == SLIP_OK ? mdigest(x, false) : 0); } break;
            case 10: nm = "SLIP_matrix_check(NULL)"; st = SL(SLIP_matrix_check(NULL, q)); break;
            case 11: nm = "SLIP_backslash(NULL)"; mfree(x); st = SL(SLIP_backslash(&x, SLIP_MPQ, s.pct(50) ? NULL : b, s.pct(50) ? NULL : Z1->kind == SLIP_CSC ? b : Z1, q)); break;
            case 12: nm = "SLIP_matrix_copy(bad)"; mfree(C); st = SL(SLIP_matrix_copy(&C, (SLIP_kind)s.below(3), (SLIP_type)s.below(5), NULL, q)); break;
            case 13: nm = "SLIP_matrix_allocate"; { SLIP_matrix* T = NULL; st = SL(SLIP_matrix_allocate(&T, (SLIP_kind)s.below(3), (SLIP_type)s.below(5), s.range(-1, 5), s.range(-1, 5), s.range(-1, 9), false, true, q)); mfree(T); } break;
            case 14: nm = "SLIP_backslash(b)"; mfree(x); if (valid) st = SL(SLIP_backslash(&x, SLIP_MPQ, A, Z1, q)); f.h.add(st == SLIP_OK ? mdigest(x, false) : 0); break;
            default: nm = "SLIP_matrix_nnz"; st = (SLIP_info)std::min<int64_t>(0, SL(SLIP_matrix_nnz(s.pct(20) ? NULL : Z1, q))); break;
        }
        f.st.push_back((int)st); f.h.add((uint64_t)(int64_t)st); cnt(fmt("flow:%s", st == SLIP_OK ? "ok" : st == SLIP_OUT_OF_MEMORY ? "out of memory" : st == SLIP_SINGULAR ? "singular" : st == SLIP_INCORRECT_INPUT ? "incorrect input" : "other"));
        if (g_sink.calls != before && where->empty()) *where = nm + fmt(" (status %d)", (int)st);
    }
    *raw = g_std.end(); f.calls = g_sink.calls - c0; g_tr.inject = false; f.allocs = g_tr.nalloc;
    mfree(A); mfree(b); mfree(L); mfree(U); mfree(rho); mfree(x); mfree(Z1); mfree(C); sfree(S); vfree(pinv); { SlipMode sm; SLIP_free(o); } slip_fini(); g_tr.live.clear(); g_tr.reset();
    c.desc = fmt("n=%ld nnz=%ld order=%d steps=%d", (long)n, (long)M.nnz(), 0, steps); c.sig(hash_mat(M) ^ seed);
    return f;
}
static void flow_case(Ctx& c)
{
    uint64_t seed = c.rng.next(); string raw, where; int64_t fail_at = -1;
    Flow a = flow(c, seed, 0, 0, -1, &raw, &where); if (c.failed) return;
    auto quiet = [&](const Flow& f) { if (f.calls) c.fail("flow:quiet", "%s printed at level 0; %s", where.c_str(), c.desc.c_str()); };
    auto direct = [&](const char* how) { if (!raw.empty()) c.fail("flow:bypass", "'%s' was written directly %s; %s", shown(raw).c_str(), how, c.desc.c_str()); };
    quiet(a); direct("at level 0");
    if (c.rng.pct(40) && a.allocs > 0) { fail_at = c.rng.below(a.allocs); where.clear(); a = flow(c, seed, 0, 0, fail_at, &raw, &where); quiet(a); direct("at level 0 when out of memory"); cnt("flows out of memory"); }
    { where.clear(); int lv = c.rng.pct(50) ? 0 : -1; Flow b = flow(c, seed, lv, 2, fail_at, &raw, &where); direct("at level 0 with printf"); if (b.h.h != a.h.h && lv == 0) c.fail("flow:results", "the results depend on the print function; %s", c.desc.c_str()); }
    for (int lv = 1; lv <= 4; lv++)
    {
        if (lv == 4 && c.rng.pct(50)) break;
        where.clear(); int chan = c.rng.pct(30) ? 1 : 0; int64_t fa = fail_at; if (fa >= 0) break;       // printing allocates, so the failing allocation is another one
        Flow b = flow(c, seed, lv, chan, fa, &raw, &where); cnt("loud flows"); cnt("print calls", b.calls);
        direct(chan == 1 ? "with printing disabled" : "instead of through the print function");
        if (chan == 1 && b.calls) c.fail("flow:disabled", "the print function was called while disabled; %s", c.desc.c_str());
        if (b.st != a.st || b.h.h != a.h.h) c.fail("flow:results", "the results at print level %d differ from those at level 0; %s", lv, c.desc.c_str());
    }
    if (fail_at >= 0) { int lv = (int)c.rng.range(1, 3), chan = c.rng.pct(50); where.clear(); Flow b = flow(c, seed, lv, chan, c.rng.below(a.allocs + 20), &raw, &where); direct("when out of memory"); if (chan == 1 && b.calls) c.fail("flow:disabled", "the print function was called while disabled; %s", c.desc.c_str()); }
}
//------------------------------------------------------------------------------
// 3. random programs: quiet, or loud through the print function only
//------------------------------------------------------------------------------
static void prog_case(Ctx& c)
{
    Rng& r = c.rng; Prog p(c); int mode = (int)r.below(3); p.prints = mode != 0; p.maxn = 8; int n = (int)r.range(15, 50); string bad;
    g_std.begin();
    if (p.open(r.pct(25)))
    {
        SuiteSparse_config.printf_func = mode == 2 ? NULL : mode == 0 && r.pct(40) ? printf : sink_printf; int64_t c0 = g_sink.calls;
        for (int k = 0; k < n; k++) { p.step(); if (mode == 0 && g_sink.calls != c0 && bad.empty()) bad = p.last; }
        if (mode == 2 && g_sink.calls != c0) bad = "something";
        p.close(); if (mode != 1 && g_sink.calls != c0 && bad.empty()) bad = p.last; cnt("print calls", g_sink.calls - c0);
    }
    string raw = g_std.end();
    if (!bad.empty()) c.fail(mode == 0 ? "prog:quiet:" + bad : string("prog:disabled"), "%s printed %s; history %s", bad.c_str(), mode == 0 ? "at level 0" : "while printing was disabled", p.trace.c_str());
    if (!raw.empty()) c.fail(fmt("prog:bypass:%d", mode), "'%s' was written directly; history %s", shown(raw).c_str(), p.trace.c_str());
    cnt(mode == 0 ? "quiet programs" : mode == 1 ? "loud programs" : "disabled programs"); cnt("program calls", p.calls); c.desc = p.trace.substr(0, 200); c.sig(p.shape.h);
    g_tr.live.clear(); g_tr.reset();
}
// 4. the report functions of the orderings
static void* no_calloc(size_t, size_t) { return NULL; }
template <class I> static void report_t(Ctx& c)
{
    Rng& r = c.rng; typedef OrdApi<I> O; PatOpt po; Pat P = gen_pat(r, po); I n = (I)P.n; Ctl t = gen_ctl(r); Knob kn = gen_knob(r); double info[AMD_INFO]; Arr<I> p(P.p), i(P.i), perm(n + 1), st(COLAMD_STATS), cp(P.p); size_t al = O::rec((I)P.nnz(), n, n); Arr<I> W(al); for (int64_t k = 0; k < P.nnz(); k++) W[k] = (I)P.i[k];
    // every way to be told that the input is bad, or odd
    int fault = r.pct(40) ? -1 : (int)r.below(12); I nr = n, nc = n, alen = (I)W.n; bool nullA = false, nullp = false, oom = false;
    int64_t k = P.nnz() ? r.below(P.nnz()) : 0, j = n ? r.below(n) : 0;
    switch (fault)
    {
        case 0: if (P.nnz()) { i[k] = -1; W[k] = -1; } break;
        case 1: if (P.nnz()) { i[k] = n; W[k] = n; } break;
        case 2: if (n) p[j + 1] = cp[j + 1] = (I)(p[j] - 1 - (I)r.below(3)); break;      // a negative column length
        case 3: p[0] = cp[0] = 1; break;
        case 4: p[n] = cp[n] = -1; break;
        case 5: nr = -1; break;
        case 6: nc = -1; break;
        case 7: alen = (I)r.below(P.nnz() + 1); break;
        case 8: nullA = true; break;
        case 9: nullp = true; break;
        case 10: oom = true; break;
        case 11: if (P.nnz() > 1) { int64_t k2 = r.below(P.nnz()); i[k2] = i[k]; W[k2] = W[k]; } break;  // jumbled
    }
    cnt(fmt("report fault %d", fault));
    for (int chan = 0; chan < 3; chan++)
    {
        SuiteSparse_config.printf_func = chan == 0 ? sink_printf : chan == 1 ? NULL : printf; int64_t c0 = g_sink.calls; Arr<I> w2(W.vec()), cp2(cp.vec());
        g_std.begin(); O::amd(nc, nullp ? NULL : (I*)p, nullA ? NULL : (I*)i, perm, t.null ? NULL : t.c, info); int a = O::col(nr, nc, alen, nullA ? NULL : (I*)w2, nullp ? NULL : (I*)cp2, kn.null ? NULL : kn.k, st); (void)a; Arr<I> s2(COLAMD_STATS); O::sym(nc, nullA ? NULL : (I*)i, nullp ? NULL : (I*)p, perm, kn.null ? NULL : kn.k, s2, oom ? no_calloc : calloc, free); string raw = g_std.end();
        if (!raw.empty() || g_sink.calls != c0) c.fail("order:print", "an ordering printed; %s", P.str().c_str());
        g_std.begin(); O::amd_ctl(r.pct(20) ? NULL : t.c); O::amd_inf(r.pct(20) ? NULL : info); O::col_report(st); O::sym_report(s2); raw = g_std.end(); cnt("reports", 4);
        if (chan != 2 && !raw.empty()) c.fail("order:bypass", "a report function wrote '%s' directly; %s", shown(raw).c_str(), P.str().c_str());
        if (chan == 0)
        {   // each of the reports has something to say, and says it here
            for (int w = 0; w < 4; w++) { int64_t c1 = g_sink.calls; g_std.begin(); if (w == 0) O::amd_ctl(t.c); else if (w == 1) O::amd_inf(info); else if (w == 2) O::col_report(st); else O::sym_report(s2); string rw = g_std.end();
                if (g_sink.calls == c1) c.fail("order:silent", "report function %d prints nothing (colamd status %ld, symamd status %ld)", w, (long)st[3], (long)s2[3]);
                if (!rw.empty()) c.fail("order:bypass", "report function %d wrote '%s' directly (colamd status %ld)", w, shown(rw).c_str(), (long)st[3]); }
            cnt(fmt("colamd status %ld reported", (long)st[3])); cnt(fmt("symamd status %ld reported", (long)s2[3])); cnt(fmt("amd status %d reported", (int)info[AMD_STATUS]));
        }
        if (chan != 0 && g_sink.calls != c0) c.fail("order:disabled", "the report functions called a print function that is not configured");
    }
    c.desc = P.str(); c.sig(P.hash());
}
void run_case(Ctx& c)
{
    int k = (int)(c.id % 10);
    if (k < 4) text_case(c); else if (k < 7) flow_case(c); else if (k < 9) prog_case(c); else if (c.rng.pct(50)) report_t<int>(c); else report_t<LL>(c);
}

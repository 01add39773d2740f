// C29: orderings, conversions and checks of sparse matrices take work and memory in proportion to their input
#include "zoo.hpp"
#include "ord.hpp"
#include "steps.hpp"
void harness_init() {}
static void limit(Ctx& c, const char* key, double got, double base, double factor, double slack, const string& d)
{
    cntmax(string("permille ") + key, (int64_t)(1000 * std::max(0.0, got - slack) / std::max(base, 1.0)));
    if (getenv("VP_SHOW") && got > base * atof(getenv("VP_SHOW"))) printf("%s %g %g %g | %s\n", key, got, base, got / base, d.c_str());
    if (got > base * factor + slack) c.fail(key, "%s: %.0f, %.2f times the %.0f of the input; %s", key, got, got / std::max(base, 1.0), base, d.c_str());
}
//------------------------------------------------------------------------------
// conversions and checks of SLIP matrices
//------------------------------------------------------------------------------
static double bytes_of(const SLIP_matrix* A)
{
    int64_t nz = zoo_nz(A); double s = 0;
    for (int64_t k = 0; k < nz; k++) switch (A->type)
    {
        case SLIP_MPZ: s += 24 + 8.0 * (double)mpz_size(A->x.mpz[k]); break;
        case SLIP_MPQ: s += 48 + 8.0 * (double)(mpz_size(mpq_numref(A->x.mpq[k])) + mpz_size(mpq_denref(A->x.mpq[k]))); break;
        case SLIP_MPFR: s += 40 + 8.0 * (double)((A->x.mpfr[k]->_mpfr_prec + 63) / 64); break;
        default: s += 8;
    }
    return s + (A->kind == SLIP_CSC ? 8.0 * (double)(nz + A->n) : A->kind == SLIP_TRIPLET ? 16.0 * (double)nz : 0) + 300;
}
static SLIP_matrix* big_matrix(Rng& r, SLIP_kind kind, SLIP_type type, const SLIP_options* o)
{
    int64_t m, n, nz; int vm = r.pct(70) ? 0 : r.pct(50) ? 1 : 3;
    int64_t top = r.pct(50) ? 300 : 6000;
    if (kind == SLIP_DENSE) { m = r.range(1, 200); n = r.range(1, std::max<int64_t>(1, top / m)); if (r.pct(50)) std::swap(m, n); nz = m * n; }
    else { m = r.pct(15) ? r.range(1, 3) : r.range(1, top); n = r.pct(15) ? r.range(1, 3) : r.range(1, top); nz = r.pct(20) ? r.below(20) : r.range(0, top); }
    vector<std::pair<int64_t, int64_t>> e;
    if (kind != SLIP_DENSE)
    {
        if (nz > m * n / 2) nz = m * n / 2; int how = (int)r.below(4); set<std::pair<int64_t, int64_t>> s; int64_t dj = r.below(n), di = r.below(m);
        for (int64_t k = 0; k < nz; k++) { int64_t i = r.below(m), j = r.below(n); if (how == 1) j = dj; if (how == 2) i = di; if (how == 3 && r.pct(50)) j = dj; s.insert({j, i}); }
        e.assign(s.begin(), s.end()); nz = (int64_t)e.size();
        if (kind == SLIP_TRIPLET && r.pct(70)) r.shuffle(e);
        else if (r.pct(50)) for (size_t a = 0; a < e.size();) { size_t b = a; while (b < e.size() && e[b].first == e[a].first) b++; for (size_t k = b - 1; k > a; k--) std::swap(e[k], e[a + r.below(k - a + 1)]); a = b; }
    }
    SLIP_matrix* A = NULL; if (SL(SLIP_matrix_allocate(&A, kind, type, m, n, nz, false, true, o)) != SLIP_OK) return NULL;
    if (kind == SLIP_CSC) { for (int64_t j = 0; j <= n; j++) A->p[j] = 0; for (auto& v : e) A->p[v.first + 1]++; for (int64_t j = 0; j < n; j++) A->p[j + 1] += A->p[j]; }
    for (int64_t k = 0; k < (int64_t)e.size(); k++) { A->i[k] = e[k].second; if (kind == SLIP_TRIPLET) A->j[k] = e[k].first; }
    if (kind == SLIP_TRIPLET) A->nz = nz;
    int few = kind == SLIP_DENSE && r.pct(30) ? 96 : 0;          // entries left zero
    for (int64_t k = 0; k < nz; k++) if (!few) set_val(r, A, k, vm, MPFR_RNDN); else if (r.pct(100 - few)) set_val(r, A, k, vm, MPFR_RNDN); else switch (type) { case SLIP_MPFR: mpfr_set_zero(A->x.mpfr[k], 1); break; case SLIP_INT64: A->x.int64[k] = 0; break; case SLIP_FP64: A->x.fp64[k] = 0; break; default: break; }
    return A;
}
static void convert(Ctx& c)
{
    Rng& r = c.rng; Opt o = gen_opt(r, false); o.o->print_level = 0;
    SLIP_kind k1 = (SLIP_kind)r.below(3), k2 = (SLIP_kind)r.below(3); SLIP_type t1 = (SLIP_type)r.below(5), t2 = (SLIP_type)r.below(5);
    SLIP_matrix *A = big_matrix(r, k1, t1, o.o), *C = NULL;
    if (!A) { c.fail("allocate", "SLIP_matrix_allocate failed"); o.free(); return; }
    if (k2 == SLIP_DENSE && A->m * A->n > 40000) k2 = r.pct(50) ? SLIP_CSC : SLIP_TRIPLET;
    string d = fmt("%s to %s/%s", zoo_str(A).substr(0, 300).c_str(), KIND[k2], TYPE[t2]); c.desc = d;
    double dims = (double)(A->m + A->n) + 10, nz1 = (double)zoo_nz(A);
    { Work w; SLIP_info st = SL(SLIP_matrix_check(A, o.o)); double s = (double)w.steps(); if (st != SLIP_OK) c.fail("check", "SLIP_matrix_check returned %d for %s", (int)st, d.c_str()); cnt("checks");
      limit(c, "steps of check", s, nz1 * (k1 == SLIP_TRIPLET ? log2(nz1 + 2) / 4 + 1 : 1) + dims, 30, 2000, d); limit(c, "left by check", (double)w.left(), 0, 1, 0, d); limit(c, "peak of check", (double)w.peak(), 8 * dims + 24 * nz1, 3, 500, d); }
    Work w; SLIP_info st = SL(SLIP_matrix_copy(&C, k2, t2, A, o.o)); double s = (double)w.steps(), pk = (double)w.peak(), lf = (double)w.left();
    if (st != SLIP_OK) c.fail("copy", "SLIP_matrix_copy returned %d for %s", (int)st, d.c_str());
    else
    {
        double nz2 = (double)zoo_nz(C); cnt("copies"); cntmax("entries", (int64_t)std::max(nz1, nz2));
        limit(c, "steps of copy", s, nz1 + nz2 + dims, 400, 4000, d);
        double by = bytes_of(C); limit(c, "returned by copy", lf, by + 24 * nz2, 2, 2000, d);
        limit(c, "peak of copy", pk, bytes_of(A) + by + 8 * dims + 64 * (nz1 + nz2), 4, 4000, d);
        { Hash h; h.add(mdigest(A, false)); h.add(k2); h.add(t2); if (nz1 > 1) c.sig(h.h); }
        Work f; SL((SLIP_matrix_free(&C, o.o), 0)); limit(c, "steps of free", (double)f.steps(), nz2 + dims, 80, 1000, d);
    }
    mfree(A); o.free();
}
//------------------------------------------------------------------------------
// orderings
//------------------------------------------------------------------------------
static int64_t g_calls = 0, g_bytes = 0;
static void* my_calloc(size_t a, size_t b) { g_calls++; g_bytes += (int64_t)(a * b); return calloc(a, b); }
static const char* FAM[] = { "diagonal", "tridiagonal", "band", "tree", "grid", "arrow", "blocks", "forest of stars", "two or three per column", "twins", "circulant", "dense rows", "chains of cliques", "empty", "one triangle", "big clique and path" };
// steps per entry and column, at most, of the current code; they do not grow with the size except where dense rows stay
static double unit(int f, int64_t n, int which, bool dense)
{
    static const int U[16][3] = { {33, 32, 22}, {57, 45, 52}, {46, 91, 65}, {58, 62, 55}, {81, 85, 93}, {39, 28, 35}, {25, 24, 32}, {117, 35, 121}, {87, 93, 40}, {30, 36, 34}, {68, 117, 81}, {56, 39, 500}, {37, 39, 39}, {51, 27, 36}, {56, 62, 34}, {43, 36, 46} };
    if (f == 5 || f == 11) { if (!dense) return 3.0 * (double)std::min<int64_t>(n, 100000); if (n <= 300) return 3.0 * (double)n; }
    return U[f][which];
}
// symmetric-ish patterns, sorted or not
static Pat family(Rng& r, int f, int64_t n)
{
    Cols c(n); auto put = [&](int64_t i, int64_t j) { if (i >= 0 && j >= 0 && i < n && j < n) c[j].insert(i); }; auto sym = [&](int64_t i, int64_t j) { put(i, j); put(j, i); };
    switch (f)
    {
        case 0: for (int64_t j = 0; j < n; j++) put(j, j); break;
        case 1: for (int64_t j = 1; j < n; j++) sym(j, j - 1); break;
        case 2: { int64_t b = r.range(2, 5); for (int64_t j = 0; j < n; j++) for (int64_t i = j - b; i <= j; i++) sym(i, j); break; }
        case 3: for (int64_t j = 1; j < n; j++) sym(j, r.pct(50) ? r.below(j) : (j - 1) / 2); break;
        case 4: { int64_t w = (int64_t)sqrt((double)n); for (int64_t j = 0; j < n; j++) { if (j % w) sym(j, j - 1); if (j >= w) sym(j, j - w); } break; }
        case 5: { int64_t k = r.range(1, 3); for (int64_t t = 0; t < k; t++) { int64_t h = r.below(n); for (int64_t j = 0; j < n; j++) if (r.pct(95)) sym(h, j); } break; }
        case 6: { int64_t s = 0; while (s < n) { int64_t w = std::min<int64_t>(n - s, r.range(1, 9)); for (int64_t j = s; j < s + w; j++) for (int64_t i = s; i <= j; i++) sym(i, j); s += w; } break; }
        case 7: { int64_t s = 0; while (s < n) { int64_t w = std::min<int64_t>(n - s, r.range(5, 60)); for (int64_t j = s; j < s + w; j++) sym(s, j); s += w; } break; }
        case 8: for (int64_t j = 0; j < n; j++) { int64_t k = r.range(1, 2); put(j, j); for (int64_t t = 0; t < k; t++) put(std::min(n - 1, std::max<int64_t>(0, j + r.range(-30, 30))), j); } break;
        case 9: { int64_t b = r.range(3, 40); for (int64_t j = 0; j < n; j++) { int64_t g = j / b; for (int64_t i = g * b; i <= j; i++) sym(i, j); if (g) sym(g * b - 1, j); } break; }
        case 10: for (int64_t j = 0; j < n; j++) { sym(j, (j + 1) % n); sym(j, (j + 2) % n); } break;
        case 11: { int64_t k = r.range(1, 8); for (int64_t j = 1; j < n; j++) sym(j, j - 1); for (int64_t t = 0; t < k; t++) { int64_t h = r.below(n); for (int64_t j = 0; j < n; j++) if (r.pct(60)) put(h, j); } break; }
        case 12: { int64_t b = r.range(4, 12); for (int64_t j = 0; j < n; j++) for (int64_t i = j / b * b; i <= j; i++) { sym(i, j); } for (int64_t j = b; j < n; j += b) sym(j, j - 1); break; }
        case 13: break;
        case 14: for (int64_t j = 0; j < n; j++) { put(j, j); put(std::max<int64_t>(0, j - r.range(1, 20)), j); } break;
        case 15: { int64_t k = std::min<int64_t>(n, r.range(50, 150)); for (int64_t j = 0; j < k; j++) for (int64_t i = 0; i <= j; i++) sym(i, j); for (int64_t j = k; j < n; j++) sym(j, j - 1); break; }
    }
    if (r.pct(50)) { vector<int64_t> q = r.perm(n); Cols d(n); for (int64_t j = 0; j < n; j++) for (auto i : c[j]) d[q[j]].insert(q[i]); c.swap(d); }
    Pat P = pack(r, c, n, r.pct(30)); P.family = f; return P;
}
template <class I> static void order(Ctx& c)
{
    Rng& r = c.rng; int f = (int)r.below(16); int64_t n = r.pct(30) ? r.range(20, 300) : c.thorough && r.pct(30) ? r.range(3000, 30000) : r.range(300, 3000); Pat P = family(r, f, n);
    int64_t nz = P.nnz(); double base = (double)(n + nz); const char* nm = OrdApi<I>::name(); double S = sizeof(I);
    string d = fmt("%s, %s of order %ld, %ld entries%s", nm, FAM[f], (long)n, (long)nz, P.jumbled ? " jumbled" : ""); c.desc = d; cnt("orderings"); cntmax("order", n);
    { Hash h; h.add(P.hash()); h.add(sizeof(I)); if (nz) c.sig(h.h); }
    Arr<I> p(P.p), i(P.i), q(n); Arr<double> inf(AMD_INFO), ctl(AMD_CONTROL); OrdApi<I>::amd_def(ctl); bool dense = r.pct(70); if (!dense) ctl[AMD_DENSE] = -1;
    if (r.pct(30)) ctl[AMD_AGGRESSIVE] = 0;
    {
        Work w; int st = (int)OrdApi<I>::valid((I)n, (I)n, p, i); limit(c, "steps of amd_valid", (double)w.steps(), base, 12, 200, d);
        if (st != (P.jumbled ? AMD_OK_BUT_JUMBLED : AMD_OK)) c.fail("valid", "amd_valid returned %d", st);
    }
    {
        Work w; int st = (int)OrdApi<I>::amd((I)n, p, i, q, ctl, inf); double s = (double)w.steps();
        if (st != AMD_OK && st != AMD_OK_BUT_JUMBLED) { c.fail("amd", "amd_order returned %d", st); return; }
        limit(c, dense ? "steps of amd" : "steps of amd, dense kept", s, base * unit(f, n, 0, dense), 3, 3000, d);
        // the documented amount: 1.2 nz(A+A') + 9n integers, and a copy of the matrix if it is jumbled
        double aat = inf[AMD_NZ_A_PLUS_AT], doc = (floor(1.2 * aat) + 9.0 * (double)n + (P.jumbled ? (double)n + 1 + (double)std::max<int64_t>(nz, 1) : 0)) * S;
        if (fabs(inf[AMD_MEMORY] - doc) > 4 * S) c.fail("reported memory", "amd (%s) reports %.17g bytes, documented are %.17g; %s", nm, inf[AMD_MEMORY], doc, d.c_str());
        if ((double)w.peak() > doc + 4 * S) c.fail("memory", "amd (%s) used %ld bytes at once, documented are %.17g; %s", nm, (long)w.peak(), doc, d.c_str());
        if (w.left()) c.fail("left", "amd (%s) left %ld bytes", nm, (long)w.left());
        cntmax("amd memory permille of documented", (int64_t)(1000.0 * (double)w.peak() / std::max(doc, 1.0)));
        cnt("compactions", (int64_t)inf[AMD_NCMPA]);
    }
    {
        size_t al = OrdApi<I>::rec((I)nz, (I)n, (I)n); Arr<I> A(al), qq(P.p), st(COLAMD_STATS); for (int64_t k = 0; k < nz; k++) A[k] = (I)P.i[k];
        Arr<double> kn(COLAMD_KNOBS); OrdApi<I>::col_def(kn); if (r.pct(20)) kn[COLAMD_AGGRESSIVE] = 0;
        Work w; int ok = OrdApi<I>::col((I)n, (I)n, (I)al, A, qq, kn, st); double s = (double)w.steps();
        if (!ok) c.fail("colamd", "colamd failed");
        limit(c, "steps of colamd", s, base * unit(f, n, 1, true), 3, 3000, d);
        if (w.peak()) c.fail("colamd memory", "colamd (%s) allocated %ld bytes; %s", nm, (long)w.peak(), d.c_str());
        if ((double)al > 2.2 * (double)nz + 24.0 * (double)(n + 1) + 64) c.fail("colamd recommended", "colamd_recommended (%s) is %ld; %s", nm, (long)al, d.c_str());
    }
    {
        Arr<I> perm(n + 1), st(COLAMD_STATS), p2(P.p), i2(P.i); g_calls = g_bytes = 0; Work w;
        int ok = OrdApi<I>::sym((I)n, i2, p2, perm, NULL, st, my_calloc, free); double s = (double)w.steps(); if (!ok) c.fail("symamd", "symamd failed");
        limit(c, "steps of symamd", s, base * unit(f, n, 2, true), 3, 3000, d); cntmax("symamd allocations", g_calls);
        limit(c, "memory of symamd", (double)g_bytes, S * base, 30, 500, d);
    }
}
void run_case(Ctx& c)
{
    slip_init_tracked();
    if (c.rng.pct(50)) convert(c); else if (c.rng.pct(50)) order<int>(c); else order<LL>(c);
    c.sample(); SL((SLIP_finalize(), 0));
}

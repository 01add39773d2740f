// C17: fill of the orderings against exact greedy minimum degree and random ones.
#include "fill.hpp"
void harness_init() {}
static const int NSYM = 13, NCOL = 8;
static const char* SYM[] = { "grid5", "grid9", "grid3d", "band", "arrow", "random", "tree", "blocks", "geometric", "powerlaw", "densegrid", "twins", "uneven twins" };
static const char* COL[] = { "elements", "randomrows", "staircase", "sparsecols", "incidence", "boundedlp", "denserows", "twin columns" };
static Adj edges(int64_t n, const vector<std::pair<int64_t, int64_t>>& e)
{
    Adj g(n);
    for (auto& x : e) if (x.first != x.second) { g[x.first].push_back(x.second); g[x.second].push_back(x.first); }
    for (auto& v : g) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
    return g;
}
static Adj gen_sym(Rng& r, int f, int64_t n)
{
    vector<std::pair<int64_t, int64_t>> e;
    switch (f)
    {
        case 0: case 1: case 10: { int64_t w = std::max<int64_t>(3, (int64_t)(sqrt((double)n) * (0.6 + 0.4 * r.unit()))), h = n / w; n = w * h;
            for (int64_t y = 0; y < h; y++) for (int64_t x = 0; x < w; x++) { int64_t a = y * w + x;
                if (x + 1 < w) e.push_back({a, a + 1}); if (y + 1 < h) e.push_back({a, a + w});
                if (f == 1 && y + 1 < h) { if (x + 1 < w) e.push_back({a, a + w + 1}); if (x) e.push_back({a, a + w - 1}); } }
            if (f == 10) { int64_t k = r.range(1, 2); while (k--) { int64_t h = r.below(n); for (int64_t j = 0; j < n; j++) if (r.pct(80)) e.push_back({h, j}); } } break; }
        case 2: { int64_t w = std::max<int64_t>(3, (int64_t)cbrt((double)n)), h = w, d = n / (w * h); n = w * h * d;
            for (int64_t z = 0; z < d; z++) for (int64_t y = 0; y < h; y++) for (int64_t x = 0; x < w; x++) { int64_t a = (z * h + y) * w + x;
                if (x + 1 < w) e.push_back({a, a + 1}); if (y + 1 < h) e.push_back({a, a + w}); if (z + 1 < d) e.push_back({a, a + w * h}); } break; }
        case 3: { int64_t b = r.range(2, 6); for (int64_t j = 0; j < n; j++) for (int64_t k = 1; k <= b && j + k < n; k++) if (k == 1 || r.pct(90)) e.push_back({j, j + k}); break; }
        case 4: { int64_t h = r.range(1, 3); for (int64_t k = 0; k < h; k++) for (int64_t j = 0; j < n; j++) e.push_back({k, j}); for (int64_t j = h; j + 1 < n; j++) if (r.pct(70)) e.push_back({j, j + 1}); break; }
        case 5: { int64_t m = (int64_t)(n * (1.2 + 0.8 * r.unit())); while (m--) e.push_back({r.below(n), r.below(n)}); break; }
        case 6: { int how = (int)r.below(3); for (int64_t j = 1; j < n; j++) if (!r.pct(2)) e.push_back({j, how == 0 ? r.below(j) : how == 1 ? (j - 1) / 2 : std::max<int64_t>(0, j - r.range(1, 6))}); break; }
        case 7: { int64_t s = 0; while (s < n) { int64_t w = std::min<int64_t>(n - s, r.range(3, 9)); for (int64_t a = s; a < s + w; a++) for (int64_t b = a + 1; b < s + w; b++) e.push_back({a, b});
                if (s) { int64_t k = r.range(1, 3); while (k--) e.push_back({r.range(s, s + w - 1), r.below(s)}); } s += w; } break; }
        case 8: { vector<std::pair<double, double>> q(n); for (auto& t : q) t = {r.unit(), r.unit()}; double R = 6.5 / (M_PI * (double)n);
            for (int64_t a = 0; a < n; a++) for (int64_t b = a + 1; b < n; b++) { double x = q[a].first - q[b].first, y = q[a].second - q[b].second; if (x * x + y * y < R) e.push_back({a, b}); } break; }
        case 9: { vector<int64_t> t{0}; for (int64_t j = 1; j < n; j++) { int64_t k = r.range(1, 2); while (k--) { int64_t a = t[r.below(t.size())]; e.push_back({j, a}); t.push_back(a); } t.push_back(j); } break; }
        // each node of a mesh several times over: indistinguishable unknowns
        case 11: case 12: { int64_t k = f == 11 ? r.range(2, 5) : 3; Adj g = gen_sym(r, r.pct(50) ? 0 : 8, n / k); vector<int64_t> s(1, 0); int big = (int)r.range(6, 14); for (size_t j = 0; j < g.size(); j++) s.push_back(s.back() + (f == 11 ? k : r.pct(25) ? big : 1));
            for (size_t a = 0; a < g.size(); a++) { for (int64_t x = s[a]; x < s[a + 1]; x++) { for (int64_t y = x + 1; y < s[a + 1]; y++) e.push_back({x, y}); for (auto b : g[a]) for (int64_t y = s[b]; y < s[b + 1]; y++) e.push_back({x, y}); } } n = s.back(); break; }
    }
    return edges(n, e);
}
static Pat gen_rect(Rng& r, int f, int64_t n)
{
    vector<set<int64_t>> row;
    switch (f)
    {
        case 0: case 6: { int64_t w = std::max<int64_t>(3, (int64_t)sqrt((double)n)), h = n / w; n = w * h;      // elements of a mesh
            for (int64_t y = 0; y + 1 < h; y++) for (int64_t x = 0; x + 1 < w; x++) { int64_t a = y * w + x; row.push_back({a, a + 1, a + w, a + w + 1}); }
            if (f == 6) { int64_t k = r.range(1, 3); while (k--) { set<int64_t> s; for (int64_t j = 0; j < n; j++) if (r.pct(80)) s.insert(j); row.push_back(s); } } break; }
        case 1: { int64_t m = n + r.below(n); while (m--) { set<int64_t> s; int64_t k = r.range(1, 3); while (k--) s.insert(r.below(n)); row.push_back(s); } break; }
        case 2: { int64_t b = r.range(2, 6); for (int64_t j = 0; j < n; j++) { set<int64_t> s{j}; for (int64_t k = 0; k < b; k++) if (r.pct(60)) s.insert(std::min(n - 1, j + k)); row.push_back(s); } break; }
        case 3: { row.resize(2 * n); for (int64_t j = 0; j < n; j++) { int64_t k = r.range(1, 4); while (k--) row[r.below(2 * n)].insert(j); } break; }
        case 4: { Adj g = gen_sym(r, r.pct(50) ? 0 : 8, n); n = (int64_t)g.size(); for (int64_t a = 0; a < n; a++) for (auto b : g[a]) if (a < b) row.push_back({a, b}); break; }
        case 5: { int64_t b = r.range(5, 12); for (int64_t j = 0; j < n; j++) { set<int64_t> s{j}; int64_t B = j / b; for (int64_t k = 0; k < 3; k++) s.insert(std::min(n - 1, B * b + r.below(b))); if (r.pct(10)) s.insert(r.below(n)); row.push_back(s); } break; }
        case 7: { Pat B = gen_rect(r, r.pct(50) ? 0 : 2, n / 3); Cols cb = cols_of(B), d; int big = (int)r.range(5, 12); for (auto& s : cb) { int64_t k = r.pct(25) ? big : 1; while (k--) d.push_back(s); } return pack(r, d, B.m, false); }
    }
    Pat P; P.m = (int64_t)row.size(); P.n = n; Cols c(n);
    for (int64_t i = 0; i < P.m; i++) for (auto j : row[i]) c[j].insert(i);
    return pack(r, c, P.m, false);
}
static Pat relabel(Rng& r, const Pat& P, bool sym)
{
    auto q = r.perm(P.n); auto rp = sym ? q : r.perm(P.m); Cols c = cols_of(P), d(P.n);
    for (int64_t j = 0; j < P.n; j++) for (auto i : c[j]) d[q[j]].insert(rp[i]);
    return pack(r, d, P.m, false);
}
static double size_of(const Fill& f, int64_t n) { return f.lnz + (double)n; }
template <class I> static bool order(Ctx& c, int how, const Pat& P, vector<int64_t>& q, bool def)
{
    double ctl[AMD_CONTROL] = {0}, kn[COLAMD_KNOBS] = {0}; ctl[AMD_DENSE] = 10; ctl[AMD_AGGRESSIVE] = 0; kn[COLAMD_DENSE_ROW] = kn[COLAMD_DENSE_COL] = 10; kn[COLAMD_AGGRESSIVE] = 0;
    Arr<I> p(P.p), i(P.i), o(P.n + 1); int64_t n = P.n;
    if (how == 0) { if ((unsigned)OrdApi<I>::amd((I)n, p, i, o, def ? NULL : ctl, NULL) > AMD_OK_BUT_JUMBLED) { c.fail("status", "amd failed"); return false; } }
    else if (how == 1) { Arr<I> st(COLAMD_STATS); if (!OrdApi<I>::sym((I)n, i, p, o, def ? NULL : kn, st, calloc, free)) { c.fail("status", "symamd failed"); return false; } }
    else { size_t al = OrdApi<I>::rec((I)P.nnz(), (I)P.m, (I)n); Arr<I> A(al), st(COLAMD_STATS); for (int64_t k = 0; k < P.nnz(); k++) A[k] = (I)P.i[k];
        if (!OrdApi<I>::col((I)P.m, (I)n, (I)al, A, p, def ? NULL : kn, st)) { c.fail("status", "colamd failed"); return false; } for (int64_t k = 0; k < n; k++) o[k] = p[k]; }
    if (!is_perm(o.a, n)) { c.fail("perm", "not a permutation"); return false; }
    q.assign(o.a, o.a + n); return true;
}
// the same symmetric matrix, given by part of its entries (SYMAMD only looks below the diagonal), with or without the diagonal
static Pat part(Rng& r, const Pat& P, bool lower)
{
    Cols c = cols_of(P), d(P.n); bool diag = r.pct(50); int how = lower ? (r.pct(50) ? 0 : 3) : (int)r.below(4);
    for (int64_t j = 0; j < P.n; j++) { if (diag) d[j].insert(j); for (auto i : c[j]) if (how == 3 || (how == 0 ? i > j : how == 1 ? i < j : ((i > j) == (((i + j) * 2654435761ull >> 7) & 1)))) d[j].insert(i); }
    return pack(r, d, P.m, false);
}
// mean over the matrices of a case, per routine: the margin is far above the spread of the ratios and far below the damage of a wrong degree
static double margin(int how, const string& nm) { return nm == "tree" ? 1.0 : nm == "arrow" ? 1.015 : nm == "boundedlp" || nm == "uneven twins" ? 1.10 : nm == "twin columns" ? 1.15 : nm == "band" || nm == "powerlaw" ? 1.025 : nm == "grid3d" || nm == "grid9" || nm == "grid5" || nm == "elements" ? 1.03 : 1.05; }
// one matrix: where columns or rows come in groups of different sizes a single choice made on an approximate degree can cost more
static double single(int how, const string& nm) { return nm == "twin columns" ? 2.0 : nm == "uneven twins" ? 1.7 : nm == "staircase" ? 1.6 : how == 2 ? 1.4 : 1.32; }
static void slip_route(Ctx& c, const char* nm, const Pat& P, const Adj& g, bool sym, double md)
{
    Rng& r = c.rng; int64_t n = P.n; if (n > 170 || P.m != n) return;
    Builder B(n, n); Cols cc = cols_of(P);
    for (int64_t j = 0; j < n; j++) { for (auto i : cc[j]) if (i != j) B.set(i, j, Z(r.pct(50) ? (long)r.range(1, 3) : -(long)r.range(1, 3))); B.set(j, j, Z((long)r.range(4000, 9000))); }
    MatZ M = B.done(); SLIP_matrix* A = mk_csc(M, Q(1)); Opt o; o.o = SL(SLIP_create_default_options()); o.o->order = sym ? SLIP_AMD : SLIP_COLAMD; o.o->pivot = SLIP_DIAGONAL;
    SLIP_LU_analysis* S = NULL; SLIP_info st = SL(SLIP_LU_analyze(&S, A, o.o));
    if (st != SLIP_OK) c.fail("slip:analyze", "%s: SLIP_LU_analyze returned %d", nm, (int)st);
    else if (!is_perm(S->q, n)) c.fail("slip:perm", "%s: q is not a permutation", nm);
    else
    {
        Adj h = sym ? g : ata_of(pack(r, [&]() { Cols d = cc; for (int64_t j = 0; j < n; j++) d[j].insert(j); return d; }(), n, false));
        double ref = sym ? md : size_of(fill_of(h, exact_md(h, r)), n);
        double x = size_of(fill_of(h, vector<int64_t>(S->q, S->q + n)), n); cnt("slip orderings");
        if (x > 1.35 * ref + 25) c.fail(string("slip:fill:") + nm, "SLIP_LU_analyze: order %ld, factor size %g, exact minimum degree %g", (long)n, x, ref);
        SLIP_matrix *L = NULL, *U = NULL, *rho = NULL; int64_t* pinv = NULL;
        st = SL(SLIP_LU_factorize(&L, &U, &rho, &pinv, A, S, o.o));
        if (st != SLIP_OK) c.fail("slip:factorize", "SLIP_LU_factorize returned %d", (int)st);
        else
        {
            double l = (double)L->p[n], u = (double)U->p[n]; cnt("slip factorizations"); cntmax("slip factor entries", (int64_t)(l + u));
            if (u > x || (sym && l > x)) c.fail(string("slip:size:") + nm, "order %ld: the factors have %g and %g entries, the ordering implies at most %g", (long)n, l, u, x);
        }
        mfree(L); mfree(U); mfree(rho); vfree(pinv);
    }
    sfree(S); o.free(); mfree(A);
}
void run_case(Ctx& c)
{
    Rng& r = c.rng;
    int f = (int)(c.id % (NSYM + NCOL)); bool sym = f < NSYM; const char* nm = sym ? SYM[f] : COL[f - NSYM]; bool slip = r.pct(12); if (slip) SL(SLIP_initialize());
    static const char* RT[] = { "amd", "symamd", "colamd" }; double sum[3] = {0, 0, 0}; int num[3] = {0, 0, 0}; double rsum = 0; int rnum = 0;
    bool def = r.pct(70), dup = r.pct(15); Hash H;
    for (int t = 0; t < 8; t++)
    {
        Adj base; Pat P0; int64_t n = slip && t < 2 ? r.range(60, 160) : f == 10 || f - NSYM == 6 ? r.range(250, 600) : t == 7 && r.pct(20) ? r.range(600, 1500) : r.range(100, 450);
        if (sym) { base = gen_sym(r, f, n); Cols cc(base.size()); for (size_t j = 0; j < base.size(); j++) for (auto i : base[j]) cc[j].insert(i); P0 = pack(r, cc, (int64_t)cc.size(), false); }
        else P0 = gen_rect(r, f - NSYM, n);
        n = P0.n; double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {0, 0, 0};
        if (t == 0) c.desc = fmt("%s: n=%ld nnz=%ld ... %s%s", nm, (long)n, (long)P0.nnz(), def ? "" : "not aggressive ", dup ? "jumbled" : "");
        H.add(P0.hash());
        for (int k = 0; k < 2; k++)
        {
            Pat P = relabel(r, P0, sym); int64_t dense = std::max<int64_t>(16, (int64_t)(10 * sqrt((double)n))); Adj g = sym ? adj_of(P) : ata_of(P, f - NSYM == 6 ? dense : -1);
            double md = size_of(fill_of(g, exact_md(g, r)), n), rnd = size_of(fill_of(g, r.perm(n)), n);
            for (int how = sym ? 0 : 2; how < (sym ? 2 : 3); how++)
            {
                Pat in = P; if (sym && r.pct(60)) in = part(r, P, how == 1);
                if (dup) in = pack(r, cols_of(in), in.m, true);
                vector<int64_t> q; bool ok = r.pct(50) ? order<int>(c, how, in, q, def) : order<LL>(c, how, in, q, def); if (!ok) return;
                double x = size_of(fill_of(g, q), n), ra = x / md; cnt(string("orderings:") + RT[how]); if (getenv("C17_RAW")) printf("R %s %s %ld %g %g %g %g\n", RT[how], nm, (long)n, x, md, ra, rnd / x);
                lo[how] = std::min(lo[how], x); hi[how] = std::max(hi[how], x); sum[how] += log(ra); num[how]++; rsum += log(rnd / x); rnum++;
                cntmax(string("permille of minimum degree:") + RT[how], (int64_t)(1000 * ra));
                bool exact = !strcmp(nm, "tree");
                if (exact ? x > md : x > single(how, nm) * md + 25) c.fail(string("fill:") + RT[how] + ":" + nm, "%s on %s, order %ld, %ld entries: factor size %g, exact minimum degree %g%s", RT[how], nm, (long)n, (long)in.nnz(), x, md, exact ? " (no fill is possible)" : "");
            }
            if (slip && t < 2 && k == 0) slip_route(c, nm, P, g, sym, md);
        }
        for (int how = 0; how < 3; how++) if (hi[how] > std::max(1.4, single(how, nm)) * lo[how] + 25) c.fail(string("copies:") + RT[how] + ":" + nm, "%s on two permuted copies of a %s matrix, order %ld: factor sizes %g and %g", RT[how], nm, (long)n, lo[how], hi[how]);
    }
    for (int how = 0; how < 3; how++) if (num[how]) { double m = exp(sum[how] / num[how]); cntmax(string("permille of minimum degree, batch:") + RT[how], (int64_t)(1000 * m)); cntmax(fmt("permille batch:%s:%s", RT[how], nm), (int64_t)(1000 * m));
        if (m > margin(how, nm) + 1e-12) c.fail(string("batch:") + RT[how] + ":" + nm, "%s on 16 matrices (%s): factors %.3f times those of exact minimum degree, at most %.3f expected", RT[how], nm, m, margin(how, nm)); }
    { double m = exp(rsum / rnum); cntmax("permille of random, batch", (int64_t)(1000 / m)); if (m < 1.05) c.fail(string("random:") + nm, "on 16 matrices (%s) a random ordering gives factors only %.3f times as large", nm, m); }
    c.sig(H.h); cnt("batches"); if (slip) SL(SLIP_finalize());
}

// C28: work, memory and the size of numbers stay in proportion to the arithmetic
#include "common.hpp"
#include "factor.hpp"
#include "steps.hpp"
#include <queue>
static MemFns g_real; static size_t g_big = 0;      // largest block GMP asked for
static void* cnt_a(size_t n) { if (n > g_big) g_big = n; return g_real.a(n); }
static void* cnt_r(void* p, size_t o, size_t n) { if (n > g_big) g_big = n; return g_real.r(p, o, n); }
static void cnt_f(void* p, size_t n) { g_real.f(p, n); }
void harness_init() {}
static double lg(const Z& v) { return v == 0 ? 0 : (double)mpz_sizeinbase(v.get_mpz_t(), 2); }
// a bound on the bits of every minor: the product of the column norms (those above 1)
static double minor_bits(const MatZ& A)
{
    double h = 0;
    for (int64_t j = 0; j < A.n; j++) { double mx = 0; for (int64_t k = A.p[j]; k < A.p[j + 1]; k++) mx = std::max(mx, lg(A.x[k])); int64_t c = A.p[j + 1] - A.p[j]; if (mx > 0) h += mx + 0.5 * log2((double)c); }
    double g = 0; vector<double> rm(A.m, 0); vector<int64_t> rc(A.m, 0);
    for (size_t k = 0; k < A.i.size(); k++) { rm[A.i[k]] = std::max(rm[A.i[k]], lg(A.x[k])); rc[A.i[k]]++; }
    for (int64_t i = 0; i < A.m; i++) if (rm[i] > 0) g += rm[i] + 0.5 * log2((double)rc[i]);
    return std::min(h, g);
}
// structural factors of P A Q: what elimination without regard to values fills in
struct Sym { vector<vector<int64_t>> L, U; double work = 0; int64_t nl = 0, nu = 0; };
static Sym symbolic(const MatZ& A, const int64_t* q, const int64_t* pinv)
{
    Sym s; int64_t n = A.n; s.L.resize(n); s.U.resize(n); vector<int64_t> mark(n, -1);
    for (int64_t k = 0; k < n; k++)
    {
        vector<int64_t> all; std::priority_queue<int64_t, vector<int64_t>, std::greater<int64_t>> h;
        auto add = [&](int64_t i) { if (mark[i] != k) { mark[i] = k; all.push_back(i); if (i < k) h.push(i); } };
        for (int64_t e = A.p[q[k]]; e < A.p[q[k] + 1]; e++) add(pinv[A.i[e]]);
        while (!h.empty()) { int64_t j = h.top(); h.pop(); s.work += (double)s.L[j].size(); for (int64_t i : s.L[j]) add(i); }
        s.work += (double)all.size() * (2 + log2((double)all.size() + 1));
        for (int64_t i : all) (i < k ? s.U : s.L)[k].push_back(i);
        std::sort(s.L[k].begin(), s.L[k].end()); std::sort(s.U[k].begin(), s.U[k].end());
        s.nl += (int64_t)s.L[k].size(); s.nu += (int64_t)s.U[k].size();
    }
    s.work += (double)A.nnz() + (double)n; return s;
}
static size_t limbs(SLIP_matrix* M, int64_t nz) { size_t s = 0; for (int64_t k = 0; k < nz; k++) s += 8 * (size_t)mpz_size(M->x.mpz[k]); return s; }
// a sparse matrix of order n whose factors stay sparse
static MatZ sparse_large(Rng& r, int64_t n, int& fam)
{
    Builder B(n, n); fam = 100 + (int)r.below(9); int vk = r.pct(70) ? 1 : 0;
    auto v = [&]() { return gen_value(r, vk); };
    for (int64_t j = 0; j < n; j++) B.set(j, j, v());
    switch (fam - 100)
    {
        case 0: break;                                                                        // diagonal
        case 1: for (int64_t j = 1; j < n; j++) B.set(j, j - 1, v()); break;                  // bidiagonal
        case 2: for (int64_t j = 1; j < n; j++) { B.set(j, j - 1, v()); B.set(j - 1, j, v()); } break;   // tridiagonal
        case 3: for (int64_t j = 0; j + 1 < n; j++) { B.set(n - 1, j, v()); if (r.pct(50)) B.set(j, n - 1, v()); } break;    // arrow
        case 4: { int64_t b = r.range(2, 6); for (int64_t j = 0; j < n; j++) for (int64_t i = j / b * b; i < std::min(n, j / b * b + b); i++) if (r.pct(60)) B.set(i, j, v()); break; }     // blocks
        case 5: for (int64_t j = 1; j < n; j++) { int64_t p = r.below(j); B.set(p, j, v()); if (r.pct(50)) B.set(j, p, v()); } break;      // tree
        case 6: for (int64_t k = 0; k < n; k++) { int64_t j = r.below(n), i = r.below(n); if (i < j) B.set(i, j, v()); else B.set(j, i, v()); } break;   // triangular
        case 8: { int64_t d = r.range(1, 3), h = r.range(1, 3); for (int64_t j = 0; j < d; j++) for (int64_t i = j + 1; i < n; i++) if (r.pct(95)) B.set(i, j, v());
                  for (int64_t k = 0; k < h; k++) B.set(r.below(d), n - 1 - r.below(h), v()); return B.done(r.pct(30) ? &r : nullptr, nullptr, nullptr); }       // wide searches
        case 7: for (int64_t j = 1; j < n; j++) B.set(j, j - 1, v()); for (int64_t k = 0; k < 12; k++) B.set(r.below(n), r.below(n), v()); break;
    }
    vector<int64_t> p = r.perm(n), q = r.perm(n); bool pr = r.pct(50), pc = r.pct(50);
    return B.done(r.pct(30) ? &r : nullptr, pr ? &p : nullptr, pc ? &q : nullptr);
}
// a full pattern in which most entries are stored zeros
static MatZ zeros_stored(Rng& r, int64_t n)
{
    Builder B(n, n); int z = (int)r.range(70, 98); bool up = r.pct(50);
    for (int64_t j = 0; j < n; j++) for (int64_t i = 0; i < n; i++) if (i == j) B.set(i, j, gen_value(r, 1)); else if (r.pct(90)) B.set(i, j, (up ? i < j : true) && r.pct(z) ? Z(0) : gen_value(r, 1));
    return B.done(r.pct(30) ? &r : nullptr, nullptr, nullptr);
}
static uint64_t mulm(uint64_t a, uint64_t b, uint64_t p) { return (uint64_t)((unsigned __int128)a * b % p); }
// multiplications a solve needs: y = U x has the pattern of the solution of L D y = b
static double solve_ops(const Factors& F, SLIP_matrix* x, const int64_t* q, int64_t n, int64_t nrhs)
{
    uint64_t p = 2305843009213693951ULL; double s = 0; vector<uint64_t> y(n); vector<double> ul(2 * n, 1);
    for (int64_t j = 0; j < n; j++) for (int t = 0; t < 2; t++) { SLIP_matrix* X = t ? F.U : F.L; for (int64_t e = X->p[j]; e < X->p[j + 1]; e++) if (mpz_sgn(X->x.mpz[e])) ul[t * n + j]++; }
    auto inv = [&](uint64_t a) { uint64_t e = p - 2, v = 1; while (e) { if (e & 1) v = mulm(v, a, p); a = mulm(a, a, p); e >>= 1; } return v; };
    for (int64_t k = 0; k < nrhs; k++)
    {
        std::fill(y.begin(), y.end(), 0);
        for (int64_t j = 0; j < n; j++)
        {
            mpq_ptr v = x->x.mpq[q[j] + k * n]; if (!mpq_sgn(v)) continue;
            uint64_t d = mpz_fdiv_ui(mpq_denref(v), p), u = mpz_fdiv_ui(mpq_numref(v), p); s += ul[n + j];
            if (!d) { return 1e300; } u = mulm(u, inv(d), p);
            for (int64_t e = F.U->p[j]; e < F.U->p[j + 1]; e++) { uint64_t& w = y[F.U->i[e]]; w = (w + mulm(u, mpz_fdiv_ui(F.U->x.mpz[e], p), p)) % p; }
        }
        for (int64_t j = 0; j < n; j++) if (y[j]) s += ul[j];
    }
    return s;
}
static void limit(Ctx& c, const char* key, double got, double base, double factor, double slack)
{
    double v = base > 0 ? got / base : 0; cntmax(string("permille ") + key, (int64_t)(1000 * std::max(0.0, got - slack) / std::max(base, 1.0)));
    if (getenv("VP_SHOW") && got > base * atof(getenv("VP_SHOW"))) printf("%s %g %g %g | %s\n", key, got, base, v, c.desc.c_str());
    if (got > base * factor + slack) c.fail(key, "%s: %.0f, %.2f times the %.0f of the reference; %s", key, got, v, base, c.desc.c_str());
}
void run_case(Ctx& c)
{
    Rng& r = c.rng; g_tr.fill = false;
    GenOpt g; g.maxn = 40; g.big_pct = 4; g.bigmaxn = 90; GenInfo gi; gi.vkind = -1; MatZ A; bool large = r.pct(6);
    if (large) A = sparse_large(r, c.thorough && r.pct(20) ? r.range(5000, 20000) : r.range(300, 3000), gi.family); else if (r.pct(6)) { gi.family = 200; A = zeros_stored(r, r.range(4, 60)); } else A = gen_square(r, g, &gi);
    int64_t n = A.n; if (n < 1) return;
    slip_init_tracked(); g_real = g_slip; g_slip.a = cnt_a; g_slip.r = cnt_r; g_slip.f = cnt_f;
    Opt o = gen_opt(r, false); o.o->check = r.pct(25); o.o->print_level = 0; Q as = r.pct(70) ? Q(1) : gen_scale(r), bs = r.pct(70) ? Q(1) : gen_scale(r);
    if (large && r.pct(70)) o.order = o.o->order = r.pct(50) ? SLIP_AMD : SLIP_COLAMD;
    if (gi.family == 103 && o.o->order == SLIP_NO_ORDERING) o.o->order = SLIP_COLAMD;     // natural order fills in
    if (gi.family == 108) { o.o->order = SLIP_NO_ORDERING; o.o->pivot = SLIP_DIAGONAL; }
    c.desc = fmt("fam=%d vk=%d %s %s", gi.family, gi.vkind, mat_str(A).c_str(), o.str().c_str());
    SLIP_matrix* SA = mk_csc(A, as); Factors F;
    SLIP_info st = SL(SLIP_LU_analyze(&F.S, SA, o.o));
    if (st != SLIP_OK) { c.fail("analyze", "SLIP_LU_analyze returned %d", (int)st); }
    else
    {
        double H = minor_bits(A); g_big = 0; Work w;
        st = SL(SLIP_LU_factorize(&F.L, &F.U, &F.rhos, &F.pinv, SA, F.S, o.o));
        double steps = (double)w.steps(), ar = (double)w.arith(); int64_t peak = w.peak(), left = w.left(); size_t big = g_big;
        if (st == SLIP_SINGULAR) cnt("singular");
        else if (st != SLIP_OK) c.fail("status", "SLIP_LU_factorize returned %d", (int)st);
        else
        {
            cnt("factorizations"); cntmax("order", n); Sym s = symbolic(A, F.S->q, F.pinv); int64_t ln = F.L->p[n], un = F.U->p[n];
            // 1. structure: nothing outside the fill of elimination
            bool bad = false; vector<int64_t> mark(n, -1);
            for (int t = 0; t < 2 && !bad; t++) for (int64_t k = 0; k < n && !bad; k++)
            {
                SLIP_matrix* X = t ? F.U : F.L;
                for (int64_t i : (t ? s.U : s.L)[k]) mark[i] = k + n * t; if (t) mark[k] = k + n;
                for (int64_t e = X->p[k]; e < X->p[k + 1]; e++) if (mark[X->i[e]] != k + n * t) { bad = true; c.fail("fill", "%s: entry (%ld,%ld) where elimination has none; %s", t ? "U" : "L", (long)X->i[e], (long)k, c.desc.c_str()); break; }
            }
            // 2. arithmetic: updates x_i -= l_ij x_j with both factors nonzero
            double upd = 0; vector<int64_t> lnzc(n, 0);
            for (int64_t k = 0; k < n; k++) for (int64_t e = F.L->p[k]; e < F.L->p[k + 1]; e++) if (F.L->i[e] > k && mpz_sgn(F.L->x.mpz[e])) lnzc[k]++;
            for (int64_t k = 0; k < n; k++) for (int64_t e = F.U->p[k]; e < F.U->p[k + 1]; e++) if (F.U->i[e] < k && mpz_sgn(F.U->x.mpz[e])) upd += (double)lnzc[F.U->i[e]];
            limit(c, "operations", ar, upd + (double)(ln + un) / 2, 9, 8);
            // 3. steps of the program
            limit(c, large ? "steps, large" : "steps", steps, s.work + 6.0 * (double)n + 4.0 * (double)(ln + un), 75, 3000);
            // 4. numbers: twice the bits of a minor, and GMP's workspace for a product of that size
            limit(c, "bits", (double)big * 8, 2 * H, 3, 4096);
            // 5. memory
            double exact = (double)limbs(F.L, ln) + (double)limbs(F.U, un) + (double)limbs(F.rhos, n) + 24.0 * (double)(ln + un) + 48.0 * (double)n + 400;
            limit(c, "returned", (double)left, exact + 16.0 * (double)(ln + un), 2, 500);
            limit(c, "peak", (double)peak, exact + 24.0 * (double)(F.S->lnz + F.S->unz) + 8.0 * (double)n * (8 + log2((double)n)) + (double)n * 2 * H / 8, 4, 4000);
            // solve
            int64_t nrhs = r.pct(60) ? 1 : r.range(2, 12); vector<Z> b = gen_rhs(r, n, nrhs); if (r.pct(25)) { for (auto& v : b) v = 0; for (int64_t k = r.below(3 * nrhs + 1); k > 0; k--) b[r.below(b.size())] = gen_value(r, 0); } double bb = 0; for (auto& v : b) bb = std::max(bb, lg(v));
            SLIP_matrix *B = mk_dense(b, n, nrhs, bs), *x = NULL; g_big = 0; Work w2;
            st = SL(SLIP_LU_solve(&x, B, SA, F.L, F.U, F.rhos, F.S, F.pinv, o.o)); steps = (double)w2.steps(); ar = (double)w2.arith(); peak = w2.peak(); left = w2.left();
            if (st != SLIP_OK) c.fail("solve", "SLIP_LU_solve returned %d", (int)st);
            else
            {
                cnt("solves"); double touch = (double)nrhs * (double)(ln + un + n) + (o.o->check ? (double)nrhs * (double)(A.nnz() + n) : 0);
                double X = 2 * H + bb + log2((double)n + 1) + 64 + 2 * (lg(as.get_num()) + lg(as.get_den()) + lg(bs.get_num()) + lg(bs.get_den())) + (o.o->check ? H + bb : 0);
                double xs = 0; for (int64_t k = 0; k < n * nrhs; k++) xs += 8 * (double)(mpz_size(mpq_numref(x->x.mpq[k])) + mpz_size(mpq_denref(x->x.mpq[k]))) + 32;
                limit(c, "solve operations", ar, solve_ops(F, x, F.S->q, n, nrhs) + (double)(n * nrhs) + (o.o->check ? (double)nrhs * (double)(A.nnz() + n) : 0), 9, 30);
                limit(c, large ? "solve steps, large" : "solve steps", steps, touch + 6.0 * (double)(n * nrhs), 170, 3000);
                limit(c, "solve bits", (double)g_big * 8, X, 4, 8192);
                limit(c, "solve returned", (double)left, xs, 4, 1000);
                limit(c, "solve peak", (double)peak, (double)n * (double)nrhs * (X / 8 + 64) + 16.0 * (double)n, 8, 8000);
            }
            mfree(B); mfree(x);
            Hash h; for (auto v : A.i) h.add(v); for (auto& v : A.x) h.addz(v.get_mpz_t()); h.add(o.o->order); h.add(o.o->pivot); if (n > 1) c.sig(h.h);
        }
    }
    c.sample(); mfree(SA); F.free(); o.free(); SL((SLIP_finalize(), 0));
}

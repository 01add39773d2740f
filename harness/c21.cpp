// C21: solution checking accepts exactly the exact solutions.
#include "factor.hpp"
void harness_init() {}
static Q sc(const SLIP_matrix* A) { Q q; mpz_set(mpq_numref(q.get_mpq_t()), mpq_numref(A->scale)); mpz_set(mpq_denref(q.get_mpq_t()), mpq_denref(A->scale)); return q; }
// does x solve the system (matrix values / scale)?  1 yes, 0 no, -1 unsuitable prime
static int solves_mod(const MatZ& A, const Q& as, const vector<Z>& b, const Q& bs, int64_t nrhs, SLIP_matrix* x, uint64_t p)
{
    Mod M(p); uint64_t sa, sb, v; if (!M.q(as.get_mpq_t(), sa) || !M.q(bs.get_mpq_t(), sb) || !sa || !sb) return -1;
    int64_t n = A.n; sa = M.inv(sa); sb = M.inv(sb);
    for (int64_t j = 0; j < nrhs; j++)
    {
        vector<uint64_t> s(n, 0);
        for (int64_t k = 0; k < n; k++) { if (!M.q(x->x.mpq[k + j * n], v)) return -1; if (!v) continue; v = M.mul(v, sa); for (int64_t e = A.p[k]; e < A.p[k + 1]; e++) s[A.i[e]] = M.add(s[A.i[e]], M.mul(M.of(A.x[e].get_mpz_t()), v)); }
        for (int64_t i = 0; i < n; i++) if (s[i] != M.mul(M.of(b[i + j * n].get_mpz_t()), sb)) return 0;
    }
    return 1;
}
static int solves(Rng& r, const MatZ& A, const Q& as, const vector<Z>& b, const Q& bs, int64_t nrhs, SLIP_matrix* x)
{
    int good = 0, o = (int)r.below(8);
    for (int k = 0; k < 8 && good < 2; k++) { int s = solves_mod(A, as, b, bs, nrhs, x, PRIMES[(o + k) % 8]); if (s == 0) return 0; if (s == 1) good++; }
    return good == 2 ? 1 : -1;
}
static bool equal(SLIP_matrix* x, SLIP_matrix* y)
{
    if (x->m != y->m || x->n != y->n || x->type != y->type) return false;
    for (int64_t k = 0; k < x->m * x->n; k++) if (mpz_cmp(mpq_numref(x->x.mpq[k]), mpq_numref(y->x.mpq[k])) || mpz_cmp(mpq_denref(x->x.mpq[k]), mpq_denref(y->x.mpq[k]))) return false;
    return true;
}
struct Sys { MatZ M; SLIP_matrix *A = NULL, *L = NULL, *U = NULL, *rhos = NULL; SLIP_LU_analysis* S = NULL; int64_t* pinv = NULL;
    bool make(const SLIP_options* o, const MatZ& m, const Q& s) { M = m; A = mk_csc(M, s); return A && SL(SLIP_LU_analyze(&S, A, o)) == SLIP_OK && SL(SLIP_LU_factorize(&L, &U, &rhos, &pinv, A, S, o)) == SLIP_OK; }
    void drop() { mfree(A); mfree(L); mfree(U); mfree(rhos); sfree(S); vfree(pinv); pinv = NULL; } };
void run_case(Ctx& c)
{
    Rng& r = c.rng; static bool open = false; if (!open) { slip_init_plain(); open = true; } SuiteSparse_config.printf_func = NULL;
    GenOpt g; g.maxn = r.pct(20) ? 24 : 8; g.big_pct = r.pct(10) ? 10 : 0; g.bigmaxn = 40; rare_large(r, g, 400, 50, 150); MatZ M, M2; int tries = 0;
    do { M = gen_square(r, g); if (++tries > 30) return; } while (!nonsingular(M, r));
    int64_t n = M.n; Opt o = gen_opt(r, false); o.o->check = true; o.o->print_level = (int)r.below(3); SLIP_options off = *o.o; off.check = false;
    Q as = gen_scale(r), bs = gen_scale(r); int64_t nrhs = r.pct(50) ? 1 : r.pct(8) ? 0 : r.pct(2) ? r.range(10, 60) : r.range(2, 6);
    // right-hand sides: any, or from a chosen sparse solution, so that damage shows in few places
    vector<Z> b(n * nrhs); bool chosen = r.pct(60); vector<vector<Z>> xs(nrhs, vector<Z>(n));
    int64_t lone = chosen && nrhs > 1 && r.pct(40) ? (int64_t)r.below(nrhs) : -1;        // all other columns are zero: damage shows in this one alone
    if (chosen) for (int64_t j = 0; j < nrhs; j++) { if (lone >= 0 && j != lone) continue; int d = r.pct(30) ? 100 : (int)r.range(0, 60); for (int64_t k = 0; k < n; k++) if (r.pct(d)) { xs[j][k] = gen_value(r, r.pct(80) ? 0 : (int)r.below(6)); for (int64_t e = M.p[k]; e < M.p[k + 1]; e++) b[M.i[e] + j * n] += M.x[e] * xs[j][k]; } }
    else b = gen_rhs(r, n, nrhs);
    Sys s, t; SLIP_matrix* B = mk_dense(b, n, nrhs, bs); bool have2 = false;
    if (!B || !s.make(o.o, M, as)) { c.fail("base", "a nonsingular system cannot be factorized; %s", mat_str(M).c_str()); s.drop(); mfree(B); o.free(); return; }
    // damage, keeping every structure intact
    MatZ MA = M; int how = lone >= 0 ? (int)r.range(3, 11) : (int)r.below(12); string what = "nothing"; SLIP_matrix *A = s.A, *L = s.L, *U = s.U, *rho = s.rhos; SLIP_LU_analysis* S = s.S; int64_t* pinv = s.pinv; SLIP_matrix* A2 = NULL;
    auto tweak = [&](mpz_ptr z, bool nonzero) { Z v; mpz_set(v.get_mpz_t(), z); switch (r.below(5)) { case 0: v += 1; break; case 1: v -= 1; break; case 2: v = -v; break; case 3: v += gen_value(r, 4); break; default: v *= 2; } if (nonzero && v == 0) v = 3; SL(SLIP_mpz_set(z, v.get_mpz_t())); };
    if (n > 0) switch (how)
    {
        default: break;     // 0..2: nothing
        case 3: what = "an entry of A"; { int64_t e = r.below(M.nnz()); Z d = r.pct(70) ? Z(r.pct(50) ? 1 : -1) : gen_value(r, (int)r.below(6)); MA.x[e] += d; A2 = mk_csc(MA, as); A = A2; } break;
        case 4: what = "an entry of A of a used column"; { vector<int64_t> cand; for (int64_t k = 0; k < n; k++) for (int64_t j = 0; j < nrhs; j++) if (xs[j][k] != 0) { for (int64_t e = M.p[k]; e < M.p[k + 1]; e++) cand.push_back(e); break; } if (cand.empty()) break; int64_t e = cand[r.below(cand.size())]; MA.x[e] += r.pct(50) ? 1 : -1; A2 = mk_csc(MA, as); A = A2; } break;
        case 5: what = "an entry of L"; tweak(L->x.mpz[r.below(L->p[n])], true); break;
        case 6: what = "an entry of U"; { int64_t e = r.below(U->p[n]); tweak(U->x.mpz[e], true); } break;
        case 7: what = "a pivot"; tweak(rho->x.mpz[r.below(n)], true); break;
        case 8: what = "the row permutation"; { int64_t u = r.below(n), v = r.below(n); std::swap(pinv[u], pinv[v]); } break;
        case 9: what = "the column permutation"; { int64_t u = r.below(n), v = r.below(n); std::swap(S->q[u], S->q[v]); } break;
        case 10: case 11: { GenOpt g2 = g; g2.minn = g2.maxn = n; g2.big_pct = 0; bool ok = false; for (int k = 0; k < 8 && !ok; k++) { if (r.pct(50)) { M2 = M; if (M2.nnz()) M2.x[r.below(M2.nnz())] += r.range(1, 3); } else M2 = gen_square(r, g2); ok = M2.n == n && nonsingular(M2, r); }
            if (!ok || !t.make(o.o, M2, as)) break; have2 = true; what = "factors of another matrix"; int mask = r.pct(50) ? 31 : (int)r.range(1, 31);
            if (mask & 1) L = t.L; if (mask & 2) U = t.U; if (mask & 4) rho = t.rhos; if (mask & 8) S = t.S; if (mask & 16) pinv = t.pinv; break; }
    }
    c.desc = fmt("damaged: %s; nrhs=%ld %s %s", what.c_str(), (long)nrhs, mat_str(M).c_str(), o.str().c_str());
    SLIP_matrix *x = NULL, *y = NULL;
    SLIP_info s0 = SL(SLIP_LU_solve(&y, B, A, L, U, rho, S, pinv, &off)), s1 = SL(SLIP_LU_solve(&x, B, A, L, U, rho, S, pinv, o.o)); cnt("checked solves");
    if (s0 != SLIP_OK || !y) c.fail("unchecked", "SLIP_LU_solve without checking returned %d; %s", (int)s0, c.desc.c_str());
    else
    {
        Q asx = sc(A); int good = solves(r, MA, asx, b, bs, nrhs, y); cnt(good == 1 ? (what == "nothing" ? "exact solutions" : "exact solutions despite damage") : good == 0 ? "wrong solutions" : "undecided"); if (what != "nothing" && good == 0) cnt("wrong: " + what);
        if (what == "nothing" && good == 0) c.fail("base:wrong", "the solution is wrong; %s", c.desc.c_str());
        if (good == 1 && s1 != SLIP_OK) c.fail("refused", "checking refused an exact solution with status %d; %s", (int)s1, c.desc.c_str());
        if (good == 0 && s1 == SLIP_OK) c.fail("accepted", "checking accepted a wrong solution; %s", c.desc.c_str());
        if (good == 0 && s1 != SLIP_OK && s1 != SLIP_INCORRECT) c.fail("status", "checking reported status %d for a wrong solution; %s", (int)s1, c.desc.c_str());
        if (s1 == SLIP_OK ? !x : x != NULL) c.fail("output", "status %d and x %s", (int)s1, x ? "returned" : "missing");
        if (s1 == SLIP_OK && x && !equal(x, y)) c.fail("changed", "checking changed the solution; %s", c.desc.c_str());
    }
    mfree(x); mfree(y);
    if (r.pct(30))      // the one-call solver
    {
        SLIP_type ty = (SLIP_type)(r.pct(50) ? SLIP_MPQ : r.pct(50) ? SLIP_MPFR : SLIP_FP64); SLIP_info a = SL(SLIP_backslash(&x, ty, s.A, B, o.o)), d = SL(SLIP_backslash(&y, ty, s.A, B, &off)); cnt("checked one-call solves");
        if (a != SLIP_OK || d != SLIP_OK || !x || !y) c.fail("backslash", "SLIP_backslash returned %d with checking, %d without; %s", (int)a, (int)d, c.desc.c_str());
        else { bool same = true; for (int64_t k = 0; k < n * nrhs && same; k++) same = ty == SLIP_MPQ ? !mpz_cmp(mpq_numref(x->x.mpq[k]), mpq_numref(y->x.mpq[k])) && !mpz_cmp(mpq_denref(x->x.mpq[k]), mpq_denref(y->x.mpq[k])) : ty == SLIP_FP64 ? !memcmp(&x->x.fp64[k], &y->x.fp64[k], 8) : mpfr_equal_p(x->x.mpfr[k], y->x.mpfr[k]) != 0;
            if (!same) c.fail("backslash:changed", "checking changed the solution of SLIP_backslash; %s", c.desc.c_str()); }
        mfree(x); mfree(y);
    }
    Hash h; h.add(hash_mat(M)); h.add(how); h.add(nrhs); if (n > 0 && nrhs > 0) c.sig(h.h);
    if (have2 || t.A) t.drop(); s.drop(); mfree(B); mfree(A2); o.free();
}

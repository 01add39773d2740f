// C05: every pivot obeys the selected rule
#include "common.hpp"
#include "factor.hpp"
void harness_init() {}

void run_case(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt g; g.maxn = 22; g.big_pct = 3; g.bigmaxn = 60;
    if (r.pct(30)) g.family = r.pct(50) ? 1 : 0;
    if (r.pct(40)) g.vkind = r.pct(50) ? 0 : 1;
    rare_large(r, g, 600, 80, 200);
    GenInfo gi;
    MatZ A = gen_square(r, g, &gi);
    int64_t n = A.n;
    // a column where the ratio of diagonal and smallest/largest is exactly the tolerance
    if (!nonsingular(A, r)) { cnt("singular_skipped"); return; }
    (r.pct(50) ? slip_init_tracked() : slip_init_plain());
    Opt o = gen_opt(r);
    if (!o.null)
    {
        if (r.pct(40)) o.pivot = o.o->pivot = r.pct(50) ? SLIP_TOL_SMALLEST : SLIP_TOL_LARGEST;
        static const double T[] = {0.5, 0.25, 0.75, 1.0, 0.125, 0.1, 1.0 / 3, 0.9};
        if (r.pct(50)) o.tol = o.o->tol = T[r.below(8)];
    }
    bool user = r.pct(25);
    c.desc = fmt("fam=%d vk=%d %s %s user=%d", gi.family, gi.vkind, mat_str(A).c_str(), o.str().c_str(), (int)user);
    SLIP_matrix* SA = mk_csc(A, gen_scale(r));
    Factors F;
    SLIP_info st = SL(SLIP_LU_analyze(&F.S, SA, o.o));
    if (st == SLIP_OK)
    {
        if (user) { auto q = r.perm(n); for (int64_t k = 0; k < n; k++) F.S->q[k] = q[k]; }
        st = SL(SLIP_LU_factorize(&F.L, &F.U, &F.rhos, &F.pinv, SA, F.S, o.o));
    }
    if (st != SLIP_OK) { c.fail("status", "factorization returned %d", (int)st); }
    else
    {
        string e = check_structure(n, F.L, F.U, F.rhos, F.pinv);
        if (!e.empty()) c.fail("structure", "%s", e.c_str());
        else
        {
            int piv = o.null ? SLIP_TOL_SMALLEST : o.pivot; double tol = o.null ? 1.0 : o.tol;
            vector<int64_t> orig(n);            // original row of final position
            for (int64_t i = 0; i < n; i++) orig[F.pinv[i]] = i;
            vector<int64_t> rowat(n), posof(n);      // evolving row order
            std::iota(rowat.begin(), rowat.end(), 0); std::iota(posof.begin(), posof.end(), 0);
            Q tq = Q(tol);
            uint64_t trace = 0;
            for (int64_t k = 0; k < n && !c.failed; k++)
            {
                // candidates: entries of column k of L (all rows not yet pivotal)
                mpz_srcptr pv = F.rhos->x.mpz[k], small = NULL, large = NULL, diag = NULL;
                int64_t firstpos = n, ncand = 0; int64_t firstrow = -1;
                int64_t dpos = F.pinv[F.S->q[k]];
                for (int64_t t = F.L->p[k]; t < F.L->p[k + 1]; t++)
                {
                    mpz_srcptr v = F.L->x.mpz[t]; int64_t i = F.L->i[t];
                    if (mpz_sgn(v) == 0) continue;
                    ncand++;
                    if (!small || mpz_cmpabs(v, small) < 0) small = v;
                    if (!large || mpz_cmpabs(v, large) > 0) large = v;
                    if (i == dpos) diag = v;
                    if (posof[orig[i]] < firstpos) { firstpos = posof[orig[i]]; firstrow = orig[i]; }
                }
                bool isdiag = dpos == k;
                auto same = [&](mpz_srcptr a) { return mpz_cmpabs(pv, a) == 0; };
                const char* bad = NULL;
                switch (piv)
                {
                    case SLIP_SMALLEST: if (!same(small)) bad = "pivot is not the smallest"; break;
                    case SLIP_LARGEST: if (!same(large)) bad = "pivot is not the largest"; break;
                    case SLIP_FIRST_NONZERO: if (orig[k] != firstrow) bad = "pivot is not the first nonzero"; break;
                    case SLIP_DIAGONAL: if (diag ? !isdiag : !same(small)) bad = diag ? "the nonzero diagonal was not chosen" : "no diagonal, and the pivot is not the smallest"; break;
                    case SLIP_TOL_SMALLEST: case SLIP_TOL_LARGEST:
                    {
                        mpz_srcptr ref = piv == SLIP_TOL_SMALLEST ? small : large;
                        bool want = false;
                        if (diag)
                        {
                            Q ratio; Z a, b;
                            mpz_abs(a.get_mpz_t(), piv == SLIP_TOL_SMALLEST ? small : diag);
                            mpz_abs(b.get_mpz_t(), piv == SLIP_TOL_SMALLEST ? diag : large);
                            ratio = Q(a, b); ratio.canonicalize();
                            want = ratio >= tq;
                            cnt(want ? "diag_within_tol" : "diag_outside_tol");
                            if (ratio == tq && tol < 1) cnt("ratio_equals_tol");
                        }
                        if (want) { if (!isdiag) bad = "the diagonal is within the tolerance but was not chosen"; }
                        else if (!same(ref)) bad = "the diagonal is not eligible and the pivot is not the extreme candidate";
                        break;
                    }
                }
                if (bad) c.fail(fmt("rule%d", piv), "step %ld: %s", (long)k, bad);
                cnt("steps"); if (ncand > 1) cnt("steps_with_choice"); if (!isdiag) cnt("off_diagonal_pivots");
                trace = mix64(trace ^ (uint64_t)(ncand * 2 + isdiag));
                // swap rows as the elimination does
                int64_t pr = orig[k], from = posof[pr], other = rowat[k];
                rowat[k] = pr; rowat[from] = other; posof[pr] = k; posof[other] = from;
            }
            cnt(fmt("pivot:%d", piv)); cnt("factorizations");
            if (n >= 2) { Hash h; h.add(hash_mat(A)); h.add(piv); h.add(trace); c.sig(h.h); }
        }
    }
    mfree(SA); F.free(); o.free();
    slip_fini();
    g_tr.live.clear(); g_tr.reset();
}

// C03: the LU factors are the exact integer-preserving factorization
#include "common.hpp"
#include "factor.hpp"
void harness_init() {}

void run_case(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt g; g.maxn = 34; g.big_pct = 5; g.bigmaxn = 90;
    int big = (int)r.below(100);
    if (big < 2) { g.family = r.pct(50) ? 2 : 4; g.minn = 120; g.maxn = 220; g.vkind = (int)r.below(3); g.big_pct = 0; }
    GenInfo gi;
    MatZ A = gen_square(r, g, &gi);
    int64_t n = A.n;
    if (!nonsingular(A, r)) { cnt("singular_skipped"); return; }
    (r.pct(50) ? slip_init_tracked() : slip_init_plain());
    Opt o = gen_opt(r);
    int mode = (int)r.below(4);     // 3: user order
    c.desc = fmt("fam=%d vk=%d %s %s mode=%d", gi.family, gi.vkind, mat_str(A).c_str(), o.str().c_str(), mode);
    SLIP_matrix* SA = mk_csc(A, gen_scale(r), r.pct(30) ? A.nnz() + r.below(9) : -1);
    Factors F;
    SLIP_info st = SL(SLIP_LU_analyze(&F.S, SA, o.o));
    if (st == SLIP_OK)
    {
        if (mode == 3) { auto q = r.perm(n); for (int64_t k = 0; k < n; k++) F.S->q[k] = q[k]; }
        if (mode >= 2) { F.S->lnz = n + r.below(4); F.S->unz = n + r.below(4); }
        st = SL(SLIP_LU_factorize(&F.L, &F.U, &F.rhos, &F.pinv, SA, F.S, o.o));
    }
    if (st != SLIP_OK) c.fail("status", "factorization returned %d for a nonsingular matrix", (int)st);
    else
    {
        string e = check_structure(n, F.L, F.U, F.rhos, F.pinv);
        if (!e.empty()) c.fail("structure", "%s", e.c_str());
        else
        {
            int done = 0;
            for (int t = 0; t < 6 && done < 2; t++)
            {
                e = check_values(A, F.S->q, F.pinv, F.L, F.U, F.rhos, PRIMES[r.below(8)]);
                if (e == "?") continue;
                done++;
                if (!e.empty()) { c.fail("values", "%s", e.c_str()); break; }
            }
            cnt("factorizations"); cnt("pivots", n); cnt("entries", F.L->p[n] + F.U->p[n]);
            cnt(fmt("order:%d", (int)o.order)); cnt(fmt("pivot:%d", (int)o.pivot)); cntmax("n", n);
            int64_t off = 0, zero = 0;
            for (int64_t i = 0; i < n; i++) off += F.pinv[i] != i;
            for (int64_t k = 0; k < F.L->p[n]; k++) zero += mpz_sgn(F.L->x.mpz[k]) == 0;
            if (off) cnt("with_row_exchanges");
            cnt("cancelled_entries", zero); cntmax("pivot_bits", mpz_sizeinbase(F.rhos->x.mpz[n - 1], 2));
            if (n >= 2) { Hash h; h.add(hash_mat(A)); for (int64_t i = 0; i < n; i++) { h.add(F.pinv[i]); h.add(F.S->q[i]); } c.sig(h.h); }
        }
    }
    mfree(SA); F.free(); o.free();
    slip_fini();
    g_tr.live.clear(); g_tr.reset();
}

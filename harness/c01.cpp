// C01: solutions of A x = b are exact
#include "common.hpp"
void harness_init() {}

void run_case(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt g; g.maxn = 36; g.big_pct = 5; g.bigmaxn = 100;
    int big = (int)r.below(200);
    GenInfo gi;
    MatZ A;
    bool known_nonsingular = false;
    if (big < 3) { g.family = r.pct(50) ? 2 : 4; g.minn = 200; g.maxn = 420; g.vkind = (int)r.below(3); g.big_pct = 0; }
    else if (big < 5) { g.family = 9; g.minn = 600; g.maxn = 1500; g.vkind = (int)r.below(5); g.big_pct = 0; g.zeros = false; known_nonsingular = true; }
    if (big == 5)       // diagonally dominant tridiagonal, randomly permuted
    {
        int64_t n = r.range(400, 900);
        Builder B(n, n);
        for (int64_t j = 0; j < n; j++)
        {
            B.set(j, j, Z((long)r.range(3, 6)) * (r.pct(50) ? 1 : -1));
            if (j + 1 < n) { B.set(j + 1, j, r.pct(50) ? 1 : -1); B.set(j, j + 1, r.pct(50) ? 1 : -1); }
        }
        auto rp = r.perm(n), cp = r.perm(n);
        A = r.pct(50) ? B.done(&r) : B.done(&r, &rp, &cp);
        gi = {12, 0, n}; known_nonsingular = true;
    }
    else A = gen_square(r, g, &gi);
    int64_t n = A.n;
    if (!known_nonsingular && !nonsingular(A, r)) { cnt("singular_skipped"); return; }
    Q as = gen_scale(r), bs = gen_scale(r);
    int64_t nrhs = r.pct(60) ? 1 : r.pct(70) ? r.range(2, 4) : r.pct(70) ? r.range(5, 12) : r.pct(50) ? n : 0;
    if (n > 120) nrhs = std::min<int64_t>(nrhs, 2);
    vector<Z> b = gen_rhs(r, n, nrhs);
    bool tracked = r.pct(50);
    (tracked ? slip_init_tracked() : slip_init_plain());
    Opt o = gen_opt(r);
    int route = (int)r.below(10);       // 0-4 backslash, 5-8 three steps, 9 user order
    c.desc = fmt("fam=%d vk=%d %s nrhs=%ld As=%s bs=%s %s route=%d", gi.family, gi.vkind, mat_str(A).c_str(), (long)nrhs,
        qstr(as.get_mpq_t()).c_str(), qstr(bs.get_mpq_t()).c_str(), o.str().c_str(), route);
    SLIP_matrix *SA = mk_csc(A, as, r.pct(30) ? A.nnz() + r.below(20) : -1), *Sb = mk_dense(b, n, nrhs, bs), *x = NULL;
    if (!SA || !Sb) { c.fail("setup", "cannot create the input matrices"); }
    else
    {
        SLIP_info st;
        const char* what = "SLIP_backslash";
        if (route < 5) st = SL(SLIP_backslash(&x, SLIP_MPQ, SA, Sb, o.o));
        else
        {
            what = "SLIP_LU_solve";
            SLIP_LU_analysis* S = NULL; SLIP_matrix *L = NULL, *U = NULL, *rhos = NULL; int64_t* pinv = NULL;
            st = SL(SLIP_LU_analyze(&S, SA, o.o));
            if (st == SLIP_OK && route == 9)
            {
                auto q = r.perm(n);
                for (int64_t k = 0; k < n; k++) S->q[k] = q[k];
                if (r.pct(50)) { S->lnz = S->unz = n; }     // force the factors to grow
            }
            else if (st == SLIP_OK && r.pct(25)) { S->lnz = n; S->unz = n + r.below(n); }
            if (st == SLIP_OK) st = SL(SLIP_LU_factorize(&L, &U, &rhos, &pinv, SA, S, o.o));
            if (st == SLIP_OK) st = SL(SLIP_LU_solve(&x, Sb, SA, L, U, rhos, S, pinv, o.o));
            sfree(S); mfree(L); mfree(U); mfree(rhos); vfree(pinv);
        }
        if (st != SLIP_OK) c.fail("status", "%s returned %d for a nonsingular system", what, (int)st);
        else if (!x || x->kind != SLIP_DENSE || x->type != SLIP_MPQ || x->m != n || x->n != nrhs)
            c.fail("shape", "%s: solution has the wrong form", what);
        else
        {
            bool canon = true;
            int64_t tot = n * nrhs;
            for (int64_t k = 0; k < tot && canon; k++) canon = canonical(x->x.mpq[k]);
            if (!canon) c.fail("canonical", "%s: an entry of x is not in lowest terms", what);
            if (mpq_cmp_ui(x->scale, 1, 1) != 0) c.fail("scale", "%s: x->scale is not 1", what);
            int verdict = -1, checked = 0; int64_t wr = -1, wc = -1;
            for (int t = 0; t < 6 && checked < 2; t++)
            {
                int v = axb_mod(A, as, b, bs, nrhs, x, PRIMES[(r.below(8))], &wr, &wc);
                if (v >= 0) { checked++; verdict = v; }
                if (v == 0) break;
            }
            if (verdict == 0) c.fail("wrong", "%s: A x != b at row %ld, column %ld", what, (long)wr, (long)wc);
            else if (verdict == 1 && canon && n <= 10 && gi.vkind != 7 && nrhs <= 4)
            {
                cnt("exact_checks");
                if (!axb_exact(A, as, b, bs, nrhs, x)) c.fail("wrong", "%s: A x != b (rational check)", what);
            }
            cnt("entries_checked", tot); cnt("solved");
            cnt(fmt("route:%s", route < 5 ? "backslash" : route < 9 ? "steps" : "user_order"));
            if (!o.null) { cnt(fmt("order:%d", (int)o.order)); cnt(fmt("pivot:%d", (int)o.pivot)); }
            cnt(fmt("family:%d", gi.family));
            cntmax("n", n); cntmax("nrhs", nrhs);
            int64_t bits = 0;
            for (int64_t k = 0; k < tot; k++) bits = std::max<int64_t>(bits, mpz_sizeinbase(mpq_numref(x->x.mpq[k]), 2));
            cntmax("solution_bits", bits);
            if (n >= 2 && nrhs > 0) { Hash h; h.add(hash_mat(A)); h.add(route); h.add(o.order); h.add(o.pivot); c.sig(h.h); }
        }
    }
    mfree(SA); mfree(Sb); mfree(x); o.free();
    slip_fini();
    g_tr.live.clear(); g_tr.reset();
}

// C02: floating-point solutions are the rounded exact solution
#include "common.hpp"
#include "round.hpp"
void harness_init() {}

void run_case(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt g; g.maxn = 18; g.big_pct = 3; g.bigmaxn = 50; rare_large(r, g, 400, 60, 160);
    GenInfo gi;
    MatZ A = gen_square(r, g, &gi);
    int64_t n = A.n;
    if (!nonsingular(A, r)) { cnt("singular_skipped"); return; }
    Q as = gen_scale(r), bs = gen_scale(r);
    int64_t nrhs = r.pct(70) ? 1 : r.pct(2) && n < 20 ? r.range(20, 90) : r.range(2, 5);
    vector<Z> b = gen_rhs(r, n, nrhs);
    // sometimes choose b so that the solution is representable or a near tie
    if (r.pct(25))
    {
        as = 1; bs = 1;
        for (auto& v : b) v = 0;
        for (int64_t q = 0; q < nrhs; q++) for (int64_t j = 0; j < n; j++)
        {
            Z xv = rand_bits(r, (int)r.range(1, 200));
            if (r.pct(50)) { xv = (Z(1) << (unsigned)r.range(2, 150)) + (long)r.range(-1, 1); }
            if (r.pct(50)) xv = -xv;
            if (r.pct(10)) xv = 0;
            for (int64_t k = A.p[j]; k < A.p[j + 1]; k++) b[A.i[k] + q * n] += A.x[k] * xv;
        }
        if (r.pct(60)) bs = Q(Z(1) << (unsigned)r.below(100), 1);
        cnt("representable");
    }
    (r.pct(50) ? slip_init_tracked() : slip_init_plain());
    Opt o = gen_opt(r);
    int type = r.pct(65) ? SLIP_MPFR : SLIP_FP64;
    int64_t prec = 128; mpfr_rnd_t rnd = MPFR_RNDN;
    if (!o.null)
    {
        static const int P[] = {2, 3, 24, 53, 63, 64, 65, 128, 113, 256, 500};
        if (r.pct(85)) o.o->prec = prec = r.pct(60) ? P[r.below(11)] : r.range(2, 400);
        rnd = o.o->round = (mpfr_rnd_t)r.below(5);
    }
    c.desc = fmt("fam=%d vk=%d %s nrhs=%ld As=%s bs=%s %s type=%d prec=%ld rnd=%d", gi.family, gi.vkind, mat_str(A).c_str(), (long)nrhs,
        qstr(as.get_mpq_t()).c_str(), qstr(bs.get_mpq_t()).c_str(), o.str().c_str(), type, (long)prec, (int)rnd);
    SLIP_matrix *SA = mk_csc(A, as), *Sb = mk_dense(b, n, nrhs, bs), *x = NULL, *xq = NULL;
    SLIP_info st = SL(SLIP_backslash(&x, (SLIP_type)type, SA, Sb, o.o));
    // the exact solution, with independently chosen options
    Opt o2 = gen_opt(r);
    SLIP_info st2 = SL(SLIP_backslash(&xq, SLIP_MPQ, SA, Sb, o2.o));
    if (st != SLIP_OK || st2 != SLIP_OK) c.fail("status", "SLIP_backslash returned %d (exact: %d) for a nonsingular system", (int)st, (int)st2);
    else if (x->kind != SLIP_DENSE || x->type != type || x->m != n || x->n != nrhs) c.fail("shape", "the solution has the wrong form");
    else
    {
        int v = -1;
        for (int t = 0; t < 6 && v < 0; t++) v = axb_mod(A, as, b, bs, nrhs, xq, PRIMES[r.below(8)]);
        if (v == 0) c.fail("exact", "the exact solution is wrong");
        else for (int64_t k = 0; k < n * nrhs && !c.failed; k++)
        {
            mpq_srcptr q = xq->x.mpq[k];
            if (type == SLIP_MPFR)
            {
                mpfr_srcptr f = x->x.mpfr[k];
                if (mpfr_get_prec(f) != prec) c.fail("prec", "entry %ld has precision %ld, asked for %ld", (long)k, (long)mpfr_get_prec(f), (long)prec);
                else
                {
                    Rounded e = round_q(q, prec, rnd);
                    if (!mpfr_equals(f, e)) c.fail("round", "entry %ld: not %s rounded to %ld bits (mode %d)", (long)k, qstr(q).c_str(), (long)prec, (int)rnd);
                    cnt("mpfr_entries"); cnt(fmt("rnd:%d", (int)rnd)); if (e.inexact) cnt("inexact");
                }
            }
            else
            {
                int d = double_is_trunc(x->x.fp64[k], q);
                if (d < 0) cnt("out_of_double_range");
                else
                {
                    cnt("double_entries");
                    if (d == 0) c.fail("trunc", "entry %ld: %.17g is not %s truncated", (long)k, x->x.fp64[k], qstr(q).c_str());
                }
            }
        }
        Hash h; h.add(hash_mat(A)); h.add(type); h.add(prec); h.add(rnd);
        if (n >= 2) c.sig(h.h);
    }
    mfree(SA); mfree(Sb); mfree(x); mfree(xq); o.free(); o2.free();
    slip_fini();
    g_tr.live.clear(); g_tr.reset();
}

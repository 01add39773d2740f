// C26: hypot, complex division, version and clock of SuiteSparse_config, against MPFR.
#include "common.hpp"
#include <time.h>
void harness_init() {}
static double rnd(Rng& r, int lo, int hi)
{
    double m = r.pct(20) ? 1.0 : r.pct(10) ? 2 - DBL_EPSILON : 1 + r.unit(); double d = ldexp(m, (int)r.range(lo, hi));
    return r.pct(50) ? -d : d;
}
static double rnd_any(Rng& r)
{
    static const double S[] = { 0.0, -0.0, DBL_MAX, -DBL_MAX, DBL_MIN, -DBL_MIN, 4.9406564584124654e-324, 1, -1, 3, 4, 1e154, 1.4e154, 1e-162, 1e300, 1e308, 1.2e308, 1e-308, 1e-320, 0.1 };
    switch (r.below(6)) { case 0: return S[r.below(sizeof S / 8)]; case 1: return (double)r.range(-1000, 1000); case 2: { uint64_t u = r.next(); double d; memcpy(&d, &u, 8); if (isfinite(d)) return d; return 1; } default: return rnd(r, r.pct(50) ? -1074 : -60, r.pct(50) ? 1023 : 60); }
}
// |got - exact| in units of the last place of the exact value
static double ulps(double got, mpfr_srcptr ex)
{
    double e = mpfr_get_d(ex, MPFR_RNDN); double u = fabs(e) < DBL_MIN ? 4.9406564584124654e-324 : ldexp(1.0, ilogb(e) - 52);
    mpfr_t d; mpfr_init2(d, 300); mpfr_sub_d(d, ex, got, MPFR_RNDN); mpfr_abs(d, d, MPFR_RNDN); mpfr_div_d(d, d, u, MPFR_RNDU); double x = mpfr_get_d(d, MPFR_RNDU); mpfr_clear(d); return x;
}
static void hyp(Ctx& c)
{
    Rng& r = c.rng; double x = rnd_any(r), y = r.pct(20) ? x : r.pct(30) ? x * rnd(r, -60, 60) : rnd_any(r); if (!isfinite(y)) y = 1;
    if (r.pct(15)) { static const int T[][3] = {{3, 4, 5}, {5, 12, 13}, {8, 15, 17}, {20, 21, 29}, {7, 24, 25}, {9, 40, 41}}; int k = (int)r.below(6), e = (int)r.range(-1000, 1000); x = ldexp((double)T[k][0], e); y = ldexp((double)T[k][1], e); if (r.pct(50)) std::swap(x, y); }
    mpfr_t a, b; mpfr_init2(a, 400); mpfr_init2(b, 400); mpfr_set_d(a, x, MPFR_RNDN); mpfr_set_d(b, y, MPFR_RNDN); mpfr_hypot(a, a, b, MPFR_RNDN);
    double got[5] = { SuiteSparse_hypot(x, y), SuiteSparse_hypot(y, x), SuiteSparse_hypot(-x, y), SuiteSparse_hypot(x, -y), SuiteSparse_config.hypot_func(x, y) };
    double ex = mpfr_get_d(a, MPFR_RNDN); c.desc = fmt("hypot(%.17g, %.17g)", x, y);
    for (int k = 0; k < 5; k++)
    {
        double g = got[k]; cnt("hypot");
        if (isnan(g) || signbit(g)) c.fail("hypot:sign", "%s is %.17g (variant %d)", c.desc.c_str(), g, k);
        else if (isinf(g)) { mpfr_mul_d(b, a, 1 + 4 * DBL_EPSILON, MPFR_RNDN); if (mpfr_cmp_d(b, DBL_MAX) <= 0) c.fail("hypot:overflow", "%s is infinite, should be %.17g (variant %d)", c.desc.c_str(), ex, k); else cnt("hypot beyond the range"); }
        else if (isinf(ex)) { if (g < DBL_MAX * (1 - 4 * DBL_EPSILON)) c.fail("hypot:value", "%s is %.17g, should be infinite", c.desc.c_str(), g); }
        else { double u = ulps(g, a); cntmax("hypot error (1/100 ulp)", (int64_t)std::min(1e9, 100 * u)); if (u > 3) c.fail("hypot:value", "%s is %.17g, should be %.17g (variant %d)", c.desc.c_str(), g, ex, k); if (ex < DBL_MIN) cnt("hypot subnormal"); }
    }
    Hash h; uint64_t u; memcpy(&u, &x, 8); h.add(u); memcpy(&u, &y, 8); h.add(u); c.sig(h.h); mpfr_clear(a); mpfr_clear(b);
}
static void divc(Ctx& c)
{
    Rng& r = c.rng; int lo = -400, hi = 400; if (r.pct(50)) { lo = -30; hi = 30; }
    auto comp = [&]() { return r.pct(15) ? (r.pct(50) ? 0.0 : -0.0) : r.pct(15) ? (double)r.range(-9, 9) : rnd(r, lo, hi); };
    double ar = comp(), ai = comp(), br = comp(), bi = comp(); if (r.pct(15)) bi = r.pct(50) ? br : -br; if (r.pct(10)) { br = 0; } if (r.pct(10)) bi = 0; if (r.pct(10)) { ar = br; ai = bi; } if (r.pct(8)) { ar *= 1e-290; ai *= 1e-290; br = r.pct(50) ? 0.0 : -0.0; bi = r.pct(50) ? 0.0 : -0.0; }
    c.desc = fmt("(%.17g, %.17g) / (%.17g, %.17g)", ar, ai, br, bi);
    bool zero = br == 0 && bi == 0;
    if (!zero && r.pct(10)) { br = rnd_any(r); bi = rnd_any(r); zero = br == 0 && bi == 0; double p = 7, q = 7; c.desc = fmt("(%.17g, %.17g) / (%.17g, %.17g)", ar, ai, br, bi); int z = SuiteSparse_divcomplex(ar, ai, br, bi, &p, &q); cnt("denominators of any size"); if ((z != 0) != zero) c.fail("div:zero", "%s reports %d", c.desc.c_str(), z); return; }
    double cr = 0, ci = 0; int z = SuiteSparse_divcomplex(ar, ai, br, bi, &cr, &ci); cnt(zero ? "divisions by zero" : "divisions");
    if (z != (zero ? 1 : 0)) c.fail("div:zero", "%s reports %d", c.desc.c_str(), z);
    // the result may overwrite an operand
    for (int k = 0; k < 3; k++)
    {
        double p[4] = {ar, ai, br, bi}; int z2 = k == 0 ? SuiteSparse_divcomplex(p[0], p[1], p[2], p[3], &p[0], &p[1]) : k == 1 ? SuiteSparse_divcomplex(p[0], p[1], p[2], p[3], &p[2], &p[3]) : SuiteSparse_config.divcomplex_func(p[0], p[1], p[2], p[3], &p[1], &p[0]);
        double u = k == 1 ? p[2] : k == 2 ? p[1] : p[0], v = k == 1 ? p[3] : k == 2 ? p[0] : p[1];
        if (z2 != z || memcmp(&u, &cr, 8) || memcmp(&v, &ci, 8)) { if (!(zero && isnan(u) && isnan(cr))) c.fail("div:alias", "%s depends on where the result goes", c.desc.c_str()); }
        if (k == 0 && (memcmp(&p[2], &br, 8) || memcmp(&p[3], &bi, 8))) c.fail("div:operand", "%s changed the divisor", c.desc.c_str());
    }
    if (!zero)
    {
        mpfr_t t[8]; for (auto& x : t) mpfr_init2(x, 2000);
        mpfr_set_d(t[0], ar, MPFR_RNDN); mpfr_set_d(t[1], ai, MPFR_RNDN); mpfr_set_d(t[2], br, MPFR_RNDN); mpfr_set_d(t[3], bi, MPFR_RNDN);
        mpfr_fmma(t[4], t[2], t[2], t[3], t[3], MPFR_RNDN); mpfr_fmma(t[5], t[0], t[2], t[1], t[3], MPFR_RNDN); mpfr_fmms(t[6], t[1], t[2], t[0], t[3], MPFR_RNDN);
        mpfr_div(t[5], t[5], t[4], MPFR_RNDN); mpfr_div(t[6], t[6], t[4], MPFR_RNDN); mpfr_hypot(t[7], t[5], t[6], MPFR_RNDN);
        double er = mpfr_get_d(t[5], MPFR_RNDN), ei = mpfr_get_d(t[6], MPFR_RNDN);
        if (!isfinite(cr) || !isfinite(ci)) c.fail("div:range", "%s is (%g, %g), should be (%.17g, %.17g)", c.desc.c_str(), cr, ci, er, ei);
        else
        {
            mpfr_sub_d(t[5], t[5], cr, MPFR_RNDN); mpfr_sub_d(t[6], t[6], ci, MPFR_RNDN); mpfr_hypot(t[5], t[5], t[6], MPFR_RNDN);
            if (mpfr_zero_p(t[7])) { if (cr != 0 || ci != 0) c.fail("div:value", "%s is (%g, %g), should be zero", c.desc.c_str(), cr, ci); }
            else { mpfr_div(t[5], t[5], t[7], MPFR_RNDN); double e = mpfr_get_d(t[5], MPFR_RNDU) / DBL_EPSILON; cntmax("division error (1/100 eps)", (int64_t)std::min(1e9, 100 * e)); if (e > 5) c.fail("div:value", "%s is (%.17g, %.17g), should be (%.17g, %.17g)", c.desc.c_str(), cr, ci, er, ei); }
        }
        for (auto& x : t) mpfr_clear(x);
    }
    Hash h; for (double x : {ar, ai, br, bi}) { uint64_t u; memcpy(&u, &x, 8); h.add(u); } c.sig(h.h);
}
void run_case(Ctx& c)
{
    for (int k = 0; k < 20; k++) { hyp(c); divc(c); }
    int v[3] = {-1, -1, -1}; int x = SuiteSparse_version(v);
    if (x != SUITESPARSE_VERSION || v[0] != SUITESPARSE_MAIN_VERSION || v[1] != SUITESPARSE_SUB_VERSION || v[2] != SUITESPARSE_SUBSUB_VERSION || SuiteSparse_version(NULL) != x) c.fail("version", "SuiteSparse_version is %d (%d.%d.%d)", x, v[0], v[1], v[2]);
    double tic[2], t0 = SuiteSparse_time(); SuiteSparse_tic(tic); struct timespec w = {0, (long)c.rng.range(0, 200000)}; if (c.id % 50 == 0) nanosleep(&w, NULL); double e = SuiteSparse_toc(tic), t1 = SuiteSparse_time();
    if (!(e >= 0) || !(t1 >= t0) || e > t1 - t0 + 1e-6 || (c.id % 50 == 0 && e < 1e-9 * (double)w.tv_nsec)) c.fail("clock", "the clock runs %g s between calls %g s apart (slept %g s)", e, t1 - t0, 1e-9 * (double)w.tv_nsec);
    cnt("clock readings", 3);
}

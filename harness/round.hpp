// Independent rounding of rationals (integer arithmetic only).
#pragma once
#include "common.hpp"
struct Rounded { int sign = 0; Z mant; long exp = 0; bool inexact = false; };   // sign * mant * 2^exp

static inline Rounded round_q(mpq_srcptr q, int64_t prec, mpfr_rnd_t rnd)
{
    Rounded R; R.sign = mpq_sgn(q);
    if (R.sign == 0) return R;
    Z N, D; mpz_abs(N.get_mpz_t(), mpq_numref(q)); mpz_set(D.get_mpz_t(), mpq_denref(q));
    long e = (long)mpz_sizeinbase(N.get_mpz_t(), 2) - (long)mpz_sizeinbase(D.get_mpz_t(), 2) - prec;
    // want 2^(prec-1) <= N/(D 2^e) < 2^prec ; the estimate of e may be one too low
    Z m, rem;
    for (int t = 0; t < 3; t++)
    {
        Z a = N, d = D;
        if (e < 0) a <<= (unsigned long)-e; else d <<= (unsigned long)e;
        mpz_fdiv_qr(m.get_mpz_t(), rem.get_mpz_t(), a.get_mpz_t(), d.get_mpz_t());
        size_t nb = mpz_sizeinbase(m.get_mpz_t(), 2);
        if (nb > (size_t)prec) { e++; continue; }
        if (nb < (size_t)prec || m == 0) { e--; continue; }
        // decide
        bool up = false;
        if (rem != 0)
        {
            R.inexact = true;
            Z t2 = rem * 2; int cmp = ::cmp(t2, d);
            switch (rnd)
            {
                case MPFR_RNDN: up = cmp > 0 || (cmp == 0 && mpz_odd_p(m.get_mpz_t())); break;
                case MPFR_RNDZ: up = false; break;
                case MPFR_RNDU: up = R.sign > 0; break;
                case MPFR_RNDD: up = R.sign < 0; break;
                default: up = true; break;      // away from zero
            }
        }
        if (up) m += 1;
        break;
    }
    R.mant = m; R.exp = e;
    return R;
}
// exact value of an mpfr number as sign*mant*2^exp; false for nan/inf
static inline bool mpfr_decode(mpfr_srcptr f, int& sign, Z& mant, long& exp)
{
    if (mpfr_nan_p(f) || mpfr_inf_p(f)) return false;
    if (mpfr_zero_p(f)) { sign = 0; mant = 0; exp = 0; return true; }
    mpfr_prec_t p = f->_mpfr_prec; size_t nl = (p + 63) / 64;
    mpz_import(mant.get_mpz_t(), nl, -1, 8, 0, 0, f->_mpfr_d);
    sign = f->_mpfr_sign < 0 ? -1 : 1;
    exp = (long)f->_mpfr_exp - (long)(nl * 64);
    return true;
}
static inline bool mpfr_to_q(mpfr_srcptr f, Q& q)
{
    int s; Z m; long e;
    if (!mpfr_decode(f, s, m, e)) return false;
    if (s == 0) { q = 0; return true; }
    q = Q(m);
    if (e >= 0) mpq_mul_2exp(q.get_mpq_t(), q.get_mpq_t(), e); else mpq_div_2exp(q.get_mpq_t(), q.get_mpq_t(), -e);
    if (s < 0) q = -q;
    return true;
}
static inline bool mpfr_equals(mpfr_srcptr f, const Rounded& e)
{
    int s; Z m; long x;
    if (!mpfr_decode(f, s, m, x)) return false;
    if (s != e.sign) return false;
    if (s == 0) return true;
    // compare m*2^x with e.mant*2^e.exp
    Z a = m, b = e.mant;
    long d = x - e.exp;
    if (d > 100000 || d < -100000) return false;
    if (d >= 0) a <<= (unsigned long)d; else b <<= (unsigned long)-d;
    return a == b;
}
static inline Q q_of_double(double d) { Q q; mpq_set_d(q.get_mpq_t(), d); return q; }
// 1 if d is q truncated to a double, 0 if not, -1 if q is outside the normal range
static inline int double_is_trunc(double d, mpq_srcptr q)
{
    int s = mpq_sgn(q);
    if (s == 0) return d == 0;
    long e = (long)mpz_sizeinbase(mpq_numref(q), 2) - (long)mpz_sizeinbase(mpq_denref(q), 2);
    if (e > 1000 || e < -1000) return -1;
    if (!isfinite(d) || d == 0 || (d < 0) != (s < 0)) return 0;
    Q a = q_of_double(fabs(d)), b = q_of_double(nextafter(fabs(d), INFINITY)), x;
    mpq_abs(x.get_mpq_t(), q);
    return a <= x && x < b;
}

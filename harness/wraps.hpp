// A random program over every SLIP_mpz/mpq/mpfr wrapper, shadowed by GMP/MPFR.
#pragma once
#include "common.hpp"
#include "zoo.hpp"
static const int NV = 4;
// run a raw MPFR expression of the harness without sharing MPFR's caches with the library
#define RAWF(e) do { SL((mpfr_free_cache(), 0)); e; mpfr_free_cache(); } while (0)
struct Wraps
{
    Ctx& c; Rng& r; bool check;
    mpz_t z[NV]; mpq_t q[NV]; mpfr_t f[NV];     // owned by the library session
    Z sz[NV]; Q sq[NV]; mpfr_t sf[NV];          // shadows
    string trace;
    bool ok = true;
    Wraps(Ctx& c_, bool check_ = true) : c(c_), r(c_.rng), check(check_) {}
    void bad(const string& what, const char* why) { if (!check) return; c.fail("wrapper:" + what, "%s: %s; history %s", what.c_str(), why, trace.c_str()); ok = false; }
    static bool same_z(mpz_srcptr a, mpz_srcptr b) { return mpz_cmp(a, b) == 0 && a->_mp_size == b->_mp_size; }
    static bool same_f(mpfr_srcptr a, mpfr_srcptr b)
    {
        if (a->_mpfr_prec != b->_mpfr_prec) return false;
        if (mpfr_nan_p(a) || mpfr_nan_p(b)) return mpfr_nan_p(a) && mpfr_nan_p(b);
        return a->_mpfr_sign == b->_mpfr_sign && mpfr_equal_p(a, b);
    }
    Z rz() { return r.pct(12) ? Z(0) : gen_value(r, (int)r.below(NVKIND)); }
    mpfr_rnd_t rr() { return (mpfr_rnd_t)r.below(5); }
    long rsi() { return r.pct(20) ? (r.pct(50) ? LONG_MIN + r.below(3) : LONG_MAX - r.below(3)) : r.pct(15) ? 0 : (long)((int64_t)r.next() >> r.below(63)); }
    unsigned long rui() { return r.pct(20) ? ULONG_MAX - r.below(3) : r.pct(15) ? r.below(3) : r.next() >> r.below(63); }
    double rd() { return r.pct(15) ? 0.0 : gen_double(r, true); }
    void start()
    {
        for (int k = 0; k < NV; k++)
        {
            if (r.pct(50)) { if (SL(SLIP_mpz_init(z[k])) != SLIP_OK) bad("mpz_init", "status"); }
            else if (SL(SLIP_mpz_init2(z[k], (size_t)r.range(1, 300))) != SLIP_OK) bad("mpz_init2", "status");
            if (mpz_sgn(z[k]) != 0) bad("mpz_init", "not zero");
            if (SL(SLIP_mpq_init(q[k])) != SLIP_OK || mpq_sgn(q[k]) != 0 || mpz_cmp_ui(mpq_denref(q[k]), 1)) bad("mpq_init", "not zero");
            static const int pr[] = {2, 24, 53, 64, 65, 113, 128, 300}; uint64_t p = pr[r.below(8)];
            if (SL(SLIP_mpfr_init2(f[k], p)) != SLIP_OK || f[k]->_mpfr_prec != (mpfr_prec_t)p || !mpfr_nan_p(f[k])) bad("mpfr_init2", "wrong precision or value");
            mpfr_init2(sf[k], p);
        }
        for (int k = 0; k < NV; k++) { fresh_z(k); fresh_q(k); fresh_f(k); }
    }
    void finish()
    {
        for (int k = 0; k < NV; k++) { SL((mpz_clear(z[k]), 0)); SL((mpq_clear(q[k]), 0)); SL((mpfr_clear(f[k]), 0)); mpfr_clear(sf[k]); }
        SL((mpfr_free_cache(), 0));
    }
    void fresh_z(int k) { sz[k] = rz(); if (SL(SLIP_mpz_set(z[k], sz[k].get_mpz_t())) != SLIP_OK) bad("mpz_set", "status"); }
    void fresh_q(int k) { Z d = abs(rz()); if (d == 0 || r.pct(30)) d = 1; sq[k] = Q(rz(), d); sq[k].canonicalize(); if (SL(SLIP_mpq_set(q[k], sq[k].get_mpq_t())) != SLIP_OK) bad("mpq_set", "status"); }
    void fresh_f(int k)
    {
        switch (r.below(8))
        {
            case 0: mpfr_set_nan(sf[k]); break;
            case 1: mpfr_set_inf(sf[k], r.pct(50) ? 1 : -1); break;
            case 2: mpfr_set_zero(sf[k], r.pct(50) ? 1 : -1); break;
            default: { mpfr_set_ui(sf[k], 1, MPFR_RNDN); for (int s = 0; s < 8; s++) { mpfr_mul_2ui(sf[k], sf[k], 40, MPFR_RNDN); mpfr_add_ui(sf[k], sf[k], r.next() & 0xffffffffff, MPFR_RNDN); }
                mpfr_mul_2si(sf[k], sf[k], -r.range(180, 420), MPFR_RNDN); if (r.pct(45)) mpfr_neg(sf[k], sf[k], MPFR_RNDN); }
        }
        if (SL(SLIP_mpfr_set(f[k], sf[k], MPFR_RNDN)) != SLIP_OK) bad("mpfr_set", "status");
    }
    void limit()
    {
        for (int k = 0; k < NV; k++)
        {
            if (mpz_sizeinbase(sz[k].get_mpz_t(), 2) > 6000) fresh_z(k);
            if (mpz_sizeinbase(mpq_numref(sq[k].get_mpq_t()), 2) > 6000 || mpz_sizeinbase(mpq_denref(sq[k].get_mpq_t()), 2) > 6000) fresh_q(k);
            if (mpfr_regular_p(sf[k]) && labs(sf[k]->_mpfr_exp) > 5000) fresh_f(k);
        }
    }
    void compare(const string& what)
    {
        for (int k = 0; k < NV && ok; k++)
        {
            if (!same_z(z[k], sz[k].get_mpz_t())) bad(what, fmt("mpz %d is %s, expected %s", k, zstr(z[k]).c_str(), zstr(sz[k].get_mpz_t()).c_str()).c_str());
            else if (!same_z(mpq_numref(q[k]), mpq_numref(sq[k].get_mpq_t())) || !same_z(mpq_denref(q[k]), mpq_denref(sq[k].get_mpq_t())))
                bad(what, fmt("mpq %d is %s, expected %s", k, qstr(q[k]).c_str(), qstr(sq[k].get_mpq_t()).c_str()).c_str());
            else if (!same_f(f[k], sf[k])) bad(what, fmt("mpfr %d is %.17g, expected %.17g", k, mpfr_get_d(f[k], MPFR_RNDN), mpfr_get_d(sf[k], MPFR_RNDN)).c_str());
        }
    }
    static int sg(int v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
    static bool same_d(double a, double b) { return memcmp(&a, &b, 8) == 0 || (isnan(a) && isnan(b)); }
    static const int NOPS = 56;
    // one random operation
    void step(int op = -1)
    {
        if (op < 0) op = (int)r.below(NOPS);
        int a = (int)r.below(NV), b = (int)r.below(NV), d = (int)r.below(NV);
        if (r.pct(25)) b = a;
        if (r.pct(20)) d = a;
        if (r.pct(15)) d = b;
        string w; SLIP_info s = SLIP_OK; int ri = 99, re = 99; double xd = 0, ed = 0; int64_t xi = 0, ei = 0;
        mpfr_rnd_t rnd = rr();
        #define OP(n, name) case n: w = name; trace += fmt("%s(%d,%d,%d) ", name, a, b, d); if (trace.size() > 900) trace = trace.substr(400);
        switch (op)
        {
            OP(0, "mpz_set") s = SL(SLIP_mpz_set(z[a], z[b])); mpz_set(sz[a].get_mpz_t(), sz[b].get_mpz_t()); break;
            OP(1, "mpz_set_ui") { unsigned long u = rui(); s = SL(SLIP_mpz_set_ui(z[a], u)); mpz_set_ui(sz[a].get_mpz_t(), u); break; }
            OP(2, "mpz_set_si") { long u = rsi(); s = SL(SLIP_mpz_set_si(z[a], u)); mpz_set_si(sz[a].get_mpz_t(), u); break; }
            OP(3, "mpz_get_d") s = SL(SLIP_mpz_get_d(&xd, z[a])); ed = mpz_get_d(sz[a].get_mpz_t()); break;
            OP(4, "mpz_get_si") s = SL(SLIP_mpz_get_si(&xi, z[a])); ei = mpz_get_si(sz[a].get_mpz_t()); break;
            OP(5, "mpz_set_q") s = SL(SLIP_mpz_set_q(z[a], q[b])); mpz_set_q(sz[a].get_mpz_t(), sq[b].get_mpq_t()); break;
            case 6: OP(7, "mpz_mul") s = SL(SLIP_mpz_mul(z[a], z[b], z[d])); mpz_mul(sz[a].get_mpz_t(), sz[b].get_mpz_t(), sz[d].get_mpz_t()); break;
            case 8: OP(9, "mpz_submul") s = SL(SLIP_mpz_submul(z[a], z[b], z[d])); mpz_submul(sz[a].get_mpz_t(), sz[b].get_mpz_t(), sz[d].get_mpz_t()); break;
            case 10: OP(11, "mpz_divexact")
            {
                if (sz[d] == 0) { sz[d] = 3; SL(SLIP_mpz_set_ui(z[d], 3)); }
                if (b != d) { sz[b] = sz[d] * rz(); SL(SLIP_mpz_set(z[b], sz[b].get_mpz_t())); }
                s = SL(SLIP_mpz_divexact(z[a], z[b], z[d])); mpz_divexact(sz[a].get_mpz_t(), sz[b].get_mpz_t(), sz[d].get_mpz_t()); break;
            }
            OP(12, "mpz_gcd") s = SL(SLIP_mpz_gcd(z[a], z[b], z[d])); mpz_gcd(sz[a].get_mpz_t(), sz[b].get_mpz_t(), sz[d].get_mpz_t()); break;
            OP(13, "mpz_lcm") s = SL(SLIP_mpz_lcm(z[a], z[b], z[d])); mpz_lcm(sz[a].get_mpz_t(), sz[b].get_mpz_t(), sz[d].get_mpz_t()); break;
            OP(14, "mpz_abs") s = SL(SLIP_mpz_abs(z[a], z[b])); mpz_abs(sz[a].get_mpz_t(), sz[b].get_mpz_t()); break;
            OP(15, "mpz_cmp") s = SL(SLIP_mpz_cmp(&ri, z[a], z[b])); ri = sg(ri); re = sg(mpz_cmp(sz[a].get_mpz_t(), sz[b].get_mpz_t())); break;
            OP(16, "mpz_cmpabs") s = SL(SLIP_mpz_cmpabs(&ri, z[a], z[b])); ri = sg(ri); re = sg(mpz_cmpabs(sz[a].get_mpz_t(), sz[b].get_mpz_t())); break;
            OP(17, "mpz_cmp_ui") { unsigned long u = r.pct(40) && sz[a].fits_ulong_p() ? sz[a].get_ui() : rui(); s = SL(SLIP_mpz_cmp_ui(&ri, z[a], u)); ri = sg(ri); re = sg(mpz_cmp_ui(sz[a].get_mpz_t(), u)); break; }
            OP(18, "mpz_sgn") s = SL(SLIP_mpz_sgn(&ri, z[a])); re = mpz_sgn(sz[a].get_mpz_t()); break;
            OP(19, "mpz_sizeinbase") { size_t x = 0; int base = (int)r.range(2, 62); s = SL(SLIP_mpz_sizeinbase(&x, z[a], base)); xi = (int64_t)x; ei = (int64_t)mpz_sizeinbase(sz[a].get_mpz_t(), base); break; }
            OP(20, "mpq_set") s = SL(SLIP_mpq_set(q[a], q[b])); mpq_set(sq[a].get_mpq_t(), sq[b].get_mpq_t()); break;
            OP(21, "mpq_set_z") s = SL(SLIP_mpq_set_z(q[a], z[b])); mpq_set_z(sq[a].get_mpq_t(), sz[b].get_mpz_t()); break;
            OP(22, "mpq_set_d") { double x = rd(); s = SL(SLIP_mpq_set_d(q[a], x)); mpq_set_d(sq[a].get_mpq_t(), x); break; }
            OP(23, "mpq_set_ui") { unsigned long u = rui(), v = rui(); if (!v) v = 7; s = SL(SLIP_mpq_set_ui(q[a], u, v)); mpq_set_ui(sq[a].get_mpq_t(), u, v); break; }
            case 24: OP(25, "mpq_set_si") { long u = rsi(); unsigned long v = rui(); if (!v) v = 7; s = SL(SLIP_mpq_set_si(q[a], u, v)); mpq_set_si(sq[a].get_mpq_t(), u, v); break; }
            OP(26, "mpq_set_num") s = SL(SLIP_mpq_set_num(q[a], z[b])); mpq_set_num(sq[a].get_mpq_t(), sz[b].get_mpz_t()); break;
            OP(27, "mpq_set_den") if (sz[b] == 0) { sz[b] = -5; SL(SLIP_mpz_set_si(z[b], -5)); } s = SL(SLIP_mpq_set_den(q[a], z[b])); mpq_set_den(sq[a].get_mpq_t(), sz[b].get_mpz_t()); break;
            OP(28, "mpq_get_den") s = SL(SLIP_mpq_get_den(z[a], q[b])); mpq_get_den(sz[a].get_mpz_t(), sq[b].get_mpq_t()); break;
            OP(29, "mpq_get_d") s = SL(SLIP_mpq_get_d(&xd, q[a])); ed = mpq_get_d(sq[a].get_mpq_t()); break;
            OP(30, "mpq_abs") s = SL(SLIP_mpq_abs(q[a], q[b])); mpq_abs(sq[a].get_mpq_t(), sq[b].get_mpq_t()); break;
            OP(31, "mpq_add") s = SL(SLIP_mpq_add(q[a], q[b], q[d])); mpq_add(sq[a].get_mpq_t(), sq[b].get_mpq_t(), sq[d].get_mpq_t()); break;
            OP(32, "mpq_mul") s = SL(SLIP_mpq_mul(q[a], q[b], q[d])); mpq_mul(sq[a].get_mpq_t(), sq[b].get_mpq_t(), sq[d].get_mpq_t()); break;
            OP(33, "mpq_div") if (sq[d] == 0) { sq[d] = Q(2, 3); SL(SLIP_mpq_set_ui(q[d], 2, 3)); } s = SL(SLIP_mpq_div(q[a], q[b], q[d])); mpq_div(sq[a].get_mpq_t(), sq[b].get_mpq_t(), sq[d].get_mpq_t()); break;
            OP(34, "mpq_cmp") s = SL(SLIP_mpq_cmp(&ri, q[a], q[b])); ri = sg(ri); re = sg(mpq_cmp(sq[a].get_mpq_t(), sq[b].get_mpq_t())); break;
            OP(35, "mpq_cmp_ui") { unsigned long u = rui(), v = rui(); if (!v) v = 1; if (r.pct(40) && mpz_fits_ulong_p(mpq_numref(sq[a].get_mpq_t())) && mpz_fits_ulong_p(mpq_denref(sq[a].get_mpq_t()))) { u = mpz_get_ui(mpq_numref(sq[a].get_mpq_t())); v = mpz_get_ui(mpq_denref(sq[a].get_mpq_t())); }
                s = SL(SLIP_mpq_cmp_ui(&ri, q[a], u, v)); ri = sg(ri); re = sg(mpq_cmp_ui(sq[a].get_mpq_t(), u, v)); break; }
            OP(36, "mpq_sgn") s = SL(SLIP_mpq_sgn(&ri, q[a])); re = mpq_sgn(sq[a].get_mpq_t()); break;
            OP(37, "mpq_equal") s = SL(SLIP_mpq_equal(&ri, q[a], q[b])); ri = ri != 0; re = mpq_equal(sq[a].get_mpq_t(), sq[b].get_mpq_t()) != 0; break;
            OP(38, "mpfr_set") s = SL(SLIP_mpfr_set(f[a], f[b], rnd)); mpfr_set(sf[a], sf[b], rnd); break;
            OP(39, "mpfr_set_d") { double x = rd(); if (r.pct(5)) x = INFINITY; s = SL(SLIP_mpfr_set_d(f[a], x, rnd)); mpfr_set_d(sf[a], x, rnd); break; }
            OP(40, "mpfr_set_si") { long u = rsi(); s = SL(SLIP_mpfr_set_si(f[a], u, rnd)); mpfr_set_si(sf[a], u, rnd); break; }
            OP(41, "mpfr_set_q") s = SL(SLIP_mpfr_set_q(f[a], q[b], rnd)); RAWF(mpfr_set_q(sf[a], sq[b].get_mpq_t(), rnd)); break;
            OP(42, "mpfr_set_z") s = SL(SLIP_mpfr_set_z(f[a], z[b], rnd)); RAWF(mpfr_set_z(sf[a], sz[b].get_mpz_t(), rnd)); break;
            OP(43, "mpfr_get_z") s = SL(SLIP_mpfr_get_z(z[a], f[b], rnd)); RAWF(mpfr_get_z(sz[a].get_mpz_t(), sf[b], rnd)); break;
            OP(44, "mpfr_get_q") { if (!mpfr_number_p(sf[b])) { fresh_z(0); mpfr_set_si(sf[b], -77, MPFR_RNDN); SL(SLIP_mpfr_set(f[b], sf[b], MPFR_RNDN)); }
                s = SL(SLIP_mpfr_get_q(q[a], f[b], rnd)); RAWF(mpfr_get_q(sq[a].get_mpq_t(), sf[b])); break; }
            OP(45, "mpfr_get_d") s = SL(SLIP_mpfr_get_d(&xd, f[a], rnd)); RAWF(ed = mpfr_get_d(sf[a], rnd)); break;
            OP(46, "mpfr_get_si") s = SL(SLIP_mpfr_get_si(&xi, f[a], rnd)); RAWF(ei = mpfr_get_si(sf[a], rnd)); break;
            OP(47, "mpfr_mul") s = SL(SLIP_mpfr_mul(f[a], f[b], f[d], rnd)); RAWF(mpfr_mul(sf[a], sf[b], sf[d], rnd)); break;
            OP(48, "mpfr_mul_d") { double x = rd(); s = SL(SLIP_mpfr_mul_d(f[a], f[b], x, rnd)); RAWF(mpfr_mul_d(sf[a], sf[b], x, rnd)); break; }
            OP(49, "mpfr_div_d") { double x = rd(); s = SL(SLIP_mpfr_div_d(f[a], f[b], x, rnd)); RAWF(mpfr_div_d(sf[a], sf[b], x, rnd)); break; }
            OP(50, "mpfr_ui_pow_ui") { unsigned long u = r.pct(60) ? r.below(20) : rui(), v = r.below(r.pct(50) ? 10 : 200); if (r.pct(30)) u = 2; s = SL(SLIP_mpfr_ui_pow_ui(f[a], u, v, rnd)); RAWF(mpfr_ui_pow_ui(sf[a], u, v, rnd)); break; }
            OP(51, "mpfr_sgn") s = SL(SLIP_mpfr_sgn(&ri, f[a])); ri = sg(ri); re = sg(mpfr_sgn(sf[a])); break;
            OP(52, "mpfr_free_cache") s = SL(SLIP_mpfr_free_cache()); break;
            case 53: OP(54, "mpfr_asprintf") asprintf_step(a, b, d); break;
            OP(55, "gmp_fscanf") fscanf_step(a, b, d); break;
        }
        #undef OP
        if (s != SLIP_OK) bad(w, fmt("status %d", (int)s).c_str());
        else if (ri != re) bad(w, fmt("result %d, expected %d", ri, re).c_str());
        else if (!same_d(xd, ed)) bad(w, fmt("result %.17g, expected %.17g", xd, ed).c_str());
        else if (xi != ei) bad(w, fmt("result %ld, expected %ld", (long)xi, (long)ei).c_str());
        else compare(w);
        if (op >= 23 && op <= 27) { SL((mpq_canonicalize(q[a]), 0)); sq[a].canonicalize(); }    // as GMP asks the user to
        cnt("op:" + w);
        limit();
    }
    void asprintf_step(int a, int b, int d)
    {
        char *s1 = NULL, *s2 = NULL; SLIP_info st = SLIP_OK; int n2 = 0; long u = rsi(); double x = rd(); int p = (int)r.below(60);
        #define PR(...) { st = SL(SLIP_mpfr_asprintf(&s1, __VA_ARGS__)); n2 = 1; }
        int k = (int)r.below(8);
        if (k == 0) PR("%Zd", z[a]) else if (k == 1) PR("%Qd", q[a]) else if (k == 2) PR("%.*Rf", p, f[a]) else if (k == 3) PR("%Re|%s|%ld", f[a], "abc", u)
        else if (k == 4) PR("%ld %.17g", u, x) else if (k == 5) PR("%Zx %Qd %RNg", z[a], q[b], f[d]) else if (k == 6) PR("plain text %d%%\n", 7) else PR("%#Zx %10Zd", z[a], z[b])
        #undef PR
        (void)n2;
        int n = 0;
        #define PR(...) { RAWF(n = mpfr_asprintf(&s2, __VA_ARGS__)); }
        if (k == 0) PR("%Zd", sz[a].get_mpz_t()) else if (k == 1) PR("%Qd", sq[a].get_mpq_t()) else if (k == 2) PR("%.*Rf", p, sf[a]) else if (k == 3) PR("%Re|%s|%ld", sf[a], "abc", u)
        else if (k == 4) PR("%ld %.17g", u, x) else if (k == 5) PR("%Zx %Qd %RNg", sz[a].get_mpz_t(), sq[b].get_mpq_t(), sf[d]) else if (k == 6) PR("plain text %d%%\n", 7) else PR("%#Zx %10Zd", sz[a].get_mpz_t(), sz[b].get_mpz_t())
        #undef PR
        if (st != SLIP_OK || !s1) bad("mpfr_asprintf", fmt("status %d", (int)st).c_str());
        else if (n < 0 || strcmp(s1, s2)) bad("mpfr_asprintf", fmt("text '%.80s', expected '%.80s'", s1, s2).c_str());
        if (s1 && SL(SLIP_mpfr_free_str(s1)) != SLIP_OK) bad("mpfr_free_str", "status");
        if (s2) mpfr_free_str(s2);
        cnt("op:mpfr_free_str");
    }
    void fscanf_step(int a, int b, int d)
    {
        string t; int k = (int)r.below(6); Z v = rz(), v2 = rz(); Q w(rz(), abs(rz()) + 1); w.canonicalize(); long u = rsi();
        int cut = r.pct(25) ? 1 : 0;        // truncated or bad text
        if (k == 0) t = v.get_str(); else if (k == 1) t = w.get_str(); else if (k == 2) t = v.get_str() + " " + w.get_str() + "  \n" + std::to_string(u);
        else if (k == 3) t = std::to_string(u) + " " + std::to_string(r.below(100)) + " " + v.get_str(16); else if (k == 4) t = v.get_str() + "\n" + v2.get_str(); else t = "xyz " + v.get_str();
        if (cut) { int how = (int)r.below(3); if (how == 0) t = ""; else if (how == 1) t = t.substr(0, r.below(t.size() + 1)); else t = "?" + t; }
        if (r.pct(50)) t += "\n rest 12 34";
        char tbuf[8] = " ";
        FILE* f1 = t.empty() ? fmemopen(tbuf, 1, "r") : fmemopen((void*)t.data(), t.size(), "r"); FILE* f2 = t.empty() ? fmemopen(tbuf, 1, "r") : fmemopen((void*)t.data(), t.size(), "r");
        if (!f1 || !f2) { if (f1) fclose(f1); if (f2) fclose(f2); return; }
        SLIP_info st = SLIP_OK; int n = 0; long l1 = 5, l2 = 5, m1 = 6, m2 = 6;
        switch (k)
        {
            case 0: case 5: st = SL(SLIP_gmp_fscanf(f1, "%Zd", z[a])); n = gmp_fscanf(f2, "%Zd", sz[a].get_mpz_t()); break;
            case 1: st = SL(SLIP_gmp_fscanf(f1, "%Qd", q[b])); n = gmp_fscanf(f2, "%Qd", sq[b].get_mpq_t()); break;
            case 2: st = SL(SLIP_gmp_fscanf(f1, "%Zd %Qd %ld", z[a], q[b], &l1)); n = gmp_fscanf(f2, "%Zd %Qd %ld", sz[a].get_mpz_t(), sq[b].get_mpq_t(), &l2); break;
            case 3: st = SL(SLIP_gmp_fscanf(f1, "%ld %ld %Zx", &l1, &m1, z[d])); n = gmp_fscanf(f2, "%ld %ld %Zx", &l2, &m2, sz[d].get_mpz_t()); break;
            case 4: st = SL(SLIP_gmp_fscanf(f1, "%Zd", z[a])); n = gmp_fscanf(f2, "%Zd", sz[a].get_mpz_t());
                if (st == (n < 0 ? SLIP_INCORRECT_INPUT : SLIP_OK)) { st = SL(SLIP_gmp_fscanf(f1, "%Zd", z[b])); n = gmp_fscanf(f2, "%Zd", sz[b].get_mpz_t()); } break;
        }
        if (st != (n < 0 ? SLIP_INCORRECT_INPUT : SLIP_OK)) bad("gmp_fscanf", fmt("status %d, %d fields, text '%.60s' k=%d", (int)st, n, t.c_str(), k).c_str());
        else if (l1 != l2 || m1 != m2) bad("gmp_fscanf", "wrong integer");
        else if (ftell(f1) != ftell(f2)) bad("gmp_fscanf", "read a different amount of text");
        cnt(n < 0 ? "fscanf_eof" : "fscanf_ok");
        fclose(f1); fclose(f2);
        // a partial read may leave a denominator of 0
        for (int e = 0; e < NV; e++)
        {
            bool eq = same_z(mpq_numref(q[e]), mpq_numref(sq[e].get_mpq_t())) && same_z(mpq_denref(q[e]), mpq_denref(sq[e].get_mpq_t()));
            if (!eq) { bad("gmp_fscanf", "wrong mpq"); return; }
            if (mpz_sgn(mpq_denref(sq[e].get_mpq_t())) == 0) fresh_q(e); else { SL((mpq_canonicalize(q[e]), 0)); sq[e].canonicalize(); }
        }
    }
};

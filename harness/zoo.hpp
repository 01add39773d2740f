// Random matrices of all 15 formats, deep digests, and values read back independently.
#pragma once
#include "common.hpp"
#include "round.hpp"
static const char* KIND[] = {"csc", "triplet", "dense"};
static const char* TYPE[] = {"mpz", "mpq", "mpfr", "int64", "fp64"};
enum { SP_NONE = 0, SP_PINF, SP_NINF, SP_NAN };

// random finite double of many shapes
static inline double gen_double(Rng& r, bool extreme)
{
    double d;
    switch (r.below(extreme ? 12 : 7))
    {
        case 0: d = (double)r.range(0, 9); break;
        case 1: d = (double)r.range(0, 1000000); break;
        case 2: d = r.unit(); break;
        case 3: d = (double)r.range(1, 999) / 8.0; break;
        case 4: d = r.unit() * pow(10, (double)r.range(-12, 12)); break;
        case 5: d = (double)r.range(1, 99999) / 100.0; break;
        case 6: d = ldexp(1.0, (int)r.range(-20, 62)); break;
        case 7: d = ldexp(r.unit() + 1, (int)r.range(-300, 300)); break;
        case 8: { static const double t[] = { 9223372036854775807.0, 9223372036854774784.0, 9223372036854777856.0, 1e19, 4503599627370496.5, 9007199254740993.0, 1e-300, 1e-17, 5e-18, 1e-18 }; d = t[r.below(10)]; break; }
        case 9: d = DBL_MIN * r.unit(); break;
        case 10: d = DBL_MAX * r.unit(); break;
        default: d = ldexp(1.0, (int)r.range(60, 66)); break;
    }
    return r.pct(45) ? -d : d;
}
// vm: 0 tame, 1 mixed, 2 extreme (no inf/nan), 3 mostly zero, 4 inf and nan too
static inline void set_val(Rng& r, SLIP_matrix* A, int64_t k, int vm, mpfr_rnd_t rnd)
{
    bool zero = r.pct(vm == 3 ? 70 : 12);
    switch (A->type)
    {
        case SLIP_MPZ:
        {
            Z v = zero ? Z(0) : gen_value(r, vm == 0 ? (int)r.below(3) : vm == 1 || vm == 3 ? (int)r.below(7) : (int)r.below(NVKIND));
            SL(SLIP_mpz_set(A->x.mpz[k], v.get_mpz_t()));
            break;
        }
        case SLIP_MPQ:
        {
            Q v = 0;
            if (!zero)
            {
                Z a = gen_value(r, vm == 0 ? (int)r.below(3) : (int)r.below(7)), b = r.pct(30) ? Z(1) : abs(gen_value(r, vm == 0 ? 0 : (int)r.below(7)));
                if (vm >= 2 && r.pct(20)) b = Z(1) << (unsigned)r.range(1, 1200);
                v = Q(a, b); v.canonicalize();
            }
            SL(SLIP_mpq_set(A->x.mpq[k], v.get_mpq_t()));
            break;
        }
        case SLIP_MPFR:
        {
            mpfr_ptr x = A->x.mpfr[k];
            if (zero) { mpfr_set_zero(x, r.pct(20) ? -1 : 1); break; }
            if (vm == 4 && r.pct(25)) { switch (r.below(3)) { case 0: mpfr_set_inf(x, 1); break; case 1: mpfr_set_inf(x, -1); break; default: mpfr_set_nan(x); } break; }
            int t = (int)r.below(vm == 0 ? 2 : 4);
            if (t == 0) mpfr_set_si(x, r.range(-1000, 1000), rnd);
            else if (t == 1) mpfr_set_d(x, gen_double(r, false), rnd);
            else
            {   // full mantissa
                mpfr_set_ui(x, 1, rnd);
                for (int s = 0; s < 6; s++) { mpfr_mul_2ui(x, x, 40, rnd); mpfr_add_ui(x, x, r.next() & 0xffffffffff, rnd); }
                mpfr_mul_2si(x, x, -r.range(200, 290), rnd);
                if (vm >= 2 && t == 3) mpfr_mul_2si(x, x, r.range(-400, 400), rnd);
                if (r.pct(45)) mpfr_neg(x, x, rnd);
            }
            break;
        }
        case SLIP_INT64:
            A->x.int64[k] = zero ? 0 : vm == 0 ? r.range(-9, 9) : r.pct(40) ? r.range(-1000000, 1000000) : r.pct(vm >= 2 ? 40 : 10) ? (r.pct(50) ? INT64_MIN + r.below(3) : INT64_MAX - r.below(3)) : (int64_t)r.next() >> r.below(63);
            break;
        default:
            if (zero) A->x.fp64[k] = r.pct(20) ? -0.0 : 0.0;
            else if (vm == 4 && r.pct(25)) { switch (r.below(3)) { case 0: A->x.fp64[k] = INFINITY; break; case 1: A->x.fp64[k] = -INFINITY; break; default: A->x.fp64[k] = NAN; } }
            else A->x.fp64[k] = gen_double(r, vm >= 2);
            break;
    }
}
struct ZooOpt { int maxdim = 8; int vm = -1; bool jumbled = true; int density = -1; bool scale = true; };
// Build a valid matrix of the format.  option may be NULL (its prec is used for mpfr entries).
static inline SLIP_matrix* mk_zoo(Rng& r, SLIP_kind kind, SLIP_type type, int64_t m, int64_t n, const SLIP_options* o, const ZooOpt& z)
{
    int vm = z.vm >= 0 ? z.vm : (int)r.below(4);
    int den = z.density >= 0 ? z.density : (int)r.range(0, 100);
    vector<std::pair<int64_t, int64_t>> e;      // (i,j) column by column
    vector<int64_t> cp(1, 0);
    if (kind != SLIP_DENSE)
        for (int64_t j = 0; j < n; j++)
        {
            vector<int64_t> col;
            for (int64_t i = 0; i < m; i++) if (r.pct(den)) col.push_back(i);
            if (z.jumbled && r.pct(40)) r.shuffle(col);
            for (auto i : col) e.push_back({i, j});
            cp.push_back((int64_t)e.size());
        }
    if (kind == SLIP_TRIPLET && r.pct(60)) r.shuffle(e);
    int64_t nz = kind == SLIP_DENSE ? m * n : (int64_t)e.size();
    SLIP_matrix* A = NULL;
    if (SL(SLIP_matrix_allocate(&A, kind, type, m, n, nz + (kind != SLIP_DENSE && r.pct(40) ? r.below(6) : 0), false, true, o)) != SLIP_OK || !A) return NULL;
    if (kind == SLIP_CSC) for (int64_t j = 0; j <= n; j++) A->p[j] = cp[j];
    if (kind != SLIP_DENSE) for (int64_t k = 0; k < nz; k++) A->i[k] = e[k].first;
    if (kind == SLIP_TRIPLET) { for (int64_t k = 0; k < nz; k++) A->j[k] = e[k].second; A->nz = nz; }
    mpfr_rnd_t rnd = o ? o->round : MPFR_RNDN;
    for (int64_t k = 0; k < nz; k++) set_val(r, A, k, vm, rnd);
    if (type == SLIP_MPZ && z.scale)
    {
        Q s = gen_scale(r);
        SL(SLIP_mpq_set(A->scale, s.get_mpq_t()));
    }
    return A;
}
static inline int64_t zoo_nz(const SLIP_matrix* A)
{ return A->kind == SLIP_DENSE ? A->m * A->n : A->kind == SLIP_CSC ? A->p[A->n] : A->nz; }
// stored value (without the scale)
static inline int stored(const SLIP_matrix* A, int64_t k, Q& q)
{
    switch (A->type)
    {
        case SLIP_MPZ: { Z t; mpz_set(t.get_mpz_t(), A->x.mpz[k]); q = t; return 0; }
        case SLIP_MPQ: mpz_set(mpq_numref(q.get_mpq_t()), mpq_numref(A->x.mpq[k])); mpz_set(mpq_denref(q.get_mpq_t()), mpq_denref(A->x.mpq[k])); return 0;
        case SLIP_MPFR: { mpfr_srcptr f = A->x.mpfr[k]; if (mpfr_nan_p(f)) return SP_NAN; if (mpfr_inf_p(f)) return f->_mpfr_sign > 0 ? SP_PINF : SP_NINF; mpfr_to_q(f, q); return 0; }
        case SLIP_INT64: { mpz_set_si(mpq_numref(q.get_mpq_t()), A->x.int64[k]); mpz_set_ui(mpq_denref(q.get_mpq_t()), 1); return 0; }
        default: { double d = A->x.fp64[k]; if (isnan(d)) return SP_NAN; if (isinf(d)) return d > 0 ? SP_PINF : SP_NINF; mpq_set_d(q.get_mpq_t(), d); return 0; }
    }
}
static inline Q scale_of(const SLIP_matrix* A)
{ Q q; mpz_set(mpq_numref(q.get_mpq_t()), mpq_numref(A->scale)); mpz_set(mpq_denref(q.get_mpq_t()), mpq_denref(A->scale)); return q; }
// digest of the contents (values, pattern, scale); with_ptr adds the addresses and flags
static inline void add_entry(Hash& h, const SLIP_matrix* A, int64_t k)
{
    switch (A->type)
    {
        case SLIP_MPZ: h.addz(A->x.mpz[k]); break;
        case SLIP_MPQ: h.addz(mpq_numref(A->x.mpq[k])); h.addz(mpq_denref(A->x.mpq[k])); break;
        case SLIP_MPFR:
        {
            mpfr_srcptr f = A->x.mpfr[k]; h.add(f->_mpfr_prec); h.add(f->_mpfr_sign);
            h.add((uint64_t)f->_mpfr_exp);
            if (mpfr_regular_p(f)) for (long t = 0; t < (f->_mpfr_prec + 63) / 64; t++) h.add(f->_mpfr_d[t]);
            break;
        }
        case SLIP_INT64: h.add((uint64_t)A->x.int64[k]); break;
        default: { uint64_t u; memcpy(&u, &A->x.fp64[k], 8); h.add(u); break; }
    }
}
static inline uint64_t mdigest(const SLIP_matrix* A, bool with_ptr = true)
{
    Hash h; if (!A) return 0;
    h.add(A->m); h.add(A->n); h.add(A->kind); h.add(A->type);
    if (with_ptr)
    {
        h.add(A->nzmax); h.add(A->nz); h.add((uint64_t)A->p); h.add((uint64_t)A->i); h.add((uint64_t)A->j); h.add((uint64_t)A->x.mpz);
        h.add(A->p_shallow); h.add(A->i_shallow); h.add(A->j_shallow); h.add(A->x_shallow);
    }
    int64_t nz = zoo_nz(A); h.add(nz);
    if (A->kind == SLIP_CSC) for (int64_t j = 0; j <= A->n; j++) h.add(A->p[j]);
    for (int64_t k = 0; k < nz; k++)
    {
        if (A->kind != SLIP_DENSE) h.add(A->i[k]);
        if (A->kind == SLIP_TRIPLET) h.add(A->j[k]);
        add_entry(h, A, k);
    }
    h.addz(mpq_numref(A->scale)); h.addz(mpq_denref(A->scale));
    return h.h;
}
static inline string zoo_str(const SLIP_matrix* A)
{
    if (!A) return "(null)";
    string s = fmt("%s/%s %ldx%ld nz=%ld", KIND[A->kind], TYPE[A->type], (long)A->m, (long)A->n, (long)zoo_nz(A));
    if (zoo_nz(A) <= 12)
    {
        s += " scale=" + qstr(scale_of(A).get_mpq_t()) + " [";
        int64_t nz = zoo_nz(A), j = 0;
        for (int64_t k = 0; k < nz; k++)
        {
            int64_t i;
            if (A->kind == SLIP_CSC) { while (k >= A->p[j + 1]) j++; i = A->i[k]; }
            else if (A->kind == SLIP_TRIPLET) { i = A->i[k]; j = A->j[k]; }
            else { i = k % A->m; j = k / A->m; }
            Q q; int sp = stored(A, k, q);
            s += fmt("(%ld,%ld)=", (long)i, (long)j);
            if (sp) s += sp == SP_NAN ? "nan" : sp == SP_PINF ? "inf" : "-inf";
            else if (A->type == SLIP_FP64) s += fmt("%.17g", A->x.fp64[k]);
            else if (A->type == SLIP_INT64) s += fmt("%ld", (long)A->x.int64[k]);
            else if (A->type == SLIP_MPFR) s += fmt("%.17g", q.get_d());
            else s += qstr(q.get_mpq_t());
            s += " ";
        }
        s += "]";
    }
    return s;
}

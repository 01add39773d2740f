// C10: SLIP_matrix_copy across all 15 formats
#include "zoo.hpp"
void harness_init() {}

static Z round_int(const Q& q, mpfr_rnd_t rnd)
{
    Z f, rem; mpz_fdiv_qr(f.get_mpz_t(), rem.get_mpz_t(), mpq_numref(q.get_mpq_t()), mpq_denref(q.get_mpq_t()));
    if (rem == 0) return f;
    Z den; mpz_set(den.get_mpz_t(), mpq_denref(q.get_mpq_t()));
    switch (rnd)
    {
        case MPFR_RNDN: { Z t = rem * 2; int c = cmp(t, den); return (c > 0 || (c == 0 && mpz_odd_p(f.get_mpz_t()))) ? Z(f + 1) : f; }
        case MPFR_RNDZ: return sgn(q) < 0 ? Z(f + 1) : f;
        case MPFR_RNDU: return f + 1;
        case MPFR_RNDD: return f;
        default: return sgn(q) < 0 ? f : Z(f + 1);
    }
}
static Q as_q(const Rounded& R)
{
    Q q(R.mant); if (R.sign == 0) return Q(0);
    if (R.exp >= 0) mpq_mul_2exp(q.get_mpq_t(), q.get_mpq_t(), R.exp); else mpq_div_2exp(q.get_mpq_t(), q.get_mpq_t(), -R.exp);
    return R.sign < 0 ? Q(-q) : q;
}
static Z trunc_z(const Q& q) { return round_int(q, MPFR_RNDZ); }
static int64_t sat(const Z& z)
{
    if (z > Z("9223372036854775807")) return INT64_MAX;
    if (z < Z("-9223372036854775808")) return INT64_MIN;
    return z.get_si();
}
// the double nearest to q in the rounding mode, with gradual underflow and overflow
static double to_double(const Q& q, mpfr_rnd_t rnd)
{
    if (sgn(q) == 0) return 0;
    long e = (long)mpz_sizeinbase(mpq_numref(q.get_mpq_t()), 2) - (long)mpz_sizeinbase(mpq_denref(q.get_mpq_t()), 2);
    // exponent of the last bit
    long last = std::max(e - 53 - 1, -1074L);
    for (int t = 0; ; t++)
    {
        Q s = q; if (last >= 0) mpq_div_2exp(s.get_mpq_t(), s.get_mpq_t(), last); else mpq_mul_2exp(s.get_mpq_t(), s.get_mpq_t(), -last);
        // the mantissa must be below 2^53
        Q a = abs(s); Z two53 = Z(1) << 53u;
        if (a >= Q(two53) && t < 4) { last++; continue; }
        if (a < Q(Z(two53 / 2)) && last > -1074 && t < 4) { last--; continue; }
        Z m = round_int(s, rnd);
        double d = mpz_get_d(m.get_mpz_t());
        // overflow?
        long mb = (long)mpz_sizeinbase(m.get_mpz_t(), 2);
        if (mb + last > 1024)
        {
            bool inf = rnd == MPFR_RNDN || rnd == MPFR_RNDA || (rnd == MPFR_RNDU && sgn(q) > 0) || (rnd == MPFR_RNDD && sgn(q) < 0);
            d = inf ? INFINITY : DBL_MAX; return sgn(q) < 0 ? -d : d;
        }
        return ldexp(d, (int)last);
    }
}
static string key_of(SLIP_kind ck, SLIP_type ct, const SLIP_matrix* A) { return fmt("%s-%s-to-%s-%s", KIND[A->kind], TYPE[A->type], KIND[ck], TYPE[ct]); }

void run_case(Ctx& c)
{
    Rng& r = c.rng;
    r.pct(50) ? slip_init_tracked() : slip_init_plain();
    // options for making A and for copying it
    SLIP_options* o1 = r.pct(20) ? NULL : SL(SLIP_create_default_options());
    SLIP_options* o2 = r.pct(20) ? NULL : SL(SLIP_create_default_options());
    static const int PR[] = {2, 10, 24, 53, 64, 65, 110, 113, 128, 200, 256};
    for (SLIP_options* o : {o1, o2}) if (o) { o->prec = r.pct(50) ? 128 : PR[r.below(11)]; o->round = (mpfr_rnd_t)(r.pct(40) ? 0 : r.below(5)); o->print_level = 0; }
    int64_t prec = o2 ? o2->prec : 128; mpfr_rnd_t rnd = o2 ? o2->round : MPFR_RNDN;
    // every pair of formats in turn
    int pair = (int)(c.id % 225);
    SLIP_kind ak = (SLIP_kind)(pair / 75), ck = (SLIP_kind)((pair / 5) % 3); SLIP_type at = (SLIP_type)((pair / 15) % 5), ct = (SLIP_type)(pair % 5);
    int64_t m = r.pct(3) ? r.range(15, 70) : r.pct(8) ? 0 : r.range(1, 7), n = r.pct(3) ? r.range(15, 50) : r.pct(8) ? 0 : r.range(1, 7);
    if (r.pct(10)) { m = 1; n = 1; }
    bool large = r.below(500) == 0; if (large) { m = r.range(100, 400); n = r.range(100, 400); if (ak == SLIP_DENSE || ck == SLIP_DENSE) { (r.pct(50) ? m : n) = r.range(1, 12); } cnt("large matrices"); }
    ZooOpt z; z.vm = (int)r.below(5);
    bool float_src = at == SLIP_FP64 || at == SLIP_MPFR;
    if (z.vm == 4 && (!float_src || ct == SLIP_MPZ || ct == SLIP_MPQ)) z.vm = 1;
    if (m * n > 200 && z.density < 0) z.density = m * n > 20000 ? 1 : r.range(2, 40);
    SLIP_matrix* H = mk_zoo(r, ak, at, m, n, o1, z); SLIP_matrix *A = H, *C = NULL;
    bool shallow = H && r.pct(20);
    if (shallow)
    {
        A = NULL;
        if (SL(SLIP_matrix_allocate(&A, ak, at, m, n, H->nzmax, true, false, NULL)) != SLIP_OK || !A) { c.fail("setup", "cannot allocate a shallow matrix"); return; }
        A->p = H->p; A->i = H->i; A->j = H->j; A->x.mpz = H->x.mpz; A->nz = H->nz;
        Q s = scale_of(H); SL(SLIP_mpq_set(A->scale, s.get_mpq_t()));
    }
    if (!A) { c.fail("setup", "cannot create the input"); return; }
    c.desc = fmt("%s -> %s/%s prec=%ld rnd=%d shallow=%d srcprec=%d", zoo_str(A).c_str(), KIND[ck], TYPE[ct], (long)prec, (int)rnd, (int)shallow, o1 ? (int)o1->prec : 128);
    string key = key_of(ck, ct, A);
    uint64_t d0 = mdigest(A);
    int64_t nz = zoo_nz(A);
    SLIP_info st = SL(SLIP_matrix_copy(&C, ck, ct, A, o2));
    if (mdigest(A) != d0) c.fail("modified:" + key, "the source was modified");
    if (st != SLIP_OK || !C) c.fail("status:" + key, "status %d", (int)st);
    else
    {
        // expected entries
        struct Ent { Q v; int sp; Q alt; bool judged; };
        map<std::pair<int64_t, int64_t>, Ent> exp;
        Q sc = scale_of(A);
        int64_t j = 0, dropped = 0;
        Q p2(Z(Z(1) << (unsigned)prec)), e17(Z("100000000000000000"));
        for (int64_t k = 0; k < nz; k++)
        {
            int64_t i;
            if (A->kind == SLIP_CSC) { while (k >= A->p[j + 1]) j++; i = A->i[k]; }
            else if (A->kind == SLIP_TRIPLET) { i = A->i[k]; j = A->j[k]; }
            else { i = k % m; j = k / m; }
            Ent e; e.judged = true; e.sp = stored(A, k, e.v);
            if (e.sp == 0 && at == SLIP_MPZ && ct != SLIP_MPZ) e.v /= sc;
            if (e.sp == 0 && at == SLIP_MPZ && ct == SLIP_MPZ) e.v /= sc;      // value = integer / scale
            bool neg0 = false;
            if (e.sp == 0) switch (ct)
            {
                case SLIP_MPZ:
                    if (at == SLIP_MPFR) e.v = Q(round_int(as_q(round_q(Q(e.v * p2).get_mpq_t(), prec, rnd)), rnd)) / p2;
                    else if (at == SLIP_FP64)
                    {
                        Q t = as_q(round_q(e.v.get_mpq_t(), prec, rnd));
                        t = as_q(round_q(Q(t * e17).get_mpq_t(), prec, rnd));
                        e.v = Q(round_int(t, rnd)) / e17;
                    }
                    break;
                case SLIP_MPQ: break;
                case SLIP_MPFR: e.v = as_q(round_q(e.v.get_mpq_t(), prec, rnd)); break;
                case SLIP_INT64:
                {
                    Q v = e.v;
                    if (at == SLIP_MPFR) { e.v = Q((long)sat(round_int(v, rnd))); e.alt = e.v; }
                    else
                    {
                        Z t = trunc_z(v); e.v = Q((long)sat(t)); e.alt = e.v;
                        if (at == SLIP_MPQ || at == SLIP_MPZ)
                        {   // also via a double
                            Rounded R = round_q(v.get_mpq_t(), 53, MPFR_RNDZ); e.alt = Q((long)sat(trunc_z(as_q(R))));
                            if (at == SLIP_MPZ && sc == 1 && sat(t) != t) e.judged = false;
                        }
                    }
                    break;
                }
                default:
                {
                    double d;
                    if (at == SLIP_INT64) d = to_double(e.v, MPFR_RNDN);
                    else if (at == SLIP_MPFR) d = to_double(e.v, rnd);
                    else if (at == SLIP_FP64) d = e.v.get_d();
                    else
                    {
                        d = to_double(e.v, MPFR_RNDZ);
                        if (fabs(d) >= DBL_MAX) e.judged = false;       // GMP leaves overflow open
                    }
                    if (isinf(d)) { e.sp = d > 0 ? SP_PINF : SP_NINF; } else e.v = Q(d);
                    break;
                }
            }
            else if (ct == SLIP_INT64) { e.v = e.sp == SP_PINF ? Q((long)INT64_MAX) : e.sp == SP_NINF ? Q((long)INT64_MIN) : Q(0); e.alt = e.v; e.judged = e.sp != SP_NAN; e.sp = 0; }
            (void)neg0;
            if (ct != SLIP_INT64) e.alt = e.v;
            exp[{i, j}] = e;
        }
        // form of the result
        if (C->kind != ck || C->type != ct || C->m != m || C->n != n) c.fail("form:" + key, "wrong kind, type or dimensions");
        else if (C->p_shallow || C->i_shallow || C->j_shallow || C->x_shallow) c.fail("owned:" + key, "the copy is shallow");
        else if ((C->p && C->p == A->p) || (C->i && C->i == A->i) || (C->j && C->j == A->j) || (void*)C->x.mpz == (void*)A->x.mpz || C == A) c.fail("owned:" + key, "the copy shares an array with its source");
        else if ((ck == SLIP_CSC) != (C->p != NULL) || (ck != SLIP_DENSE) != (C->i != NULL) || (ck == SLIP_TRIPLET) != (C->j != NULL) || !C->x.mpz) c.fail("form:" + key, "wrong set of arrays");
        else if (mpq_sgn(C->scale) == 0 || !canonical(C->scale) || (ct != SLIP_MPZ && mpq_cmp_ui(C->scale, 1, 1) != 0)) c.fail("scale:" + key, "bad scale %s", qstr(C->scale).c_str());
        else
        {
            int64_t cz = zoo_nz(C);
            bool ok = cz >= 0 && cz <= std::max<int64_t>(C->nzmax, 0) && SL(SLIP_matrix_nnz(C, o2)) == cz;
            if (ck == SLIP_CSC) { ok = ok && C->p[0] == 0; for (int64_t q = 0; q < n && ok; q++) ok = C->p[q] <= C->p[q + 1]; }
            if (!ok) c.fail("count:" + key, "inconsistent entry count %ld, nzmax %ld", (long)cz, (long)C->nzmax);
            else
            {
                Q cs = scale_of(C);
                int64_t cj = 0; set<std::pair<int64_t, int64_t>> seen;
                for (int64_t k = 0; k < cz; k++)
                {
                    int64_t i;
                    if (ck == SLIP_CSC) { while (k >= C->p[cj + 1]) cj++; i = C->i[k]; }
                    else if (ck == SLIP_TRIPLET) { i = C->i[k]; cj = C->j[k]; }
                    else { i = k % m; cj = k / m; }
                    if (i < 0 || i >= m || cj < 0 || cj >= n) { c.fail("index:" + key, "entry %ld at (%ld,%ld)", (long)k, (long)i, (long)cj); break; }
                    if (!seen.insert({i, cj}).second) { c.fail("index:" + key, "(%ld,%ld) appears twice", (long)i, (long)cj); break; }
                    auto it = exp.find({i, cj});
                    Q v; int sp = stored(C, k, v);
                    if (ct == SLIP_MPQ && !canonical(C->x.mpq[k])) { c.fail("canonical:" + key, "entry (%ld,%ld) is not canonical", (long)i, (long)cj); break; }
                    if (ct == SLIP_MPFR && C->x.mpfr[k]->_mpfr_prec != prec) { c.fail("prec:" + key, "entry has precision %ld", (long)C->x.mpfr[k]->_mpfr_prec); break; }
                    if (it == exp.end())
                    {
                        if (ck != SLIP_DENSE) { c.fail("index:" + key, "(%ld,%ld) is not in the source", (long)i, (long)cj); break; }
                        if (sp || v != 0) { c.fail("value:" + key, "(%ld,%ld) should be zero", (long)i, (long)cj); break; }
                        continue;
                    }
                    if (ct == SLIP_MPZ) v /= cs;
                    if (!it->second.judged) continue;
                    if (sp != it->second.sp || (sp == 0 && v != it->second.v && v != it->second.alt))
                    { c.fail("value:" + key, "(%ld,%ld) is %s, expected %s (special %d/%d)", (long)i, (long)cj, qstr(v.get_mpq_t()).c_str(), qstr(it->second.v.get_mpq_t()).c_str(), sp, it->second.sp); break; }
                    cnt("entries_checked");
                }
                // entries that are missing
                if (!c.failed) for (auto& kv : exp) if (!seen.count(kv.first))
                {
                    const Ent& e = kv.second;
                    bool may_drop = ak == SLIP_DENSE && ck != SLIP_DENSE && (!e.judged || (e.sp == 0 && e.v == 0) || (e.sp == SP_NAN && ct == SLIP_MPFR));
                    if (!may_drop) { c.fail("lost:" + key, "(%ld,%ld) is missing", (long)kv.first.first, (long)kv.first.second); break; }
                    dropped++;
                }
                else if (ak == SLIP_DENSE && ck != SLIP_DENSE && kv.second.judged && kv.second.sp == 0 && kv.second.v == 0 && kv.second.alt == 0)
                { c.fail("kept:" + key, "(%ld,%ld) is zero and was kept", (long)kv.first.first, (long)kv.first.second); break; }
                // the checker must accept it, and it must outlive the source
                SLIP_options ocheck; memset(&ocheck, 0, sizeof ocheck); ocheck.prec = 128; ocheck.round = MPFR_RNDN;
                SLIP_info s2 = SL(SLIP_matrix_check(C, &ocheck));
                if (s2 != SLIP_OK) c.fail("check:" + key, "SLIP_matrix_check of the copy returned %d", (int)s2);
                uint64_t dc = mdigest(C);
                if (shallow) { mfree(A); A = NULL; }
                mfree(H); H = NULL;
                if (!shallow) A = NULL;
                if (mdigest(C) != dc) c.fail("shared:" + key, "the copy changed when its source was freed");
                cnt("pair:" + key); cnt("dropped_zeros", dropped);
                if (nz > 0) { Hash h; h.add(d0 * 0 + pair); h.add(dc * 0 + nz); h.add(mdigest(C, false)); h.add(prec); h.add(rnd); c.sig(h.h); }
            }
        }
    }
    mfree(C);
    if (shallow && A) mfree(A);
    if (H) mfree(H);
    for (SLIP_options* o : {o1, o2}) if (o) { SlipMode sm; SLIP_free(o); }
    slip_fini(); g_tr.live.clear(); g_tr.reset();
}

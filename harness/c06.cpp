// C06: symbolic analysis
#include "pat.hpp"
static int sink(const char*, ...) { return 0; }
void harness_init() { SuiteSparse_config.printf_func = sink; }

static SLIP_matrix* mk_pat(const Pat& P, SLIP_type ty, Rng& r, int64_t extra)
{
    SlipMode sm; SLIP_matrix* S = NULL;
    if (SLIP_matrix_allocate(&S, SLIP_CSC, ty, P.m, P.n, P.nnz() + extra, false, true, NULL) != SLIP_OK) return NULL;
    for (int64_t j = 0; j <= P.n; j++) S->p[j] = P.p[j];
    for (int64_t k = 0; k < P.nnz(); k++)
    {
        S->i[k] = P.i[k]; long v = r.pct(10) ? 0 : (long)r.range(-9, 9);
        switch (ty)
        {
            case SLIP_MPZ: SLIP_mpz_set_si(S->x.mpz[k], v); break;
            case SLIP_MPQ: SLIP_mpq_set_si(S->x.mpq[k], v, 1); break;
            case SLIP_MPFR: SLIP_mpfr_set_d(S->x.mpfr[k], (double)v, MPFR_RNDN); break;
            case SLIP_INT64: S->x.int64[k] = v; break;
            default: S->x.fp64[k] = (double)v; break;
        }
    }
    return S;
}
static uint64_t digest(SLIP_matrix* A)
{
    Hash h; h.add(A->m); h.add(A->n); h.add(A->nzmax); h.add(A->nz); h.add(A->kind); h.add(A->type); h.add((uint64_t)A->p); h.add((uint64_t)A->i); h.add((uint64_t)A->x.mpz);
    for (int64_t j = 0; j <= A->n; j++) h.add(A->p[j]);
    for (int64_t k = 0; k < A->p[A->n]; k++)
    {
        h.add(A->i[k]);
        switch (A->type)
        {
            case SLIP_MPZ: h.addz(A->x.mpz[k]); break;
            case SLIP_MPQ: h.addz(mpq_numref(A->x.mpq[k])); h.addz(mpq_denref(A->x.mpq[k])); break;
            case SLIP_MPFR: h.add((int64_t)mpfr_get_d(A->x.mpfr[k], MPFR_RNDN)); break;
            default: h.add(A->x.int64[k]); break;
        }
    }
    h.addz(mpq_numref(A->scale)); h.addz(mpq_denref(A->scale));
    return h.h;
}
void run_case(Ctx& c)
{
    Rng& r = c.rng;
    PatOpt po; po.maxn = po.maxm = 45; po.jumble_pct = 40; po.bigmax = r.pct(4) ? 1500 : 500;
    int64_t m, n; int fam; Cols cl = gen_cols(r, po, m, n, &fam);
    // valid SLIP matrices have no duplicates: shuffled columns only
    Pat P; P.m = P.n = n; P.family = fam; P.p.push_back(0);
    bool shuf = r.pct(40);
    for (auto& s : cl) { vector<int64_t> e(s.begin(), s.end()); if (shuf) r.shuffle(e); for (auto v : e) P.i.push_back(v); P.p.push_back((int64_t)P.i.size()); }
    SLIP_type ty = (SLIP_type)r.below(5);
    r.pct(50) ? slip_init_tracked() : slip_init_plain();
    SLIP_matrix* A = mk_pat(P, ty, r, r.pct(40) ? r.below(10) : 0);
    Opt o; int pl = 0;
    if (r.pct(15)) o.null = true; else { o = gen_opt(r, false); pl = o.o->print_level = (int)r.below(5) - 1; }
    int how = (int)r.below(12);     // 10: invalid pattern, 11: allocation failure
    if (how == 10 && P.nnz() > 0) { A->i[r.below(P.nnz())] = r.pct(50) ? -1 - r.below(3) : n + r.below(3); } else if (how == 10) how = 0;
    c.desc = fmt("%s type=%d %s print=%d how=%d", P.str().c_str(), (int)ty, o.str().c_str(), pl, how);
    SLIP_col_order ord = o.null ? SLIP_COLAMD : o.order;
    uint64_t d0 = digest(A); SLIP_options oc; if (!o.null) oc = *o.o;
    SLIP_LU_analysis* S = NULL;
    if (how == 11 && g_slip.a == g_def.a) how = 0;
    SLIP_info st;
    if (how == 11)
    {
        // probe how many allocations there are, then fail one of them
        SLIP_LU_analysis* T = NULL; int64_t a0 = g_tr.nalloc;
        SL(SLIP_LU_analyze(&T, A, o.o)); int64_t k = g_tr.nalloc - a0; sfree(T);
        g_tr.fail_at = g_tr.nalloc + r.below(k); g_tr.fail_n = 1; g_tr.failed = 0; g_tr.inject = true;
        st = SL(SLIP_LU_analyze(&S, A, o.o));
        g_tr.inject = false;
        if (st == SLIP_OK && g_tr.failed == 0) how = 0;
        else if (st != SLIP_OUT_OF_MEMORY) c.fail("oom-status", "allocation %ld of %ld failed: status %d", (long)(g_tr.fail_at - a0 - k), (long)k, (int)st);
        else cnt("oom_reported");
        if (st != SLIP_OK && S) c.fail("oom-output", "an analysis was returned with status %d", (int)st);
    }
    else st = SL(SLIP_LU_analyze(&S, A, o.o));
    if (digest(A) != d0) c.fail("modified", "A was modified");
    if (!o.null && memcmp(&oc, o.o, sizeof oc)) c.fail("modified", "the options were modified");
    if (how == 10)
    {
        if (ord != SLIP_NO_ORDERING)
        {
            if (st != SLIP_INCORRECT_INPUT) c.fail("invalid-status", "ordering %d of an invalid pattern: status %d", (int)ord, (int)st);
            if (st != SLIP_OK && S) c.fail("invalid-output", "an analysis was returned with status %d", (int)st);
            cnt("invalid_reported");
        }
    }
    else if (how != 11)
    {
        if (st != SLIP_OK || !S) c.fail("status", "status %d for a valid matrix", (int)st);
        else if (!is_perm(S->q, n)) c.fail("perm", "q is not a permutation");
        else
        {
            double n2 = (double)n * n;
            if (S->lnz < n || S->unz < n || (double)S->lnz > n2 || (double)S->unz > n2)
                c.fail("estimate", "lnz=%ld unz=%ld for n=%ld", (long)S->lnz, (long)S->unz, (long)n);
            vector<int64_t> q(n + 1); const char* nm = "identity";
            if (ord == SLIP_NO_ORDERING) for (int64_t k = 0; k < n; k++) q[k] = k;
            else if (ord == SLIP_AMD)
            {
                nm = "AMD"; vector<int64_t> pi(P.i); pi.push_back(0);
                amd_l_order(n, (SuiteSparse_long*)P.p.data(), (SuiteSparse_long*)pi.data(), (SuiteSparse_long*)q.data(), NULL, NULL);
            }
            else
            {
                nm = "COLAMD"; int64_t al = (int64_t)colamd_l_recommended(P.nnz(), n, n); vector<int64_t> w(al + 1); SuiteSparse_long stats[COLAMD_STATS];
                for (int64_t k = 0; k < P.nnz(); k++) w[k] = P.i[k];
                for (int64_t k = 0; k <= n; k++) q[k] = P.p[k];
                if (!colamd_l(n, n, al, (SuiteSparse_long*)w.data(), (SuiteSparse_long*)q.data(), NULL, stats)) c.fail("reference", "colamd failed on a valid pattern");
            }
            for (int64_t k = 0; k < n; k++) if (q[k] != S->q[k]) { c.fail("order", "q differs from the %s ordering at %ld: %ld, expected %ld", nm, (long)k, (long)S->q[k], (long)q[k]); break; }
            cnt(fmt("order:%s", o.null ? "default" : nm)); cnt(fmt("type:%d", (int)ty)); cntmax("n", n); cnt("columns_checked", n);
            // same result for another type of value
            if (r.pct(30))
            {
                SLIP_matrix* B = mk_pat(P, (SLIP_type)r.below(5), r, 0); SLIP_LU_analysis* T = NULL;
                SLIP_info s2 = SL(SLIP_LU_analyze(&T, B, o.o));
                if (s2 != SLIP_OK) c.fail("type", "status %d for another value type", (int)s2);
                else
                {
                    if (n && memcmp(T->q, S->q, n * sizeof(int64_t))) c.fail("type", "q depends on the values");
                    if (T->lnz != S->lnz || T->unz != S->unz) c.fail("type", "the estimates depend on the values");
                    cnt("type_independence");
                }
                sfree(T); mfree(B);
            }
            if (n >= 2 && P.nnz() >= 2) { Hash h; h.add(P.hash()); h.add(ord); c.sig(h.h); }
        }
    }
    sfree(S); mfree(A); o.free();
    slip_fini(); g_tr.live.clear(); g_tr.reset();
}

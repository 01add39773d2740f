// C09: memory ownership.  Every session uses a tracking allocator; the library's
// own objects have their calls of malloc & co redirected, so that a direct use is seen.
#define PROG_MAIN
#include "prog.hpp"
void harness_init() {}
static void session_checks(Ctx& c, const char* when)
{
    if (g_tr.bad_free) c.fail("foreign_free", "%s: %ld blocks freed that were not obtained from the memory functions, or freed twice", when, (long)g_tr.bad_free);
    if (g_tr.bad_realloc) c.fail("foreign_realloc", "%s: %ld foreign blocks reallocated", when, (long)g_tr.bad_realloc);
    if (g_raw_calls) c.fail("raw", "%s: %ld calls bypassed the memory functions", when, (long)g_raw_calls);
    g_tr.bad_free = g_tr.bad_realloc = 0; g_raw_calls = 0;
}
// one operation whose every block must be gone after its objects are freed
static void balance(Ctx& c, Prog& p)
{
    Rng& r = c.rng;
    if (p.w) { p.w->finish(); delete p.w; p.w = NULL; }
    SL((mpfr_free_cache(), 0));
    int64_t before = (int64_t)g_tr.live.size();
    int what = (int)r.below(6);
    string nm;
    SLIP_options* o = p.options(r); int64_t mid = (int64_t)g_tr.live.size();
    if (what < 2)
    {
        nm = "copy"; ZooOpt z; z.vm = (int)r.below(4); SLIP_matrix* A = mk_zoo(r, (SLIP_kind)r.below(3), (SLIP_type)r.below(5), r.below(6), r.below(6), o, z), *C = NULL;
        if (A) SL(SLIP_matrix_copy(&C, (SLIP_kind)r.below(3), (SLIP_type)r.below(5), A, o));
        if (r.pct(50)) SL(SLIP_matrix_check(C, o));
        for (SLIP_matrix** m : {&A, &C}) { SlipMode sm; SLIP_matrix_free(m, o); if (*m) c.fail("handle", "SLIP_matrix_free left the handle"); SLIP_matrix_free(m, NULL); SLIP_matrix_free(NULL, NULL); }
    }
    else
    {
        GenOpt g; g.maxn = 9; g.big_pct = 3; g.bigmaxn = 25; MatZ M = gen_square(r, g); SLIP_matrix *A = mk_csc(M, gen_scale(r)), *x = NULL, *L = NULL, *U = NULL, *rhos = NULL; int64_t* pinv = NULL; SLIP_LU_analysis* S = NULL;
        vector<Z> bz = gen_rhs(r, M.n, r.below(3)); SLIP_matrix* b = mk_dense(bz, M.n, M.n ? bz.size() / M.n : 0, gen_scale(r));
        if (what < 4) { nm = "backslash"; SL(SLIP_backslash(&x, r.pct(40) ? SLIP_MPQ : r.pct(50) ? SLIP_MPFR : SLIP_FP64, A, b, o)); }
        else
        {
            nm = "steps"; SL(SLIP_LU_analyze(&S, A, o));
            if (S && r.pct(50)) S->lnz = S->unz = M.n;
            if (SL(SLIP_LU_factorize(&L, &U, &rhos, &pinv, A, S, o)) == SLIP_OK) SL(SLIP_LU_solve(&x, b, A, L, U, rhos, S, pinv, o));
        }
        { SlipMode sm; SLIP_LU_analysis_free(&S, o); if (S) c.fail("handle", "SLIP_LU_analysis_free left the handle"); SLIP_LU_analysis_free(&S, o); SLIP_LU_analysis_free(NULL, NULL); }
        for (SLIP_matrix** m : {&A, &b, &x, &L, &U, &rhos}) { SlipMode sm; SLIP_matrix_free(m, o); if (*m) c.fail("handle", "SLIP_matrix_free left the handle"); }
        { SlipMode sm; SLIP_FREE(pinv); if (pinv) c.fail("handle", "SLIP_FREE left the pointer"); SLIP_FREE(pinv); }
    }
    SL((mpfr_free_cache(), 0));
    int64_t after = (int64_t)g_tr.live.size();
    // the list of GMP blocks may have been created or enlarged: one block at most
    if (after > mid + (before == 0 ? 2 : 1)) c.fail("leak:" + nm, "%ld blocks left after %s and its frees", (long)(after - mid), nm.c_str());
    p.ofree(o);
    cnt("balance:" + nm);
}
void run_case(Ctx& c)
{
    Rng& r = c.rng;
    g_tr.live.clear(); g_tr.reset(); g_raw_calls = 0;
    Prog p(c); p.maxn = 8;
    int sessions = (int)r.range(1, 2);
    for (int s = 0; s < sessions; s++)
    {
        if (!p.open(true)) { c.fail("open", "cannot open a session"); break; }
        g_raw_watch = true; g_raw_calls = 0;
        int n = (int)r.range(10, 45);
        for (int k = 0; k < n; k++) p.step();
        if (r.pct(50)) balance(c, p);
        // the big-number libraries use the same functions
        int64_t na = g_tr.nalloc; { SlipMode sm; mpz_t t; mpz_init2(t, 4000); mpz_clear(t); }
        if (g_tr.nalloc == na) c.fail("gmp", "GMP does not use the memory functions of the session");
        cntmax("live_blocks", (int64_t)g_tr.live.size());
        session_checks(c, "in the session");
        SLIP_info st = p.close();
        g_raw_watch = false;
        if (st != SLIP_OK) c.fail("finalize", "SLIP_finalize returned %d", (int)st);
        session_checks(c, "at the end");
        if (!g_tr.live.empty())
        {
            size_t b = 0; for (auto& kv : g_tr.live) b += kv.second;
            c.fail("leak", "%zu blocks (%zu bytes) left after everything was freed; history %s", g_tr.live.size(), b, p.trace.c_str());
            for (auto& kv : g_tr.live) free(kv.first);
            g_tr.live.clear();
        }
        if (g_tr.nalloc != g_tr.nfree && !c.failed) { /* zero-size and realloc'd blocks are counted once */ }
        cnt("sessions"); cnt("blocks", g_tr.nalloc);
        g_tr.reset();
    }
    cnt("calls", p.calls);
    c.desc = p.trace.substr(0, 300);
    c.sig(p.shape.h);
    g_tr.live.clear(); g_tr.reset();
}

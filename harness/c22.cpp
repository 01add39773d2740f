// C22: the session protocol.  A model (in a session or not) predicts every
// status; objects of an earlier session are used as arguments outside of one.
#define PROG_MAIN
#include "prog.hpp"
void harness_init() {}
static void* other_malloc(size_t n) { return malloc(n); }
static void* other_calloc(size_t a, size_t b) { return calloc(a, b); }
static void* other_realloc(void* p, size_t n) { return realloc(p, n); }
static void other_free(void* p) { free(p); }
struct Model
{
    Ctx& c; Rng& r; bool in = false; bool tracked = false; string trace;
    // objects that outlive a session
    PSys s; SLIP_matrix* b = NULL; SLIP_matrix* any = NULL; SLIP_options* o = NULL; void* blk = NULL; vector<Z> bv; Q bs;
    bool have = false;
    Model(Ctx& c_) : c(c_), r(c_.rng) {}
    uint64_t digest()
    {
        Hash h; if (!have) return 0;
        uint64_t e[7]; s.digests(e); for (auto v : e) h.add(v);
        h.add(mdigest(b)); h.add(mdigest(any)); h.add(odigest(o)); for (int k = 0; k < 40; k++) h.add(((unsigned char*)blk)[k]);
        return h.h;
    }
    uint64_t config() { Hash h; h.add((uint64_t)SuiteSparse_config.malloc_func); h.add((uint64_t)SuiteSparse_config.calloc_func); h.add((uint64_t)SuiteSparse_config.realloc_func); h.add((uint64_t)SuiteSparse_config.free_func); h.add((uint64_t)SuiteSparse_config.printf_func); h.add((uint64_t)SuiteSparse_config.hypot_func);
        MemFns m; { SlipMode sm; mp_get_memory_functions(&m.a, &m.r, &m.f); } h.add((uint64_t)m.a); h.add((uint64_t)m.r); h.add((uint64_t)m.f); return h.h; }
    void op(const char* n) { trace += n; trace += ' '; cnt(string("op:") + n); }
    void expect(const char* what, int got, int want) { cnt("statuses"); if (got != want) c.fail(string("status:") + what + (in ? ":in" : ":out"), "%s returned %d instead of %d %s a session; history %s", what, got, want, in ? "in" : "outside", trace.c_str()); }
    void init()
    {
        bool want_tracked = in ? r.pct(50) : tracked;
        uint64_t cf = config(), d = digest(); SLIP_info st; int64_t na = g_tr.nalloc;
        int way = (int)r.below(3);
        if (in) { op("init_again"); st = way == 0 ? SL(SLIP_initialize()) : way == 1 ? SL(SLIP_initialize_expert(other_malloc, other_calloc, other_realloc, other_free)) : slip_init_tracked(); }
        else { op(want_tracked ? "init_expert" : "init"); st = want_tracked ? slip_init_tracked() : r.pct(70) ? slip_init_plain() : SL(SLIP_initialize_expert(other_malloc, other_calloc, other_realloc, other_free)); }
        expect("SLIP_initialize", st, in ? SLIP_PANIC : SLIP_OK);
        if (in && config() != cf) c.fail("init_again:config", "a second initialization changed the configuration; history %s", trace.c_str());
        if (in && g_tr.nalloc != na) c.fail("init_again:alloc", "a second initialization allocated memory");
        if (!in)
        {
            bool t = SuiteSparse_config.malloc_func == tr_malloc && SuiteSparse_config.calloc_func == tr_calloc && SuiteSparse_config.realloc_func == tr_realloc && SuiteSparse_config.free_func == tr_free;
            if (want_tracked && !t) c.fail("init:config", "the memory functions given at initialization are not the ones in use");
            in = true;
        }
        if (digest() != d) c.fail("init:args", "initialization changed an object");
    }
    void fini()
    {
        op(in ? "finalize" : "finalize_again");
        uint64_t d = digest(), cf = config(); int64_t na = g_tr.nalloc;
        expect("SLIP_finalize", slip_fini(), in ? SLIP_OK : SLIP_PANIC);
        if (!in && (config() != cf || g_tr.nalloc != na)) c.fail("fini_again", "a finalization outside a session changed something");
        if (digest() != d) c.fail("fini:args", "finalization changed an object; history %s", trace.c_str());
        in = false;
    }
    void build()            // in a session
    {
        op("build");
        drop();
        GenOpt g; g.maxn = 6; g.big_pct = 0; g.vkind = (int)r.below(5);
        do s.M = gen_square(r, g); while (!nonsingular(s.M, r));
        s.as = gen_scale(r); s.A = mk_csc(s.M, s.as); s.o = SL(SLIP_create_default_options()); s.o2 = NULL;
        bs = gen_scale(r); bv = gen_rhs(r, s.M.n, 2); b = mk_dense(bv, s.M.n, 2, bs);
        any = mk_zoo(r, (SLIP_kind)r.below(3), (SLIP_type)r.below(5), 3, 4, NULL, ZooOpt());
        o = SL(SLIP_create_default_options()); blk = SL(SLIP_calloc(5, 8));
        expect("SLIP_LU_analyze", SL(SLIP_LU_analyze(&s.S, s.A, s.o)), SLIP_OK);
        expect("SLIP_LU_factorize", SL(SLIP_LU_factorize(&s.L, &s.U, &s.rhos, &s.pinv, s.A, s.S, s.o)), SLIP_OK);
        have = s.A && b && any && o && blk && s.S && s.L && s.U && s.rhos && s.pinv;
        if (!have) c.fail("build", "objects cannot be built in a session; history %s", trace.c_str());
    }
    void drop()
    {
        mfree(s.A); sfree(s.S); mfree(s.L); mfree(s.U); mfree(s.rhos); vfree(s.pinv); s.pinv = NULL; vfree(s.o); s.o = NULL; mfree(b); mfree(any); vfree(o); o = NULL; vfree(blk); blk = NULL; have = false;
    }
    void use()              // in a session: the objects (of whatever session) work
    {
        if (!have) build();
        if (!have) return;
        op("use");
        uint64_t d = digest();
        SLIP_matrix* x = NULL;
        expect("SLIP_LU_solve", SL(SLIP_LU_solve(&x, b, s.A, s.L, s.U, s.rhos, s.S, s.pinv, s.o)), SLIP_OK);
        if (x) { if (!axb_exact(s.M, s.as, bv, bs, 2, x)) c.fail("use:solve", "wrong solution; history %s", trace.c_str()); }
        else c.fail("use:solve", "no solution; history %s", trace.c_str());
        mfree(x); x = NULL;
        SLIP_matrix* y = NULL;
        expect("SLIP_backslash", SL(SLIP_backslash(&y, SLIP_MPQ, s.A, b, o)), SLIP_OK);
        if (!y || !axb_exact(s.M, s.as, bv, bs, 2, y)) c.fail("use:backslash", "wrong solution; history %s", trace.c_str());
        mfree(y);
        expect("SLIP_matrix_check", SL(SLIP_matrix_check(s.A, o)), SLIP_OK);
        expect("SLIP_matrix_nnz", (int)SL(SLIP_matrix_nnz(s.A, o)), (int)s.M.nnz());
        SLIP_matrix* cc = NULL;
        expect("SLIP_matrix_copy", SL(SLIP_matrix_copy(&cc, SLIP_DENSE, SLIP_MPQ, s.A, o)), SLIP_OK); mfree(cc);
        bool ok = false; blk = SL(SLIP_realloc(5, 5, 8, blk, &ok)); expect("SLIP_realloc", ok, 1);
        if (digest() != d) c.fail("use:changed", "a call changed an argument; history %s", trace.c_str());
    }
    void defaults()         // in a session
    {
        op("defaults");
        SLIP_options* t = SL(SLIP_create_default_options());
        if (!t) { c.fail("defaults", "no options in a session; history %s", trace.c_str()); return; }
        if (t->pivot != SLIP_TOL_SMALLEST || t->order != SLIP_COLAMD || t->tol != 1 || t->print_level != 0 || t->prec != 128 || t->round != MPFR_RNDN || t->check)
            c.fail("defaults", "wrong default options: pivot %d order %d tol %g print_level %d prec %d round %d check %d", t->pivot, t->order, t->tol, t->print_level, (int)t->prec, t->round, t->check);
        // the caller's object: changing one must not change the next
        t->pivot = SLIP_LARGEST; t->order = SLIP_AMD; t->tol = 0.1; t->print_level = 3; t->prec = 64; t->round = MPFR_RNDZ; t->check = true;
        SLIP_options* t2 = SL(SLIP_create_default_options());
        if (!t2 || t2 == t || t2->pivot != SLIP_TOL_SMALLEST || t2->print_level != 0 || t2->check) c.fail("defaults", "default options depend on earlier ones");
        vfree(t); vfree(t2);
    }
    void logs()             // in a session: big-number functions that keep constants until the session ends
    {
        op("logs"); mpfr_t x, y; { SlipMode sm; long p = r.range(60, 3000); if (SLIP_mpfr_init2(x, p) != SLIP_OK || SLIP_mpfr_init2(y, p) != SLIP_OK) { c.fail("logs", "no numbers in a session"); return; } expect("SLIP_mpfr_set_si", SLIP_mpfr_set_si(x, 8, MPFR_RNDN), SLIP_OK); mpfr_div_ui(x, x, 3, MPFR_RNDN); mpfr_log2(y, x, MPFR_RNDN); }
        double v = mpfr_get_d(y, MPFR_RNDN); { SlipMode sm; mpfr_clear(x); mpfr_clear(y); } if (!(v > 1.41503 && v < 1.41504)) c.fail("logs", "the logarithm of 8/3 is %g", v);
    }
    void outside()          // outside of a session: panic, nothing touched
    {
        uint64_t d = digest(), cf = config(); int64_t na = g_tr.nalloc, nf = g_tr.nfree, pr = g_sink.calls;
        bool use_objs = have && r.pct(75);
        SLIP_matrix *const bad = (SLIP_matrix*)0x5151; SLIP_matrix* x = bad; SLIP_LU_analysis* S = (SLIP_LU_analysis*)0x5252;
        SLIP_matrix* A = use_objs ? s.A : NULL; SLIP_options* op_ = use_objs && r.pct(70) ? o : NULL;
        if (op_) op_->print_level = (int)r.below(4);
        uint64_t d2 = digest();
        switch (r.below(16))
        {
            case 0: op("o_malloc"); if (SL(SLIP_malloc(r.below(100)))) c.fail("out:malloc", "SLIP_malloc works outside a session"); break;
            case 1: op("o_calloc"); if (SL(SLIP_calloc(r.below(10), 8))) c.fail("out:calloc", "SLIP_calloc works outside a session"); break;
            case 2: { op("o_realloc"); void* p = use_objs ? blk : NULL; bool ok = true; void* q = SL(SLIP_realloc(r.below(1000), 5, 8, p, &ok)); if (ok || q != p) c.fail("out:realloc", "SLIP_realloc outside a session: ok %d, %s block", (int)ok, q == p ? "same" : "another"); break; }
            case 3: op("o_free"); { SlipMode sm; SLIP_free(use_objs ? blk : NULL); } break;
            case 4: op("o_options"); if (SL(SLIP_create_default_options())) c.fail("out:options", "SLIP_create_default_options works outside a session"); break;
            case 5: op("o_allocate"); expect("SLIP_matrix_allocate", SL(SLIP_matrix_allocate(r.pct(80) ? &x : NULL, (SLIP_kind)r.below(3), (SLIP_type)r.below(5), 2, 2, 4, r.pct(30), true, op_)), SLIP_PANIC); break;
            case 6: { op("o_free_matrix"); SLIP_matrix* t = A; expect("SLIP_matrix_free", SL(SLIP_matrix_free(r.pct(85) ? &t : NULL, op_)), SLIP_PANIC); if (t != A) c.fail("out:free_matrix", "SLIP_matrix_free outside a session cleared the handle"); break; }
            case 7: op("o_copy"); expect("SLIP_matrix_copy", SL(SLIP_matrix_copy(&x, (SLIP_kind)r.below(3), (SLIP_type)r.below(5), use_objs && r.pct(50) ? any : A, op_)), SLIP_PANIC); break;
            case 8: op("o_nnz"); { int64_t k = SL(SLIP_matrix_nnz(A, op_)); if (k != -1) c.fail("out:nnz", "SLIP_matrix_nnz returned %ld outside a session", (long)k); } break;
            case 9: op("o_check"); expect("SLIP_matrix_check", SL(SLIP_matrix_check(use_objs && r.pct(50) ? any : A, op_)), SLIP_PANIC); break;
            case 10: op("o_analyze"); expect("SLIP_LU_analyze", SL(SLIP_LU_analyze(&S, A, op_)), SLIP_PANIC); break;
            case 11: { op("o_analysis_free"); SLIP_LU_analysis* t = use_objs ? s.S : NULL, *t0 = t; expect("SLIP_LU_analysis_free", SL(SLIP_LU_analysis_free(r.pct(85) ? &t : NULL, op_)), SLIP_PANIC); if (t != t0) c.fail("out:analysis_free", "SLIP_LU_analysis_free outside a session cleared the handle"); break; }
            case 12: { op("o_factorize"); SLIP_matrix *y = bad, *z = bad; int64_t* p = (int64_t*)0x5353; expect("SLIP_LU_factorize", SL(SLIP_LU_factorize(&x, &y, &z, &p, A, use_objs ? s.S : NULL, op_)), SLIP_PANIC); if (y != bad || z != bad || p != (int64_t*)0x5353) c.fail("out:factorize", "SLIP_LU_factorize outside a session touched a handle"); break; }
            case 13: op("o_solve"); expect("SLIP_LU_solve", SL(SLIP_LU_solve(&x, use_objs ? b : NULL, A, s.L, s.U, s.rhos, s.S, s.pinv, op_)), SLIP_PANIC); break;
            case 14: op("o_backslash"); expect("SLIP_backslash", SL(SLIP_backslash(&x, (SLIP_type)r.below(5), A, use_objs ? b : NULL, op_)), SLIP_PANIC); break;
            case 15: fini(); break;
        }
        if (x != bad || S != (SLIP_LU_analysis*)0x5252) c.fail("out:handle", "a call outside a session touched its output handle; history %s", trace.c_str());
        if (digest() != d2) c.fail("out:args", "a call outside a session touched its arguments; history %s", trace.c_str());
        if (config() != cf || g_tr.nalloc != na || g_tr.nfree != nf) c.fail("out:memory", "a call outside a session used the memory functions; history %s", trace.c_str());
        if (g_sink.calls != pr) c.fail("out:print", "a call outside a session printed; history %s", trace.c_str());
        cnt("outside_calls"); (void)d;
    }
};
void run_case(Ctx& c)
{
    Rng& r = c.rng;
    g_tr.live.clear(); g_tr.reset();
    SuiteSparse_config.printf_func = sink_printf;
    Model m(c); m.tracked = r.pct(65); int sessions = 0; Hash h;
    int n = (int)r.range(15, 60);
    for (int k = 0; k < n && !c.failed; k++)
    {
        if (!m.in)
        {
            if (r.pct(25)) { m.init(); sessions++; }
            else if (r.pct(10)) m.fini();
            else m.outside();
        }
        else switch (r.below(11))
        {
            case 10: m.logs(); break;
            case 0: case 1: m.fini(); break;
            case 2: m.init(); break;
            case 3: m.build(); break;
            case 4: case 5: m.use(); break;
            case 6: m.defaults(); break;
            default:
            {
                m.op("program"); Prog p(c); p.statuses = true; p.maxn = 5; p.prints = false; p.wrappers = false; p.trace = m.trace;
                int q = (int)r.range(2, 8); while (q--) p.step();
                // everything is freed, the session goes on
                while (!p.mats.empty()) p.drop(p.mats.size() - 1);
                while (!p.syss.empty()) p.drop_system(p.syss.size() - 1);
                while (!p.bufs.empty()) { vfree(p.bufs.back().p); p.bufs.pop_back(); }
                cnt("in_session_calls", p.calls);
            }
        }
    }
    if (!m.in && !c.failed) { m.init(); sessions++; }
    if (m.in) { if (m.have && !c.failed) m.use(); m.drop(); m.fini(); }
    if (m.tracked && !c.failed && (!g_tr.live.empty() || g_tr.bad_free)) c.fail("leak", "%zu blocks left, %ld bad frees after the last session; history %s", g_tr.live.size(), (long)g_tr.bad_free, m.trace.c_str());
    if (c.failed && m.in) slip_fini();
    // never leave a session open for the next case
    { SlipMode sm; SLIP_finalize(); }
    cnt("sessions", sessions); c.desc = m.trace.substr(0, 400); h.adds(m.trace);
    if (sessions >= 2) c.sig(h.h);
}

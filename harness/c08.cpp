// C08: memory failure at every allocation.  Each case is one call; it is first
// run without failures, then again for each index of a failing allocation
// (that one only, or all from it on), and once more without failures.
#define PROG_MAIN
#include "prog.hpp"
void harness_init() {}
struct Out { int st = 0; uint64_t dig = 0; bool handles_null = true; };
struct Scen
{
    string name;
    std::function<Out()> run;           // makes the call, digests and frees its outputs; injection is on only inside INJ()
    std::function<uint64_t()> inputs;   // digest of the inputs
    int oom = SLIP_OUT_OF_MEMORY;       // the status that reports the failure
    bool null_result = false;           // reports by a null pointer: st = 1 result, 0 null
};
static int64_t g_at = -1, g_n = 0; static bool g_on = false;
static int64_t g_used = 0;
struct Inj
{
    int64_t a0, f0;
    Inj() { a0 = g_tr.nalloc; f0 = g_tr.failed; if (g_on) { g_tr.inject = true; g_tr.fail_at = g_tr.nalloc + g_at; g_tr.fail_n = g_n; } }
    ~Inj() { g_tr.inject = false; g_used = g_tr.nalloc - a0; }
};
#define INJ(e) ([&]() { SlipMode sm_; Inj in_; return (e); }())

struct Sys { MatZ M; Q as, bs; vector<Z> bv; int64_t nrhs; SLIP_matrix *A = NULL, *b = NULL, *L = NULL, *U = NULL, *rhos = NULL; SLIP_LU_analysis* S = NULL; int64_t* pinv = NULL; SLIP_options* o = NULL; bool sing = false; };
static void drop(Sys& s) { mfree(s.A); mfree(s.b); mfree(s.L); mfree(s.U); mfree(s.rhos); sfree(s.S); vfree(s.pinv); vfree(s.o); s.pinv = NULL; s.o = NULL; }
static uint64_t dig(const Sys& s) { Hash h; h.add(mdigest(s.A)); h.add(mdigest(s.b)); if (s.L) { h.add(mdigest(s.L)); h.add(mdigest(s.U)); h.add(mdigest(s.rhos)); h.add(idigest(s.pinv, s.A->n)); } if (s.S) h.add(sdigest(s.S, s.A->n)); h.add(odigest(s.o)); return h.h; }
static void make(Ctx& c, Sys& s, int maxn)
{
    Rng& r = c.rng; GenOpt g; g.maxn = maxn; g.big_pct = 2; g.bigmaxn = 25; if (r.pct(25)) g.vkind = 6; if (r.pct(10)) g.vkind = 7;
    if (r.pct(3)) { s.M = MatZ(); s.M.p.push_back(0); } else s.M = gen_square(r, g);
    s.as = gen_scale(r); s.bs = gen_scale(r); s.nrhs = r.pct(60) ? 1 : r.range(0, 3);
    s.bv = gen_rhs(r, s.M.n, s.nrhs);
    s.A = mk_csc(s.M, s.as, s.M.nnz() + r.below(3)); s.b = mk_dense(s.bv, s.M.n, s.nrhs, s.bs);
    if (r.pct(88))
    {
        s.o = SL(SLIP_create_default_options()); s.o->order = (SLIP_col_order)r.below(3); s.o->pivot = (SLIP_pivot)r.below(6); s.o->tol = gen_tol(r); s.o->check = r.pct(35);
        static const int P[] = {2, 53, 64, 128, 256, 1000}; s.o->prec = P[r.below(6)]; s.o->round = (mpfr_rnd_t)r.below(5); s.o->print_level = r.pct(15) ? (int)r.range(1, 3) : 0;
    }
}
// clear what is left of a variable: a failed call may have left a null pointer
static void zclear(mpz_ptr z) { if (z->_mp_d) mpz_clear(z); }
static void qclear(mpq_ptr q) { zclear(mpq_numref(q)); zclear(mpq_denref(q)); }
static void fclear(mpfr_ptr f) { if (f->_mpfr_d) mpfr_clear(f); }
// ---------------------------------------------------------------- wrappers ---
struct WOp { const char* name; std::function<int(mpz_t*, mpq_t*, mpfr_t*, int64_t*)> f; int dz, dq, df; };    // index of the destination, -1 none
static vector<WOp> wops()
{
    vector<WOp> v;
    #define W(n, dz, dq, df, e) v.push_back({n, [](mpz_t* z, mpq_t* q, mpfr_t* f, int64_t* out) -> int { (void)z; (void)q; (void)f; (void)out; return (int)(e); }, dz, dq, df});
    W("mpz_set", 0, -1, -1, SLIP_mpz_set(z[0], z[1]))
    W("mpz_set_ui", 0, -1, -1, SLIP_mpz_set_ui(z[0], 123456789))
    W("mpz_set_si", 0, -1, -1, SLIP_mpz_set_si(z[0], -123456789))
    W("mpz_set_q", 0, -1, -1, SLIP_mpz_set_q(z[0], q[1]))
    W("mpz_mul", 0, -1, -1, SLIP_mpz_mul(z[0], z[1], z[2]))
    W("mpz_mul_alias", 1, -1, -1, SLIP_mpz_mul(z[1], z[1], z[2]))
    W("mpz_mul_square", 1, -1, -1, SLIP_mpz_mul(z[1], z[1], z[1]))
    W("mpz_submul", 0, -1, -1, SLIP_mpz_submul(z[0], z[1], z[2]))
    W("mpz_submul_alias", 1, -1, -1, SLIP_mpz_submul(z[1], z[1], z[2]))
    W("mpz_divexact", 0, -1, -1, SLIP_mpz_divexact(z[0], z[3], z[2]))
    W("mpz_divexact_alias", 3, -1, -1, SLIP_mpz_divexact(z[3], z[3], z[2]))
    W("mpz_divexact_alias2", 2, -1, -1, SLIP_mpz_divexact(z[2], z[3], z[2]))
    W("mpz_gcd", 0, -1, -1, SLIP_mpz_gcd(z[0], z[1], z[3]))
    W("mpz_gcd_alias", 1, -1, -1, SLIP_mpz_gcd(z[1], z[1], z[3]))
    W("mpz_lcm", 0, -1, -1, SLIP_mpz_lcm(z[0], z[1], z[2]))
    W("mpz_abs", 0, -1, -1, SLIP_mpz_abs(z[0], z[1]))
    W("mpz_get_d", -1, -1, -1, ({ double x = 0; int s = SLIP_mpz_get_d(&x, z[1]); memcpy(out, &x, 8); s; }))
    W("mpz_cmp", -1, -1, -1, ({ int x = 0; int s = SLIP_mpz_cmp(&x, z[1], z[2]); *out = x > 0 ? 1 : x < 0 ? -1 : 0; s; }))
    W("mpz_sgn", -1, -1, -1, ({ int x = 0; int s = SLIP_mpz_sgn(&x, z[1]); *out = x; s; }))
    W("mpq_set", -1, 0, -1, SLIP_mpq_set(q[0], q[1]))
    W("mpq_set_z", -1, 0, -1, SLIP_mpq_set_z(q[0], z[1]))
    W("mpq_set_d", -1, 0, -1, SLIP_mpq_set_d(q[0], 1.2345e-200))
    W("mpq_set_ui", -1, 0, -1, SLIP_mpq_set_ui(q[0], 12345, 67))
    W("mpq_set_num", -1, 0, -1, SLIP_mpq_set_num(q[0], z[1]))
    W("mpq_set_den", -1, 0, -1, SLIP_mpq_set_den(q[0], z[2]))
    W("mpq_get_den", 0, -1, -1, SLIP_mpq_get_den(z[0], q[1]))
    W("mpq_abs", -1, 0, -1, SLIP_mpq_abs(q[0], q[1]))
    W("mpq_add", -1, 0, -1, SLIP_mpq_add(q[0], q[1], q[2]))
    W("mpq_add_alias", -1, 1, -1, SLIP_mpq_add(q[1], q[1], q[2]))
    W("mpq_mul", -1, 0, -1, SLIP_mpq_mul(q[0], q[1], q[2]))
    W("mpq_mul_alias", -1, 2, -1, SLIP_mpq_mul(q[2], q[1], q[2]))
    W("mpq_div", -1, 0, -1, SLIP_mpq_div(q[0], q[1], q[2]))
    W("mpq_div_alias", -1, 2, -1, SLIP_mpq_div(q[2], q[1], q[2]))
    W("mpq_get_d", -1, -1, -1, ({ double x = 0; int s = SLIP_mpq_get_d(&x, q[1]); memcpy(out, &x, 8); s; }))
    W("mpq_cmp", -1, -1, -1, ({ int x = 0; int s = SLIP_mpq_cmp(&x, q[1], q[2]); *out = x > 0 ? 1 : x < 0 ? -1 : 0; s; }))
    W("mpq_cmp_ui", -1, -1, -1, ({ int x = 0; int s = SLIP_mpq_cmp_ui(&x, q[1], 77, 5); *out = x > 0 ? 1 : x < 0 ? -1 : 0; s; }))
    W("mpq_equal", -1, -1, -1, ({ int x = 0; int s = SLIP_mpq_equal(&x, q[1], q[2]); *out = x != 0; s; }))
    W("mpfr_set", -1, -1, 0, SLIP_mpfr_set(f[0], f[1], MPFR_RNDN))
    W("mpfr_set_d", -1, -1, 0, SLIP_mpfr_set_d(f[0], 0.1, MPFR_RNDZ))
    W("mpfr_set_si", -1, -1, 0, SLIP_mpfr_set_si(f[0], -77, MPFR_RNDN))
    W("mpfr_set_q", -1, -1, 0, SLIP_mpfr_set_q(f[0], q[1], MPFR_RNDN))
    W("mpfr_set_z", -1, -1, 0, SLIP_mpfr_set_z(f[0], z[1], MPFR_RNDN))
    W("mpfr_get_z", 0, -1, -1, SLIP_mpfr_get_z(z[0], f[1], MPFR_RNDN))
    W("mpfr_get_q", -1, 0, -1, SLIP_mpfr_get_q(q[0], f[1], MPFR_RNDN))
    W("mpfr_get_d", -1, -1, -1, ({ double x = 0; int s = SLIP_mpfr_get_d(&x, f[1], MPFR_RNDN); memcpy(out, &x, 8); s; }))
    W("mpfr_get_si", -1, -1, -1, ({ int64_t x = 0; int s = SLIP_mpfr_get_si(&x, f[1], MPFR_RNDN); *out = x; s; }))
    W("mpfr_mul", -1, -1, 0, SLIP_mpfr_mul(f[0], f[1], f[2], MPFR_RNDN))
    W("mpfr_mul_alias", -1, -1, 1, SLIP_mpfr_mul(f[1], f[1], f[2], MPFR_RNDN))
    W("mpfr_mul_d", -1, -1, 0, SLIP_mpfr_mul_d(f[0], f[1], 0.3, MPFR_RNDU))
    W("mpfr_div_d", -1, -1, 0, SLIP_mpfr_div_d(f[0], f[1], 0.3, MPFR_RNDD))
    W("mpfr_ui_pow_ui", -1, -1, 0, SLIP_mpfr_ui_pow_ui(f[0], 7, 133, MPFR_RNDN))
    W("mpfr_asprintf", -1, -1, -1, ({ char* s = NULL; int st = SLIP_mpfr_asprintf(&s, "%Zd %Qd %.40Rf", z[1], q[1], f[1]); Hash h; if (s) { h.adds(s); if (st == SLIP_OK) SLIP_mpfr_free_str(s); } *out = (int64_t)h.h; st; }))
    W("gmp_fscanf", 0, -1, -1, ({ static char t[] = "123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890 5"; FILE* fp = fmemopen(t, sizeof t - 1, "r"); int st = SLIP_gmp_fscanf(fp, "%Zd", z[0]); fclose(fp); st; }))
    W("mpfr_free_cache", -1, -1, -1, SLIP_mpfr_free_cache())
    #undef W
    return v;
}
struct Vars
{
    mpz_t z[4]; mpq_t q[3]; mpfr_t f[3]; uint64_t seed;
    void start(uint64_t s)
    {
        seed = s; Rng r(s); SlipMode sm; bool big = r.pct(50);
        auto zz = [&]() { mpz_t t; mpz_init(t); int n = big ? (int)r.range(3, 60) : (int)r.range(1, 3); for (int k = 0; k < n; k++) { mpz_mul_2exp(t, t, 60); mpz_add_ui(t, t, r.next() >> 4); } if (r.pct(45)) mpz_neg(t, t); return *t; };
        mp_set_memory_functions(g_slip.a, g_slip.r, g_slip.f);
        // plain GMP calls, outside of any wrapper: allocation is not failing here
        for (int k = 0; k < 3; k++) { __mpz_struct t = zz(); mpz_init_set(z[k], &t); mpz_clear(&t); }
        mpz_init(z[3]); mpz_mul(z[3], z[1], z[2]);
        for (int k = 0; k < 3; k++) { mpq_init(q[k]); __mpz_struct a = zz(), b = zz(); mpz_set(mpq_numref(q[k]), &a); mpz_abs(&b, &b); mpz_add_ui(&b, &b, 1); mpz_set(mpq_denref(q[k]), &b); mpq_canonicalize(q[k]); mpz_clear(&a); mpz_clear(&b); }
        if (r.pct(50)) { mpz_clear(z[0]); mpz_init(z[0]); mpq_clear(q[0]); mpq_init(q[0]); }     // a fresh destination has to grow
        for (int k = 0; k < 3; k++) { mpfr_init2(f[k], big ? (int)r.range(500, 3000) : (int)r.range(2, 300)); mpfr_set_z(f[k], z[k], MPFR_RNDN); mpfr_div_2ui(f[k], f[k], r.below(60), MPFR_RNDN); }
        mpfr_free_cache();
    }
    void finish() { SlipMode sm; for (auto& t : z) mpz_clear(t); for (auto& t : q) mpq_clear(t); for (auto& t : f) mpfr_clear(t); mpfr_free_cache(); }
    uint64_t dig(int dz, int dq, int df)    // without the destination
    {
        Hash h;
        for (int k = 0; k < 4; k++) if (k != dz) h.addz(z[k]);
        for (int k = 0; k < 3; k++) if (k != dq) { h.addz(mpq_numref(q[k])); h.addz(mpq_denref(q[k])); }
        for (int k = 0; k < 3; k++) if (k != df) hf(h, f[k]);
        return h.h;
    }
    static void hf(Hash& h, mpfr_srcptr x) { h.add(x->_mpfr_prec); h.add(x->_mpfr_sign); h.add(x->_mpfr_exp); if (mpfr_regular_p(x)) for (long k = 0; k < (x->_mpfr_prec + 63) / 64; k++) h.add(x->_mpfr_d[k]); }
    uint64_t dst(int dz, int dq, int df) { Hash h; if (dz >= 0) h.addz(z[dz]); if (dq >= 0) { h.addz(mpq_numref(q[dq])); h.addz(mpq_denref(q[dq])); } if (df >= 0) hf(h, f[df]); return h.h; }
};
static void close_case(Ctx& c, const string& nm)
{
    if (slip_fini() != SLIP_OK) c.fail("finalize:" + nm, "finalization failed after failures of memory");
    if (!g_tr.live.empty()) c.fail("leak:" + nm, "%zu blocks left (the first of %zu bytes) after failures in %s", g_tr.live.size(), g_tr.live.begin()->second, nm.c_str());
    if (g_tr.bad_free || g_tr.bad_realloc) c.fail("bad_free:" + nm, "%ld foreign or repeated frees after failures in %s", (long)(g_tr.bad_free + g_tr.bad_realloc), nm.c_str());
    for (auto& kv : g_tr.live) free(kv.first);
    g_tr.live.clear(); g_tr.reset();
}
static vector<int64_t> points(Ctx& c, int64_t N, int64_t cap)
{
    vector<int64_t> v;
    if (N <= cap) { for (int64_t k = 0; k < N; k++) v.push_back(k); return v; }
    for (int64_t k = 0; k < cap / 4; k++) v.push_back(k);
    for (int64_t k = N - cap / 4; k < N; k++) v.push_back(k);
    while ((int64_t)v.size() < cap) v.push_back(c.rng.below(N));
    return v;
}
static void enumerate(Ctx& c, Scen& s, int64_t cap)
{
    Rng& r = c.rng; const string& nm = s.name;
    uint64_t d0 = s.inputs();
    g_on = false; Out base = s.run(); int64_t N = g_used;
    if (s.inputs() != d0) c.fail("inputs:" + nm, "%s changed its inputs", nm.c_str());
    cntmax("allocations", N); cnt("allocs:" + nm, N); cnt("scen:" + nm);
    auto pts = points(c, N, cap);
    for (int64_t k : pts) for (int pers = 0; pers < 2; pers++)
    {
        if (N > 20 && pers && r.pct(40)) continue;
        SL((mpfr_free_cache(), 0));
        int64_t live0 = (int64_t)g_tr.live.size(), failed0 = g_tr.failed;
        g_on = true; g_at = k; g_n = pers ? (int64_t)1 << 60 : r.pct(80) ? 1 : r.range(2, 5);
        Out o = s.run(); g_on = false;
        cnt("faults");
        int64_t hit = g_tr.failed - failed0;
        if (o.st == s.oom) { cnt("reported"); if (!o.handles_null) c.fail("handle:" + nm, "%s failed at allocation %ld of %ld (%s) but returned an object", nm.c_str(), (long)k, (long)N, pers ? "and later" : "only"); if (!hit) c.fail("spurious:" + nm, "%s reported a failure of memory without one", nm.c_str()); }
        else if (o.st == base.st) { if (hit) cnt("survived"); if (o.dig != base.dig) c.fail("result:" + nm, "%s returned %d and a wrong result with allocation %ld of %ld failing (%s)", nm.c_str(), o.st, (long)k, (long)N, pers ? "and later ones" : "only"); }
        else c.fail("status:" + nm, "%s returned %d with allocation %ld of %ld failing (%s); %d without", nm.c_str(), o.st, (long)k, (long)N, pers ? "and later ones" : "only", base.st);
        if (s.inputs() != d0) { c.fail("inputs:" + nm, "%s changed its inputs when allocation %ld of %ld failed", nm.c_str(), (long)k, (long)N); d0 = s.inputs(); }
        SL((mpfr_free_cache(), 0));
        // the list of the big-number blocks may have appeared or gone
        if ((int64_t)g_tr.live.size() > live0 + 1) c.fail("leak_now:" + nm, "%ld more blocks after %s failed at allocation %ld of %ld", (long)((int64_t)g_tr.live.size() - live0), nm.c_str(), (long)k, (long)N);
        if (c.failed) break;
    }
    Out again = s.run();
    if (!c.failed && (again.st != base.st || again.dig != base.dig)) c.fail("after:" + nm, "%s gives another result (status %d, was %d) after failures of memory", nm.c_str(), again.st, base.st);
    c.desc = fmt("%s, %ld allocations, status %d, %zu failure points", nm.c_str(), (long)N, base.st, pts.size());
    Hash h; h.adds(nm); h.add(d0); h.add(N); if (N > 0) c.sig(h.h);
}
template <class I> static void ordering_case(Ctx& c, int64_t cap)
{
    typedef OrdApi<I> O; Rng& r = c.rng; PatOpt po; po.maxn = 14; po.maxm = 14; po.big_pct = 5; po.bigmax = 40; po.square = true;
    Pat P = gen_pat(r, po); I n = (I)P.n; Ctl t = gen_ctl(r); Knob kn = gen_knob(r);
    Arr<I> p(P.p), i(P.i); Scen s;
    s.inputs = [&]() { Hash h; for (size_t k = 0; k < p.n; k++) h.add(p[k]); for (size_t k = 0; k < i.n; k++) h.add(i[k]); return h.h; };
    if (r.pct(55))
    {
        s.name = string("amd_") + O::name(); s.oom = AMD_OUT_OF_MEMORY;
        s.run = [&]() { Out o; Arr<I> perm(n); double info[AMD_INFO]; o.st = (int)INJ(O::amd(n, p, i, perm, t.null ? NULL : t.c, info)); Hash h; if (o.st >= 0) for (I k = 0; k < n; k++) h.add(perm[k]); if (info[AMD_STATUS] != o.st) h.add(999); o.dig = h.h; return o; };
    }
    else
    {
        s.name = string("symamd_") + O::name(); s.oom = 0;
        s.run = [&]() { Out o; Arr<I> perm(n + 1), st(COLAMD_STATS); int ok = (int)INJ(O::sym(n, i, p, perm, kn.null ? NULL : kn.k, st, tr_calloc, tr_free)); o.st = ok ? 1 : st[COLAMD_STATUS] == COLAMD_ERROR_out_of_memory ? 0 : 2; Hash h; if (ok) for (I k = 0; k < n; k++) h.add(perm[k]); o.dig = h.h; return o; };
    }
    enumerate(c, s, cap);
}
static void wrapper_case(Ctx& c, int64_t cap)
{
    Rng& r = c.rng; static const vector<WOp> ops = wops(); const WOp& w = ops[r.below(ops.size())]; uint64_t seed = r.next();
    Scen s; s.name = w.name; uint64_t src0 = 0; bool first = true;
    { Vars v; v.start(seed); src0 = v.dig(w.dz, w.dq, w.df); v.finish(); }
    s.inputs = []() { return (uint64_t)0; };
    s.run = [&]()
    {
        Out o; Vars v; v.start(seed); int64_t out = 0;
        o.st = INJ(w.f(v.z, v.q, v.f, &out));
        if (v.dig(w.dz, w.dq, w.df) != src0) c.fail(string("inputs:") + w.name, "SLIP_%s changed another variable", w.name);
        if (o.st == SLIP_OK) { Hash h; h.add(v.dst(w.dz, w.dq, w.df)); h.add((uint64_t)out); o.dig = h.h; }
        else
        {
            // what is left of the destination can be cleared, and initialized again
            SlipMode sm;
            if (w.dz >= 0) { zclear(v.z[w.dz]); SLIP_mpz_init(v.z[w.dz]); if (SLIP_mpz_set_si(v.z[w.dz], -3) != SLIP_OK || mpz_cmp_si(v.z[w.dz], -3)) c.fail(string("reuse:") + w.name, "the destination is unusable after a failure"); }
            if (w.dq >= 0) { qclear(v.q[w.dq]); SLIP_mpq_init(v.q[w.dq]); if (SLIP_mpq_set_ui(v.q[w.dq], 7, 3) != SLIP_OK || mpq_cmp_ui(v.q[w.dq], 7, 3)) c.fail(string("reuse:") + w.name, "the destination is unusable after a failure"); }
            if (w.df >= 0) { fclear(v.f[w.df]); SLIP_mpfr_init2(v.f[w.df], 100); if (SLIP_mpfr_set_si(v.f[w.df], 5, MPFR_RNDN) != SLIP_OK || mpfr_cmp_ui(v.f[w.df], 5)) c.fail(string("reuse:") + w.name, "the destination is unusable after a failure"); }
        }
        v.finish();
        (void)first; return o;
    };
    enumerate(c, s, cap);
}
static void init_case(Ctx& c)       // initialization of big-number objects
{
    Rng& r = c.rng; int k = (int)r.below(4); Scen s; s.inputs = []() { return (uint64_t)0; };
    static const char* nm[] = {"mpz_init", "mpz_init2", "mpq_init", "mpfr_init2"}; s.name = nm[k]; uint64_t bits = r.pct(50) ? r.range(2, 200) : r.range(200, 100000);
    s.run = [&]()
    {
        Out o; mpz_t z; mpq_t q; mpfr_t f; memset(z, 0, sizeof z); memset(q, 0, sizeof q); memset(f, 0, sizeof f);     // as SLIP_MPZ_SET_NULL does
        o.st = k == 0 ? INJ(SLIP_mpz_init(z)) : k == 1 ? INJ(SLIP_mpz_init2(z, bits)) : k == 2 ? INJ(SLIP_mpq_init(q)) : INJ(SLIP_mpfr_init2(f, bits));
        SlipMode sm;    // whatever happened, it can be cleared
        if (k <= 1) zclear(z); else if (k == 2) qclear(q); else fclear(f);
        return o;
    };
    enumerate(c, s, 1000);
}
void run_case(Ctx& c)
{
    Rng& r = c.rng;
    for (auto& kv : g_tr.live) free(kv.first);
    g_tr.live.clear(); g_tr.reset(); g_on = false;
    SuiteSparse_config.printf_func = sink_printf;
    int64_t cap = c.thorough ? 400 : 40;
    int what = (int)r.below(100);
    if (what < 2)
    {
        // initialization with functions that fail
        bool late = r.pct(50); g_tr.inject = true; g_tr.fail_at = 0; g_tr.fail_n = (int64_t)1 << 60;
        SLIP_info st = slip_init_tracked();
        if (st != SLIP_OK && st != SLIP_OUT_OF_MEMORY) c.fail("status:init", "SLIP_initialize_expert returned %d without memory", (int)st);
        if (st == SLIP_OK)
        {
            if (SL(SLIP_create_default_options())) c.fail("status:options", "options without memory");
            SLIP_matrix* A = NULL; SLIP_info s2 = SL(SLIP_matrix_allocate(&A, SLIP_CSC, SLIP_MPZ, 3, 3, 3, false, true, NULL));
            if (s2 != SLIP_OUT_OF_MEMORY || A) c.fail("status:allocate", "SLIP_matrix_allocate returned %d without memory", (int)s2);
            if (!late) { g_tr.inject = false; A = mk_dense(vector<Z>(4, Z(5)), 2, 2, Q(1)); if (!A) c.fail("after:init", "cannot allocate after failures"); mfree(A); }
            g_tr.inject = late; close_case(c, "initialize");
        }
        g_tr.inject = false; c.desc = "initialize without memory"; return;
    }
    if (slip_init_tracked() != SLIP_OK) { c.fail("open", "cannot open a session"); return; }
    string nm = "?";
    if (what < 30)
    {
        Sys s; make(c, s, 7); Scen q; int k = (int)r.below(4); SLIP_type t = r.pct(50) ? SLIP_MPQ : r.pct(50) ? SLIP_MPFR : SLIP_FP64;
        q.inputs = [&]() { return dig(s); };
        if (k == 0)
        {
            q.name = t == SLIP_MPQ ? "backslash_mpq" : t == SLIP_MPFR ? "backslash_mpfr" : "backslash_fp64";
            q.run = [&]() { Out o; SLIP_matrix* x = NULL; o.st = INJ(SLIP_backslash(&x, t, s.A, s.b, s.o)); o.handles_null = !x; o.dig = x ? mdigest(x, false) : 0; if (o.st == SLIP_OK && !x) o.dig = 77; mfree(x); return o; };
        }
        else
        {
            SL(SLIP_LU_analyze(&s.S, s.A, s.o));
            if (k == 2 || k == 3) { s.sing = SL(SLIP_LU_factorize(&s.L, &s.U, &s.rhos, &s.pinv, s.A, s.S, s.o)) != SLIP_OK; }
            if (k == 3 && !s.sing)
            {
                q.name = "solve";
                q.run = [&]() { Out o; SLIP_matrix* x = NULL; o.st = INJ(SLIP_LU_solve(&x, s.b, s.A, s.L, s.U, s.rhos, s.S, s.pinv, s.o)); o.handles_null = !x; o.dig = x ? mdigest(x, false) : 0; mfree(x); return o; };
            }
            else
            {
                q.name = "factorize";
                q.run = [&]() { Out o; SLIP_matrix *L = NULL, *U = NULL, *rh = NULL; int64_t* p = NULL; o.st = INJ(SLIP_LU_factorize(&L, &U, &rh, &p, s.A, s.S, s.o)); o.handles_null = !L && !U && !rh && !p;
                    Hash h; if (L) h.add(mdigest(L, false)); if (U) h.add(mdigest(U, false)); if (rh) h.add(mdigest(rh, false)); if (p) h.add(idigest(p, s.A->n)); o.dig = h.h;
                    mfree(L); mfree(U); mfree(rh); vfree(p); return o; };
                if (r.pct(40) && s.S && s.A->n > 0) s.S->lnz = s.S->unz = s.A->n;      // L and U have to grow
            }
        }
        enumerate(c, q, cap); drop(s); nm = q.name;
    }
    else if (what < 36)
    {
        Sys s; make(c, s, 12); Scen q; q.name = "analyze"; q.inputs = [&]() { return dig(s); };
        q.run = [&]() { Out o; SLIP_LU_analysis* S = NULL; o.st = INJ(SLIP_LU_analyze(&S, s.A, s.o)); o.handles_null = !S; o.dig = S ? sdigest(S, s.A->n) : 0; sfree(S); return o; };
        enumerate(c, q, cap); drop(s); nm = q.name;
    }
    else if (what < 60)
    {
        ZooOpt z; z.vm = (int)r.below(4); SLIP_options* o_ = SL(SLIP_create_default_options()); o_->prec = r.range(2, 400); o_->round = (mpfr_rnd_t)r.below(5); o_->print_level = r.pct(60) ? 0 : (int)r.range(1, 3);
        SLIP_kind k1 = (SLIP_kind)r.below(3), k2 = (SLIP_kind)r.below(3); SLIP_type t1 = (SLIP_type)r.below(5), t2 = (SLIP_type)r.below(5);
        SLIP_matrix* A = mk_zoo(r, k1, t1, r.below(5), r.below(6), o_, z); Scen q; q.inputs = [&]() { return mdigest(A) + odigest(o_); };
        if (r.pct(60))
        {
            q.name = "copy"; q.run = [&]() { Out o; SLIP_matrix* C = NULL; o.st = INJ(SLIP_matrix_copy(&C, k2, t2, A, o_)); o.handles_null = !C; o.dig = C ? mdigest(C, false) : 0; mfree(C); return o; };
        }
        else if (r.pct(70)) { if (r.pct(70)) o_->print_level = (int)r.range(1, 3); q.name = "check"; q.run = [&]() { Out o; o.st = INJ(SLIP_matrix_check(A, o_)); return o; }; }
        else
        {
            q.name = "matrix_free"; q.oom = -77;
            q.run = [&]() { Out o; SLIP_matrix* C = NULL; SL(SLIP_matrix_copy(&C, k2, t2, A, o_)); o.st = INJ(SLIP_matrix_free(&C, o_)); o.handles_null = !C; o.dig = C != NULL; return o; };
        }
        enumerate(c, q, cap); mfree(A); vfree(o_); nm = q.name;
    }
    else if (what < 68)
    {
        SLIP_kind k = (SLIP_kind)r.below(3); SLIP_type t = (SLIP_type)r.below(5); int64_t m = r.below(5), n = r.below(5), nz = r.below(12); bool sh = r.pct(20), in = r.pct(70);
        SLIP_options* o_ = SL(SLIP_create_default_options()); o_->prec = r.range(2, 400); Scen q; q.name = "allocate"; q.inputs = [&]() { return odigest(o_); };
        q.run = [&]() { Out o; SLIP_matrix* A = NULL; o.st = INJ(SLIP_matrix_allocate(&A, k, t, m, n, nz, sh, in, o_)); o.handles_null = !A; if (A) { o.dig = (uint64_t)A->nzmax * 3 + A->m * 5 + A->n * 7 + A->kind * 11 + A->type * 13; } mfree(A); return o; };
        enumerate(c, q, cap); vfree(o_); nm = q.name;
    }
    else if (what < 72)
    {
        Scen q; q.inputs = []() { return (uint64_t)0; }; int k = (int)r.below(4); size_t sz = (size_t)r.range(0, 5000); q.oom = 0; int64_t a = r.below(50), b = r.below(100);
        if (k == 0) { q.name = "options"; q.run = [&]() { Out o; SLIP_options* t = INJ(SLIP_create_default_options()); o.st = t != NULL; o.dig = t ? odigest(t) : 0; vfree(t); return o; }; }
        else if (k == 1) { q.name = "malloc"; q.run = [&]() { Out o; void* t = INJ(SLIP_malloc(sz)); o.st = t != NULL; vfree(t); return o; }; }
        else if (k == 2) { q.name = "calloc"; q.run = [&]() { Out o; void* t = INJ(SLIP_calloc(sz, 3)); o.st = t != NULL; vfree(t); return o; }; }
        else
        {
            q.name = "realloc";
            q.run = [&]() { Out o; char* t = (char*)SL(SLIP_malloc(a * 8)); for (int64_t e = 0; e < a * 8; e++) t[e] = (char)e; bool ok = false; char* u = (char*)INJ(SLIP_realloc(b, a, 8, t, &ok)); o.st = ok; o.handles_null = true;
                if (!u || (!ok && u != t)) c.fail("realloc", "SLIP_realloc lost the block"); else { for (int64_t e = 0; e < std::min(a, ok ? b : a) * 8; e++) if (u[e] != (char)e) { c.fail("realloc", "SLIP_realloc lost the contents"); break; } vfree(u); } return o; };
            if (b < a) q.oom = -77;      // shrinking succeeds
        }
        enumerate(c, q, cap); nm = q.name;
    }
    else if (what < 82) { if (r.pct(50)) ordering_case<int>(c, cap); else ordering_case<LL>(c, cap); nm = "ordering"; }
    else if (what < 97) { wrapper_case(c, cap); nm = "wrapper"; }
    else { init_case(c); nm = "init"; }
    close_case(c, nm);
}

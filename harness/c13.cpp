// C13: the GMP and MPFR wrappers
#include "wraps.hpp"
void harness_init() {}
void run_case(Ctx& c)
{
    Rng& r = c.rng;
    r.pct(60) ? slip_init_tracked() : slip_init_plain();
    bool tracked = g_slip.a != g_def.a && !g_tr.live.empty();
    (void)tracked;
    {
        Wraps w(c);
        w.start();
        int n = (int)r.range(20, 60);
        for (int k = 0; k < n && w.ok; k++) { w.step(); cnt("calls"); }
        c.desc = w.trace.substr(0, 200);
        Hash h; h.adds(w.trace); for (int k = 0; k < NV; k++) h.addz(w.sz[k].get_mpz_t()); c.sig(h.h);
        // Inf and NaN cannot be rationals
        mpq_t t; SL(SLIP_mpq_init(t)); SL(SLIP_mpq_set_ui(t, 3, 4));
        static const double bad[] = { INFINITY, -INFINITY, NAN };
        SLIP_info s = SL(SLIP_mpq_set_d(t, bad[r.below(3)]));
        if (s == SLIP_OK) c.fail("wrapper:mpq_set_d", "Inf or NaN became a rational");
        SL((mpq_clear(t), 0));
        w.finish();
    }
    slip_fini();
    if (!g_tr.live.empty()) c.fail("leak", "%zu blocks left", g_tr.live.size());
    if (g_tr.bad_free || g_tr.bad_realloc) c.fail("foreign", "%ld foreign frees", (long)(g_tr.bad_free + g_tr.bad_realloc));
    g_tr.live.clear(); g_tr.reset();
}

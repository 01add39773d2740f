// C18: calls are pure.  Digests of every live object around every call, and a
// memo of (call, inputs) -> outputs that lasts over several sessions.
#define PROG_MAIN
#include "prog.hpp"
void harness_init() {}
// failing calls in between must leave no trace either
static void disturb(Ctx& c, Prog& p)
{
    Rng& r = c.rng;
    SLIP_matrix* x = NULL;
    switch (r.below(5))
    {
        case 0: p.op("bad_backslash"); SL(SLIP_backslash(&x, SLIP_MPZ, NULL, NULL, NULL)); break;
        case 1: p.op("bad_copy"); SL(SLIP_matrix_copy(&x, SLIP_CSC, SLIP_MPZ, NULL, NULL)); break;
        case 2: p.op("oom_wrapper"); if (p.tracked_now()) { mpz_t t; SL(SLIP_mpz_init(t)); g_tr.inject = true; g_tr.fail_at = g_tr.nalloc + r.below(3); g_tr.fail_n = 1; { SlipMode sm; SLIP_mpz_init2(t, 5000); } g_tr.inject = false; SL((SLIP_mpz_set_ui(t, 1), 0)); SL((mpz_clear(t), 0)); } break;
        case 3: if (p.tracked_now() && !p.syss.empty())
        {
            p.op("oom_backslash"); PSys& s = p.syss[r.below(p.syss.size())]; Rng q = p.recipe(); SLIP_matrix* b = p.rhs(q, s.A->n); if (!b) break;
            g_tr.inject = true; g_tr.fail_at = g_tr.nalloc + r.below(300); g_tr.fail_n = r.pct(50) ? 1 : 1000000000;
            SLIP_info st = SL(SLIP_backslash(&x, SLIP_MPQ, s.A, b, s.o)); g_tr.inject = false;
            if (st == SLIP_OK) mfree(x);
            mfree(b); break;
        }
        // fall through
        default: p.op("bad_analyze"); { SLIP_LU_analysis* S = NULL; SL(SLIP_LU_analyze(&S, NULL, NULL)); } break;
    }
    p.verify();
}
void run_case(Ctx& c)
{
    Rng& r = c.rng;
    g_tr.live.clear(); g_tr.reset();
    Prog p(c); p.watch = true; p.use_memo = true; p.maxn = 8;
    int sessions = (int)r.range(2, 3);
    for (int s = 0; s < sessions; s++)
    {
        p.tracked = r.pct(50);
        if (!p.open(p.tracked)) break;
        int n = (int)r.range(10, 40);
        for (int k = 0; k < n && !c.failed; k++) { if (r.pct(8)) disturb(c, p); else p.step(); }
        p.close(); g_tr.live.clear(); g_tr.reset();
        cnt("sessions");
    }
    cnt("calls", p.calls); cnt("objects_compared", p.watched); cnt("repeated_calls_compared", p.memo_hits);
    c.desc = p.trace.substr(0, 300);
    if (p.memo_hits) c.sig(p.shape.h);
}

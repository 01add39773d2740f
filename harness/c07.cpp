// C07: no memory error or undefined behaviour on any valid call.
// The oracle is the sanitizer (or memcheck) the program runs under.
#define PROG_MAIN
#include "prog.hpp"
void harness_init() {}
void run_case(Ctx& c)
{
    Rng& r = c.rng;
    Prog p(c);
    p.maxn = r.pct(15) ? 30 : 10;
    int sessions = (int)r.range(1, 2);
    for (int s = 0; s < sessions; s++)
    {
        if (!p.open(r.pct(25))) break;
        int n = (int)r.range(15, 70);
        for (int k = 0; k < n; k++) p.step();
        p.close();
        cnt("sessions");
    }
    cnt("calls", p.calls);
    c.desc = p.trace.substr(0, 300);
    c.sig(p.shape.h);
    g_tr.live.clear(); g_tr.reset();
}

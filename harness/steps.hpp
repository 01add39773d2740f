// Work done by the library: basic blocks entered (its objects are compiled with
// -fsanitize-coverage=trace-pc, the harness is not) and arithmetic calls of GMP.
#pragma once
#include "common.hpp"
extern uint64_t g_steps;            // basic blocks entered in library code
extern int64_t g_arith;             // multiplications and divisions asked of GMP
extern bool g_arith_on;
struct Work
{
    uint64_t s0; int64_t a0, b0, n0;
    Work() { s0 = g_steps; a0 = g_arith; g_arith_on = true; b0 = g_tr.bytes; g_tr.peak = g_tr.bytes; n0 = g_tr.nalloc; }
    uint64_t steps() { g_arith_on = false; return g_steps - s0; }
    int64_t arith() { return g_arith - a0; }
    int64_t peak() { return g_tr.peak - b0; }
    int64_t left() { return g_tr.bytes - b0; }
};

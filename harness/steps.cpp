#include "steps.hpp"
uint64_t g_steps = 0; int64_t g_arith = 0; bool g_arith_on = false;
// the harness is linked with --wrap for each of these; calls inside GMP do not pass here
#define W3(T, f) extern "C" void __real_##f(T, const void*, const void*); extern "C" void __wrap_##f(T a, const void* b, const void* c) { g_arith += g_arith_on; __real_##f(a, b, c); }
W3(void*, __gmpz_mul) W3(void*, __gmpz_submul) W3(void*, __gmpz_addmul) W3(void*, __gmpz_divexact) W3(void*, __gmpz_tdiv_q) W3(void*, __gmpz_fdiv_q)
W3(void*, __gmpz_cdiv_q) W3(void*, __gmpz_gcd) W3(void*, __gmpz_lcm) W3(void*, __gmpq_mul) W3(void*, __gmpq_div) W3(void*, __gmpq_add) W3(void*, __gmpq_sub)
extern "C" void __sanitizer_cov_trace_pc() { g_steps++; }

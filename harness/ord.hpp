// AMD, COLAMD and SYMAMD behind one interface for both integer types.
#pragma once
#include "common.hpp"
#include "pat.hpp"
template <class I> struct OrdApi;
template <> struct OrdApi<int>
{
    static int amd(int n, const int* p, const int* i, int* P, double* C, double* F) { return amd_order(n, p, i, P, C, F); }
    static int valid(int m, int n, const int* p, const int* i) { return amd_valid(m, n, p, i); }
    static size_t rec(int nz, int m, int n) { return colamd_recommended(nz, m, n); }
    static int col(int m, int n, int al, int* A, int* p, double* k, int* s) { return colamd(m, n, al, A, p, k, s); }
    static int sym(int n, int* A, int* p, int* q, double* k, int* s, void* (*al)(size_t, size_t), void (*fr)(void*)) { return symamd(n, A, p, q, k, s, al, fr); }
    static void col_report(int* s) { colamd_report(s); }
    static void sym_report(int* s) { symamd_report(s); }
    static void amd_def(double* c) { amd_defaults(c); }
    static void amd_ctl(double* c) { amd_control(c); }
    static void amd_inf(double* c) { amd_info(c); }
    static void col_def(double* c) { colamd_set_defaults(c); }
    static const char* name() { return "int"; }
};
template <> struct OrdApi<SuiteSparse_long>
{
    typedef SuiteSparse_long L;
    static L amd(L n, const L* p, const L* i, L* P, double* C, double* F) { return amd_l_order(n, p, i, P, C, F); }
    static L valid(L m, L n, const L* p, const L* i) { return amd_l_valid(m, n, p, i); }
    static size_t rec(L nz, L m, L n) { return colamd_l_recommended(nz, m, n); }
    static L col(L m, L n, L al, L* A, L* p, double* k, L* s) { return colamd_l(m, n, al, A, p, k, s); }
    static L sym(L n, L* A, L* p, L* q, double* k, L* s, void* (*al)(size_t, size_t), void (*fr)(void*)) { return symamd_l(n, A, p, q, k, s, al, fr); }
    static void col_report(L* s) { colamd_l_report(s); }
    static void sym_report(L* s) { symamd_l_report(s); }
    static void amd_def(double* c) { amd_l_defaults(c); }
    static void amd_ctl(double* c) { amd_l_control(c); }
    static void amd_inf(double* c) { amd_l_info(c); }
    static void col_def(double* c) { colamd_l_set_defaults(c); }
    static const char* name() { return "long"; }
};
typedef SuiteSparse_long LL;
// arrays are malloc'd with exactly the documented size, so that ASan sees any excess
template <class T> struct Arr
{
    T* a; size_t n;
    explicit Arr(size_t n_, int fill = 0x5a) : a((T*)malloc(n_ ? n_ * sizeof(T) : 1)), n(n_) { if (n) memset((void*)a, fill, n * sizeof(T)); }
    Arr(const vector<int64_t>& v) : a((T*)malloc(v.size() ? v.size() * sizeof(T) : 1)), n(v.size()) { for (size_t k = 0; k < n; k++) a[k] = (T)v[k]; }
    Arr(const Arr&) = delete;
    ~Arr() { free(a); }
    T& operator[](size_t k) { return a[k]; }
    operator T*() { return a; }
    bool eq(const vector<int64_t>& v) const { for (size_t k = 0; k < n; k++) if ((int64_t)a[k] != v[k]) return false; return true; }
    vector<int64_t> vec() const { return vector<int64_t>(a, a + n); }
};
// AMD controls: default most of the time
struct Ctl { bool null = true; double c[AMD_CONTROL]; string str() const { return null ? "ctl=NULL" : fmt("dense=%g aggr=%g", c[0], c[1]); } };
static inline Ctl gen_ctl(Rng& r)
{
    Ctl t; for (double& x : t.c) x = 0;
    if (r.pct(25)) { t.null = true; t.c[AMD_DENSE] = 10; t.c[AMD_AGGRESSIVE] = 1; return t; }
    t.null = false;
    static const double d[] = { 10, 10, 1, 0, 0.5, 2, -1, 5, 3, 1e300, 1e10, 1.5, -0.5 };
    t.c[AMD_DENSE] = r.pct(30) ? 10 : d[r.below(13)];
    t.c[AMD_AGGRESSIVE] = r.pct(65) ? 1 : r.pct(60) ? 0 : 2;
    return t;
}
// COLAMD knobs
struct Knob { bool null = true; double k[COLAMD_KNOBS]; string str() const { return null ? "knobs=NULL" : fmt("drow=%g dcol=%g aggr=%g", k[0], k[1], k[2]); } };
static inline Knob gen_knob(Rng& r)
{
    Knob t; for (double& x : t.k) x = 0;
    t.k[COLAMD_DENSE_ROW] = t.k[COLAMD_DENSE_COL] = 10; t.k[COLAMD_AGGRESSIVE] = 1;
    if (r.pct(25)) return t;
    t.null = false;
    static const double d[] = { 10, 10, 1, 0, 0.5, 2, -1, 5, 3, 1e300, 1e10, 1.5, -0.5 };
    if (!r.pct(25)) t.k[COLAMD_DENSE_ROW] = d[r.below(13)];
    if (!r.pct(25)) t.k[COLAMD_DENSE_COL] = d[r.below(13)];
    t.k[COLAMD_AGGRESSIVE] = r.pct(65) ? 1 : 0;
    return t;
}

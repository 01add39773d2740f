// Common parts of every harness: RNG, GMP memory-function switching, case
// bookkeeping, matrix generators, exact and modular oracles.
//
// The library under test installs its own GMP memory functions for a session.
// Harness code must never allocate GMP objects with those, so every call into
// the library is made through SL(...), which switches the functions for the
// duration of the call only.
#pragma once
#include <gmp.h>
#include <mpfr.h>
#include <gmpxx.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <math.h>
#include <float.h>
#include <unistd.h>
#include <fcntl.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <numeric>
extern "C" {
#include "SLIP_LU.h"
#include "amd.h"
#include "colamd.h"
}
using std::string; using std::vector; using std::map; using std::set;
typedef unsigned __int128 u128;

//------------------------------------------------------------------------------
// random numbers: one stream per (seed, property, case)
//------------------------------------------------------------------------------
static inline uint64_t mix64(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t x = 1) : s(x) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int64_t below(int64_t n) { return n <= 1 ? 0 : (int64_t)(next() % (uint64_t)n); }
    int64_t range(int64_t a, int64_t b) { return a + below(b - a + 1); }
    bool pct(int p) { return below(100) < p; }
    double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    template <class T> void shuffle(vector<T>& v)
    { for (size_t i = v.size(); i > 1; i--) std::swap(v[i-1], v[below(i)]); }
    vector<int64_t> perm(int64_t n)
    { vector<int64_t> v(n); std::iota(v.begin(), v.end(), 0); shuffle(v); return v; }
};

//------------------------------------------------------------------------------
// statistics, violations
//------------------------------------------------------------------------------
struct Hash
{
    uint64_t h = 0xcbf29ce484222325ull;
    void add(uint64_t v) { h = mix64(h ^ v) + 0x9E37ull; }
    void addz(mpz_srcptr z) { add((uint64_t)(int64_t)z->_mp_size);
        int n = abs(z->_mp_size); for (int i = 0; i < n; i++) add(z->_mp_d[i]); }
    void adds(const string& s) { for (char c : s) add((unsigned char)c); add(s.size()); }
};
struct Stats
{
    map<string, int64_t> count;
    std::unordered_set<uint64_t> sigs;
    vector<string> samples;
    int64_t viol = 0;
};
extern Stats g_stats;
static inline void cnt(const string& k, int64_t v = 1) { g_stats.count[k] += v; }
static inline void cntmax(const string& k, int64_t v)
{ auto& r = g_stats.count["max:" + k]; if (v > r) r = v; }

struct Ctx
{
    string prop, tier;
    uint64_t seed = 1;
    int64_t id = 0;
    bool thorough = false, verbose = false;
    Rng rng;
    string desc;            // description of the case (filled by the case)
    bool failed = false;
    void sig(uint64_t h) { g_stats.sigs.insert(h); }
    void fail(const string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    void sample() { if (g_stats.samples.size() < 3) g_stats.samples.push_back(
        "case " + std::to_string(id) + ": " + desc); }
};
// implemented by each harness
void run_case(Ctx& c);
void harness_init();

static inline string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
static inline string fmt(const char* f, ...)
{
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    return b;
}

//------------------------------------------------------------------------------
// GMP memory functions
//------------------------------------------------------------------------------
struct MemFns { void* (*a)(size_t); void* (*r)(void*, size_t, size_t); void (*f)(void*, size_t); };
extern MemFns g_def, g_slip;
struct SlipMode
{
    SlipMode() { mp_set_memory_functions(g_slip.a, g_slip.r, g_slip.f); }
    ~SlipMode() { mp_get_memory_functions(&g_slip.a, &g_slip.r, &g_slip.f);
        mp_set_memory_functions(g_def.a, g_def.r, g_def.f); }
};
#define SL(e) ([&]() { SlipMode sm_; return (e); }())

//------------------------------------------------------------------------------
// tracking / fault injecting allocator
//------------------------------------------------------------------------------
struct Track
{
    std::unordered_map<void*, size_t> live;
    int64_t nalloc = 0, nfree = 0, fail_at = -1;    // fail_at: index of the failing allocation
    int64_t fail_n = 1;      // how many consecutive ones fail (huge = persistent)
    int64_t failed = 0;
    int64_t bad_free = 0, bad_realloc = 0;
    int64_t bytes = 0, peak = 0;
    bool inject = false;
    bool fill = true;
    void reset() { nalloc = nfree = failed = bad_free = bad_realloc = 0; fail_at = -1;
        fail_n = 1; inject = false; }
};
extern Track g_tr;
void* tr_malloc(size_t n);
void* tr_calloc(size_t a, size_t b);
void* tr_realloc(void* p, size_t n);
void tr_free(void* p);
// direct uses of malloc & co inside the library's own objects end up here
extern int64_t g_raw_calls;
extern bool g_raw_watch;

static inline SLIP_info slip_init_tracked()
{ return SL(SLIP_initialize_expert(tr_malloc, tr_calloc, tr_realloc, tr_free)); }
static inline SLIP_info slip_init_plain() { return SL(SLIP_initialize()); }
static inline SLIP_info slip_fini() { return SL(SLIP_finalize()); }

//------------------------------------------------------------------------------
// matrices
//------------------------------------------------------------------------------
typedef mpz_class Z;
typedef mpq_class Q;
struct MatZ             // compressed columns, entries possibly unsorted
{
    int64_t m = 0, n = 0;
    vector<int64_t> p, i;
    vector<Z> x;
    int64_t nnz() const { return p.empty() ? 0 : p[n]; }
};
struct Builder          // position map -> MatZ
{
    int64_t m, n; vector<map<int64_t, Z>> c;
    Builder(int64_t m_, int64_t n_) : m(m_), n(n_), c(n_) {}
    void set(int64_t i, int64_t j, const Z& v) { c[j][i] = v; }
    bool has(int64_t i, int64_t j) const { return c[j].count(i) > 0; }
    MatZ done(Rng* shuffle = nullptr, const vector<int64_t>* rp = nullptr,
        const vector<int64_t>* cp = nullptr) const
    {
        MatZ A; A.m = m; A.n = n; A.p.push_back(0);
        for (int64_t j = 0; j < n; j++)
        {
            const auto& col = c[cp ? (*cp)[j] : j];
            vector<std::pair<int64_t, Z>> e;
            for (auto& kv : col) e.push_back({rp ? (*rp)[kv.first] : kv.first, kv.second});
            std::sort(e.begin(), e.end(), [](auto& a, auto& b) { return a.first < b.first; });
            if (shuffle) shuffle->shuffle(e);
            for (auto& t : e) { A.i.push_back(t.first); A.x.push_back(t.second); }
            A.p.push_back((int64_t)A.i.size());
        }
        return A;
    }
};

struct GenOpt { int maxn = 40; int minn = 1; int vkind = -1; int family = -1; bool zeros = true;
    int big_pct = 8; int bigmaxn = 110; };

static inline Z rand_bits(Rng& r, int bits)
{
    if (bits < 1) bits = 1;
    Z v = 0;
    for (int b = 0; b < bits; b += 32) { v <<= 32; v += (unsigned long)(r.next() >> 32); }
    mpz_fdiv_r_2exp(v.get_mpz_t(), v.get_mpz_t(), bits);
    mpz_setbit(v.get_mpz_t(), bits - 1);
    return v;
}
static const int NVKIND = 11;
// nonzero value of the given kind
static inline Z gen_value(Rng& r, int vk)
{
    Z v;
    switch (vk)
    {
        default:
        case 0: v = (long)r.range(1, 9); break;
        case 1: v = 1; break;
        case 2: v = (long)r.range(1, 1000000); break;
        case 3: v = rand_bits(r, (int)r.range(1, 31)); break;
        case 4: v = rand_bits(r, (int)r.range(1, 63)); break;
        case 5: v = rand_bits(r, (int)r.range(60, 68)); break;      // around one limb
        case 6: v = rand_bits(r, (int)r.range(64, 300)); break;
        case 7: v = rand_bits(r, (int)r.range(500, 2200)); break;
        case 8: v = Z(1) << (unsigned)r.below(130); break;          // powers of two
        case 9: { int k = (int)r.below(4); v = k == 0 ? Z((long)r.range(1, 5)) :
                  k == 1 ? rand_bits(r, 64) : k == 2 ? rand_bits(r, 200) : Z(1); break; }
        case 10: v = Z((long)r.range(1, 12)) * 210; break;          // common factors
    }
    if (r.pct(45)) v = -v;
    return v;
}
static const int NFAMILY = 12;
struct GenInfo { int family, vkind; int64_t n; };

// now and then a larger, sparse system with small values
static inline bool rare_large(Rng& r, GenOpt& g, int one_in, int lo, int hi)
{
    if (r.below(one_in)) return false;
    static const int F[] = {2, 4, 9};
    g.family = F[r.below(3)]; g.minn = lo; g.maxn = hi; g.vkind = (int)r.below(3); g.big_pct = 0;
    cnt("large systems"); return true;
}
// square pattern/value generator.  Not necessarily nonsingular.
static inline MatZ gen_square(Rng& r, const GenOpt& o, GenInfo* info = nullptr)
{
    int fam = o.family >= 0 ? o.family : (int)r.below(NFAMILY);
    int vk = o.vkind >= 0 ? o.vkind : (int)r.below(NVKIND);
    int64_t n;
    if (r.pct(o.big_pct)) n = r.range(std::min(o.maxn, o.bigmaxn), o.bigmaxn);
    else { n = r.range(o.minn, o.maxn); if (r.pct(40)) n = std::max<int64_t>(o.minn, std::min<int64_t>(n, r.range(1, 9))); }
    if (vk == 7 && n > 14) n = r.range(o.minn, 14);
    if ((vk == 6 || vk == 9) && n > 40) n = 40;
    if (fam == 1 && n > 45) n = 45;
    if (fam == 8 && n > 45) n = 45;
    Builder B(n, n);
    auto val = [&]() { return gen_value(r, vk); };
    switch (fam)
    {
        case 0:     // random sparse with a transversal
        {
            auto p = r.perm(n);
            for (int64_t j = 0; j < n; j++) B.set(p[j], j, val());
            int64_t e = r.below(3 * n + 1);
            for (int64_t k = 0; k < e; k++) B.set(r.below(n), r.below(n), val());
            break;
        }
        case 1:     // dense
            for (int64_t j = 0; j < n; j++) for (int64_t i = 0; i < n; i++)
                if (!r.pct(10)) B.set(i, j, val());
            break;
        case 2:     // banded
        {
            int64_t lo = r.below(4), hi = r.below(4);
            for (int64_t j = 0; j < n; j++) for (int64_t i = std::max<int64_t>(0, j - hi); i <= std::min(n - 1, j + lo); i++)
                if (i == j || r.pct(80)) B.set(i, j, val());
            break;
        }
        case 3:     // arrow
        {
            bool tail = r.pct(50);
            int64_t h = tail ? n - 1 : 0;
            for (int64_t j = 0; j < n; j++) { B.set(j, j, val()); B.set(h, j, val()); B.set(j, h, val()); }
            break;
        }
        case 4:     // triangular plus a few entries
        {
            bool up = r.pct(50);
            for (int64_t j = 0; j < n; j++)
            {
                B.set(j, j, val());
                int64_t k = r.below(4);
                while (k--) { int64_t i = up ? r.below(j + 1) : r.range(j, n - 1); B.set(i, j, val()); }
            }
            int64_t k = r.below(4);
            while (k--) B.set(r.below(n), r.below(n), val());
            break;
        }
        case 5:     // block diagonal with coupling
        {
            int64_t s = 0;
            while (s < n)
            {
                int64_t w = std::min<int64_t>(n - s, r.range(1, 6));
                for (int64_t j = s; j < s + w; j++) for (int64_t i = s; i < s + w; i++)
                    if (i == j || r.pct(75)) B.set(i, j, val());
                s += w;
            }
            int64_t k = r.below(n / 2 + 1);
            while (k--) B.set(r.below(n), r.below(n), val());
            break;
        }
        case 6:     // grid
        {
            int64_t w = std::max<int64_t>(1, (int64_t)sqrt((double)n));
            for (int64_t j = 0; j < n; j++)
            {
                B.set(j, j, val());
                if (j % w) { B.set(j, j - 1, val()); B.set(j - 1, j, val()); }
                if (j >= w) { B.set(j, j - w, val()); B.set(j - w, j, val()); }
            }
            break;
        }
        case 7:     // saddle point: zero block on the diagonal
        {
            int64_t h = n / 2;
            for (int64_t j = 0; j < n - h; j++)
            {
                B.set(j, j, val());
                if (j > 0 && r.pct(60)) { Z v = val(); B.set(j, j - 1, v); B.set(j - 1, j, v); }
            }
            for (int64_t j = n - h; j < n; j++)
            {
                Z v = val(); int64_t i = j - (n - h);
                B.set(i, j, v); B.set(j, i, v);
                if (r.pct(60)) { i = r.below(n - h); v = val(); B.set(i, j, v); B.set(j, i, v); }
            }
            break;
        }
        case 8:     // low rank plus diagonal / structured: many cancellations
        {
            vector<Z> u(n), w(n);
            for (auto& t : u) t = (long)r.range(-2, 2);
            for (auto& t : w) t = (long)r.range(-2, 2);
            for (int64_t j = 0; j < n; j++) for (int64_t i = 0; i < n; i++)
            {
                Z v = u[i] * w[j];
                if (i == j || (i + 1) % n == j) v += (long)r.range(-1, 1);
                if (v != 0) B.set(i, j, v);
            }
            for (int64_t j = 0; j < n; j++) if (r.pct(50)) B.set(j, j, val());
            break;
        }
        case 9:     // permutation times diagonal
        {
            auto p = r.perm(n);
            for (int64_t j = 0; j < n; j++) B.set(p[j], j, val());
            break;
        }
        case 10:    // upper Hessenberg / companion
        {
            for (int64_t j = 0; j < n; j++) { if (j + 1 < n) B.set(j + 1, j, val());
                if (r.pct(60)) B.set(j, j, val()); B.set(r.below(j + 1), j, val()); B.set(0, j, val()); }
            break;
        }
        case 11:    // random symmetric pattern
        {
            for (int64_t j = 0; j < n; j++) B.set(j, j, val());
            int64_t e = r.below(2 * n + 1);
            for (int64_t k = 0; k < e; k++) { int64_t a = r.below(n), b = r.below(n); B.set(a, b, val()); B.set(b, a, val()); }
            break;
        }
    }
    if (o.zeros && r.pct(25))       // explicit zeros, fresh and replacing
    {
        int64_t k = r.range(1, n);
        while (k--) B.set(r.below(n), r.below(n), 0);
    }
    bool perm = r.pct(40), shuf = r.pct(50);
    MatZ A;
    if (perm) { auto rp = r.perm(n), cp = r.perm(n); A = B.done(shuf ? &r : nullptr, &rp, &cp); }
    else A = B.done(shuf ? &r : nullptr);
    if (info) { info->family = fam; info->vkind = vk; info->n = n; }
    return A;
}

static inline Q gen_scale(Rng& r)
{
    Q q;
    switch (r.below(6))
    {
        case 0: case 1: q = 1; break;
        case 2: q = Q((long)r.range(1, 50), (unsigned long)r.range(1, 50)); break;
        case 3: q = Q(rand_bits(r, (int)r.range(1, 120)), rand_bits(r, (int)r.range(1, 120))); break;
        case 4: q = Q(Z("100000000000000000"), Z((long)r.range(1, 1000))); break;
        case 5: q = -Q((long)r.range(1, 9), (unsigned long)r.range(1, 9)); break;
    }
    q.canonicalize();
    return q;
}

static inline uint64_t hash_mat(const MatZ& A)
{
    Hash h; h.add(A.m); h.add(A.n);
    for (auto v : A.p) h.add(v);
    for (auto v : A.i) h.add(v);
    for (auto& v : A.x) h.addz(v.get_mpz_t());
    return h.h;
}
static inline int64_t max_bits(const MatZ& A)
{ int64_t b = 0; for (auto& v : A.x) b = std::max<int64_t>(b, mpz_sizeinbase(v.get_mpz_t(), 2)); return b; }

// --- SLIP objects from harness values ---------------------------------------
static inline SLIP_matrix* mk_csc(const MatZ& A, const Q& scale, int64_t nzmax = -1)
{
    SlipMode sm;
    SLIP_matrix* S = NULL;
    if (SLIP_matrix_allocate(&S, SLIP_CSC, SLIP_MPZ, A.m, A.n,
        std::max(nzmax, A.nnz()), false, true, NULL) != SLIP_OK) return NULL;
    for (int64_t j = 0; j <= A.n; j++) S->p[j] = A.p[j];
    for (int64_t k = 0; k < A.nnz(); k++) { S->i[k] = A.i[k]; SLIP_mpz_set(S->x.mpz[k], A.x[k].get_mpz_t()); }
    SLIP_mpq_set(S->scale, scale.get_mpq_t());
    return S;
}
static inline SLIP_matrix* mk_dense(const vector<Z>& b, int64_t m, int64_t n, const Q& scale)
{
    SlipMode sm;
    SLIP_matrix* S = NULL;
    if (SLIP_matrix_allocate(&S, SLIP_DENSE, SLIP_MPZ, m, n, m * n, false, true, NULL) != SLIP_OK) return NULL;
    for (int64_t k = 0; k < m * n; k++) SLIP_mpz_set(S->x.mpz[k], b[k].get_mpz_t());
    SLIP_mpq_set(S->scale, scale.get_mpq_t());
    return S;
}
static inline void mfree(SLIP_matrix*& M) { SlipMode sm; SLIP_matrix_free(&M, NULL); M = NULL; }
static inline void sfree(SLIP_LU_analysis*& S) { SlipMode sm; SLIP_LU_analysis_free(&S, NULL); S = NULL; }
static inline void vfree(void* p) { SlipMode sm; SLIP_free(p); }

struct Opt
{
    bool null = false;
    SLIP_options* o = NULL;
    SLIP_pivot pivot = SLIP_TOL_SMALLEST; SLIP_col_order order = SLIP_COLAMD;
    double tol = 1; bool check = false;
    string str() const { return null ? "opt=NULL" : fmt("order=%d pivot=%d tol=%g check=%d", (int)order, (int)pivot, tol, (int)check); }
    void free() { if (o) { SlipMode sm; SLIP_free(o); o = NULL; } }
};
static inline double gen_tol(Rng& r)
{
    switch (r.below(6)) { case 0: return 1; case 1: return 0.5; case 2: return 1e-3;
        case 3: return 1e-300; case 4: return r.unit() * 0.999 + 0.001; default: return 0.25; }
}
static inline Opt gen_opt(Rng& r, bool allow_null = true)
{
    Opt o;
    if (allow_null && r.pct(6)) { o.null = true; return o; }
    o.o = SL(SLIP_create_default_options());
    o.order = o.o->order = (SLIP_col_order)r.below(3);
    o.pivot = o.o->pivot = (SLIP_pivot)r.below(6);
    o.tol = o.o->tol = gen_tol(r);
    o.check = o.o->check = r.pct(12);
    return o;
}

//------------------------------------------------------------------------------
// modular arithmetic oracle (a mismatch modulo a prime is a real mismatch)
//------------------------------------------------------------------------------
static const uint64_t PRIMES[] = { 2305843009213693951ull, 2305843009213693921ull,
    2305843009213693907ull, 2305843009213693723ull, 2305843009213693693ull,
    2305843009213693669ull, 2305843009213693613ull, 2305843009213693561ull };
struct Mod
{
    uint64_t p;
    explicit Mod(uint64_t q) : p(q) {}
    uint64_t mul(uint64_t a, uint64_t b) const { return (uint64_t)((u128)a * b % p); }
    uint64_t add(uint64_t a, uint64_t b) const { uint64_t c = a + b; return c >= p ? c - p : c; }
    uint64_t sub(uint64_t a, uint64_t b) const { return a >= b ? a - b : a + p - b; }
    uint64_t pw(uint64_t a, uint64_t e) const { uint64_t r = 1; while (e) { if (e & 1) r = mul(r, a); a = mul(a, a); e >>= 1; } return r; }
    uint64_t inv(uint64_t a) const { return pw(a, p - 2); }
    uint64_t of(mpz_srcptr z) const { return mpz_fdiv_ui(z, p); }
    bool q(mpq_srcptr v, uint64_t& out) const   // false if the denominator vanishes
    {
        uint64_t d = of(mpq_denref(v)); if (!d) return false;
        out = mul(of(mpq_numref(v)), inv(d)); return true;
    }
};
// rank of A modulo p
static inline int64_t rank_mod(const MatZ& A, uint64_t p)
{
    Mod M(p); int64_t m = A.m, n = A.n, rk = 0;
    vector<uint64_t> D(m * n, 0);
    for (int64_t j = 0; j < n; j++) for (int64_t k = A.p[j]; k < A.p[j + 1]; k++)
        D[A.i[k] + j * m] = M.add(D[A.i[k] + j * m], M.of(A.x[k].get_mpz_t()));
    vector<char> used(m, 0);
    for (int64_t j = 0; j < n; j++)
    {
        int64_t r = -1;
        for (int64_t i = 0; i < m; i++) if (!used[i] && D[i + j * m]) { r = i; break; }
        if (r < 0) continue;
        used[r] = 1; rk++;
        uint64_t iv = M.inv(D[r + j * m]);
        for (int64_t c = j + 1; c < n; c++)
        {
            uint64_t f = D[r + c * m]; if (!f) continue;
            f = M.mul(f, iv);
            for (int64_t i = 0; i < m; i++) if (!used[i] && D[i + j * m])
                D[i + c * m] = M.sub(D[i + c * m], M.mul(f, D[i + j * m]));
        }
    }
    return rk;
}
static inline bool nonsingular(const MatZ& A, Rng& r)
{
    for (int t = 0; t < 3; t++) if (rank_mod(A, PRIMES[r.below(8)]) == A.n) return true;
    return false;
}
static inline string zstr(mpz_srcptr z)
{
    size_t n = mpz_sizeinbase(z, 10) + 3;
    if (n > 60) return fmt("<%zu bits%s>", mpz_sizeinbase(z, 2), mpz_sgn(z) < 0 ? ", negative" : "");
    char b[80]; mpz_get_str(b, 10, z); return b;
}
static inline string qstr(mpq_srcptr q) { return zstr(mpq_numref(q)) + "/" + zstr(mpq_denref(q)); }
static inline string mat_str(const MatZ& A)
{
    string s = fmt("%ldx%ld nnz=%ld", (long)A.m, (long)A.n, (long)A.nnz());
    if (A.nnz() <= 24)
    {
        s += " [";
        for (int64_t j = 0; j < A.n; j++) for (int64_t k = A.p[j]; k < A.p[j+1]; k++)
            s += fmt("(%ld,%ld)=%s ", (long)A.i[k], (long)j, zstr(A.x[k].get_mpz_t()).c_str());
        s += "]";
    }
    return s;
}
// x is canonical
static inline bool canonical(mpq_srcptr q)
{
    if (mpz_sgn(mpq_denref(q)) <= 0) return false;
    if (mpz_sgn(mpq_numref(q)) == 0) return mpz_cmp_ui(mpq_denref(q), 1) == 0;
    Z g; mpz_gcd(g.get_mpz_t(), mpq_numref(q), mpq_denref(q));
    return g == 1;
}
// Does (A/as) x = (b/bs) hold?  1 yes (modulo p), 0 no, -1 unknown for this prime
static inline int axb_mod(const MatZ& A, const Q& as, const vector<Z>& b, const Q& bs,
    int64_t nrhs, SLIP_matrix* x, uint64_t p, int64_t* wr = nullptr, int64_t* wc = nullptr)
{
    Mod M(p); uint64_t sa, sb;
    if (!M.q(as.get_mpq_t(), sa) || !M.q(bs.get_mpq_t(), sb) || !sa || !sb) return -1;
    uint64_t f = M.mul(sb, M.inv(sa));      // A x * (bs/as) = b
    vector<uint64_t> Ax(A.nnz());
    for (int64_t k = 0; k < A.nnz(); k++) Ax[k] = M.of(A.x[k].get_mpz_t());
    for (int64_t c = 0; c < nrhs; c++)
    {
        vector<uint64_t> y(A.m, 0);
        for (int64_t j = 0; j < A.n; j++)
        {
            uint64_t xv;
            if (!M.q(x->x.mpq[j + c * A.n], xv)) return -1;
            for (int64_t k = A.p[j]; k < A.p[j + 1]; k++)
                y[A.i[k]] = M.add(y[A.i[k]], M.mul(Ax[k], xv));
        }
        for (int64_t i = 0; i < A.m; i++)
            if (M.mul(y[i], f) != M.of(b[i + c * A.m].get_mpz_t()))
            { if (wr) *wr = i; if (wc) *wc = c; return 0; }
    }
    return 1;
}
// exact check with rationals, for small systems
static inline bool axb_exact(const MatZ& A, const Q& as, const vector<Z>& b, const Q& bs, int64_t nrhs, SLIP_matrix* x)
{
    Q f = bs / as;
    for (int64_t c = 0; c < nrhs; c++)
    {
        vector<Q> y(A.m);
        for (int64_t j = 0; j < A.n; j++)
        {
            Q xv; mpq_set(xv.get_mpq_t(), x->x.mpq[j + c * A.n]);
            for (int64_t k = A.p[j]; k < A.p[j + 1]; k++) y[A.i[k]] += xv * A.x[k];
        }
        for (int64_t i = 0; i < A.m; i++) if (y[i] * f != b[i + c * A.m]) return false;
    }
    return true;
}
static inline vector<Z> gen_rhs(Rng& r, int64_t n, int64_t nrhs)
{
    vector<Z> b(n * nrhs);
    for (int64_t c = 0; c < nrhs; c++)
    {
        int kind = (int)r.below(6), vk = (int)r.below(NVKIND);
        for (int64_t i = 0; i < n; i++)
        {
            Z& v = b[i + c * n];
            switch (kind)
            {
                case 0: v = 0; break;
                case 1: v = 0; break;
                case 2: v = r.pct(20) ? gen_value(r, vk) : Z(0); break;
                default: v = gen_value(r, vk); break;
            }
        }
        if (kind == 1 && n) b[r.below(n) + c * n] = gen_value(r, vk);
    }
    return b;
}

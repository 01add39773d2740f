// A random program over the whole API: a pool of matrices, linear systems,
// memory blocks and big-number variables, used in any order.
#pragma once
#include "common.hpp"
#include "zoo.hpp"
#include "wraps.hpp"
#include "ord.hpp"
// --- a print function that formats its arguments and keeps what it got -------
struct Sink { int64_t calls = 0, chars = 0; bool keep = false; string text; };
extern Sink g_sink;
#ifdef PROG_MAIN
Sink g_sink;
#endif
static int sink_printf(const char* f, ...)
{
    char b[65536]; va_list ap; va_start(ap, f);
    int n = vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    g_sink.calls++; if (n > 0) g_sink.chars += n;
    if (g_sink.keep && n > 0) g_sink.text.append(b, std::min<size_t>(n, sizeof b - 1));
    return n;
}
static inline uint64_t odigest(const SLIP_options* o)
{
    if (!o) return 1;
    Hash h; h.add(o->pivot); h.add(o->order); uint64_t t; memcpy(&t, &o->tol, 8); h.add(t); h.add(o->print_level); h.add(o->prec); h.add(o->round); h.add(o->check);
    return h.h;
}
static inline uint64_t sdigest(const SLIP_LU_analysis* S, int64_t n)
{ Hash h; if (!S) return 2; h.add(S->lnz); h.add(S->unz); for (int64_t k = 0; k < n; k++) h.add(S->q[k]); return h.h; }
static inline uint64_t idigest(const int64_t* p, int64_t n)
{ Hash h; if (!p) return 3; for (int64_t k = 0; k < n; k++) h.add(p[k]); return h.h; }
// make memcheck look at a value
static inline void consume(uint64_t h) { static volatile int64_t z; if (h == 0x123456789abcdefull) z++; }

struct PMat
{
    SLIP_matrix *A = NULL, *host = NULL;        // host owns the arrays of a shallow A
    void* mine[4] = {0, 0, 0, 0};               // arrays of the user
    uint64_t dig = 0, mdig = 0, hdig = 0; size_t msize[4] = {0, 0, 0, 0};
    uint64_t mine_digest() const { Hash h; for (int k = 0; k < 4; k++) for (size_t b = 0; b < msize[k]; b++) h.add(((unsigned char*)mine[k])[b]); return h.h; }
};
struct PSys
{
    MatZ M; Q as; SLIP_matrix* A = NULL; SLIP_options* o = NULL; SLIP_options* o2 = NULL;
    SLIP_LU_analysis* S = NULL; SLIP_matrix *L = NULL, *U = NULL, *rhos = NULL; int64_t* pinv = NULL;
    uint64_t d[7] = {0};
    void digests(uint64_t* e) const
    { int64_t n = A->n; e[0] = mdigest(A); e[1] = odigest(o) * 3 + odigest(o2); e[2] = sdigest(S, n); e[3] = L ? mdigest(L) : 0; e[4] = U ? mdigest(U) : 0; e[5] = rhos ? mdigest(rhos) : 0; e[6] = idigest(pinv, n); }
};
struct PBuf { void* p; size_t n; unsigned char tag; };

struct Prog
{
    Ctx& c; Rng& r;
    bool watch = false;         // digest every live object around each call
    bool statuses = false;      // judge statuses
    int maxn = 12; bool wrappers = true, orderings = true, prints = true; int big_pct = 4;
    vector<PMat> mats; vector<PSys> syss; vector<PBuf> bufs;
    Wraps* w = NULL;
    string trace, last;
    vector<uint64_t> recipes;   // seeds of inputs that come back in later sessions
    std::unordered_map<uint64_t, uint64_t> memo; int64_t memo_hits = 0, watched = 0, calls = 0;
    bool use_memo = false, tracked = false;
    bool tracked_now() const { return tracked; }
    Hash shape;
    Prog(Ctx& c_) : c(c_), r(c_.rng) { for (int k = 0; k < 6; k++) recipes.push_back(r.next()); }

    void op(const char* n) { last = n; trace += n; trace += ' '; if (trace.size() > 1500) trace = trace.substr(700); shape.adds(n); calls++; cnt(string("op:") + n); }
    void status(const char* what, int s) { if (statuses) c.fail(string("status:") + what, "%s returned %d; history %s", what, s, trace.c_str()); }
    void remember(const char* what, uint64_t in, uint64_t out)
    {
        consume(out);
        if (!use_memo) return;
        Hash h; h.adds(what); h.add(in);
        auto it = memo.find(h.h);
        if (it == memo.end()) { memo[h.h] = out; return; }
        memo_hits++;
        if (it->second != out) c.fail(string("history:") + what, "%s gave a different result for equal inputs; history %s", what, trace.c_str());
    }
    // --- options -----------------------------------------------------------
    SLIP_options* options(Rng& q)
    {
        if (q.pct(12)) return NULL;
        SLIP_options* o = SL(SLIP_create_default_options());
        if (!o) return NULL;
        if (q.pct(15)) return o;
        o->order = (SLIP_col_order)q.below(3); o->pivot = (SLIP_pivot)q.below(6); o->tol = gen_tol(q); o->check = q.pct(25);
        static const int P[] = {2, 24, 53, 64, 100, 128, 256, 1000}; o->prec = P[q.below(8)]; o->round = (mpfr_rnd_t)q.below(5);
        o->print_level = prints && q.pct(25) ? (int)q.range(1, 4) : 0;
        return o;
    }
    void ofree(SLIP_options*& o) { if (o) { SlipMode sm; SLIP_free(o); o = NULL; } }
    Rng recipe() { return r.pct(60) ? Rng(recipes[r.below(recipes.size())]) : Rng(r.next()); }
    // --- watching ----------------------------------------------------------
    void note(PMat& m) { m.dig = mdigest(m.A); m.mdig = m.mine_digest(); m.hdig = m.host ? mdigest(m.host) : 0; }
    void note(PSys& s) { s.digests(s.d); }
    // the call may change only its outputs: compare the other parts of the system (mask of parts to compare)
    void unchanged(PSys& s, unsigned mask)
    {
        if (!watch) return;
        static const char* nm[] = {"A", "options", "analysis", "L", "U", "rhos", "pinv"};
        uint64_t e[7]; s.digests(e); watched++;
        for (int k = 0; k < 7; k++) if ((mask >> k & 1) && e[k] != s.d[k]) c.fail(string("changed:") + nm[k] + ":" + last, "%s changed its input %s; history %s", last.c_str(), nm[k], trace.c_str());
    }
    void verify()
    {
        if (!watch) return;
        for (auto& m : mats)
        {
            watched++;
            if (mdigest(m.A) != m.dig) { c.fail("changed:matrix:" + last, "%s changed another matrix (%s); history %s", last.c_str(), zoo_str(m.A).c_str(), trace.c_str()); note(m); }
            if (m.host && mdigest(m.host) != m.hdig) { c.fail("changed:shallow:" + last, "%s changed the owner of a shallow matrix; history %s", last.c_str(), trace.c_str()); note(m); }
            if (m.mine_digest() != m.mdig) { c.fail("changed:user:" + last, "%s changed an array of the user; history %s", last.c_str(), trace.c_str()); note(m); }
        }
        static const char* nm[] = {"A", "options", "analysis", "L", "U", "rhos", "pinv"};
        for (auto& s : syss)
        {
            uint64_t e[7]; s.digests(e); watched++;
            for (int k = 0; k < 7; k++) if (e[k] != s.d[k]) { c.fail(string("changed:") + nm[k] + ":" + last, "%s changed %s of a system; history %s", last.c_str(), nm[k], trace.c_str()); s.d[k] = e[k]; }
        }
        for (auto& b : bufs) for (size_t k = 0; k < b.n; k++) if (((unsigned char*)b.p)[k] != b.tag) { c.fail("changed:block:" + last, "%s changed a block of the user; history %s", last.c_str(), trace.c_str()); memset(b.p, b.tag, b.n); break; }
    }
    // --- matrices ----------------------------------------------------------
    void new_matrix()
    {
        op("allocate");
        Rng q = recipe();
        SLIP_kind k = (SLIP_kind)q.below(3); SLIP_type t = (SLIP_type)q.below(5);
        int64_t m = q.pct(10) ? 0 : q.range(1, 7), n = q.pct(10) ? 0 : q.range(1, 7);
        if (q.pct(3)) { m = q.range(20, 60); n = q.range(1, 40); }
        SLIP_options* o = options(q); ZooOpt z; z.vm = (int)q.below(4);
        PMat p; p.A = mk_zoo(q, k, t, m, n, o, z);
        ofree(o);
        if (!p.A) { status("SLIP_matrix_allocate", -1); return; }
        consume(mdigest(p.A)); note(p); mats.push_back(p);
    }
    void new_uninit()
    {
        op("allocate_noinit");
        SLIP_matrix* A = NULL; int64_t m = r.below(6), n = r.below(6), nz = r.below(12); SLIP_kind k = (SLIP_kind)r.below(3); SLIP_type t = (SLIP_type)r.below(5);
        SLIP_info s = SL(SLIP_matrix_allocate(&A, k, t, m, n, nz, false, false, NULL));
        if (s != SLIP_OK || !A) { status("SLIP_matrix_allocate", s); return; }
        // initialize some of the entries, as the factorization does
        int64_t mx = k == SLIP_DENSE ? m * n : nz;
        for (int64_t e = 0; e < mx; e++) if (r.pct(40))
        {
            if (t == SLIP_MPZ) { SL(SLIP_mpz_init2(A->x.mpz[e], 100)); SL(SLIP_mpz_set_si(A->x.mpz[e], -5)); }
            else if (t == SLIP_MPQ) { SL(SLIP_mpq_init(A->x.mpq[e])); SL(SLIP_mpq_set_ui(A->x.mpq[e], 5, 3)); }
            else if (t == SLIP_MPFR) { SL(SLIP_mpfr_init2(A->x.mpfr[e], 77)); SL(SLIP_mpfr_set_d(A->x.mpfr[e], 0.1, MPFR_RNDN)); }
        }
        mfree(A);
    }
    void new_shallow()
    {
        op("shallow");
        Rng q = recipe();
        PMat p; SLIP_kind k = (SLIP_kind)q.below(3); SLIP_type t = (SLIP_type)q.below(5); int64_t m = q.range(1, 6), n = q.range(1, 6);
        ZooOpt z; z.vm = (int)q.below(4);
        p.host = mk_zoo(q, k, t, m, n, NULL, z); if (!p.host) return;
        if (SL(SLIP_matrix_allocate(&p.A, k, t, m, n, p.host->nzmax, true, false, NULL)) != SLIP_OK || !p.A) { mfree(p.host); status("SLIP_matrix_allocate", -1); return; }
        SLIP_matrix* A = p.A; Q sc = scale_of(p.host); SL(SLIP_mpq_set(A->scale, sc.get_mpq_t()));
        A->p = p.host->p; A->i = p.host->i; A->j = p.host->j; A->x.mpz = p.host->x.mpz; A->nz = p.host->nz;
        int64_t nz = zoo_nz(p.host);
        // some of the arrays belong to the user
        auto mine = [&](int slot, void* src, size_t bytes) { p.mine[slot] = malloc(bytes + 1); memcpy(p.mine[slot], src, bytes); p.msize[slot] = bytes; return p.mine[slot]; };
        if (A->p && q.pct(50)) A->p = (int64_t*)mine(0, A->p, (n + 1) * 8);
        if (A->i && q.pct(50)) A->i = (int64_t*)mine(1, A->i, nz * 8);
        if (A->j && q.pct(50)) A->j = (int64_t*)mine(2, A->j, nz * 8);
        if ((t == SLIP_INT64 || t == SLIP_FP64) && q.pct(60)) A->x.fp64 = (double*)mine(3, A->x.fp64, nz * 8);
        note(p); mats.push_back(p);
    }
    void part_shallow()        // an ordinary matrix, one array of which is replaced by the user's
    {
        op("part_shallow");
        PMat p; SLIP_kind k = (SLIP_kind)r.below(3); SLIP_type t = r.pct(50) ? SLIP_INT64 : SLIP_FP64; int64_t m = r.range(1, 6), n = r.range(1, 6);
        p.A = mk_zoo(r, k, t, m, n, NULL, ZooOpt()); if (!p.A) return;
        SLIP_matrix* A = p.A; int64_t nz = zoo_nz(A);
        auto take = [&](int slot, void* src, size_t bytes) { p.mine[slot] = malloc(bytes + 1); memcpy(p.mine[slot], src, bytes); p.msize[slot] = bytes; vfree(src); return p.mine[slot]; };
        if (A->p && r.pct(60)) { A->p = (int64_t*)take(0, A->p, (n + 1) * 8); A->p_shallow = true; }
        if (A->i && r.pct(60)) { A->i = (int64_t*)take(1, A->i, nz * 8); A->i_shallow = true; }
        if (A->j && r.pct(60)) { A->j = (int64_t*)take(2, A->j, nz * 8); A->j_shallow = true; }
        if (r.pct(60)) { A->x.fp64 = (double*)take(3, A->x.fp64, nz * 8); A->x_shallow = true; }
        note(p); mats.push_back(p);
    }
    void drop(size_t k)
    {
        PMat p = mats[k]; mats.erase(mats.begin() + k);
        uint64_t md = p.mine_digest();
        { SlipMode sm; SLIP_info s = SLIP_matrix_free(&p.A, NULL); if (s != SLIP_OK && statuses) status("SLIP_matrix_free", s); }
        if (p.A) { if (watch || statuses) c.fail("handle", "SLIP_matrix_free did not clear the handle"); p.A = NULL; }
        if (r.pct(10)) { SlipMode sm; SLIP_matrix_free(&p.A, NULL); }
        if (p.mine_digest() != md) c.fail("user_part", "freeing a matrix changed an array of the user");
        if (p.host) { if (mdigest(p.host) != p.hdig) c.fail("user_part", "freeing a shallow matrix changed its owner"); mfree(p.host); }
        for (void* q : p.mine) free(q);
    }
    void copy()
    {
        if (mats.empty()) return;
        op("copy");
        PMat& p = mats[r.below(mats.size())]; Rng q = recipe();
        SLIP_options* o = options(q); uint64_t od = odigest(o);
        SLIP_kind k = (SLIP_kind)r.below(3); SLIP_type t = (SLIP_type)r.below(5); SLIP_matrix* C = NULL;
        SLIP_info s = SL(SLIP_matrix_copy(&C, k, t, p.A, o));
        bool fin = true; for (int64_t e = 0, z = zoo_nz(p.A); e < z && fin; e++) { Q t; if (stored(p.A, e, t)) fin = false; }     // infinities have no rational value
        if (fin && (s != SLIP_OK || !C)) { trace += fmt("[copy %s to %s/%s]", zoo_str(p.A).c_str(), KIND[k], TYPE[t]); status("SLIP_matrix_copy", s); }
        if (watch && odigest(o) != od) c.fail("changed:options:copy", "SLIP_matrix_copy changed the options");
        Hash in; in.add(mdigest(p.A, false)); in.add(od); in.add(k); in.add(t);
        remember("copy", in.h, Hash{}.h + s + mdigest(C, false));
        ofree(o);
        if (C) { PMat c2; c2.A = C; note(c2); mats.push_back(c2); }
    }
    void check()
    {
        if (mats.empty()) return;
        op("check");
        PMat& p = mats[r.below(mats.size())];
        SLIP_options* o = options(r); if (o && prints) o->print_level = (int)r.range(0, 4);
        SLIP_info s = SL(SLIP_matrix_check(p.A, o));
        if (s != SLIP_OK) status("SLIP_matrix_check", s);
        Hash in; in.add(mdigest(p.A, false)); remember("check", in.h, (uint64_t)s);
        int64_t nz = SL(SLIP_matrix_nnz(p.A, o)); op("nnz");
        if (statuses && nz != zoo_nz(p.A)) c.fail("nnz", "SLIP_matrix_nnz is %ld", (long)nz);
        remember("nnz", in.h, (uint64_t)nz);
        ofree(o);
    }
    // --- systems -----------------------------------------------------------
    MatZ gen_sys(Rng& q)
    {
        if (q.pct(3)) { MatZ A; A.p.push_back(0); return A; }
        GenOpt g; g.maxn = maxn; g.big_pct = big_pct; g.bigmaxn = 3 * maxn; if (q.pct(10)) g.maxn = 1; rare_large(q, g, 150, 30, 110);
        MatZ A = gen_square(q, g);
        return A;
    }
    void new_system()
    {
        op("system");
        Rng q = recipe();
        PSys s; s.M = gen_sys(q); s.as = gen_scale(q); s.A = mk_csc(s.M, s.as, s.M.nnz() + (q.pct(30) ? q.below(4) : 0));
        if (!s.A) { status("SLIP_matrix_allocate", -1); return; }
        s.o = options(q); s.o2 = options(q);
        note(s); syss.push_back(s);
    }
    int take_any() { return syss.empty() ? -1 : (int)r.below(syss.size()); }
    void analyze(PSys& s)
    {
        op("analyze");
        // an analysis belongs to the factorization computed with it
        mfree(s.L); mfree(s.U); mfree(s.rhos); vfree(s.pinv); s.pinv = NULL;
        if (s.S) sfree(s.S);
        SLIP_info st = SL(SLIP_LU_analyze(&s.S, s.A, s.o));
        if (st != SLIP_OK || !s.S) status("SLIP_LU_analyze", st);
        unchanged(s, 3);
        Hash in; in.add(mdigest(s.A, false)); in.add(s.o ? s.o->order : 77); remember("analyze", in.h, st + sdigest(s.S, s.A->n));
        if (s.S && r.pct(15)) { auto q = r.perm(s.A->n); for (int64_t k = 0; k < s.A->n; k++) s.S->q[k] = q[k]; if (r.pct(50)) s.S->lnz = s.S->unz = std::max<int64_t>(1, s.A->n); }
        note(s);
    }
    void factorize(PSys& s)
    {
        if (!s.S) analyze(s);
        if (!s.S) return;
        op("factorize");
        mfree(s.L); mfree(s.U); mfree(s.rhos); vfree(s.pinv); s.pinv = NULL;
        SLIP_info st = SL(SLIP_LU_factorize(&s.L, &s.U, &s.rhos, &s.pinv, s.A, s.S, s.o));
        if (st != SLIP_OK && st != SLIP_SINGULAR) status("SLIP_LU_factorize", st);
        unchanged(s, 7);
        Hash in; in.add(mdigest(s.A, false)); in.add(sdigest(s.S, s.A->n)); in.add(odigest(s.o));
        Hash out; out.add(st); if (s.L) { out.add(mdigest(s.L, false)); out.add(mdigest(s.U, false)); out.add(mdigest(s.rhos, false)); out.add(idigest(s.pinv, s.A->n)); }
        remember("factorize", in.h, out.h);
        note(s); cnt(st == SLIP_OK ? "factorized" : "singular");
    }
    SLIP_matrix* rhs(Rng& q, int64_t n)
    {
        int64_t nrhs = q.pct(60) ? 1 : q.pct(8) ? 0 : q.range(2, 5);
        return mk_dense(gen_rhs(q, n, nrhs), n, nrhs, gen_scale(q));
    }
    void keep(SLIP_matrix* x) { if (!x) return; consume(mdigest(x)); if (r.pct(35)) { PMat p; p.A = x; note(p); mats.push_back(p); } else mfree(x); }
    void solve(PSys& s)
    {
        if (!s.pinv) factorize(s);
        if (!s.pinv) return;
        op("solve");
        Rng q = recipe(); SLIP_matrix* b = rhs(q, s.A->n), *x = NULL; if (!b) return;
        SLIP_options* o = r.pct(70) ? s.o : s.o2;
        uint64_t bd = mdigest(b);
        SLIP_info st = SL(SLIP_LU_solve(&x, b, s.A, s.L, s.U, s.rhos, s.S, s.pinv, o));
        if (st != SLIP_OK || !x) status("SLIP_LU_solve", st);
        if (watch && mdigest(b) != bd) c.fail("changed:b:solve", "SLIP_LU_solve changed the right-hand side");
        // the solution is unique: it does not depend on the factorization either
        Hash in; in.add(mdigest(s.A, false)); in.add(mdigest(b, false)); remember("solution", in.h, st + mdigest(x, false));
        mfree(b); keep(x);
    }
    void backslash(PSys& s)
    {
        op("backslash");
        Rng q = recipe(); SLIP_matrix* b = rhs(q, s.A->n), *x = NULL; if (!b) return;
        SLIP_type t = r.pct(40) ? SLIP_MPQ : r.pct(50) ? SLIP_MPFR : SLIP_FP64;
        SLIP_options* o = r.pct(70) ? s.o : s.o2;
        uint64_t bd = mdigest(b);
        SLIP_info st = SL(SLIP_backslash(&x, t, s.A, b, o));
        if (st != SLIP_OK && st != SLIP_SINGULAR) status("SLIP_backslash", st);
        if (watch && mdigest(b) != bd) c.fail("changed:b:backslash", "SLIP_backslash changed the right-hand side");
        Hash in; in.add(mdigest(s.A, false)); in.add(mdigest(b, false));
        if (t == SLIP_MPQ && st == SLIP_OK) remember("solution", in.h, st + mdigest(x, false));
        else { in.add(t); in.add(o ? o->prec : 128); in.add(o ? o->round : 0); remember("backslash", in.h, st + mdigest(x, false)); }
        mfree(b); if (st == SLIP_OK) keep(x); else if (x) c.fail("output", "SLIP_backslash returned %d and a solution", (int)st);
    }
    void tamper_user(PSys& s)   // free parts of a system in any order
    {
        op("free_part");
        switch (r.below(4))
        {
            case 0: sfree(s.S); mfree(s.L); mfree(s.U); mfree(s.rhos); vfree(s.pinv); s.pinv = NULL; break;
            case 1: mfree(s.U); mfree(s.L); vfree(s.pinv); s.pinv = NULL; mfree(s.rhos); break;
            case 2: vfree(s.pinv); s.pinv = NULL; mfree(s.rhos); mfree(s.L); mfree(s.U); sfree(s.S); sfree(s.S); break;
            case 3: if (s.o2) { s.o2->print_level = 0; s.o2->check = !s.o2->check; } break;
        }
        note(s);
    }
    void drop_system(size_t k)
    {
        op("free_system");
        PSys s = syss[k]; syss.erase(syss.begin() + k);
        vector<int> f = {0, 1, 2, 3, 4, 5, 6}; r.shuffle(f);
        for (int t : f) switch (t) { case 0: mfree(s.A); break; case 1: sfree(s.S); break; case 2: mfree(s.L); break; case 3: mfree(s.U); break; case 4: mfree(s.rhos); break; case 5: vfree(s.pinv); break; case 6: ofree(s.o); ofree(s.o2); break; }
    }
    // --- memory blocks -----------------------------------------------------
    void block()
    {
        int k = (int)r.below(4);
        if (k == 0 || bufs.empty())
        {
            op("malloc");
            size_t n = r.pct(10) ? 0 : r.pct(10) ? (size_t)r.range(4000, 70000) : (size_t)r.range(1, 300); void* p;
            if (r.pct(50)) p = SL(SLIP_malloc(n)); else { size_t a = (size_t)r.range(1, 8); p = SL(SLIP_calloc((n + a - 1) / a, a)); n = (n + a - 1) / a * a; }
            if (!p) { status("SLIP_malloc", -1); return; }
            PBuf b = {p, n, (unsigned char)r.next()}; memset(p, b.tag, n); bufs.push_back(b);
        }
        else if (k == 1)
        {
            op("realloc");
            PBuf& b = bufs[r.below(bufs.size())]; bool ok = false; size_t item = r.pct(50) ? 1 : (b.n % 8 == 0 ? 8 : 1); int64_t nw = r.range(0, 400) / (int64_t)item;
            void* p = SL(SLIP_realloc(nw, b.n / item, item, b.p, &ok));
            if (!ok || !p) { status("SLIP_realloc", -1); return; }
            b.p = p; size_t old = b.n; b.n = nw * item;
            if (b.n > old) memset((char*)p + old, b.tag, b.n - old);
        }
        else { op("free"); size_t q = r.below(bufs.size()); vfree(bufs[q].p); bufs.erase(bufs.begin() + q); if (r.pct(10)) vfree(NULL); }
    }
    // --- orderings ---------------------------------------------------------
    template <class I> void order_t()
    {
        typedef OrdApi<I> O; Rng q = recipe(); PatOpt po; po.maxn = maxn * 2; po.maxm = maxn * 2; po.big_pct = 3; po.bigmax = 6 * maxn; po.square = true;
        Pat P = gen_pat(q, po); I n = (I)P.n; Ctl t = gen_ctl(q); Knob kn = gen_knob(q); double info[AMD_INFO];
        uint64_t in = P.hash() * 31 + sizeof(I);
        for (int k = 0; k < 2; k++) { uint64_t u; memcpy(&u, &t.c[k], 8); in = mix64(in ^ u); } for (int k = 0; k < 3; k++) { uint64_t u; memcpy(&u, &kn.k[k], 8); in = mix64(in ^ u); }
        Arr<I> p(P.p), i(P.i);
        switch (r.below(4))
        {
            case 0:
            {
                op("amd"); Arr<I> perm(n); bool winfo = r.pct(70);
                int s = (int)SL(O::amd(n, p, i, perm, t.null ? NULL : t.c, winfo ? info : NULL));
                if (prints && r.pct(20)) { SL((O::amd_ctl(t.null ? NULL : t.c), 0)); SL((O::amd_inf(winfo ? info : NULL), 0)); op("amd_info"); }
                Hash h; h.add(s); for (I k = 0; k < n; k++) h.add(perm[k]); remember("amd", in, h.h);
                if (winfo) { Hash hi; for (int k = 0; k < 14; k++) { uint64_t u; memcpy(&u, info + k, 8); hi.add(u); } remember("amd_info", in, hi.h); }
                break;
            }
            case 1: { op("amd_valid"); int s = (int)SL(O::valid(n, n, p, i)); remember("valid", in, s); double cc[AMD_CONTROL]; SL((O::amd_def(cc), 0)); break; }
            case 2:
            {
                op("colamd"); size_t al = SL(O::rec((I)P.nnz(), n, n)); Arr<I> A(al + r.below(3)), s(COLAMD_STATS), cp(P.p); for (int64_t k = 0; k < P.nnz(); k++) A[k] = (I)P.i[k];
                int ok = (int)SL(O::col(n, n, (I)A.n, A, cp, kn.null ? NULL : kn.k, s));
                if (prints && r.pct(20)) { SL((O::col_report(s), 0)); op("colamd_report"); }
                Hash h; h.add(ok); for (I k = 0; k < n; k++) h.add(cp[k]); for (int k = 0; k < 7; k++) if (k != 2) h.add(s[k]); remember("colamd", in, h.h);
                break;
            }
            default:
            {
                op("symamd"); Arr<I> perm(n + 1), s(COLAMD_STATS);
                bool lib = r.pct(50);
                int ok = (int)SL(O::sym(n, i, p, perm, kn.null ? NULL : kn.k, s, lib ? SLIP_calloc : calloc, lib ? SLIP_free : ::free));
                if (prints && r.pct(20)) { SL((O::sym_report(s), 0)); op("symamd_report"); }
                Hash h; h.add(ok); for (I k = 0; k < n; k++) h.add(perm[k]); for (int k = 0; k < 7; k++) if (k != 2) h.add(s[k]); remember("symamd", in, h.h);
                break;
            }
        }
        if (watch && (!p.eq(P.p) || !i.eq(P.i))) c.fail("changed:pattern:" + last, "%s changed its input pattern", last.c_str());
    }
    // --- session -----------------------------------------------------------
    bool open(bool tracked)
    {
        SuiteSparse_config.printf_func = r.pct(90) ? sink_printf : NULL;
        SLIP_info s = tracked ? slip_init_tracked() : slip_init_plain();
        if (s != SLIP_OK) { status("SLIP_initialize", s); return false; }
        if (wrappers) { w = new Wraps(c, false); w->start(); }
        return true;
    }
    void step()
    {
        int k = (int)r.below(100);
        if (k < 12) new_matrix();
        else if (k < 14) new_uninit();
        else if (k < 17) new_shallow();
        else if (k < 19) part_shallow();
        else if (k < 31) copy();
        else if (k < 37) check();
        else if (k < 43) { if (!mats.empty()) { op("free_matrix"); drop(r.below(mats.size())); } }
        else if (k < 50) new_system();
        else if (k < 53) { if (!syss.empty()) analyze(syss[take_any()]); }
        else if (k < 59) { if (!syss.empty()) factorize(syss[take_any()]); }
        else if (k < 66) { if (!syss.empty()) solve(syss[take_any()]); }
        else if (k < 71) { if (!syss.empty()) backslash(syss[take_any()]); }
        else if (k < 74) { if (!syss.empty()) tamper_user(syss[take_any()]); }
        else if (k < 76) { if (!syss.empty()) drop_system(take_any()); }
        else if (k < 84) { if (w) { op("wrapper"); w->step(); } }
        else if (k < 92) block();
        else if (orderings) { if (r.pct(50)) order_t<int>(); else order_t<LL>(); }
        verify();
    }
    SLIP_info close()
    {
        last = "finish";
        while (!mats.empty() || !syss.empty() || !bufs.empty())
        {
            int k = (int)r.below(3);
            if (k == 0 && !mats.empty()) drop(r.below(mats.size()));
            else if (k == 1 && !syss.empty()) drop_system(r.below(syss.size()));
            else if (k == 2 && !bufs.empty()) { vfree(bufs.back().p); bufs.pop_back(); }
            else continue;
            if (watch && r.pct(30)) verify();
        }
        if (w) { w->finish(); delete w; w = NULL; }
        return slip_fini();
    }
};

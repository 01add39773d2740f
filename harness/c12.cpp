// C12: every invalid argument, alone or together with others, is rejected with the
// right status; nothing is returned, changed, printed or left allocated.
#define PROG_MAIN
#include "prog.hpp"
void harness_init() {}
static void iset(void* p, int v) { memcpy(p, &v, 4); }
static int badenum(Rng& r, int count) { switch (r.below(5)) { case 0: return -1; case 1: return count; case 2: return INT32_MIN; case 3: return INT32_MAX; default: return count + (int)r.below(20); } }
typedef SLIP_info (*fcopy)(SLIP_matrix**, int, int, SLIP_matrix*, const SLIP_options*);
typedef SLIP_info (*falloc)(SLIP_matrix**, int, int, int64_t, int64_t, int64_t, bool, bool, const SLIP_options*);
typedef SLIP_info (*fback)(SLIP_matrix**, int, const SLIP_matrix*, const SLIP_matrix*, const SLIP_options*);
struct Set          // a nonsingular system with its factors
{
    MatZ M; Q as, bs; vector<Z> bv; int64_t nrhs = 1; SLIP_matrix *A = NULL, *b = NULL, *L = NULL, *U = NULL, *rhos = NULL; SLIP_LU_analysis* S = NULL; int64_t* pinv = NULL;
    bool make(Rng& r, int64_t n)
    {
        do { GenOpt g; g.minn = n; g.maxn = n; g.big_pct = 0; g.vkind = (int)r.below(5); M = gen_square(r, g); } while (M.n != n || !nonsingular(M, r));
        as = gen_scale(r); bs = gen_scale(r); nrhs = r.range(1, 3); bv = gen_rhs(r, n, nrhs);
        A = mk_csc(M, as); b = mk_dense(bv, n, nrhs, bs);
        return A && b && SL(SLIP_LU_analyze(&S, A, NULL)) == SLIP_OK && SL(SLIP_LU_factorize(&L, &U, &rhos, &pinv, A, S, NULL)) == SLIP_OK;
    }
    void drop() { mfree(A); mfree(b); mfree(L); mfree(U); mfree(rhos); sfree(S); vfree(pinv); pinv = NULL; }
    uint64_t dig() const { Hash h; h.add(mdigest(A)); h.add(mdigest(b)); h.add(mdigest(L)); h.add(mdigest(U)); h.add(mdigest(rhos)); h.add(sdigest(S, M.n)); h.add(idigest(pinv, M.n)); return h.h; }
};
void run_case(Ctx& c)
{
    Rng& r = c.rng;
    g_tr.live.clear(); g_tr.reset();
    SuiteSparse_config.printf_func = sink_printf;
    if (slip_init_tracked() != SLIP_OK) { c.fail("init", "no session"); return; }
    int64_t n = r.range(1, 6), n2; do n2 = r.range(1, 7); while (n2 == n);
    Set s, t;
    if (!s.make(r, n) || !t.make(r, n2)) { c.fail("base", "a valid system cannot be factorized"); }
    else
    {
        SLIP_options* o = r.pct(25) ? NULL : SL(SLIP_create_default_options());
        if (o) { o->order = (SLIP_col_order)r.below(3); o->pivot = (SLIP_pivot)r.below(6); o->check = r.pct(30); }
        // other matrices of every format, of the same dimensions as a valid argument
        auto other = [&](SLIP_kind k, SLIP_type ty, int64_t rows, int64_t cols) { ZooOpt z; z.vm = 0; z.density = 70; return mk_zoo(r, k, ty, rows, cols, NULL, z); };
        vector<SLIP_matrix*> made;
        string what;
        auto wrong = [&](const char* nm, SLIP_matrix* ok, SLIP_kind wk, bool need_type, int64_t rows, int64_t cols, bool square, int64_t bad_rows) -> SLIP_matrix*
        {
            for (;;)
            {
                SLIP_matrix* m = NULL; int q = (int)r.below(7);
                switch (q)
                {
                    case 0: what += string(nm) + "=NULL "; return NULL;
                    case 1: { SLIP_kind k = (SLIP_kind)((wk + 1 + r.below(2)) % 3); m = other(k, r.pct(70) ? SLIP_MPZ : (SLIP_type)r.below(5), rows, cols); what += string(nm) + "=" + KIND[k] + " "; break; }
                    case 2: if (!need_type) continue; { SLIP_type ty = (SLIP_type)r.range(1, 4); m = other(wk, ty, rows, cols); what += string(nm) + "=" + TYPE[ty] + " "; break; }
                    case 3: if (!square) continue; m = other(wk, SLIP_MPZ, rows, cols + (r.pct(50) && cols > 0 ? -1 : 1)); what += string(nm) + "=rectangular "; break;
                    case 4: if (!square) continue; m = other(wk, SLIP_MPZ, rows + (r.pct(50) && rows > 0 ? -1 : r.range(1, 9)), cols); what += string(nm) + "=rectangular "; break;
                    case 5: if (bad_rows < 0) continue; m = other(wk, SLIP_MPZ, bad_rows, square ? bad_rows : cols); what += string(nm) + "=mismatched "; break;
                    default: m = other(wk, SLIP_MPZ, rows, cols); if (m) { made.push_back(m); if (r.pct(50) || !need_type) iset(&m->kind, badenum(r, 3)); else iset(&m->type, badenum(r, 5)); } what += string(nm) + "=bad enum "; return m;
                }
                if (m) made.push_back(m);
                return m;
            }
        };
        uint64_t d0 = s.dig(), t0 = t.dig(), od = odigest(o); int64_t p0 = g_sink.calls;
        // reference result of a valid solve
        SLIP_matrix* x = NULL; SLIP_info st = SL(SLIP_LU_solve(&x, s.b, s.A, s.L, s.U, s.rhos, s.S, s.pinv, o)); uint64_t ref = mdigest(x, false); mfree(x);
        if (st != SLIP_OK) c.fail("base", "a valid solve returned %d", (int)st);
        vector<int64_t> chosen; Hash sg;
        int rounds = (int)r.range(1, 4);
        for (int q = 0; q < rounds && !c.failed; q++)
        {
            what = ""; int fn = (int)r.below(8); int nbad = r.pct(75) ? 1 : 2; const char* name = ""; int got = 0, want = SLIP_INCORRECT_INPUT;
            SLIP_matrix* const sent = r.pct(50) ? NULL : (SLIP_matrix*)&r;      // what the handles hold before the call
            SLIP_matrix *h1 = sent, *h2 = sent, *h3 = sent; int64_t* h4 = (int64_t*)sent; SLIP_LU_analysis* hs = (SLIP_LU_analysis*)sent;
            std::function<void()> call; set<int> pos;
            auto pick = [&](int npos) { while ((int)pos.size() < std::min(nbad, npos)) pos.insert((int)r.below(npos)); };
            #define BAD(k) (pos.count(k) > 0)
            #define HANDLE(k, h, nm) (BAD(k) ? (what += nm "=NULL ", (decltype(&h))NULL) : &h)
            switch (fn)
            {
                case 0:
                {
                    name = "SLIP_backslash"; pick(4); SLIP_matrix** hp = HANDLE(0, h1, "X"); int ty = r.pct(34) ? SLIP_MPQ : r.pct(50) ? SLIP_MPFR : SLIP_FP64;
                    if (BAD(1)) { ty = r.pct(40) ? SLIP_MPZ : r.pct(50) ? SLIP_INT64 : badenum(r, 5); what += fmt("type=%d ", ty); }
                    const SLIP_matrix* A = BAD(2) ? wrong("A", s.A, SLIP_CSC, true, n, n, true, -1) : s.A; const SLIP_matrix* b = BAD(3) ? wrong("b", s.b, SLIP_DENSE, true, n, s.nrhs, false, r.pct(30) ? 0 : n2) : s.b;
                    call = [=, &got]() { got = ((fback)SLIP_backslash)(hp, ty, A, b, o); }; break;
                }
                case 1:
                {
                    name = "SLIP_LU_analyze"; pick(2); SLIP_LU_analysis** hp = HANDLE(0, hs, "S"); const SLIP_matrix* A = BAD(1) ? wrong("A", s.A, SLIP_CSC, false, n, n, true, -1) : s.A;
                    call = [=, &got]() { got = SLIP_LU_analyze(hp, A, o); }; break;
                }
                case 2:
                {
                    name = "SLIP_LU_factorize"; pick(6); auto a = HANDLE(0, h1, "L"); auto b = HANDLE(1, h2, "U"); auto d = HANDLE(2, h3, "rhos"); auto e = HANDLE(3, h4, "pinv");
                    const SLIP_matrix* A = BAD(4) ? wrong("A", s.A, SLIP_CSC, true, n, n, true, -1) : s.A; const SLIP_LU_analysis* S = BAD(5) ? (what += "S=NULL ", (SLIP_LU_analysis*)NULL) : s.S;
                    call = [=, &got]() { got = SLIP_LU_factorize(a, b, d, e, A, S, o); }; break;
                }
                case 3: case 4:
                {
                    name = "SLIP_LU_solve"; pick(8); auto hp = HANDLE(0, h1, "x");
                    auto mat = [&](int k, const char* nm, SLIP_matrix* good, SLIP_matrix* foreign, SLIP_kind kd, int64_t cols, bool sq) -> const SLIP_matrix* {
                        if (!BAD(k)) return good;
                        if (foreign && r.pct(35)) { what += string(nm) + "=of another system "; return foreign; }
                        return wrong(nm, good, kd, true, n, cols, sq, n2); };
                    const SLIP_matrix *b = mat(1, "b", s.b, t.b, SLIP_DENSE, s.nrhs, false), *A = mat(2, "A", s.A, t.A, SLIP_CSC, n, true), *L = mat(3, "L", s.L, t.L, SLIP_CSC, n, true), *U = mat(4, "U", s.U, t.U, SLIP_CSC, n, true), *rh = mat(5, "rhos", s.rhos, t.rhos, SLIP_DENSE, 1, false);
                    const SLIP_LU_analysis* S = BAD(6) ? (what += "S=NULL ", (SLIP_LU_analysis*)NULL) : s.S; const int64_t* pv = BAD(7) ? (what += "pinv=NULL ", (int64_t*)NULL) : s.pinv;
                    call = [=, &got]() { got = SLIP_LU_solve(hp, b, A, L, U, rh, S, pv, o); }; break;
                }
                case 5:
                {
                    name = "SLIP_matrix_copy"; pick(4); auto hp = HANDLE(0, h1, "C"); int k = (int)r.below(3), ty = (int)r.below(5);
                    if (BAD(1)) { k = badenum(r, 3); what += fmt("kind=%d ", k); } if (BAD(2)) { ty = badenum(r, 5); what += fmt("type=%d ", ty); }
                    SLIP_matrix* A = r.pct(50) ? s.A : s.b;
                    if (BAD(3)) { what += "A="; if (r.pct(30)) { A = NULL; what += "NULL "; } else { A = other((SLIP_kind)r.below(3), (SLIP_type)r.below(5), n, n2); if (A) { made.push_back(A); switch (r.below(4)) { case 0: iset(&A->kind, badenum(r, 3)); break; case 1: iset(&A->type, badenum(r, 5)); break; case 2: A->n = -r.range(1, 5); if (A->kind == SLIP_TRIPLET) { iset(&A->type, 5); } break; default: iset(&A->kind, badenum(r, 3)); iset(&A->type, badenum(r, 5)); } } what += "corrupt "; } }
                    call = [=, &got]() { got = ((fcopy)SLIP_matrix_copy)(hp, k, ty, A, o); }; break;
                }
                case 6:
                {
                    name = "SLIP_matrix_allocate"; pick(5); auto hp = HANDLE(0, h1, "A"); int k = (int)r.below(3), ty = (int)r.below(5); int64_t m_ = r.below(5), n_ = r.below(5), nz = r.below(9);
                    if (BAD(1)) { k = badenum(r, 3); what += fmt("kind=%d ", k); } if (BAD(2)) { ty = badenum(r, 5); what += fmt("type=%d ", ty); }
                    if (BAD(3)) { m_ = r.pct(50) ? -1 : r.pct(50) ? INT64_MIN : -r.range(1, 1000); what += "m<0 "; } if (BAD(4)) { n_ = r.pct(50) ? -1 : r.pct(50) ? INT64_MIN : -r.range(1, 1000); what += "n<0 "; }
                    bool sh = r.pct(30), in = r.pct(70); call = [=, &got]() { got = ((falloc)SLIP_matrix_allocate)(hp, k, ty, m_, n_, nz, sh, in, o); }; break;
                }
                default:
                {
                    bool nnz = r.pct(50); name = nnz ? "SLIP_matrix_nnz" : "SLIP_matrix_check"; SLIP_matrix* A = NULL; what = "A=NULL ";
                    if (r.pct(70)) { A = other((SLIP_kind)r.below(3), (SLIP_type)r.below(5), n, n2); what = "A=corrupt "; if (A) { made.push_back(A); switch (r.below(3)) { case 0: iset(&A->kind, badenum(r, 3)); break; case 1: A->n = -r.range(1, 9); if (A->kind == SLIP_TRIPLET) A->nz = -1; break; default: A->m = -r.range(1, 9); if (nnz && A->kind != SLIP_DENSE) iset(&A->kind, 3); break; } } }
                    call = [=, &got]() { if (nnz) { int64_t v = SLIP_matrix_nnz(A, o); got = v < 0 ? SLIP_INCORRECT_INPUT : 0; } else got = SLIP_matrix_check(A, o); }; break;
                }
            }
            #undef BAD
            #undef HANDLE
            // raw images of the substituted arguments (they may be corrupt)
            vector<SLIP_matrix> img; for (auto m : made) img.push_back(*m);
            int64_t live = (int64_t)g_tr.live.size();
            { SlipMode sm; call(); }
            string key = string(name) + ":" + what.substr(0, what.find('='));
            if (got != want) c.fail("status:" + key, "%s with %s(n=%ld) returned %d", name, what.c_str(), (long)n, got);
            auto touched = [&](void* h) { return h != NULL && h != (void*)sent; };
            if (touched(h1) || touched(h2) || touched(h3) || touched(h4) || touched(hs)) c.fail("output:" + key, "%s with %s returned an object", name, what.c_str());
            if ((int64_t)g_tr.live.size() > live) c.fail("leak:" + key, "%s with %s left %ld blocks", name, what.c_str(), (long)(g_tr.live.size() - live));
            for (size_t k = 0; k < made.size(); k++) if (memcmp(&img[k], made[k], sizeof(SLIP_matrix))) c.fail("changed:" + key, "%s with %s changed the argument", name, what.c_str());
            if (s.dig() != d0 || t.dig() != t0 || odigest(o) != od) c.fail("changed:" + key, "%s with %s changed a valid argument", name, what.c_str());
            if (g_sink.calls != p0) c.fail("print:" + key, "%s with %s printed at level 0", name, what.c_str());
            cnt(string("reject:") + name); cnt("rejects"); c.desc += fmt("%s(%s) -> %d; ", name, what.c_str(), got); sg.adds(name); sg.adds(what);
        }
        // the library works as before
        x = NULL; st = SL(SLIP_LU_solve(&x, s.b, s.A, s.L, s.U, s.rhos, s.S, s.pinv, o));
        if (st != SLIP_OK || mdigest(x, false) != ref) c.fail("after", "a valid solve after rejected calls returned %d or another solution; %s", (int)st, c.desc.c_str());
        mfree(x);
        c.sig(sg.h);
        for (auto m : made) { // restore something that can be freed: the corrupt fields are kind, type and dimensions
            (void)m; }
        // corrupt matrices are freed through a fresh session's functions: set valid enums again from the stored image
        for (auto m : made) { SlipMode sm; int k, ty; memcpy(&k, &m->kind, 4); memcpy(&ty, &m->type, 4);
            bool sane = k >= 0 && k < 3 && ty >= 0 && ty < 5 && m->m >= 0 && m->n >= 0;
            if (sane) { SLIP_matrix* q = m; SLIP_matrix_free(&q, NULL); } }
        vfree(o);
    }
    s.drop(); t.drop();
    slip_fini();
    // what is left belongs to the corrupt matrices
    for (auto& kv : g_tr.live) free(kv.first);
    g_tr.live.clear(); g_tr.reset();
}

// C11: SLIP_matrix_check against an independent predicate, on valid matrices of
// every format and on matrices with 1-3 corruptions, at every printing level.
#define PROG_MAIN
#include "prog.hpp"
void harness_init() {}
struct Raw      // a matrix as fields: what is handed to the checker, and what is restored before freeing
{
    SLIP_matrix s; vector<int64_t> p, i, j; int64_t np, ni, nj;
};
static int iget(const void* p) { int v; memcpy(&v, p, 4); return v; }
static void iset(void* p, int v) { memcpy(p, &v, 4); }
// the documented conditions
static const char* invalid(const SLIP_matrix* A)
{
    int kind = iget(&A->kind), type = iget(&A->type);
    if (kind < 0 || kind > 2) return "kind";
    if (type < 0 || type > 4) return "type";
    if (A->m < 0 || A->n < 0) return "dimension";
    if (A->nzmax < 0) return "nzmax";
    if (kind == SLIP_CSC)
    {
        if (!A->p) return "no p";
        if (A->p[0] != 0) return "p[0]";
        for (int64_t j = 0; j < A->n; j++) if (A->p[j + 1] < A->p[j]) return "p not monotone";
        int64_t nz = A->p[A->n];
        if (nz > A->nzmax) return "nz > nzmax";
        if (A->nzmax > 0 && !A->i) return "no i";
        if (A->nzmax > 0 && !A->x.mpz) return "no x";
        for (int64_t j = 0; j < A->n; j++)
        {
            set<int64_t> seen;
            for (int64_t k = A->p[j]; k < A->p[j + 1]; k++)
            {
                if (A->i[k] < 0 || A->i[k] >= A->m) return "index";
                if (!seen.insert(A->i[k]).second) return "duplicate";
            }
        }
    }
    else if (kind == SLIP_TRIPLET)
    {
        if (A->nz < 0) return "nz";
        if (A->nz > A->nzmax) return "nz > nzmax";
        if (A->nzmax > 0 && (!A->i || !A->j || !A->x.mpz)) return "no array";
        set<std::pair<int64_t, int64_t>> seen;
        for (int64_t k = 0; k < A->nz; k++)
        {
            if (A->i[k] < 0 || A->i[k] >= A->m || A->j[k] < 0 || A->j[k] >= A->n) return "index";
            if (!seen.insert({A->i[k], A->j[k]}).second) return "duplicate";
        }
    }
    else
    {
        if ((__int128)A->m * A->n > A->nzmax) return "m*n > nzmax";
        if (A->nzmax > 0 && !A->x.mpz) return "no x";
    }
    return NULL;
}
static uint64_t fields(const SLIP_matrix* A)
{ Hash h; h.add(A->m); h.add(A->n); h.add(A->nzmax); h.add(A->nz); h.add(iget(&A->kind)); h.add(iget(&A->type)); h.add((uint64_t)A->p); h.add((uint64_t)A->i); h.add((uint64_t)A->j); h.add((uint64_t)A->x.mpz);
  h.add(A->p_shallow); h.add(A->i_shallow); h.add(A->j_shallow); h.add(A->x_shallow); return h.h; }
void run_case(Ctx& c)
{
    Rng& r = c.rng;
    static bool open = false;
    if (!open) { slip_init_plain(); open = true; }
    SuiteSparse_config.printf_func = sink_printf;
    SLIP_kind k = (SLIP_kind)(c.id % 3); SLIP_type t = (SLIP_type)(c.id / 3 % 5);
    int64_t m = r.pct(12) ? 0 : r.range(1, 8), n = r.pct(12) ? 0 : r.range(1, 8);
    if (r.pct(4)) { m = r.range(8, 40); n = r.range(8, 40); }
    bool large = r.below(600) == 0; if (large) { m = r.range(100, 500); n = r.range(100, 500); if (k == SLIP_DENSE) (r.pct(50) ? m : n) = r.range(1, 6); cnt("large matrices"); }
    ZooOpt z; z.vm = (int)r.below(4); if (large) z.density = 1; if (r.pct(10)) z.density = 0;
    SLIP_options* o = SL(SLIP_create_default_options());
    SLIP_matrix* A = mk_zoo(r, k, t, m, n, o, z);
    if (!A) { c.fail("allocate", "no matrix"); vfree(o); return; }
    SLIP_matrix keep = *A; int64_t nz = zoo_nz(A);
    int64_t room = keep.nzmax;          // what the arrays hold
    vector<int64_t> P, I, J;
    // contents of the index arrays, to be restored
    size_t np = k == SLIP_CSC ? n + 1 : 0;
    if (A->p) P.assign(A->p, A->p + np);
    if (A->i) { for (int64_t e = nz; e < room; e++) A->i[e] = r.pct(50) ? -5 : 0; I.assign(A->i, A->i + room); }
    if (A->j) { for (int64_t e = nz; e < room; e++) A->j[e] = r.pct(50) ? -5 : 0; J.assign(A->j, A->j + room); }
    string what; int nc = r.pct(30) ? 0 : r.pct(75) ? 1 : (int)r.range(2, 3);
    static const int64_t BIG[] = {INT64_MIN, -1, -2, INT64_MAX, 1000000007, -1000000007, (int64_t)1 << 32, -((int64_t)1 << 32)};
    for (int q = 0; q < nc; q++)
    {
        int w = (int)r.below(28); what += fmt("%d ", w);
        int64_t e = nz ? r.below(nz) : 0, e2 = nz ? r.below(nz) : 0;
        switch (w)
        {
            case 0: A->p = NULL; break;
            case 1: if (A->p && np) A->p[0] = r.pct(50) ? 1 : BIG[r.below(8)]; break;
            case 2: if (A->p && np) A->p[r.below(np)] = BIG[r.below(8)]; break;
            case 3: if (A->p && np) { auto& v = A->p[r.below(np)]; v = (int64_t)((uint64_t)v + (uint64_t)r.range(-2, 2)); } break;
            case 4: if (A->p && np > 1) std::swap(A->p[r.below(np)], A->p[r.below(np)]); break;
            case 5: if (A->p && np) { A->p[np - 1] = room + r.range(0, 1) ; } break;
            case 6: if (A->i && nz) A->i[e] = r.pct(50) ? A->m : BIG[r.below(8)]; break;
            case 7: if (A->i && nz) A->i[e] = (int64_t)((uint64_t)A->i[e] + (uint64_t)r.range(-2, 2)); break;
            case 8: if (A->j && nz) A->j[e] = r.pct(50) ? A->n : BIG[r.below(8)]; break;
            case 9: if (A->j && nz) A->j[e] = (int64_t)((uint64_t)A->j[e] + (uint64_t)r.range(-2, 2)); break;
            case 10: if (A->i && nz) { A->i[e] = A->i[e2]; if (A->j) A->j[e] = A->j[e2]; } break;
            case 11: A->i = NULL; break;
            case 12: A->j = NULL; break;
            case 13: A->x.mpz = NULL; break;
            case 14: iset(&A->kind, r.pct(50) ? 3 : r.pct(50) ? -1 : r.pct(50) ? INT32_MAX : INT32_MIN); break;
            case 15: iset(&A->type, r.pct(50) ? 5 : r.pct(50) ? -1 : r.pct(50) ? INT32_MAX : INT32_MIN); break;
            case 16: A->m = r.pct(50) ? -1 : r.pct(50) ? INT64_MIN : -r.range(1, 1000); break;
            case 17: A->n = r.pct(50) ? -1 : r.pct(50) ? INT64_MIN : -r.range(1, 1000); break;
            case 18: A->nzmax = r.pct(50) ? -1 : r.pct(50) ? INT64_MIN : nz - 1; break;
            case 19: A->nzmax = nz; break;
            case 20: A->nz = r.pct(30) ? -1 : r.pct(30) ? A->nzmax + r.range(0, 1) : r.pct(50) ? nz - 1 : BIG[r.below(8)]; break;
            case 21: if (A->m > 0) A->m--; break;
            case 22: if (A->n > 0) A->n--; break;
            case 23: if (k == SLIP_DENSE && A->m < 1000) { A->m += r.range(0, 2); if (r.pct(50)) A->n += r.range(0, 1); } break;
            case 24: if (k == SLIP_DENSE) { static const int64_t B[] = {(int64_t)1 << 32, (int64_t)1 << 33, (int64_t)1 << 62, INT64_MAX, 3037000500}; A->m = B[r.below(5)]; A->n = r.pct(60) ? B[r.below(5)] : r.range(1, 4); } break;
            case 25: if (nz == 0 && k != SLIP_DENSE) { A->nzmax = 0; if (r.pct(50)) A->i = NULL; if (r.pct(50)) A->x.mpz = NULL; if (r.pct(50)) A->j = NULL; if (r.pct(50) && A->p) A->p[r.below(np)] = r.range(-2, 0); } break;
            case 26: case 27:   // a triplet matrix may be enormous: indices that agree in their low 32 bits
                if (k == SLIP_TRIPLET && A->i && A->j)
                {
                    static const int64_t B[] = {(int64_t)1 << 32, (int64_t)1 << 33, (int64_t)1 << 34, (int64_t)1 << 62, (int64_t)1 << 31};
                    int64_t step = B[r.below(5)], lim = r.pct(50) ? INT64_MAX : step * (step > ((int64_t)1 << 60) ? 1 : 3) + 50;
                    bool rows = r.pct(70), cols = !rows || r.pct(30);
                    if (rows) A->m = lim;
                    if (cols) A->n = lim;
                    for (int64_t f = 0; f < nz; f++)
                    {
                        if (rows && r.pct(50)) A->i[f] = (int64_t)((uint64_t)A->i[f] + (uint64_t)step * r.below(3));
                        if (cols && r.pct(50)) A->j[f] = (int64_t)((uint64_t)A->j[f] + (uint64_t)step * r.below(3));
                    }
                    // the same entry twice, with its look-alikes in between
                    if (nz >= 3 && r.pct(60))
                    {
                        int64_t a = r.below(nz), b = r.below(nz), d = r.below(nz);
                        A->i[b] = A->i[a]; A->j[b] = A->j[a]; A->i[d] = A->i[a]; A->j[d] = A->j[a];
                        if (rows) A->i[d] = (int64_t)((uint64_t)A->i[a] + (uint64_t)step); else A->j[d] = (int64_t)((uint64_t)A->j[a] + (uint64_t)step);
                        if (r.pct(40)) { if (rows) A->i[b] = (int64_t)((uint64_t)A->i[a] + 2 * (uint64_t)step); else A->j[b] = (int64_t)((uint64_t)A->j[a] + 2 * (uint64_t)step); }
                    }
                }
                break;
        }
    }
    // nothing must claim more than the arrays hold
    if (A->nzmax > room) A->nzmax = room;
    if (k == SLIP_CSC && A->n > n) A->n = n;
    const char* why = invalid(A);
    uint64_t f0 = fields(A); SLIP_info want = why ? SLIP_INCORRECT_INPUT : SLIP_OK;
    c.desc = fmt("%s/%s %ldx%ld nzmax %ld, corruptions %s-> %s", KIND[k], TYPE[t], (long)A->m, (long)A->n, (long)A->nzmax, what.c_str(), why ? why : "valid");
    for (int lv = -1; lv <= 4; lv++)
    {
        o->print_level = lv;
        int64_t pc = g_sink.calls;
        SLIP_info s = SL(SLIP_matrix_check(A, lv < 0 ? NULL : o));
        if (s != want) c.fail(string(why ? "accepted:" : "rejected:") + (why ? why : "valid"), "SLIP_matrix_check returned %d at printing level %d", (int)s, lv);
        if (lv <= 0 && g_sink.calls != pc) c.fail("printed", "SLIP_matrix_check printed at level %d", lv);
        if (lv == 1 && !why && g_sink.calls != pc) c.fail("printed", "SLIP_matrix_check printed at level 1 for a valid matrix");
        if (lv >= 1 && why && g_sink.calls == pc) c.fail(string("silent:") + why, "SLIP_matrix_check rejected the matrix at level %d without saying why", lv);
        if (fields(A) != f0) c.fail("modified", "SLIP_matrix_check changed the matrix");
        cnt("checks");
    }
    cnt(string("verdict:") + (why ? why : "valid"));
    // the arrays are what they were (apart from the corruptions, which are redone here)
    if (!nc)
    {
        bool same = true;
        for (size_t e = 0; e < P.size(); e++) if (A->p[e] != P[e]) same = false;
        for (size_t e = 0; e < I.size(); e++) if (A->i[e] != I[e]) same = false;
        for (size_t e = 0; e < J.size(); e++) if (A->j[e] != J[e]) same = false;
        if (!same) c.fail("modified", "SLIP_matrix_check changed the pattern");
    }
    *A = keep;
    for (size_t e = 0; e < P.size(); e++) A->p[e] = P[e];
    for (size_t e = 0; e < I.size(); e++) A->i[e] = I[e];
    for (size_t e = 0; e < J.size(); e++) A->j[e] = J[e];
    Hash h; h.add(mdigest(A, false)); h.adds(what); h.adds(c.desc); c.sig(h.h);
    mfree(A); vfree(o);
    // a null matrix
    if (r.pct(2))
    {
        o = SL(SLIP_create_default_options()); int lv = (int)r.range(0, 3); o->print_level = lv; int64_t pc = g_sink.calls;
        if (SL(SLIP_matrix_check(NULL, o)) != SLIP_INCORRECT_INPUT) c.fail("null", "a null matrix was accepted");
        if ((g_sink.calls != pc) != (lv > 0)) c.fail("null:text", "SLIP_matrix_check of a null matrix printed %ld times at level %d", (long)(g_sink.calls - pc), lv);
        vfree(o);
        if (SL(SLIP_matrix_check(NULL, NULL)) != SLIP_INCORRECT_INPUT) c.fail("null", "a null matrix was accepted");
    }
}

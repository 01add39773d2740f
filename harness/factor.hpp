// Oracle for the integer-preserving LU factors.
#pragma once
#include "common.hpp"

// Structure of L, U, rhos, pinv.  Returns "" or what is wrong.
static inline string check_structure(int64_t n, SLIP_matrix* L, SLIP_matrix* U, SLIP_matrix* rhos, const int64_t* pinv)
{
    if (!L || !U || !rhos || !pinv) return "an output is missing";
    if (L->kind != SLIP_CSC || U->kind != SLIP_CSC || L->type != SLIP_MPZ || U->type != SLIP_MPZ || L->m != n || L->n != n || U->m != n || U->n != n)
        return "L or U has the wrong form";
    if (rhos->kind != SLIP_DENSE || rhos->type != SLIP_MPZ || rhos->m != n || rhos->n != 1) return "rhos has the wrong form";
    if (mpq_cmp_ui(L->scale, 1, 1) || mpq_cmp_ui(U->scale, 1, 1) || mpq_cmp_ui(rhos->scale, 1, 1)) return "a factor has a scale";
    vector<char> seen(n, 0);
    for (int64_t i = 0; i < n; i++)
    {
        if (pinv[i] < 0 || pinv[i] >= n || seen[pinv[i]]) return "pinv is not a permutation";
        seen[pinv[i]] = 1;
    }
    SLIP_matrix* M[2] = {L, U};
    for (int t = 0; t < 2; t++)
    {
        const char* nm = t ? "U" : "L";
        SLIP_matrix* X = M[t];
        if (X->p[0] != 0) return string(nm) + ": p[0] != 0";
        for (int64_t j = 0; j < n; j++) if (X->p[j + 1] < X->p[j]) return string(nm) + ": p not monotone";
        if (X->p[n] > X->nzmax || X->nzmax < 1) return string(nm) + ": more entries than nzmax";
        for (int64_t j = 0; j < n; j++)
        {
            vector<char> mark(n, 0);
            bool diag = false;
            for (int64_t k = X->p[j]; k < X->p[j + 1]; k++)
            {
                int64_t i = X->i[k];
                if (i < 0 || i >= n) return string(nm) + ": row index out of range";
                if (mark[i]) return string(nm) + ": repeated row index";
                mark[i] = 1;
                if (t == 0 ? i < j : i > j) return string(nm) + ": entry on the wrong side of the diagonal";
                if (i == j)
                {
                    diag = true;
                    if (mpz_cmp(X->x.mpz[k], rhos->x.mpz[j]) != 0) return string(nm) + ": diagonal differs from the pivot";
                }
            }
            if (!diag) return string(nm) + ": diagonal entry missing";
        }
    }
    for (int64_t k = 0; k < n; k++) if (mpz_sgn(rhos->x.mpz[k]) == 0) return "a pivot is zero";
    return "";
}
// Every entry against subdeterminants modulo p.  "" ok, "?" prime unsuitable.
static inline string check_values(const MatZ& A, const int64_t* q, const int64_t* pinv,
    SLIP_matrix* L, SLIP_matrix* U, SLIP_matrix* rhos, uint64_t p)
{
    Mod M(p); int64_t n = A.n;
    vector<uint64_t> D(n * n, 0);       // PAQ, column-major
    for (int64_t k = 0; k < n; k++)
    {
        int64_t j = q[k];
        for (int64_t e = A.p[j]; e < A.p[j + 1]; e++) D[pinv[A.i[e]] + k * n] = M.of(A.x[e].get_mpz_t());
    }
    vector<uint64_t> lk(n), uk(n);
    uint64_t prev = 1;      // rho_{k-1}
    // U by rows is needed: spread it to dense
    vector<uint64_t> Ud(n * n, 0);
    for (int64_t j = 0; j < n; j++) for (int64_t e = U->p[j]; e < U->p[j + 1]; e++) Ud[U->i[e] * n + j] = M.of(U->x.mpz[e]);
    for (int64_t k = 0; k < n; k++)
    {
        uint64_t d = D[k + k * n];
        uint64_t rho = M.mul(prev, d), got = M.of(rhos->x.mpz[k]);
        if (rho != got) return fmt("pivot %ld is not the leading minor", (long)k);
        if (rho == 0) return "?";
        std::fill(lk.begin(), lk.end(), 0);
        for (int64_t e = L->p[k]; e < L->p[k + 1]; e++) lk[L->i[e]] = M.of(L->x.mpz[e]);
        for (int64_t i = k; i < n; i++) if (lk[i] != M.mul(prev, D[i + k * n])) return fmt("L(%ld,%ld) is wrong", (long)i, (long)k);
        for (int64_t j = k; j < n; j++) if (Ud[k * n + j] != M.mul(prev, D[k + j * n])) return fmt("U(%ld,%ld) is wrong", (long)k, (long)j);
        uint64_t iv = M.inv(d);
        for (int64_t j = k + 1; j < n; j++)
        {
            uint64_t f = D[k + j * n]; if (!f) continue;
            f = M.mul(f, iv);
            for (int64_t i = k + 1; i < n; i++) if (D[i + k * n]) D[i + j * n] = M.sub(D[i + j * n], M.mul(f, D[i + k * n]));
        }
        prev = rho;
    }
    return "";
}
struct Factors
{
    SLIP_LU_analysis* S = NULL; SLIP_matrix *L = NULL, *U = NULL, *rhos = NULL; int64_t* pinv = NULL;
    void free() { sfree(S); mfree(L); mfree(U); mfree(rhos); vfree(pinv); pinv = NULL; }
};

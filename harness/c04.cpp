// C04: singularity is reported exactly when the matrix is singular
#include "common.hpp"
void harness_init() {}

static MatZ dup_cols(Rng& r, const MatZ& A, int how)
{
    // make A singular by construction (or nearly so)
    int64_t n = A.n;
    vector<map<int64_t, Z>> col(n);
    for (int64_t j = 0; j < n; j++) for (int64_t k = A.p[j]; k < A.p[j + 1]; k++) col[j][A.i[k]] = A.x[k];
    int64_t a = r.below(n), b = n > 1 ? (a + 1 + r.below(n - 1)) % n : a;
    switch (how)
    {
        case 0: col[a].clear(); break;                                      // empty column
        case 1: for (auto& m : col) m.erase(a); break;                      // empty row
        case 2: { Z f = gen_value(r, (int)r.below(7)); auto t = col[b]; for (auto& kv : t) kv.second *= f; if (a != b) col[a] = t; else col[a].clear(); break; }
        case 3: // column a = combination of several others
        {
            map<int64_t, Z> t; int64_t k = r.range(1, std::min<int64_t>(n, 5));
            for (int64_t s = 0; s < k; s++)
            { int64_t j = r.below(n); if (j == a) continue; Z f = gen_value(r, (int)r.below(5)); for (auto& kv : col[j]) t[kv.first] += f * kv.second; }
            for (auto it = t.begin(); it != t.end();) it = it->second == 0 ? t.erase(it) : ++it;
            col[a] = t; break;
        }
        case 4: // row a = combination of other rows
        {
            int64_t k = r.range(1, std::min<int64_t>(n, 4)); vector<std::pair<int64_t, Z>> f;
            for (int64_t s = 0; s < k; s++) { int64_t i = r.below(n); if (i != a) f.push_back({i, gen_value(r, (int)r.below(4))}); }
            for (auto& m : col) { Z t = 0; for (auto& p : f) { auto it = m.find(p.first); if (it != m.end()) t += p.second * it->second; } m.erase(a); if (t != 0) m[a] = t; }
            break;
        }
        case 5: // structurally singular: k+1 columns confined to k rows
        {
            int64_t k = r.range(0, std::max<int64_t>(0, n / 2)); auto rows = r.perm(n), cols = r.perm(n);
            for (int64_t s = 0; s <= k && s < n; s++)
            {
                auto& m = col[cols[s]]; m.clear();
                for (int64_t t = 0; t < k; t++) if (r.pct(70)) m[rows[t]] = gen_value(r, (int)r.below(5));
            }
            break;
        }
        case 6: // all entries explicit zeros in a column
            for (auto& kv : col[a]) kv.second = 0;
            break;
    }
    MatZ B; B.m = B.n = n; B.p.push_back(0);
    for (int64_t j = 0; j < n; j++)
    {
        vector<std::pair<int64_t, Z>> e(col[j].begin(), col[j].end());
        if (r.pct(50)) r.shuffle(e);
        for (auto& t : e) { B.i.push_back(t.first); B.x.push_back(t.second); }
        B.p.push_back((int64_t)B.i.size());
    }
    return B;
}

void run_case(Ctx& c)
{
    Rng& r = c.rng;
    GenOpt g; g.maxn = 24; g.big_pct = 4; g.bigmaxn = 70; rare_large(r, g, 500, 100, 250);
    GenInfo gi;
    MatZ A = gen_square(r, g, &gi);
    int64_t n = A.n;
    int how = (int)r.below(10);         // 7,8,9: as generated
    if (how < 7) A = dup_cols(r, A, how);
    bool perturbed = false;
    if (how < 5 && how > 1 && A.nnz() > 0 && r.pct(35))     // nearly singular
    { A.x[r.below(A.nnz())] += r.pct(50) ? 1 : -1; perturbed = true; }
    if (r.pct(10)) { for (auto& v : A.x) v *= Z(1) << 200; }
    int64_t rank = -1;
    for (int t = 0; t < 3 && rank < n; t++) rank = std::max(rank, rank_mod(A, PRIMES[r.below(8)]));
    bool sing = rank < n;
    (r.pct(50) ? slip_init_tracked() : slip_init_plain());
    Opt o = gen_opt(r);
    Q as = gen_scale(r);
    int route = (int)r.below(3);
    c.desc = fmt("fam=%d vk=%d how=%d pert=%d %s %s rank=%ld route=%d", gi.family, gi.vkind, how, (int)perturbed, mat_str(A).c_str(), o.str().c_str(), (long)rank, route);
    SLIP_matrix* SA = mk_csc(A, as);
    SLIP_info st;
    if (route == 0)
    {
        vector<Z> b = gen_rhs(r, n, r.range(1, 2));
        SLIP_matrix *Sb = mk_dense(b, n, (int64_t)b.size() / n, gen_scale(r)), *x = (SLIP_matrix*)8;
        SLIP_type ty = r.pct(60) ? SLIP_MPQ : r.pct(50) ? SLIP_MPFR : SLIP_FP64;
        st = SL(SLIP_backslash(&x, ty, SA, Sb, o.o));
        if (st != SLIP_OK && x != NULL && x != (SLIP_matrix*)8) c.fail("output", "SLIP_backslash returned %d and a solution", (int)st);
        if (st == SLIP_OK) mfree(x);
        mfree(Sb);
    }
    else
    {
        SLIP_LU_analysis* S = NULL; SLIP_matrix *L = NULL, *U = NULL, *rhos = NULL; int64_t* pinv = NULL;
        st = SL(SLIP_LU_analyze(&S, SA, o.o));
        if (st != SLIP_OK) c.fail("analyze", "SLIP_LU_analyze returned %d", (int)st);
        else
        {
            if (route == 2) { auto q = r.perm(n); for (int64_t k = 0; k < n; k++) S->q[k] = q[k]; if (r.pct(50)) S->lnz = S->unz = n; }
            st = SL(SLIP_LU_factorize(&L, &U, &rhos, &pinv, SA, S, o.o));
            if (st != SLIP_OK && (L || U || rhos || pinv)) c.fail("output", "factorization returned %d and an output", (int)st);
            if (st == SLIP_OK && (!L || !U || !rhos || !pinv)) c.fail("output", "factorization returned OK and a missing output");
        }
        sfree(S); if (st == SLIP_OK) { mfree(L); mfree(U); mfree(rhos); vfree(pinv); }
    }
    if (sing && st != SLIP_SINGULAR) c.fail("missed", "status %d for a matrix of rank %ld < %ld", (int)st, (long)rank, (long)n);
    if (!sing && st != SLIP_OK) c.fail("false", "status %d for a nonsingular matrix", (int)st);
    cnt(sing ? "singular" : "nonsingular"); cnt(fmt("how:%d", how)); if (sing) cnt(fmt("deficit:%ld", (long)std::min<int64_t>(n - rank, 4)));
    if (sing) cnt(fmt("singular_pivot:%d", (int)o.pivot)); if (perturbed && !sing) cnt("nearly_singular");
    { Hash h; h.add(hash_mat(A)); h.add(route); h.add(o.pivot); h.add(o.order); if (n >= 2) c.sig(h.h); }
    mfree(SA); o.free();
    slip_fini();
    g_tr.live.clear(); g_tr.reset();
}

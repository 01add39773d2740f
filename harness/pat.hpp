// Sparse pattern generator for the ordering routines.
#pragma once
#include "common.hpp"
struct Pat
{
    int64_t m = 0, n = 0;
    vector<int64_t> p, i;
    bool jumbled = false;       // unsorted or duplicate row indices somewhere
    int family = 0;
    int64_t nnz() const { return p[n]; }
    string str() const
    {
        string s = fmt("fam=%d %ldx%ld nnz=%ld%s", family, (long)m, (long)n, (long)nnz(), jumbled ? " jumbled" : "");
        if (nnz() <= 40) { s += " p="; for (auto v : p) s += fmt("%ld,", (long)v); s += " i="; for (auto v : i) s += fmt("%ld,", (long)v); }
        return s;
    }
    uint64_t hash() const { Hash h; h.add(m); h.add(n); for (auto v : p) h.add(v); for (auto v : i) h.add(v); return h.h; }
};
struct PatOpt { int maxm = 60, maxn = 60; bool square = true; int jumble_pct = 35; int big_pct = 10; int bigmax = 400; int family = -1; bool sym = false; };
typedef vector<set<int64_t>> Cols;
static inline Pat pack(Rng& r, const Cols& c, int64_t m, bool jumble)
{
    Pat P; P.m = m; P.n = (int64_t)c.size(); P.p.push_back(0);
    int how = jumble ? (int)r.range(1, 3) : 0;      // 1 shuffle, 2 duplicates, 3 both
    int pc = r.pct(50) ? 100 : 15;
    for (auto& s : c)
    {
        vector<int64_t> e(s.begin(), s.end());
        if ((how & 2) && !e.empty() && r.pct(pc)) { int64_t k = r.range(1, 3); while (k--) e.push_back(e[r.below(e.size())]); std::sort(e.begin(), e.end()); }
        if ((how & 1) && r.pct(pc)) r.shuffle(e);
        for (size_t k = 0; k + 1 < e.size(); k++) if (e[k] >= e[k+1]) P.jumbled = true;
        for (auto v : e) P.i.push_back(v);
        P.p.push_back((int64_t)P.i.size());
    }
    return P;
}
static inline Cols cols_of(const Pat& P)
{
    Cols c(P.n);
    for (int64_t j = 0; j < P.n; j++) for (int64_t k = P.p[j]; k < P.p[j+1]; k++) c[j].insert(P.i[k]);
    return c;
}
static const int NPATFAM = 13;
static inline Cols gen_cols(Rng& r, const PatOpt& o, int64_t& m, int64_t& n, int* pf = nullptr)
{
    int fam = o.family >= 0 ? o.family : (int)r.below(NPATFAM);
    bool big = r.pct(o.big_pct);
    n = big ? r.range(o.maxn, o.bigmax) : r.pct(35) ? r.range(0, 9) : r.range(0, o.maxn);
    m = o.square ? n : (big ? r.range(0, o.bigmax) : r.pct(35) ? r.range(0, 9) : r.range(0, o.maxm));
    if (fam == 2 || fam == 3 || fam == 6) { if (!o.square && r.pct(50)) m = n; }
    Cols c(n);
    if (pf) *pf = fam;
    auto put = [&](int64_t i, int64_t j) { if (i >= 0 && i < m && j >= 0 && j < n) c[j].insert(i); };
    auto symput = [&](int64_t i, int64_t j) { put(i, j); if (r.pct(80)) put(j, i); };
    if (m > 0 && n > 0) switch (fam)
    {
        case 0: { int64_t e = r.below(4 * n + 2); while (e--) put(r.below(m), r.below(n)); break; }                 // sparse random
        case 1: { int pc = (int)r.range(20, 100); if (n > 70) pc = 5; for (int64_t j = 0; j < n; j++) for (int64_t i = 0; i < m; i++) if (r.pct(pc)) put(i, j); break; }
        case 2: { int64_t b = r.range(1, 5); for (int64_t j = 0; j < n; j++) for (int64_t i = j - b; i <= j + b; i++) if (i == j || r.pct(85)) put(i, j); break; }
        case 3: { int64_t w = std::max<int64_t>(1, (int64_t)sqrt((double)n)); for (int64_t j = 0; j < n; j++) { put(j, j); if (j % w) symput(j, j-1); if (j >= w) symput(j, j-w); } break; }
        case 4: { int64_t h = r.below(n); for (int64_t j = 0; j < n; j++) { put(j, j); put(std::min(h, m-1), j); put(j, h); } break; }    // arrow
        case 5: break;                                                                                                 // empty
        case 6: for (int64_t j = 0; j < n; j++) put(j, j); break;                                                      // diagonal
        case 7: {   // cliques
            int64_t k = r.range(1, 6); while (k--) { int64_t s = r.range(1, std::min<int64_t>(std::min(m, n), 9)); vector<int64_t> v; while ((int64_t)v.size() < s) v.push_back(r.below(std::min(m, n)));
                for (auto a : v) for (auto b : v) put(a, b); } break; }
        case 8: {   // identical columns (supervariables)
            int64_t k = r.range(1, 5); vector<set<int64_t>> t(k); for (auto& s : t) { int64_t e = r.range(0, 6); while (e--) s.insert(r.below(m)); }
            for (int64_t j = 0; j < n; j++) c[j] = t[r.below(k)]; break; }
        case 9: {   // tree
            for (int64_t j = 1; j < n; j++) { int64_t q = r.pct(50) ? r.below(j) : (j - 1) / 2; symput(j, q); put(j, j); } break; }
        case 10: {  // block diagonal
            int64_t s = 0; while (s < n) { int64_t w = std::min<int64_t>(n - s, r.range(1, 7)); for (int64_t j = s; j < s + w; j++) for (int64_t i = s; i < s + w; i++) if (r.pct(70)) put(i, j); s += w; } break; }
        case 11: {  // symmetric random
            int64_t e = r.below(3 * n + 2); while (e--) { int64_t a = r.below(n), b = r.below(n); put(a, b); put(b, a); } break; }
        case 12: {  // bipartite-like / one triangle only
            bool up = r.pct(50); int64_t e = r.below(4 * n + 2); while (e--) { int64_t a = r.below(m), b = r.below(n); if (up ? a <= b : a >= b) put(a, b); } break; }
    }
    if (m > 0 && n > 0 && r.pct(30))        // dense rows and columns
    {
        int64_t k = r.range(1, 3); int pc = r.pct(60) ? 100 : 70;
        while (k--) { int64_t h = r.below(m); for (int64_t j = 0; j < n; j++) if (r.pct(pc)) put(h, j); }
        k = r.range(0, 3);
        while (k--) { int64_t h = r.below(n); for (int64_t i = 0; i < m; i++) if (r.pct(pc)) put(i, h); }
    }
    if (n > 0 && r.pct(20)) { int64_t k = r.range(1, 3); while (k--) c[r.below(n)].clear(); }
    if (m > 0 && r.pct(20)) { int64_t k = r.range(1, 3); while (k--) { int64_t h = r.below(m); for (auto& s : c) s.erase(h); } }
    return c;
}
static inline Pat gen_pat(Rng& r, const PatOpt& o)
{
    int64_t m, n; int f;
    Cols c = gen_cols(r, o, m, n, &f);
    if (o.square && n > 0 && r.pct(30))     // relabel
    { auto q = r.perm(n); Cols d(n); for (int64_t j = 0; j < n; j++) for (auto i : c[j]) d[q[j]].insert(q[i]); c = d; }
    Pat P = pack(r, c, m, r.pct(o.jumble_pct));
    P.family = f;
    return P;
}
template <class I> static inline bool is_perm(const I* p, int64_t n)
{
    vector<char> s(n, 0);
    for (int64_t k = 0; k < n; k++) { if (p[k] < 0 || p[k] >= n || s[p[k]]) return false; s[p[k]] = 1; }
    return true;
}

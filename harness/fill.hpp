// Exact symbolic fill of orderings, exact greedy minimum degree, and exact
// statistics of a pattern.
#pragma once
#include "ord.hpp"
typedef vector<vector<int64_t>> Adj;        // symmetric, no diagonal, sorted
static inline Adj adj_of(const Pat& P)      // pattern of A+A' without the diagonal
{
    Adj g(P.n);
    for (int64_t j = 0; j < P.n; j++) for (int64_t k = P.p[j]; k < P.p[j + 1]; k++) { int64_t i = P.i[k]; if (i != j) { g[i].push_back(j); g[j].push_back(i); } }
    for (auto& v : g) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
    return g;
}
static inline Adj ata_of(const Pat& P, int64_t skip_row_deg = -1)      // columns sharing a row
{
    vector<vector<int64_t>> row(P.m);
    for (int64_t j = 0; j < P.n; j++) for (int64_t k = P.p[j]; k < P.p[j + 1]; k++) row[P.i[k]].push_back(j);
    Adj g(P.n);
    for (auto& q : row) { std::sort(q.begin(), q.end()); q.erase(std::unique(q.begin(), q.end()), q.end()); if (skip_row_deg >= 0 && (int64_t)q.size() > skip_row_deg) continue; for (auto a : q) for (auto b : q) if (a != b) g[a].push_back(b); }
    for (auto& v : g) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
    return g;
}
struct Fill { double lnz = 0, nms_lu = 0, nms_ldl = 0; int64_t dmax = 0; };
// counts of L of the matrix permuted by q (q[k] = k-th pivot)
static inline Fill fill_of(const Adj& g, const vector<int64_t>& q)
{
    int64_t n = (int64_t)g.size(); Fill f; f.dmax = n > 0 ? 1 : 0;
    vector<int64_t> inv(n); for (int64_t k = 0; k < n; k++) inv[q[k]] = k;
    vector<vector<int64_t>> st(n); vector<vector<int64_t>> child(n); vector<int64_t> mark(n, -1);
    for (int64_t k = 0; k < n; k++)
    {
        auto& s = st[k]; mark[k] = k;
        for (auto i : g[q[k]]) { int64_t t = inv[i]; if (t > k && mark[t] != k) { mark[t] = k; s.push_back(t); } }
        for (auto ch : child[k]) { for (auto t : st[ch]) if (t > k && mark[t] != k) { mark[t] = k; s.push_back(t); } vector<int64_t>().swap(st[ch]); }
        double d = (double)s.size();
        f.lnz += d; f.nms_lu += d * d; f.nms_ldl += (d * d + d) / 2; f.dmax = std::max<int64_t>(f.dmax, (int64_t)d + 1);
        if (!s.empty()) child[*std::min_element(s.begin(), s.end())].push_back(k);
    }
    return f;
}
// greedy minimum degree with exact degrees
static inline vector<int64_t> exact_md(const Adj& g, Rng& r)
{
    int64_t n = (int64_t)g.size(), w = (n + 63) / 64; vector<vector<uint64_t>> b(n, vector<uint64_t>(w, 0));
    for (int64_t i = 0; i < n; i++) for (auto j : g[i]) b[i][j / 64] |= 1ull << (j % 64);
    vector<int64_t> deg(n), q; vector<char> done(n, 0); for (int64_t i = 0; i < n; i++) deg[i] = (int64_t)g[i].size();
    for (int64_t k = 0; k < n; k++)
    {
        int64_t v = -1, best = n + 1, ties = 0;
        for (int64_t i = 0; i < n; i++) if (!done[i]) { if (deg[i] < best) { best = deg[i]; v = i; ties = 1; } else if (deg[i] == best && r.below(++ties) == 0) v = i; }
        done[v] = 1; q.push_back(v); auto row = b[v];
        for (int64_t u = 0; u < w; u++) { uint64_t x = row[u]; while (x) { int64_t a = u * 64 + __builtin_ctzll(x); x &= x - 1;
            for (int64_t t = 0; t < w; t++) b[a][t] |= row[t];
            b[a][a / 64] &= ~(1ull << (a % 64)); b[a][v / 64] &= ~(1ull << (v % 64));
            int64_t d = 0; for (int64_t t = 0; t < w; t++) d += __builtin_popcountll(b[a][t]); deg[a] = d; } }
    }
    return q;
}

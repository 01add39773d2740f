// C25: the Fortran versions of AMD, built with array bounds checks and
// sanitizers: permutations, assembly tree, reported workspace and fill.
#include "fill.hpp"
extern "C" {
    typedef void fort(int* n, int* pe, int* iw, int* len, int* iwlen, int* pfree, int* nv, int* next, int* last, int* head, int* elen, int* degree, int* ncmpa, int* w);
    fort amd_, amdbar_;
}
void harness_init() {}
struct In { int n = 0; vector<int> pe, len, iw; int pfree = 1; };        // pfree: first free position (1-based)
struct Out { vector<int64_t> q; vector<int> pe, nv, elen; int pfree = 0, ncmpa = 0; };
// rows in any order, with or without gaps, entries in any order
static In input(Rng& r, const Adj& g)
{
    In I; int n = I.n = (int)g.size(); I.pe.assign(n, 0); I.len.assign(n, 0);
    bool shuffle = r.pct(60), gaps = r.pct(35), mix = r.pct(50); vector<int64_t> o(n); std::iota(o.begin(), o.end(), 0); if (shuffle) r.shuffle(o);
    for (auto i : o)
    {
        if (gaps && r.pct(20)) { int64_t k = r.range(1, 4); while (k--) I.iw.push_back((int)r.range(0, n)); }
        I.len[i] = (int)g[i].size(); I.pe[i] = I.len[i] ? (int)I.iw.size() + 1 : (int)(r.pct(50) ? 0 : r.range(-5, n + 5));
        vector<int64_t> e = g[i]; if (mix) r.shuffle(e); for (auto j : e) I.iw.push_back((int)j + 1);
    }
    if (gaps && r.pct(30)) I.iw.push_back(1);
    I.pfree = (int)I.iw.size() + 1; return I;
}
static bool same_int(const int* a, const int* b, size_t n) { return n == 0 || !memcmp(a, b, n * sizeof(int)); }
static bool call(Ctx& c, bool bar, const In& I, int iwlen, Out& o, const char* what)
{
    const char* nm = bar ? "AMDBAR" : "AMD"; int n = I.n, n2 = n, iwl = iwlen, pf = I.pfree, nc = -77;
    Arr<int> pe(n), len(n), iw(iwlen), nv(n, 0x5b), next(n, 0x5c), last(n, 0x5d), head(n, 0x5e), elen(n, 0x5f), deg(n, 0x60), w(n, 0x61);
    for (int k = 0; k < n; k++) { pe[k] = I.pe[k]; len[k] = I.len[k]; }
    for (int k = 0; k < iwlen; k++) iw[k] = k < (int)I.iw.size() ? I.iw[k] : 0x77000000 + k % 9973;
    (bar ? amdbar_ : amd_)(&n2, pe, iw, len, &iwl, &pf, nv, next, last, head, elen, deg, &nc, w); cnt(string("calls ") + nm); if (nc > 0) { cnt("calls with compressions"); cnt("compressions", nc); }
    if (n2 != n || iwl != iwlen) c.fail("input", "%s changed N or IWLEN (%s)", nm, what);
    vector<char> seen(n, 0);
    for (int k = 0; k < n; k++) { int i = last[k]; if (i < 1 || i > n || seen[i - 1]) { c.fail("perm", "%s: LAST is not a permutation at %d: %d (%s)", nm, k + 1, i, what); return false; } seen[i - 1] = 1; if (elen[i - 1] != k + 1) { c.fail("inverse", "%s: ELEN(LAST(%d)) = %d (%s)", nm, k + 1, elen[i - 1], what); return false; } }
    if (nc < 0) c.fail("ncmpa", "%s: NCMPA = %d (%s)", nm, nc, what);
    if (nc == 0)
    {
        if (pf > iwlen) c.fail("pfree", "%s: no compression, yet PFREE = %d > IWLEN = %d (%s)", nm, pf, iwlen, what);
        for (int k = std::max(pf, 0); k < iwlen; k++) if (iw[k] != (k < (int)I.iw.size() ? I.iw[k] : 0x77000000 + k % 9973)) { c.fail("unused", "%s: IW(%d) was used although PFREE = %d (%s)", nm, k + 1, pf, what); break; }
    }
    else if (pf <= iwlen) c.fail("pfree", "%s: %d compressions, yet PFREE = %d <= IWLEN = %d (%s)", nm, nc, pf, iwlen, what);
    o.q.resize(n); for (int k = 0; k < n; k++) o.q[k] = last[k] - 1;
    o.pe.assign((int*)pe, (int*)pe + n); o.nv.assign((int*)nv, (int*)nv + n); o.elen.assign((int*)elen, (int*)elen + n); o.pfree = pf; o.ncmpa = nc;
    return true;
}
// the assembly tree: well formed, in pivot order, and equivalent to the ordering
static void tree(Ctx& c, const char* nm, const Out& o, const Adj& g, double lnz, const char* what)
{
    int n = (int)o.q.size(); vector<vector<int>> kids(n + 1), mem(n + 1);
    for (int i = 0; i < n; i++)
    {
        int p = -o.pe[i];
        if (o.nv[i] < 0 || o.nv[i] > n) { c.fail("tree:nv", "%s: NV(%d) = %d (%s)", nm, i + 1, o.nv[i], what); return; }
        if (p < 0 || p > n || p == i + 1) { c.fail("tree:pe", "%s: PE(%d) = %d (%s)", nm, i + 1, o.pe[i], what); return; }
        if (o.nv[i] > 0) { if (p && o.nv[p - 1] <= 0) { c.fail("tree:parent", "%s: the parent %d of the node %d is not a node (%s)", nm, p, i + 1, what); return; }
            if (p && o.elen[p - 1] <= o.elen[i]) { c.fail("tree:order", "%s: the parent %d of the node %d is not eliminated later (%s)", nm, p, i + 1, what); return; } kids[p].push_back(i + 1); }
        else { int j = i + 1, steps = 0; while (j && o.nv[j - 1] == 0 && steps++ <= n) j = -o.pe[j - 1]; if (j <= 0 || steps > n) { c.fail("tree:edge", "%s: no node above the variable %d (%s)", nm, i + 1, what); return; } mem[j].push_back(i + 1); }
    }
    for (auto& m : mem) std::sort(m.begin(), m.end(), [&](int a, int b) { return o.elen[a - 1] < o.elen[b - 1]; });
    vector<int64_t> post; post.reserve(n); vector<std::pair<int, size_t>> st{ { 0, 0 } };
    while (!st.empty()) { auto& t = st.back(); if (t.second < kids[t.first].size()) { int k = kids[t.first][t.second++]; st.push_back({ k, 0 }); } else { if (t.first) { for (int v : mem[t.first]) post.push_back(v - 1); post.push_back(t.first - 1); } st.pop_back(); } }
    if ((int)post.size() != n || !is_perm(post.data(), n)) { c.fail("tree:cover", "%s: the tree covers %d of %d (%s)", nm, (int)post.size(), n, what); return; }
    Fill f = fill_of(g, post); cnt("trees checked");
    // the reported degrees of the nodes account for the fill (mass elimination makes them slight upper bounds)
    double ub = 0; for (int i = 0; i < n; i++) if (o.nv[i] > 0) { double s = 1 + (double)mem[i + 1].size(), d = o.nv[i]; if (d < s) { c.fail("tree:degree", "%s: the node %d of %g variables has the degree NV = %g (%s)", nm, i + 1, s, d, what); return; } ub += s * (d - 1) - s * (s - 1) / 2; }

    if (ub < lnz || ub > 1.2 * lnz + 60) c.fail("tree:degrees", "%s: the degrees NV account for fill %g, the ordering has %g (%s)", nm, ub, lnz, what);
    if (f.lnz != lnz) c.fail("tree:fill", "%s: the pivot order of the tree has fill %g, the ordering %g (%s)", nm, f.lnz, lnz, what);
}
static Adj graph(Rng& r, bool thorough)
{
    int64_t n; Adj g;
    auto edge = [&](int64_t a, int64_t b) { if (a != b && a >= 0 && b >= 0 && a < n && b < n) { g[a].push_back(b); g[b].push_back(a); } };
    int f = (int)r.below(10);
    if (f < 5) { PatOpt o; o.maxn = o.maxm = r.pct(50) ? 12 : 70; o.big_pct = 10; o.bigmax = 300; o.jumble_pct = 0; Pat P; do P = gen_pat(r, o); while (P.n < 1); return adj_of(P); }
    if (f == 5) { int64_t w = r.range(2, 24), h = r.range(2, 24); n = w * h; g.resize(n); int pc = (int)r.below(60); for (int64_t i = 0; i < n; i++) { if (i % w + 1 < w) edge(i, i + 1); edge(i, i + w); if (r.pct(pc) && i % w + 1 < w) edge(i, i + w + 1); } }
    else if (f == 6) { int64_t w = r.range(2, 8); n = w * w * w; g.resize(n); for (int64_t i = 0; i < n; i++) { if (i % w + 1 < w) edge(i, i + 1); if (i / w % w + 1 < w) edge(i, i + w); edge(i, i + w * w); } }
    else if (f == 7) { n = r.range(2, 400); g.resize(n); int64_t k = r.range(1, 3) * n; while (k--) edge(r.below(n), r.below(n)); }
    else if (f == 8) { n = r.range(2, 300); g.resize(n); int64_t k = r.range(1, n / 3 + 1); while (k--) { int64_t b = r.below(n), s = r.range(2, 8); vector<int64_t> v; for (int64_t t = 0; t < s; t++) v.push_back(std::min(n - 1, b + r.below(r.pct(80) ? 15 : n))); for (auto x : v) for (auto y : v) edge(x, y); } }
    else { n = r.range(2, 400); g.resize(n); for (int64_t i = 1; i < n; i++) { edge(i, r.pct(70) ? r.below(i) : i - 1); if (r.pct(25)) edge(i, r.below(i)); } int64_t k = r.below(3); while (k--) { int64_t h = r.below(n); for (int64_t i = 0; i < n; i++) if (r.pct(80)) edge(h, i); } }
    for (auto& v : g) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
    if (r.pct(50)) { auto q = r.perm(n); Adj h(n); for (int64_t i = 0; i < n; i++) for (auto j : g[i]) h[q[i]].push_back(q[j]); for (auto& v : h) std::sort(v.begin(), v.end()); return h; }
    return g;
}
// rows with very many entries: sums of indices beyond the range of an integer
static Adj large(Rng& r)
{
    // the neighbours have large indices, so that a few thousand of them are enough
    int64_t n = r.range(300000, 900000), k = (int64_t)(r.range(90, 260) / 100.0 * 2147483648.0 / n), hubs = r.range(1, 3); Adj g(n);
    vector<int64_t> hub; while ((int64_t)hub.size() < hubs) { int64_t h = r.below(n); if (std::find(hub.begin(), hub.end(), h) == hub.end()) hub.push_back(h); }
    int pc = r.pct(50) ? 100 : (int)r.range(60, 99); for (auto h : hub) for (int64_t i = n - k; i < n; i++) if (i != h && r.pct(pc)) { g[h].push_back(i); g[i].push_back(h); }
    if (r.pct(50)) for (int64_t i = n - k; i < n; i++) { int64_t j = i - 1; g[i].push_back(j); g[j].push_back(i); }
    for (auto& v : g) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
    return g;
}
void run_case(Ctx& c)
{
    Rng& r = c.rng; int nb = r.pct(1) ? 1 : 12; bool big = nb == 1; double F[2] = {}, C[2] = {}; Hash sg;
    for (int k = 0; k < nb && !c.failed; k++)
    {
        Adj g = big ? large(r) : graph(r, c.thorough); int n = (int)g.size(); int64_t nz = 0; for (auto& v : g) nz += v.size(); sg.add(n); sg.add(nz); for (auto& v : g) for (auto j : v) sg.add(j);
        cnt("graphs"); cntmax("order", n); if (big) cnt("large graphs");
        for (int bar = 0; bar < 2 && !c.failed; bar++)
        {
            const char* nm = bar ? "AMDBAR" : "AMD"; In I = input(r, g); string d = fmt("n=%d nz=%ld pfree=%d", n, (long)nz, I.pfree); if (nz <= 60) { d += " adj="; for (auto& v : g) { for (auto j : v) d += fmt("%ld,", (long)j + 1); d += ";"; } } c.desc = d; Out o;
            if (!call(c, bar, I, I.pfree + n + (int)(r.pct(50) ? I.pfree / 5 : 0), o, "IWLEN = PFREE+N or more")) break;
            Fill f = fill_of(g, o.q); tree(c, nm, o, g, f.lnz, "ample IWLEN");
            // smaller and exactly sufficient workspaces
            int lens[3] = { I.pfree - 1, I.pfree + (int)r.below(n + 1), std::max(o.pfree, I.pfree - 1) };
            for (int t = 0; t < 3 && !c.failed; t++)
            {
                if (big && t < 2) continue;       // one compression per pivot would take hours
                if (lens[t] < 1 && t != 0) continue;
                Out o2; string w = fmt("IWLEN = %d", lens[t]); if (!call(c, bar, I, lens[t], o2, w.c_str())) break;
                Fill f2 = o2.q == o.q ? f : fill_of(g, o2.q); if (o2.q != o.q) cnt("orderings that depend on the workspace"); tree(c, nm, o2, g, f2.lnz, w.c_str());
                if (t == 2 && o.ncmpa == 0 && o2.ncmpa) c.fail("needed", "%s: with IWLEN = %d, the PFREE returned, there are %d compressions", nm, lens[t], o2.ncmpa);
                if (f2.lnz > 1.5 * f.lnz + 30) c.fail("fill:workspace", "%s: fill %g with %s, %g with more workspace", nm, f2.lnz, w.c_str(), f.lnz);
            }
            if (c.failed) break;
            // the C version, without its treatment of dense rows
            Arr<int> p(n + 1), i(nz), q(n); int64_t e = 0; for (int j = 0; j < n; j++) { p[j] = (int)e; for (auto v : g[j]) i[e++] = (int)v; } p[n] = (int)e; double ctl[AMD_CONTROL] = {}, info[AMD_INFO]; ctl[AMD_DENSE] = -1; ctl[AMD_AGGRESSIVE] = bar ? 0 : 1;
            int s = amd_order(n, p, i, q, ctl, info); if (s != AMD_OK) { c.fail("base", "amd_order returns %d", s); break; }
            Fill fc = fill_of(g, vector<int64_t>((int*)q, (int*)q + n)); F[bar] += f.lnz; C[bar] += fc.lnz; if (fc.lnz == f.lnz) cnt("same fill as the C version"); else cnt(f.lnz > fc.lnz ? "more fill than the C version" : "less fill than the C version");
            cntmax(fmt("permille of C's fill %s", nm), fc.lnz > 50 ? (int64_t)(1000 * f.lnz / fc.lnz) : 0);
            if (f.lnz > 1.3 * fc.lnz + 20) c.fail("fill", "%s: fill %g, the C version %g", nm, f.lnz, fc.lnz);

        }
    }
    for (int bar = 0; bar < 2 && !big && !c.failed; bar++) { if (F[bar] > 1.08 * C[bar] + 60) c.fail("fill:batch", "%s: fill %g over the batch, the C version %g", bar ? "AMDBAR" : "AMD", F[bar], C[bar]); cnt("batches compared"); }
    c.sig(sg.h);
}

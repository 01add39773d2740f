// C30: the direct interface of AMD (amd_2, amd_l2): the caller's own arrays,
// with any row layout and any workspace from the documented minimum up.
#include "fill.hpp"
void harness_init() {}
template <class I> struct Direct;
template <> struct Direct<int> { static void run(int n, int* Pe, int* Iw, int* Len, int iwlen, int pfree, int* Nv, int* Next, int* Last, int* Head, int* Elen, int* Deg, int* W, double* C, double* Info) { amd_2(n, Pe, Iw, Len, iwlen, pfree, Nv, Next, Last, Head, Elen, Deg, W, C, Info); } static const char* name() { return "amd_2"; } };
template <> struct Direct<LL> { static void run(LL n, LL* Pe, LL* Iw, LL* Len, LL iwlen, LL pfree, LL* Nv, LL* Next, LL* Last, LL* Head, LL* Elen, LL* Deg, LL* W, double* C, double* Info) { amd_l2(n, Pe, Iw, Len, iwlen, pfree, Nv, Next, Last, Head, Elen, Deg, W, C, Info); } static const char* name() { return "amd_l2"; } };
struct In { int64_t n = 0, pfree = 0; vector<int64_t> pe, len, iw; };
struct Out { vector<int64_t> q, pe, nv, elen; double info[AMD_INFO]; bool has_info; };
// rows in any order, with or without gaps, entries in any order
static In input(Rng& r, const Adj& g)
{
    In I; int64_t n = I.n = (int64_t)g.size(); I.pe.assign(n, 0); I.len.assign(n, 0);
    bool shuffle = r.pct(60), gaps = r.pct(35), mix = r.pct(50); vector<int64_t> o(n); std::iota(o.begin(), o.end(), 0); if (shuffle) r.shuffle(o);
    for (auto i : o)
    {
        if (gaps && r.pct(20)) { int64_t k = r.range(1, 4); while (k--) I.iw.push_back(r.range(0, n)); }
        I.len[i] = (int64_t)g[i].size(); I.pe[i] = I.len[i] ? (int64_t)I.iw.size() : r.pct(50) ? 0 : r.range(-5, n + 5);
        vector<int64_t> e = g[i]; if (mix) r.shuffle(e); for (auto j : e) I.iw.push_back(j);
    }
    if (gaps && r.pct(30)) I.iw.push_back(1);
    I.pfree = (int64_t)I.iw.size(); return I;
}
template <class T> static bool call(Ctx& c, const In& I, int64_t iwlen, const double* ctl, bool info, Out& o, const char* what)
{
    const char* nm = Direct<T>::name(); int64_t n = I.n; int fill = (int)(c.rng.below(5)); T g[5] = {0x5b, -1, 0, (T)n, -2};
    Arr<T> pe(n), len(n), iw(iwlen), nv(n), next(n), last(n), head(n), elen(n), deg(n), w(n); Arr<double> C(AMD_CONTROL), inf(AMD_INFO);
    for (int64_t k = 0; k < n; k++) { pe[k] = (T)I.pe[k]; len[k] = (T)I.len[k]; nv[k] = next[k] = last[k] = head[k] = elen[k] = deg[k] = w[k] = g[fill]; }
    for (int64_t k = 0; k < iwlen; k++) iw[k] = k < I.pfree ? (T)I.iw[k] : (T)(0x77000000 + k % 9973);
    if (ctl) memcpy(C.a, ctl, AMD_CONTROL * sizeof(double)); for (int k = 0; k < AMD_INFO; k++) inf[k] = -77;
    Direct<T>::run((T)n, pe, iw, len, (T)iwlen, (T)I.pfree, nv, next, last, head, elen, deg, w, ctl ? C.a : NULL, info ? inf.a : NULL); cnt(string("calls ") + nm);
    if (ctl && memcmp(C.a, ctl, AMD_CONTROL * sizeof(double))) c.fail("control", "%s changed Control (%s)", nm, what);
    if (!is_perm(last.a, n)) { c.fail("perm", "%s: Last is not a permutation (%s)", nm, what); return false; }
    for (int64_t k = 0; k < n; k++) if (next[last[k]] != k) { c.fail("inverse", "%s: Next [Last [%ld]] = %ld (%s)", nm, (long)k, (long)next[last[k]], what); return false; }
    o.q.assign(last.a, last.a + n); o.pe.assign(pe.a, pe.a + n); o.nv.assign(nv.a, nv.a + n); o.elen.assign(elen.a, elen.a + n); memcpy(o.info, inf.a, sizeof o.info); o.has_info = info;
    if (info && inf[AMD_NCMPA] > 0) { cnt("calls with garbage collections"); cnt("garbage collections", (int64_t)inf[AMD_NCMPA]); }
    return true;
}
static double batch_rep, batch_true;
// everything the arrays say, against the graph and against each other
static double judge(Ctx& c, const char* nm, const Out& o, const Adj& g, const double* ctl, const char* what)
{
    int64_t n = (int64_t)g.size(); Fill f = fill_of(g, o.q); double alpha = ctl ? ctl[AMD_DENSE] : 10; vector<vector<int64_t>> kids(n + 1), mem(n + 1); vector<int64_t> pos(n); for (int64_t k = 0; k < n; k++) pos[o.q[k]] = k;
    int64_t nd = 0;
    for (int64_t i = 0; i < n; i++)
    {
        int64_t p = o.pe[i], v = o.nv[i], d = (int64_t)g[i].size();
        if (p < -1 || p >= n || p == i) { c.fail("tree:pe", "%s: Pe [%ld] = %ld (%s)", nm, (long)i, (long)p, what); return 0; }
        if (v < 0 || v > n) { c.fail("tree:nv", "%s: Nv [%ld] = %ld (%s)", nm, (long)i, (long)v, what); return 0; }
        bool dense = alpha < 0 ? (v == 0 && p == -1 && d == n - 1 && d > 16) : d > 16 && (double)d > alpha * sqrt((double)n);
        if (dense != (v == 0 && p == -1)) { c.fail("tree:dense", "%s: row %ld with %ld entries is %sdense, but Pe = %ld and Nv = %ld (%s)", nm, (long)i, (long)d, dense ? "" : "not ", (long)p, (long)v, what); return 0; }
        if (v > 0 ? o.elen[i] < v || o.elen[i] > n : o.elen[i] != -1) { c.fail("tree:elen", "%s: Elen [%ld] = %ld, Nv = %ld (%s)", nm, (long)i, (long)o.elen[i], (long)v, what); return 0; }
        if (v > 0) { if (p >= 0 && o.nv[p] == 0) { c.fail("tree:parent", "%s: the parent %ld of the node %ld is not a node (%s)", nm, (long)p, (long)i, what); return 0; } kids[p + 1].push_back(i); }
        else if (dense) nd++;
        else { int64_t j = i, s = 0; while (j >= 0 && o.nv[j] == 0 && s++ <= n) j = o.pe[j]; if (j < 0 || s > n) { c.fail("tree:edge", "%s: no node above the variable %ld (%s)", nm, (long)i, what); return 0; } mem[j + 1].push_back(i); }
    }
    for (int64_t i = 0; i < n; i++) if (o.nv[i] == 0 && o.pe[i] == -1 && pos[i] < n - nd) { c.fail("dense:last", "%s: the dense row %ld is placed at %ld of %ld (%s)", nm, (long)i, (long)pos[i], (long)n, what); return 0; }
    // the order is a postorder of the tree: variables of a node directly before it, subtrees in one piece
    vector<int64_t> low(n), sz(n, 0); vector<int64_t> nodes; for (auto i : o.q) if (o.nv[i] > 0) nodes.push_back(i);
    for (auto i : nodes)
    {
        if (1 + (int64_t)mem[i + 1].size() != o.nv[i]) { c.fail("tree:count", "%s: node %ld has %ld variables, Nv = %ld (%s)", nm, (long)i, 1 + (long)mem[i + 1].size(), (long)o.nv[i], what); return 0; }
        for (auto v : mem[i + 1]) if (pos[v] >= pos[i] || pos[v] <= pos[i] - o.nv[i]) { c.fail("tree:place", "%s: variable %ld of node %ld (at %ld) is placed at %ld (%s)", nm, (long)v, (long)i, (long)pos[i], (long)pos[v], what); return 0; }
        sz[i] += o.nv[i]; low[i] = pos[i] - o.nv[i] + 1;
        for (auto k : kids[i + 1]) { if (pos[k] >= pos[i]) { c.fail("tree:order", "%s: node %ld is placed before its child %ld (%s)", nm, (long)i, (long)k, what); return 0; } sz[i] += sz[k]; low[i] = std::min(low[i], low[k]); }
        int64_t last = -1, big = -1; for (auto k : kids[i + 1]) { if (last < 0 || pos[k] > pos[last]) last = k; big = std::max(big, o.elen[k]); }
        if (last >= 0 && o.elen[last] != big) { c.fail("tree:largest", "%s: the last child %ld of node %ld has size %ld, another one %ld (%s)", nm, (long)last, (long)i, (long)o.elen[last], (long)big, what); return 0; }
        if (low[i] != pos[i] - sz[i] + 1) { c.fail("tree:post", "%s: the subtree of node %ld (%ld rows) is spread over %ld..%ld (%s)", nm, (long)i, (long)sz[i], (long)low[i], (long)pos[i], what); return 0; }
    }
    // degrees: upper bounds of the true ones, leaves exact; together they are the statistics
    double lnz = 0, lu = 0, ldl = 0, dmax = std::max<double>(nd, 1); vector<int64_t> cl;
    auto add = [&](double a, double b) { double l = a * b + (a - 1) * a / 2, s = a * b * b + b * (a - 1) * a + (a - 1) * a * (2 * a - 1) / 6; lnz += l; lu += s; ldl += (s + l) / 2; dmax = std::max(dmax, a + b); };
    for (auto i : nodes) if (!g[i].empty()) add((double)o.nv[i], (double)(o.elen[i] - o.nv[i] + nd));
    if (nd) { double a = (double)nd, l = (a - 1) * a / 2, s = (a - 1) * a * (2 * a - 1) / 6; lnz += l; lu += s; ldl += (s + l) / 2; }
    if (lnz < f.lnz) c.fail("low", "%s: the degrees account for %g entries of L, the ordering has %g (%s)", nm, lnz, f.lnz, what);
    if (o.has_info)
    {
        struct { const char* nm; double got, want; } v[] = { {"NDENSE", o.info[AMD_NDENSE], (double)nd}, {"LNZ", o.info[AMD_LNZ], lnz}, {"NDIV", o.info[AMD_NDIV], lnz}, {"NMULTSUBS_LDL", o.info[AMD_NMULTSUBS_LDL], ldl}, {"NMULTSUBS_LU", o.info[AMD_NMULTSUBS_LU], lu}, {"DMAX", o.info[AMD_DMAX], dmax}, {"STATUS", o.info[AMD_STATUS], AMD_OK} };
        for (auto& s : v) { cnt("statistics"); if (s.got != s.want) c.fail(string("info:") + s.nm, "%s: Info [AMD_%s] is %.17g, the tree gives %.17g (%s)", nm, s.nm, s.got, s.want, what); }
        if (!(o.info[AMD_NCMPA] >= 0)) c.fail("info:NCMPA", "%s: NCMPA = %g (%s)", nm, o.info[AMD_NCMPA], what);
    }
    if (nd == 0) { batch_rep += lnz; batch_true += f.lnz; if (lnz > 1.6 * f.lnz + 30) c.fail("high", "%s: the degrees account for %g entries of L, the ordering has %g (%s)", nm, lnz, f.lnz, what); }
    cnt("results judged"); cnt("nodes", (int64_t)nodes.size()); if (nd) cnt("results with dense rows"); cntmax("dense rows", nd);
    return f.lnz;
}
// entries every run must put into Iw besides the matrix: one for each node in the structure of an element that has children
// (variables of different nodes were never merged; an element with children cannot be built in place when absorption is not aggressive)
static int64_t least_room(const Out& o, const Adj& g)
{
    int64_t n = (int64_t)g.size(), room = 0; vector<int64_t> node(n, -1); vector<set<int64_t>> st(n); vector<char> leaf(n, 1); vector<vector<int64_t>> mem(n);
    for (int64_t i = 0; i < n; i++) { int64_t j = i; while (j >= 0 && o.nv[j] == 0) j = o.pe[j]; node[i] = j; if (j >= 0) mem[j].push_back(i); }
    for (auto e : o.q) if (o.nv[e] > 0)
    {
        auto& s = st[e]; for (auto v : mem[e]) for (auto w : g[v]) if (node[w] >= 0) s.insert(node[w]);
        // what was eliminated before e is in its subtree
        s.erase(e); int64_t p = o.pe[e]; set<int64_t> up; for (int64_t a = p; a >= 0; a = o.pe[a]) up.insert(a);
        for (auto it = s.begin(); it != s.end();) if (up.count(*it)) ++it; else it = s.erase(it);
        if (!leaf[e]) room += (int64_t)s.size();
        if (p >= 0) { leaf[p] = 0; st[p].insert(s.begin(), s.end()); }
        set<int64_t>().swap(s);
    }
    return room;
}
static Adj graph(Rng& r)
{
    int64_t n; Adj g;
    auto edge = [&](int64_t a, int64_t b) { if (a != b && a >= 0 && b >= 0 && a < n && b < n) { g[a].push_back(b); g[b].push_back(a); } };
    int f = (int)r.below(12);
    if (f < 5) { PatOpt o; o.maxn = o.maxm = r.pct(50) ? 12 : 70; o.big_pct = 10; o.bigmax = 300; o.jumble_pct = 0; Pat P; do P = gen_pat(r, o); while (P.n < 1); return adj_of(P); }
    if (f == 5) { int64_t w = r.range(2, 24), h = r.range(2, 24); n = w * h; g.resize(n); int pc = (int)r.below(60); for (int64_t i = 0; i < n; i++) { if (i % w + 1 < w) edge(i, i + 1); edge(i, i + w); if (r.pct(pc) && i % w + 1 < w) edge(i, i + w + 1); } }
    else if (f == 6) { int64_t w = r.range(2, 8); n = w * w * w; g.resize(n); for (int64_t i = 0; i < n; i++) { if (i % w + 1 < w) edge(i, i + 1); if (i / w % w + 1 < w) edge(i, i + w); edge(i, i + w * w); } }
    else if (f == 7) { n = r.range(2, 400); g.resize(n); int64_t k = r.range(1, 3) * n; while (k--) edge(r.below(n), r.below(n)); }
    else if (f == 8) { n = r.range(2, 300); g.resize(n); int64_t k = r.range(1, n / 3 + 1); while (k--) { int64_t b = r.below(n), s = r.range(2, 8); vector<int64_t> v; for (int64_t t = 0; t < s; t++) v.push_back(std::min(n - 1, b + r.below(r.pct(80) ? 15 : n))); for (auto x : v) for (auto y : v) edge(x, y); } }
    else if (f == 9) { n = r.range(2, 400); g.resize(n); for (int64_t i = 1; i < n; i++) { edge(i, r.pct(70) ? r.below(i) : i - 1); if (r.pct(25)) edge(i, r.below(i)); } int64_t k = r.below(3); while (k--) { int64_t h = r.below(n); for (int64_t i = 0; i < n; i++) if (r.pct(80)) edge(h, i); } }
    else if (f == 10)       // groups of equal rows, some of them grown later by elimination
    {   int64_t k = r.range(2, 60); vector<int64_t> s(k), at(k); n = 0; for (int64_t i = 0; i < k; i++) { at[i] = n; s[i] = r.range(1, 6); n += s[i]; } g.resize(n);
        auto blk = [&](int64_t a, int64_t b) { for (int64_t x = 0; x < s[a]; x++) for (int64_t y = 0; y < s[b]; y++) edge(at[a] + x, at[b] + y); };
        for (int64_t i = 0; i < k; i++) { if (r.pct(70)) blk(i, i); int64_t d = r.range(1, 3); while (d--) blk(i, r.below(k)); } }
    else                    // many rows with a few dense ones, of degrees around the thresholds
    {   n = r.range(20, 500); g.resize(n); for (int64_t i = 0; i < n; i++) { edge(i, r.below(n)); if (r.pct(60)) edge(i, r.below(n)); }
        int64_t k = r.range(1, 6); while (k--) { int64_t h = r.below(n), d = r.pct(40) ? n - 1 : std::min(n - 1, (int64_t)(r.range(5, 110) / 10.0 * sqrt((double)n)) + r.range(-1, 2)); for (int64_t t = 0; t < d; t++) edge(h, (h + 1 + t) % n); } }
    for (auto& v : g) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
    if (r.pct(50)) { auto q = r.perm(n); Adj h(n); for (int64_t i = 0; i < n; i++) for (auto j : g[i]) h[q[i]].push_back(q[j]); for (auto& v : h) std::sort(v.begin(), v.end()); return h; }
    return g;
}
template <class T> static void one(Ctx& c, const Adj& g, double& F, double& C)
{
    Rng& r = c.rng; const char* nm = Direct<T>::name(); In I = input(r, g); int64_t n = I.n, nz = 0; for (auto& v : g) nz += (int64_t)v.size();
    double ct[AMD_CONTROL] = {}; double* ctl = r.pct(25) ? NULL : ct; static const double al[] = {10, -1, 0, 0.5, 1, 2, 3, 5, 1e9, 9.99}; ct[AMD_DENSE] = r.pct(40) ? 10 : al[r.below(10)]; ct[AMD_AGGRESSIVE] = r.pct(60) ? 1 : r.pct(70) ? 0 : r.pct(50) ? -1 : 0.25;
    string d = fmt("%s n=%ld nz=%ld pfree=%ld dense=%g aggressive=%g%s", nm, (long)n, (long)nz, (long)I.pfree, ct[0], ct[1], ctl ? "" : " (NULL)"); if (nz <= 60) { d += " adj="; for (auto& v : g) { for (auto j : v) d += fmt("%ld,", (long)j); d += ";"; } } c.desc = d;
    Out o; if (!call<T>(c, I, I.pfree + n + I.pfree / 5, ctl, true, o, "recommended iwlen")) return;
    double lnz = judge(c, nm, o, g, ctl, "recommended iwlen"); if (c.failed) return;
    auto same = [&](const Out& a, const Out& b) { return a.q == b.q && a.pe == b.pe && a.nv == b.nv && a.elen == b.elen; };
    // without statistics, and in the other integer type: the same result
    { Out p; if (!call<T>(c, I, I.pfree + n + I.pfree / 5, ctl, false, p, "no Info")) return; if (!same(o, p)) { c.fail("info:null", "%s: the ordering is another one without Info", nm); return; } }
    if (n < 5000) { Out p; typedef typename std::conditional<sizeof(T) == 4, LL, int>::type U; if (!call<U>(c, I, I.pfree + n + I.pfree / 5, ctl, true, p, "recommended iwlen")) return; if (!same(o, p)) { c.fail("types", "amd_2 and amd_l2 do not agree"); return; } if (memcmp(o.info, p.info, sizeof o.info)) { c.fail("types:info", "the statistics of amd_2 and amd_l2 do not agree"); return; } cnt("compared between int and long"); }
    // the minimum, something in between, and room for everything
    double all = 0; for (int64_t i = 0; i < n; i++) if (o.nv[i] > 0) all += (double)o.elen[i];
    int64_t lens[3] = { I.pfree + n, I.pfree + n + r.below(n + I.pfree / 5 + 1), I.pfree + n + (int64_t)all };
    for (int t = 0; t < 3; t++)
    {
        Out p; string w = fmt("iwlen = %ld", (long)lens[t]); if (!call<T>(c, I, lens[t], ctl, true, p, w.c_str())) return;
        double l = same(o, p) ? lnz : judge(c, nm, p, g, ctl, w.c_str()); if (c.failed) return;
        if (!same(o, p)) { c.fail("workspace", "%s: with %s the ordering is not the one found with the recommended workspace (fill %g and %g)", nm, w.c_str(), l, lnz); return; }
        cnt("same ordering with another workspace");
        if (t < 2 && ctl && ct[AMD_AGGRESSIVE] == 0 && n < 600)
        {
            int64_t lb = least_room(p, g); if (lb > lens[t] - I.pfree) { cnt("compression inevitable"); 
                int64_t least = (lb - (lens[t] - I.pfree) + lens[t] - 1) / lens[t]; if (least > 1) cnt("several compressions inevitable");
                if (p.info[AMD_NCMPA] < (double)least) { c.fail("ncmpa:none", "%s: %g garbage collections with %s and pfree = %ld, although the elements take at least %ld", nm, p.info[AMD_NCMPA], w.c_str(), (long)I.pfree, (long)lb); return; } }
            else cnt("compression perhaps not needed");
        }
        double need = 0; for (int64_t i = 0; i < n; i++) if (p.nv[i] > 0) need += (double)p.elen[i];
        if ((double)(lens[t] - I.pfree) >= need && p.info[AMD_NCMPA] != 0) { c.fail("ncmpa:ample", "%s: %g garbage collections with %s, although all elements take %g", nm, p.info[AMD_NCMPA], w.c_str(), need); return; }
    }
    // the same matrix through the usual interface
    Arr<T> p(n + 1), i(nz), q(n); int64_t e = 0; for (int64_t j = 0; j < n; j++) { p[j] = (T)e; for (auto v : g[j]) i[e++] = (T)v; } p[n] = (T)e; double info[AMD_INFO];
    int s = (int)OrdApi<T>::amd((T)n, p, i, q, ctl, info); if (s != AMD_OK) { c.fail("base", "amd_order returns %d", s); return; }
    if (info[AMD_NDENSE] != o.info[AMD_NDENSE]) { c.fail("ndense", "%s: %g dense rows, amd_order finds %g", nm, o.info[AMD_NDENSE], info[AMD_NDENSE]); return; }
    Fill fc = fill_of(g, q.vec()); if (o.info[AMD_NDENSE] == 0) { F += lnz; C += fc.lnz; if (lnz > 1.35 * fc.lnz + 30) c.fail("fill", "%s: fill %g, amd_order %g", nm, lnz, fc.lnz); cntmax("permille of amd_order's fill", fc.lnz > 50 ? (int64_t)(1000 * lnz / fc.lnz) : 0); }
}
void run_case(Ctx& c)
{
    Rng& r = c.rng; double F = 0, C = 0; Hash sg; batch_rep = batch_true = 0;
    for (int k = 0; k < 12 && !c.failed; k++)
    {
        Adj g = graph(r); sg.add((int64_t)g.size()); for (auto& v : g) { sg.add((int64_t)v.size()); for (auto j : v) sg.add(j); }
        cnt("graphs"); cntmax("order", (int64_t)g.size());
        if (r.pct(50)) one<int>(c, g, F, C); else one<LL>(c, g, F, C);
    }
    if (!c.failed && F > 1.08 * C + 60) c.fail("fill:batch", "fill %g over the batch, amd_order %g", F, C);
    if (!c.failed && batch_rep > 1.05 * batch_true + 60) c.fail("high:batch", "the degrees account for %g entries of L over the batch, the orderings have %g", batch_rep, batch_true);
    if (C > 0) cntmax("permille of amd_order's fill, batch", C > 500 ? (int64_t)(1000 * F / C) : 0); if (batch_true > 0) cntmax("permille of the true fill, batch", batch_true > 500 ? (int64_t)(1000 * batch_rep / batch_true) : 0);
    c.sig(sg.h);
}

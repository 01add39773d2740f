// C23: the ordering routines are re-entrant.  Several threads order matrices at
// the same time, on separate data and on shared read-only input, while their
// allocation functions inject delays (and failures).  ThreadSanitizer watches
// every access; the results are compared with those of sequential calls.
#include "ord.hpp"
#include <atomic>
#include <thread>
#include <memory>
#include <sched.h>
#include <time.h>
extern "C" {
    int __tsan_get_report_data(void*, const char**, int*, int*, int*, int*, int*, int*, int*, void**, unsigned long) __attribute__((weak));
    int __tsan_get_report_mop(void*, unsigned long, int*, void**, int*, int*, int*, void**, unsigned long) __attribute__((weak));
    int __tsan_get_report_loc(void*, unsigned long, const char**, void**, unsigned long*, unsigned long*, int*, int*, int*, void**, unsigned long) __attribute__((weak));
    void __sanitizer_symbolize_pc(void* pc, const char* fmt, char* out, size_t n) __attribute__((weak));
}
static std::atomic<int64_t> g_races{0};
static std::atomic<int> g_have{0};
static char g_first[1500], g_func[200];
extern "C" __attribute__((no_sanitize("thread"))) void __tsan_on_report(void* rep)
{
    if (g_races.fetch_add(1, std::memory_order_relaxed)) return;
    const char* d = "report"; int cnt = 0, st = 0, mops = 0, locs = 0, mut = 0, thr = 0, uniq = 0; void* tr[8] = {};
    if (__tsan_get_report_data) __tsan_get_report_data(rep, &d, &cnt, &st, &mops, &locs, &mut, &thr, &uniq, tr, 8);
    size_t o = snprintf(g_first, sizeof g_first, "%s", d);
    for (int m = 0; m < mops && m < 2; m++)
    {
        int tid, w, a, sz; void* addr; void* t[8] = {}; sz = w = 0;
        __tsan_get_report_mop(rep, m, &tid, &addr, &sz, &w, &a, t, 8);
        o += snprintf(g_first + o, sizeof g_first - o, "; %s of %d bytes at", w ? "write" : "read", sz);
        for (int k = 0; k < 4 && t[k]; k++)
        {
            char b[200] = "?"; __sanitizer_symbolize_pc((char*)t[k] - 1, "%f %S", b, sizeof b);
            if (m == 0 && k == 0) { snprintf(g_func, sizeof g_func, "%s", b); if (char* sp = strchr(g_func, ' ')) *sp = 0; }
            if (o < sizeof g_first) o += snprintf(g_first + o, sizeof g_first - o, " < %s", b);
        }
        if (o >= sizeof g_first) break;
    }
    g_have = 1;
}

// --- events and delays --------------------------------------------------------
// Events are numbered by a relaxed counter, which orders nothing for the race
// detector.
static std::atomic<int64_t> g_clock{0};
struct Thr { Rng r{1}; int id = 0; bool delays = false; int64_t nalloc = 0, fail_at = -1; vector<std::pair<int64_t, int>> ev; string text; };
static thread_local Thr* t_me = nullptr;
static void event(int what) { if (t_me && t_me->delays) t_me->ev.push_back({ g_clock.fetch_add(1, std::memory_order_relaxed), what }); }
static void delay()
{
    if (!t_me || !t_me->delays) return;
    int k = (int)t_me->r.below(20);
    if (k < 8) sched_yield(); else if (k < 11) { struct timespec ts = { 0, (long)t_me->r.range(1, 60) * 1000 }; nanosleep(&ts, 0); } else if (k < 14) { volatile int s = 0; int64_t n = t_me->r.below(3000); for (int64_t i = 0; i < n; i++) s = s + 1; }
}
static bool refuse() { return t_me && t_me->nalloc++ == t_me->fail_at; }
static void* th_malloc(size_t n) { event(1); delay(); if (refuse()) return NULL; void* p = malloc(n); if (p) memset(p, 0xA5, n); return p; }
static void* th_calloc(size_t a, size_t b) { event(2); delay(); if (refuse()) return NULL; return calloc(a, b); }
static void* th_realloc(void* p, size_t n) { event(3); delay(); if (refuse()) return NULL; return realloc(p, n); }
static void th_free(void* p) { event(4); delay(); free(p); }
static int th_printf(const char* f, ...)
{
    char b[2000]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
    if (t_me) { t_me->text += b; event(5); if (t_me->r.pct(10)) delay(); }
    return n;
}

// --- jobs ---------------------------------------------------------------------
struct Shared      // input arrays that several threads read
{
    Pat P; int* p4; int* i4; LL* p8; LL* i8;
    explicit Shared(Pat&& q) : P(std::move(q))
    { p4 = mk<int>(P.p); i4 = mk<int>(P.i); p8 = mk<LL>(P.p); i8 = mk<LL>(P.i); }
    template <class I> static I* mk(const vector<int64_t>& v) { I* a = (I*)malloc(v.size() ? v.size() * sizeof(I) : 1); for (size_t k = 0; k < v.size(); k++) a[k] = (I)v[k]; return a; }
    template <class I> const I* p() const { return (const I*)(sizeof(I) == 4 ? (void*)p4 : (void*)p8); }
    template <class I> const I* i() const { return (const I*)(sizeof(I) == 4 ? (void*)i4 : (void*)i8); }
    template <class I> bool intact(const I* a, const vector<int64_t>& v) const { for (size_t k = 0; k < v.size(); k++) if ((int64_t)a[k] != v[k]) return false; return true; }
    bool intact() const { return intact(p4, P.p) && intact(i4, P.i) && intact(p8, P.p) && intact(i8, P.i); }
    ~Shared() { free(p4); free(i4); free(p8); free(i8); }
    Shared(const Shared&) = delete;
};
enum Kind { K_AMD, K_VALID, K_COL, K_SYM, K_HELP, K_BADAMD, K_BADCOL, NKIND };
static const char* KN[] = { "amd_order", "amd_valid", "colamd", "symamd", "helpers", "amd_order(invalid)", "colamd(invalid)" };
struct Job { Kind k; bool lng; std::shared_ptr<Shared> in; const double* ctl; const double* knob; bool report; int64_t fail_at; int variant; };
struct Res { vector<int64_t> v; string text; bool operator==(const Res& o) const { return v == o.v && text == o.text; } };
static int64_t bits(double d) { int64_t b; memcpy(&b, &d, 8); return b; }
template <class I> static void run(const Job& j, Res& R)
{
    typedef OrdApi<I> O; const Pat& P = j.in->P; I n = (I)P.n, m = (I)P.m; size_t nz = P.nnz();
    switch (j.k)
    {
        case K_AMD: { Arr<I> q(n); double info[AMD_INFO]; for (double& d : info) d = -7; I s = O::amd(n, j.in->p<I>(), j.in->i<I>(), q, (double*)j.ctl, info); R.v.push_back(s);
            for (I k = 0; k < n; k++) R.v.push_back(q[k]); for (double d : info) R.v.push_back(bits(d)); if (j.report) { O::amd_ctl((double*)j.ctl); O::amd_inf(info); } break; }
        case K_BADAMD: { Arr<I> p(P.p), i(P.i), q(n); if (nz && j.variant % 3 == 0) i[(j.variant / 3) % nz] = (I)(n + 3); else if (n > 0) p[(j.variant / 3) % n] = (I)(nz + 1 + j.variant % 2); double info[AMD_INFO]; for (double& d : info) d = -7; R.v.push_back(O::amd(n, p, i, q, (double*)j.ctl, info)); for (double d : info) R.v.push_back(bits(d)); if (j.report) O::amd_inf(info); break; }
        case K_VALID: R.v.push_back(O::valid(m, n, j.in->p<I>(), j.in->i<I>())); break;
        case K_COL: case K_BADCOL:
        {
            size_t al = O::rec((I)nz, m, n); R.v.push_back((int64_t)al); Arr<I> A(al, 0x33), p(P.p); for (size_t k = 0; k < nz; k++) A[k] = (I)P.i[k]; I st[COLAMD_STATS]; for (I& s : st) s = -5;
            if (j.k == K_BADCOL && nz) { if (j.variant % 3 == 0) A[j.variant % nz] = m; else if (j.variant % 3 == 1) p[0] = 1; else al = nz; }
            R.v.push_back(O::col(m, n, (I)al, A, p, (double*)j.knob, st)); if (R.v.back()) for (I k = 0; k <= n; k++) R.v.push_back(p[k]); for (I s : st) R.v.push_back(s); if (j.report) O::col_report(st); break;
        }
        case K_SYM:
        {
            Arr<I> q(n + 1, 0x11); I st[COLAMD_STATS]; for (I& s : st) s = -5; R.v.push_back(O::sym(n, (I*)j.in->i<I>(), (I*)j.in->p<I>(), q, (double*)j.knob, st, th_calloc, th_free));
            if (R.v.back()) for (I k = 0; k <= n; k++) R.v.push_back(q[k]); for (I s : st) R.v.push_back(s); if (j.report) O::sym_report(st); break;
        }
        default:
        {
            double c[AMD_CONTROL], k[COLAMD_KNOBS]; for (double& d : c) d = -3; for (double& d : k) d = -3; O::amd_def(c); O::col_def(k); for (double d : c) R.v.push_back(bits(d)); for (double d : k) R.v.push_back(bits(d));
            R.v.push_back((int64_t)O::rec((I)nz, m, n)); R.v.push_back((int64_t)O::rec((I)-1, m, n)); R.v.push_back((int64_t)O::rec((I)(j.variant), (I)2000000000, (I)2000000000)); if (j.report) O::amd_ctl(j.variant % 2 ? c : NULL);
            break;
        }
    }
}
static Res perform(const Job& j) { Res R; t_me->text.clear(); t_me->nalloc = 0; t_me->fail_at = j.fail_at; if (j.lng) run<LL>(j, R); else run<int>(j, R); t_me->fail_at = -1; R.text = t_me->text; return R; }
void harness_init()
{
    SuiteSparse_config.malloc_func = th_malloc; SuiteSparse_config.calloc_func = th_calloc; SuiteSparse_config.realloc_func = th_realloc; SuiteSparse_config.free_func = th_free; SuiteSparse_config.printf_func = th_printf;
}
void run_case(Ctx& c)
{
    Rng& r = c.rng; Thr me; me.id = 99; t_me = &me; g_races = 0;
    // inputs, settings and jobs
    vector<std::shared_ptr<Shared>> ins, sq; int ni = (int)r.range(1, 4);
    PatOpt o; o.maxm = o.maxn = 40; o.big_pct = 25; o.bigmax = c.thorough ? 400 : 200;
    for (int k = 0; k < ni; k++) { o.square = k == 0 || r.pct(60); ins.push_back(std::make_shared<Shared>(gen_pat(r, o))); if (ins.back()->P.m == ins.back()->P.n) sq.push_back(ins.back()); }
    std::shared_ptr<Knob> kn = std::make_shared<Knob>(gen_knob(r)); std::shared_ptr<Ctl> ct = std::make_shared<Ctl>(gen_ctl(r));
    int nj = (int)r.range(1, 8); vector<Job> jobs; string names;
    for (int k = 0; k < nj; k++)
    {
        Job j; j.k = (Kind)(r.pct(75) ? (int[]){ K_AMD, K_COL, K_SYM }[r.below(3)] : (int)r.below(NKIND)); j.lng = r.pct(50); j.variant = (int)r.below(1000); j.report = r.pct(25);
        j.in = j.k == K_AMD || j.k == K_SYM || j.k == K_BADAMD ? sq[r.below(sq.size())] : ins[r.below(ins.size())]; j.ctl = ct->null ? NULL : ct->c; j.knob = kn->null ? NULL : kn->k; j.fail_at = r.pct(8) ? r.below(4) : -1;
        jobs.push_back(j); names += fmt("%s%s/%ld ", KN[j.k], j.lng ? "_l" : "", (long)j.in->P.n); cnt(string("jobs ") + KN[j.k]);
    }
    int nt = (int)r.range(2, c.thorough ? 8 : 6), per = (int)r.range(1, 4); c.desc = fmt("%d threads, %d calls each, of: %s", nt, per, names.c_str());
    bool before = r.pct(70); vector<Res> ref(nj); if (before) for (int k = 0; k < nj; k++) ref[k] = perform(jobs[k]);
    // concurrent calls
    struct Run { Thr t; vector<int> plan; vector<Res> out; }; vector<Run> R(nt); bool same = r.pct(35);
    for (int t = 0; t < nt; t++) { R[t].t.id = t; R[t].t.r = Rng(r.next()); R[t].t.delays = true; for (int k = 0; k < per; k++) R[t].plan.push_back(same ? k % nj : (int)r.below(nj)); R[t].out.resize(per); R[t].t.ev.reserve(4096); }
    std::atomic<int> ready{0}; g_clock.store(0, std::memory_order_relaxed);
    vector<std::thread> th;
    for (int t = 0; t < nt; t++) th.emplace_back([&, t]() {
        Run& q = R[t]; t_me = &q.t; ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < nt) sched_yield();
        for (int k = 0; k < per; k++) { event(10 + q.plan[k]); q.out[k] = perform(jobs[q.plan[k]]); event(1000 + q.plan[k]); }
        t_me = nullptr; });
    for (auto& t : th) t.join();
    vector<Res> after(nj); for (int k = 0; k < nj; k++) after[k] = perform(jobs[k]);
    if (!before) ref = after;
    // verdict
    if (g_races) c.fail(string("race:") + (g_func[0] ? g_func : "?"), "%ld race report(s): %s", (long)g_races, g_first);
    cnt("race reports", g_races);
    for (int t = 0; t < nt; t++) for (int k = 0; k < per; k++) if (!(R[t].out[k] == ref[R[t].plan[k]])) { c.fail(string("result:") + KN[jobs[R[t].plan[k]].k], "%s gives another result when called concurrently (thread %d, call %d)", KN[jobs[R[t].plan[k]].k], t, k); }
    for (int k = 0; k < nj; k++) if (!(after[k] == ref[k])) c.fail(string("state:") + KN[jobs[k].k], "%s gives another result after the concurrent calls", KN[jobs[k].k]);
    for (auto& s : ins) if (!s->intact()) c.fail("input", "shared input was modified");
    cnt("concurrent calls", (int64_t)nt * per); cnt("threads", nt);
    // the interleaving observed
    vector<std::pair<int64_t, std::pair<int, int>>> all; for (auto& q : R) for (auto& e : q.t.ev) all.push_back({ e.first, { q.t.id, e.second } });
    std::sort(all.begin(), all.end()); Hash h; int64_t sw = 0; for (size_t k = 0; k < all.size(); k++) { h.add(all[k].second.first); h.add(all[k].second.second); if (k && all[k].second.first != all[k - 1].second.first) sw++; }
    cnt("events", all.size()); cnt("switches between threads", sw); int64_t inside = 0; { set<int> open; for (auto& e : all) { if (e.second.second >= 1000) open.erase(e.second.first); else if (e.second.second >= 10) open.insert(e.second.first); if (open.size() > 1) inside++; } } cnt("events while several calls were active", inside);
    if (sw > nt) c.sig(h.h);
    t_me = nullptr;
}

// C20: the memory manager functions against a model of every block.
#include "common.hpp"
void harness_init() {}
// two sets of memory functions that know their own blocks and fail on demand
struct Pool
{
    map<void*, size_t> live; int64_t calls[4] = {0, 0, 0, 0}; int64_t fail_in = -1, fail_n = 0, failed = 0, foreign = 0; size_t last = 0; int fill = 0xA5;
    bool fail() { if (fail_in < 0) return false; if (fail_in > 0) { fail_in--; return false; } if (fail_n > 0) { fail_n--; failed++; return true; } fail_in = -1; return false; }
    void* m(size_t n, bool zero) { last = n; if (n > (size_t)1 << 40 || fail()) return NULL; void* p = malloc(n); if (!p) return NULL; memset(p, zero ? 0 : fill, n); live[p] = n; return p; }
    void* re(void* q, size_t n)
    {
        last = n; if (!q) return m(n, false); auto it = live.find(q); if (it == live.end()) { foreign++; return NULL; }
        if (n > (size_t)1 << 40 || fail()) return NULL;
        void* p = malloc(n); if (!p) return NULL; memset(p, fill, n); memcpy(p, q, std::min(n, it->second)); memset(q, 0xDD, it->second); live.erase(it); free(q); live[p] = n; return p;
    }
    void fr(void* q) { auto it = live.find(q); if (it == live.end()) { foreign++; return; } memset(q, 0xDD, it->second); live.erase(it); free(q); }
};
static Pool g_p[2];
#define SET(k) \
static void* m##k(size_t n) { g_p[k].calls[0]++; return g_p[k].m(n, false); } \
static void* c##k(size_t a, size_t b) { g_p[k].calls[1]++; size_t n; if (__builtin_mul_overflow(a, b, &n)) return NULL; return g_p[k].m(n, true); } \
static void* r##k(void* p, size_t n) { g_p[k].calls[2]++; return g_p[k].re(p, n); } \
static void f##k(void* p) { g_p[k].calls[3]++; g_p[k].fr(p); }
SET(0) SET(1)
struct Fns { void* (*m)(size_t); void* (*c)(size_t, size_t); void* (*r)(void*, size_t); void (*f)(void*); };
static const Fns FN[2] = {{m0, c0, r0, f0}, {m1, c1, r1, f1}};
struct Blk { unsigned char* p; int64_t items; size_t item; uint64_t tag; size_t bytes() const { return (size_t)items * item; } };
static unsigned char pat(uint64_t tag, size_t k) { return (unsigned char)(tag + k * 131 + (k >> 8) * 7); }
struct Run
{
    Ctx& c; Rng& r; int set = 0; bool slip; vector<Blk> b; string trace; Hash h;
    Run(Ctx& x, bool s) : c(x), r(x.rng), slip(s) {}
    Pool& P() { return g_p[set]; }
    void bad(const char* key, const string& what) { c.fail(key, "%s; history %s", what.c_str(), trace.c_str()); }
    void fillb(Blk& x) { for (size_t k = 0; k < x.bytes(); k++) x.p[k] = pat(x.tag, k); }
    bool intact(const Blk& x, size_t n) { for (size_t k = 0; k < n; k++) if (x.p[k] != pat(x.tag, k)) return false; return true; }
    void all(const char* after) { for (auto& x : b) { cnt("blocks verified"); if (!intact(x, x.bytes())) { bad("contents", fmt("%s changed a block of %ld x %zu bytes", after, (long)x.items, x.item)); fillb(x); } } }
    // a new block of at least n bytes from the configured functions
    void fresh(const char* who, void* p, size_t n, bool zero, bool ok_expected, bool huge)
    {
        cnt("allocations");
        if (!ok_expected || huge) { cnt(huge ? "huge requests" : "failed requests"); if (p) bad("not_null", fmt("%s returned a block although %s", who, huge ? "the size is impossible" : "memory ran out")); return; }
        if (!p) { bad("null", fmt("%s of %zu bytes returned NULL although memory is available", who, n)); return; }
        auto it = P().live.find(p);
        if (it == P().live.end()) { bad("source", fmt("%s of %zu bytes is not a block of the configured functions", who, n)); return; }
        if (it->second < std::max<size_t>(n, 1)) bad("short", fmt("%s of %zu bytes got %zu bytes", who, n, it->second));
        if ((uintptr_t)p % 16) bad("align", fmt("%s returned a misaligned block", who));
        if (zero) for (size_t k = 0; k < n; k++) if (((unsigned char*)p)[k]) { bad("not_zero", fmt("%s of %zu bytes is not zeroed (byte %zu)", who, n, k)); break; }
    }
    size_t item() { static const size_t S[] = {1, 1, 2, 4, 8, 8, 16, 24, 3, 7, 100}; return S[r.below(11)]; }
    int64_t count() { return r.pct(10) ? 0 : r.pct(15) ? 1 : r.pct(4) ? r.range(200, 1500) : r.range(1, 60); }
    bool arm(int pct) { if (!r.pct(pct)) { P().fail_in = -1; return false; } P().fail_in = 0; P().fail_n = 1000000; return true; }
    void disarm() { P().fail_in = -1; P().fail_n = 0; }
    void huge(int64_t& a, size_t& s, bool& wrap)       // a request that cannot be satisfied: overflowing or absurd
    {
        wrap = true;
        switch (r.below(7))
        {
            // products that wrap to a small size which still is larger than either factor suggests
            case 5: { int k = (int)r.range(1, 12); a = (int64_t)1 << k; s = ((size_t)1 << (64 - k)) + (size_t)r.range(1, 200); break; }
            case 6: { int k = (int)r.range(2, 12); s = (size_t)1 << k; a = (int64_t)((1ull << (64 - k)) + (uint64_t)r.range(1, 200)); break; }
            case 0: s = 8; a = (int64_t)((1ull << 61) + (uint64_t)r.below(5)); break;         // product just above 2^64
            case 1: s = (size_t)1 << 40; a = (int64_t)(1 << 25); break;
            case 2: s = 16; a = (int64_t)((1ull << 60) + 1); break;
            case 3: s = (size_t)r.range(3, 1000) | 1; a = (int64_t)(~0ull / s + 1); if (a < 0) a = INT64_MAX; break;
            default: s = 1; a = (int64_t)1 << 50; wrap = false; break;
        }
    }
    void step()
    {
        int k = (int)r.below(12); const char* pre = slip ? "SLIP" : "SuiteSparse"; int64_t f0 = P().foreign;
        if (k < 2 || b.empty())
        {
            int64_t n = count(); size_t s = item(); if (r.below(150) == 0) { s = (size_t)r.range(100, r.pct(3) ? 70000 : 6000); n = r.range(0, 2); } bool hg = r.pct(6), w; if (hg) huge(n, s, w); bool dead = arm(12); void* p;
            if (slip) { size_t bytes = (size_t)n * s; if (hg) bytes = ((size_t)1 << 50) + (size_t)n % 7; p = SL(SLIP_malloc(bytes)); } else p = SuiteSparse_malloc((size_t)n, s);
            disarm(); trace += fmt("malloc(%ld,%zu)%s ", (long)n, s, dead ? "!" : ""); fresh(fmt("%s_malloc(%ld x %zu)", pre, (long)n, s).c_str(), p, hg ? 0 : (size_t)n * s, false, !dead, hg); if (p && !hg && !dead) { Blk x{(unsigned char*)p, n, s, r.next()}; fillb(x); b.push_back(x); } h.add(1);
        }
        else if (k < 4)
        {
            int64_t n = count(); size_t s = item(); if (r.below(150) == 0) { s = (size_t)r.range(100, r.pct(3) ? 70000 : 6000); n = r.range(0, 2); } bool hg = r.pct(6), w; if (hg) huge(n, s, w); bool dead = arm(12);
            void* p = slip ? SL(SLIP_calloc((size_t)n, s)) : SuiteSparse_calloc((size_t)n, s);
            disarm(); trace += fmt("calloc(%ld,%zu)%s ", (long)n, s, dead ? "!" : ""); fresh(fmt("%s_calloc(%ld x %zu)", pre, (long)n, s).c_str(), p, hg ? 0 : (size_t)n * s, true, !dead, hg); if (p && !hg && !dead) { Blk x{(unsigned char*)p, n, s, r.next()}; fillb(x); b.push_back(x); } h.add(2);
        }
        else if (k < 9)
        {
            size_t q = r.below(b.size()); Blk& x = b[q]; bool isnull = r.pct(10); Blk y{NULL, count(), item(), 0}; Blk& o = isnull ? y : x;
            int64_t nw = r.pct(15) ? o.items : r.pct(40) ? r.range(0, o.items + 1) : count(); bool hg = r.pct(5), w = false; size_t s = o.item;
            if (hg && isnull && r.pct(60)) { huge(nw, s, w); }
            else if (hg) { nw = s == 1 ? (int64_t)1 << 50 : (int64_t)(~0ull / s + 1 + (uint64_t)r.below(9)); if (nw < 0) nw = (int64_t)1 << 58; w = true; }
            bool dead = arm(30); bool same = !isnull && nw == o.items, shrink = !isnull && nw < o.items; unsigned char* old = o.p; void* p; bool ok;
            if (slip) { ok = r.pct(50); p = SL(SLIP_realloc(nw, o.items, s, old, &ok)); } else { int okk = 7; p = SuiteSparse_realloc((size_t)nw, (size_t)o.items, s, old, &okk); if (okk != 0 && okk != 1) bad("ok", fmt("SuiteSparse_realloc set ok to %d", okk)); ok = okk != 0; }
            disarm(); trace += fmt("realloc(%ld<-%ld,%zu%s)%s ", (long)nw, (long)o.items, s, isnull ? ",NULL" : "", dead ? "!" : ""); (void)w;
            string who = fmt("%s_realloc(%ld <- %ld x %zu%s)", pre, (long)nw, (long)o.items, s, isnull ? ", NULL" : "");
            if (hg) { cnt("huge requests"); if (ok) bad("realloc:huge", who + " claims success"); if (p != old) { bad("realloc:lost", who + " failed and returned another pointer"); return; } if (!isnull && !intact(o, o.bytes())) bad("realloc:damaged", who + " failed and changed the block"); return; }
            bool must = !dead || same || shrink;       // shrinking and staying always succeed
            if (ok != must && !(dead && ok && !isnull && nw * s <= 1)) bad(must ? "realloc:refused" : "realloc:claimed", who + (must ? (dead ? " must succeed even if memory ran out" : " failed although memory is available") : " claims success although memory ran out"));
            if (!ok)
            {
                cnt("reallocs refused"); if (p != old) { bad("realloc:lost", who + " failed and returned another pointer"); if (!isnull) b.erase(b.begin() + q); return; }
                if (!isnull) { if (!P().live.count(old)) { bad("realloc:freed", who + " failed and freed the block"); b.erase(b.begin() + q); return; } if (!intact(o, o.bytes())) bad("realloc:damaged", who + " failed and changed the block"); }
                return;
            }
            cnt(isnull ? "reallocs of NULL" : shrink ? (dead ? "shrinks out of memory" : "shrinks") : same ? "reallocs to the same size" : "grows");
            if (!p) { bad("realloc:null", who + " claims success and returns NULL"); if (!isnull) b.erase(b.begin() + q); return; }
            auto it = P().live.find(p); if (it == P().live.end()) { bad("source", who + " is not a block of the configured functions"); if (!isnull) b.erase(b.begin() + q); return; }
            if (it->second < std::max<size_t>((size_t)nw * s, 1)) { bad("short", who + fmt(" got %zu bytes", it->second)); }
            if ((uintptr_t)p % 16) bad("align", who + " returned a misaligned block");
            if (isnull) { Blk z{(unsigned char*)p, nw, s, r.next()}; if (it->second < z.bytes()) z.items = (int64_t)(it->second / s); fillb(z); b.push_back(z); }
            else
            {
                x.p = (unsigned char*)p; if (!intact(x, std::min((size_t)nw, (size_t)x.items) * s)) bad("realloc:contents", who + " did not preserve the contents");
                x.items = nw; if (it->second < x.bytes()) x.items = (int64_t)(it->second / s); x.tag = r.next(); fillb(x);
            }
            h.add(3 + shrink + 2 * same);
        }
        else if (k < 11)
        {
            size_t q = r.below(b.size()); void* p = b[q].p; int64_t n = (int64_t)P().live.size(); if (r.pct(10)) arm(100);
            if (slip) { SlipMode sm; if (r.pct(50)) { SLIP_FREE(p); if (p) bad("free:macro", "SLIP_FREE did not clear the pointer"); } else SLIP_free(p); } else if (SuiteSparse_free(p) != NULL) bad("free:value", "SuiteSparse_free did not return NULL");
            disarm(); if ((int64_t)P().live.size() != n - 1 || P().live.count(b[q].p)) bad("free:kept", "freeing a block did not free it"); trace += "free "; b.erase(b.begin() + q); cnt("frees"); h.add(9);
        }
        else
        {
            int64_t n = (int64_t)P().live.size(), cl = P().calls[3]; if (slip) { SlipMode sm; SLIP_free(NULL); } else if (SuiteSparse_free(NULL) != NULL) bad("free:value", "SuiteSparse_free(NULL) did not return NULL");
            (void)cl; if ((int64_t)P().live.size() != n) bad("free:null", "freeing NULL freed a block"); trace += "free(NULL) "; cnt("frees of NULL"); h.add(10);
        }
        if (P().foreign != f0) bad("foreign", "a pointer that is no block was freed or reallocated");
        if (trace.size() > 1200) trace = trace.substr(500);
    }
    void drop() { while (!b.empty()) { if (slip) { SlipMode sm; SLIP_free(b.back().p); } else SuiteSparse_free(b.back().p); b.pop_back(); } }
};
static void outside(Ctx& c)     // no session: nothing is allocated, freed or touched
{
    Rng& r = c.rng; g_p[0] = Pool(); auto& cfg = SuiteSparse_config; cfg.malloc_func = m0; cfg.calloc_func = c0; cfg.realloc_func = r0; cfg.free_func = f0;
    unsigned char* p = (unsigned char*)m0(40); memset(p, 7, 40); int64_t cl = g_p[0].calls[0] + g_p[0].calls[1] + g_p[0].calls[2] + g_p[0].calls[3]; bool ok = true;
    if (SL(SLIP_malloc(r.below(100)))) c.fail("outside:malloc", "SLIP_malloc without a session returned a block");
    if (SL(SLIP_calloc(r.below(9), r.below(9)))) c.fail("outside:calloc", "SLIP_calloc without a session returned a block");
    int64_t nw = r.below(90); if (SL(SLIP_realloc(nw, 40, 1, p, &ok)) != p || ok) c.fail("outside:realloc", "SLIP_realloc without a session did not refuse");
    ok = true; if (SL(SLIP_realloc(nw, 0, 1, NULL, &ok)) || ok) c.fail("outside:realloc", "SLIP_realloc of NULL without a session did not refuse");
    { SlipMode sm; SLIP_free(p); SLIP_free(NULL); }
    if (g_p[0].calls[0] + g_p[0].calls[1] + g_p[0].calls[2] + g_p[0].calls[3] != cl || !g_p[0].live.count(p)) c.fail("outside:used", "a SLIP memory function used the memory manager without a session");
    else for (int k = 0; k < 40; k++) if (p[k] != 7) { c.fail("outside:touched", "a SLIP memory function changed a block without a session"); break; }
    cnt("calls outside a session", 6); if (g_p[0].live.count(p)) f0(p);
}
void run_case(Ctx& c)
{
    Rng& r = c.rng; bool slip = r.pct(60); auto saved = SuiteSparse_config; Run R(c, slip); g_p[0] = Pool(); g_p[1] = Pool(); g_p[0].fill = (int)r.below(256); g_p[1].fill = (int)r.below(256);
    if (r.pct(15)) outside(c);
    int rounds = (int)r.range(1, 3);
    for (int t = 0; t < rounds; t++)
    {
        R.set = (int)r.below(2); Pool& P = g_p[R.set]; P.foreign = 0; const Fns& f = FN[R.set]; int64_t other = 0; for (int64_t x : g_p[1 - R.set].calls) other += x;
        if (slip) { if (SL(SLIP_initialize_expert(f.m, f.c, f.r, f.f)) != SLIP_OK) { c.fail("init", "no session"); break; } }
        else { SuiteSparse_config.malloc_func = f.m; SuiteSparse_config.calloc_func = f.c; SuiteSparse_config.realloc_func = f.r; SuiteSparse_config.free_func = f.f; }
        int n = (int)r.range(20, 120); for (int k = 0; k < n; k++) { R.step(); if (r.pct(25)) R.all("another call"); }
        R.all("the last call"); R.drop();
        if (slip && SL(SLIP_finalize()) != SLIP_OK) c.fail("finalize", "the session cannot be closed");
        for (auto& x : P.live) { c.fail("leak", "a block of %zu bytes is left; history %s", x.second, R.trace.c_str()); break; }
        if (P.foreign) c.fail("foreign", "a pointer that is no block was freed; history %s", R.trace.c_str());
        for (int64_t x : g_p[1 - R.set].calls) other -= x;
        if (other) c.fail("source", "memory functions that are not configured were called; history %s", R.trace.c_str());
        for (auto& x : P.live) free(x.first); P.live.clear(); cnt("sessions"); R.h.add(77);
    }
    c.desc = (slip ? "SLIP " : "SuiteSparse ") + R.trace.substr(0, 200); c.sig(R.h.h);
    SuiteSparse_config = saved;
}

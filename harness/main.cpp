#include "common.hpp"
#include <malloc.h>
Stats g_stats;
MemFns g_def, g_slip;
Track g_tr;
int64_t g_raw_calls = 0;
bool g_raw_watch = false;

// --- redirected allocator calls of the library objects ----------------------
extern "C" {
void* vp_raw_malloc(size_t n) { if (g_raw_watch) g_raw_calls++; return malloc(n); }
void* vp_raw_calloc(size_t a, size_t b) { if (g_raw_watch) g_raw_calls++; return calloc(a, b); }
void* vp_raw_realloc(void* p, size_t n) { if (g_raw_watch) g_raw_calls++; return realloc(p, n); }
void vp_raw_free(void* p) { if (g_raw_watch) g_raw_calls++; free(p); }
}
static bool must_fail()
{
    int64_t k = g_tr.nalloc++;
    if (g_tr.inject && k >= g_tr.fail_at && k - g_tr.fail_at < g_tr.fail_n) { g_tr.failed++; return true; }
    return false;
}
static void note(void* p, size_t n)
{ if (p) { g_tr.live[p] = n; g_tr.bytes += n; if (g_tr.bytes > g_tr.peak) g_tr.peak = g_tr.bytes; } }
void* tr_malloc(size_t n)
{
    if (must_fail()) return NULL;
    void* p = malloc(n);
    if (p && g_tr.fill) memset(p, 0xA5, n);         // never hand out zeros by luck
    note(p, n); return p;
}
void* tr_calloc(size_t a, size_t b)
{ if (must_fail()) return NULL; void* p = calloc(a, b); note(p, a * b); return p; }
void* tr_realloc(void* q, size_t n)
{
    if (must_fail()) return NULL;
    if (!q) { void* p = malloc(n); note(p, n); return p; }
    auto it = g_tr.live.find(q);
    if (it == g_tr.live.end()) { g_tr.bad_realloc++; return NULL; }
    size_t old = it->second;
    // always move, so that stale pointers are noticed
    void* p = malloc(n); if (!p) return NULL;
    memset(p, 0xA5, n);
    memcpy(p, q, old < n ? old : n);
    g_tr.live.erase(it); g_tr.bytes -= old; g_tr.nfree++; free(q);
    note(p, n);
    return p;
}
void tr_free(void* p)
{
    if (!p) return;
    auto it = g_tr.live.find(p);
    if (it == g_tr.live.end()) { g_tr.bad_free++; return; }
    g_tr.bytes -= it->second; g_tr.live.erase(it); g_tr.nfree++;
    free(p);
}

void Ctx::fail(const string& key, const char* f, ...)
{
    char b[3000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    failed = true;
    static map<string, int> told; if (++told[key] > 2) return;      // a few of each kind are enough
    g_stats.viol++;
    string s = string("V\t") + std::to_string(id) + "\t" + key + "\t" + b + " | " + desc;
    for (auto& ch : s) if (ch == '\n') ch = ' ';
    s += "\n";
    fflush(stdout);
    // stdout of the process may be under test: report on the channel given by the driver
    extern int g_report_fd;
    if (write(g_report_fd, s.data(), s.size()) < 0) _exit(3);
}
int g_report_fd = 1;

int main(int argc, char** argv)
{
    string prop = "C00", tier = "quick", stats, progress, report;
    uint64_t seed = 1; int64_t from = 0, to = 1; bool verbose = false;
    for (int k = 1; k + 1 < argc; k += 2)
    {
        string a = argv[k], v = argv[k + 1];
        if (a == "--prop") prop = v; else if (a == "--tier") tier = v;
        else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--from") from = atoll(v.c_str());
        else if (a == "--to") to = atoll(v.c_str());
        else if (a == "--stats") stats = v;
        else if (a == "--progress") progress = v;
        else if (a == "--report") report = v;
        else if (a == "--verbose") verbose = v == "1";
    }
    mp_get_memory_functions(&g_def.a, &g_def.r, &g_def.f);
    g_slip = g_def;
    if (!report.empty()) g_report_fd = open(report.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    int pf = progress.empty() ? -1 : open(progress.c_str(), O_WRONLY | O_CREAT, 0644);
    harness_init();
    auto pristine = SuiteSparse_config;         // a session may have replaced the functions
    for (int64_t id = from; id < to; id++)
    {
        if (pf >= 0 && pwrite(pf, &id, 8, 0) != 8) return 3;
        Ctx c; c.prop = prop; c.tier = tier; c.seed = seed; c.id = id;
        c.thorough = tier == "thorough"; c.verbose = verbose;
        Hash h; h.add(seed); h.adds(prop); h.add((uint64_t)id);
        c.rng = Rng(h.h);
        SuiteSparse_config = pristine;
        run_case(c);
        cnt("cases");
        if (verbose) printf("case %ld: %s\n", (long)id, c.desc.c_str());
        if (id - from < 3) c.sample();
        if (g_stats.viol > 40) break;
    }
    if (!stats.empty())
    {
        FILE* f = fopen(stats.c_str(), "w");
        if (!f) return 3;
        for (auto& kv : g_stats.count) fprintf(f, "C\t%s\t%ld\n", kv.first.c_str(), (long)kv.second);
        for (auto h : g_stats.sigs) fprintf(f, "D\t%016lx\n", (unsigned long)h);
        for (auto& s : g_stats.samples) { string t = s; for (auto& ch : t) if (ch == '\n' || ch == '\t') ch = ' '; fprintf(f, "S\t%s\n", t.c_str()); }
        fclose(f);
    }
    return 0;
}

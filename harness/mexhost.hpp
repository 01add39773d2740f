// A stand-in for MATLAB: arrays, memory that the host reclaims, errors that
// end the gateway.  It watches every block and array of a call.
#pragma once
#include "common.hpp"
#include <setjmp.h>
#include <set>
#include "mex/mex.h"
enum MCls { MX_DOUBLE, MX_LOGICAL, MX_INT32, MX_CHAR, MX_CELL, MX_STRUCT };
struct mxArray_tag
{
    MCls cls = MX_DOUBLE; bool sparse = false, complex = false; size_t m = 0, n = 0; size_t ndim = 2;
    void* data = NULL; size_t bytes = 0; size_t *ir = NULL, *jc = NULL; size_t nzmax = 0;
    string str; vector<mxArray_tag*> cell; map<string, mxArray_tag*> field; bool input = false;
};
struct Host
{
    map<void*, size_t> live; std::set<mxArray*> arrays; int64_t printed = 0, allocs = 0, fail_at = -1, bad = 0; string badmsg, error, text; bool inside = false;
    jmp_buf jb; vector<mxArray*> inputs;
};
static Host g_h;
static void host_bad(const char* s) { if (!g_h.bad++) g_h.badmsg = s; }
extern "C" {
static void* host_alloc(size_t n, bool zero)
{
    if (!g_h.inside) { host_bad("memory is requested outside a call"); }
    if (g_h.allocs++ == g_h.fail_at) { g_h.error = "Out of memory."; longjmp(g_h.jb, 1); }
    void* p = n > ((size_t)1 << 32) ? NULL : malloc(n ? n : 1); if (!p) { g_h.error = "Out of memory."; longjmp(g_h.jb, 1); }
    memset(p, zero ? 0 : 0xA5, n ? n : 1); g_h.live[p] = n; return p;
}
void* mxMalloc(size_t n) { return host_alloc(n, false); }
void* mxCalloc(size_t n, size_t s) { if (s && n > SIZE_MAX / s) { g_h.error = "Out of memory."; longjmp(g_h.jb, 1); } return host_alloc(n * s, true); }
void mxFree(void* p) { if (!p) return; auto it = g_h.live.find(p); if (it == g_h.live.end()) { host_bad("mxFree of a block that is not from mxMalloc, or not any more"); return; } g_h.live.erase(it); free(p); }
void* mxRealloc(void* p, size_t n)
{
    if (!p) return mxMalloc(n); auto it = g_h.live.find(p); if (it == g_h.live.end()) { host_bad("mxRealloc of a foreign block"); return NULL; }
    size_t old = it->second; void* q = host_alloc(n, false); memcpy(q, p, old < n ? old : n); mxFree(p); return q;
}
int mexPrintf(const char* f, ...) { char b[4096]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); g_h.printed++; if (g_h.text.size() < 100000) g_h.text += b; return n; }
void mexErrMsgTxt(const char* s) { g_h.error = s && *s ? s : "(empty message)"; longjmp(g_h.jb, 1); }
static mxArray* host_array(MCls c, size_t m, size_t n) { mxArray* a = new mxArray; a->cls = c; a->m = m; a->n = n; g_h.arrays.insert(a); return a; }
mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity) { size_t k = m * n; void* p = k ? host_alloc(k * sizeof(double), true) : NULL; mxArray* a = host_array(MX_DOUBLE, m, n); a->data = p; a->bytes = k * 8; return a; }
mxArray* mxCreateCellMatrix(mwSize m, mwSize n) { mxArray* a = host_array(MX_CELL, m, n); a->cell.assign(m * n, NULL); return a; }
mxArray* mxCreateString(const char* s) { mxArray* a = host_array(MX_CHAR, 1, strlen(s)); a->str = s; return a; }
void mxDestroyArray(mxArray* a)
{
    if (!a) return; if (!g_h.arrays.count(a)) { host_bad("mxDestroyArray of an input or of a destroyed array"); return; }
    g_h.arrays.erase(a); mxFree(a->data); mxFree(a->ir); mxFree(a->jc); for (auto c : a->cell) mxDestroyArray(c); delete a;
}
mxDouble* mxGetDoubles(const mxArray* a) { return a->cls == MX_DOUBLE && !a->complex ? (double*)a->data : NULL; }
double* mxGetPr(const mxArray* a) { return a->cls == MX_DOUBLE ? (double*)a->data : NULL; }
int mxSetDoubles(mxArray* a, mxDouble* p) { if (a->input) host_bad("an input is changed"); if (p && !g_h.live.count(p)) host_bad("mxSetDoubles with memory that is not from mxMalloc"); a->data = p; a->bytes = p ? g_h.live[p] : 0; return 1; }
mwIndex* mxGetIr(const mxArray* a) { return a->sparse ? a->ir : NULL; }
mwIndex* mxGetJc(const mxArray* a) { return a->sparse ? a->jc : NULL; }
size_t mxGetM(const mxArray* a) { return a->m; }
size_t mxGetN(const mxArray* a) { return a->n; }
void mxSetM(mxArray* a, mwSize m) { if (a->input) host_bad("an input is changed"); a->m = m; }
void mxSetN(mxArray* a, mwSize n) { if (a->input) host_bad("an input is changed"); a->n = n; }
mwSize mxGetNumberOfDimensions(const mxArray* a) { return a->ndim; }
size_t mxGetNumberOfElements(const mxArray* a) { return a->cls == MX_CHAR ? a->str.size() : a->m * a->n; }
mxArray* mxGetField(const mxArray* a, mwIndex k, const char* f) { if (a->cls != MX_STRUCT || k >= a->m * a->n) return NULL; auto it = a->field.find(f); return it == a->field.end() ? NULL : it->second; }
double mxGetScalar(const mxArray* a) { if (a->cls == MX_CHAR) return a->str.empty() ? 0 : a->str[0]; if (!a->data || a->bytes < 8) { return 0; } return *(double*)a->data; }
int mxGetString(const mxArray* a, char* s, mwSize len) { if (a->cls != MX_CHAR || !len) return 1; size_t k = a->str.size() < len - 1 ? a->str.size() : len - 1; memcpy(s, a->str.data(), k); s[k] = 0; return a->str.size() > len - 1; }
bool mxIsChar(const mxArray* a) { return a->cls == MX_CHAR; }
bool mxIsComplex(const mxArray* a) { return a->complex; }
bool mxIsEmpty(const mxArray* a) { return a->m == 0 || a->n == 0; }
bool mxIsSparse(const mxArray* a) { return a->sparse; }
bool mxIsStruct(const mxArray* a) { return a->cls == MX_STRUCT; }
bool mxIsInf(double x) { return std::isinf(x); }
bool mxIsNaN(double x) { return std::isnan(x); }
void mxSetCell(mxArray* a, mwIndex k, mxArray* v) { if (k >= a->cell.size()) { host_bad("mxSetCell out of range"); return; } a->cell[k] = v; }
int mexCallMATLAB(int nl, mxArray* pl[], int nr, mxArray* pr[], const char* name)
{
    if (nl != 1 || nr < 1 || strcmp(name, "sparse")) { host_bad("unexpected MATLAB function"); return 1; }
    mxArray* f = pr[0]; mxArray* a = host_array(MX_DOUBLE, f->m, f->n); a->sparse = true; const double* x = (const double*)f->data; size_t nz = 0;
    for (size_t k = 0; k < f->m * f->n; k++) nz += x[k] != 0;
    a->nzmax = nz ? nz : 1; a->jc = (size_t*)host_alloc((f->n + 1) * 8, true); a->ir = (size_t*)host_alloc(a->nzmax * 8, true); a->data = host_alloc(a->nzmax * 8, true); a->bytes = a->nzmax * 8;
    nz = 0; for (size_t j = 0; j < f->n; j++) { for (size_t i = 0; i < f->m; i++) if (x[i + j * f->m] != 0) { a->ir[nz] = i; ((double*)a->data)[nz++] = x[i + j * f->m]; } a->jc[j + 1] = nz; }
    pl[0] = a; return 0;
}
}
// --- arrays of the workspace of the user (never touched by the host) --------
static mxArray* in_array(MCls c, size_t m, size_t n) { mxArray* a = new mxArray; a->cls = c; a->m = m; a->n = n; a->input = true; g_h.inputs.push_back(a); return a; }
static void* in_data(size_t b) { return malloc(b ? b : 1); }
static mxArray* in_full(const vector<double>& x, size_t m, size_t n) { mxArray* a = in_array(MX_DOUBLE, m, n); if (!x.empty()) { a->bytes = x.size() * 8; a->data = in_data(a->bytes); memcpy(a->data, x.data(), a->bytes); } return a; }
static mxArray* in_sparse(size_t m, size_t n, const vector<int64_t>& p, const vector<int64_t>& i, const vector<double>& x, size_t extra = 0)
{
    mxArray* a = in_array(MX_DOUBLE, m, n); a->sparse = true; a->nzmax = std::max<size_t>(1, i.size() + extra); a->jc = (size_t*)in_data((n + 1) * 8); a->ir = (size_t*)in_data(a->nzmax * 8); a->bytes = a->nzmax * 8; a->data = in_data(a->bytes);
    memset(a->ir, 0x77, a->nzmax * 8); memset(a->data, 0x77, a->bytes); for (size_t k = 0; k <= n; k++) a->jc[k] = p[k]; for (size_t k = 0; k < i.size(); k++) { a->ir[k] = i[k]; ((double*)a->data)[k] = x[k]; }
    return a;
}
static mxArray* in_scalar(double x) { return in_full({ x }, 1, 1); }
static mxArray* in_string(const string& s) { mxArray* a = in_array(MX_CHAR, s.empty() ? 0 : 1, s.size()); a->str = s; return a; }
static mxArray* in_struct() { return in_array(MX_STRUCT, 1, 1); }
static void hbytes(Hash& h, const void* p, size_t n) { for (size_t k = 0; k < n; k++) h.add(((const unsigned char*)p)[k]); }
static uint64_t in_digest() { Hash h; for (auto a : g_h.inputs) { h.add(a->m); h.add(a->n); h.adds(a->str); if (a->data) hbytes(h, a->data, a->bytes); if (a->jc) { hbytes(h, a->jc, (a->n + 1) * 8); hbytes(h, a->ir, a->nzmax * 8); } } return h.h; }
static void in_clear() { for (auto a : g_h.inputs) { free(a->data); free(a->ir); free(a->jc); delete a; } g_h.inputs.clear(); }
// --- one call of a gateway ---------------------------------------------------
typedef void (*MexFn)(int, mxArray**, int, const mxArray**);
static MemFns g_mexgmp; static bool g_mexgmp_set = false;
struct MexRes { bool error = false; string msg; vector<mxArray*> out; size_t left = 0; };
static void reach(mxArray* a, std::set<void*>& keep, std::set<mxArray*>& ka) { if (!a || !ka.insert(a).second) return; keep.insert(a->data); keep.insert(a->ir); keep.insert(a->jc); for (auto c : a->cell) reach(c, keep, ka); }
static MexRes mex_call(MexFn f, int nargout, const vector<mxArray*>& in, int64_t fail_at = -1)
{
    MexRes R; static mxArray* out[8]; static const mxArray* arg[8]; for (auto& o : out) o = NULL; for (size_t k = 0; k < in.size() && k < 8; k++) arg[k] = in[k];
    g_h.printed = g_h.allocs = 0; g_h.fail_at = fail_at; g_h.error = ""; g_h.text = ""; g_h.inside = true;
    if (g_mexgmp_set) mp_set_memory_functions(g_mexgmp.a, g_mexgmp.r, g_mexgmp.f);
    volatile bool err = false; if (setjmp(g_h.jb) == 0) f(nargout, out, (int)in.size(), arg); else err = true;
    mp_get_memory_functions(&g_mexgmp.a, &g_mexgmp.r, &g_mexgmp.f); g_mexgmp_set = true; mp_set_memory_functions(g_def.a, g_def.r, g_def.f);
    g_h.inside = false; g_h.fail_at = -1; R.error = err; R.msg = g_h.error;
    std::set<void*> keep; std::set<mxArray*> ka; if (!err) for (int k = 0; k < std::max(1, nargout); k++) { R.out.push_back(out[k]); reach(out[k], keep, ka); }
    for (auto a : ka) if (!a->input && !g_h.arrays.count(a)) host_bad("an output is not an array of the host");
    for (auto& b : g_h.live) if (!keep.count(b.first)) R.left++;
    for (auto a : g_h.arrays) if (!ka.count(a)) R.left++;
    return R;
}
// the host reclaims everything
static void mex_reclaim() { for (auto& b : g_h.live) free(b.first); g_h.live.clear(); for (auto a : g_h.arrays) delete a; g_h.arrays.clear(); }

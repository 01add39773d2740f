// C27: the MATLAB gateways (SLIP_mex_soln, amd, colamd, symamd) run inside a
// stand-in for MATLAB that watches arrays, memory, errors and printing.
#include "factor.hpp"
#include "ord.hpp"
#include "mexhost.hpp"
extern "C" { void slip_mex(int, mxArray**, int, const mxArray**); void amd_mex(int, mxArray**, int, const mxArray**); void colamd_mex(int, mxArray**, int, const mxArray**); void symamd_mex(int, mxArray**, int, const mxArray**); bool slip_initialized(void); }
void harness_init() { SuiteSparse_config.printf_func = mexPrintf; }
// the options that reach the library
struct Seen { int analyses = 0, factorizations = 0; SLIP_options o; bool used = false; }; static Seen g_seen;
static void see(const SLIP_options* o) { g_seen.used = true; if (o) g_seen.o = *o; else { g_seen.o.order = SLIP_COLAMD; g_seen.o.pivot = SLIP_TOL_SMALLEST; g_seen.o.tol = 0.1; g_seen.o.print_level = 0; } }
extern "C" {
SLIP_info __real_SLIP_LU_analyze(SLIP_LU_analysis**, const SLIP_matrix*, const SLIP_options*);
SLIP_info __wrap_SLIP_LU_analyze(SLIP_LU_analysis** S, const SLIP_matrix* A, const SLIP_options* o) { g_seen.analyses++; see(o); return __real_SLIP_LU_analyze(S, A, o); }
SLIP_info __real_SLIP_LU_factorize(SLIP_matrix**, SLIP_matrix**, SLIP_matrix**, int64_t**, const SLIP_matrix*, const SLIP_LU_analysis*, const SLIP_options*);
SLIP_info __wrap_SLIP_LU_factorize(SLIP_matrix** L, SLIP_matrix** U, SLIP_matrix** h, int64_t** p, const SLIP_matrix* A, const SLIP_LU_analysis* S, const SLIP_options* o) { g_seen.factorizations++; see(o); return __real_SLIP_LU_factorize(L, U, h, p, A, S, o); }
}
// what the documented conversion makes of doubles: integers stay, anything else
// is scaled by 10^17 and rounded to the nearest integer
static bool is_int64(double x) { return x >= -9223372036854775808.0 && x < 9223372036854775808.0 && x == std::trunc(x); }
static Q convert(const vector<double>& v, vector<Z>& z)
{
    bool all = true; for (double x : v) if (!is_int64(x)) all = false; z.clear(); Z s = 1; if (!all) for (int k = 0; k < 17; k++) s *= 10;
    for (double x : v) { Q q(x); q *= s; Z f; mpz_fdiv_q(f.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); Q d = q - Q(f); int c = cmp(d, Q(1, 2)); if (c > 0 || (c == 0 && mpz_odd_p(f.get_mpz_t()))) f += 1; z.push_back(f); }
    return Q(s);
}
static double gen_double(Rng& r, int kind)
{
    static const double edge[] = { 9007199254740992.0, 9007199254740993.0, 9223372036854775807.0, -9223372036854775808.0, 1.8446744073709552e19, 4611686018427387904.0, 1e18, 1e19, -9223372036854777856.0, 9223372036854774784.0, 0.1, 1e-17, 4.9e-18, 5.1e-18, 1e-300, 1e100 };
    double x; switch (kind) { case 0: x = (double)r.range(1, 9); break; case 1: x = (double)r.range(1, 1000000); break; case 2: x = (double)r.range(1, 9999) / 100; break; case 3: x = (double)(r.next() >> 11) * 0x1p-53; break; case 4: x = std::ldexp((double)(r.next() >> 11), (int)r.range(-70, 40)); break; case 5: x = edge[r.below(16)]; break; default: x = std::ldexp(1.0, (int)r.range(-8, 70)); }
    return r.pct(45) ? -x : x;
}
static string show(const vector<double>& v) { string s; for (size_t k = 0; k < v.size() && k < 30; k++) s += fmt("%.17g,", v[k]); return s; }
struct SysIn { int64_t n = 0, nr = 1; vector<int64_t> p, i; vector<double> ax, b; MatZ M; Q as, bs; vector<Z> bz; bool finite = true, nonsing = false; };
static SysIn gen_system(Rng& r)
{
    SysIn s; GenOpt g; g.maxn = r.pct(20) ? 12 : 5; g.minn = 1; g.big_pct = 0; g.vkind = 0; rare_large(r, g, 300, 30, 90); g.vkind = 0; MatZ P = gen_square(r, g); s.n = P.n; s.p = P.p; s.i = P.i; int ka = (int)r.below(7), kb = (int)r.below(7); s.nr = r.pct(70) ? 1 : r.range(1, 4); if (s.n == 0) { s.p.assign(1, 0); }
    bool mixed = r.pct(30), keep = r.pct(30); for (size_t k = 0; k < P.i.size(); k++) s.ax.push_back(keep ? P.x[k].get_d() : gen_double(r, mixed ? (int)r.below(7) : ka)); if (r.pct(10)) for (auto& x : s.ax) if (r.pct(20)) x = 0;
    for (int64_t k = 0; k < s.n * s.nr; k++) s.b.push_back(r.pct(20) ? 0 : gen_double(r, r.pct(20) ? (int)r.below(7) : kb));
    return s;
}
static void finish(SysIn& s, Rng& r)
{
    s.finite = true; for (double x : s.ax) if (!std::isfinite(x)) s.finite = false; for (double x : s.b) if (!std::isfinite(x)) s.finite = false; if (!s.finite) return;
    vector<Z> z; s.as = convert(s.ax, z); s.M.m = s.M.n = s.n; s.M.p = s.p; s.M.i = s.i; s.M.x = z; s.bs = convert(s.b, s.bz); s.nonsing = nonsingular(s.M, r);
}
struct OptIn { mxArray* a = NULL; bool given = false, bad = false, vague = false, cells = false; int print = 0; SLIP_col_order order = SLIP_COLAMD; SLIP_pivot pivot = SLIP_TOL_SMALLEST; double tol = 0.1; string str; };
static OptIn gen_option(Rng& r)
{
    OptIn o; if (r.pct(25)) return o; o.given = true;
    if (r.pct(12)) { o.a = r.pct(50) ? in_full({}, 0, 0) : r.pct(50) ? in_scalar(3) : in_string("none"); o.str = "not a struct"; return o; }
    o.a = in_struct(); auto set = [&](const char* f, mxArray* v, const string& s) { o.a->field[f] = v; o.str += string(f) + "=" + s + " "; }; int badp = r.pct(25) ? 25 : 0; bool tolpiv = true;
    if (r.pct(50)) { static const char* v[] = { "none", "colamd", "amd" }; if (r.pct(badp)) { static const char* w[] = { "None", "colam", "amd ", "", "colamdcolamdcolamd" }; if (r.pct(30)) set("order", in_scalar(1), "1"); else { const char* t = w[r.below(5)]; set("order", in_string(t), t); } o.bad = true; } else { int k = (int)r.below(3); static const SLIP_col_order e[] = { SLIP_NO_ORDERING, SLIP_COLAMD, SLIP_AMD }; o.order = e[k]; set("order", in_string(v[k]), v[k]); } }
    if (r.pct(50)) { static const char* v[] = { "smallest", "diagonal", "first", "tol smallest", "tol largest", "largest" }; if (r.pct(badp)) { if (r.pct(30)) set("pivot", in_scalar(2), "2"); else set("pivot", in_string(r.pct(50) ? "tol" : string(300, 'x')), "bad"); o.bad = true; } else { int k = (int)r.below(6); static const SLIP_pivot e[] = { SLIP_SMALLEST, SLIP_DIAGONAL, SLIP_FIRST_NONZERO, SLIP_TOL_SMALLEST, SLIP_TOL_LARGEST, SLIP_LARGEST }; o.pivot = e[k]; tolpiv = k == 3 || k == 4; set("pivot", in_string(v[k]), v[k]); } }
    if (r.pct(40)) { static const double v[] = { 0.1, 1, 0.5, 1e-12, 0.99, 1e-320 }, w[] = { 0, -0.5, 1.0000001, 2, INFINITY }; double t = r.pct(badp) ? w[r.below(5)] : v[r.below(6)]; o.tol = t; set("tol", in_scalar(t), fmt("%g", t)); if (tolpiv && !(t > 0 && t <= 1)) o.bad = true; }
    if (r.pct(60)) { static const char* v[] = { "double", "char", "vpa" }; if (r.pct(badp)) { if (r.pct(40)) set("solution", in_scalar(1), "1"); else set("solution", in_string("Char"), "Char"); o.bad = true; } else { int k = (int)r.below(3); o.cells = k != 0; set("solution", in_string(v[k]), v[k]); } }
    if (r.pct(25)) { static const double v[] = { 2, 32, 100, 536870912, 15 }, w[] = { 1, 0, -3, 2.5, 536870913, INFINITY, 1e300 }; double t = r.pct(badp) ? w[r.below(7)] : v[r.below(5)]; set("digits", in_scalar(t), fmt("%g", t)); if (!(t == std::trunc(t) && t >= 2 && t <= 536870912)) o.bad = true; }
    if (r.pct(25)) { static const double v[] = { 0, 1, 2, 3, 7, -5, 1.5, 0.5, 1e10, -1e300, INFINITY }; double t = v[r.below(11)]; o.print = t >= 3 ? 3 : t <= 0 ? 0 : (int)t; set("print", in_scalar(t), fmt("%g", t)); }
    if (r.pct(10)) set("unknown", in_scalar(1), "1");
    return o;
}
static bool common(Ctx& c, const MexRes& R, const char* what, uint64_t dig, bool clean)
{
    if (in_digest() != dig) { c.fail("input-modified", "%s modified its input", what); return false; }
    if (g_h.bad) { c.fail("host", "%s: %s", what, g_h.badmsg.c_str()); g_h.bad = 0; return false; }
    if (!R.error && clean && R.left) { c.fail("leak", "%s left %zu blocks or arrays behind", what, R.left); return false; }
    return true;
}
static void run_slip(Ctx& c)
{
    Rng& r = c.rng; SysIn s = gen_system(r); OptIn o = gen_option(r); string dmg; bool bad = false, vague = false; int nargout = (int)r.below(2);
    // invalid inputs
    int kind = r.pct(25) ? (int)r.range(1, 9) : 0; size_t extra = r.below(3); size_t bm = s.n, bn = s.nr; mxArray *A, *b;
    if (kind == 1 && !s.ax.empty()) { double w[] = { INFINITY, -INFINITY, NAN }; s.ax[r.below(s.ax.size())] = w[r.below(3)]; bad = true; dmg = "A not finite"; }
    if (kind == 2 && !s.b.empty()) { double w[] = { INFINITY, -INFINITY, NAN }; s.b[r.below(s.b.size())] = w[r.below(3)]; bad = true; dmg = "b not finite"; }
    if (kind == 3) { bm += r.pct(50) ? 1 : -1; if (bm == 0) bm = s.n + 1; s.b.assign(bm * bn, 1.5); bad = true; dmg = "dimension mismatch"; }
    A = in_sparse(s.n, s.n, s.p, s.i, s.ax, extra); b = in_full(s.b, bm, bn);
    if (kind == 4) { vector<int64_t> p = s.p; p.push_back(p.back()); A = in_sparse(s.n, s.n + 1, p, s.i, s.ax, extra); bad = true; dmg = "A not square"; }
    if (kind == 5) { A = in_full(vector<double>(s.n * s.n, 1.0), s.n, s.n); bad = true; dmg = "A full"; }
    if (kind == 6) { b = in_sparse(s.n, 1, { 0, 0 }, {}, {}); bad = true; dmg = "b sparse"; }
    if (kind == 7) { (r.pct(50) ? A : b)->complex = true; bad = true; dmg = "complex"; }
    if (kind == 8) { (r.pct(50) ? A : b)->cls = r.pct(50) ? MX_LOGICAL : MX_INT32; bad = true; dmg = "not double"; }
    vector<mxArray*> in{ A, b }; if (o.given) in.push_back(o.a);
    if (kind == 9) { int k = (int)r.below(3); if (k == 0) in.resize(1); else if (k == 1) { while (in.size() < 4) in.push_back(in_scalar(1)); } else nargout = 2; bad = true; dmg = "argument count"; }
    if (s.n == 0) vague = true;
    if (!bad) finish(s, r);
    c.desc += fmt("slip n=%ld nr=%ld %s opt{%s} p/i/x ", (long)s.n, (long)s.nr, dmg.c_str(), o.str.c_str()); for (auto v : s.p) c.desc += fmt("%ld,", (long)v); for (auto v : s.i) c.desc += fmt("%ld,", (long)v); c.desc += show(s.ax) + " b " + show(s.b) + "; ";
    Hash h; h.adds(c.desc); c.sig(h.h); uint64_t dig = in_digest();
    // MATLAB ends a gateway that asks for more memory than there is
    if (r.pct(12)) { MexRes F = mex_call(slip_mex, nargout, in, r.below(r.pct(50) ? 40 : 400)); if (F.error && F.msg == "Out of memory.") cnt("calls ended by MATLAB"); c.desc += "after a call ended by MATLAB; "; if (!common(c, F, "SLIP_mex_soln", dig, false)) return; mex_reclaim(); }
    g_seen = Seen(); MexRes R = mex_call(slip_mex, nargout, in); cnt("slip calls"); string text = g_h.text; int64_t printed = g_h.printed;
    if (!common(c, R, "SLIP_mex_soln", dig, true)) return;
    int level = o.given && !o.bad ? o.print : 0;
    if (level == 0 && printed) { c.fail("print", "something is printed at level 0: %s", text.substr(0, 300).c_str()); return; }
    if (slip_initialized()) { c.fail("session", "the library is still initialized after the call"); return; }
    if (bad || o.bad) { cnt(bad ? "invalid: " + dmg : "invalid option"); if (!R.error) c.fail("accept", "no error for an invalid call (%s)", dmg.c_str()); return; }
    if (vague) { cnt("empty systems"); return; }
    // the options the user asked for (or the documented defaults) are those the library works with
    if (g_seen.used)
    {
        const SLIP_options& w = g_seen.o; cnt("options followed into the library"); bool tolpiv = o.pivot == SLIP_TOL_SMALLEST || o.pivot == SLIP_TOL_LARGEST;
        if (w.order != o.order) { c.fail("option", "the library is asked for the ordering %d, the user wants %d", (int)w.order, (int)o.order); return; }
        if (w.pivot != o.pivot) { c.fail("option", "the library is asked for the pivot rule %d, the user wants %d", (int)w.pivot, (int)o.pivot); return; }
        if (tolpiv && w.tol != o.tol) { c.fail("option", "the library is given the tolerance %g, the user wants %g", w.tol, o.tol); return; }
        if (w.print_level != level) { c.fail("option", "the library is given the print level %d, the user wants %d", w.print_level, level); return; }
    }
    if (!s.nonsing) { cnt("singular systems"); if (!R.error || R.msg != "input matrix is singular") c.fail("singular", "a singular matrix is %s %s", R.error ? "reported as" : "accepted", R.msg.c_str()); return; }
    if (R.error) { c.fail("reject", "a valid call ends with the error '%s'", R.msg.c_str()); return; }
    mxArray* x = R.out[0]; if (!x || x->m != (size_t)s.n || x->n != (size_t)s.nr) { c.fail("shape", "the solution has the wrong shape"); return; }
    cnt("systems solved"); if (level > 0) { cnt("printed solutions"); if (!printed && level > 1) { c.fail("print", "nothing is printed at level %d", level); return; } }
    // exact solution by the gateway itself, verified independently
    vector<string> ex; auto cells = [&](mxArray* y) { vector<string> v; for (auto e : y->cell) v.push_back(e && e->cls == MX_CHAR ? e->str : "?"); return v; };
    vector<double> dx; if (o.cells) { if (x->cls != MX_CELL) { c.fail("class", "the solution is not a cell array"); return; } ex = cells(x); }
    else
    {
        if (x->cls != MX_DOUBLE || x->sparse || x->complex || x->bytes != x->m * x->n * 8) { c.fail("class", "the solution is not a full double matrix of its size"); return; }
        dx.assign((double*)x->data, (double*)x->data + x->m * x->n); mex_reclaim();
        mxArray* st = in_struct(); st->field["solution"] = in_string("char"); MexRes R2 = mex_call(slip_mex, 1, { A, b, st }); dig = in_digest(); if (!common(c, R2, "SLIP_mex_soln", dig, true)) return;
        if (R2.error || R2.out[0]->cls != MX_CELL) { c.fail("reject", "the same system is not solved again: %s", R2.msg.c_str()); return; } ex = cells(R2.out[0]);
    }
    if (ex.size() != (size_t)(s.n * s.nr)) { c.fail("shape", "%zu entries", ex.size()); return; }
    vector<Q> q; for (auto& t : ex) { Q v; if (t.empty() || v.set_str(t, 10) != 0) { c.fail("string", "entry '%s' is no rational number", t.c_str()); return; } Q w = v; if (w.get_den() == 0) { c.fail("string", "entry '%s' has denominator zero", t.c_str()); return; } w.canonicalize(); if (w.get_str() != t) { c.fail("string", "entry '%s' is not in lowest terms", t.c_str()); return; } q.push_back(v); }
    // sum_j M_ij/as x_j = b_i/bs
    int good = 0; int off = (int)r.below(8);
    for (int k = 0; k < 8 && good < 2; k++)
    {
        Mod P(PRIMES[(off + k) % 8]); bool skip = false, ok = true; uint64_t as = P.of(s.as.get_num_mpz_t()), bs = P.of(s.bs.get_num_mpz_t());
        for (int64_t j = 0; j < s.nr && !skip; j++) { vector<uint64_t> t(s.n, 0); for (int64_t i = 0; i < s.n && !skip; i++) { uint64_t v; if (!P.q(q[i + j * s.n].get_mpq_t(), v)) { skip = true; break; } for (int64_t e = s.p[i]; e < s.p[i + 1]; e++) t[s.i[e]] = P.add(t[s.i[e]], P.mul(P.of(s.M.x[e].get_mpz_t()), v)); } if (!skip) for (int64_t i = 0; i < s.n; i++) if (P.mul(t[i], bs) != P.mul(P.of(s.bz[i + j * s.n].get_mpz_t()), as)) ok = false; }
        if (skip) continue; good++; if (!ok) { c.fail("wrong", "the solution does not satisfy A x = b"); return; }
    }
    for (size_t k = 0; k < dx.size(); k++) { double w = q[k].get_d(); if (memcmp(&w, &dx[k], 8) && !(w == 0 && dx[k] == 0)) { c.fail("double", "entry %zu is %.17g, the exact one %s truncates to %.17g", k, dx[k], ex[k].substr(0, 100).c_str(), w); return; } }
    if (dx.empty()) cnt("exact solutions"); else cnt("double solutions");
}
static mxArray* matrix_in(Rng& r, Pat& P, bool full)
{
    if (!full) { vector<double> x(P.i.size(), 1.0); return in_sparse(P.m, P.n, P.p, P.i, x, r.below(3)); }
    vector<double> x(P.m * P.n, 0.0); for (int64_t j = 0; j < P.n; j++) for (int64_t k = P.p[j]; k < P.p[j + 1]; k++) x[P.i[k] + j * P.m] = 1.5; mxArray* a = in_full(x, P.m, P.n); return a;
}
static void run_order(Ctx& c)
{
    Rng& r = c.rng; int which = (int)r.below(3); PatOpt po; po.maxm = po.maxn = 25; po.big_pct = 4; po.bigmax = r.pct(5) ? 600 : 120; po.square = which != 1; Pat P = gen_pat(r, po); bool full = r.pct(25) && P.m * P.n < 2500;
    if (full) { Cols k = cols_of(P); Rng q(1); P = pack(q, k, P.m, false); }
    static const char* nm[] = { "amd", "colamd", "symamd" }; MexFn fn[] = { amd_mex, colamd_mex, symamd_mex }; int nargout = (int)r.below(3); bool bad = false; string how;
    mxArray* A = matrix_in(r, P, full); vector<mxArray*> in{ A }; vector<double> kn; bool hask = r.pct(60); if (hask) { static const double v[] = { 10, 1, 0, -1, 0.5, 5, 100 }; int64_t k = r.below(5); for (int64_t t = 0; t < k; t++) kn.push_back(v[r.below(7)]); size_t sp = which == 2 ? 1 : 2; if (kn.size() > sp) kn[sp] = r.pct(60) ? 0 : 1; in.push_back(in_full(kn, kn.empty() ? 0 : 1, kn.size())); }
    int spoil = r.pct(20) ? (int)r.range(1, 6) : 0;
    if (spoil == 1) { nargout = 3; bad = true; how = "three outputs"; }
    if (spoil == 2) { while (in.size() < 3) in.push_back(in_scalar(0)); bad = true; how = "three inputs"; }
    if (spoil == 3) { A->ndim = 3; bad = true; how = "3-D"; }
    if (spoil == 4 && which != 1) { A->n += 1; if (!A->sparse) { A->data = realloc(A->data, A->m * A->n * 8 + 8); memset(A->data, 0, A->m * A->n * 8 + 8); A->bytes = A->m * A->n * 8; } else { A->jc = (size_t*)realloc(A->jc, (A->n + 1) * 8); A->jc[A->n] = A->jc[A->n - 1]; } bad = true; how = "not square"; }
    if (spoil == 5 && A->sparse && P.nnz()) { A->ir[r.below(P.nnz())] = P.m + r.below(5); bad = true; how = "corrupt"; }
    if (spoil == 6 && A->sparse && P.n) { A->jc[0] = 1; bad = true; how = "corrupt"; }
    c.desc += fmt("%s %s%s nargout=%d knobs=%s %s; ", nm[which], P.str().c_str(), full ? " full" : "", nargout, hask ? show(kn).c_str() : "none", how.c_str()); Hash h; h.adds(c.desc); h.add(P.hash()); c.sig(h.h);
    uint64_t dig = in_digest(); cnt(string(nm[which]) + " calls");
    if (which == 0 && r.pct(4))
    {
        MexRes R = mex_call(amd_mex, (int)r.below(2), {}); if (!common(c, R, "amd", in_digest(), true)) return; double w[AMD_CONTROL]; amd_l_defaults(w);
        if (R.error || !R.out[0] || R.out[0]->m * R.out[0]->n != AMD_CONTROL || memcmp(R.out[0]->data, w, sizeof w)) c.fail("defaults", "amd without arguments does not return the defaults"); return;
    }
    MexRes R = mex_call(fn[which], nargout, in); string text = g_h.text; int64_t printed = g_h.printed;
    if (!common(c, R, nm[which], dig, true)) return;
    bool verbose = kn.size() > (which == 2 ? 1u : 2u) && kn[which == 2 ? 1 : 2] != 0; if (which && spoil == 2) verbose = verbose;
    if (!verbose && printed && !(R.error && which)) { c.fail("print", "%s prints without being asked: %s", nm[which], text.substr(0, 200).c_str()); return; }
    if (bad) { cnt("invalid: " + how); if (!R.error) c.fail("accept", "%s: no error for %s", nm[which], how.c_str()); return; }
    if (R.error) { c.fail("reject", "%s: a valid call ends with the error '%s'", nm[which], R.msg.c_str()); return; }
    if (verbose && !printed) { c.fail("print", "%s prints nothing although asked", nm[which]); return; }
    // the C routine on the same matrix
    vector<double> info; vector<int64_t> perm; int64_t n = P.n; Arr<LL> p(P.p), i(P.i);
    mxArray* o0 = R.out[0]; mxArray* o1 = nargout > 1 ? R.out[1] : NULL; if (!o0 || o0->cls != MX_DOUBLE || o0->m != 1 || o0->n != (size_t)n) { c.fail("shape", "%s: the permutation has the wrong shape", nm[which]); return; }
    double* d0 = (double*)o0->data; g_h.inside = true;
    if (which == 0) { double C[AMD_CONTROL], F[AMD_INFO]; amd_l_defaults(C); if (kn.size() > 0) C[0] = kn[0]; if (kn.size() > 1) C[1] = kn[1]; Arr<LL> q(n); amd_l_order(n, p, i, q, C, F); perm = q.vec(); info.assign(F, F + AMD_INFO); info[AMD_MEMORY] = 0; }
    else if (which == 1) { double K[COLAMD_KNOBS]; colamd_l_set_defaults(K); if (kn.size() > 0) K[COLAMD_DENSE_ROW] = kn[0]; if (kn.size() > 1) K[COLAMD_DENSE_COL] = kn[1]; LL st[COLAMD_STATS]; size_t al = colamd_l_recommended(P.nnz(), P.m, P.n); Arr<LL> W(al, 0); for (int64_t k = 0; k < P.nnz(); k++) W[k] = P.i[k]; colamd_l(P.m, P.n, al, W, p, K, st); perm.assign(p.a, p.a + n); info.assign(st, st + COLAMD_STATS); }
    else { double K[COLAMD_KNOBS]; colamd_l_set_defaults(K); if (kn.size() > 0) K[COLAMD_DENSE_ROW] = kn[0]; LL st[COLAMD_STATS]; Arr<LL> q(n + 1); symamd_l(n, i, p, q, K, st, calloc, free); perm.assign(q.a, q.a + n); info.assign(st, st + COLAMD_STATS); }
    g_h.inside = false; if (which) { info[COLAMD_INFO1]++; info[COLAMD_INFO2]++; }
    for (int64_t k = 0; k < n; k++) if (d0[k] != (double)perm[k] + 1) { c.fail("permutation", "%s: entry %ld is %g, the C routine returns %ld", nm[which], (long)k, d0[k], (long)perm[k]); return; }
    if (o1) { if (o1->m * o1->n != info.size()) { c.fail("shape", "%s: %zu statistics", nm[which], o1->m * o1->n); return; } double* d1 = (double*)o1->data; for (size_t k = 0; k < info.size(); k++) if (!(which == 0 && k == AMD_MEMORY) && memcmp(&d1[k], &info[k], 8) && d1[k] != info[k]) { c.fail("statistics", "%s: statistic %zu is %g, the C routine says %g", nm[which], k, d1[k], info[k]); return; } cnt("statistics compared"); }
    cnt("orderings compared");
}
void run_case(Ctx& c)
{
    Rng& r = c.rng; SuiteSparse_config.printf_func = mexPrintf; SuiteSparse_config.malloc_func = mxMalloc; SuiteSparse_config.calloc_func = mxCalloc; SuiteSparse_config.realloc_func = mxRealloc; SuiteSparse_config.free_func = mxFree;
    int64_t k = r.range(1, 3); while (k-- && !c.failed) { g_h.bad = 0; if (r.pct(65)) run_slip(c); else run_order(c); mex_reclaim(); in_clear(); }
}

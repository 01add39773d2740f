// C24: the SLIPLU program.  Its main function runs in a child process on
// generated files; its output, exit status and the solution it computed (seen
// by wrapping SLIP_LU_solve) are judged against a strict parse of the files.
#include "factor.hpp"
#include <sys/wait.h>
#include <sys/stat.h>
extern "C" int sliplu_main(int argc, char** argv);
static int g_solfd = -1;
extern "C" SLIP_info __real_SLIP_LU_solve(SLIP_matrix**, const SLIP_matrix*, const SLIP_matrix*, const SLIP_matrix*, const SLIP_matrix*, const SLIP_matrix*, const SLIP_LU_analysis*, const int64_t*, const SLIP_options*);
extern "C" SLIP_info __wrap_SLIP_LU_solve(SLIP_matrix** xh, const SLIP_matrix* b, const SLIP_matrix* A, const SLIP_matrix* L, const SLIP_matrix* U, const SLIP_matrix* rhos, const SLIP_LU_analysis* S, const int64_t* pinv, const SLIP_options* o)
{
    SLIP_info s = __real_SLIP_LU_solve(xh, b, A, L, U, rhos, S, pinv, o);
    if (g_solfd >= 0 && s == SLIP_OK && xh && *xh)
    {
        SLIP_matrix* x = *xh; dprintf(g_solfd, "%d %ld %ld %d\n", (int)s, (long)x->m, (long)x->n, (int)o->check);
        for (int64_t k = 0; k < x->m * x->n; k++) { mpq_srcptr q = x->x.mpq[k]; char* t = (char*)malloc(mpz_sizeinbase(mpq_numref(q), 10) + mpz_sizeinbase(mpq_denref(q), 10) + 8); mpq_get_str(t, 10, q); dprintf(g_solfd, "%s\n", t); free(t); }
    }
    return s;
}
static string g_dir; static bool g_own = false;
void harness_init()
{
    const char* s = getenv("VP_SCRATCH"); if (s) g_dir = s; else { char t[] = "/tmp/vp-c24-XXXXXX"; if (!mkdtemp(t)) exit(3); g_dir = t; g_own = true; }
}
static string slurp(const string& f) { string s; FILE* h = fopen(f.c_str(), "rb"); if (!h) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
static void spit(const string& f, const string& s) { FILE* h = fopen(f.c_str(), "wb"); if (!h || fwrite(s.data(), 1, s.size(), h) != s.size()) exit(3); fclose(h); }
static vector<string> tokens(const string& s) { vector<string> t; string cur; for (unsigned char ch : s) { if (isspace(ch)) { if (!cur.empty()) t.push_back(cur); cur.clear(); } else cur += (char)ch; } if (!cur.empty()) t.push_back(cur); return t; }
static bool integer(const string& t) { size_t k = t[0] == '-'; if (k == t.size()) return false; for (; k < t.size(); k++) if (!isdigit((unsigned char)t[k])) return false; return true; }
static bool small(const string& t, int64_t& v) { if (!integer(t) || t.size() > 18) return false; v = atoll(t.c_str()); return true; }
// strict reading of the two formats
enum St { GOOD, BAD, UNCLEAR };
struct File { St st = BAD; string why; int64_t m = 0, n = 0, nz = 0; map<std::pair<int64_t, int64_t>, Z> e; vector<Z> b; };
static St value(const string& t, bool last, Z& z) { if (integer(t)) { z = Z(t); return GOOD; } bool prefix = isdigit((unsigned char)t[0]) || t[0] == '+' || (t.size() > 1 && t[0] == '-' && isdigit((unsigned char)t[1])); return prefix && (last || t[0] == '+') ? UNCLEAR : BAD; }
static File read_matrix(const string& s)
{
    File f; auto t = tokens(s); auto bad = [&](const char* w, St st = BAD) { f.st = st; f.why = w; return f; };
    if (t.size() < 3 || !small(t[0], f.m) || !small(t[1], f.n) || !small(t[2], f.nz)) return bad("header");
    if (f.m < 0 || f.n < 0 || f.nz < 0) return bad("negative dimension"); if (f.m != f.n) { return bad("not square"); } if (f.n == 0) return bad("empty", UNCLEAR);
    if (f.nz == 0) return bad("no entries");
    if ((size_t)f.nz > (t.size() - 3) / 3) { for (int64_t k = 3; k < (int64_t)t.size(); k++) if (!integer(t[k])) return bad("malformed entry"); return bad("missing entries"); }
    bool dup = false, unclear = false;
    for (int64_t k = 0; k < f.nz; k++)
    {
        int64_t i, j; Z z; const string& v = t[3 + 3 * k + 2]; bool last = k == f.nz - 1;
        if (!small(t[3 + 3 * k], i) || !small(t[3 + 3 * k + 1], j)) return bad("malformed index");
        if (i < 1 || j < 1 || i > f.m || j > f.n) return bad("index out of range");
        St q = value(v, last, z); if (q == BAD) return bad(last ? "malformed last value" : "malformed value"); if (q == UNCLEAR) unclear = true;
        if (f.e.count({ i - 1, j - 1 })) dup = true; f.e[{ i - 1, j - 1 }] = z;
    }
    if (dup) return bad("duplicate entry", UNCLEAR); if (unclear) return bad("number followed by text", UNCLEAR); if (t.size() > 3 + 3 * (size_t)f.nz) return bad("more entries", UNCLEAR);
    f.st = GOOD; return f;
}
static File read_rhs(const string& s)
{
    File f; auto t = tokens(s); auto bad = [&](const char* w, St st = BAD) { f.st = st; f.why = w; return f; };
    if (t.size() < 2 || !small(t[0], f.m) || !small(t[1], f.n)) return bad("header");
    if (f.m < 0 || f.n < 0) return bad("negative dimension"); if (f.m == 0 || f.n == 0) return bad("empty", UNCLEAR);
    if (f.m > 1000000 || f.n > 1000000 || (size_t)(f.m * f.n) > t.size() - 2) { for (size_t k = 2; k < t.size(); k++) if (!integer(t[k])) return bad("malformed value"); return bad("missing values"); }
    bool unclear = false; f.b.resize(f.m * f.n); for (int64_t k = 0; k < f.m * f.n; k++) { Z z; St q = value(t[2 + k], k == f.m * f.n - 1, z); if (q == BAD) return bad("malformed value"); if (q == UNCLEAR) unclear = true; f.b[(k / f.n) + (k % f.n) * f.m] = z; }
    if (unclear) return bad("number followed by text", UNCLEAR); if (t.size() > 2 + (size_t)(f.m * f.n)) return bad("more values", UNCLEAR);
    f.st = GOOD; return f;
}
static string sep(Rng& r) { static const char* s[] = { " ", " ", " ", "  ", "\t" }; return s[r.below(5)]; }
static string eol(Rng& r) { return r.pct(92) ? "\n" : r.pct(50) ? "\n\n" : " \n"; }
static string render_matrix(Rng& r, const MatZ& M)
{
    string s = fmt("%ld", (long)M.m) + sep(r) + fmt("%ld", (long)M.n) + sep(r) + fmt("%ld", (long)M.nnz()) + eol(r);
    vector<std::pair<int64_t, int64_t>> o; for (int64_t j = 0; j < M.n; j++) for (int64_t k = M.p[j]; k < M.p[j + 1]; k++) o.push_back({ k, j }); if (r.pct(50)) r.shuffle(o);
    for (auto& e : o) s += fmt("%ld", (long)M.i[e.first] + 1) + sep(r) + fmt("%ld", (long)e.second + 1) + sep(r) + M.x[e.first].get_str() + eol(r);
    if (r.pct(10)) while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back();
    return s;
}
static string render_rhs(Rng& r, const vector<Z>& b, int64_t n, int64_t c)
{
    string s = fmt("%ld", (long)n) + sep(r) + fmt("%ld", (long)c) + eol(r);
    for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < c; j++) s += b[i + j * n].get_str() + (j + 1 < c && r.pct(80) ? sep(r) : eol(r));
    if (r.pct(10)) while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back();
    return s;
}
// damage the text of a file
static string damage(Rng& r, const string& s, bool matrix, string& how)
{
    auto t = tokens(s); string out; size_t head = matrix ? 3 : 2; static const char* junk[] = { "abc", "1.5", "0.25", "x", "-", "--3", "12e4", "1,2", "%", "NaN", "0x10", "" };
    auto join = [&]() { string o; for (size_t k = 0; k < t.size(); k++) o += t[k] + (k + 1 < head ? " " : matrix && k >= head && (k - head) % 3 < 2 ? " " : "\n"); return o; };
    switch (r.below(11))
    {
        case 0: how = "cut"; return s.substr(0, r.below(s.size() + 1));
        case 1: how = "empty"; return r.pct(50) ? "" : "\n \n";
        case 2: { how = "token"; size_t k = r.below(t.size()); t[k] = junk[r.below(12)]; return join(); }
        case 3: { how = "value"; if (t.size() <= head) return s; size_t k; if (matrix) { size_t ne = (t.size() - head) / 3; if (!ne) return s; k = head + 3 * (r.pct(50) ? ne - 1 : r.below(ne)) + 2; } else k = head + r.below(t.size() - head); t[k] = junk[r.below(5)]; return join(); }
        case 4: { how = "index"; if (!matrix || t.size() < 6) return s; size_t k = head + 3 * r.below((t.size() - head) / 3) + r.below(2); static const char* v[] = { "0", "-1", "1000000", "99999999999999999999", "-9223372036854775808" }; t[k] = r.pct(30) ? std::to_string(atoll(t[matrix ? 0 : 0].c_str()) + 1) : v[r.below(5)]; return join(); }
        case 5: { how = "header"; size_t k = r.below(head); static const char* v[] = { "0", "-1", "-5", "1000000000000000", "9223372036854775807", "99999999999999999999" }; t[k] = r.pct(50) ? std::to_string(atoll(t[k].c_str()) + r.range(-2, 2)) : v[r.below(6)]; return join(); }
        case 6: { how = "missing token"; t.erase(t.begin() + r.below(t.size())); return join(); }
        case 7: { how = "extra token"; t.insert(t.begin() + r.below(t.size() + 1), r.pct(50) ? "1" : junk[r.below(11)]); return join(); }
        case 8: { how = "bytes"; out = s; int64_t k = r.range(1, 4); while (k-- && !out.empty()) out[r.below(out.size())] = (char)r.range(1, 255); return out; }
        case 9: { how = "garbage"; int64_t k = r.range(1, 200); while (k--) out += (char)r.range(1, 255); return out; }
        default: { how = "lines swapped"; std::swap(t[r.below(t.size())], t[r.below(t.size())]); return join(); }
    }
}
struct Ran { bool signal = false, hang = false; int rc = 0; string out, sol; };
static Ran launch(const vector<string>& args, const string& cwd)
{
    string of = g_dir + "/out", sf = g_dir + "/sol"; fflush(stdout); pid_t p = fork(); if (p < 0) exit(3);
    if (p == 0)
    {
        int o = open(of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); g_solfd = open(sf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (o < 0 || g_solfd < 0 || chdir(cwd.c_str())) _exit(3);
        dup2(o, 1); dup2(o, 2); close(o); alarm(60); vector<char*> av; for (auto& a : args) av.push_back(strdup(a.c_str())); av.push_back(NULL);
        int rc = sliplu_main((int)args.size(), av.data()); fflush(stdout); fflush(stderr); _exit(rc & 255);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0) ; Ran R; if (WIFSIGNALED(st)) { R.signal = true; R.hang = WTERMSIG(st) == SIGALRM; R.rc = WTERMSIG(st); } else R.rc = WEXITSTATUS(st);
    R.out = slurp(of); R.sol = slurp(sf); return R;
}
static bool has(const string& s, const char* t) { return s.find(t) != string::npos; }
void run_case(Ctx& c)
{
    Rng& r = c.rng; string cwd = g_dir, mf = "m.txt", bf = "b.txt", mt, bt, mhow, bhow; bool deflt = r.below(400) == 0; vector<string> a{ "SLIPLU" };
    if (r.pct(20)) { mf = g_dir + "/m.txt"; } int missing = 0;
    if (!deflt)
    {
        GenOpt g; g.maxn = r.pct(30) ? 12 : 5; g.minn = 1; g.big_pct = 0; rare_large(r, g, 150, 30, 120); MatZ M; int tries = 0; do M = gen_square(r, g); while ((M.n < 1 || M.nnz() < 1) && ++tries < 50); if (M.n < 1 || M.nnz() < 1) return;
        int64_t nr = r.pct(70) ? 1 : r.range(1, 4); vector<Z> b = gen_rhs(r, M.n, nr);
        if (r.pct(3)) { int64_t k = M.n; M = MatZ(); M.m = M.n = 1; (void)k; M.p = { 0, 1 }; M.i = { 0 }; M.x = { gen_value(r, (int)r.below(6)) }; if (M.x[0] == 0) M.x[0] = 5; b = gen_rhs(r, 1, nr); }
        if (r.pct(4)) { int64_t k = M.n + (r.pct(50) ? 1 : -1); if (k >= 1) b = gen_rhs(r, k, nr); bt = render_rhs(r, b, k >= 1 ? k : M.n, nr); } else bt = render_rhs(r, b, M.n, nr);
        mt = render_matrix(r, M); if (r.pct(20)) mt = damage(r, mt, true, mhow); if (r.pct(20)) bt = damage(r, bt, false, bhow);
        // nobody waits for a matrix of millions of empty columns
        { File f = read_matrix(mt); if ((f.n > 2000 && f.n < 1000000000000000) || (f.nz > 100000 && f.nz < 1000000000000000)) return; File h = read_rhs(bt); if ((h.m > 2000 && h.m < 1000000000000000) || (h.n > 2000 && h.n < 1000000000000000)) return; }
        spit(g_dir + "/m.txt", mt); spit(g_dir + "/b.txt", bt);
        if (r.pct(3)) { missing = (int)r.range(1, 3); static const char* no[] = { "", "absent.txt", "m.txt/x", "." }; if (r.pct(50)) mf = no[missing]; else bf = no[missing]; }
    }
    else { cwd = string(VP_REPO) + "/SLIP_LU/Demo"; mt = slurp(cwd + "/../ExampleMats/10teams_mat.txt"); bt = slurp(cwd + "/../ExampleMats/10teams_v.txt"); }
    // options
    vector<vector<string>> op; bool badopt = false, help = false; string ocls; auto two = [&](const char* x, const char* y) { return string(r.pct(50) ? x : y); };
    if (!deflt) op.push_back({ two("f", "file"), mf, bf });
    if (r.pct(60)) op.push_back({ two("p", "piv"), std::to_string(r.pct(95) ? r.range(0, 5) : r.range(-3, 12)) });
    if (r.pct(60)) op.push_back({ two("q", "col"), std::to_string(r.pct(95) ? r.range(0, 2) : r.range(-3, 12)) });
    if (r.pct(30)) { static const char* v[] = { "0.1", "1e-10", "1", "0.5", "3", "1e300", "1e-300" }; if (r.pct(80)) op.push_back({ two("t", "tol"), v[r.below(7)] }); else if (r.pct(20)) { op.push_back({ "t", r.pct(50) ? "0" : "0.0" }); ocls = "t-0"; } else { op.push_back({ "t", r.pct(50) ? "-1" : "abc" }); badopt = true; } }
    if (r.pct(30)) { if (r.pct(80)) op.push_back({ two("o", "out"), std::to_string(r.range(1, 3)) }); else if (r.pct(20)) { op.push_back({ two("o", "out"), "0" }); ocls += "o-0"; } else { op.push_back({ "o", "xyz" }); badopt = true; } }
    if (r.pct(3)) { static const char* u[] = { "zzz", "-p", "--help", "c", "", "pq", "help!" }; op.push_back({ u[r.below(7)] }); badopt = true; }
    if (r.pct(3)) { op.push_back({ "help" }); help = true; }
    r.shuffle(op); for (auto& v : op) for (auto& x : v) a.push_back(x);
    if (r.pct(3)) { static const char* u[] = { "p", "q", "t", "o", "f", "piv", "col", "tol", "out", "file" }; a.push_back(u[r.below(10)]); badopt = true; if (r.pct(30) && a.back() == "f") a.push_back("m.txt"); }
    string cl; for (auto& x : a) cl += x + " "; File A = read_matrix(mt), B = read_rhs(bt);
    if (missing) { File& f = mf != "m.txt" && mf != g_dir + "/m.txt" ? A : B; f = File(); f.why = "unreadable"; }
    c.desc = cl + "| matrix: " + (A.st == GOOD ? "good" : A.why) + " " + mhow + " | rhs: " + (B.st == GOOD ? "good" : B.why) + " " + bhow + (mt.size() < 400 ? " | " + mt + " | " + bt : "");
    Ran R = launch(a, cwd); cnt("programs run"); bool claims = has(R.out, "all tests passed");
    bool err = has(R.out, "rror") || has(R.out, "premature") || has(R.out, "nvalid"); string tail = R.out.substr(0, 500);
    Hash h; h.adds(cl); h.adds(mt); h.adds(bt); c.sig(h.h); if (g_own) { remove((g_dir + "/x").c_str()); }
    if (R.hang) { c.fail("hang", "the program does not end; %s", tail.c_str()); return; }
    if (R.signal || R.rc != 0)
    {
        // the places where the program is in its own code, innermost first
        string where; for (size_t k = R.out.find(" in "); k != string::npos && where.empty(); k = R.out.find(" in ", k + 4)) { size_t e = k + 4; while (e < R.out.size() && (isalnum((unsigned char)R.out[e]) || R.out[e] == '_')) e++; string f = R.out.substr(k + 4, e - k - 4); if (f.compare(0, 5, "SLIP_") == 0 || f.compare(0, 5, "slip_") == 0 || f == "sliplu_main") where = f; }
        cnt("crashes"); string key = A.st == BAD ? "crash:bad-matrix-file" : B.st == BAD && has(R.out, "overflow") && where == "SLIP_read_dense" ? "crash:rhs-size" : "crash:" + where;
        c.fail(key, "the program %s %d; %s", R.signal ? "died of signal" : "exited with", R.rc, R.out.substr(0, 900).c_str()); return;
    }
    if (help) { cnt("help"); if (!badopt && ocls.empty() && claims) c.fail("help", "asked for help, the program claims to have solved a system"); return; }
    bool square = A.st == GOOD, match = A.st == GOOD && B.st == GOOD && A.n == B.m;
    if (badopt) { cnt("invalid options"); if (claims) c.fail("accept:option", "claims success although an option is invalid; %s", tail.c_str()); else if (!err) c.fail("silent:option", "no error message; %s", tail.c_str()); return; }
    if (A.st == UNCLEAR || B.st == UNCLEAR) { cnt("unclear files"); return; }
    if (!square || B.st == BAD || !match)
    {
        cnt(string("bad input: ") + (A.st == BAD ? "matrix: " + A.why : B.st == BAD ? "rhs: " + B.why : "dimensions differ"));
        if (claims) c.fail(A.st == BAD && (has(A.why, "malformed") || A.why == "missing entries" || A.why == "index out of range") ? "accept:matrix-text" : A.st == GOOD && B.st == BAD && (B.why == "malformed value" || B.why == "header") ? "accept:rhs-text" : "accept:" + (A.st == BAD ? A.why : B.st == BAD ? "rhs " + B.why : "dimensions"), "claims success for %s", c.desc.substr(0, 1000).c_str());
        else if (!err) c.fail("silent", "no error message for bad input; %s", tail.c_str());
        return;
    }
    MatZ M; M.m = M.n = A.n; M.p.assign(A.n + 1, 0); vector<vector<std::pair<int64_t, Z>>> col(A.n); for (auto& e : A.e) col[e.first.second].push_back({ e.first.first, e.second }); for (int64_t j = 0; j < A.n; j++) { for (auto& e : col[j]) { M.i.push_back(e.first); M.x.push_back(e.second); } M.p[j + 1] = (int64_t)M.i.size(); }
    bool ns = nonsingular(M, r);
    if (!ns) { cnt("singular systems"); if (claims) c.fail("accept:singular", "claims to have solved a singular system; %s", c.desc.substr(0, 800).c_str()); else if (!err) c.fail("silent:singular", "no error message for a singular matrix; %s", tail.c_str()); return; }
    if (!claims)
    {
        string key = ocls == "o-0" || ocls == "t-0" || ocls == "t-0o-0" ? "reject:" + ocls.substr(0, 3) : A.nz == 1 ? "reject:one-entry" : "reject";
        cnt("rejected"); c.fail(key, "a good system and good options are rejected: %s; %s", tail.c_str(), c.desc.substr(0, 600).c_str()); return;
    }
    cnt(deflt ? "default system solved" : "systems solved");
    // the solution that was computed
    auto t = tokens(R.sol); if (t.size() < 4) { c.fail("solution", "success claimed, but no solution was computed"); return; }
    if (t[3] != "1") c.fail("unverified", "the solution was not verified");
    if (atoll(t[1].c_str()) != A.n || atoll(t[2].c_str()) != B.n || t.size() != 4 + (size_t)(A.n * B.n)) { c.fail("solution", "the solution is %s by %s with %d entries", t[1].c_str(), t[2].c_str(), (int)t.size() - 4); return; }
    int good = 0; int o = (int)r.below(8);
    for (int k = 0; k < 8 && good < 2; k++)
    {
        Mod P(PRIMES[(o + k) % 8]); bool ok = true, skip = false;
        for (int64_t j = 0; j < B.n && ok && !skip; j++) { vector<uint64_t> s(A.n, 0); for (int64_t i = 0; i < A.n && !skip; i++) { Q q(t[4 + i + j * A.n]); uint64_t v; if (!P.q(q.get_mpq_t(), v)) { skip = true; break; } for (auto& e : col[i]) s[e.first] = P.add(s[e.first], P.mul(P.of(e.second.get_mpz_t()), v)); }
            if (!skip) for (int64_t i = 0; i < A.n; i++) if (s[i] != P.of(B.b[i + j * A.n].get_mpz_t())) ok = false; }
        if (skip) continue; if (!ok) { c.fail("wrong", "the solution computed does not solve the system in the files; %s", c.desc.substr(0, 800).c_str()); return; } good++;
    }
    size_t z = R.out.find("Number of L+U nonzeros:"); int64_t lu = z == string::npos ? -1 : atoll(R.out.c_str() + z + 23); if (lu < A.n || lu > A.n * A.n) c.fail("nonzeros", "L+U nonzeros reported: %ld for order %ld", (long)lu, (long)A.n);
}

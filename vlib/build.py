"""Build the real SLIP_LU sources (from REPO's working tree) plus a harness.

Nothing is ever written under /repo: objects go to <verif>/.build/<variant>/,
keyed by a hash of (source, every header, flags), so an edited source is always
rebuilt and an unedited one is reused while developing.
"""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

INC = ["-I%s/SLIP_LU/Include" % REPO, "-I%s/SLIP_LU/Source" % REPO,
       "-I%s/AMD/Include" % REPO, "-I%s/COLAMD/Include" % REPO,
       "-I%s/SuiteSparse_config" % REPO]

VARIANTS = {
    # address + undefined behaviour, every report is fatal
    "asan": dict(cc="gcc", cxx="g++",
                 flags=["-O1", "-g", "-fno-omit-frame-pointer",
                        "-fsanitize=address,undefined,float-cast-overflow",
                        "-fno-sanitize-recover=all",
                        # a variable that is not set is never zero by luck
                        "-ftrivial-auto-var-init=pattern"],
                 link=["-fsanitize=address,undefined"]),
    # data races; reports are handled by the harness
    "tsan": dict(cc="gcc", cxx="g++",
                 flags=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"],
                 link=["-fsanitize=thread"]),
    # uninstrumented, for valgrind
    "plain": dict(cc="gcc", cxx="g++", flags=["-O1", "-g"], link=[]),
    # counts the basic blocks the library enters; the harness is not instrumented
    "steps": dict(cc="gcc", cxx="g++", flags=["-O1", "-g"], link=[],
                  unit_flags=["-fsanitize-coverage=trace-pc"]),
    "cov": dict(cc="gcc", cxx="g++", flags=["-O0", "-g", "--coverage"],
                link=["--coverage"]),
}
COMMON = ["-fcommon", "-fexceptions", "-w", "-pthread"]


class BuildError(Exception):
    pass


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(f):
    with open(f, "rb") as fh:
        return fh.read()


def repo_units():
    """[(source, extra flags)] for everything the four libraries contain."""
    u = []
    for f in sorted(glob.glob(REPO + "/SLIP_LU/Source/*.c")):
        u.append((f, []))
    for f in sorted(glob.glob(REPO + "/AMD/Source/*.c")):
        if os.path.basename(f) == "amd_global.c":
            continue        # not part of the library (see AMD/Lib/Makefile)
        u.append((f, ["-DDINT"]))
        u.append((f, ["-DDLONG"]))
    for f in sorted(glob.glob(REPO + "/COLAMD/Source/*.c")):
        u.append((f, []))
        u.append((f, ["-DDLONG"]))
    for f in sorted(glob.glob(REPO + "/SuiteSparse_config/*.c")):
        u.append((f, []))
    return u


def headers():
    hs = []
    for d in ("SLIP_LU/Include", "SLIP_LU/Source", "AMD/Include",
              "COLAMD/Include", "SuiteSparse_config"):
        hs += sorted(glob.glob("%s/%s/*.h" % (REPO, d)))
    return hs


REDIRECT = []
for _f in ("malloc", "calloc", "realloc", "free"):
    REDIRECT += ["--redefine-sym", "%s=vp_raw_%s" % (_f, _f)]


def compile_one(cmd, src, out, redirect=False):
    if os.path.exists(out):
        return out
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("compile failed: %s\n%s" % (
            src, r.stdout.decode(errors="replace")[-4000:]))
    if redirect:
        # the library's own calls of malloc & co become observable
        subprocess.run(["objcopy"] + REDIRECT + [tmp], check=True)
    os.replace(tmp, out)
    return out


def build(variant, harness_sources, exe, extra_objs=(), extra_units=(),
          extra_link=(), redirect=True, cxxflags=(), cflags=()):
    """Return the path of the linked harness."""
    v = VARIANTS[variant]
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    hh = _hash(*[_read(h) for h in headers()])
    vh = _hash(*[_read(h) for h in sorted(
        glob.glob(VERIF + "/harness/*.hpp"))])
    jobs = []
    for src, ex in list(repo_units()) + list(extra_units):
        cmd = [v["cc"], "-std=gnu11"] + v["flags"] + v.get("unit_flags", []) + COMMON + ex + list(cflags) + INC
        key = _hash(_read(src), hh, cmd, redirect)
        base = os.path.basename(src)[:-2]
        jobs.append((cmd, src, "%s/%s-%s.o" % (d, base, key), redirect))
    for src in harness_sources:
        cmd = [v["cxx"], "-std=gnu++17"] + v["flags"] + COMMON + INC + list(cxxflags)
        key = _hash(_read(src), hh, vh, cmd)
        base = os.path.basename(src).rsplit(".", 1)[0]
        # the harness files take longest: start them first
        jobs.insert(0, (cmd, src, "%s/%s-%s.o" % (d, base, key)))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    objs += list(extra_objs)
    out = os.path.join(d, "%s-%s" % (exe, _hash(*[os.path.basename(o) for o in objs])))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        cmd = [v["cxx"]] + v["flags"] + v["link"] + ["-pthread", "-o", tmp] + objs + \
            list(extra_link) + ["-lmpfr", "-lgmp", "-lm"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("link failed\n%s" % r.stdout.decode(errors="replace")[-4000:])
        os.replace(tmp, out)
    return out


def build_fortran(leg):
    """The Fortran AMD with bounds checks and sanitizers, and its harness."""
    v = VARIANTS[leg["variant"]]
    d = os.path.join(BUILD, leg["variant"])
    os.makedirs(d, exist_ok=True)
    objs = []
    for f in ("amd.f", "amdbar.f"):
        src = "%s/AMD/Source/%s" % (REPO, f)
        cmd = ["gfortran", "-std=legacy"] + v["flags"] + ["-fcheck=bounds,do", "-w"]
        out = "%s/%s-%s.o" % (d, f, _hash(_read(src), cmd))
        compile_one(cmd, src, out)
        objs.append(out)
    return build(leg["variant"], [os.path.join(VERIF, "harness", x) for x in (
        "main.cpp", leg["src"][0] + ".cpp")], leg["src"][0], extra_objs=objs,
        extra_link=["-lgfortran"])


def build_sliplu(leg):
    """The SLIPLU program inside its harness."""
    demo = REPO + "/SLIP_LU/Demo"
    units = [(demo + "/SLIPLU.c", ["-Dmain=sliplu_main", "-I" + demo]), (demo + "/demos.c", ["-I" + demo])]
    # demos.h is not among the headers that the object keys depend on
    key = _hash(_read(demo + "/demos.h"))
    units = [(f, x + ["-DVP_KEY_" + key]) for f, x in units]
    return build(leg["variant"], [os.path.join(VERIF, "harness", x) for x in (
        "main.cpp", leg["src"][0] + ".cpp")], leg["src"][0], extra_units=units,
        extra_link=["-Wl,--wrap=SLIP_LU_solve"], cxxflags=['-DVP_REPO="%s"' % REPO])


def build_mex(leg):
    """The MATLAB gateways, everything compiled as for MATLAB, and a host."""
    inc = ["-I" + os.path.join(VERIF, "harness", "mex"), "-I%s/SLIP_LU/MATLAB/Source" % REPO]
    hs = glob.glob(REPO + "/SLIP_LU/MATLAB/Source/*.h") + glob.glob(VERIF + "/harness/mex/*.h")
    key = ["-DVP_KEY_" + _hash(*[_read(h) for h in sorted(hs)])]
    units = [(REPO + "/SLIP_LU/MATLAB/SLIP_mex_soln.c", ["-DmexFunction=slip_mex"] + key),
             (REPO + "/AMD/MATLAB/amd_mex.c", ["-DmexFunction=amd_mex"] + key),
             (REPO + "/COLAMD/MATLAB/colamdmex.c", ["-DmexFunction=colamd_mex"] + key),
             (REPO + "/COLAMD/MATLAB/symamdmex.c", ["-DmexFunction=symamd_mex"] + key)]
    units += [(f, key) for f in sorted(glob.glob(REPO + "/SLIP_LU/MATLAB/Source/*.c"))]
    return build(leg["variant"], [os.path.join(VERIF, "harness", x) for x in (
        "main.cpp", leg["src"][0] + ".cpp")], leg["src"][0], extra_units=units,
        cflags=["-DMATLAB_MEX_FILE"] + inc, extra_link=["-Wl,--wrap=SLIP_LU_analyze,--wrap=SLIP_LU_factorize"])


WRAP_ARITH = ["-Wl," + ",".join("--wrap=__gmp%s" % f for f in (
    "z_mul", "z_submul", "z_addmul", "z_divexact", "z_tdiv_q", "z_fdiv_q", "z_cdiv_q", "z_gcd", "z_lcm",
    "q_mul", "q_div", "q_add", "q_sub"))]


def build_steps(leg):
    """The library compiled to count its steps."""
    return build(leg["variant"], [os.path.join(VERIF, "harness", x) for x in (
        "main.cpp", "steps.cpp", leg["src"][0] + ".cpp")], leg["src"][0], extra_link=WRAP_ARITH)


def build_leg(leg):
    srcs = [os.path.join(VERIF, "harness", "main.cpp")] if leg.get("main", True) else []
    srcs += [os.path.join(VERIF, "harness", s + ".cpp") for s in leg["src"]]
    if "builder" in leg:
        return leg["builder"](leg)
    return build(leg["variant"], srcs, leg["src"][0])

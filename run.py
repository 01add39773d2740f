#!/usr/bin/env python3
"""Driver of every check:  run.py <property> [--tier quick|thorough] [--replay FILE]

Builds the library from /repo's working tree together with the harness of the
property, runs the cases in parallel worker processes, confirms crashes and
hangs by running the case alone, prints the verdict, and writes the evidence.
Exit status: 0 held, 1 violated (with a VIOLATION line), 2 no verdict.
"""
import argparse, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
import build as B
import checks as K

VERIF = B.VERIF
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:exitcode=99:"
                    "abort_on_error=0:handle_abort=1:detect_stack_use_after_return=1:"
                    "max_allocation_size_mb=2048:hard_rss_limit_mb=3500:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=0:halt_on_error=0:second_deadlock_stack=1",
    "LC_ALL": "C", "MALLOC_ARENA_MAX": "2",
}
CASE_LIMIT = 90         # seconds one case may take before it is looked at alone
CASE_LIMIT_ALONE = 240
# A check must answer in 900 s.  The changed library may be so slow that the
# cases cannot all be run: with a violation in hand nothing is gained by going on
# after SOON seconds, and LATE is when the cases that still run are given up.
SOON = {"quick": 240, "thorough": 36000}
LATE = {"quick": 780, "thorough": 72000}


def crash_key(err, rc):
    """A short stable name for a crash from the sanitizer output."""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = "asan-" + m.group(1)
    else:
        m = re.search(r"runtime error: ([^\n]{0,60})", err)
        if m:
            kind = "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(
                r"0x[0-9a-f]+|-?[0-9.e+]+", "", m.group(1).lower())).strip("-")[:40]
        else:
            m = re.search(r"WARNING: ThreadSanitizer: ([\w ]+)", err)
            if m:
                kind = "tsan-" + m.group(1).strip().replace(" ", "-")
            elif "Valgrind" in err or "== Invalid" in err or "uninitialised" in err:
                kind = "memcheck"
            else:
                kind = "exit-%d" % rc
    frame = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\w+)[^\n]*?(/[\w/.]+)", err):
        if "/SLIP_LU/" in m.group(2) or "/AMD/" in m.group(2) or "/COLAMD/" in m.group(2) \
                or "/SuiteSparse_config/" in m.group(2):
            frame = ":" + m.group(1)
            break
    return kind + frame


class Worker:
    def __init__(self, cfg, exe, tmp, idx, a, b, seed, tier, alone=False):
        self.a, self.b = a, b
        self.dir = os.path.join(tmp, "w%d" % idx)
        os.makedirs(self.dir)
        f = lambda n: os.path.join(self.dir, n)
        self.stats, self.progress, self.report = f("stats"), f("progress"), f("report")
        env = dict(os.environ)
        env.update(SAN_ENV)
        env["VP_SCRATCH"] = self.dir
        cmd = list(cfg.get("wrap", [])) + [exe, "--prop", cfg["prop"], "--seed", str(seed),
               "--tier", tier, "--from", str(a), "--to", str(b), "--stats", self.stats,
               "--progress", self.progress, "--report", self.report]
        self.out = open(f("stdout"), "wb")
        self.err = open(f("stderr"), "wb")
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=self.out,
                                  stderr=self.err, env=env, cwd=self.dir,
                                  start_new_session=True)
        self.last = None
        self.since = time.time()
        self.limit = min(300, (CASE_LIMIT_ALONE if alone else CASE_LIMIT) * cfg.get("slow", 1))
        self.hung = False

    def at(self):
        try:
            d = open(self.progress, "rb").read(8)
            return struct.unpack("q", d)[0] if len(d) == 8 else self.a
        except OSError:
            return self.a

    def poll(self):
        rc = self.p.poll()
        if rc is None:
            cur = self.at()
            if cur != self.last:
                self.last, self.since = cur, time.time()
            elif time.time() - self.since > self.limit:
                self.hung = True
                self.kill()
                rc = self.p.wait()
        if rc is not None:
            self.out.close()
            self.err.close()
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
        return rc

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def text(self, name, limit=20000):
        try:
            s = open(os.path.join(self.dir, name), "rb").read()
        except OSError:
            return ""
        return s[:limit].decode(errors="replace")


def read_known():
    known, path = {}, os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", line)
                if m:
                    known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--keep", action="store_true")
    args = ap.parse_args()
    prop, tier = args.prop, args.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    legs = K.CHECKS[prop]["legs"]
    rep = None
    if args.replay:
        rep = json.load(open(args.replay))
        seed, tier = rep["seed"], rep["tier"]

    # --- build ---------------------------------------------------------------
    try:
        exes = [B.build_leg(leg) for leg in legs]
    except B.BuildError as e:
        print("cannot build: %s" % e)
        return 2
    t_build = time.time() - t0

    tmp = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    known = read_known().get(prop, {})
    viol = []           # (leg, case, key, msg)
    counts, sigs, samples = {}, set(), []
    inconclusive = []
    nworker = [0]

    def start(leg, exe, a, b, alone=False):
        nworker[0] += 1
        cfg = dict(leg, prop=prop)
        return Worker(cfg, exe, tmp, nworker[0], a, b, seed, tier, alone)

    def harvest(w, leg):
        for line in w.text("report", 4000000).splitlines():
            f = line.split("\t", 3)
            if len(f) == 4 and f[0] == "V":
                viol.append((leg["name"], int(f[1]), f[2], f[3]))
        if not os.path.exists(w.stats):
            return
        for line in open(w.stats, errors="replace"):
            f = line.rstrip("\n").split("\t")
            if f[0] == "C" and len(f) == 3:
                k, v = f[1], int(f[2])
                if k.startswith("max:"):
                    counts[k] = max(counts.get(k, 0), v)
                else:
                    counts[k] = counts.get(k, 0) + v
            elif f[0] == "D":
                sigs.add(f[1])
            elif f[0] == "S" and len(samples) < 6:
                samples.append(f[1][:1200])

    def alone(leg, exe, case):
        w = start(leg, exe, case, case + 1, True)
        while w.poll() is None:
            time.sleep(0.05)
        return w

    try:
        stop = False
        for leg, exe in zip(legs, exes):
            if stop:
                break
            if rep and rep["leg"] != leg["name"]:
                continue
            n = args.cases or leg["cases"][tier]
            if rep:
                ranges = [(rep["case"], rep["case"] + 1)]
            else:
                per = max(1, min(leg.get("chunk", 10 ** 9), (n + 31) // 32))
                ranges = [(a, min(n, a + per)) for a in range(0, n, per)]
            jobs = leg.get("jobs", 8)
            running, ncrash = [], 0
            while ranges or running:
                while ranges and len(running) < jobs and sum(v[2] not in known for v in viol) < 60 and ncrash < 12:
                    a, b = ranges.pop(0)
                    running.append(start(leg, exe, a, b))
                if not running:
                    break
                time.sleep(0.02)
                nv = sum(v[2] not in known for v in viol)
                if not nv and time.time() - t0 > SOON[tier]:
                    nv = sum(l.startswith("V\t") and l.split("\t")[2] not in known
                             for w in running for l in w.text("report").splitlines() if l.count("\t") >= 3)
                if (nv >= 60 or (nv and (time.time() - t0 > SOON[tier] or any(v[2] == "hang" for v in viol)))
                        or time.time() - t0 > LATE[tier]):
                    for w in running:
                        w.kill()
                        w.p.wait()
                        w.poll()
                        harvest(w, leg)
                        if not nv:
                            inconclusive.append("case %d: no time left" % w.at())
                    running, ranges = [], []
                    stop = True
                    break
                for w in list(running):
                    rc = w.poll()
                    if rc is None:
                        continue
                    running.remove(w)
                    harvest(w, leg)
                    if not w.hung and rc == 0:
                        shutil.rmtree(w.dir, ignore_errors=True)
                        continue
                    case = w.at()
                    if rc == 3:
                        inconclusive.append("case %d: harness error" % case)
                        continue
                    ncrash += 1
                    # run the case alone to decide what happened
                    v = alone(leg, exe, case)
                    rc2 = v.p.returncode
                    if v.hung:
                        viol.append((leg["name"], case, "hang", "the case does not end (%d s alone)" % v.limit))
                    elif rc2 not in (0, 3):
                        err = v.text("stderr")
                        viol.append((leg["name"], case, crash_key(err, rc2), "crash: " + " ".join(
                            err.split("\n")[0:12])[:1500]))
                    elif w.hung:
                        inconclusive.append("case %d took long once, ended alone" % case)
                        harvest(v, leg)
                    else:
                        # depends on what ran before in the same process
                        w2 = start(leg, exe, w.a, case + 1)
                        while w2.poll() is None:
                            time.sleep(0.05)
                        if w2.p.returncode not in (0, 3) and not w2.hung:
                            err = w2.text("stderr")
                            viol.append((leg["name"], case, "history-" + crash_key(err, w2.p.returncode),
                                         "crash after cases %d..%d: " % (w.a, case) + " ".join(
                                             err.split("\n")[0:12])[:1500]))
                        else:
                            inconclusive.append("case %d: exit %s not reproduced: %s" % (
                                case, rc, w.text("stderr", 300)))
                    if case + 1 < w.b and not rep:
                        ranges.append((case + 1, w.b))
                    if v.hung or time.time() - t0 > SOON[tier]:
                        break       # running a case alone takes long: look at the clock first
    finally:
        if not args.keep:
            shutil.rmtree(tmp, ignore_errors=True)

    # --- verdict -------------------------------------------------------------
    seen_known, fresh = {}, {}
    for leg, case, key, msg in viol:
        if key in known:
            seen_known.setdefault(key, (leg, case, msg))
        else:
            fresh.setdefault(key, (leg, case, msg))
    wall = time.time() - t0
    if rep:
        for leg, case, key, msg in viol:
            print("case %d: %s: %s" % (case, key, msg))
        print("replayed: %s" % ("violation" if viol else "held"))
        if any(v[2] not in known for v in viol):
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
            return 1
        return 0
    ck = K.CHECKS[prop]
    ev = dict(property=prop, tier=tier, seed=seed, level=ck.get("level", "exploration"),
              coverage=dict(evaluations=counts.get(ck.get("count", "cases"), counts.get("cases", 0)),
                            distinct_nontrivial=len(sigs), rule=ck["rule"],
                            samples=samples[:5] or ["(none)"],
                            observed={k: v for k, v in sorted(counts.items())},
                            legs=[dict(name=l["name"], variant=l["variant"], cases=(args.cases or l["cases"][tier])) for l in legs],
                            inconclusive=inconclusive[:20], build_s=round(t_build, 2)),
              wall_s=round(wall, 2), violations=len(fresh), assumptions=ck.get("assumptions", []))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for key in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s (case %d)" % (prop, known[key], seen_known[key][1]))
    rdir = os.path.join(VERIF, "evidence", "replay")
    for key in sorted(fresh):
        leg, case, msg = fresh[key]
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d.json" % (prop, re.sub(r"[^\w-]", "_", key)[:60], case))
        with open(path, "w") as f:
            json.dump(dict(property=prop, leg=leg, case=case, seed=seed, tier=tier, key=key, message=msg), f, indent=1)
        print("  %s (case %d): %s" % (key, case, msg[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
    for s in inconclusive[:5]:
        print("inconclusive: %s" % s)
    print("%s %s: %d cases, %d distinct, %d violation(s), %.1f s (build %.1f s)" % (
        prop, tier, counts.get("cases", 0), len(sigs), len(fresh), wall, t_build))
    if fresh:
        return 1
    if counts.get("cases", 0) == 0:
        print("no case ran")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Driver: `vp.py check Cxx` decides one property on the current tree of /repo.

Steps: build the symbolic executor if needed; compile /repo's sources, the run-time model and the
harnesses to LLVM bitcode; execute every harness configuration symbolically (nsym + Z3); replay
counterexamples and a sample of explored paths against the native build; write evidence."""
import concurrent.futures as cf, threading, glob, hashlib, itertools, json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
B = os.path.join(V, "build")
NSYM = os.path.join(B, "nsym")
LL = "/usr/lib/llvm-18/bin/"
NCPU = min(8, os.cpu_count() or 1)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BCFLAGS = "-std=c++17 -O1 -Xclang -disable-llvm-passes -DNDEBUG -fno-builtin -U_FORTIFY_SOURCE -D__NO_CTYPE -gline-tables-only -emit-llvm -c -w".split()
NATFLAGS = "-std=c++17 -O2 -g1 -DNDEBUG -w -c".split()
WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"
OPT = "function(sroa,early-cse,simplifycfg)"
VARIANTS = {
    "plain": (["g++"], []),
    "asan": (["clang++"], ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment", "-fno-omit-frame-pointer", "-O1"]),
    "tsan": (["clang++"], ["-fsanitize=thread", "-O1", "-DVP_TSAN"]),
}

class Machinery(Exception):
    pass

def sh(cmd, timeout=600, cwd=None, env=None, check=True):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env)
    if check and r.returncode != 0:
        raise Machinery("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), (r.stderr or r.stdout).decode(errors="replace")[-3000:]))
    return r

def repo_sources():
    src = sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/*/*.cpp"))
    if not src:
        raise Machinery("no sources under %s/src" % REPO)
    return src

INCR = ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + REPO + "/src/miniz"]

def engine():
    sh(["bash", V + "/engine/build.sh"], 1200)

def model_bc():
    """The run-time model does not depend on /repo, so its bitcode is kept."""
    files = sorted(glob.glob(V + "/model/*.cpp") + glob.glob(V + "/model/include/**/*", recursive=True)) + [V + "/harness/vp.h"]
    h = hashlib.sha256(" ".join(BCFLAGS).encode())
    for f in files:
        if os.path.isfile(f):
            h.update(open(f, "rb").read())
    out = os.path.join(B, "model-%s.bc" % h.hexdigest()[:16])
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        sh(["clang++"] + BCFLAGS + ["-I" + V + "/model/include", "-I" + V + "/harness", V + "/model/model.cpp", "-o", tmp])
        os.rename(tmp, out)
    return out

def overrides(h):
    """Whether the harness replaces functions of the library by stubs of its own (first line says so)."""
    return open("%s/harness/%s.cpp" % (V, h)).readline().startswith("// vp: stubs")

class Build:
    def __init__(self, dir, pool):
        self.d = dir; self.pool = pool; self.fut = {}; self.lk = threading.Lock(); self.exes = {}
    def _c(self, key, cmd, out):
        with self.lk:
            if key not in self.fut:
                self.fut[key] = self.pool.submit(lambda: (sh(cmd), out)[1])
            return self.fut[key]
    def repo_bc(self, src):
        o = os.path.join(self.d, "r_" + hashlib.md5(src.encode()).hexdigest()[:8] + ".bc")
        return self._c(("bc", src), ["clang++"] + BCFLAGS + ["-I" + V + "/model/include"] + INCR + [src, "-o", o], o)
    def harness_bc(self, h):
        o = os.path.join(self.d, h + ".h.bc")
        return self._c(("hbc", h), ["clang++"] + BCFLAGS + ["-I" + V + "/model/include", "-I" + V + "/harness"] + INCR + ["%s/harness/%s.cpp" % (V, h), "-o", o], o)
    def nat(self, variant, src, tag):
        cc, fl = VARIANTS[variant]
        o = os.path.join(self.d, "%s_%s.o" % (variant, tag))
        return self._c((variant, tag), cc + NATFLAGS + fl + ["-I" + V + "/harness"] + INCR + [src, "-o", o], o)
    def start_bc(self, hs):
        for s in repo_sources(): self.repo_bc(s)
        for h in hs: self.harness_bc(h)
    def start_nat(self, hs, variant):
        for s in repo_sources(): self.nat(variant, s, hashlib.md5(s.encode()).hexdigest()[:8])
        self.nat(variant, V + "/native/rt.cpp", "rt")
        for h in hs: self.nat(variant, "%s/harness/%s.cpp" % (V, h), h)
    def bitcode(self, h):
        out = os.path.join(self.d, h + ".bc")
        if not os.path.exists(out):
            t = os.path.join(self.d, h + ".l.bc")
            hb = self.harness_bc(h).result(); rest = [model_bc()] + [self.repo_bc(s).result() for s in repo_sources()]
            sh([LL + "llvm-link"] + (rest + ["--override=" + hb] if overrides(h) else [hb] + rest) + ["-o", t])
            sh([LL + "opt", "-passes=" + OPT, t, "-o", out])
        return out
    def native(self, h, variant):
        out = os.path.join(self.d, "%s_%s.exe" % (variant, h))
        with self.lk: one = self.exes.setdefault((h, variant), threading.Lock())
        with one:
            if os.path.exists(out): return out
            self.start_nat([h], variant)
            stub = ["-Wl,-z,muldefs"] if overrides(h) else []
            objs = [self.nat(variant, s, hashlib.md5(s.encode()).hexdigest()[:8]).result() for s in repo_sources()]
            objs = [self.nat(variant, "%s/harness/%s.cpp" % (V, h), h).result(), self.nat(variant, V + "/native/rt.cpp", "rt").result()] + objs
            cc, fl = VARIANTS[variant]
            tmp = out + ".tmp"
            sh(cc + fl + stub + objs + [WRAP, "-pthread", "-o", tmp]); os.rename(tmp, out)
            return out

def run_native(exe, wit, timeout=30, valgrind=False):
    d = tempfile.mkdtemp(prefix="files", dir=os.path.dirname(exe))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=6000", UBSAN_OPTIONS="print_stacktrace=1", TSAN_OPTIONS="halt_on_error=0:exitcode=66")
    cmd = [exe, wit, d, str(timeout)]
    if valgrind:
        cmd = ["valgrind", "--quiet", "--show-mismatched-frees=no", "--error-exitcode=99", "--track-origins=no", "--leak-check=no"] + cmd
    try:
        r = subprocess.run(["prlimit", "--as=%d" % (12 << 30)] + cmd if "plain" in exe and not valgrind else cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout + 5, env=env)
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 88, "", "timeout"
    finally:
        shutil.rmtree(d, ignore_errors=True)

MEMK = {"out-of-bounds", "use-after-free", "null-dereference", "wild-pointer", "bad-free", "write-to-constant"}
UBK = {"unreachable", "undefined-shift", "division-by-zero", "division-overflow"}

def replay(bld, h, wit, kind):
    """Returns (confirmed, how)."""
    order = ["plain"]
    if kind in MEMK or kind in UBK or kind in ("assume", "trap"): order = ["asan", "plain"]
    elif kind == "uninitialised": order = ["valgrind", "plain"]
    elif kind == "shared-state": order = ["tsan", "plain"]
    elif kind == "hang": order = ["plain"]
    note = ""
    for v in order:
        exe = bld.native(h, "plain" if v == "valgrind" else v)
        rc, out, err = run_native(exe, wit, 20, v == "valgrind")
        fails = [l for l in out.splitlines() if l.startswith("FAIL")]
        if rc == 77 or "ASSUME" in out.splitlines():
            note += "%s: assumption not met; " % v; continue
        if fails: return True, "%s run: %s" % (v, "; ".join(fails[:3]))
        if v == "asan" and ("ERROR: AddressSanitizer" in err or "runtime error:" in err):
            m = re.search(r"(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error:[^\n]*)", err)
            return True, "sanitizer run: " + m.group(1).strip()[:300]
        if v == "tsan" and "WARNING: ThreadSanitizer" in err:
            m = re.search(r"(WARNING: ThreadSanitizer[^\n]*)", err)
            return True, "two threads under ThreadSanitizer: " + m.group(1)
        if v == "valgrind" and rc == 99: return True, "valgrind run: " + (err.splitlines() or [""])[0][:200]
        if rc == 88: return True, "%s run does not finish" % v
        if rc < 0 or rc in (134, 136, 139): return True, "%s run ends with signal %d" % (v, -rc if rc < 0 else rc - 128)
        note += "%s: exit %d; " % (v, rc)
    return False, note

def parse_wit(path):
    ins, obs, reach = [], [], []
    for l in open(path):
        f = l.rstrip("\n").split(" ")
        if f[0] == "in": ins.append((f[1], f[2] if len(f) > 2 else ""))
        elif f[0] == "obs": obs.append((f[1], f[2] if len(f) > 2 else ""))
        elif f[0] == "reach": reach.append(l.rstrip("\n")[6:])
    return ins, obs, reach

def validate(bld, h, wit):
    """Runs one explored path natively and compares everything it observed."""
    ins, obs, reach = parse_wit(wit)
    rc, out, err = run_native(bld.native(h, "plain"), wit, 60)
    nobs = [tuple((l.split(" ", 2) + [""])[1:3]) for l in out.splitlines() if l.startswith("obs ")]
    nreach = sorted(set(l[6:] for l in out.splitlines() if l.startswith("reach ")))
    if rc != 0: return False, "native exit %d %s" % (rc, [l for l in out.splitlines() if l.startswith("FAIL")][:2])
    if len(obs) != len(nobs): return False, "%d observations, native %d" % (len(obs), len(nobs))
    for a, b in zip(obs, nobs):
        if a[0] != b[0] or (a[1] != "?" and a[1] != b[1]): return False, "observation %s: %s, native %s %s" % (a[0], a[1][:80], b[0], b[1][:80])
    if sorted(set(reach)) != nreach: return False, "reached %s, native %s" % (sorted(set(reach)), nreach)
    return True, ""

def expand(job, tier):
    ps = job.get("p", {})
    if tier == "thorough" and "pt" in job: ps = dict(ps, **job["pt"])
    keys = sorted(ps)
    out = []
    for combo in itertools.product(*[ps[k] if isinstance(ps[k], (list, range)) else [ps[k]] for k in keys]):
        d = dict(zip(keys, combo))
        if "when" in job and not job["when"](d): continue
        out.append(d)
    return out

def run_job(bc, d, name, params, o, samples):
    out = os.path.join(d, name + ".json")
    cmd = [NSYM, bc, "-o", out, "--wit", d, "--tag", name, "--time", str(o["time"]), "--qtime", str(o.get("qtime", 20000)), "--samples", str(o.get("samples", samples)), "--sample-every", str(o.get("every", 1)), "--seed", str(SEED), "--errors", str(o.get("errors", 6)), "--insts", str(o.get("insts", 40000000)), "--repo", REPO]
    for k, v in params.items(): cmd += ["-p", "%s=%s" % (k, v)]
    if o.get("tables"): cmd += ["--tables"]
    if "bigalloc" in o: cmd += ["--bigalloc", str(o["bigalloc"])]
    t = time.time()
    try:
        r = subprocess.run(["prlimit", "--as=%d" % (int(o.get("mem", 8)) << 30)] + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=o["time"] * 1.5 + 60)
    except subprocess.TimeoutExpired:
        return {"crash": "killed after the time limit"}
    if r.returncode != 0 or not os.path.exists(out):
        return {"crash": "nsym exit %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[-400:])}
    try: j = json.load(open(out))
    except Exception as e: return {"crash": "unreadable result: %s" % e}
    j["wall"] = time.time() - t
    return j

def known_findings():
    out = []
    f = V + "/known_findings.txt"
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) match=(.+?) :: (.*)", l.strip())
            if m: out.append((m.group(1), m.group(2), m.group(3)))
    return out

def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE, timeout=20)
        return r.stdout.decode().splitlines()
    except Exception:
        return list(names)

def check(prop, tier):
    sys.path.insert(0, V)
    import checks
    c = checks.CHECKS[prop]
    t0 = time.time()
    engine()
    d = os.path.join(B, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    rdir = os.path.join(V, "evidence", "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    keep = os.environ.get("VP_KEEP")
    try:
        pool = cf.ThreadPoolExecutor(NCPU)
        bld = Build(d, cf.ThreadPoolExecutor(NCPU)) # a pool of its own: replays wait for builds
        jobs = []
        for j in c["jobs"]:
            if tier == "quick" and j.get("tier") == "thorough": continue
            for ps in expand(j, tier): jobs.append((j, ps))
        hs = sorted(set(j["h"] for j, _ in jobs))
        bld.start_bc(hs)
        bld.start_nat(hs, "plain")
        bcs = {h: bld.bitcode(h) for h in hs}
        nwant = c.get("samples", 60 if tier == "quick" else 200)
        per = max(2, nwant // max(1, len(jobs)))
        res = []
        futs = []
        for i, (j, ps) in enumerate(jobs):
            o = dict(j); o["time"] = j.get("time", 60) if tier == "quick" else j.get("time_t", max(300, j.get("time", 60)))
            if "insts_t" in j and tier != "quick": o["insts"] = j["insts_t"]
            futs.append((j, ps, pool.submit(run_job, bcs[j["h"]], d, "%s-%d" % (j["h"], i), ps, o, per)))
        tot = dict(paths=0, forks=0, instructions=0, symbolic_branches=0, mem_checks=0, checks=0, checks_solver=0, checks_folded=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0)
        maxq = 0.0; funcs = {}; reached = set(); incomplete = {}; ended = {}; crashes = []; errs = {}; samples = []
        for j, ps, f in futs:
            r = f.result()
            if "crash" in r: crashes.append("%s %s: %s" % (j["h"], ps, r["crash"])); continue
            for k in tot: tot[k] += r.get(k, 0)
            if os.environ.get("VP_V"): print("  %s %s: %.1f s, %d paths, %d instructions, solver %.1f s %s" % (j["h"], ps, r["wall"], r["paths"], r["instructions"], r["solver_s"], r["incomplete"] or ""))
            maxq = max(maxq, r.get("max_query_s", 0))
            for k, v in r["functions"].items(): funcs[k] = funcs.get(k, 0) + v
            reached |= set(r["reached"])
            for k, v in r["incomplete"].items(): incomplete[k] = incomplete.get(k, 0) + v
            for k, v in r["ended"].items(): ended[k] = ended.get(k, 0) + v
            for e in r["errors"]:
                key = (j["h"], e["kind"], e["msg"], e["where"])
                if key not in errs: errs[key] = dict(e, params=ps, h=j["h"])
                else: errs[key]["count"] += e["count"]
            samples += [(j["h"], s) for s in r["samples"]]
        # counterexamples
        confirmed, unconfirmed = [], []
        def do(e):
            if not e.get("witness"): return e, False, "no witness"
            ok, how = replay(bld, e["h"], e["witness"], e["kind"])
            return e, ok, how
        todo = sorted(errs.values(), key=lambda e: (e["kind"] != "check", e["where"]))[:24]
        for e, ok, how in pool.map(do, todo):
            if e["kind"] == "hang" and not ok:
                incomplete["step limit at " + e["where"]] = incomplete.get("step limit at " + e["where"], 0) + e["count"]; continue
            (confirmed if ok else unconfirmed).append((e, how))
        # agreement of explored paths with the native build
        import random
        rnd = random.Random(SEED); rnd.shuffle(samples)
        agree, disagree = 0, []
        for (h, w), (ok, why) in zip(samples[:nwant], pool.map(lambda s: validate(bld, *s), samples[:nwant])):
            if ok: agree += 1
            else: disagree.append((w, why))
        # report
        viol = 0; lines = []
        kf = known_findings(); used = set()
        for e, how in confirmed:
            desc = "%s at %s: %s" % (e["kind"], e["where"], e["msg"])
            k = next((x for x in kf if x[0] == prop and x[1] in desc), None)
            if k:
                if k not in used: lines.append("KNOWN-FINDING: property=%s %s" % (prop, k[2])); used.add(k)
                continue
            viol += 1
            os.makedirs(rdir, exist_ok=True)
            dst = os.path.join(rdir, "%s-%d.wit" % (e["h"], viol))
            shutil.copy(e["witness"], dst)
            with open(dst, "a") as f: f.write("# harness %s\n# %s\n# %s\n# %s\n" % (e["h"], desc, e["stack"], how))
            if viol <= 8:
                lines.append("  %s | %s" % (desc, how))
                lines.append("VIOLATION property=%s replay=%s" % (prop, dst))
        for e, how in unconfirmed: lines.append("UNCONFIRMED %s at %s: %s (%s)" % (e["kind"], e["where"], e["msg"], how))
        for w, why in disagree[:5]: lines.append("DISAGREEMENT with the native run: %s" % why)
        for x in crashes: lines.append("JOB FAILED " + x)
        for k, v in sorted(incomplete.items()): lines.append("INCOMPLETE %s x%d" % (k, v))
        missing = [r for r in c.get("reach", []) + (c.get("reach_t", []) if tier != "quick" else []) if r not in reached]
        if missing: lines.append("NOT REACHED " + " ".join(missing))
        dm = dict(zip(sorted(funcs), demangle(sorted(funcs))))
        fl = sorted(set(v for v in dm.values() if not v.startswith("_GLOBAL__") and not v.startswith("__cxx_global")))
        ssum = []
        for h, w in samples[:6]:
            if os.path.exists(w):
                ins, obs, rc = parse_wit(w); ssum.append({"harness": h, "inputs": {k: v[:80] for k, v in ins[:12]}, "observed": {k: v[:80] for k, v in obs[:6]}, "reached": rc})
        ev = {"property": prop, "tier": tier, "seed": SEED, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": viol,
              "coverage": {"states": tot["paths"], "transitions": tot["instructions"], "traces_validated_against_impl": agree, "samples": ssum,
                           "configurations": len(jobs), "configurations_failed": len(crashes), "symbolic_branches": tot["symbolic_branches"], "assertions": tot["checks"], "assertions_discharged_by_solver": tot["checks_solver"], "assertions_folded": tot["checks_folded"], "memory_accesses_checked": tot["mem_checks"],
                           "queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"], "solver_s": round(tot["solver_s"], 2), "max_query_s": round(maxq, 2),
                           "paths_ended": ended, "incomplete": incomplete, "exhaustive_within_bounds": not incomplete and not crashes and not tot["unknown"], "reached": sorted(reached), "functions_encoded": fl, "bounds": c["bounds"], "outside_bounds": c.get("outside", ""),
                           "counterexamples_unconfirmed": [e["kind"] + " " + e["where"] for e, _ in unconfirmed], "disagreements": [x[1] for x in disagree],
                           "explanation": "states are execution paths of the harnesses over the real code, each standing for all inputs that satisfy its path condition; transitions are LLVM instructions executed symbolically"},
              "assumptions": checks.COMMON_ASSUMPTIONS + c.get("assumptions", [])}
        os.makedirs(V + "/evidence", exist_ok=True)
        tmp = V + "/evidence/.%s.%d" % (prop, os.getpid())
        json.dump(ev, open(tmp, "w"), indent=1); os.rename(tmp, V + "/evidence/%s.json" % prop)
        print("%s %s: %d configurations, %d paths, %d instructions, %d assertions (%d by the solver), %d queries in %.1f s, %d paths confirmed natively, %.1f s" % (prop, tier, len(jobs), tot["paths"], tot["instructions"], tot["checks"], tot["checks_solver"], tot["queries"], tot["solver_s"], agree, time.time() - t0))
        for l in lines: print(l)
        if viol: return 1
        if missing or len(crashes) == len(jobs): return 2
        return 0
    finally:
        if not keep: shutil.rmtree(d, ignore_errors=True)
        else: print("kept", d)

def replay_cmd(prop, wit):
    h = next((l.split()[2] for l in open(wit) if l.startswith("# harness")), None)
    d = os.path.join(B, "replay-%d" % os.getpid()); os.makedirs(d)
    try:
        bld = Build(d, cf.ThreadPoolExecutor(NCPU))
        for v in ("plain", "asan"):
            rc, out, err = run_native(bld.native(h, v), wit, 30)
            print("== %s exit %d\n%s%s" % (v, rc, out, err[-3000:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    try:
        if a and a[0] == "setup": os.makedirs(B, exist_ok=True); engine(); model_bc(); sys.exit(0)
        if len(a) >= 2 and a[0] == "check":
            tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
            sys.exit(check(a[1], tier))
        if len(a) == 3 and a[0] == "replay": replay_cmd(a[1], a[2]); sys.exit(0)
        print("usage: vp.py setup | check Cxx [quick|thorough] | replay Cxx WITNESS"); sys.exit(64)
    except Machinery as e:
        print("MACHINERY " + str(e)); sys.exit(2)

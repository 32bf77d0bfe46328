#!/usr/bin/env python3
"""Runs the solver-based check of one property against /repo's working tree.

   run.py <property> [--tier quick|thorough] [--job NAME] [--keep]

1. builds the symbolic executor (engine/) if needed,
2. compiles the library sources of /repo and the harnesses to LLVM bitcode,
3. runs vpsym on every job (a harness with parameters) in parallel,
4. replays every counterexample against a native build of the same sources,
5. writes evidence/<property>.json and reports."""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(V, "build")
ENGINE = os.path.join(BUILD, "engine", "vpsym")
LLVMBIN = "/usr/lib/llvm-18/bin/"
NCPU = int(os.environ.get("VP_JOBS", "0")) or os.cpu_count() or 4
COMMON = ["-march=x86-64-v2", "-maes", "-mpclmul", "-I" + REPO + "/src", "-I" + REPO + "/src/include",
          "-I" + REPO + "/src/include/sse/crypto", "-I" + V + "/harness"]
CXX = ["-std=c++11", "-fno-rtti", "-fno-access-control", "-include", "cstdint", "-include", "stdexcept", "-include", "array"]
SYM = ["-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-emit-llvm", "-w", "-fno-builtin-strlen"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class BuildError(Exception):
    pass

def build_engine():
    r = sh(["make", "-s", "-j%d" % NCPU, "-C", os.path.join(V, "engine"), "B=" + os.path.join(BUILD, "engine")])
    if r.returncode or not os.path.exists(ENGINE):
        raise BuildError("engine: " + r.stdout[-2000:])

def lib_sources():
    """The sources of the sse_crypto library, from /repo's own build file, minus the relic-dependent ones."""
    txt = open(REPO + "/src/CMakeLists.txt").read()
    m = re.search(r"add_library\(\s*sse_crypto\s+SHARED(.*?)\)", txt, re.S)
    names = [x for x in m.group(1).split() if x.endswith((".c", ".cpp"))]
    return [n for n in names if not n.startswith("ppke/") and n not in ("puncturable_enc.cpp",)]

def source_path(n, work):
    p = os.path.join(REPO, "src", n)
    if n != "utils.cpp":
        return p
    out = os.path.join(work, "utils_norelic.cpp")
    if not os.path.exists(out):
        # relic is not installed: its resource handle becomes an empty class
        txt = re.sub(r'#\s*include\s*["<][^">]*relic[^">]*[">]', "namespace relicxx { struct relicResourceHandle { explicit relicResourceHandle(bool) {} "
                     "bool isInitialized() { return true; } }; }", open(p).read())
        with open(out, "w") as f:
            f.write('#line 1 "%s"\n' % p + txt)
    return out

def limb8_sources(work):
    """bignum.c with 8-bit limbs: the same source under other typedefs (and without the assembly kernel)"""
    inc = os.path.join(work, "limb8")
    d = os.path.join(inc, "mbedtls")
    shutil.copytree(REPO + "/src/mbedtls", d)
    h = open(d + "/bignum.h").read()
    for name, ty in (("mbedtls_mpi_sint", "_BitInt(8)"), ("mbedtls_mpi_uint", "unsigned _BitInt(8)"), ("mbedtls_t_udbl", "unsigned _BitInt(16)")):
        h = re.sub(r"typedef\s+[^;]*\b%s\b[^;]*;" % name, "typedef %s %s;" % (ty, name), h)
    open(d + "/bignum.h", "w").write(h)
    c = open(d + "/bn_mul.h").read()
    open(d + "/bn_mul.h", "w").write(re.sub(r"(?m)^#\s*if defined\(MBEDTLS_HAVE_ASM\).*$", "#if 0", c))
    return inc

def compile_many(jobs):
    """jobs: list of (cmd, out); raises BuildError on failure"""
    errs = []
    def one(j):
        r = sh(j[0])
        if r.returncode:
            errs.append(" ".join(j[0][-3:]) + "\n" + r.stdout[-1500:])
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, jobs))
    if errs:
        raise BuildError("\n".join(errs[:3]))

def build_bitcode(work, harnesses, drop_default):
    """returns {(harness, variant): linked bitcode}; harnesses: dict key -> dict(src, defines, drop, lock)"""
    variants = sorted({h.get("lock", True) for h in harnesses.values()})
    cc, objs = [], {}
    source_path("utils.cpp", work)
    for lock in variants:
        d = os.path.join(work, "bc-lock" if lock else "bc-nolock")
        os.makedirs(d, exist_ok=True)
        fl = ["-DENABLE_MEMORY_LOCK"] if lock else []
        for n in lib_sources():
            if n == "tdp_impl/tdp_impl_openssl.cpp":
                continue
            o = os.path.join(d, n.replace("/", "_") + ".bc")
            objs.setdefault(lock, []).append((n, o))
            if n.endswith(".cpp"):
                cc.append((["clang++"] + SYM + COMMON + CXX + fl + ["-c", source_path(n, work), "-o", o], o))
            else:
                cc.append((["clang"] + SYM + COMMON + ["-std=gnu99"] + fl + ["-c", source_path(n, work), "-o", o], o))
    so = os.path.join(work, "support.bc")
    cc.append((["clang++"] + SYM + COMMON + ["-std=c++11", "-c", os.path.join(V, "harness", "support.cpp"), "-o", so], so))
    if any(h.get("limb8") for h in harnesses.values()):
        inc = limb8_sources(work)
        o = os.path.join(work, "bignum8.bc")
        cc.append((["clang"] + SYM + COMMON[:3] + ["-std=gnu99", "-c", os.path.join(inc, "mbedtls", "bignum.c"), "-o", o], o))
    for k, h in harnesses.items():
        o = os.path.join(work, k + ".h.bc")
        fl = ["-DENABLE_MEMORY_LOCK"] if h.get("lock", True) else []
        if h.get("limb8"):
            fl += ["-I" + os.path.join(work, "limb8"), "-DLIMB8"]
        cc.append((["clang++"] + SYM + (COMMON[:3] + fl + COMMON[3:] if h.get("limb8") else COMMON + fl) + CXX + h.get("defines", []) +
                   ["-DVP_SYMBOLIC", "-c", os.path.join(V, "harness", h["src"]), "-o", o], o))
        if h.get("override"):
            o = os.path.join(work, k + ".stub.bc")
            cc.append((["clang"] + SYM + ["-c", os.path.join(V, "harness", h["stub"]), "-o", o], o))
    compile_many(cc)
    res = {}
    lk = []
    for k, h in harnesses.items():
        out = os.path.join(work, k + ".bc")
        drop = set(h.get("drop", []))
        mods = [o for n, o in objs[h.get("lock", True)] if n not in drop and ("only" not in h or n in h["only"])]
        if h.get("limb8"):
            mods = [os.path.join(work, "bignum8.bc")]
        hb = os.path.join(work, k + ".h.bc")
        lk.append(([LLVMBIN + "llvm-link", so] + mods + [hb] + (["--override=" + os.path.join(work, k + ".stub.bc")] if h.get("override") else []) + ["-o", out], out))
        res[k] = out
    compile_many(lk)
    return res

class Native:
    """native build of the same sources and harness, for replay"""
    def __init__(self, work):
        self.work, self.done, self.lock = work, {}, threading.Lock()
    def exe(self, key, h, san):
        with self.lock:
            if (key, san) in self.done:
                return self.done[(key, san)]
            lockon = h.get("lock", True)
            d = os.path.join(self.work, "native-%d-%d" % (lockon, san))
            os.makedirs(d, exist_ok=True)
            fl = ["-g", "-O0", "-w", "-ftrivial-auto-var-init=pattern"] + (["-DENABLE_MEMORY_LOCK"] if lockon else [])
            if san:
                fl += ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment,null,nonnull-attribute", "-fno-sanitize-recover=undefined"]
            cc, objs = [], []
            srcs = [n for n in lib_sources()]
            for n in srcs:
                if n == "tdp_impl/tdp_impl_openssl.cpp":
                    continue
                o = os.path.join(d, n.replace("/", "_") + ".o")
                objs.append((n, o))
                if os.path.exists(o):
                    continue
                if n.endswith(".cpp"):
                    cc.append((["g++"] + fl + COMMON + CXX + ["-c", source_path(n, self.work), "-o", o], o))
                else:
                    cc.append((["gcc"] + fl + COMMON + ["-std=gnu99", "-c", source_path(n, self.work), "-o", o], o))
            ho, ro = os.path.join(d, key + ".h.o"), os.path.join(d, "rt.o")
            cc.append((["g++"] + fl + COMMON + CXX + h.get("defines", []) + ["-c", os.path.join(V, "harness", h["src"]), "-o", ho], ho))
            cc.append((["g++", "-g", "-O0", "-w", "-std=c++11"] + COMMON + ["-c", os.path.join(V, "native", "rt.cpp"), "-o", ro], ro))
            stub = []
            if h.get("override"):
                stub = [os.path.join(d, key + ".stub.o")]
                cc.append((["gcc", "-c", os.path.join(V, "harness", h["stub"]), "-o", stub[0]], stub[0]))
            compile_many(cc)
            out = os.path.join(d, key + ".exe")
            drop = set(h.get("drop_native", []))
            if h.get("override"):
                for i, (n, o) in enumerate(objs):
                    w = o + "." + key + ".o"
                    r = sh(["objcopy"] + ["--weaken-symbol=" + x for x in h["override"]] + [o, w])
                    if r.returncode:
                        raise BuildError("objcopy: " + r.stdout[-500:])
                    objs[i] = (n, w)
            wrap = ["-Wl," + ",".join("--wrap=" + x for x in ("malloc", "calloc", "free", "sodium_malloc", "sodium_allocarray", "sodium_free"))]
            r = sh(["g++"] + fl + [ho, ro] + stub + [o for n, o in objs if n not in drop] + wrap + ["-lsodium", "-lgmp", "-lpthread", "-o", out])
            if r.returncode:
                raise BuildError("native link: " + r.stdout[-2000:])
            self.done[(key, san)] = out
            return out
    def replay(self, key, h, rfile):
        """-> (confirmed, text)"""
        txt = ""
        for san in (0, 1):
            exe = self.exe(key, h, san)
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1",
                       UBSAN_OPTIONS="exitcode=98:print_stacktrace=0")
            try:
                r = subprocess.run([exe, rfile], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=90, env=env,
                                   cwd=self.work, errors="replace", text=True)
                rc, o = r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                rc, o = -14, "timeout"
            tail = "\n".join(o.strip().split("\n")[:12])
            txt += "[%s build] exit %d\n%s\n" % ("sanitizer" if san else "plain", rc, tail)
            if rc not in (0, 77, 3):
                return True, txt
        return False, txt

def run_job(job, bc, work, deadline, procs):
    out = os.path.join(work, "res-" + job["name"] + ".json")
    secs = max(5, min(job["secs"], deadline - time.time()))
    cmd = [ENGINE, bc, "-o", out, "--secs", str(secs), "--scratch", work, "--repo", REPO + "/"] + job.get("opts", [])
    for k, v in job["params"].items():
        cmd += ["-p", "%s=%d" % (k, v)]
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.RLIM_INFINITY))
        os.setsid()
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lim)
    procs.append(p)
    try:
        so, se = p.communicate(timeout=secs + 150)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.communicate()
        return {"job": job["name"], "error": "hard timeout", "wall": time.time() - t}
    if rc != 0 or not os.path.exists(out):
        return {"job": job["name"], "error": "engine exit %s: %s" % (rc, se.decode(errors="replace")[-400:]), "wall": time.time() - t}
    r = json.load(open(out))
    r["job"] = job["name"]
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--job")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    import checks
    chk = checks.get(a.prop, a.tier)
    budget = chk.get("budget", 700 if a.tier == "quick" else 3600)
    deadline = t0 + budget
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % a.prop, dir=BUILD)
    code = 2
    try:
        code = check(a, chk, work, t0, deadline)
    except BuildError as e:
        print("BUILD-ERROR", e)
        code = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)

def check(a, chk, work, t0, deadline):
    build_engine()
    jobs = [j for j in chk["jobs"] if not a.job or re.search(a.job, j["name"])]
    keys = {j["harness"] for j in jobs}
    hs = {k: v for k, v in chk["harnesses"].items() if k in keys}
    bcs = build_bitcode(work, hs, [])
    tb = time.time()
    native = Native(work)
    known = load_known(a.prop)
    procs, results, confirmed, unconfirmed, knownhits = [], [], [], [], []
    stop = threading.Event()
    def go(j):
        if stop.is_set():
            return {"job": j["name"], "skipped": True}
        if time.time() > deadline - 5:
            return {"job": j["name"], "error": "not started: out of time"}
        return run_job(j, bcs[j["harness"]], work, deadline, procs)
    jobs_by = {j["name"]: j for j in jobs}
    assert len(jobs_by) == len(jobs), "duplicate job names"
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    with ThreadPoolExecutor(NCPU) as ex:
        futs = [ex.submit(go, j) for j in jobs]
        for f in as_completed(futs):
            r = f.result()
            if r.get("skipped"):
                continue
            if stop.is_set():
                continue
            results.append(r)
            if a.v:
                print("  job %-28s wall %6.1f paths %-6s queries %-6s viol %d %s" % (r["job"], r.get("wall", 0), r.get("paths"), r.get("queries"),
                      len(r.get("violations", [])), (r.get("error") or "") + " ".join(r.get("inconclusive", []))[:300]))
                sys.stdout.flush()
            if stop.is_set():
                continue
            j = jobs_by[r["job"]]
            for i, v in enumerate(r.get("violations", [])):
                rf = os.path.join(rdir, "%s-%s-%d.txt" % (a.prop, r["job"], i))
                with open(rf, "w") as g:
                    g.write("# property %s job %s harness %s\n# %s: %s\n# at %s\n" % (a.prop, r["job"], hs[j["harness"]]["src"], v["kind"], v["msg"], v["where"]))
                    for l in v["trace"].strip().split("\n"):
                        g.write("#   " + l + "\n")
                    for k, x in j["params"].items():
                        g.write("#param %s %d\n" % (k, x))
                    for n, x in v["inputs"]:
                        g.write("%s %s\n" % (n, x))
                ok, txt = native.replay(j["harness"], hs[j["harness"]], rf)
                with open(rf, "a") as g:
                    for l in txt.strip().split("\n"):
                        g.write("# replay: " + l + "\n")
                v["replay"], v["job"] = rf, r["job"]
                if not ok:
                    unconfirmed.append(v)
                    if a.v: print("  UNCONFIRMED %s %s: %s at %s (%s)" % (r["job"], v["kind"], v["msg"], v["where"], rf))
                    continue
                k = match_known(known, r["job"], v)
                if k:
                    knownhits.append((k, v))
                    continue
                confirmed.append(v)
                stop.set()
                break
            if stop.is_set():
                for p in procs:
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except OSError: pass
    # vacuity: every expected cover of every finished job
    vac = []
    for r in results:
        if "covers" not in r:
            continue
        for c in jobs_by[r["job"]].get("covers", chk.get("covers", [])):
            if c not in r["covers"]:
                vac.append("%s: %s not reached" % (r["job"], c))
    write_evidence(a, chk, jobs, results, confirmed, unconfirmed, knownhits, vac, t0, tb)
    for k, v in {id(k): (k, v) for k, v in knownhits}.values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    inc = sum(len(r.get("inconclusive", [])) + (1 if r.get("error") else 0) for r in results)
    print("%s %s: %d jobs, %d paths, %d queries, %.1f s solver, %d counterexamples confirmed, %d unconfirmed, %d inconclusive, %d vacuous, %.1f s" % (
        a.prop, a.tier, len(results), sum(r.get("paths", 0) for r in results), sum(r.get("queries", 0) for r in results),
        sum(r.get("solver_secs", 0) for r in results), len(confirmed), len(unconfirmed), inc, len(vac), time.time() - t0))
    for r in results:
        for s in r.get("inconclusive", []):
            print("  inconclusive %s: %s" % (r["job"], s))
        if r.get("error"):
            print("  inconclusive %s: %s" % (r["job"], r["error"]))
    for s in vac:
        print("  vacuous", s)
    if confirmed:
        v = confirmed[0]
        print("  %s: %s at %s (job %s)" % (v["kind"], v["msg"], v["where"], v["job"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, v["replay"]))
        return 1
    return 0

def load_known(prop):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]

def match_known(known, job, v):
    for k in known:
        if re.search(k["job"], job) and re.search(k["msg"], v["msg"]) and re.search(k["where"], v["where"]):
            return k
    return None

def write_evidence(a, chk, jobs, results, confirmed, unconfirmed, knownhits, vac, t0, tb):
    fns = sorted({f for r in results for f in r.get("functions", [])})
    S = lambda k: sum(r.get(k, 0) for r in results)
    samples = []
    for r in results:
        samples.append({k: r.get(k) for k in ("job", "wall", "paths", "forks", "merges", "steps", "queries", "solver_secs", "max_query", "asserts", "asserts_trivial",
                                              "asserts_solved", "mem_checks", "covers", "inconclusive", "error", "notes") if r.get(k) not in (None, [], {})})
    cov = {"states": S("paths") + S("merges"), "transitions": S("steps"), "traces_validated_against_impl": len(confirmed) + len(unconfirmed) + len(knownhits),
           "samples": samples, "bounds": chk["bounds"], "functions_encoded": fns, "queries": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"),
           "queries_unknown": S("unknown"), "solver_s": round(S("solver_secs"), 2), "assertions_discharged_structurally": S("asserts_trivial"),
           "assertions_discharged_by_solver": S("asserts_solved"), "memory_safety_checks": S("mem_checks"),
           "unconfirmed_counterexamples": [{"msg": v["msg"], "where": v["where"], "job": v["job"]} for v in unconfirmed][:20],
           "inconclusive": sum(len(r.get("inconclusive", [])) + (1 if r.get("error") else 0) for r in results), "vacuous": vac,
           "jobs_planned": len(jobs), "jobs_finished": len([r for r in results if not r.get("error")]),
           "explanation": "states = symbolic paths explored plus merged paths; transitions = LLVM instructions executed symbolically; "
                          "every assertion and memory-safety check is decided for all values of the symbolic inputs within the bounds"}
    ev = {"property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
          "assumptions": checks_assumptions(chk), "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    d = os.path.join(V, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

def checks_assumptions(chk):
    import checks
    return checks.GLOBAL_ASSUMPTIONS + chk.get("assumptions", [])

if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Driver: decides the properties of /verif/properties.jsonl by symbolic execution of the code in /repo.

  vf.py setup                 build the engine and the caches
  vf.py check W01             run the check of one property (tier from VERIF_TIER or --tier)
  vf.py all [--tier T]        run every check
  vf.py replay FILE           replay a recorded violation natively

Exit status of `check`: 0 held on everything explored, 1 violation (VIOLATION line on stdout).
"""
import hashlib, json, os, re, shutil, subprocess, sys, time, tempfile, glob, sysconfig, threading
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
JOBS = int(os.environ.get("VF_JOBS", "8"))
SHIM = os.path.join(VERIF, "engine/shim")
HARN = os.path.join(VERIF, "harness")
SRC = os.path.join(VERIF, "engine/src")
INC = ["GcodeProcessorLib", "ArcWelder", "ArcWelderInverseProcessor"]
XINC = ["ArcWelderConsole", "TCLAP", "PyArcWelder"]      # included by the console and Python harnesses only
PYINC = ["-I", sysconfig.get_paths()["include"]]
GEN = os.path.join(BUILD, "gen")
REPLACE = {"_ZN9utilities4dtosB5cxx11Edh": "vf_dtos"}
PUBLIC = "vf_main,main,vf_dtos"

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def run(cmd, timeout=900, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)
    return p.returncode, p.stdout

def must(cmd, **kw):
    rc, out = run(cmd, **kw)
    if rc:
        log("command failed:", " ".join(cmd)); log("\n".join(out.splitlines()[:40]))
        raise BuildError(cmd[0])
    return out

class BuildError(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:16]

def rd(p):
    with open(p, "rb") as f:
        return f.read()

# ------------------------------------------------------------------ builds
def engine_key():
    return sha(*[rd(os.path.join(SRC, f)) for f in sorted(os.listdir(SRC)) if f.endswith((".cpp", ".h"))])

def build_engine():
    d = os.path.join(BUILD, "engine-" + engine_key()); exe = os.path.join(d, "symir")
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True); log("building the symbolic executor")
    fl = must(["llvm-config-18", "--cxxflags"]).split()
    fl = [f for f in fl if f not in ("-fno-exceptions",) and not f.startswith("-std=")]
    ld = must(["llvm-config-18", "--ldflags"]).split()
    objs = [(f, os.path.join(d, f + ".o")) for f in ("exec.cpp", "expr.cpp", "solver.cpp", "icp.cpp")]
    def cc(fo):
        must(["g++", "-O2", "-w", "-std=c++17", "-fexceptions"] + fl + ["-std=c++17", "-fexceptions", "-I", Z3 + "/include", "-c", os.path.join(SRC, fo[0]), "-o", fo[1]])
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(cc, objs))
    lib = Z3 + "/lib"
    tmp = exe + ".tmp%d" % os.getpid()
    must(["g++"] + [o for _, o in objs] + ["-o", tmp] + ld + ["-lLLVM-18", lib + "/libz3.so", "-Wl,-rpath," + lib])
    os.rename(tmp, exe)
    return exe

def gen_header():
    os.makedirs(GEN, exist_ok=True); p = os.path.join(GEN, "version.generated.h")
    if not os.path.exists(p):
        t = p + ".tmp%d" % os.getpid()
        with open(t, "w") as f:
            f.write('#define GIT_BRANCH "b"\n#define GIT_COMMIT_HASH "0"\n#define GIT_TAGGED_VERSION ""\n#define GIT_TAG ""\n#define BUILD_DATE "2026-01-01T00:00:00Z"\n#define COPYRIGHT_DATE "2026"\n#define AUTHOR "a"\n')
        os.rename(t, p)

EXCLUDE = {"ArcWelderInverseProcessor.cpp"}

def repo_sources():
    r = []
    for d in INC:
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))):
            if os.path.basename(f) not in EXCLUDE:
                r.append(f)
    return r

def repo_key():
    parts = []
    for d in INC:
        for f in sorted(glob.glob(os.path.join(REPO, d, "*"))):
            if f.endswith((".cpp", ".h", ".hpp", ".c")):
                parts += [f, rd(f)]
    for d in XINC:
        for f in sorted(glob.glob(os.path.join(REPO, d, "**", "*"), recursive=True)):
            if f.endswith((".cpp", ".h")):
                parts += [f, rd(f)]
    parts += [REPO]
    return sha(*parts)

def shim_key():
    return sha(*[rd(os.path.join(SHIM, f)) for f in sorted(os.listdir(SHIM))])

def cflags():
    return ["-w", "-I", SHIM, "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-pie", "-fno-pic", "-gline-tables-only", "-ffp-contract=off",
            "-emit-llvm", "-include", os.path.join(SHIM, "vf_pre.h"), "-fno-access-control", "-DHAS_GENERATED_VERSION", "-I", GEN] + sum([["-I", os.path.join(REPO, d)] for d in INC + XINC], PYINC)

def cleanup(prefix, keep):
    ds = sorted(glob.glob(os.path.join(BUILD, prefix + "-*")), key=os.path.getmtime)
    for d in ds[:-6]:
        if os.path.basename(d) != keep and d.startswith(BUILD + "/"):
            shutil.rmtree(d, ignore_errors=True)

def build_bc(o0=False):
    """o0: compile the sources without optimisation, which would give reads of uninitialised locals a value of its choice."""
    gen_header(); k = sha(repo_key(), shim_key(), *cflags(), "o0" if o0 else ""); name = "bc-" + k; d = os.path.join(BUILD, name)
    if os.path.exists(os.path.join(d, "done")):
        os.utime(d); return d
    os.makedirs(d, exist_ok=True); log("compiling %s to LLVM bitcode" % REPO)
    jobs = [(os.path.join(SHIM, "runtime.cpp"), "gnu++17", ["-fno-builtin"])] + [(f, "gnu++11", ["-O0", "-Xclang", "-disable-O0-optnone"] if o0 else []) for f in repo_sources()]
    def cc(j):
        f, std, extra = j; o = os.path.join(d, os.path.basename(f) + ".bc"); t = o + ".tmp%d" % os.getpid()
        must(["clang++", "-std=" + std] + cflags() + extra + ["-c", f, "-o", t]); os.rename(t, o)
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(cc, jobs))
    open(os.path.join(d, "done"), "w").close(); cleanup("bc", name)
    return d

def harn_key(h):
    return sha(rd(os.path.join(HARN, h + ".cpp")), *[rd(f) for f in sorted(glob.glob(os.path.join(HARN, "*.h")))])

def build_harness(h, bcd):
    o = os.path.join(bcd, "h_%s_%s.bc" % (h, harn_key(h)))
    if os.path.exists(o):
        return o
    t = o + ".tmp%d" % os.getpid()
    must(["clang++", "-std=gnu++17"] + cflags() + ["-I", HARN, "-c", os.path.join(HARN, h + ".cpp"), "-o", t + ".h.bc"])
    must(["llvm-link-18", t + ".h.bc", os.path.join(bcd, "runtime.cpp.bc")] + [os.path.join(bcd, os.path.basename(f) + ".bc") for f in repo_sources()] + ["-o", t + ".all.bc"])
    must(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=" + PUBLIC, t + ".all.bc", "-o", t])
    os.unlink(t + ".h.bc"); os.unlink(t + ".all.bc"); os.rename(t, o)
    return o

NATLOCK = threading.Lock()

def build_native(h, asan=False, o0=False):
    with NATLOCK:
        return build_native_(h, asan, o0)

def build_native_(h, asan, o0):
    gen_header(); fl = ["-w", "-g1", "-O0" if o0 else "-O1", "-include", "cstdint", "-fno-access-control", "-DHAS_GENERATED_VERSION", "-ffp-contract=off", "-I", GEN] + sum([["-I", os.path.join(REPO, d)] for d in INC + XINC], PYINC)
    if asan:
        fl += ["-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]
    k = sha(repo_key(), *fl); name = "nat-" + k; d = os.path.join(BUILD, name); os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "n_%s_%s" % (h, sha(harn_key(h), rd(os.path.join(HARN, "native.cpp")))))
    if os.path.exists(exe):
        os.utime(d); return exe
    def cc(f):
        o = os.path.join(d, os.path.basename(f) + ".o")
        if not os.path.exists(o):
            t = o + ".tmp%d" % os.getpid(); must(["g++", "-std=gnu++11"] + fl + ["-c", f, "-o", t]); os.rename(t, o)
        return o
    def hc(f):
        o = exe + "." + os.path.basename(f) + ".o%d" % os.getpid()
        must(["g++", "-std=gnu++17", "-DVF_NATIVE"] + fl + ["-I", HARN, "-c", f, "-o", o]); return o
    with ThreadPoolExecutor(JOBS) as ex:
        a = [ex.submit(hc, os.path.join(HARN, h + ".cpp")), ex.submit(hc, os.path.join(HARN, "native.cpp"))] + [ex.submit(cc, f) for f in repo_sources()]
        objs = [x.result() for x in a]
    t = exe + ".tmp%d" % os.getpid()
    must(["g++"] + (["-fsanitize=address"] if asan else []) + objs + ["-o", t, "-rdynamic", "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy"]); os.rename(t, exe)
    for o in objs[:2]:
        os.unlink(o)
    cleanup("nat", name)
    return exe

# ------------------------------------------------------------------ native replay
def write_inputs(path, case, inputs):
    with open(path, "w") as f:
        f.write("case %d\n" % case)
        for n, k, v in inputs:
            f.write("%s %s %s\n" % (n, k, v))

def replay_native(h, path, kind, timeout=60):
    """Returns (reproduced, detail)."""
    exe = build_native(h, asan=(kind == "memory-error"), o0=(kind == "uninitialised"))
    scratch = tempfile.mkdtemp(prefix="vfreplay", dir=BUILD)
    try:
        cmd = [exe, path, scratch]
        if kind == "uninitialised":
            cmd = ["valgrind", "-q", "--error-exitcode=99", "--track-origins=no"] + cmd
        env = dict(os.environ); env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=98:alloc_dealloc_mismatch=1"
        try:
            rc, out = run(cmd, timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            return (kind == "hang", "timeout")
        tail = "\n".join(out.splitlines()[:12])
        if kind == "assert":
            return (rc == 10, tail)
        if kind == "uninitialised":
            return (rc == 99, tail)
        if kind == "memory-error":
            return (rc == 98 or rc < 0 or rc >= 128, tail)
        return (rc < 0 or rc >= 128, tail)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def replay_witness(h, path, obs, timeout=60):
    exe = build_native(h); scratch = tempfile.mkdtemp(prefix="vfwit", dir=BUILD)
    try:
        rc, out = run([exe, path, scratch], timeout=timeout)
        got = [l[4:].rsplit(" ", 1) for l in out.splitlines() if l.startswith("OBS ")]
        if rc != 0:
            return False, "exit %d %s" % (rc, out[-300:])
        if len(got) != len(obs):
            return False, "observed %d values, expected %d" % (len(got), len(obs))
        import struct
        for (n, v), (m, w) in zip(obs, got):
            if n != m:
                return False, "observation order %s %s" % (n, m)
            if n.startswith("d:"):
                a = struct.unpack("<d", struct.pack("<Q", int(v)))[0]; b = struct.unpack("<d", struct.pack("<Q", int(w)))[0]
                if a != b and abs(a - b) > 1e-6 * max(1, abs(a)) and not (a != a and b != b):
                    return False, "%s symbolic %r native %r" % (n, a, b)
            elif n.endswith("?") and int(v) & (2**64 - 1) == 2**64 - 1:
                continue   # a text whose length depends on symbolic numbers
            elif int(v) & (2**64 - 1) != int(w) & (2**64 - 1):
                return False, "%s symbolic %s native %s" % (n, v, w)
        return True, ""
    except subprocess.TimeoutExpired:
        return False, "timeout"
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

# ------------------------------------------------------------------ checks
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}

def check(pid, tier):
    import checks
    t0 = time.time(); spec = checks.CHECKS[pid]; ev = os.path.join(VERIF, "evidence"); os.makedirs(ev, exist_ok=True)
    work = os.path.join(BUILD, "run", pid); os.makedirs(work, exist_ok=True)
    for f in glob.glob(work + "/*"):
        os.unlink(f)
    exe = build_engine(); bcd = build_bc(spec.get("o0", False))
    tasks = [t for t in spec["tasks"] if tier == "thorough" or t.get("tier", "quick") == "quick"]
    hs = sorted(set(t["h"] for t in tasks))
    with ThreadPoolExecutor(JOBS) as ex:
        bcs = dict(zip(hs, ex.map(lambda h: build_harness(h, bcd), hs)))
    budget = spec.get("budget", {}).get(tier, 420 if tier == "quick" else 3000)
    tstart = time.time(); kf = [k for k in known_findings()["findings"] if k["property"] == pid]
    stop = [False]; results = []
    def one(i, t):
        if stop[0]:
            return None
        left = budget - (time.time() - tstart)
        if left < 5:
            return dict(task=t, skipped=True)
        out = os.path.join(work, "t%d.json" % i)
        lim = min(left, t.get("time", {}).get(tier, 400 if tier == "quick" else 2400))
        cmd = [exe, bcs[t["h"]], "--case", str(t["case"]), "--out", out, "--src", REPO, "--time", "%d" % lim, "--witness", str(t.get("witness", 2))]
        for a, b in REPLACE.items():
            cmd += ["--replace", "%s=%s" % (a, b)]
        cmd += t.get("opts", [])
        ts = time.time()
        try:
            rc, txt = run(cmd, timeout=lim + 60)
        except subprocess.TimeoutExpired:
            return dict(task=t, rc=3, timeout=True, wall=time.time() - ts)
        r = None
        if os.path.exists(out):
            try:
                r = json.load(open(out))
            except Exception as e:
                r = None
        return dict(task=t, rc=rc, rep=r, txt=txt, wall=time.time() - ts, idx=i)
    confirmed = []; known = []; unrep = []; nrep = [0]
    seen = set()
    def handle(res):
        if not res or not res.get("rep"):
            return
        t = res["task"]
        for v in res["rep"]["violations"]:
            kid = next((k for k in kf if k["label"] == v["label"] and k.get("harness", t["h"]) == t["h"] and t["case"] in k.get("cases", [t["case"]]) and k.get("where", "") in v["where"]), None)
            key = (t["h"], v["kind"], v["label"], v["where"] if v["kind"] != "assert" else "")
            if kid and any(k is kid for k, _ in known):
                continue
            nrep[0] += 1; path = os.path.join(work, "cex_%d_%d.txt" % (res["idx"], nrep[0]))
            write_inputs(path, t["case"], v["inputs"])
            with open(path + ".json", "w") as f:
                json.dump(dict(property=pid, harness=t["h"], case=t["case"], kind=v["kind"], label=v["label"], msg=v["msg"], where=v["where"], inputs=v["inputs"]), f, indent=1)
            if confirmed and key in seen:
                continue
            ok, det = replay_native(t["h"], path, v["kind"])
            if ok and kid:
                known.append((kid, path))
            elif ok:
                seen.add(key); confirmed.append((v, path, det)); stop[0] = True
            else:
                unrep.append((v, path, det))
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i].get("weight", 1))
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(one, i, tasks[i]) for i in order]
        for f in as_completed(futs):
            r = f.result()
            if r:
                results.append(r); handle(r)
    # encoding validation: sampled paths replayed against the natively compiled code
    nval = 0; bad = []
    wjobs = []
    if not confirmed:
        for r in sorted((r for r in results if r.get("rep")), key=lambda r: r["idx"]):
            for j, w in enumerate(r["rep"].get("witnesses", [])):
                p = os.path.join(work, "wit_%d_%d.txt" % (r["idx"], j)); write_inputs(p, r["task"]["case"], w["inputs"])
                wjobs.append((r["task"]["h"], p, w["obs"]))
        wjobs = wjobs[:40 if tier == "quick" else 400]
        for h in sorted(set(j[0] for j in wjobs)):
            build_native(h)
        with ThreadPoolExecutor(JOBS) as ex:
            for j, (ok, why) in zip(wjobs, ex.map(lambda j: replay_witness(*j), wjobs)):
                if ok:
                    nval += 1
                else:
                    bad.append(dict(file=os.path.basename(j[1]), why=why))
    # evidence
    reps = [r["rep"] for r in results if r.get("rep")]
    tot = lambda k: sum(x.get(k, 0) for x in reps)
    fn = {}
    for x in reps:
        for k, n in x["functions"].items():
            fn[k] = fn.get(k, 0) + n
    reach = {}
    ends = {}; labels = {}
    for x in reps:
        for k, n in x["reach"].items():
            reach[k] = reach.get(k, 0) + n
        for k, n in x["ends"].items():
            ends[k] = ends.get(k, 0) + n
        for k, n in x["assert_labels"].items():
            labels[k] = labels.get(k, 0) + n
    missing = [w for w in spec.get("reach", []) if not reach.get(w)]
    incomplete = [dict(h=r["task"]["h"], case=r["task"]["case"], why="skipped: budget" if r.get("skipped") else "timeout" if r.get("timeout") else "no report (rc %s): %s" % (r.get("rc"), r.get("txt", "")[-300:]) if not r.get("rep") else "path limits or time (%s)" % r["txt"][-200:]) for r in results if r.get("skipped") or r.get("timeout") or not r.get("rep") or not r["rep"]["complete"]]
    level = spec.get("level", "model_checking")
    cov = dict(states=tot("paths"), transitions=tot("steps"), traces_validated_against_impl=nval, samples=[w for x in reps for w in x.get("witnesses", [])][:3],
        explanation=spec.get("bounds", ""), bounds=spec.get("bounds", ""), exhaustive_within_bounds=not incomplete and not tot("asserts_unknown") and not tot("unknown_branches"),
        cases=len(tasks), cases_complete=len(tasks) - len(incomplete), incomplete=incomplete,
        forks=tot("forks"), assertions_checked=tot("asserts"), assertions_constant_true=tot("asserts_concrete"), assertions_proved_by_solver=tot("asserts_proved"), assertions_unknown=tot("asserts_unknown"), unknown_branches=tot("unknown_branches"),
        solver_queries=tot("queries"), solver_queries_interval=tot("icp_queries"), interval_decided=tot("icp_decided"), interval_boxes=tot("icp_boxes"), solver_queries_bv=tot("bv_queries"), solver_queries_real=tot("real_queries"), solver_queries_fpa=tot("fpa_queries"), solver_unknown=tot("query_unknown"), solver_s=round(tot("solver_s"), 3), engine_s=round(sum(r.get("wall", 0) for r in results), 3),
        functions_encoded=sorted(fn, key=lambda k: -fn[k]), assertion_labels=labels, reach=reach, missing_reach=missing, path_ends=ends,
        witness_mismatches=bad, candidates_not_reproduced=[dict(label=v["label"], kind=v["kind"], msg=v["msg"], where=v["where"][:300], file=os.path.basename(p), native=d[:300]) for v, p, d in unrep],
        unconfirmed_candidates=[dict(label=v["label"], kind=v["kind"], where=v["where"][:300]) for x in reps for v in x.get("unconfirmed", [])],
        slowest=sorted(((round(r.get("wall", 0), 1), r["task"]["h"], r["task"]["case"]) for r in results), reverse=True)[:5])
    evd = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=level, coverage=cov, assumptions=checks.COMMON + spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    tmp = os.path.join(ev, pid + ".json.tmp"); json.dump(evd, open(tmp, "w"), indent=1); os.rename(tmp, os.path.join(ev, pid + ".json"))
    for k, p in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    log("%s %s: %d paths, %d assertions (%d const, %d proved, %d unknown), %d queries %.1fs solver, %d/%d cases complete, validated %d/%d, unreproduced %d, unconfirmed %d, wall %.1fs%s" % (pid, tier, cov["states"], cov["assertions_checked"], cov["assertions_constant_true"], cov["assertions_proved_by_solver"], cov["assertions_unknown"], cov["solver_queries"], cov["solver_s"], cov["cases_complete"], cov["cases"], nval, len(wjobs), len(unrep), len(cov["unconfirmed_candidates"]), evd["wall_s"], " MISSING-REACH %s" % missing if missing else ""))
    if os.environ.get("VF_VERBOSE"):
        for b in bad: log("  witness mismatch", b)
        for b in cov["candidates_not_reproduced"]: log("  not reproduced", b)
        for b in incomplete: log("  incomplete", b)
        log("  slowest", cov["slowest"], "ends", ends)
    if confirmed:
        rdir = os.path.join(BUILD, "replay"); os.makedirs(rdir, exist_ok=True)
        for v, path, det in confirmed[:3]:
            log("violation: %s %s %s\n   at %s\n   native replay: %s" % (v["kind"], v["label"], v["msg"], v["where"][:600], det))
        v, path, det = confirmed[0]; dst = os.path.join(rdir, "%s.json" % pid); shutil.copy(path + ".json", dst)
        print("VIOLATION property=%s replay=%s" % (pid, dst), flush=True)
        return 1
    return 0

def main():
    sys.path.insert(0, VERIF); a = sys.argv[1:]
    if not a:
        print(__doc__); return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    os.makedirs(BUILD, exist_ok=True)
    if a[0] == "setup":
        build_engine(); bcd = build_bc()
        import checks
        hs = sorted(set(t["h"] for c in checks.CHECKS.values() for t in c["tasks"]))
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(lambda h: build_harness(h, bcd), hs))
        o0 = sorted(set(t["h"] for c in checks.CHECKS.values() if c.get("o0") for t in c["tasks"]))
        if o0:
            bcd = build_bc(True)
            for h in o0:
                build_harness(h, bcd)
        for h in hs:
            build_native(h)
        return 0
    if a[0] == "check":
        rc = 0
        for p in a[1:]:
            rc |= check(p, tier)
        return rc
    if a[0] == "all":
        import checks; rc = 0
        for p in sorted(checks.CHECKS):
            rc |= check(p, tier)
        return rc
    if a[0] == "replay":
        j = json.load(open(a[1])); p = a[1] + ".txt"; write_inputs(p, j["case"], j["inputs"])
        ok, det = replay_native(j["harness"], p, j["kind"]); print(det); print("REPRODUCED" if ok else "not reproduced"); return 1 if ok else 0
    if a[0] == "dev":  # dev HARNESS CASE [engine options]
        exe = build_engine(); b = build_harness(a[1], build_bc()); o = os.path.join(BUILD, "dev.json")
        rc = subprocess.call([exe, b, "--case", a[2], "--out", o, "--src", REPO] + sum([["--replace", "%s=%s" % x] for x in REPLACE.items()], []) + a[3:])
        r = json.load(open(o)); print({k: r[k] for k in r if k not in ("functions", "violations", "unconfirmed", "witnesses")})
        for v in r["violations"] + r["unconfirmed"]:
            p = os.path.join(BUILD, "dev_cex.txt"); write_inputs(p, int(a[2]), v["inputs"]); print(v["kind"], v["label"], v["msg"], v["where"][:200], v["inputs"][:20])
            if "--noreplay" not in a: print(replay_native(a[1], p, v["kind"]))
        return rc
    return 2

if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        log("build error:", e); sys.exit(2)

#!/usr/bin/env python3
"""Decide one property: check.py ID [--tier quick|thorough] [--only HARNESS[:JOB]] [-v]
Compiles /repo's current sources and the property's harnesses to LLVM bitcode, explores them with the symbolic
executor (build/symx), replays counterexamples natively and validates sample paths natively."""
import sys, os, re, subprocess, json, time, hashlib, glob, shutil, argparse, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
SYMX = os.path.join(BUILD, "symx")
CLANG = "clang++"
DEFS = ["-D_FILE_OFFSET_BITS=64", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
BASE = ["-O1", "-Xclang", "-disable-llvm-passes", "-g1", "-emit-llvm", "-c", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-fno-strict-aliasing", "-Xclang", "-mno-constructor-aliases"]
CXX = ["-std=c++17", "-fno-access-control", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + V + "/rt"] + DEFS
NCPU = int(os.environ.get("VERIF_JOBS", "8"))
ap = argparse.ArgumentParser()
ap.add_argument("id", nargs="?", default="")
ap.add_argument("--setup", action="store_true")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--only", default="")
ap.add_argument("-v", action="store_true")
ap.add_argument("--keep", action="store_true")
ap.add_argument("--no-replay", action="store_true")
A = ap.parse_args()
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()
LIMIT = 840 if A.tier == "quick" else 3300
ID = A.id
WORK = os.path.join(BUILD, "work", ID + "." + str(os.getpid()))
os.makedirs(WORK, exist_ok=True)
os.makedirs(os.path.join(BUILD, "bc"), exist_ok=True)

def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)

class Trouble(Exception): pass

def ensure_engine():
    h = hashlib.sha256()
    for f in sorted(glob.glob(V + "/engine/*")): h.update(open(f, "rb").read())
    stamp = os.path.join(BUILD, "symx.stamp")
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not (os.path.exists(SYMX) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest()):
            r = subprocess.run(["bash", V + "/engine/build.sh", SYMX], capture_output=True, text=True)
            if r.returncode: raise Trouble("engine build failed: " + r.stderr[-2000:])
            open(stamp, "w").write(h.hexdigest())

_hdr = None
def hdrhash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for f in sorted(glob.glob(REPO + "/include/**/*.h", recursive=True) + glob.glob(REPO + "/src/*.h") + glob.glob(V + "/rt/*.h") + glob.glob(V + "/harness/*.h")):
            h.update(f.encode()); h.update(open(f, "rb").read())
        _hdr = h.hexdigest()
    return _hdr

def included_cc(src):
    # harnesses that include an implementation file to reach its file-local classes
    if not src.startswith(V) or b'.cc"' not in open(src, "rb").read(): return b""
    return b"v2" + b"".join(open(f, "rb").read() for f in sorted(glob.glob(REPO + "/src/*.cc") + glob.glob(REPO + "/lib/*.cc")))

def compile_bc(src, extra=()):
    flags = (CXX if src.endswith(".cc") else []) + list(extra)
    cc = [CLANG] if src.endswith(".cc") else ["clang"]
    key = hashlib.sha256((hdrhash() + src + repr(flags) + repr(BASE)).encode() + open(src, "rb").read() + included_cc(src)).hexdigest()[:24]
    out = os.path.join(BUILD, "bc", os.path.basename(src) + "." + key + ".bc")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run(cc + BASE + flags + [src, "-o", tmp], capture_output=True, text=True)
        if r.returncode: raise Trouble("compile %s failed:\n%s" % (src, r.stderr[:3000]))
        if src.startswith(V + "/harness"):   # such copies must not override the definitions of the real modules
            r = subprocess.run([shutil.which("opt-18") or "opt", "-passes=elim-avail-extern", tmp, "-o", tmp + "2"], capture_output=True, text=True)
            if r.returncode: raise Trouble("opt %s failed:\n%s" % (src, r.stderr[:3000]))
            os.rename(tmp + "2", tmp)
        os.rename(tmp, out)
    return out

def parse_harness(path):
    sp = {"path": path, "name": os.path.basename(path)[:-3], "mods": [], "stubs": [], "jobs": [], "reach": [], "bounds": [], "assume": [], "flags": [], "noobs": False, "time": 600}
    for l in open(path):
        m = re.match(r"//\s*(MODS|STUB|JOB|THOROUGH|REACH|BOUND|ASSUME|FLAGS|TIME|HANG|NATIVE):\s*(.*)", l)
        if not m: continue
        k, v = m.group(1), m.group(2).strip()
        if k == "MODS": sp["mods"] += v.split()
        elif k == "STUB": sp["stubs"].append(v)
        elif k == "REACH": sp["reach"] += v.split()
        elif k == "BOUND": sp["bounds"].append(v)
        elif k == "ASSUME": sp["assume"].append(v)
        elif k == "FLAGS": sp["flags"] += v.split()
        elif k == "TIME": sp["time"] = int(v)
        elif k == "HANG": sp["hang"] = int(v)
        elif k == "NATIVE": sp["native"] = v
        elif k in ("JOB", "THOROUGH"):
            t = v.split()
            j = {"name": t[0], "params": {}, "shards": 1, "depth": 10, "tier": "thorough" if k == "THOROUGH" else "both", "reach": []}
            for x in t[1:]:
                a, b = x.split("=", 1)
                if a == "shards": j["shards"] = int(b)
                elif a == "depth": j["depth"] = int(b)
                elif a == "reach": j["reach"] = b.split(",")
                elif a == "quick" : j["tier"] = "quick"
                else: j["params"][a] = int(b, 0)
            sp["jobs"].append(j)
    # every other source file is linked in too (unreferenced code is dropped), so that code may move between files
    inc = re.findall(r'^#include "([^"]*\.cc)"', open(path).read(), re.M)   # compiled as part of the harness
    src = any(m.startswith("src/") for m in sp["mods"]) or bool(inc)
    for m in sorted(glob.glob(REPO + "/lib/*.cc")) + (sorted(glob.glob(REPO + "/src/*.cc")) if src else []):
        m = os.path.relpath(m, REPO)
        if m not in sp["mods"] and os.path.basename(m) not in inc: sp["mods"].append(m)
    if not sp["jobs"]: sp["jobs"] = [{"name": "main", "params": {}, "shards": 1, "depth": 10, "tier": "both", "reach": []}]
    return sp

def run_symx(h, job, shard, bcs):
    out = os.path.join(WORK, "%s.%s.%d" % (h["name"], job["name"], shard))
    cmd = [SYMX, "--opt", "--out", out, "--max-time", str(max(10, min(h["time"], LIMIT - 60 - (time.time() - T0)))), "--seed", str(SEED),
           "--hang-steps", str(h.get("hang", 20000000)), "--solver-ms", "120000"]
    for k, v in job["params"].items(): cmd += ["--param", "%s=%d" % (k, v)]
    if job["shards"] > 1: cmd += ["--shard", "%d/%d" % (shard, job["shards"]), "--shard-depth", str(job["depth"]), "--samples", "2"]
    cmd += bcs
    t = time.time()
    with open(out + ".log", "w") as lf:
        r = subprocess.run(cmd, stdout=lf, stderr=lf)
    res = None
    if os.path.exists(out + ".json"):
        try: res = json.load(open(out + ".json"))
        except Exception: res = None
    if A.v: log("  %s %s shard %d: rc=%d %.1fs %s" % (h["name"], job["name"], shard, r.returncode, time.time() - t, open(out + ".log").read().strip()[-500:] if res and not (res["unsupported"] or res["incomplete"]) else open(out + ".log").read().strip()[:300]))
    return dict(h=h, job=job, shard=shard, rc=r.returncode, out=out, res=res, secs=time.time() - t, log=open(out + ".log").read())

NATIVE_FL = ["-std=c++17", "-w"]
def build_native(h, asan):
    exe = os.path.join(WORK, h["name"] + (".asan" if asan else ".native"))
    if os.path.exists(exe): return exe
    ex = ["-fsanitize=address"] if asan else []
    ms = h["mods"]
    with ThreadPoolExecutor(NCPU) as tp: mods = list(tp.map(lambda m: compile_bc(os.path.join(REPO, m), h["flags"] + ex), ms))
    har = compile_bc(h["path"], h["flags"] + ex)
    sup = [compile_bc(V + "/rt/native.cc")]
    if "sched" in h.get("native", ""): sup.append(compile_bc(V + "/rt/sched.cc"))
    merged = exe + ".bc"
    r = subprocess.run(["llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"] + mods + sup + ["--override=" + har, "-o", merged], capture_output=True, text=True)
    if r.returncode: raise Trouble("llvm-link: " + r.stderr[-1500:])
    if "sched" in h.get("native", ""):
        r = subprocess.run([SYMX, "--stubs", h["stubfile"], "--native-stubs", merged + ".s", merged], capture_output=True, text=True)
        if r.returncode: raise Trouble("native stubs: " + r.stderr[-1500:])
        merged += ".s"
        os.rename(merged, exe + ".s.bc"); merged = exe + ".s.bc"
    r = subprocess.run([CLANG, "-O0" if not asan else "-O1", "-c", "-w", "-fPIE", merged, "-o", exe + ".o"] + ex, capture_output=True, text=True)
    if r.returncode: raise Trouble("native codegen: " + r.stderr[-1500:])
    r = subprocess.run([CLANG, exe + ".o", "-o", exe, "-no-pie", "-rdynamic", "-Wl,--unresolved-symbols=ignore-all", "-lpthread", "-ldl", "-lm"] + ex, capture_output=True, text=True)
    if r.returncode: raise Trouble("native link: " + r.stderr[-1500:])
    return exe

def run_native(exe, job, replay, timeout=20):
    env = dict(os.environ)
    env["SYM_REPLAY"] = replay
    env["SYM_PARAMS"] = ",".join("%s=%d" % kv for kv in job["params"].items())
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:handle_abort=0:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0"
    scratch = os.path.join(WORK, "scratch")
    os.makedirs(scratch, exist_ok=True)
    try:
        r = subprocess.run([exe], env=env, cwd=scratch, stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout)
        return r.returncode, r.stdout.decode("latin1"), r.stderr.decode("latin1")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("latin1"), (e.stderr or b"").decode("latin1")

CRASHY = ("memory:", "crash:", "undefined:", "uncaught exception")
def replay_cex(h, job, cex):
    """-> (confirmed, how)"""
    msg = next((l[4:].strip() for l in open(cex) if l.startswith("msg ")), "?")
    rc, so, se = None, "", ""
    for asan in ([True, False] if msg.startswith("memory:") else [False, True]):
        exe = build_native(h, asan)
        rc, so, se = run_native(exe, job, cex)
        tail = [l for l in so.split("\n") if l.startswith("REPLAY-")]
        if rc == 101: return True, "; ".join(tail)
        if rc == 99: return True, "AddressSanitizer: " + (re.search(r"ERROR: AddressSanitizer: (.*)", se) or [0, "report"])[1]
        if rc == "timeout" and (msg.startswith("hang:")): return True, "native run does not terminate"
        if msg.startswith(CRASHY) and isinstance(rc, int) and rc < 0: return True, "native run killed by signal %d %s" % (-rc, se.strip()[-200:])
    return False, "native rc=%s %s %s" % (rc, so.strip()[-300:], se.strip()[-300:])

def norm_obs(lines):
    return [l.strip() for l in lines if l.startswith("obs ")]

def main():
    ensure_engine()
    hs = [parse_harness(p) for p in sorted(glob.glob(V + "/harness/" + ID + "*.cc")) if re.match(r"^%s[a-z]?[A-Za-z_0-9]*\.cc$" % ID, os.path.basename(p))]
    if A.only: hs = [h for h in hs if h["name"] == A.only.split(":")[0]]
    if not hs: raise Trouble("no harness for " + ID)
    srcs = set()
    for h in hs:
        for m in h["mods"]: srcs.add((os.path.join(REPO, m), tuple(h["flags"])))
        srcs.add((h["path"], tuple(h["flags"])))
    for f in ("rt.cc", "sched.cc", "rtc.c"): srcs.add((os.path.join(V, "rt", f), ("-fno-builtin",)))
    with ThreadPoolExecutor(NCPU) as ex:
        bcs = dict(zip([s for s in srcs], ex.map(lambda s: compile_bc(s[0], s[1]), [s for s in srcs])))
    log("compiled %d modules" % len(srcs))
    tasks = []
    for h in hs:
        h["stubfile"] = os.path.join(WORK, h["name"] + ".stubs")
        with open(h["stubfile"], "w") as f: f.write(open(V + "/rt/stubs.txt").read() + "\n" + "\n".join(h["stubs"]) + "\n")
        h["bcs"] = [bcs[(h["path"], tuple(h["flags"]))]] + [bcs[(os.path.join(REPO, m), tuple(h["flags"]))] for m in h["mods"]] + [bcs[(os.path.join(V, "rt", f), ("-fno-builtin",))] for f in ("rt.cc", "sched.cc", "rtc.c")]
        for j in h["jobs"]:
            if A.only and ":" in A.only and j["name"] != A.only.split(":")[1]: continue
            if j["tier"] == "thorough" and A.tier != "thorough": continue
            if j["tier"] == "quick" and A.tier != "quick": continue
            for s in range(j["shards"]): tasks.append((h, j, s))
    def prelink(h):
        key = hashlib.sha256((repr(h["bcs"]) + open(h["stubfile"]).read() + open(os.path.join(BUILD, "symx.stamp")).read()).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "bc", h["name"] + ".opt." + key + ".bc")
        if not os.path.exists(out):
            r = subprocess.run([SYMX, "--stubs", h["stubfile"], "--emit-opt", out + ".%d" % os.getpid()] + h["bcs"], capture_output=True, text=True)
            if r.returncode: raise Trouble("prelink %s: %s" % (h["name"], (r.stdout + r.stderr)[-1500:]))
            os.rename(out + ".%d" % os.getpid(), out)
        h["bcs"] = [out]
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(prelink, hs))
    log("linked")
    with ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(lambda t: run_symx(t[0], t[1], t[2], t[0]["bcs"]), tasks))
    log("explored %d tasks" % len(tasks))
    trouble, viol, unconf, known = [], [], [], []
    tot = dict(paths=0, infeasible=0, steps=0, forks=0, queries=0, solver_s=0.0, asserts=0, assert_queries=0, sat=0, unsat=0)
    funcs, maxq = set(), 0.0
    reach = {}
    for r in results:
        nm = "%s:%s#%d" % (r["h"]["name"], r["job"]["name"], r["shard"])
        if r["rc"] != 0 or r["res"] is None: trouble.append("%s: engine ended with %s: %s" % (nm, r["rc"], r["log"][-500:])); continue
        d = r["res"]
        for k in tot: tot[k] += d[k]
        maxq = max(maxq, d["max_query_s"])
        funcs.update(d["functions"])
        if d["incomplete"]: trouble.append(nm + ": incomplete: " + d["incomplete"])
        for u in d["unsupported"]: trouble.append(nm + ": " + u[:400])
        for k, v in d["reach"].items():
            reach.setdefault(r["h"]["name"], {}).setdefault(k, 0); reach[r["h"]["name"]][k] += v
    # counterexamples
    cexs = []
    for r in results:
        for f in sorted(glob.glob(r["out"] + ".cex*")): cexs.append((r, f))
    seen = {}
    kf = load_known()
    for r, f in cexs:
        msg = next((l[4:].strip() for l in open(f) if l.startswith("msg ")), "?")
        key = (r["h"]["name"], msg)
        if seen.get(key, 0) >= 2: continue
        k = next((x for x in kf if x["harness"] == r["h"]["name"] and x["msg"] == msg), None)
        if k:
            seen[key] = seen.get(key, 0) + 1
            if k not in known: known.append(k)
            continue
        if A.no_replay: ok, how = True, "not replayed"
        else:
            try: ok, how = replay_cex(r["h"], r["job"], f)
            except Trouble as e: ok, how = False, str(e)
        if ok:
            seen[key] = 9
            dst = os.path.join(BUILD, "replay"); os.makedirs(dst, exist_ok=True)
            dstf = os.path.join(dst, "%s-%s-%d.replay" % (ID, r["h"]["name"], len(viol)))
            with open(dstf, "w") as o:
                o.write("# property %s harness %s job %s params %s\n# %s\n# native replay: %s\n" % (ID, r["h"]["name"], r["job"]["name"], r["job"]["params"], msg, how))
                o.write(open(f).read())
            viol.append((msg, dstf, how))
        else:
            seen[key] = seen.get(key, 0) + 1
            unconf.append("%s: %s: not reproduced natively: %s" % (os.path.basename(f), msg, how))
    # vacuity
    if not viol:
        for h in hs:
            if A.only and ":" in A.only: continue
            for l in h["reach"]:
                if not reach.get(h["name"], {}).get(l): trouble.append("%s: label '%s' never reached (vacuous)" % (h["name"], l))
    # validate sample traces
    validated, samples = 0, []
    if not viol and not A.no_replay:
        jobs = []
        for r in results:
            for f in sorted(glob.glob(r["out"] + ".trace*"))[:8]: jobs.append((r, f))
        for h in hs: build_native(h, False)
        def val(t):
            r, f = t
            rc, so, se = run_native(build_native(r["h"], False), r["job"], f)
            want = norm_obs(open(f)); got = norm_obs(so.split("\n"))
            return (rc == 0 and want == got, rc, want, got, so[-300:] + se[-300:])
        with ThreadPoolExecutor(NCPU) as ex:
            for (r, f), (ok, rc, want, got, tail) in zip(jobs, ex.map(val, jobs)):
                if ok:
                    validated += 1
                    if len(samples) < 12:
                        ins = [l.strip()[3:] for l in open(f) if l.startswith("in ")]
                        samples.append({"harness": r["h"]["name"], "job": r["job"]["name"], "inputs": ins[:24], "observed": want[:12]})
                else:
                    trouble.append("sample path %s disagrees with the native run: rc=%s engine=%s native=%s %s" % (os.path.basename(f), rc, [x for x in want if x not in got][:4], [x for x in got if x not in want][:4], tail))
                    shutil.copy(f, os.path.join(BUILD, "bad.trace"))
    if not samples: samples = [{"note": "counterexample run", "violations": [v[0] for v in viol]}]
    wall = time.time() - T0
    cov = dict(states=tot["paths"] + tot["infeasible"] + tot["forks"], transitions=tot["steps"], traces_validated_against_impl=validated, samples=samples,
        paths=tot["paths"], infeasible_paths=tot["infeasible"], solver_queries=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], assertions_checked=tot["asserts"], assertions_decided_by_solver=tot["assert_queries"],
        solver_seconds=round(tot["solver_s"], 3), max_query_seconds=round(maxq, 3), functions_encoded=sorted(funcs), reach_witnesses=reach,
        bounds=sum((["%s: %s" % (h["name"], b) for b in h["bounds"]] for h in hs), []),
        jobs=[{"harness": r["h"]["name"], "job": r["job"]["name"], "shard": r["shard"], "params": r["job"]["params"], "seconds": round(r["secs"], 2), "paths": (r["res"] or {}).get("paths")} for r in results],
        inconclusive=trouble + unconf, exhaustive=not (trouble or unconf))
    ev = dict(property=ID, tier=A.tier, seed=SEED, level="model_checking", coverage=cov,
        assumptions=sum((["%s: %s" % (h["name"], b) for b in h["assume"]] for h in hs), []) + ["library, formatting and logging models of /verif/rt (rt.cc, rtc.c, stubs.txt)"], wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % ID, "w"), indent=1)
    for k in known: print("KNOWN-FINDING: property=%s %s" % (ID, k["what"]))
    for t in (trouble + unconf)[:12]: print("INCONCLUSIVE " + t)
    print("property %s: %d paths, %d infeasible, %d instructions, %d queries (%.1fs solver), %d assertions, %d traces validated, reach %s, %.1fs" % (ID, tot["paths"], tot["infeasible"], tot["steps"], tot["queries"], tot["solver_s"], tot["asserts"], validated, reach, wall))
    for msg, f, how in viol:
        print("# %s  [%s]" % (msg, how))
    if viol:
        print("VIOLATION property=%s replay=%s" % (ID, viol[0][1]))
        return 1
    return 2 if trouble or unconf else 0

def load_known():
    r = []
    p = V + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) msg=\"([^\"]*)\" what=(.*)", l)
            if m and m.group(1) == ID: r.append(dict(harness=m.group(2), msg=m.group(3), what=m.group(4).strip()))
    return r

try:
    if A.setup: ensure_engine(); rc = 0
    elif not ID: raise Trouble("no property given")
    else: rc = main()
except Trouble as e:
    print("INCONCLUSIVE", e); rc = 2
finally:
    if not A.keep: shutil.rmtree(WORK, ignore_errors=True)
sys.exit(rc)

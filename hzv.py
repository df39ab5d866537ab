#!/usr/bin/env python3
"""Builds and runs the model checking harnesses of one property.

  hzv.py check <ID> [--all]     build from /repo's working tree, explore, write evidence/<ID>.json
  hzv.py replay <file>          re-run one recorded execution
  hzv.py build                  build everything (setup)
"""
import sys, os, subprocess, hashlib, json, time, glob, concurrent.futures, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HZV_REPO", "/repo")
BUILD = os.path.join(V, ".build")
JOBS = os.cpu_count() or 4
CXX = "clang++-18"
sys.path.insert(0, V)
from checks import CHECKS

INC = [f"-I{V}/shim/std", f"-I{V}/shim", f"-I{REPO}/src", f"-I{REPO}/other/loguru/include", f"-I{REPO}/other/argparse/include",
       f"-I{V}/engine", f"-I{V}/harness"]
BASE = ["-std=c++20", "-g1", "-w", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
        "-DCL_HPP_ENABLE_EXCEPTIONS", "-DCL_HPP_TARGET_OPENCL_VERSION=200", "-DLOGURU_WITH_STREAMS=0"]
VARIANTS = {
    "asan": dict(repo=["-O1", "-fsanitize=address"], eng=["-O2", "-DHZV_ASAN"], harn=["-O1", "-fsanitize=address"], link=["-fsanitize=address"], tsan=False),
    "fast": dict(repo=["-O2"], eng=["-O2"], harn=["-O2"], link=[], tsan=False),
    "sched": dict(repo=["-O1", "-fsanitize=thread"], eng=["-O2"], harn=["-O1"], link=[], tsan=True),
}

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

_hdr = None
def header_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        files = []
        for root in (REPO + "/src", REPO + "/other/loguru", REPO + "/other/argparse", V + "/shim", V + "/engine", V + "/harness"):
            for d, _, fs in os.walk(root):
                files += [os.path.join(d, f) for f in fs if not f.endswith((".cpp", ".c", ".py", ".o"))]
        for f in sorted(files):
            h.update(f.encode()); h.update(open(f, "rb").read())
        _hdr = h.hexdigest()
    return _hdr

def compile_one(src, flags):
    key = sha(open(src, "rb").read(), src, header_hash(), " ".join(flags))
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj, ""
    tmp = obj + f".{os.getpid()}.{abs(hash(src))%99999}.tmp"
    r = subprocess.run([CXX, *flags, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr[-3000:]
    os.rename(tmp, obj)
    return obj, r.stderr

def repo_sources():
    out = []
    for d, _, fs in os.walk(REPO + "/src"):
        for f in sorted(fs):
            if f.endswith(".cpp") and os.path.join(d, f) != REPO + "/src/main.cpp":
                out.append(os.path.join(d, f))
    return sorted(out)

def build(spec, quiet=False):
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    v = VARIANTS[spec["variant"]]
    defs = ["-D" + d for d in spec.get("defs", [])]
    ocl = ["-DHZIP_ENABLE_OPENCL"] if spec.get("opencl") else []
    rflags = BASE + INC + v["repo"] + ocl + ["-D" + d for d in spec.get("repo_defs", [])]
    eflags = BASE + INC + v["eng"]
    hflags = BASE + INC + (v["repo"] if spec.get("instrument_harness") else v["harn"]) + ocl + defs + ["-D" + d for d in spec.get("repo_defs", [])]
    engine = [V + "/engine/mc.cpp"]
    if spec.get("sched", True): engine.append(V + "/engine/sched.cpp")
    if v["tsan"]: engine.append(V + "/engine/tsan_rt.cpp")
    engine += [V + "/engine/" + e for e in spec.get("engine", [])]
    engine.append(V + "/shim/std/rand_default.cpp")
    shim_i = [V + "/shim/bitio/bitio.cpp"]
    shim_p = [V + "/shim/rainman/rainman.cpp"]
    harness = [V + "/harness/" + s for s in spec["src"]]
    allsrc = repo_sources()
    def job_list(rs):
        jobs = [(s, eflags) for s in engine]
        jobs += [(s, rflags) for s in shim_i]
        jobs += [(s, rflags if not v["tsan"] else eflags) for s in shim_p]
        jobs += [(REPO + "/other/loguru/src/loguru.cpp", eflags)]
        jobs += [(s, hflags) for s in harness]
        return jobs, [(s, rflags) for s in rs]
    want = spec.get("repo")
    rs = allsrc if want is None else [s for s in allsrc if any(s[len(REPO) + 5:].startswith(w) for w in want)]
    for attempt in range(2):
        fixed, repo = job_list(rs)
        t0 = time.time()
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda j: compile_one(*j), repo + fixed))
        errs = {}
        robjs, fobjs = [], []
        for i, ((src, _), (obj, err)) in enumerate(zip(repo + fixed, res)):
            if obj is None:
                errs[src] = err
            elif i < len(repo): robjs.append(obj)
            else: fobjs.append(obj)
        for src, _ in fixed:
            if src in errs:
                print(f"CHECK-ERROR cannot compile {src}:\n{errs[src]}")
                return None
        exe = os.path.join(BUILD, "bin", spec["name"] + "-" + sha(*sorted(robjs), *fobjs, " ".join(v["link"]), spec.get("libs")))
        if os.path.exists(exe):
            return exe
        lib = exe + ".a"
        if os.path.exists(lib): os.unlink(lib)
        subprocess.run(["ar", "rcs", lib, *robjs], check=True) if robjs else subprocess.run(["ar", "rcs", lib], check=True)
        libs = spec.get("libs", ["-lcrypto", "-lpng", "-ljpeg", "-lOpenCL"])
        if attempt: libs = libs + [l for l in ("-lcrypto", "-lpng", "-ljpeg") if l not in libs]
        cmd = [CXX, *v["link"], "-rdynamic", "-fuse-ld=lld" if shutil.which("ld.lld-18") or shutil.which("ld.lld") else "-fuse-ld=bfd",
               *fobjs, lib, "-o", exe + ".tmp", *libs, "-ldl", "-lpthread"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        os.unlink(lib)
        if r.returncode == 0:
            os.rename(exe + ".tmp", exe)
            return exe
        if attempt == 0 and want is not None and len(rs) < len(allsrc):
            rs = allsrc      # something moved: take every source file
            continue
        print("CHECK-ERROR link failed:\n" + r.stderr[-3000:])
        for s, e in errs.items():
            print(f"(not compiled: {s}: {e[-600:]})")
        return None

def specs(pid):
    out = []
    for i, b in enumerate(CHECKS[pid]["bins"]):
        b = dict(b)
        b.setdefault("name", f"{pid}-{i}-{b['variant']}")
        out.append(b)
    return out

def prepared_badly(rc): return rc == 76 or (rc < 0 and rc not in (-9, -15, -2, -1))

def run_check(pid, extra):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(V + "/evidence", exist_ok=True)
    rdir = V + "/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(f"{rdir}/{pid}-*.replay"): os.unlink(f)
    rc = 0
    parts = []
    sp = specs(pid)
    budget = CHECKS[pid].get("budget", {}).get(tier, 240 if tier == "quick" else 1500)
    for i, s in enumerate(sp):
        exe = build(s)
        if exe is None:
            rc = rc or 2
            continue
        print(f"[{pid}] {s['name']}: built in {time.time()-t0:.1f}s")
        sys.stdout.flush()
        ev = os.path.join(BUILD, f"{pid}-{i}-{os.getpid()}.json")
        env = dict(os.environ, HZV_EVIDENCE=ev, HZV_KNOWN=V + "/known_findings.txt", HZV_REPLAY_DIR=rdir, VERIF_TIER=tier,
                   VERIF_SEED=str(seed), HZV_BUDGET=str(s.get("budget", {}).get(tier, budget / len(sp))), TSAN_OPTIONS="",
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:quarantine_size_mb=8:detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=205:malloc_context_size=6:detect_odr_violation=0",
                   **s.get("env", {}))
        r = subprocess.run([exe, *extra], env=env, cwd=V)
        if os.path.exists(ev):
            parts.append((s, json.load(open(ev))))
            os.unlink(ev)
        if prepared_badly(r.returncode) and glob.glob(f"{rdir}/{pid}-*.replay"):
            rc = 1              # reported already
            break
        if prepared_badly(r.returncode):
            # the code under test failed, crashed or hung before the first phase or between two: the same again?
            r2 = subprocess.run([exe, *extra], env=env, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if prepared_badly(r2.returncode):
                rp = f"{rdir}/{pid}-preparation.replay"
                with open(rp, "w") as f:
                    f.write(f"property {pid}\nbinary {exe}\nphase (preparation)\n\nstatus {r2.returncode}\n{r2.stdout[-3000:]}\n")
                print(f"VIOLATION property={pid} replay={rp}\n  the preparation ends with status {r2.returncode}\n{r2.stdout[-1500:]}")
                rc = 1
                break
            r.returncode = 2
        if r.returncode == 1:
            rc = 1
            break
        if r.returncode != 0:
            print(f"CHECK-ERROR {s['name']} ended with status {r.returncode}")
            rc = rc or 2
    write_evidence(pid, tier, seed, parts, time.time() - t0, 1 if rc == 1 else 0)
    print(f"[{pid}] {'ok' if rc == 0 else 'VIOLATED' if rc == 1 else 'ERROR'} in {time.time()-t0:.1f}s")
    return rc

def write_evidence(pid, tier, seed, parts, wall, viol):
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": bool(parts), "runs": []}
    assume = []
    for s, p in parts:
        # an enumerated input is a state of its own, running it a transition
        cov["states"] += p["states"] or p["executions"]
        cov["transitions"] += p["transitions"] or p["executions"]
        cov["traces_validated_against_impl"] += p["executions"]
        cov["samples"] += p["samples"]
        cov["exhaustive"] = cov["exhaustive"] and p["exhaustive"]
        cov["runs"].append({"binary": s["name"], "variant": s["variant"], **{k: p[k] for k in ("executions", "vacuous_executions", "phases", "bounds", "known_findings_seen", "state_count_is_lower_bound", "wall_s")}})
        for a in p["assumptions"]:
            if a not in assume: assume.append(a)
    cov["how_traces_are_validated"] = ("every explored execution is an execution of /repo's own code compiled from the working tree; "
                                       "each one is compared step by step with the harness's reference model, so model traces and implementation traces are the same runs")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": CHECKS[pid].get("level", "model_checking"), "coverage": cov,
          "assumptions": assume + CHECKS[pid].get("assumptions", []), "wall_s": round(wall, 2), "violations": viol}
    with open(f"{V}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == "check": return run_check(a[1], a[2:])
    if a[0] == "build":
        ok = True
        for pid in (a[1:] or CHECKS):
            for s in specs(pid):
                t = time.time()
                e = build(s)
                print(f"{s['name']}: {'ok' if e else 'FAILED'} {time.time()-t:.1f}s")
                ok = ok and e
        return 0 if ok else 1
    if a[0] == "replay":
        pid = binname = None
        if "\nphase (preparation)\n" in open(a[1]).read(): return run_check(open(a[1]).readline().split()[1], [])
        for l in open(a[1]):
            if l.startswith("property "): pid = l.split()[1]
            if l.startswith("binary "): binname = os.path.basename(l.split()[1])
        for s in specs(pid):
            if binname.startswith(s["name"] + "-"):
                exe = build(s)
                return subprocess.run([exe, "--replay", os.path.abspath(a[1])], env=dict(os.environ, HZV_KNOWN=V + "/known_findings.txt",
                    ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:detect_odr_violation=0:malloc_fill_byte=205:max_malloc_fill_size=65536", **s.get("env", {}))).returncode
        print("no such binary", binname)
        return 2
    print(__doc__)
    return 2

if __name__ == "__main__":
    sys.exit(main())

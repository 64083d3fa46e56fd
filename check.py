#!/usr/bin/env python3
"""Decides one property by symbolic execution of the library's code (see DESIGN.md).

usage: check.py ID [--tier quick|thorough] [--only SUBSTR] [--keep]
exit 0: held on everything explored; exit 1: VIOLATION (confirmed by replay); exit 2: the check could not decide.
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, threading, glob, fcntl
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
sys.path.insert(0, V)
import jobs as J

NPROC = int(os.environ.get("SYMEX_JOBS", os.cpu_count() or 8))
SYMEX = os.path.join(V, "build", "symex")
INC = ["-I%s/include" % REPO, "-I%s/examples" % REPO, "-I%s/harness" % V]
BC = ["clang++-18", "-std=c++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-threadsafe-statics", "-gline-tables-only",
      "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w"] + INC + ["-emit-llvm", "-c"]
NAT = {"plain": ["g++", "-std=c++17", "-O1", "-w"] + INC,
       "san": ["g++", "-std=c++17", "-O1", "-g", "-w", "-DSYM_NO_NEW", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] + INC,
       "plain0": ["clang++-18", "-std=c++17", "-O1", "-g", "-w"] + INC,
       "vg": ["g++", "-std=c++17", "-O0", "-g", "-w", "-DSYM_NO_NEW"] + INC,
       "tsan": ["g++", "-std=c++17", "-O1", "-g", "-w", "-DSYM_NO_NEW", "-fsanitize=thread"] + INC}
SUMS = ["paths", "forks", "instructions", "asserts", "symbolic_asserts", "concretizations", "assumed_away", "races_checked", "sleep_pruned", "schedule_points",
        "queries", "sat", "unsat", "cache_hits", "model_hits", "z3_calls", "split_decided", "table_decided", "lia_decided", "cross_checked", "z3_seconds"]
ENGINE_ONLY = {"uninitialised-value", "data-race", "use-after-return", "wild-pointer", "undefined-behaviour", "deadlock"}
T0 = time.time()

def log(*a): print(*a); sys.stdout.flush()
def build_engine():
    os.makedirs(os.path.join(V, "build"), exist_ok=True)
    with open(os.path.join(V, "build", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["make", "-s", "-j%d" % NPROC, "-C", os.path.join(V, "engine")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: log(r.stdout[-4000:]); raise SystemExit(2)

class Ctx: pass
def key(j): return (j.src, j.defs)
def safe(s): return re.sub(r"[^A-Za-z0-9]+", "_", s)

def compile_bc(c, k):
    src, defs = k; o = os.path.join(c.tmp, safe(src + defs) + ".bc")
    r = subprocess.run(BC + defs.split() + [os.path.join(V, "harness", src + ".cpp"), "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise RuntimeError("compiling %s [%s] failed:\n%s" % (src, defs, r.stdout[:3000]))
    return o
def native(c, k, mode):
    with c.nlock: ev = c.nat.setdefault((k, mode), [threading.Lock(), None])
    with ev[0]:
        if ev[1] is None:
            src, defs = k; o = os.path.join(c.tmp, safe(src + defs + "." + mode))
            r = subprocess.run(NAT[mode] + defs.split() + [os.path.join(V, "harness", src + ".cpp"), os.path.join(V, "harness", "sym_native.cpp"), "-o", o, "-lpthread"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: raise RuntimeError("native build of %s [%s] failed:\n%s" % (src, defs, r.stdout[:3000]))
            ev[1] = o
        return ev[1]

def run_job(c, j, workers, tlimit):
    out = os.path.join(c.tmp, "r%d.json" % j.n)
    for f in glob.glob(out + "*"): os.unlink(f)
    cmd = [SYMEX, c.bc[key(j)], "--out", out, "--workers", str(workers), "--time", str(max(5, tlimit)), "--samples", str(j.samples), "--seed", str(c.seed)]
    for k, v in j.params.items(): cmd += ["--param", "%s=%d" % (k, v)]
    for p, _ in c.known: cmd += ["--known", p]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with c.nlock: c.procs.add(p)
    so, _ = p.communicate()
    with c.nlock: c.procs.discard(p)
    R = dict(job=j, wall=time.time() - t, errors=[], violations=[], reach={}, known={}, functions=set(), lines={}, samples=[])
    for s in SUMS: R[s] = 0
    files = sorted(glob.glob(out + "*"))
    if p.returncode or not files: R["errors"].append("engine exit %s: %s" % (p.returncode, (so or "")[-1500:]))
    for f in files:
        try: d = json.load(open(f))
        except Exception as e: R["errors"].append("unreadable engine result %s" % e); continue
        for s in SUMS: R[s] += d[s]
        if d["error"]: R["errors"].append(d["error"])
        R["violations"] += d["violations"]; R["samples"] += d["samples"]; R["functions"] |= set(d["functions"])
        for k, v in d["reach"].items(): R["reach"][k] = R["reach"].get(k, 0) + v
        for k, v in d["known"].items(): R["known"][k] = R["known"].get(k, 0) + v
        for k, v in d["lines"].items(): R["lines"].setdefault(k, set()).update(v)
    if not R["violations"] and not R["errors"] and (R["paths"] == 0 or R["asserts"] == 0): R["errors"].append("vacuous: no completed path or no assertion evaluated")
    return R

def params(j): return ["%s=%d" % (k, v) for k, v in j.params.items()]
def run_native(exe, j, lines, tmp, env=None, timeout=60, pre=()):
    fd, f = tempfile.mkstemp(dir=tmp); os.write(fd, ("\n".join(lines) + "\n").encode()); os.close(fd)
    e = dict(os.environ); e.update(env or {})
    try: r = subprocess.run(list(pre) + [exe, f] + params(j), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=e); return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return "timeout", ""
    finally: os.unlink(f)

SANENV = {"ASAN_OPTIONS": "exitcode=77:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4096:detect_stack_use_after_return=1", "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=77",
          "TSAN_OPTIONS": "exitcode=66:halt_on_error=1"}
def confirm(c, j, v):
    """Replays a counterexample against compiled code; returns a description of what happened there, or None."""
    lines = ["var " + l for l in v["inputs"]]; k = key(j); kind = v["kind"]
    for mode in ("san", "plain", "plain0"):
        rc, out = run_native(native(c, k, mode), j, lines, c.tmp, SANENV)
        if rc == 3: return "%s build: %s" % (mode, out.strip().splitlines()[-1])
        if rc == 77 or "runtime error:" in out or "AddressSanitizer" in out:
            m = [l for l in out.splitlines() if "runtime error:" in l or "ERROR: AddressSanitizer" in l]; return "%s build: %s" % (mode, (m or ["sanitizer report"])[0])
        if rc == "timeout" and kind in ("non-termination", "unbounded-recursion", "huge-allocation"): return "%s build: does not finish" % mode
        if isinstance(rc, int) and rc < 0: return "%s build: killed by signal %d" % (mode, -rc)
    if kind == "data-race" or v["threads"]:
        exe = native(c, k, "tsan"); pre = ["setarch", "-R"] if shutil.which("setarch") else []
        for _ in range(60):
            rc, out = run_native(exe, j, lines, c.tmp, SANENV, pre=pre)
            if rc == 66 or "WARNING: ThreadSanitizer" in out: return "tsan build: " + ([l for l in out.splitlines() if "ThreadSanitizer" in l] or ["report"])[0].strip()
            if rc == 3: return "tsan build: " + out.strip().splitlines()[-1]
            if rc not in (0, 4): break
    if kind in ("uninitialised-value", "wild-pointer", "use-after-return"):
        rc, out = run_native(native(c, k, "vg"), j, lines, c.tmp, timeout=120, pre=["valgrind", "-q", "--error-exitcode=55"])
        if rc == 55: return "valgrind: " + (out.strip().splitlines() or ["?"])[0]
    if kind in ENGINE_ONLY or v["threads"]:
        # no compiled build can show these deterministically: re-execute the recorded inputs (and schedule) on the encoded code, all values concrete
        fd, f = tempfile.mkstemp(dir=c.tmp); os.write(fd, ("\n".join(lines) + "\n").encode()); os.close(fd); out = f + ".json"
        cmd = [SYMEX, c.bc[k], "--out", out, "--replay", f]
        for p in params(j): cmd += ["--param", p]
        subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try: d = json.load(open(out))
        except Exception: return None
        for w in d["violations"]:
            if w["kind"] == kind: return "concrete re-execution of the compiled IR: %s: %s" % (w["kind"], w["msg"])
    return None

def save_replay(c, j, v, how):
    d = os.path.join(V, "evidence", "replay"); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%s.txt" % (c.prop, safe(j.src + "_" + v["kind"])))
    with open(f, "w") as o:
        o.write("# property %s violated: %s: %s\n# at %s\n# confirmed: %s\n" % (c.prop, v["kind"], v["msg"], v["loc"], how))
        o.write("# replay: %s %s harness/%s.cpp harness/sym_native.cpp -o /tmp/replay -lpthread && /tmp/replay %s %s\n" % (" ".join(NAT["san"]), j.defs, j.src, f, " ".join(params(j))))
        for s in v["stack"][:20]: o.write("#   %s\n" % s)
        for l in v["inputs"]: o.write("var %s\n" % l)
    return os.path.relpath(f, V)

def main():
    a = sys.argv[1:]; prop = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); only = None
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--only" in a: only = a[a.index("--only") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    c = Ctx(); c.prop = prop; c.tier = tier; c.seed = int(os.environ.get("VERIF_SEED", "1") or 1); c.nat = {}; c.nlock = threading.Lock(); c.procs = set()
    c.known = []
    for l in open(os.path.join(V, "known_findings.txt")) if os.path.exists(os.path.join(V, "known_findings.txt")) else []:
        m = re.match(r'known: property=(\S+) match="([^"]+)" (.*)', l.strip())
        if m and m.group(1) == prop: c.known.append((m.group(2), m.group(3)))
    budget = 780 if tier == "quick" else float(os.environ.get("SYMEX_BUDGET", 6 * 3600))
    build_engine()
    c.tmp = tempfile.mkdtemp(prefix="vf-", dir=os.path.join(V, "build"))
    rc = 2
    try: rc = decide(c, only, budget)
    except RuntimeError as e: log("ERROR:", e)
    finally:
        if "--keep" not in a: shutil.rmtree(c.tmp, ignore_errors=True)
        else: log("kept", c.tmp)
    raise SystemExit(rc)

def decide(c, only, budget):
    P = J.PROPS[c.prop]
    jobs = [j for j in P["jobs"] if c.tier in j.tiers and (not only or only in j.src + " " + j.defs)]
    for n, j in enumerate(jobs): j.n = n
    keys = list(dict.fromkeys(key(j) for j in jobs)); c.bc = {}
    pool = ThreadPoolExecutor(NPROC)
    futs = {k: pool.submit(compile_bc, c, k) for k in keys}
    results = []; stop = False
    tcompile = time.time()
    for k, f in futs.items(): c.bc[k] = f.result()
    tcompile = time.time() - tcompile
    left = lambda: budget - (time.time() - T0)
    # small jobs side by side, heavy ones on all cores
    def killall():
        with c.nlock:
            for p in list(c.procs): p.terminate()
    small = [j for j in jobs if not j.heavy]; heavy = [j for j in jobs if j.heavy]
    halted = [False]
    fs = {pool.submit(lambda j: run_job(c, j, 1, left()) if not halted[0] else None, j): j for j in sorted(small, key=lambda j: -j.weight)}
    for f in as_completed(fs):
        try: R = f.result()
        except RuntimeError as e: R = None; log("ERROR:", e)
        if R is None: continue
        if halted[0] and not R["violations"]: continue
        results.append(R)
        if R["violations"]: halted[0] = True; killall()
    for j in heavy:
        if halted[0]: break
        R = run_job(c, j, NPROC, left()); results.append(R)
        if R["violations"]: halted[0] = True
    errors = []
    for R in results:
        for e in set(R["errors"]):
            if not halted[0]: errors.append("%s [%s] %s: %s" % (R["job"].src, R["job"].defs, R["job"].params, e))
    # every counterexample is replayed before it is reported
    nviol = 0; confirmed = None
    seen = set()
    for R in results:
        for v in sorted(R["violations"], key=lambda v: len(v["inputs"])):
            sig = (R["job"].src, v["kind"], v["msg"], v["loc"])
            if sig in seen or confirmed: continue
            seen.add(sig)
            how = confirm(c, R["job"], v)
            log("counterexample: %s: %s at %s (%s [%s] %s)" % (v["kind"], v["msg"], v["loc"], R["job"].src, R["job"].defs, R["job"].params))
            if how: log("  replayed: %s" % how); confirmed = (R["job"], v, how); nviol += 1
            else: log("  NOT reproduced by compiled code"); errors.append("counterexample not reproduced: %s: %s" % (v["kind"], v["msg"]))
    # sampled paths: the encoding must agree with independently compiled code
    validated = 0; mismatch = []; samples = []
    if not confirmed and not errors:
        byk = {}
        for R in results:
            if R["job"].samples and R["samples"]: byk.setdefault(key(R["job"]), []).append(R)
        ks = list(byk); lim = 6 if c.tier == "quick" else 40
        if len(ks) > lim: ks = [ks[(i * len(ks)) // lim] for i in range(lim)]
        todo = []
        for k in ks:
            for R in byk[k]:
                for s in R["samples"][:12 if c.tier == "quick" else 40]: todo.append((k, R["job"], s))
        def val(t):
            k, j, s = t; exe = native(c, k, "plain")
            return t, run_native(exe, j, [l for l in s if not l.startswith("note")], c.tmp)
        for t, (rc, out) in pool.map(val, todo):
            if rc == 0: validated += 1
            else: mismatch.append((t, rc, out))
        for (k, j, s), rc, out in mismatch[:3]:
            log("path sample of %s [%s] %s: compiled code ends with %s %s" % (j.src, j.defs, j.params, rc, out.strip()[-300:]))
        for t, rc, out in mismatch:
            if rc == 3 and not confirmed:
                v = dict(kind="assertion", msg=out.strip().splitlines()[-1], loc="", inputs=[l[4:] for l in t[2] if l.startswith("var ")], stack=[], threads=False)
                confirmed = (t[1], v, "plain build: " + v["msg"]); nviol += 1
        if mismatch and not confirmed: errors.append("%d sampled paths disagree with the compiled code" % len(mismatch))
        for k, j, s in todo[:: max(1, len(todo) // 4)][:4]: samples.append({"harness": j.src, "config": j.defs, "bounds": j.params, "path": s[:60]})
    # vacuity: every reachability witness of every harness used must have been hit
    reach = {}
    for R in results:
        for k2, n in R["reach"].items(): reach[R["job"].src + ": " + k2] = reach.get(R["job"].src + ": " + k2, 0) + n
    if not confirmed and not errors and not only:
        for src in sorted({j.src for j in jobs}):
            for lab in set(re.findall(r'sym_reach\("([^"]+)"\)', open(os.path.join(V, "harness", src + ".cpp")).read())):
                if src + ": " + lab not in reach: errors.append("vacuous: '%s' of %s never reached" % (lab, src))
    tot = {s: sum(R[s] for R in results) for s in SUMS}
    funcs = set(); lines = {}
    for R in results:
        funcs |= R["functions"]
        for f, l in R["lines"].items():
            if "/harness/" not in f: lines.setdefault(os.path.relpath(f, REPO) if f.startswith(REPO) else f, set()).update(l)
    if os.environ.get("SYMEX_LINES"): json.dump({f: sorted(l) for f, l in lines.items()}, open(os.environ["SYMEX_LINES"], "w"))
    lib = sorted(f for f in funcs if "bpptree" in f or "Index" in f)
    ev = {"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking", "wall_s": round(time.time() - T0, 2), "violations": nviol,
          "assumptions": P["assumptions"] + J.COMMON_ASSUMPTIONS,
          "coverage": {
              "states": tot["forks"] + len(results), "transitions": tot["instructions"], "traces_validated_against_impl": validated, "samples": samples,
              "states_are": "nodes of the symbolic execution trees (each stands for all inputs satisfying its path condition)", "transitions_are": "LLVM IR instructions of the library and harness executed symbolically",
              "complete_paths": tot["paths"], "paths_ended_by_an_assumption": tot["assumed_away"], "assertions_evaluated": tot["asserts"], "assertions_with_symbolic_condition": tot["symbolic_asserts"],
              "branch_values_concretized_exhaustively": tot["concretizations"],
              "solver": {"queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "answered_from_cache": tot["cache_hits"], "answered_by_a_known_model": tot["model_hits"], "answered_by_case_split_or_table": tot["split_decided"] + tot["table_decided"], "answered_over_unbounded_integers": tot["lia_decided"],
                         "z3_calls": tot["z3_calls"], "cross_checked_with_z3": tot["cross_checked"], "z3_seconds": round(tot["z3_seconds"], 2)},
              "schedules": {"scheduling_points": tot["schedule_points"], "pruned_by_partial_order_reduction": tot["sleep_pruned"], "accesses_race_checked": tot["races_checked"]},
              "bounds": [{"harness": R["job"].src, "config": R["job"].defs, "params": R["job"].params, "what": R["job"].what, "paths": R["paths"], "wall_s": round(R["wall"], 2)} for R in results],
              "outside_the_bounds": P["outside"],
              "functions_encoded": len(lib), "functions_encoded_names": lib[:150], "library_lines_executed": {f: len(l) for f, l in sorted(lines.items())},
              "reachability_witnesses": reach, "encoding": "regenerated from %s with clang-18 -O1 on this run (%d configurations, %.1f s)" % (REPO, len(keys), tcompile),
              "known_findings_hit": {k2: sum(R["known"].get(k2, 0) for R in results) for k2, _ in c.known}, "errors": errors[:10]}}
    if not only:
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", c.prop + ".json"), "w"), indent=1)
    log("%s %s: %d configurations, %d paths, %d assertions (%d symbolic), %d solver queries (%d by z3, %.1f s), %d paths validated natively, %.1f s" % (
        c.prop, c.tier, len(results), tot["paths"], tot["asserts"], tot["symbolic_asserts"], tot["queries"], tot["z3_calls"], tot["z3_seconds"], validated, time.time() - T0))
    if only or os.environ.get("SYMEX_VERBOSE"):
        for R in sorted(results, key=lambda R: -R["wall"])[:40]: log("   %6.1fs %8d paths  %s [%s] %s" % (R["wall"], R["paths"], R["job"].src, R["job"].defs, R["job"].params))
    for k2, d in c.known:
        n = sum(R["known"].get(k2, 0) for R in results)
        log("KNOWN-FINDING: property=%s %s%s" % (c.prop, d, "" if n else " (not reproduced on this tree)"))
    if confirmed:
        j, v, how = confirmed
        log("VIOLATION property=%s replay=%s" % (c.prop, save_replay(c, j, v, how)))
        return 1
    if errors:
        for e in errors[:8]: log("ERROR:", e[:1500])
        return 2
    return 0
main()

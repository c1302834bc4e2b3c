#!/usr/bin/env python3
"""Run the solver-based check of one property: encode the real code from /repo (clang -> LLVM IR), explore it
symbolically with build/symex (z3 decides every branch / assertion / memory access), replay every counterexample and a
sample of the passing paths on a native sanitizer build of the same sources, write evidence/<ID>.json."""
import sys, os, json, subprocess, tempfile, shutil, time, re, concurrent.futures as cf, threading
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LCE_REPO", "/repo")
sys.path.insert(0, VERIF)
import registry
CLANG, CXX, LINK = "clang++-18", "g++", "llvm-link-18"
SYMF = ["-std=c++11", "-O1", "-g", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-pic", "-fno-pie", "-D__NO_CTYPE", "-D__NO_INLINE__", "-U_FORTIFY_SOURCE",
        "-Wno-everything", "-DLCE_SYM=1", "-DLCE_SYMBOLIC_BUILD=1", "-I" + VERIF + "/sym/stubinc", "-I" + VERIF + "/sym", "-I" + VERIF + "/harness", "-I" + REPO + "/include", "-emit-llvm", "-c"]
NATF = ["-std=c++11", "-O1", "-g", "-w", "-fsanitize=address,unreachable,return,integer-divide-by-zero", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
        "-U_FORTIFY_SOURCE", "-DLCE_SYM=1", "-I" + VERIF + "/sym", "-I" + VERIF + "/harness", "-I" + REPO + "/include"]
NCPU = os.cpu_count() or 8

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build_engine():
    b = os.path.join(VERIF, "build")
    os.makedirs(b, exist_ok=True)
    import fcntl
    with open(os.path.join(b, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-j4", "-C", os.path.join(VERIF, "engine")])
        if r.returncode:
            print(r.stdout); sys.exit(2)

class Build:
    """objects of one check run, shared by its harnesses"""
    def __init__(self, tmp): self.tmp, self.c, self.l = tmp, {}, threading.Lock()
    def get(self, key, cmd):
        with self.l:
            if key not in self.c: self.c[key] = [threading.Lock(), None]
            e = self.c[key]
        with e[0]:
            if e[1] is None:
                r = sh(cmd); e[1] = (r.returncode, r.stdout)
        if e[1][0]: raise RuntimeError("compile failed: %s\n%s" % (" ".join(cmd), e[1][1][-4000:]))
    def bc(self, src, defs=(), extra=()):
        out = os.path.join(self.tmp, re.sub(r"[^A-Za-z0-9]", "_", src + " ".join(defs) + " ".join(extra)) + ".bc")
        self.get(out, [CLANG] + SYMF + list(extra) + ["-D" + d for d in defs] + [src, "-o", out]); return out
    def obj(self, src, defs=(), extra=(), san=None):
        out = os.path.join(self.tmp, re.sub(r"[^A-Za-z0-9]", "_", src + " ".join(defs) + " ".join(extra)) + ("" if san is None else ".san" + san) + ".o")
        self.get(out, [CXX] + (NATF if san is None else [f for f in NATF if "sanitize" not in f and ("auto-var" not in f or san)] + ([san] if san else [])) + list(extra) + ["-D" + d for d in defs] + ["-c", src, "-o", out]); return out

def run_native(exe, replay, timeout=30, fill="190", trace=None):
    env = dict(os.environ, ASAN_OPTIONS="exitcode=78:detect_leaks=0:alloc_dealloc_mismatch=1:max_allocation_size_mb=%s:malloc_fill_byte=%s:max_malloc_fill_size=1048576:detect_stack_use_after_return=1:handle_abort=0:symbolize=0" % (registry.NATIVE_ALLOC_MB, fill), UBSAN_OPTIONS="exitcode=78:symbolize=0", TSAN_OPTIONS="exitcode=81:halt_on_error=1:report_signal_unsafe=0:symbolize=0")
    cwd = tempfile.mkdtemp(prefix="lcereplay.")
    try:
        r = subprocess.run((["setarch", "-R"] if exe.endswith(".tsan") else ["valgrind", "-q", "--error-exitcode=82"] if exe.endswith(".plain") else []) + [exe, replay], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env, cwd=cwd, stdin=subprocess.DEVNULL)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    finally:
        shutil.rmtree(cwd, ignore_errors=True)

def native_build(b, h, tmp, src, D, tsan=False, plain=False):
    """the real code (and the harness) for replay: ASan build, ThreadSanitizer build for data races, plain build for valgrind"""
    threads = h.get("threads", False); exe = os.path.join(tmp, h["name"] + (".tsan" if tsan else ".plain" if plain else ".native")); san = "-fsanitize=thread" if tsan else "" if plain else None; none = "" if (tsan or threads or plain) else None
    cf = h.get("cflags", []) + h.get("nflags", [])
    objs = [b.obj(src, D, cf, san), b.obj(os.path.join(VERIF, "sym/native.cpp"), ["SYM_THREADS=1"] if threads else [], (), none)]
    objs += [b.obj(os.path.join(REPO, s), h.get("repo_defs", []), cf, san) for s in h.get("repo", [])]
    objs += [b.obj(os.path.join(VERIF, s), D, h.get("cflags", []), san) for s in h.get("extra", []) + h.get("nextra", [])]
    wrap = []
    if threads:
        objs.append(b.obj(os.path.join(VERIF, "sym/nthreads.cpp"), (), (), ""))
        wrap = ["-Wl,--wrap=" + f for f in registry.WRAPPED]
    r = sh([CXX] + ([] if plain else [san or "-fsanitize=address,unreachable,return,integer-divide-by-zero"]) + ["-o", exe] + objs + wrap + ["-lpthread"] + h.get("libs", []))
    if r.returncode: raise RuntimeError("native link: " + r.stdout[-3000:])
    return exe

def confirmed(rc, out=""):
    return "Sanitizer: CHECK failed" not in out and ( rc == "timeout" or rc in (77, 78, 79, 80, 81) or (isinstance(rc, int) and rc < 0))

def run_harness(pid, h, tier, b, tmp, workers, seed, deadline):
    t0 = time.time()
    res = {"harness": h["name"], "violations": [], "unconfirmed": [], "errors": [], "stats": {}, "validated": 0, "mismatch": []}
    defs = dict(h.get("defs", {}))
    if tier == "thorough": defs.update(h.get("thorough", {}))
    D = ["%s=%s" % kv for kv in defs.items()]
    src = os.path.join(VERIF, "harness", h["src"])
    threads = h.get("threads", False)
    out = os.path.join(tmp, "out_" + h["name"])
    try:
        extra = h.get("cflags", [])
        bcs = [b.bc(src, D, extra), b.bc(os.path.join(VERIF, "sym/rt.cpp"), [], ["-fno-builtin"]), b.bc(os.path.join(VERIF, "sym/env.cpp"))]
        bcs += [b.bc(os.path.join(REPO, s), h.get("repo_defs", []), extra) for s in h.get("repo", [])]
        bcs += [b.bc(os.path.join(VERIF, s), D, extra) for s in h.get("extra", [])]
        linked = os.path.join(tmp, h["name"] + ".linked.bc")
        r = sh([LINK] + bcs + ["-o", linked])
        if r.returncode: raise RuntimeError("link: " + r.stdout[-3000:])
        to = h.get("timeout", 300) if tier == "quick" else h.get("thorough_timeout", h.get("timeout", 300) * 2)
        to = max(10, min(to, deadline - time.time() - 40))
        opts = list(h.get("opts", [])) + (list(h.get("thorough_opts", [])) if tier == "thorough" else [])
        r = sh([os.path.join(VERIF, "build/symex"), linked, "--out", out, "--workers", str(workers), "--timeout", str(to), "--seed", str(seed), "--samples", str(h.get("samples", 3)), "--repo", REPO + "/"] + opts)
        if r.returncode: res["errors"].append("engine exit %s: %s" % (r.returncode, r.stdout[-1500:]))
    except RuntimeError as e:
        res["errors"].append(str(e)); res["wall"] = time.time() - t0; return res
    st = {}; samples = []
    for f in sorted(os.listdir(out)) if os.path.isdir(out) else []:
        if f.startswith("part."):
            j = json.load(open(os.path.join(out, f)))
            for k, v in j.items():
                if k == "samples": samples += v
                elif isinstance(v, dict):
                    d = st.setdefault(k, {})
                    for kk, vv in v.items(): d[kk] = d.get(kk, 0) + vv
                elif k == "maxq": st[k] = max(st.get(k, 0), v)
                else: st[k] = st.get(k, 0) + v
        if f.startswith("fatal"): res["errors"].append(open(os.path.join(out, f)).read()[:1500])
    res["stats"] = st; res["engine_wall"] = time.time() - t0
    viols = sorted((f for f in os.listdir(out) if re.match(r"viol\.\d+\.txt$", f)), key=lambda f: int(f.split(".")[1])) if os.path.isdir(out) else []
    # native build: needed for violations and validation samples
    exe = os.path.join(tmp, h["name"] + ".native")
    if viols or samples:
        try:
            exe = native_build(b, h, tmp, src, D)
        except RuntimeError as e:
            res["errors"].append(str(e)); res["wall"] = time.time() - t0; return res
    rdir = os.path.join(VERIF, "replays", pid); seen = set()
    for v in viols:
        txt = open(os.path.join(out, v)).read()
        if len(res["violations"]) >= 3: break
        ok = None; vexe = exe
        if "data-race" in txt[:400]:
            try: vexe = native_build(b, h, tmp, src, D, tsan=True)
            except RuntimeError as e: res["errors"].append(str(e)); break
        for fill in ("190", "0", "255"):
            rc, o = run_native(vexe, os.path.join(out, v), timeout=registry.HANG_S, fill=fill)
            if confirmed(rc, o): ok = (rc, o, fill); break
        if not ok and "data-race" not in txt[:400] and len(res["unconfirmed"]) < 2: # the replay takes what happens to be in memory: let valgrind look for the use of an uninitialised value
            try: rc, o = run_native(native_build(b, h, tmp, src, D, plain=True), os.path.join(out, v), timeout=registry.HANG_S * 4)
            except RuntimeError as e: res["errors"].append(str(e)); break
            if rc == 82 and "ninitialised" in o: ok = (rc, o, "valgrind")
        head = [l[2:] for l in txt.splitlines() if l.startswith("# ")]
        desc = " | ".join(head[:3])
        if ok:
            key = "\n".join(head[:3])
            if key in seen: continue
            seen.add(key); os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, "%s.%s" % (h["name"], v))
            with open(rp, "w") as f:
                f.write("# property %s harness %s defs %s\n# replay: python3 check.py --replay %s\n# native result: %s (fill %s)\n" % (pid, h["name"], " ".join(D), os.path.relpath(rp, VERIF), ok[0], ok[2]))
                f.write(txt); f.write("".join("# native: %s\n" % l for l in ok[1].splitlines()[:40]))
            res["violations"].append({"desc": desc, "replay": rp, "native": str(ok[0])})
        else:
            res["unconfirmed"].append({"desc": desc, "native": str(rc), "out": o[-300:], "file": txt[:3000]})
    # validate the encoding: sampled passing paths must behave identically in the native build
    for i, s in enumerate(samples[: registry.MAX_SAMPLES]):
        p = os.path.join(tmp, "%s.sample%d.txt" % (h["name"], i)); open(p, "w").write(s)
        rc, o = run_native(exe, p, timeout=20)
        exp = [l[4:] for l in s.splitlines() if l.startswith("obs ")]; got = [l[4:] for l in o.splitlines() if l.startswith("obs ")]
        if rc == 0 and exp == got: res["validated"] += 1
        elif rc in (77, 78, 79, 80) and confirmed(rc, o) and not h.get("no_sample_violation"):
            os.makedirs(rdir, exist_ok=True); rp = os.path.join(rdir, "%s.sample%d.txt" % (h["name"], i))
            open(rp, "w").write("# property %s harness %s defs %s (found while validating a solver-generated path)\n" % (pid, h["name"], " ".join(D)) + s + "".join("# native: %s\n" % l for l in o.splitlines()[:40]))
            res["mismatch"].append({"rc": rc, "out": o[:1500], "sample": s[:1500]})
            res["violations"].append({"desc": "solver-generated path fails natively: " + (o.splitlines() or [""])[0][:200], "replay": rp, "native": str(rc)})
        else: res["mismatch"].append({"rc": rc, "exp": exp[:20], "got": got[:20], "out": o[:800], "sample": s[:1500]})
    res["samples"] = samples[:2]
    for lab in h.get("reach", []):
        if not st.get("reach", {}).get(lab) and not res["violations"]: res.setdefault("vacuous", []).append(lab)
    res["wall"] = time.time() - t0
    res["defs"] = D
    return res

def known(pid):
    p = os.path.join(VERIF, "known_findings.txt"); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == pid: out.append(m.groups()[1:])
    return out

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build_engine(); print("engine ready"); return 0
    pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1")); only = None; budget = 0
    for i, x in enumerate(a):
        if x == "--tier": tier = a[i + 1]
        if x == "--only": only = a[i + 1]
        if x == "--budget": budget = float(a[i + 1])
    t0 = time.time(); build_engine()
    P = registry.PROPS[pid]; hs = [h for h in P["harnesses"] if (not only or h["name"] == only) and not (h.get("thorough_only") and tier == "quick")]
    deadline = t0 + (850 if tier == "quick" else P.get("thorough_budget", 3400))
    if budget: deadline = t0 + budget + 40
    tmp = tempfile.mkdtemp(prefix="lcecheck.")
    results = []
    try:
        b = Build(tmp); par = min(len(hs), P.get("par", 4)); workers = max(2, (NCPU + par - 1) // par)
        with cf.ThreadPoolExecutor(par) as ex:
            futs = [ex.submit(run_harness, pid, h, tier, b, tmp, workers, seed, deadline) for h in hs]
            for f in futs: results.append(f.result())
    finally:
        if "--keep" not in a: shutil.rmtree(tmp, ignore_errors=True)
        else: print("kept", tmp)
    tot = lambda k: sum(r["stats"].get(k, 0) for r in results)
    kf = known(pid); viol = []; knownhit = []
    for r in results:
        for v in r["violations"]:
            hit = next((k for k in kf if k[0] == r["harness"] and re.search(k[1], v["desc"])), None)
            (knownhit if hit else viol).append((r["harness"], v, hit))
    for hname, v, hit in knownhit: print("KNOWN-FINDING: property=%s %s" % (pid, hit[2]))
    shown = set()
    for r in results:
        s = r["stats"]
        print("[%s] paths=%d forks=%d asserts=%d/%d memchecks=%d z3=%d (%.1fs) incomplete=%d unexplored=%d validated=%d wall=%.1fs" % (r["harness"], s.get("paths", 0), s.get("forks", 0), s.get("assertsProved", 0), s.get("asserts", 0), s.get("memchecks", 0), s.get("z3queries", 0), s.get("z3time", 0), s.get("incomplete", 0), s.get("unexplored", 0), r["validated"], r.get("wall", 0)))
        if s.get("notes"): print("   notes:", s["notes"])
        for e in r["errors"]:
            k = re.sub(r"\s+", " ", e[-700:])
            if k not in shown: shown.add(k); print("   ERROR:", e[-1200:] if "compile failed" in e else e[:1200])
            else: print("   ERROR: (as above)")
        for u in r["unconfirmed"]: print("   UNCONFIRMED:", u["desc"], "native:", u["native"], u["out"] if "-v" in a else ""); ("-v" in a) and print(u["file"])
        for m in r["mismatch"]: print("   ENCODING-MISMATCH:", json.dumps(m)[:3000 if "-v" in a else 700])
        if r.get("vacuous"): print("   VACUOUS: labels never reached:", r["vacuous"])
    fn = {}
    for r in results:
        for k, v in r["stats"].get("functions", {}).items(): fn[k] = fn.get(k, 0) + v
    if os.environ.get("LCE_COV"): # source lines executed, for tools/cov.py
        ln = {}
        for r in results:
            for k, v in r["stats"].get("lines", {}).items(): ln.setdefault(k, {})[r["harness"]] = max(v, ln.get(k, {}).get(r["harness"], 0))
        json.dump(ln, open(os.path.join(os.environ["LCE_COV"], pid + ".json"), "w"))
    incomplete = tot("incomplete") + tot("unexplored")
    lim = [n for r in results for n in r["stats"].get("notes", {})]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"),
          "coverage": {"states": int(tot("forks")) + len(results), "transitions": int(tot("transitions") + tot("schedPoints")) or int(tot("steps")), "traces_validated_against_impl": sum(r["validated"] for r in results),
                       "samples": [x for r in results for x in r.get("samples", [])][:4] or ["none"],
                       "symbolic_paths_completed": tot("paths"), "ir_instructions_executed": tot("steps"), "assertions_checked": tot("asserts"), "assertions_discharged": tot("assertsProved"), "memory_accesses_checked": tot("memchecks"), "symbolic_address_checks": tot("symmem"),
                       "solver": {"feasibility_or_validity_queries": tot("queries"), "sent_to_z3": tot("z3queries"), "z3_unsat": tot("z3unsat"), "z3_sat": tot("z3sat"), "z3_unknown": tot("z3unknown"), "answered_by_cache": tot("cacheHits"), "answered_by_known_model": tot("modelHits"), "z3_seconds": round(tot("z3time"), 2), "longest_query_s": max([r["stats"].get("maxq", 0) for r in results] or [0])},
                       "functions_encoded": sorted(fn), "bounds": P["bounds"], "outside_the_claim": P.get("outside", ""), "stubs": P.get("stubs", []),
                       "complete_within_bounds": incomplete == 0 and not any(r["errors"] for r in results), "unexplored_states": tot("unexplored"), "inconclusive": tot("incomplete"), "notes": sorted(set(lim)),
                       "harnesses": [{"name": r["harness"], "defs": r.get("defs", []), "paths": r["stats"].get("paths", 0), "reach": r["stats"].get("reach", {}), "assertions": r["stats"].get("assertLabels", {}), "wall_s": round(r.get("wall", 0), 1), "errors": r["errors"]} for r in results],
                       "unconfirmed_counterexamples": [u["desc"] for r in results for u in r["unconfirmed"]], "encoding_mismatches": sum(len(r["mismatch"]) for r in results)},
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    if ev["level"] == "other": ev["coverage"]["explanation"] = P.get("explanation", P["bounds"])
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for hname, v, _ in viol:
        print("  %s: %s" % (hname, v["desc"])); print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    if viol: return 1
    if any(r["errors"] for r in results) or any(r.get("vacuous") for r in results): print("ERROR: check inconclusive"); return 2
    if incomplete: print("INCOMPLETE: %d states unexplored / %d inconclusive within the budget (stated in the evidence)" % (tot("unexplored"), tot("incomplete")))
    print("OK property=%s held on everything explored (%d paths, %.1fs)" % (pid, tot("paths"), time.time() - t0))
    return 0
if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Driver: compile harness + environment + /repo sources to LLVM IR, let vsx (engine/vsx.cpp)
decide every obligation symbolically, replay what it finds against a native build of the same
sources, write the evidence file.

  run.py <property> [--tier quick|thorough] [--keep] [--only RUN] [-v]
exit 0: held on everything explored     1: violated (VIOLATION line)     2: no answer
"""
import json, os, signal, subprocess, sys, time, tempfile, shutil, re, fcntl, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, HERE)
T0 = time.time()
import checks

CC = "clang-18"
INC = [f"-I{REPO}/include", f"-I{REPO}/include/NodesetLoader", f"-I{REPO}/src", f"-I{REPO}/backends/open62541/src",
       f"-I{REPO}/backends/open62541/include", f"-I{REPO}/backends/stdout/examples", f"-I{HERE}/env/include", f"-I{HERE}/env", "-I/usr/include/libxml2"]
HEAP = ["-D%s=vfh_%s" % (f, f) for f in ("malloc", "calloc", "realloc", "free", "strdup", "strndup", "reallocarray")]
FILES = ["-D%s=vf_%s" % (f, f) for f in ("fopen", "fclose", "fread", "feof", "ferror", "fseek", "ftell", "rewind")]
CAPT = ["-D%s=vfc_%s" % (f, f) for f in ("printf", "puts", "putchar", "vprintf", "fprintf", "vfprintf", "fputs", "fputc", "fwrite", "fflush")]
BASE = ["-Wno-everything", "-Werror=implicit-function-declaration", "-g", "-D__NO_CTYPE", "-U_FORTIFY_SOURCE", "-fno-builtin", "-std=gnu11"]
SYM = BASE + ["-O1", "-Xclang", "-disable-llvm-passes", "-U__OPTIMIZE__", "-emit-llvm"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)

def build_engine():
    b = os.path.join(HERE, "build")
    os.makedirs(b, exist_ok=True)
    src, out = os.path.join(HERE, "engine/vsx.cpp"), os.path.join(b, "vsx")
    with open(os.path.join(b, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
            return out
        cfg = lambda *a: sh(["llvm-config-18", *a]).stdout.split()
        r = sh(["g++", "-O2", src, "-o", out + ".new"] + cfg("--cxxflags") + ["-fexceptions"] + cfg("--ldflags", "--libs") + ["-lz3"])
        if r.returncode:
            print(r.stderr[-3000:]); sys.exit(2)
        os.rename(out + ".new", out)
    return out

def repo_sources(mods):
    srcs = []
    def walk(d):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            srcs.extend(os.path.join(root, f) for f in sorted(files) if f.endswith(".c"))
    if "core" in mods: walk("src")
    if "backend" in mods: walk("backends/open62541/src")
    for m in mods:
        if m.endswith(".c"): srcs.append(os.path.join(REPO, m))
    return srcs

def env_sources(env, native):
    base = ["heap.c", "capture.c", "ua_model.c", "replay_rt.c" if native else "libc.c"]
    return [os.path.join(HERE, "env", f) for f in base + list(env)]

class Fail(Exception): pass

def compile_all(run, work, mode):
    """mode: sym | asan | msan"""
    out = os.path.join(work, mode)
    os.makedirs(out, exist_ok=True)
    if mode == "sym": fl, ext = SYM, ".bc"
    elif mode == "asan": fl, ext = BASE + ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=function,alignment,vptr,pointer-overflow,nonnull-attribute", "-fno-sanitize-recover=undefined"], ".o"
    else: fl, ext = BASE + ["-O1", "-fsanitize=memory"], ".o"
    defs = ["-D%s=%s" % kv for kv in run.get("defs", {}).items()]
    jobs = []
    heap = run.get("heap", HEAP)
    for s in repo_sources(run["mods"]): jobs.append((s, heap + FILES + (CAPT if run.get("capture", True) else []) + run.get("repo_defs", [])))
    for s in env_sources(run.get("env", []), mode != "sym"): jobs.append((s, [] if "replay_rt" in s or "libc.c" in s or "heap.c" in s or "capture.c" in s or "sax.c" in s or "ua_server_model" in s else HEAP))
    jobs.append((os.path.join(HERE, "harness", run["harness"]), HEAP))
    def one(j):
        i, (s, extra) = j
        o = os.path.join(out, "%03d%s" % (i, ext))
        r = sh([CC] + fl + INC + extra + defs + ["-c", s, "-o", o])
        if r.returncode: raise Fail("compile %s (%s):\n%s" % (s, mode, r.stderr[-3000:]))
        return o
    with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, enumerate(jobs)))
    exe = os.path.join(out, "all.bc" if mode == "sym" else "a.out")
    if mode == "sym": cmd = ["llvm-link-18", *objs, "-o", exe]
    elif mode == "asan": cmd = [CC, "-fsanitize=address,undefined", *objs, "-o", exe, "-lm"]
    else: cmd = [CC, "-fsanitize=memory", *objs, "-o", exe, "-lm"]
    r = sh(cmd)
    if r.returncode: raise Fail("link (%s):\n%s" % (mode, r.stderr[-3000:]))
    return exe

NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=78:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=4096",
            UBSAN_OPTIONS="halt_on_error=1:exitcode=78:print_stacktrace=1", MSAN_OPTIONS="exitcode=78:allocator_may_return_null=1")

def native(exe, inputs, d, timeout=20, lenient=False):
    ip, op = os.path.join(d, "inputs"), os.path.join(d, "obs")
    open(ip, "w").write("\n".join(str(x) for x in inputs) + "\n")
    if os.path.exists(op): os.unlink(op)
    try:
        r = sh([exe, ip, op], timeout=timeout, env=dict(NENV, VF_LENIENT="1") if lenient else NENV, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return "hang", "no termination within %d s" % timeout, []
    obs = [int(x) for x in open(op).read().split()] if os.path.exists(op) else []
    tail = r.stderr[-6000:]
    if r.returncode == 0 and "VF-COMPLETED" in r.stderr: return "ok", "", obs
    if r.returncode == 0: return "ok", "", obs
    if r.returncode == 79: return "diverged", tail, obs
    return "fail", tail, obs

def run_one(prop, run, vsx, work, args, tag):
    """returns dict(summary, violations[], problems[], validated)"""
    res = {"name": run["name"], "violations": [], "problems": [], "validated": 0, "summary": None, "witnesses": [], "finding_hit": False}
    bc = compile_all(run, work, "sym")
    out = os.path.join(work, "out.jsonl")
    jobs = run.get("jobs", min(8, os.cpu_count() or 1))
    samples = run.get("samples", 6)
    # the runs of a quick check share what a check is given
    tmax = max(20, min(run.get("max_time", 600), 780 - int(time.time() - T0))) if args.tier == "quick" else run.get("max_time", 600)
    cmd = [vsx, "--jobs", str(jobs), "--samples", str(samples), "--max-time", str(tmax), "--max-steps", str(run.get("max_steps", 3000000)),
           "--query-ms", str(run.get("query_ms", 60000)), "--out", out, bc]
    # a child that never comes back must not take the whole check with it
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        _, err = p.communicate(timeout=tmax + 60)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        _, err = p.communicate()
        err = "no answer within %d s %s" % (tmax + 60, err)
    recs = []
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try: recs.append(json.loads(l))
            except ValueError: res["problems"].append("unreadable engine record")
    summ = next((x for x in recs if x["t"] == "summary"), None)
    if p.returncode not in (0, 1, 2) or not summ:
        res["problems"].append("engine failed: rc %s %s" % (p.returncode, err[-800:]))
        summ = None
    res["summary"] = summ
    wit = set(x["name"] for x in recs if x["t"] == "witness")
    res["witnesses"] = sorted(wit)
    errs, seen = [], set()
    for x in recs:
        if x["t"] != "error": continue
        k = (x["kind"], x.get("msg"), x.get("loc"))
        if k in seen: continue
        seen.add(k); errs.append(x)
    if not errs:
        miss = [w for w in (summ or {}).get("witnesses_expected", []) if w not in wit]
        if miss: res["problems"].append("vacuous: never reached " + ", ".join(miss))
    for x in recs:
        if x["t"] == "incomplete": res["problems"].append("incomplete: %s at %s" % (x["why"], x.get("loc", "")))
    exes = {}
    def exe(mode):
        if mode not in exes: exes[mode] = compile_all(run, work, mode)
        return exes[mode]
    finding = run.get("finding")
    # one of each kind and place first, then the others
    first, rest, ks = [], [], set()
    for x in errs:
        k = (x["kind"], (x.get("loc") or "").split(" < ")[0])
        (rest if k in ks else first).append(x); ks.add(k)
    t1 = time.time()
    for x in first + rest[:12]:
        if res["violations"] or time.time() - t1 > 120: break
        modes = ["msan"] if x["kind"] == "uninit" else ["asan"]
        for m in modes:
            st, txt, _ = native(exe(m), x["inputs"], work, run.get("replay_timeout", 15), lenient=x["kind"] != "assert")
            if st in ("fail", "hang"):
                if finding:
                    res["finding_hit"] = True
                d = os.path.join(HERE, "evidence", "replay", "%s-%s" % (prop, run["name"]))
                os.makedirs(d, exist_ok=True)
                open(os.path.join(d, "inputs"), "w").write("\n".join(map(str, x["inputs"])) + "\n")
                open(os.path.join(d, "report.txt"), "w").write(
                    "property %s, run %s, %s\nvsx: %s: %s at %s\nnative (%s): %s\n%s\n\nreplay: python3 %s/run.py %s --replay %s --only %s\n" % (
                        prop, run["name"], run.get("defs"), x["kind"], x.get("msg"), x.get("loc"), m, st, txt, HERE, prop, d, run["name"]))
                res["violations"].append({"path": d, "kind": x["kind"], "msg": x.get("msg"), "loc": x.get("loc"), "native": st})
                break
        else:
            res["problems"].append("counterexample not reproduced natively: %s: %s at %s inputs %s [%s]" % (x["kind"], x.get("msg"), x.get("loc"), str(x["inputs"])[:300], (st + " " + txt[-200:])))
    if not errs and samples:
        for x in [y for y in recs if y["t"] == "sample"][:samples]:
            st, txt, obs = native(exe("asan"), x["inputs"], work)
            if st != "ok": res["problems"].append("sampled path disagrees natively: %s %s" % (st, txt[-600:]))
            elif obs != x["obs"]: res["problems"].append("sampled path: observations differ %s vs native %s" % (str(x["obs"])[:200], str(obs)[:200]))
            else:
                res["validated"] += 1
                res.setdefault("samples", []).append({"run": run["name"], "inputs": x["inputs"][:60], "observations": obs[:30]})
    if args.verbose and summ:
        print("# %s/%s: rc %d paths %d forks %d queries %d instr %.1fM solver %.1fs wall %.1fs errors %d incomplete %d validated %d" % (
            prop, run["name"], p.returncode, summ["paths"], summ["forks"], summ["queries"], summ["instructions"] / 1e6, summ["solver_s"], summ["wall_s"], len(errs), summ["incomplete"], res["validated"]))
        for x in errs[:8]: print("#   %s: %s @ %s inputs=%s" % (x["kind"], x.get("msg"), x.get("loc"), str(x["inputs"])[:160]))
    return res

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true"); ap.add_argument("--only"); ap.add_argument("--replay"); ap.add_argument("-v", "--verbose", action="store_true")
    args = ap.parse_args()
    if args.prop == "setup": build_engine(); return 0
    t0 = time.time()
    vsx = build_engine()
    chk = checks.CHECKS[args.prop]
    known = json.load(open(os.path.join(HERE, "known_findings.json")))["known"]
    runs = [r for r in chk["runs"] if r.get("tier", "quick") in ("quick", args.tier) and not (args.tier == "thorough" and r.get("tier") == "quick-only")]
    if args.tier == "quick": runs = [r for r in runs if r.get("tier", "quick") != "thorough"]
    if args.only: runs = [r for r in chk["runs"] if r["name"] == args.only]
    top = tempfile.mkdtemp(prefix="vf-%s-" % args.prop)
    results, viol, problems = [], [], []
    try:
        if args.replay:
            for r in runs:
                w = os.path.join(top, r["name"]); os.makedirs(w)
                inp = [int(x) for x in open(os.path.join(args.replay, "inputs")).read().split()]
                st, txt, obs = native(compile_all(r, w, "asan"), inp, w)
                print(st, txt, obs)
            return 0
        for r in runs:
            w = os.path.join(top, r["name"]); os.makedirs(w)
            if r.get("finding"):
                ent = next((k for k in known if k["id"] == r["finding"]), None)
                if not ent: continue
            try:
                res = run_one(args.prop, r, vsx, w, args, r["name"])
            except Fail as e:
                res = {"name": r["name"], "violations": [], "problems": [str(e)], "validated": 0, "summary": None, "witnesses": [], "finding_hit": False}
            res["run"] = r
            results.append(res)
            if r.get("finding"):
                if res["finding_hit"]: print("KNOWN-FINDING: property=%s %s" % (args.prop, ent["what"]))
                else: print("# finding %s no longer reproduces" % r["finding"])
                res["violations"], res["problems"] = [], []
                continue
            viol += res["violations"]
            problems += ["%s: %s" % (r["name"], p) for p in res["problems"]]
            if viol and not args.verbose: break
    finally:
        if args.keep: print("# kept", top)
        else: shutil.rmtree(top, ignore_errors=True)
    if not args.only: write_evidence(args, chk, results, viol, problems, time.time() - t0)
    for v in viol: print("VIOLATION property=%s replay=%s" % (args.prop, v["path"])); print("  %s: %s at %s (native: %s)" % (v["kind"], v["msg"], v["loc"], v["native"]))
    if viol: return 1
    if problems:
        for p in problems: print("NO-ANSWER property=%s %s" % (args.prop, p[:1500]))
        return 2
    print("OK property=%s tier=%s runs=%d paths=%d obligations=%d wall=%.1fs" % (args.prop, args.tier, len(results),
          sum(r["summary"]["paths"] for r in results if r["summary"]), sum(r["summary"]["obligations"] for r in results if r["summary"]), time.time() - t0))
    return 0

def write_evidence(args, chk, results, viol, problems, wall):
    S = [r["summary"] for r in results if r["summary"]]
    tot = lambda k: sum(s[k] for s in S)
    fns = {}
    for s in S:
        for n, f, c, t in s["functions"]:
            if f.startswith(REPO + "/") or "/repo/" in f:
                o = fns.setdefault((n, f), [0, t]); o[0] = max(o[0], c)
    cov = {
        "states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": sum(r["validated"] for r in results),
        "samples": [x for r in results for x in r.get("samples", [])][:12],
        "explanation": "states = symbolic paths explored to their end; transitions = IR instructions executed on them; traces_validated_against_impl = solver-chosen completed paths re-run against a native ASan/UBSan build of the same sources with identical observations; samples = some of those (inputs in the order the harness asks for them)",
        "functions_encoded": sorted("%s (%s) %d/%d blocks" % (n, f.split("/repo/")[-1], c, t) for (n, f), (c, t) in fns.items()),
        "bounds": [{"run": r["name"], "scope": r["run"].get("scope", ""), "defs": r["run"].get("defs", {}), "max_steps_per_path": r["run"].get("max_steps", 3000000),
                    "paths": (r["summary"] or {}).get("paths")} for r in results],
        "queries": tot("queries"), "obligations": tot("obligations"), "discharged": tot("discharged"), "forks": tot("forks"), "solver_s": round(tot("solver_s"), 2),
        "max_path_steps": max([s["max_path_steps"] for s in S] or [0]),
        "witnesses": sorted(set(w for r in results for w in r["witnesses"])),
        "outside_bounds": chk.get("outside", ""), "incomplete": problems}
    ev = {"property": args.prop, "tier": args.tier if args.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": cov, "assumptions": chk.get("assumptions", []) + checks.COMMON_ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", args.prop + ".json"), "w"), indent=1)

if __name__ == "__main__": sys.exit(main())

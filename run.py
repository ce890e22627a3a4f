#!/usr/bin/env python3
"""Runs one check:  run.py P01 [--tier quick|thorough] [--only HARNESS] [--replay FILE]
   or builds the engine:  run.py --setup

Every check compiles its harness units together with /repo's current sources
through the SX pass (engine/sxpass.cpp), explores every path symbolically, lets
Z3 decide each branch and assertion, replays each counterexample in a build
without symbolic instrumentation and reports only what reproduces."""
import argparse, concurrent.futures as cf, fcntl, hashlib, json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
CLANG = "/usr/lib/llvm-18/bin/clang++"
LLVMC = "/usr/lib/llvm-18/bin/llvm-config"
CF = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-gline-tables-only", "-std=c++17",
      "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fopenmp", "-w", "-I" + V + "/engine", "-I" + V + "/harness",
      "-I" + V + "/stubs", "-I" + REPO + "/lib", "-I" + REPO + "/app", "-I" + REPO,
      '-DVIECUT_PATH="' + REPO + '"']
NCPU = os.cpu_count() or 4


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_engine():
    h = hashlib.sha256()
    for f in sorted(os.listdir(V + "/engine")):
        h.update(open(V + "/engine/" + f, "rb").read())
    d = os.path.join(BUILD, "engine-" + h.hexdigest()[:12])
    os.makedirs(d, exist_ok=True)
    with open(d + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(d + "/ok"):
            return d
        fl = [x for x in sh([LLVMC, "--cxxflags"]).stdout.split() if x not in ("-fno-exceptions", "-std=c++17")]
        E = V + "/engine/"
        jobs = [
            ["g++", "-O1", "-shared", "-fPIC", "-fno-rtti", "-std=c++17"] + fl + [E + "sxpass.cpp", "-o", d + "/libsx.so"],
            ["g++", "-O2", "-std=c++17", "-c", E + "sxrt.cpp", "-o", d + "/sxrt.o"],
            ["g++", "-O2", "-std=c++17", "-c", E + "sxmain.cpp", "-o", d + "/sxmain.o"],
            ["g++", "-O1", "-std=c++17", "-c", E + "sxnative.cpp", "-o", d + "/sxnative.o"]]
        with cf.ThreadPoolExecutor(4) as ex:
            for r in ex.map(sh, jobs):
                if r.returncode:
                    print(r.stdout)
                    sys.exit(2)
        open(d + "/ok", "w").close()
    return d


def unit_cmds(eng, unit, native, out):
    src = V + "/harness/" + unit["src"]
    env = dict(os.environ, SX_REPO=REPO)
    if unit.get("yields"):
        env["SX_YIELD"] = unit["yields"] if isinstance(unit["yields"], str) else "1"
    if native:
        env["SX_NATIVE"] = "1"
    o = out + ".o"
    cc = [CLANG] + CF + ["-D" + x for x in unit.get("defs", [])] + unit.get("flags", []) + \
         ["-fpass-plugin=" + eng + "/libsx.so", "-c", src, "-o", o]
    rt = [eng + "/sxnative.o"] if native else [eng + "/sxrt.o", eng + "/sxmain.o"]
    ld = ["g++", o] + rt + ["-o", out, "-Wl,--wrap=exit", "-lz3", "-lpthread", "-ldl"]
    return cc, ld, env


def build_unit(eng, unit, work, native=False):
    tag = re.sub(r"\W", "_", unit["src"] + "_" + "_".join(unit.get("defs", [])) + ("_y" + str(unit["yields"]) if unit.get("yields") else ""))
    out = os.path.join(work, tag + ("_native" if native else ""))
    cc, ld, env = unit_cmds(eng, unit, native, out)
    r = sh(cc, env=env)
    if r.returncode:
        return None, r.stdout[-4000:]
    r = sh(ld)
    if r.returncode:
        return None, r.stdout[-4000:]
    return out, ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    eng = build_engine()
    if a.setup:
        print("engine ready:", eng)
        return 0
    from checks import CHECKS
    ck = CHECKS[a.prop]
    work = os.path.join(BUILD, "work", a.prop + "-" + str(os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        return run_check(a, ck, eng, work, t0)
    finally:
        subprocess.run(["rm", "-rf", os.path.abspath(work)])


def run_check(a, ck, eng, work, t0):
    prop, tier = a.prop, a.tier
    if a.replay:
        rp = json.load(open(a.replay))
        u = next(u for u in ck["units"] if u["src"] == rp["unit"] and u.get("defs", []) == rp["defs"])
        exe, err = build_unit(eng, u, work, native=True)
        if not exe:
            print(err)
            return 2
        return do_replay(exe, rp["harness"], rp["input"], work, True)[0]
    units = []
    for u in ck["units"]:
        hs = [h for h in u["h"] if (tier == "thorough" or h.get("tier", "quick") == "quick")
              and (not a.only or h["name"] == a.only)]
        if hs:
            units.append((u, hs))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        built = list(ex.map(lambda x: build_unit(eng, x[0], work), units))
    tb = time.time() - t0
    kf = [json.loads(l) for l in open(V + "/known_findings.jsonl") if l.strip().startswith("{")]
    kf = [k for k in kf if k["property"] == prop and k.get("status") == "known"]
    results, failed_units, violations, unconfirmed, known = [], [], [], [], []
    nat = {}
    natlock = {}
    def native(u):
        k = u["src"] + str(u.get("defs"))
        if k not in nat:
            nat[k] = build_unit(eng, u, work, native=True)
        return nat[k]
    for (u, hs), (exe, err) in zip(units, built):
        if not exe:
            failed_units.append(u["src"])
            print("WARNING: unit %s does not build against the current tree:\n%s" % (u["src"], err[-1500:]))
            continue
        for h in hs:
            bud = (h.get("thorough", h.get("budget", 10) * 8) if tier == "thorough" else h.get("budget", 10)) * a.scale
            js = os.path.join(work, h["name"] + ".json")
            cmd = [exe, "--harness", h["name"], "--budget", str(bud), "--workers", str(NCPU), "--json", js]
            cmd += h.get("args", [])
            r = subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            try:
                d = json.load(open(js))
            except Exception as e:
                print("WARNING: harness %s gave no result (rc=%d): %s" % (h["name"], r.returncode, r.stdout[-800:]))
                failed_units.append(h["name"])
                continue
            d["bounds"] = h["bounds"]
            missing = [c for c in h.get("covers", []) if c not in d["covers"]]
            d["covers_missing"] = missing
            results.append(d)
            print("%-28s paths=%-7d queries=%-7d asserts=%-6d solver=%.1fs wall=%.1fs %s%s%s" % (
                h["name"], d["paths"], d["queries"], d["assert_queries"] + d["asserts_trivial"], d["solver_s"],
                d["wall_s"], "exhausted" if d["exhausted"] else "INCOMPLETE",
                " COVER-MISSING %s" % missing if missing else "", " " + str(d["status"]) if a.v else ""))
            if d["engine_msgs"]:
                print("   engine:", d["engine_msgs"][:5])
            if a.v:
                print("   ", {k: d[k] for k in ("max_branches_on_path", "max_symbolic_inputs", "unknown", "stale",
                      "concretized", "extern_ptr", "diverged", "engine_errors", "solver_timeouts", "bad_exits", "queue_left")}, d["externs"])
                print("   ", r.stdout[-600:])
            seen = set()
            for v in d["violations"]:
                key = (h["name"], v["msg"])
                if key in seen and len(seen) > 3:
                    continue
                nexe, nerr = native(u)
                rp = {"property": prop, "unit": u["src"], "defs": u.get("defs", []), "harness": h["name"],
                      "message": v["msg"], "input": v["input"]}
                if not nexe:
                    unconfirmed.append(dict(rp, why="replay build failed"))
                    continue
                rc, out = do_replay(nexe, h["name"], v["input"], work, False)
                if rc != 1:
                    unconfirmed.append(dict(rp, why="did not reproduce natively: " + out[-300:]))
                    print("   counterexample did NOT reproduce natively (not reported): %s %s" % (v["msg"], out[-200:].strip()))
                    continue
                rp["replay_output"] = out[-2000:]
                k = next((k for k in kf if k["harness"] == h["name"] and re.search(k["match"], v["msg"])), None)
                if k:
                    if k["id"] not in [x["id"] for x in known]:
                        known.append(k)
                        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                    continue
                if key in seen:
                    continue
                seen.add(key)
                os.makedirs(V + "/evidence/replay", exist_ok=True)
                path = "%s/evidence/replay/%s_%s_%d.json" % (V, prop, h["name"], len(violations))
                rp["cmd"] = "python3 /verif/run.py %s --replay %s" % (prop, path)
                json.dump(rp, open(path, "w"), indent=1)
                violations.append(rp)
                print("  counterexample %s: %s  inputs %s" % (h["name"], v["msg"], " ".join("%s=%s" % (n, x) for n, x in v["input"])))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                sys.stdout.flush()
            if violations and os.environ.get("VERIF_FAILFAST"):
                break
        if violations and tier == "quick":
            break
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {
              "states": sum(d["paths"] for d in results),
              "transitions": sum(d["branches"] for d in results),
              "traces_validated_against_impl": sum(d["status"].get("ok", 0) for d in results),
              "samples": [{"harness": d["harness"], "inputs": d["samples"][:2]} for d in results],
              "exhaustive": bool(results) and all(d["exhausted"] for d in results) and not failed_units,
              "solver_queries": sum(d["queries"] for d in results),
              "assertions_decided_by_solver": sum(d["assert_queries"] for d in results),
              "assertions_folded_to_true": sum(d["asserts_trivial"] for d in results),
              "solver_unknown": sum(d["unknown"] for d in results),
              "solver_s": round(sum(d["solver_s"] for d in results), 3),
              "build_s": round(tb, 1),
              "functions_encoded": sorted({f for d in results for f in d["functions"]}),
              "harnesses": [{k: d[k] for k in ("harness", "bounds", "exhausted", "paths", "branches", "queries", "unknown",
                             "assert_queries", "asserts_trivial", "max_symbolic_inputs", "solver_s", "wall_s", "status",
                             "covers", "covers_missing", "diverged", "engine_errors", "solver_timeouts", "concretized",
                             "stale", "externs", "engine_msgs", "queue_left")} for d in results],
              "units_not_built": failed_units,
              "unconfirmed_counterexamples": unconfirmed,
              "known_findings_seen": [k["what"] for k in known]},
          "assumptions": ck.get("assumptions", []) + COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    if violations:
        return 1
    if not results:
        print("no harness could be built or run")
        return 2
    print("%s: held on everything explored (%d paths, %.1fs)" % (prop, ev["coverage"]["states"], ev["wall_s"]))
    return 0


COMMON_ASSUMPTIONS = [
    "paths are executed at clang -O1 with -DNDEBUG and libstdc++ assertions; the SX translation of each operation is cross-checked against the value the machine computed on every executed path",
    "floating point values derived from symbolic integers are concretised: each feasible integer value is explored separately",
    "clocks are constant; tlx logging, growt, xxhash, MPI and OpenMP run-time are stand-ins in /verif/stubs and /verif/engine/sxsched.h (their sources are not in /repo)",
]


def do_replay(exe, harness, inp, work, verbose):
    f = os.path.join(work, "replay.txt")
    with open(f, "w") as fp:
        for n, v in inp:
            fp.write("%s %s\n" % (n.replace(" ", "_"), v))
    try:
        r = subprocess.run([exe, "--harness", harness, "--replay", f], cwd=work, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = 1, "REPLAY hang (60 s)"
    if rc < 0:
        out += "\nREPLAY crash signal %d" % -rc
        rc = 1
    if verbose:
        print(out)
    return rc, out


if __name__ == "__main__":
    sys.exit(main())

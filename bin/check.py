#!/usr/bin/env python3
"""Decides one property: builds the encoding from /repo's current sources, explores every path of each configured
harness with the solver, replays counterexamples natively, writes evidence/<id>.json.

usage: check.py <property> [quick|thorough]"""
import json, os, subprocess, sys, time, concurrent.futures, threading, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from specs import SPECS
V = build.V

def config_key(r): return ",".join(f"{k}={v}" for k, v in sorted(r["config"].items())) or "-"

def explore(exe, r, workers, outdir, n, hurry=None, cap=None):
    out = os.path.join(outdir, f"{n}.json")
    env = {k: v for k, v in os.environ.items() if not k.startswith("SX")}
    env.update({f"SXC_{k}": str(v) for k, v in r["config"].items()})
    budget = r.get("budget", 240)
    if cap is not None: budget = min(budget, cap)
    cmd = [exe, "--workers", str(workers), "--budget", str(budget), "--out", out, "--path-timeout", str(r.get("path_timeout", 20)), "--max-violations", "3"]
    if hurry is not None: cmd += ["--after-violation", str(hurry)]
    if os.path.exists(out): os.unlink(out)
    t = time.time()
    p = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=budget + 120, cwd=outdir)
    if not os.path.exists(out): return {"error": f"engine exit {p.returncode}: {p.stderr.decode(errors='replace')[-800:]}"}
    with open(out) as f: res = json.load(f)
    res["rc"] = p.returncode
    return res

def native_run(exe, r, inputs, path, timeout=120, header=""):
    with open(path, "w") as f:
        f.write(header)
        for k, v in sorted(r["config"].items()): f.write(f"#config {k}={v}\n")
        f.write(inputs)
    env = {k: v for k, v in os.environ.items() if not k.startswith("SX")}
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0"
    try: p = subprocess.run([exe, path], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired: return "hang", f"no answer within {timeout} s"
    o = p.stdout.decode(errors="replace")
    if p.returncode == 0 and "REPLAY held" in o: return "held", o
    if p.returncode == 0: return "assumption", o
    if p.returncode == 4: return "mismatch", o
    return "violated", o

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = SPECS[prop]; t0 = time.time()
    runs = [r for r in spec["runs"] if tier == "thorough" or r.get("tier", "quick") == "quick"]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    evp = os.path.join(V, "evidence", prop + ".json")
    if os.path.exists(evp): os.unlink(evp)
    outdir = os.path.join(build.BUILD, f"run-{prop}-{os.getpid()}"); os.makedirs(outdir, exist_ok=True)
    names = sorted({r["harness"] for r in runs})
    errors = []
    try:
        build.engine()
        # The symbolic program first; the native replay program is built while the exploration runs.
        exes = dict(zip(names, map(build.harness, names)))
        native = {}
        def build_native():
            for n in names: native[n] = build.replayer(n)
        bg = threading.Thread(target=lambda: catch(build_native, errors)); 
    except build.BuildError as x:
        print(x); print(f"{prop}: cannot encode the current tree"); sys.exit(2)
    tb = time.time() - t0
    bg.start()
    heavy = [r for r in runs if r.get("heavy")]; light = [r for r in runs if not r.get("heavy")]
    results = [None] * len(runs); known = load_known(prop)
    # Once a violation that is not a listed finding is at hand, the rest is explored only briefly.
    def one(i, w):
        found = not known and any(r and r.get("violations") for r in results)
        try: results[i] = explore(exes[runs[i]["harness"]], runs[i], w, outdir, i, None if known else 45, 45 if found else None)
        except Exception as x: results[i] = {"error": str(x)}
    for i, r in enumerate(runs):
        if r.get("heavy"): one(i, 8)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda i: one(i, 1), [i for i, r in enumerate(runs) if not r.get("heavy")]))
    bg.join()
    if errors: print("\n".join(errors)); print(f"{prop}: cannot build the replay program"); sys.exit(2)
    violations, incomplete, unreproduced, validated, kf = [], [], [], 0, []
    tot = {k: 0 for k in ("paths_completed", "paths_pruned_by_assumption", "decisions", "queries", "sat", "unsat", "unknown", "cached", "assertions_symbolic", "assertions_concrete_on_path")}
    solver = 0.0; funcs = set(); brfn = {}; reach = {}; samples = []; configs = []; maxdec = 0
    for i, r in enumerate(runs):
        res = results[i]; key = f"{r['harness']}[{config_key(r)}]"
        if "error" in res: incomplete.append(f"{key}: {res['error']}"); continue
        for k in tot: tot[k] += res[k]
        solver += res["solver_s"]; maxdec = max(maxdec, res["max_decisions_on_a_path"])
        funcs |= {f for f in res["functions"] if "lsqecc" in f and "(anonymous namespace)::Sym" not in f}
        for k, v in res["symbolic_decisions_in"].items():
            if "lsqecc::" in k: brfn[k] = brfn.get(k, 0) + v
        for k, v in res["reach"].items(): reach[k] = reach.get(k, 0) + v
        configs.append({"harness": r["harness"], "config": r["config"], "bound": r.get("bound", ""), "complete": res["complete"], "paths": res["paths"], "queries": res["queries"], "solver_s": res["solver_s"], "wall_s": res["wall_s"], "reach": res["reach"]})
        for j, v in enumerate(res["violations"]):
            if len(violations) >= 4: break      # enough to report
            p = os.path.join(V, "replays", f"{prop}-{hashlib.sha256((key + v['message'] + v['inputs']).encode()).hexdigest()[:12]}.txt")
            os.makedirs(os.path.dirname(p), exist_ok=True)
            kind, o = native_run(native[r["harness"]], r, v["inputs"], p, timeout=60, header=f"# {prop}: {v['message']}\n# harness {r['harness']}; replay: python3 bin/replay.py {r['harness']} <this file>\n")
            hang = "time" in v["message"] and "path" in v["message"]
            if kind in ("violated", "hang"):
                m = next((k for k in known if k["match"] in v["message"]), None)
                if m: kf.append(m); continue
                with open(p, "a") as f: f.write("".join(f"# native: {l}\n" for l in o.splitlines()[:60]))
                violations.append((p, v["message"], key, o))
            else: unreproduced.append(f"{key}: {v['message']} (native replay: {kind}) {o[-300:]} inputs: {v['inputs']!r}")
        if not res["complete"]: incomplete.append(f"{key}: {res['incomplete_reason']}")
        elif not res["violations"]:
            miss = [x for x in r.get("reach", []) if not res["reach"].get(x)]
            if miss: incomplete.append(f"{key}: vacuous, never reached {miss}")
        for s in res["samples"][: 0 if violations else r.get("validate", 2)]:
            if len(samples) < 6: samples.append({"run": key, "inputs": s.strip().replace("\n", "; ")[:600]})
            kind, o = native_run(native[r["harness"]], r, s, os.path.join(outdir, "sample.txt"))
            if kind == "held": validated += 1
            elif not violations and not res["violations"]: unreproduced.append(f"{key}: a path the engine completed does not complete natively ({kind}): {o[-400:]} inputs: {s!r}")
    for m in {k["id"]: k for k in kf}.values(): print(f"KNOWN-FINDING: property={prop} {m['what']}")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot["paths_completed"], "transitions": tot["decisions"], "traces_validated_against_impl": validated, "samples": samples or ["none: no path completed"],
                       "exhaustive": not incomplete and not violations,
                       "explanation": "states = feasible program paths of the real code, each standing for every input that satisfies its path condition; transitions = symbolic decisions on them; traces_validated_against_impl = solver-produced inputs re-run on the natively compiled code",
                       "runs": configs, "queries": tot, "solver_s": round(solver, 3), "max_symbolic_decisions_on_a_path": maxdec, "reachability_witnesses": reach,
                       "functions_encoded": sorted(funcs), "symbolic_decisions_in": dict(sorted(brfn.items(), key=lambda t: -t[1])[:60]), "build_s": round(tb, 1)},
          "assumptions": spec.get("assumptions", []) + spec.get("outside", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    with open(evp, "w") as f: json.dump(ev, f, indent=1)
    subprocess.run(["rm", "-rf", outdir])
    print(f"{prop} {tier}: {len(runs)} runs, {tot['paths_completed']} paths, {tot['queries']} queries, solver {solver:.1f} s, {validated} traces validated, {time.time()-t0:.1f} s (build {tb:.1f} s)")
    for p, m, key, o in violations:
        print(f"  {key}: {m}"); [print("    " + l) for l in o.splitlines()[:12]]
        print(f"VIOLATION property={prop} replay={os.path.relpath(p, V)}")
    if violations: sys.exit(1)
    for x in incomplete + unreproduced: print("INCOMPLETE " + x)
    sys.exit(2 if incomplete or unreproduced else 0)

def catch(f, errors):
    try: f()
    except Exception as x: errors.append(str(x))

def load_known(prop):
    out = []
    p = os.path.join(V, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("fixed:") or l.startswith("#"): continue
            d = json.loads(l)
            if d.get("property") == prop: out.append(d)
    return out

if __name__ == "__main__": main()

#!/usr/bin/env python3
"""Development aid: try.py HARNESS KEY=VAL ... : explore one configuration, print the outcome."""
import sys, os, json, subprocess, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, check
h = sys.argv[1]; cfg = dict(a.split("=") for a in sys.argv[2:])
w = int(cfg.pop("W", 8)); b = int(cfg.pop("B", 120))
try: exe = build.harness(h)
except build.BuildError as x: print(x); sys.exit(2)
d = "/tmp/try-%d" % os.getpid(); os.makedirs(d, exist_ok=True)
r = {"harness": h, "config": cfg, "budget": b}
t = time.time(); res = check.explore(exe, r, w, d, 0)
if "error" in res: print(res["error"]); sys.exit(2)
print({k: res[k] for k in ("complete", "incomplete_reason", "paths_completed", "paths_pruned_by_assumption", "decisions", "queries", "solver_s", "wall_s", "reach", "max_decisions_on_a_path") if k in res})
for v in res["violations"]:
    print("VIOL", v["message"]); print("   ", v["inputs"].replace("\n", "; ")[:1500])
if res["violations"] or "N" in cfg:
    for v in res["violations"][:3]: print(str(check.native_run(build.replayer(h), r, v["inputs"], d + "/x.txt", 60))[:700])
subprocess.run(["rm", "-rf", d])

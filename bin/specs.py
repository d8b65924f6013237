"""Which harness, with which bounds, decides which property."""
def run(harness, reach=(), tier="quick", heavy=False, budget=240, bound="", **config):
    return {"harness": harness, "config": config, "reach": list(reach), "tier": tier, "heavy": heavy, "budget": budget, "bound": bound}
SPECS = {}
R = ["route", "no route"]
def rt(**c): return run("routing", R, heavy=True, **c)
SPECS["C01"] = {"runs":
    [rt(ALLPOS=1, PROVIDER=p) for p in (0, 1, 2)] + [rt(ALLPOS=1, SELF=1, PROVIDER=p) for p in (0, 1, 2)] +
    [rt(ROWS=4, COLS=4, PROVIDER=p) for p in (0, 1)] + [rt(ROWS=4, COLS=4, SR=1, SC=1, TR=2, TC=3, PROVIDER=1), rt(ROWS=3, COLS=4, PROVIDER=2)] +
    [rt(EDPC=1, PROVIDER=0), rt(EDPC=1, PROVIDER=1), rt(EDPC=1, SELF=1, SR=1, SC=1, ROWS=2, COLS=3, PROVIDER=0), rt(EDPC=1, ALLPOS=1, ROWS=2, COLS=3, PROVIDER=0), rt(EDPC=1, ALLPOS=1, ROWS=2, COLS=3, PROVIDER=1)] +
    [rt(tier="thorough", budget=800, **c) for p in (0, 1) for c in (dict(ROWS=4, COLS=5, PROVIDER=p), dict(ROWS=3, COLS=4, ALLPOS=1, PROVIDER=p), dict(ROWS=3, COLS=4, ALLPOS=1, SELF=1, PROVIDER=p), dict(ROWS=2, COLS=4, EDPC=1, ALLPOS=1, PROVIDER=p), dict(EDPC=1, SR=1, SC=1, TR=0, TC=2, PROVIDER=p), dict(EDPC=1, SELF=1, SR=0, SC=0, PROVIDER=p), dict(EDPC=1, ROWS=3, COLS=3, SELF=1, SR=1, SC=1, PROVIDER=p), dict(ROWS=3, COLS=6, PROVIDER=p))] +
    [rt(ROWS=4, COLS=4, PROVIDER=2, tier="thorough")]}
def ca(reach, **c): return run("cached", reach, heavy=True, **c)
F3 = ["found", "none", "remembered"]
SPECS["C02"] = {"runs": [ca(F3, PROVIDER=0), ca(F3, PROVIDER=1), ca(F3, PROVIDER=0, SELF=1), ca(F3, PROVIDER=2, SELF=1), ca(["found", "none"], STEPS=1, ROWS=3),
  ca(F3, PROVIDER=2, tier="thorough", budget=600), ca(F3, SELF=1, ROWS=3, tier="thorough", budget=600), ca(F3, SELF=1, ROWS=2, STEPS=3, tier="thorough", budget=800), ca(F3, ROWS=3, tier="thorough", budget=800)]}
SPECS["C09"] = {"runs": [run("digraph", ["compared", "expanded", "node removed", "edge removed"], heavy=True, N=4, OPS=1), run("digraph", ["compared"], heavy=True, N=3, OPS=2)]}
D3 = ["compared", "expanded", "taken"]
def dd(**c): return run("depdag", D3, heavy=True, **c)
SPECS["C08"] = {"runs": [dd(N=1, OPS=5), dd(N=2, OPS=4), dd(N=3, OPS=3), dd(N=2, PRE=2, OPS=3), dd(N=4, OPS=2), dd(N=3, PRE=3, OPS=2),
  dd(N=1, OPS=6, tier="thorough", budget=800), dd(N=2, OPS=5, tier="thorough", budget=800), dd(N=3, OPS=4, tier="thorough", budget=800), dd(N=5, OPS=2, tier="thorough")]}
SPECS["C24"] = {"runs": [run("strings", ["split"], WHAT=0, LEN=8), run("strings", ["split"], WHAT=1, LEN=8, DELIM=2), run("strings", ["split"], WHAT=1, LEN=4, DELIM=2, TAIL=1), run("strings", ["replaced"], WHAT=2, LEN=7),
  run("strings", ["trimmed"], WHAT=3, LEN=6), run("strings", ["joined"], WHAT=4, LEN=2), run("strings", ["sets"], WHAT=5)]}
def q(reach, **c): return run("qasm", reach, heavy=True, **c)
SPECS["C14"] = {"runs": [q(["gate", "reset", "register"], WHAT=0, DIG=3), q(["cx", "cz", "crz"], WHAT=1, DIG=2), q(["rz"], WHAT=2, DIG=2), q(["ignored"], WHAT=3), q(["file read", "file refused"], WHAT=5, LINES=4), q(["printed"], WHAT=6)] +
  [q([], WHAT=4, PRE=p, POST=o, LEN=n) for p, o, n in ((0,0,5),(0,3,3),(1,0,3),(1,1,3),(2,3,5),(2,2,5),(3,0,4),(4,0,4),(5,0,4),(6,0,4),(7,0,4),(8,0,4),(9,0,4),(10,2,3),(11,0,4),(12,0,3),(13,3,3),(14,0,4),(15,0,4))] +
  [q([], WHAT=4, PRE=p, POST=o, LEN=n, tier="thorough") for p, o, n in ((0,0,7),(0,3,4),(1,0,4),(1,1,4),(2,3,7),(2,2,7),(3,0,6),(4,0,6),(5,0,5),(7,0,6),(8,0,5),(9,0,5),(11,0,6),(12,0,4))]}
def l(reach, **c): return run("lli", reach, heavy=True, **c)
SPECS["C15"] = {"runs": [l(["printed"], WHAT=2), l(["program"], WHAT=3)] + [l(["well-formed"], WHAT=0, FORM=k, DIG=1 if k in (0, 2, 3, 8, 9, 10, 11) else 3) for k in range(12)] +
  [l(["refused"], WHAT=1, PRE=p, LEN=4) for p in range(18)] + [l(["refused"], WHAT=1, PRE=p, LEN=2, POST=o) for p, o in ((0,1),(1,2),(2,2),(9,1),(15,1),(5,2))] +
  [l([], WHAT=1, PRE=p, LEN=6, tier="thorough") for p in range(18)] + [l([], WHAT=0, FORM=2, ENTRIES=3, tier="thorough"), l([], WHAT=0, FORM=11, DIG=2, ENTRIES=2, tier="thorough"), l([], WHAT=3, LINES=6, tier="thorough")]}
def t(reach, **c): return run("translate", reach, heavy=True, **c)
SPECS["C12"] = {"runs": [t(["T", "exact", "refused", "reset"], WHAT=0, LOCAL=0), t(["T", "exact", "refused", "reset"], WHAT=0, LOCAL=1), t(["cnot"], WHAT=0, LITERAL=1), t(["exact"], WHAT=1, MODE=0, N=2, NQ=2), t(["exact"], WHAT=1, MODE=0, N=2, NQ=2, LOCAL=1),
  t(["exact"], WHAT=1, MODE=0, N=2, NQ=3, tier="thorough"), t(["exact"], WHAT=1, MODE=0, N=3, NQ=2, tier="thorough", budget=600)]}
SPECS["C13"] = {"runs": [t(["rotation"], WHAT=5)]}
SPECS["C16"] = {"runs": [t(["rotations", "no rotations"], WHAT=2, N=2), t(["layout"], WHAT=4), t(["exact"], WHAT=1, MODE=1, N=2), t(["rotations", "no rotations"], WHAT=2, N=3, tier="thorough"), t(["layout"], WHAT=4, MOST=20, tier="thorough")]}
SPECS["C17"] = {"runs": [t(["S", "passed"], WHAT=3, N=1, LOCAL=0), t(["S", "passed"], WHAT=3, N=1, LOCAL=1), t(["S", "passed"], WHAT=3, N=2, LOCAL=1), t(["exact"], WHAT=1, MODE=2, N=2), t(["exact"], WHAT=1, MODE=3, N=2, LOCAL=1),
  t(["S", "passed"], WHAT=3, N=2, LOCAL=0, tier="thorough"), t(["exact"], WHAT=1, MODE=3, N=2, tier="thorough"), t(["S", "passed"], WHAT=3, N=3, LOCAL=1, tier="thorough")]}
SPECS["C18"] = {"runs": [t(["ids fresh"], WHAT=1, MODE=m, N=2, CLIFFORD=0, LOCAL=l) for m in (0, 1, 2, 3) for l in (0, 1)] + [t(["ids fresh"], WHAT=1, MODE=m, N=3, CLIFFORD=0, tier="thorough", budget=600) for m in (0, 1, 2, 3)]}
def sl(reach, **c): return run("slices", ["end"] + reach, **c)
SPECS["C29"] = {"runs": [sl(["geometry"], WHAT=0), sl(["patch", "changed"], WHAT=1), sl(["several"], WHAT=2, CELLS=6), sl(["printed"], WHAT=3), sl(["removed"], WHAT=4, PART=0, ROWS=2, COLS=3), sl(["asked"], WHAT=4, PART=1, ROWS=2, COLS=3), sl(["placed", "refused"], WHAT=4, PART=2, ROWS=2, COLS=3),
   run("slices", ["end", "sparse", "removed"], heavy=True, WHAT=5, PATCHES=2)] +
  [run("slices", ["end"], heavy=True, WHAT=4, PART=p, ROWS=3, COLS=3, tier="thorough") for p in (0, 1, 2)] + [run("slices", ["end"], heavy=True, WHAT=5, PATCHES=3, tier="thorough")]}
def hl(reach, **c): return run("halt", ["end", "completed", "stopped", "stopped gracefully"] + reach, heavy=True, **c)
SPECS["C28"] = {"runs": [hl([], MODE=m, N=2 if m == 1 else 3, TIMED=0) for m in (0, 1, 2, 3)] + [hl(["out of time"], MODE=m, N=1 if m == 1 else 2, TIMED=1, TICKS=4) for m in (0, 1, 2, 3)] +
  [hl([], MODE=m, N=2, TIMED=0, GRID="AaDDD/.dDDD/B?DDD") for m in (0, 2, 3)] + [hl([], MODE=1, N=1, TIMED=0, GRID="AaDDD/.dDDD/B?DDD")] +
  [hl(["out of time"], MODE=1, N=2, TIMED=1, TICKS=4, tier="thorough", budget=600), hl([], MODE=1, N=3, TIMED=0, tier="thorough", budget=600)] + [hl(["out of time"], MODE=m, N=2, TIMED=1, TICKS=6, WAIT=2, tier="thorough", budget=600) for m in (0, 2, 3)]}
def cl(reach, **c): return run("cli", reach, heavy=True, **c)
ANY = -1
SPECS["C27"] = {"runs": [cl(["accepted", "refused"], WHAT=1), cl(["unreadable"], WHAT=2, LAYOUT=ANY, PIPELINE=ANY, OUT=ANY, LOCAL=ANY), cl(["slices", "refused", "reported", "strings"], WHAT=0, N=1, STRINGS=1, INPUT=ANY, OUT=ANY, FORMAT=ANY, NOTWISTS=ANY),
  cl(["slices", "refused", "reported", "listing", "sliced listing", "operation ids"], WHAT=0, N=1, INPUT=3, OUTFILE=ANY, OUT=ANY, FORMAT=ANY, INFILE=ANY, OPIDS=ANY, LAYOUT=ANY)] +
  [cl(["slices", "listing", "sliced listing", "failed", "refused"], WHAT=0, N=1, INPUT=i, LAYOUT=ANY, OUT=ANY, PIPELINE=ANY, LOCAL=ANY, NOTWISTS=ANY, CORRECTIONS=ANY if i else 0) for i in (0, 3)] +
  [cl(["slices"], WHAT=0, N=1, INPUT=3, LAYOUT=3, PIPELINE=ANY, LOCAL=1, LANES=ANY, CONDENSED=ANY), cl(["slices"], WHAT=0, N=1, INPUT=3, LAYOUT=3, FACTORIES=ANY, NOTWISTS=ANY, NOSTAGGER=ANY, DISTTIME=ANY), cl(["slices"], WHAT=0, N=1, INPUT=ANY, LAYOUT=ANY, NOSTAGGER=ANY, DISTTIME=ANY, TIMEOUT=ANY, GRACEFUL=ANY),
   cl(["slices"], WHAT=0, N=2, INPUT=3, LAYOUT=ANY, ROUTER=ANY, SEARCH=ANY), cl(["slices", "listing"], WHAT=0, N=1, BEFORE=1, INPUT=ANY, LAYOUT=ANY, OUT=ANY)] +
  [cl(["slices"], WHAT=0, N=2, INPUT=i, LAYOUT=ANY, OUT=ANY, PIPELINE=ANY, LOCAL=ANY, NOTWISTS=ANY, CORRECTIONS=ANY if i else 0, tier="thorough", budget=800) for i in (0, 3)] + [cl(["slices"], WHAT=0, N=3, INPUT=i, LAYOUT=ANY, PIPELINE=ANY, LOCAL=ANY, tier="thorough", budget=800) for i in (0, 3)] +
  [cl(["slices"], WHAT=0, N=1, INPUT=3, LAYOUT=3, PIPELINE=ANY, LOCAL=ANY, NOTWISTS=ANY, LANES=ANY, CONDENSED=ANY, FACTORIES=ANY, tier="thorough", budget=800), cl(["reported"], WHAT=0, N=1, INPUT=ANY, LAYOUT=ANY, LANES=ANY, CONDENSED=ANY, FACTORIES=ANY, NOSTAGGER=ANY, DISTTIME=ANY, OUT=1, FORMAT=4, tier="thorough", budget=800)]}
SPECS["C26"] = {"runs": [run("commute", ["disjoint", "overlapping"], heavy=True, WHAT=0, NQ=3), run("commute", ["in order", "reordered"], heavy=True, WHAT=1, N=3, NQ=2), run("commute", ["in order", "reordered"], heavy=True, WHAT=1, N=3, NQ=3, tier="thorough", budget=600)]}
def ap(reach, **c): return run("apply", ["end"] + reach, heavy=True, **c)
ALLK = 2047
SPECS["C03"] = {"runs": [ap(["refused", "measured", "hadamard", "S", "joined", "created", "rotation"] + ([] if o < 2 else [["bound"], ["magic"]][o - 2]), POS=1, LAST=ALLK, OBSTACLE=o, ALLANCILLA=1) for o in range(4)] +
  [ap(["created"], POS=1, LAST=64, OBSTACLE=0), ap(["prepared", "joined"], POS=1, LAST=1023, LOCAL=1, TWISTS=1, OBSTACLE=0, ALLANCILLA=1), ap(["created"], DEPTH=2, FIRST=112, LAST=ALLK, OBSTACLE=0, ALLANCILLA=1),
   ap(["joined"], DEPTH=2, FIRST=149, LAST=255, OBSTACLE=0, ALLANCILLA=1), ap(["magic"], DEPTH=2, FIRST=384, LAST=ALLK, OBSTACLE=3, ALLANCILLA=1), ap(["bound"], DEPTH=2, FIRST=512, LAST=ALLK, OBSTACLE=2, ALLANCILLA=1),
   ap(["joined"], DEPTH=3, FIRST=149, LAST=255, OBSTACLE=0, ALLANCILLA=1, TARGETS=2, LOCAL=1, PB=1, tier="thorough", budget=600), ap([], DEPTH=3, FIRST=149, LAST=255, OBSTACLE=0, ALLANCILLA=1, tier="thorough", budget=800),
   ap([], ROWS=3, COLS=3, POS=1, LAST=1183, OBSTACLE=0, ALLANCILLA=1, tier="thorough", budget=800), ap([], DEPTH=3, FIRST=240, LAST=255, OBSTACLE=1, ALLANCILLA=1, tier="thorough", budget=800)]}
SPECS["C04"] = {"runs": [ap(["refused", "measured", "hadamard", "rotation"], POS=1, LAST=135, OBSTACLE=0, ALLANCILLA=1), ap(["refused", "created"], POS=1, LAST=96, OBSTACLE=0), ap(["rotated", "hadamard"], DEPTH=4, FIRST=2180, LAST=2180, OBSTACLE=0, ALLANCILLA=1, TARGETS=2),
  ap(["hadamard", "rotated"], POS=1, DEPTH=5, S0=6, S1=128, S2=2048, S3=2048, S4=2048, OBSTACLE=0, ALLANCILLA=1, TARGETS=2), ap(["hadamard", "rotated", "joined", "measured"], DEPTH=6, S0=6, S1=128, S2=2048, S3=2048, S4=2048, S5=2047, OBSTACLE=0, ALLANCILLA=1, TARGETS=2),
  ap(["hadamard", "created"], DEPTH=2, FIRST=1205, LAST=135, OBSTACLE=0, ALLANCILLA=1), ap(["created", "rotation"], DEPTH=2, FIRST=228, LAST=231, OBSTACLE=0, ALLANCILLA=1), ap(["rotation"], ROWS=3, COLS=3, PA=4, LAST=135, OBSTACLE=1, ALLANCILLA=1),
  ap(["rotated"], DEPTH=5, FIRST=6272, LAST=6272, OBSTACLE=0, ALLANCILLA=1, TARGETS=2), ap(["rotated"], DEPTH=5, FIRST=6279, LAST=6279, OBSTACLE=0, ALLANCILLA=1, TARGETS=2, ROWS=2, COLS=2, tier="thorough", budget=800),
  ap(["rotated"], DEPTH=7, FIRST=6272, LAST=6272, OBSTACLE=0, ALLANCILLA=1, TARGETS=2, tier="thorough", budget=800), ap([], ROWS=3, COLS=3, POS=1, LAST=135, OBSTACLE=0, ALLANCILLA=1, tier="thorough", budget=600)]}
SPECS["C05"] = {"runs": [ap(["joined", "S", "refused"], POS=1, ROWS=3, COLS=3, LAST=24, OBSTACLE=0, ALLANCILLA=1, TARGETS=2)] + [ap(["joined", "S", "refused"], POS=1, LAST=24, OBSTACLE=1, ALLANCILLA=1, PROVIDER=p) for p in (0, 1, 2)] +
  [ap(["joined", "refused"], POS=1, LAST=16, OBSTACLE=0, ALLANCILLA=1, LOCAL=1), ap(["joined", "S", "refused"], DEPTH=2, FIRST=189, LAST=24, OBSTACLE=0, ALLANCILLA=1), ap(["joined", "refused"], DEPTH=2, FIRST=181, LAST=16, PB=1, OBSTACLE=0, ALLANCILLA=1, LOCAL=1),
   ap(["joined", "S"], DEPTH=2, FIRST=24, LAST=24, ROWS=3, COLS=3, PB=4, OBSTACLE=0, ALLANCILLA=1, TARGETS=2),
   ap(["joined", "S"], DEPTH=3, FIRST=24, LAST=24, ROWS=3, COLS=3, PB=4, OBSTACLE=0, ALLANCILLA=1, TARGETS=2, tier="thorough", budget=600), ap(["joined"], POS=1, ROWS=3, COLS=4, LAST=16, OBSTACLE=0, ALLANCILLA=1, TARGETS=2, tier="thorough", budget=800), ap(["joined"], ROWS=4, COLS=4, LAST=24, PA=5, PB=15, OBSTACLE=0, ALLANCILLA=1, TARGETS=2, tier="thorough", budget=800)]}
SPECS["C21"] = {"runs": [ap(["bound", "refused"], POS=1, LAST=512, OBSTACLE=2, ALLANCILLA=1), ap(["returned", "bound"], DEPTH=3, FIRST=512, LAST=513, OBSTACLE=2, ALLANCILLA=1, TARGETS=3), ap(["prepared", "bound"], POS=1, LAST=512, OBSTACLE=2, ALLANCILLA=1, TWISTS=1), ap(["prepared"], POS=1, LAST=512, OBSTACLE=2, ALLANCILLA=1, TWISTS=1, LOCAL=1),
  ap(["bound", "returned"], DEPTH=2, FIRST=512, LAST=ALLK, OBSTACLE=2, ALLANCILLA=1), ap(["prepared"], DEPTH=3, FIRST=512, LAST=513, OBSTACLE=2, TARGETS=3, TWISTS=1, ALLANCILLA=1), ap(["bound"], DEPTH=2, FIRST=1, LAST=512, OBSTACLE=2, TARGETS=3, TWISTS=1, ALLANCILLA=1),
  ap(["returned"], DEPTH=3, FIRST=512, LAST=1023, OBSTACLE=2, ALLANCILLA=1, ROWS=2, COLS=2, tier="thorough", budget=600), ap(["returned"], DEPTH=4, FIRST=512, LAST=512, OBSTACLE=2, ALLANCILLA=1, tier="thorough", budget=800)]}
def rn(reach, **c): return run("run", ["end", "completed"] + reach, heavy=True, **{"VALID": 1, **c})
SPECS["C04"]["runs"] += [rn(["waited"], N=3, MODE=m, GRID="A./.B", KINDS=246, TARGETS=11, WAIT=3) for m in (0, 2)] + [rn([], N=2, MODE=1, GRID="A./.B", KINDS=246, TARGETS=11)]
SPECS["C05"]["runs"] += [rn(["given up"], N=2, MODE=m, GRID="A?./?.B", KINDS=205, TARGETS=3, WAIT=3) for m in (0, 2)] + [rn(["waited"], N=3, MODE=2, GRID="A.B/..C", KINDS=12, TARGETS=7)]
def every(m): return [
   rn(["given up", "waited"], N=3, MODE=m, GRID="A./?B", KINDS=255, TARGETS=11), rn(["waited"], N=3, MODE=m, GRID="A.B/..C", KINDS=142, TARGETS=7), rn(["waited"], N=5, MODE=m, GRID="A./B.", KINDS=193, TARGETS=3, WAIT=4),
   rn(["waited"], N=3, MODE=m, GRID="A../..B", KINDS=239, TARGETS=11, WAIT=3), rn(["given up"], N=3, MODE=m, GRID="A./Ba", KINDS=1279, TARGETS=11, WAIT=0), rn([], N=4, MODE=m, GRID="Ay/.y", KINDS=705, TARGETS=129, WAIT=2), rn(["waited"], N=3, MODE=m, GRID="Ad/DB", KINDS=456, TARGETS=33, WAIT=3)]
def deeper(m): return [rn(["given up", "waited"], N=4, MODE=m, GRID="A./?B", KINDS=255, TARGETS=11, tier="thorough", budget=800), rn(["waited"], N=3, MODE=m, GRID="A.B/..C", KINDS=255, TARGETS=7, tier="thorough", budget=600), rn(["waited"], N=6, MODE=m, GRID="A./B.", KINDS=193, TARGETS=3, WAIT=4, tier="thorough", budget=600),
   rn(["waited"], N=4, MODE=m, GRID="A../..B", KINDS=239, TARGETS=11, WAIT=3, tier="thorough", budget=800), rn(["waited"], N=4, MODE=m, GRID="A.B/.../C.D", KINDS=12, TARGETS=7, tier="thorough", budget=800)]
SPECS["C06"] = {"runs": every(2) + deeper(2)}
SPECS["C07"] = {"runs": every(0)[:5] + [rn([], N=2, MODE=1, GRID="A?./?.B", KINDS=255, TARGETS=11), rn(["waited"], N=3, MODE=1, GRID="A./B.", KINDS=195, TARGETS=3), rn([], N=3, MODE=1, GRID="Ay/.y", KINDS=705, TARGETS=129)] + [rn(["waited"], N=3, MODE=2, GRID="A./?B", KINDS=255, TARGETS=11)] +
  [run("run", ["end"], heavy=True, VALID=1, N=2, MODE=m, LITERAL=1) for m in (0, 1)] + deeper(0) + [rn([], N=3, MODE=1, GRID="A./.B", KINDS=255, TARGETS=11, tier="thorough", budget=800)]}
SPECS["C20"] = {"runs": [rn(["waited", "given up"], N=3, MODE=m, GRID=g, KINDS=k, TARGETS=97, WAIT=4) for m in (0, 2) for g, k in (("AdD/.d.", 449), ("AdD/.eE", 449), ("AbD/.bE", 449), ("Ar./.r.", 448))] + [rn(["waited"], N=4, MODE=m, GRID="Ar/..", KINDS=449, TARGETS=97, WAIT=4) for m in (0, 2)] +
  [rn(["waited"], N=3, MODE=1, GRID="AbD/.bE", KINDS=449, TARGETS=97, TMAX=6), ap(["magic", "refused"], POS=1, LAST=256, OBSTACLE=3, ALLANCILLA=1), ap(["magic"], DEPTH=2, FIRST=384, LAST=319, OBSTACLE=3, ALLANCILLA=1)] +
  [rn(["waited"], N=4, MODE=m, GRID=g, KINDS=k, TARGETS=97, WAIT=8, tier="thorough", budget=800) for m in (0, 2) for g, k in (("AdD/.d.", 449), ("AdD/.eE", 449), ("Ar./.r.", 448))] + [rn(["waited"], N=6, MODE=m, GRID="AdD/.d.", KINDS=320, TARGETS=97, WAIT=8, tier="thorough", budget=800) for m in (0, 2)]}
SPECS["C21"]["runs"] += [ap(["returned"], DEPTH=3, FIRST=513, LAST=512, OBSTACLE=2, TARGETS=3, ALLANCILLA=1)] + [rn([], N=4, MODE=m, GRID="Ay/.y", KINDS=705, TARGETS=129, WAIT=2) for m in (0, 2)]

def la(reach, **c): return run("layouts", reach, heavy=True, **c)
L3 = ["layout", "factory", "too many qubits"]
SPECS["C19"] = {"runs": [la(L3 + ["refused"], WHAT=1, LEN=3), la(L3, WHAT=0, ALPHA="rQ0M1AXY", ROWS=1, COLS=4), la(L3 + ["refused"], WHAT=0, ALPHA="rQ0M", ROWS=2, COLS=3), la(L3 + ["two factories"], WHAT=0, ALPHA="r0", ROWS=3, COLS=3), la(L3 + ["two factories"], WHAT=0, ALPHA="r01", ROWS=2, COLS=3), la(["layout"], WHAT=0, ALPHA="QTDX", ROWS=2, COLS=2), la(["layout"], WHAT=0, ALPHA="AXY3", ROWS=2, COLS=2),
  la(["generated"], WHAT=2, COMPACT=1, MOST=40), la(["generated"], WHAT=2, MOST=17, LANES=2),
  la(L3, WHAT=1, LEN=4, tier="thorough", budget=600), la(L3, WHAT=0, tier="thorough", budget=800), la(L3, WHAT=0, ALPHA="r01", ROWS=2, COLS=4, tier="thorough", budget=600), la(L3, WHAT=0, ALPHA="rQ0M1", ROWS=2, COLS=3, tier="thorough", budget=600), la(L3, WHAT=0, ALPHA="r0", ROWS=3, COLS=4, tier="thorough", budget=600), la(["generated"], WHAT=2, COMPACT=1, MOST=120, tier="thorough", budget=600), la(["generated"], WHAT=2, MOST=60, LANES=4, tier="thorough", budget=800)]}
def js(reach, **c): return run("json", reach, heavy=True, **c)
SPECS["C22"] = {"runs": [js(["shown"], WHAT=0, ROWS=1, COLS=2, SIDES=1, IDS=3), js(["shown"], WHAT=0, ROWS=2, COLS=2, SIDES=2, FIXED=1), js(["shown"], WHAT=0, ROWS=1, COLS=2, SIDES=0, IDS=999), js(["shown"], WHAT=0, ROWS=1, COLS=3, FULL=2, SIDES=1, FIXED=1), js(["shown"], WHAT=0, ROWS=3, COLS=3, SIDES=0, FIXED=1), js(["factory shown"], WHAT=3, FULL=0, ROWS=2, COLS=2),
  js(["shown"], WHAT=0, ROWS=2, COLS=2, SIDES=1, IDS=3, tier="thorough", budget=800), js(["shown"], WHAT=0, ROWS=1, COLS=1, SIDES=4, FIXED=1, tier="thorough", budget=800), js(["factory shown", "shown"], WHAT=3, FULL=1, SIDES=0, ROWS=2, COLS=3, IDS=3, tier="thorough", budget=800), js(["shown"], WHAT=0, ROWS=1, COLS=2, FULL=2, SIDES=0, IDS=3, tier="thorough", budget=800), js(["shown"], WHAT=0, ROWS=3, COLS=4, SIDES=0, FIXED=1, tier="thorough", budget=600)]}
SPECS["C23"] = {"runs": [js(["counted"], WHAT=1, ROWS=2, COLS=3), js(["counted"], WHAT=1, ROWS=2, COLS=2, IDS=1), js(["counted"], WHAT=1, ROWS=1, COLS=4), js(["summed", "printed"], WHAT=2), js(["summed"], WHAT=2, SLICES=5), js(["counted"], WHAT=1, ROWS=3, COLS=3, tier="thorough", budget=600), js(["counted"], WHAT=1, ROWS=2, COLS=4, IDS=1, tier="thorough", budget=600)]}

def lo(reach, **c): return run("local", ["end"] + reach, heavy=True, **c)
def lr(reach, **c): return run("run", ["end", "completed"] + reach, heavy=True, **{"VALID": 1, "LOCAL": 1, **c})
SPECS["C10"] = {"runs": [lo(["cnot", "refused", "odd route", "even route"], WHAT=0, ROWS=2, COLS=3, POS=1), lo(["bell", "refused", "odd route", "even route"], WHAT=1, ROWS=2, COLS=3, POS=1), lo(["cnot", "refused"], WHAT=0, ROWS=2, COLS=3, POS=1, ODD=1, OUTCOMES=0), lo(["bell", "refused"], WHAT=1, ROWS=2, COLS=3, POS=1, ODD=1, OUTCOMES=0)] +
  [lo(["cnot"], WHAT=0, ROWS=1, COLS=n) for n in (4, 5, 6, 7, 8)] + [lo(["bell"], WHAT=1, ROWS=1, COLS=n) for n in (4, 5, 6, 7, 8)] + [lo(["cnot"], WHAT=0, ROWS=1, COLS=n, OUTCOMES=0) for n in (9, 10)] + [lo(["bell"], WHAT=1, ROWS=1, COLS=n, OUTCOMES=0) for n in (9, 10)] +
  [lo(["cnot", "refused", "odd route", "even route"], WHAT=0, ROWS=3, COLS=3, POS=1, OUTCOMES=0, PROVIDER=0), lo(["bell", "refused", "odd route", "even route"], WHAT=1, ROWS=3, COLS=3, POS=1, OUTCOMES=0, PROVIDER=1), lo(["bell"], WHAT=1, SELF=1, ROWS=3, COLS=3, POS=1, OUTCOMES=0), lo(["cnot"], WHAT=0, ROWS=2, COLS=3, POS=1, PROVIDER=2), lo(["cnot"], WHAT=0, ROWS=2, COLS=4, POS=1)] +
  [lr([], N=3, MODE=m, GRID="A../..B", KINDS=2183, TARGETS=3, WAIT=3) for m in (0, 2)] + [lr([], N=3, MODE=2, GRID="A.B/..C", KINDS=6144, TARGETS=7, WAIT=3), lr([], N=2, MODE=1, GRID="A../..B", KINDS=2051, TARGETS=3)] +
  [lo([w], WHAT=i, tier="thorough", budget=800, **c) for i, w in ((0, "cnot"), (1, "bell")) for c in (dict(ROWS=3, COLS=3, POS=1), dict(ROWS=3, COLS=4, POS=1, OUTCOMES=0), dict(ROWS=2, COLS=5, POS=1, OUTCOMES=0), dict(ROWS=1, COLS=9), dict(ROWS=1, COLS=11, OUTCOMES=0), dict(ROWS=4, COLS=4, OUTCOMES=0))] +
  [lr(["waited"], N=4, MODE=m, GRID="A.B/..C", KINDS=6147, TARGETS=7, WAIT=4, tier="thorough", budget=800) for m in (0, 2)]}
SPECS["C06"]["runs"] += [lr(["waited"], N=4, MODE=2, GRID="A../..B", KINDS=2177, TARGETS=3, WAIT=3), lr(["waited"], N=3, MODE=2, GRID="A.../B..C", KINDS=2051, TARGETS=7, WAIT=4)]
SPECS["C07"]["runs"] += [lr([], N=3, MODE=0, GRID="A../..B", KINDS=2183, TARGETS=3, WAIT=3)]
def ed(reach, **c): return run("edpc", ["end", "completed"] + reach, heavy=True, **c)
E3 = ["together", "crossed", "two phases"]
SPECS["C11"] = {"runs": [ed(E3 + ["given up"], N=2, GRID="A.B/.../C.D", PROVIDER=p) for p in (0, 1)] + [ed(E3, N=3, GRID="A.B/.../C.D", TURN=0), ed(E3, N=2, GRID="..A../...../B...C/...../..D..")] +
  [ed(E3, N=3, DISTINCT=1, GRID=".A.B./...../C...D/...../.E.F.", TURN=t, PROVIDER=p) for t, p in ((0, 0), (0, 1), (2, 0))] + [ed(E3, N=3, DISTINCT=1, GRID=g, TURN=0) for g in (".A.B.C./......./......./......./.D.E.F.", "A.B.C/...../D.E.F")] +
  [ed(E3, N=3, DISTINCT=1, GRID="A.B./?..?/C..D/..??/.E.F", TURN=0, ROUTED=1), ed(E3, N=5, GRID=".A.B.C./......./D.....E/......./F.....G/......./.H.I.J.", TURN=0, PAIRS="AJBICHDGEF", SWAP=1), ed(E3, N=5, GRID=".A.B.C./......./D.....E/......./F.....G/......./.H.I.J.", TURN=0, PAIRS="AIBJCHDEFG", SWAP=1),
   ed(E3, N=4, GRID=".A.B./...../C...D/...../.E.F.", TURN=0, PAIRS="AFBE"), ed(E3, N=4, DISTINCT=1, GRID=".A.B./C...D/...../E...F/.G.H.", TURN=0, PAIRS="BA"), ed(E3, N=2, GRID="A.B/.../C.D", OUTCOMES=1, TURN=2, PAIRS="BACD"), ed([], N=1, GRID="A.B/.../C.D", OUTCOMES=1)] +
  [ed(E3, tier="thorough", budget=800, **c) for c in (dict(N=4, DISTINCT=1, GRID=".A.B./C...D/...../E...F/.G.H.", TURN=0), dict(N=4, DISTINCT=1, GRID=".A.B./C...D/...../E...F/.G.H.", TURN=2, PROVIDER=1), dict(N=4, DISTINCT=1, GRID="A.B.C/...../D.../...../E.F.G./...H", TURN=0), dict(N=3, GRID=".A.B./...../C...D/...../.E.F.", TURN=0), dict(N=4, GRID=".A.../...../B...C/...../...D.", TURN=0, ROUTED=1), dict(N=3, DISTINCT=1, GRID=".A.B./..?../C...D/..?../.E.F.", TURN=1, ROUTED=1),
    dict(N=2, GRID="..A../...../B...C/...../..D..", TURN=0, OUTCOMES=1, PAIRS="ADBC"), dict(N=5, DISTINCT=1, GRID=".A.B.C./......./D.....E/......./F.....G/......./.H.I.J.", TURN=0, PAIRS="AJBI"))]}
# What each check covers and leaves out, for MANIFEST.json.
NOTES = {
 "C01": "Lattices of 3x3 with all positions, 4x4 with some (thorough: 3x4 with all, up to 4x5 and 3x6), symbolic occupancy and sides, all three search methods; long-range mode on 2x3 and 3x3 (thorough: 2x4) with symbolic reserved sides.",
 "C02": "Two requests (thorough: three) on a 2x3 lattice with three patches that may exchange places, symbolic occupancy, orientation and operators; thorough also 3x3.",
 "C03": "All 13 kinds of instructions with two core patches, one id that can be created and one that never exists, at all positions on 2x3 lattices with symbolic occupancy and sides; sequences of 2 instructions (thorough: 3, and 3x3).",
 "C04": "Effects on 2x3 lattices at all positions and 3x3 ones, symbolic occupancy and sides; sequences of up to 5 (thorough: 7) Hadamards, rotations and their continuations.",
 "C05": "Joint measurements and S at all positions on 2x3 and 3x3 lattices (thorough: 3x4, 4x4), all search methods, symbolic occupancy and sides, after one other instruction (thorough: two).",
 "C06": "Programs of 3 instructions of 8 to 11 kinds on lattices of 4 to 6 cells, of 5 on selected kinds (thorough: 4 and 6), with one wait or a few, including programs that get stuck; factories with any production time.",
 "C07": "As C06, for the stream, dag (programs of 2 to 3) and wave modes. Known findings: the dag mode goes on with a rotation twice in one slice, and the stream mode does not count slices spent waiting (regression specs pin both).",
 "C08": "Up to 4 instructions plus replacements and up to 5 operations (thorough: 6), symbolic dependency relation.",
 "C09": "Up to 4 nodes and 2 operations, symbolic edges.",
 "C10": "Routes of any shape on 2x3, 2x4 and 3x3 lattices with all positions, symbolic occupancy and sides, and straight ones of up to 8 cells (thorough: 3x4, 2x5, up to 9), with all measurement outcomes up to 6 intermediate cells; operations on missing, busy or joined patches and with ids that are taken; programs of 2 to 4 instructions in all three modes.",
 "C11": "Programs of 2 and 3 CNOTs over all operands with 4 data patches on 3x3 lattices, all sets of 3 disjoint CNOTs over 6 patches on 5x5 and similar lattices (also with dead cells), selected sets of 4 and 5 on 5x5 and 7x7 (thorough: all sets of 4 over 8 patches), both search methods; measurement outcomes symbolic for selected sets, fixed for the others.",
 "C12": "Single gates with all operands on 2-3 qubits, programs of 2 gates (thorough: 3), all outcomes, exact arithmetic in Z[omega]. Known finding: the CNOT through an ancilla (see known_findings.jsonl).",
 "C13": "All angles with denominators up to 2^20 and numerators up to 1000 in absolute value; the approximation of single rotations is a stand-in.",
 "C14": "Lines built from fixed parts and up to 7 free characters, numbers of up to 3 digits and at the limits.",
 "C15": "Lines built from fixed parts and up to 6 free characters, numbers of up to 3 digits.",
 "C16": "Programs of up to 3 instructions on 2 core patches; compact layouts up to 20 qubits.",
 "C17": "Programs of up to 3 instructions on 2 core patches and one other patch, all outcomes.",
 "C18": "Programs of up to 3 gates on 2 qubits, all stream combinations.",
 "C20": "Runs of up to 3 (thorough: 6) requests, measurements, rotations and Pauli operators with one or two factories or reserved cells, production times any number up to a million, up to 4 (thorough: 8) waits per instruction.",
 "C21": "Sequences of up to 3 (thorough: 4) requests on 2x3 lattices with symbolic Y state cells, with and without twists and local instructions.",
 "C19": "Texts of up to 3 (thorough: 4) arbitrary characters, grids of 2x3 and 3x3 over several alphabets (thorough: 2x2 over all characters, 2x4, 3x4), compact layouts of up to 40 qubits and distributed ones of up to 17 with 1-2 lanes and all options (thorough: 120, 60, 4 lanes). The cell types T and D are accepted by the parser and reserve nothing.",
 "C22": "One or two cells with any content (all kinds, activities, ids up to 999 and the largest, operations, one or two sides at a time; thorough: all four) on lattices up to 3x3 (thorough: 3x4), every occupancy of the others; up to two factories.",
 "C23": "Every content of the cells of lattices up to 2x3 (thorough: 3x3, 2x4); sums over 5 slices of any volumes up to 2^40.",
 "C24": "Texts of up to 8 characters.",
 "C29": "Coordinates up to 1000; patches of up to 6 cells; dense slices of up to 2x3 (thorough: 3x3) cells, any of them holding anything; sparse slices of 2 (thorough: 3) patches and a magic state on 3x3.",
 "C27": "Programs of 1 instruction (with some options 2; thorough 2 to 3) out of 8 lattice surgery instructions and 6 gates on 2 qubits, which end within 150 slices; groups of options in every combination, option values that differ from a documented one by one edit with any character; ten unreadable inputs. The argument parser (an empty submodule here) and the clock are stand-ins, the database input is left out.",
 "C28": "Programs of up to 3 instructions (Stream, Wave, EDPC; Dag 2, thorough 3) on a 2x2 lattice and on one with a factory and a possibly dead cell; time limits of 0 to 2 s, the clock moving by 0, 1 or 1.001 s at each of its first 4 (thorough: 6) readings.",
 "C26": "All pairs of gates on 3 qubits; programs of 3 gates on 2 qubits (thorough: 3), all permitted orders.",
}
NA = {
 "C25": "The approximation is an external Haskell program (gridsynth) that is not present, and without it the code only throws; the precision is a statement about real-valued unitaries of long gate words, outside bit-precise symbolic execution.",
}

"""Builds the engine, the instrumented library and the native replay library, cached by content under build/."""
import hashlib, os, subprocess, sys, glob, shutil, concurrent.futures, time, fcntl, contextlib

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
ENGINE = os.path.join(V, "engine")
INSTR = ["-std=gnu++20", "-O1", "-g0", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ftrivial-auto-var-init=pattern",
         "-D_GLIBCXX_ASSERTIONS", "-include", os.path.join(ENGINE, "sxprefix.h"), "-w"]
NATIVE = ["-std=gnu++20", "-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-w"]
# Not in the library: the command line front end (harness/cli.cpp includes it, with a stand-in for the empty argparse submodule), its main, the database client.
EXCLUDED = ["src/pipelines/slicer.cpp", "src/lsqecc_slicer_main.cpp", "src/gates/postgres_gate_stream.cpp", "src/emscripten_bindings.cpp"]

class BuildError(Exception): pass

def includes():
    return ["-DENABLE_BOOST_GRAPH_SEARCH", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "external/ordered-map/include"),
            "-I" + os.path.join(REPO, "external/json/include"), "-I" + os.path.join(REPO, "external/include"), "-I" + os.path.join(V, "shim"), "-I" + ENGINE, "-I" + os.path.join(V, "harness")]

def h(*parts):
    m = hashlib.sha256()
    for p in parts: m.update(p if isinstance(p, bytes) else str(p).encode()); m.update(b"\0")
    return m.hexdigest()[:20]

def rd(p):
    with open(p, "rb") as f: return f.read()

def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError(f"{what}: {' '.join(cmd)}\n{r.stdout[-6000:]}")
    return r.stdout

@contextlib.contextmanager
def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield

def engine():
    srcs = [os.path.join(ENGINE, f) for f in ("sxpass.cpp", "sxrt.cpp", "sxops.h", "sx.h", "sxmain.cpp", "sxreplay.cpp", "sxlib.cpp", "sxprefix.h")]
    d = os.path.join(BUILD, "engine-" + h(*[rd(s) for s in srcs]))
    with lock("engine"):
        if not os.path.exists(os.path.join(d, "ok")):
            os.makedirs(d, exist_ok=True)
            cfg = [x for x in subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split() if not x.startswith("-std") and x != "-fno-exceptions"]
            jobs = [(["g++", "-O1", "-fPIC", "-shared", "-std=c++17", "-w", "-fno-rtti"] + cfg + [srcs[0], "-o", d + "/libsx.so"], "instrumentation pass"),
                    (["g++", "-O2", "-fPIC", "-shared", "-fno-gnu-unique", "-Wl,-Bsymbolic", "-std=c++17", "-w", srcs[1], "-o", d + "/libsxrt.so", "-lz3"], "engine runtime"),
                    (["clang++", "-std=gnu++20", "-O1", "-w", "-c", srcs[4], "-o", d + "/sxmain.o"], "engine main"),
                    (["g++"] + NATIVE + ["-c", srcs[5], "-o", d + "/sxreplay.o"], "replay runtime")]
            with concurrent.futures.ThreadPoolExecutor(4) as ex: list(ex.map(lambda j: run(*j), jobs))
            run(["clang++"] + INSTR + ["-fno-builtin", "-fpass-plugin=" + d + "/libsx.so", "-c", srcs[6], "-o", d + "/sxlib.o"], "engine C library routines")
            open(os.path.join(d, "ok"), "w").close()
    return d

def repo_sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            p = os.path.join(root, f); rel = os.path.relpath(p, REPO)
            if f.endswith((".cpp", ".cc", ".cxx")) and rel not in EXCLUDED and "emscripten" not in rel and "slicer_main" not in rel and "postgres" not in rel and "pybind" not in rel: out.append(rel)
    return sorted(out)

def tree_hash():
    m = hashlib.sha256()
    for top in ("include", "src", "external/include", "external/ordered-map", "external/json"):
        for root, ds, files in sorted(os.walk(os.path.join(REPO, top))):
            ds.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                if f.endswith((".hpp", ".h", ".cpp", ".cc", ".hh", ".inc", ".ipp", ".tcc")): m.update(os.path.relpath(p, REPO).encode() + b"\0" + rd(p) + b"\0")
    m.update(rd(os.path.join(V, "shim/cppitertools/itertools.hpp"))); m.update(rd(os.path.join(V, "shim/argparse/argparse.h")))
    return m.hexdigest()[:20]

def _objs(kind, comp, flags, names):
    tag = h(tree_hash(), comp, *flags)
    d = os.path.join(BUILD, f"{kind}-{tag}")
    with lock(kind):
        os.makedirs(d, exist_ok=True)
        todo = []
        for rel in names:
            o = os.path.join(d, rel.replace("/", "_") + ".o")
            if not os.path.exists(o): todo.append((rel, o))
        def one(t):
            rel, o = t
            run(comp + flags + includes() + ["-c", os.path.join(REPO, rel), "-o", o + ".tmp"], rel); os.rename(o + ".tmp", o)
        # biggest first
        todo.sort(key=lambda t: -os.path.getsize(os.path.join(REPO, t[0])))
        with concurrent.futures.ThreadPoolExecutor(8) as ex: list(ex.map(one, todo))
        lib = os.path.join(d, "lib.a")
        if todo or not os.path.exists(lib):
            if os.path.exists(lib): os.unlink(lib)
            run(["ar", "crs", lib] + [os.path.join(d, r.replace("/", "_") + ".o") for r in repo_sources() if os.path.exists(os.path.join(d, r.replace("/", "_") + ".o"))], "archive")
    return d, lib

def instrumented():
    e = engine()
    return _objs("instr", ["clang++"], INSTR + ["-fpass-plugin=" + e + "/libsx.so"], repo_sources())[1]

def native():
    return _objs("native", ["g++"], NATIVE, repo_sources())[1]

def harness(name):
    e = engine(); lib = instrumented()
    src = os.path.join(V, "harness", name + ".cpp")
    deps = [rd(p) for p in sorted(glob.glob(os.path.join(V, "harness", "*.hpp")))]
    d = os.path.join(BUILD, "h-" + h(rd(src), *deps, lib, e)); exe = os.path.join(d, name)
    with lock("h-" + name):
        if not os.path.exists(exe):
            os.makedirs(d, exist_ok=True)
            run(["clang++"] + INSTR + ["-fpass-plugin=" + e + "/libsx.so"] + includes() + ["-c", src, "-o", exe + ".o"], "harness " + name)
            run(["clang++", exe + ".o", e + "/sxmain.o", e + "/sxlib.o", lib, e + "/libsxrt.so", "-lboost_graph", "-Wl,--allow-multiple-definition", "-Wl,-rpath," + e, "-o", exe + ".tmp"], "link " + name)
            os.rename(exe + ".tmp", exe)
    return exe

def replayer(name):
    e = engine(); lib = native()
    src = os.path.join(V, "harness", name + ".cpp")
    deps = [rd(p) for p in sorted(glob.glob(os.path.join(V, "harness", "*.hpp")))]
    d = os.path.join(BUILD, "r-" + h(rd(src), *deps, lib, e)); exe = os.path.join(d, name)
    with lock("r-" + name):
        if not os.path.exists(exe):
            os.makedirs(d, exist_ok=True)
            run(["g++"] + NATIVE + includes() + ["-c", src, "-o", exe + ".o"], "replay harness " + name)
            run(["g++", "-fsanitize=address", exe + ".o", e + "/sxreplay.o", lib, "-lboost_graph", "-Wl,--allow-multiple-definition", "-o", exe + ".tmp"], "link replay " + name)
            os.rename(exe + ".tmp", exe)
    return exe

if __name__ == "__main__":
    t = time.time()
    try:
        engine()
        if "all" in sys.argv: instrumented(); native()
        for a in sys.argv[1:]:
            if a.startswith("h:"): print(harness(a[2:]))
            if a.startswith("r:"): print(replayer(a[2:]))
    except BuildError as x:
        print(x); sys.exit(2)
    print(f"built in {time.time()-t:.1f} s")

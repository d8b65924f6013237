#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (claims are the properties that bin/specs.py decides)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs import SPECS, NOTES, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, cant, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": cant,
              "anchors": {"files": files.split(), "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe)}})
LI = "src/ls_instructions/"; PA = "src/patches/"; GA = "src/gates/"; LA = "src/layout/"

p("C01", "Routes are valid, shortest, and found exactly when one exists",
  "A request for a route between two patches (or from a patch to itself) returns a chain of adjacent, distinct, free cells of the lattice that starts next to one patch and ends next to the other, at sides that carry the requested operators, and has only the sides along the chain joined. A route is returned exactly when one exists, and it has the least possible number of cells; long-range routes made while other paths are already reserved may pass through reserved cells but never across a reserved side.",
  "inputs configurations", "every occupancy of the lattice, every arrangement of sides of the two patches, every search method, with and without paths already reserved",
  "No test covers routing at all; correctness depends on the whole occupancy of the lattice.", "src/layout/graph_search/custom_graph_search.cpp src/layout/router.cpp",
  [("Dijkstra and A* over lattice cells", LA + "graph_search/custom_graph_search.cpp"), ("search selection", LA + "router.cpp")], ["the route returned by the router"])
p("C02", "Remembered routes are those that would be found afresh",
  "A router that remembers routes answers like the plain router asked at the time of the first successful request for the same two cells and operators: the same cells and sides, and a failure is not remembered. Requests that differ in a cell or an operator are never answered with each other's route.",
  "inputs histories", "every pair of requests on every occupancy", "No test covers the remembering router; a mix-up needs two different requests whose keys collide.",
  "src/layout/router.cpp include/lsqecc/layout/router.hpp", [("cache keyed by cells and operators", LA + "router.cpp")], ["routes returned by the remembering router"])
p("C03", "A lattice slice stays consistent after any instruction",
  "Applying any instruction to any reachable lattice slice leaves every patch id on at most one cell, never overwrites an occupied cell, keeps every other patch as it was, and never touches factories or dead cells. An instruction that cannot be applied reports it and leaves the slice exactly as it was.",
  "inputs histories", "every sequence of instructions up to the bound, on every occupancy reached", "Tests never apply instructions to a slice.",
  "src/patches/dense_patch_computation.cpp src/patches/dense_slice.cpp", [("direct application of an instruction", PA + "dense_patch_computation.cpp"), ("placing patches", PA + "dense_slice.cpp")], ["the slice after each instruction"])
p("C04", "Each instruction has exactly its documented effect and duration",
  "A measured patch disappears when the next time step begins; a Hadamard exchanges the two kinds of sides and keeps the patch busy for one step; a rotation occupies the patch and one free neighbouring cell, gives the patch back in its place with its sides exchanged after the documented number of steps, and frees the neighbour; a new patch appears on the requested free cell next to its neighbour's matching side or on a free ancilla location. Operations on a missing patch are refused, and so are those other than measurements on a busy one; only a rotation may share its first step with a Hadamard on the same patch.",
  "inputs histories", "every occupancy, position and orientation of the patches", "Tests never apply instructions to a slice.",
  "src/patches/dense_patch_computation.cpp", [("direct application and time step", PA + "dense_patch_computation.cpp")], ["the slice after each instruction and each time step"])
p("C05", "Joint measurements join exactly the patches involved, for one step",
  "A joint measurement of two patches marks a connected region of previously free cells that touches exactly the two patches, at sides carrying the measured operators, with both ends joined; the whole region is free again when the next time step begins and no side stays joined. If either patch is busy or no route exists, nothing is marked.",
  "inputs histories", "every occupancy and orientation, every pair of patches and operators", "Tests never perform a joint measurement on a lattice.",
  "src/patches/dense_patch_computation.cpp src/layout/router.cpp", [("merging and marking of the routing region", PA + "dense_patch_computation.cpp")], ["the slice after the instruction and after the step"])
p("C06", "The wave scheduler runs every instruction once, in order per patch",
  "Scheduling a program wave by wave applies every instruction exactly once, never before all earlier instructions that share a patch have been applied, and applies the instructions that another one leaves behind before later instructions on the same patch. Instructions that can be applied are not left waiting; every program ends, and one that gets stuck is reported as an error when an instruction could not be applied for as long as it may wait, and only then.",
  "programs schedules", "every program up to the bound over the given patches, on lattices where instructions compete for space", "No test covers the scheduler; ordering bugs need several dependent instructions that compete for space.",
  "src/scheduler/wave_scheduler.cpp include/lsqecc/scheduler/wave_scheduler.hpp", [("waves of heads, dependency counts", "src/scheduler/wave_scheduler.cpp")], ["the order in which instructions are reported as applied"])
p("C07", "All scheduling modes execute the same program with the same result",
  "Whatever the scheduling mode, a program that does not get stuck is executed completely: every instruction is applied once, instructions on the same patch in program order, every slice follows from the one before by the instructions applied and one time step, and the lattice at the end holds the same patches with the same orientations. The numbers of instructions and slices reported agree with what was executed.",
  "programs schedules configurations", "every program up to the bound, every scheduling mode", "No test runs a program through a scheduling mode.",
  "src/patches/dense_patch_computation.cpp src/scheduler/wave_scheduler.cpp src/dag/domain_dags.cpp", [("stream, dag and wave loops", PA + "dense_patch_computation.cpp")], ["instructions reported, final slice, counts"])
p("C08", "The dependency graph releases instructions exactly when they may run",
  "An instruction is offered for execution exactly when every earlier instruction that does not commute with it is gone; replacing an instruction by several puts the replacements where it was, in order; instructions marked as follow-ups, and what becomes executable because they finish, are offered in the follow-up list. Removing all instructions empties the graph.",
  "histories programs", "every sequence of insertions, replacements, removals and markings up to the bound, over every dependency relation", "The tests exercise six fixed histories of the dependency graph.",
  "include/lsqecc/dag/dependency_dag.hpp src/dag/directed_graph.cpp", [("dependency graph over instructions", "include/lsqecc/dag/dependency_dag.hpp")], ["executable and follow-up lists after each operation"])
p("C09", "Directed graph operations agree with the mathematical graph",
  "After any sequence of adding and removing nodes and edges and replacing a node by a graph, membership, predecessors, successors, sources, sinks and topological orders are those of the graph these operations describe. Misuse is refused without changing the graph.",
  "histories", "every sequence of operations up to the bound", "The tests exercise fixed small graphs.", "src/dag/directed_graph.cpp include/lsqecc/dag/directed_graph.hpp", [("adjacency sets", "src/dag/directed_graph.cpp")], ["queries after each operation"])
p("C10", "A long-range CNOT or Bell pair compiles to valid local steps",
  "With local compilation, a long-range Bell pair or CNOT is turned into operations on single or neighbouring cells along one route, arranged in two layers so that no cell is used twice within a layer; applied in order they measure out every intermediate cell, leave the named ends (or nothing) behind, and disturb no other patch. Their combined effect on the two logical qubits is the CNOT (or a Bell pair), up to Pauli corrections.",
  "inputs configurations", "every route length up to the bound, both parities, every occupancy", "No test compiles a long-range operation.", "src/patches/dense_patch_computation.cpp src/ls_instructions/local_instructions.cpp",
  [("compilation of long-range operations into local instructions", PA + "dense_patch_computation.cpp")], ["the local instructions attached to the operation, and the slices"])
p("C11", "Concurrent long-range CNOTs use edge-disjoint paths",
  "When several long-range CNOTs are compiled together, their paths share no side of any cell, at most two paths cross in a cell, and every crossing is labelled so that the two paths belong to different phases there. All of them are executed, and when they are finished every temporary mark is gone and the data patches have their own sides again.",
  "programs schedules", "every set of CNOTs up to the bound over the given lattices", "No test covers concurrent long-range operations.", "src/patches/dense_patch_computation.cpp src/patches/dense_slice.cpp src/scheduler/wave_scheduler.cpp src/layout/graph_search/custom_graph_search.cpp",
  [("marking of paths and crossing cells", PA + "dense_slice.cpp"), ("deferred compilation", "src/scheduler/wave_scheduler.cpp")], ["the slice after each wave, the local instructions"])
p("C12", "Gates translate to lattice surgery that implements them exactly",
  "For every supported gate, and every program of them, the emitted lattice surgery instructions act on the logical qubits as the program does, for every measurement outcome, up to Pauli corrections (and the S correction that follows a T). Auxiliary patches are all measured or given back, corrections are emitted when asked for, CNOT variants and ancilla placement are as the gate requests, and gates that are not supported are refused.",
  "programs inputs configurations", "every gate with every operand, annotation and angle class, every short program, every measurement outcome", "No test checks what translated instructions do to a quantum state.",
  "src/ls_instructions/ls_instructions_from_gates.cpp src/ls_instructions/ls_instruction_stream.cpp", [("translation of gates", LI + "ls_instruction_stream.cpp")], ["instructions emitted by the stream"])
p("C13", "Controlled rotations decompose into the same unitary",
  "A controlled Z rotation by any angle is decomposed into CNOTs, which keep the annotations of the gate, and Z rotations by half of the angle whose product is the controlled rotation by exactly that angle, up to a global phase. Every other gate passes through the decomposition unchanged and in order.",
  "inputs programs", "every numerator, denominator and sign of the angle, every operand and annotation", "No test decomposes a controlled rotation; without the external approximation library it cannot even run.",
  "src/gates/gates.cpp src/gates/decompose_rotation_stream.cpp", [("decomposition identity", GA + "gates.cpp")], ["gates after decomposition, with the approximation of single rotations replaced by a stand-in"])
p("C14", "OpenQASM text is read as exactly the gates it says, or refused",
  "Every line of the supported OpenQASM subset is read as the gate it denotes, with its operands, its exact angle, and its annotations; comments, headers and empty lines are skipped. Every other line is refused with an error, never crashing, reading outside the text or wrapping a number, and gates printed as OpenQASM are read back as themselves.",
  "inputs", "every text up to the bound in each position, every number that fits", "Tests read ten fixed lines.", "src/gates/parse_gates.cpp src/gates/gates.cpp include/lstk/lstk.hpp", [("line parser", GA + "parse_gates.cpp"), ("printing", GA + "gates.cpp")], ["gates read, errors thrown"])
p("C15", "Instruction text is read as exactly what it says, or refused",
  "Every lattice surgery instruction that has a textual form is read back from its printed form as itself, including optional parts, and programs are read line by line with the core qubits of the first line. Malformed text is refused with an error, never crashing, reading outside the text or reading a different instruction.",
  "inputs", "every instruction, every text up to the bound in each position", "Tests read eight fixed lines.", "src/ls_instructions/ls_instructions_parse.cpp src/ls_instructions/parse_utils.cpp src/ls_instructions/ls_instructions.cpp include/lstk/lstk.hpp",
  [("instruction parser", LI + "ls_instructions_parse.cpp"), ("printing", LI + "ls_instructions.cpp")], ["instructions read, errors thrown"])
p("C16", "Rotations are inserted exactly when an operator is hidden",
  "In layouts where patches expose one operator at a time, whenever a joint measurement, S or long-range CNOT acts on a core patch, the operator it needs is exposed at that moment, taking into account Hadamards and rotations that the program already contains. A patch is turned only when the needed operator was hidden, right before its use, and the program is otherwise unchanged; the initially exposed operators are those of the sides next to free cells of the layout.",
  "programs configurations", "every instruction program up to the bound, every initial exposure", "No test covers rotation injection.", "src/ls_instructions/boundary_rotation_injection_stream.cpp src/layout/dynamic_layouts/determine_exposed_operators.cpp",
  [("tracking of exposed operators", LI + "boundary_rotation_injection_stream.cpp")], ["instructions out of the stream"])
p("C17", "S gates on core patches become state injections that implement S",
  "In the injecting streams every S on a core patch is replaced by a sequence, begun by a Y state request for that patch, that acts as S on that patch for every measurement outcome, up to Pauli corrections. Every other instruction passes through unchanged and in order, with a rotation added after a Hadamard on a core patch when that is asked for.",
  "programs", "every instruction program up to the bound, every measurement outcome", "No test covers S injection.", "src/ls_instructions/teleported_s_gate_injection_stream.cpp src/ls_instructions/catalytic_s_gate_injection_stream.cpp",
  [("S injection", LI + "teleported_s_gate_injection_stream.cpp"), ("catalytic S injection", LI + "catalytic_s_gate_injection_stream.cpp")], ["instructions out of the stream"])
p("C18", "Auxiliary patches get fresh ids and live only while used",
  "In every translated program each auxiliary patch gets an id that no other patch ever had, and every instruction refers only to patches that exist at that point: created or given earlier and not yet measured or returned. This holds for all combinations of the translation streams that the layouts use.",
  "programs configurations", "every gate program up to the bound, every combination of streams", "No test looks at ids across a program.", "src/ls_instructions/ls_instructions_from_gates.cpp include/lsqecc/ls_instructions/id_generator.hpp src/ls_instructions/catalytic_s_gate_injection_stream.cpp",
  [("id generator shared by the streams", "include/lsqecc/ls_instructions/id_generator.hpp")], ["instructions out of the streams"])
p("C19", "Layouts contain what was asked for and no overlaps",
  "A layout read from a character grid has exactly the patches, factories, ancilla, reserved, dead and Y state cells that the grid spells, factories being the connected groups of equal digits, each with its production time and output cells next to it; invalid characters and ragged grids are refused. Generated layouts provide at least the requested number of core patches (the distributed ones exactly that number), every one of them next to a routing cell, and can be instantiated.",
  "inputs configurations", "every grid of characters up to the bound, every number of qubits and lanes up to the bound, all options", "No test covers layouts.", "src/layout/ascii_layout_spec.cpp src/layout/dynamic_layouts/compact_layout.cpp src/layout/dynamic_layouts/edpc_layout.cpp",
  [("grid parser and cache", LA + "ascii_layout_spec.cpp"), ("generators", LA + "dynamic_layouts/")], ["the layout's accessors"])
p("C20", "Magic states appear on schedule and are consumed once",
  "Each factory delivers a magic state every time its production time has passed, on a free output cell next to it, and starts over; a reserved cell delivers again exactly its production time after its state left the cell. A request takes the nearest available state, gives it to the requester, and it is not available to anyone else; with none available the request is refused and nothing changes.",
  "histories schedules", "every production time up to the bound, every sequence of steps and requests", "No test covers magic states.", "src/patches/dense_patch_computation.cpp src/patches/dense_slice.cpp", [("time step and magic state request", PA + "dense_patch_computation.cpp")], ["the slice after each step and request"])
p("C21", "Y states are borrowed and returned without loss or sharing",
  "A Y state request binds the nearest available, idle Y state to exactly the requested id, or prepares a new one next to the requesting patch's Z side where twists are allowed, and the second request for the same id returns it. The number of available Y states always equals the number of unbound ones, and a request that cannot be met is refused and changes nothing.",
  "histories", "every sequence of requests up to the bound, every layout of Y states", "No test covers Y states.", "src/patches/dense_patch_computation.cpp", [("Y state request", PA + "dense_patch_computation.cpp")], ["the slice after each request"])
p("C22", "The JSON output shows exactly the slice",
  "The JSON of a slice has one entry per cell of the lattice, null exactly for the empty cells, and every other entry shows that cell's kind, activity, operation, patch id and four sides (including whether each is joined) as they are in the slice. Countdown texts of factories show the factory's remaining time.",
  "inputs", "every content of every cell, every lattice up to the bound", "No test covers the JSON output.", "src/patches/slices_to_json.cpp", [("conversion of cells and sides", PA + "slices_to_json.cpp")], ["the JSON value"])
p("C23", "Volume counts partition the lattice",
  "For every slice the reported volumes count each cell of the lattice once: empty cells as unused, factory cells (and produced states where cells are reserved for them) as distillation, dead cells as dead, and the rest as active, and totals are the sums over the slices. The parts never exceed the whole.",
  "inputs", "every content of every cell, every lattice up to the bound", "No test covers volume counts.", "src/patches/slice_stats.cpp", [("counting of cells", PA + "slice_stats.cpp")], ["the counts and their sums"])
p("C24", "String and set helpers do what their names say on every input",
  "Splitting a text and joining the pieces with the separator gives the text back, pieces contain no separator, replacement rewrites every occurrence and nothing else, trimming removes exactly the surrounding blanks, and set intersections are those of the sets. No helper reads outside its input.",
  "inputs", "every text up to the bound, every separator", "Tests split six fixed strings.", "include/lstk/lstk.hpp", [("string helpers", "include/lstk/lstk.hpp")], ["results of the helpers"])
p("C25", "Approximated rotations are within the requested precision",
  "A rotation by an arbitrary angle is replaced by a sequence of basic gates whose unitary differs from the rotation by no more than the requested precision.",
  "inputs", "every angle and precision", "No test covers the approximation.", "src/gates/gate_approximator.cpp include/lsqecc/gates/pi_over_2_to_the_n_rz_gate_approximations.hpp", [("approximation", GA + "gate_approximator.cpp")], ["gates after decomposition"])
p("C26", "Gates declared to commute do, and any released order is equivalent",
  "Two gates, or two lattice surgery instructions, are treated as independent only if exchanging them does not change what the program does. Executing a program's dependency graph in any order it permits acts on the qubits exactly as the program in its own order.",
  "programs schedules", "every pair of gates with all operands, every program up to the bound, every permitted order", "The tests check three pairs.", "include/lsqecc/dag/commutation_trait.hpp src/dag/domain_dags.cpp include/lsqecc/dag/dependency_dag.hpp", [("commutation of gates and instructions", "include/lsqecc/dag/commutation_trait.hpp")], ["order of instructions released by the graph"])
p("C27", "The command line program writes exactly the outputs its options ask for",
  "For every combination of options, the program compiles its input in the way the options say (input format, layout, S gates, corrections, local or not, pipeline, router, distillation times) and writes what they ask for: the slices as JSON, the instructions before or after slicing, the dependency graph, or the counts and volumes, all of that one compilation, whatever has been compiled before in the same process. Option values that are not documented, options that do not go together, inputs that cannot be read and compilations that fail are reported with a non-zero exit code; every documented value is accepted.",
  "inputs configurations histories", "every combination of options within groups, every near miss of an option value, every program up to the bound", "The unit tests do not run the program, which is not even built by them.", "src/pipelines/slicer.cpp", [("command line front end", "src/pipelines/slicer.cpp")], ["text and files written, exit code, exceptions"])
p("C28", "A compilation that cannot go on stops where it is, and says so",
  "A compilation that meets an instruction it cannot apply, or whose time limit has been exceeded when a slice is to be shown, shows exactly the slices and instructions that the complete compilation shows up to that point, and nothing after it. It then fails with an error, or, when failures are to be handled gracefully, returns the counts of what has been done. A compilation that neither fails nor exceeds its limit is the same whether or not a limit or graceful handling was asked for.",
  "programs schedules fault points", "every program up to the bound in every pipeline mode, every time limit and every course of the clock", "No test reaches a time limit or a failing compilation.", "src/patches/dense_patch_computation.cpp", [("time limit and graceful halting", PA + "dense_patch_computation.cpp")], ["slices and instructions shown, counts returned, exceptions"])
p("C29", "Slices, patches and cells answer every question about themselves truthfully",
  "Which cell and patch an id belongs to, what is on a cell, whether it is free or available, which neighbours it has on the lattice, which side of a patch faces a neighbour, whether that side carries an operator or is reserved, which cells a patch has and whether it is active: the answers agree with what the slice holds, in the dense and in the sparse representation, and asking changes nothing. Changing a side through its neighbour, turning, placing and removing a patch change exactly what they are meant to. Every patch can be printed.",
  "inputs", "every content of the cells, every cell and id asked about", "Tests ask a handful of questions about fixed patches.", "src/patches/patches.cpp src/patches/dense_slice.cpp src/patches/sparse_slice.cpp", [("patches and cells", PA + "patches.cpp"), ("dense slice", PA + "dense_slice.cpp"), ("sparse slice", PA + "sparse_slice.cpp")], ["results of the queries, contents of the slice"])

def main():
    ids = {x["id"] for x in P}
    assert set(SPECS) <= ids, set(SPECS) - ids
    for x in P: assert len(x["title"]) <= 80, x["title"]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    checks = []
    for x in P:
        if x["id"] not in SPECS: continue
        n = NOTES[x["id"]]
        checks.append({"property": x["id"], "quick_cmd": f"python3 bin/check.py {x['id']} quick", "thorough_cmd": f"python3 bin/check.py {x['id']} thorough", "evidence_file": f"evidence/{x['id']}.json",
                       "technique": "symbolic execution of the compiled code (LLVM IR instrumentation), path conditions and assertions decided by Z3, counterexamples replayed natively", "level": "model_checking",
                       "level_note": "Bounded: every path and every value within the bounds. " + n + " Trusts the engine (checked by replaying solver-made inputs on the native build), Z3, and the harness's statement of the property."})
    m = {"version": 1, "setup_cmd": "python3 bin/build.py all", "checks": checks,
         "not_applicable": [{"property": x["id"], "reason": NA[x["id"]]} for x in P if x["id"] not in SPECS],
         "notes": "No hooks in /repo: the program under test is instrumented by a compiler pass. The fix: commits in /repo repair genuine defects found by these checks (known_findings.jsonl)."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
    print(len(P), "properties,", len(checks), "claimed")
if __name__ == "__main__": main()

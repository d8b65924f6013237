// C27: the command line program. It is run on option lists and input texts; an independent reading of the options decides which compilation they
// ask for, that compilation is made with the library, and what the program wrote must be that compilation.
#include "common.hpp"
#define private public
#include <lsqecc/gates/gates.hpp>
#undef private
#include "../src/pipelines/slicer.cpp"
#include <cstring>
#include <cstdio>
#include <unistd.h>
using namespace lsqecc; using namespace sxh; using json = nlohmann::json;

// The database client is not part of the program under test.
namespace pq { class connection {}; }
namespace lsqecc {
PandoraPostgresGateStream::PandoraPostgresGateStream(std::string, std::string, std::string) : qreg_{} { throw std::runtime_error("no database"); }
gates::Gate PandoraPostgresGateStream::get_next_gate() { throw std::runtime_error("no database"); }
bool PandoraPostgresGateStream::has_next_gate() const { return false; }
const Qreg& PandoraPostgresGateStream::get_qreg() const { return qreg_; }
const tsl::ordered_set<PatchId>& PandoraPostgresGateStream::core_qubits() const { throw std::runtime_error("no database"); }
PandoraPostgresGateStream::~PandoraPostgresGateStream() {}
void PandoraPostgresGateStream::advance_layer() const {}
}
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(std::chrono::milliseconds(1000)); }

namespace {
using Placement = gates::CNOTAncillaPlacement;
int opt(const char* name, int n) { int v = sx_config_int(name, 0); return v < 0 ? sx_choice(name, n) : v; }
// What the options ask for; 0 means that the option is not given.
struct Options {
    int input = 0, layout = 0, lanes = 0, condensed = 0, factories = 0, nostagger = 0, disttime = 0, local = 0, notwists = 0, pipeline = 0, router = 0, search = 0, out = 0, format = 0, corrections = 0, opids = 0, graceful = 0, timeout = 0, outfile = 0, infile = 0;
};
const char* const W_INPUT[] = { "", "lli", "l", "qasm", "q" };
const char* const W_LAYOUT[] = { "", "compact", "compact_no_clogging", "edpc" };
const char* const W_PIPE[] = { "", "stream", "dag", "wave", "edpc" };
const char* const W_ROUTER[] = { "", "graph_search", "graph_search_cached" };
const char* const W_SEARCH[] = { "", "djikstra", "astar", "boost" };
const char* const W_CORR[] = { "", "never", "always" };
const char* const W_FORMAT[] = { "", "progress", "noprogress", "machine", "stats" };
bool is_qasm(const Options& o) { return o.input >= 3; }
std::string path_of(const char* what) { return "cli-" + std::to_string(getpid()) + "-" + what; }
void write_file(const std::string& p, const std::string& t) { FILE* f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); abort(); } fwrite(t.data(), 1, t.size(), f); fclose(f); }
std::string read_file(const std::string& p) { std::string t; FILE* f = fopen(p.c_str(), "rb"); if (!f) return t; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f); return t; }
std::vector<std::string> words(const Options& o) {
    std::vector<std::string> a{ "lsqecc_slicer" }; auto add = [&](const char* n, const std::string& v) { a.push_back(n); if (!v.empty()) a.push_back(v); };
    if (o.input) add("-I", W_INPUT[o.input]);
    if (o.layout == 4) add("-l", path_of("layout")); else if (o.layout) add("-L", W_LAYOUT[o.layout]);
    if (o.lanes) add("--numlanes", std::to_string(o.lanes)); if (o.condensed) add("--condensed", "1"); if (o.factories) add("--explicitfactories", "");
    if (o.nostagger) add("--nostagger", ""); if (o.disttime) add("--disttime", o.disttime == 1 ? "3" : "25"); if (o.local) add("--local", ""); if (o.notwists) add("--notwists", "");
    if (o.pipeline) add("-P", W_PIPE[o.pipeline]); if (o.router) add("-r", W_ROUTER[o.router]); if (o.search) add("-g", W_SEARCH[o.search]);
    if (o.out == 1 || o.out == 7) add("--noslices", ""); if (o.out == 2) add("--printlli", ""); if (o.out == 3) add("--printlli", "before"); if (o.out == 4 || o.out == 7) add("--printlli", "sliced"); if (o.out == 5) add("--printdag", "input"); if (o.out == 6) add("--printdag", "processedlli"); if (o.out == 8) add("--printdag", "");
    if (o.format) add("-f", W_FORMAT[o.format]); if (o.corrections) add("--cnotcorrections", W_CORR[o.corrections]); if (o.opids) add("--op-ids", ""); if (o.graceful) add("--graceful", ""); if (o.timeout) add("-t", "1000");
    if (o.outfile) add("-o", path_of("out")); if (o.infile == 1) add("-i", path_of("in")); if (o.infile == 2) add("-i", path_of("missing"));
    return a;
}
struct Result { int code = 0; bool threw = false; std::string out, err, file; };
Result run(const std::vector<std::string>& args, const std::string& text) {
    std::vector<const char*> av; for (auto& a : args) av.push_back(a.c_str());
    std::istringstream in(text); std::ostringstream out, err; Result r;
    try { r.code = run_slicer_program((int) av.size(), av.data(), in, out, err); } catch (const std::exception&) { r.threw = true; }
    r.out = out.str(); r.err = err.str(); return r;
}
// Operation ids count on from one compilation to the next: only which of them agree matters.
void rename_operations(json& slices) {
    std::map<std::string, size_t> seen;
    for (auto& s : slices) for (auto& row : s) for (auto& cell : row) if (cell.is_object() && cell.contains("operation_id")) { std::string k = cell["operation_id"]; cell["operation_id"] = seen.emplace(k, seen.size()).first->second; }
}
const char* const LAYOUT_FILE = "rrrrrrr\nrQrrrQr\nrrArrrr\nrrr00rr\nrrrrrrr\n";
// The compilation the options ask for.
struct Wanted { bool refused = false, fails = false; bool text = false; std::string exact; std::vector<std::string> lines; json slices = json::array(); size_t slice_count = 0, instructions = 0; SliceStats stats; };
Wanted wanted(const Options& o, const std::string& text) {
    Wanted w; bool compact = o.layout <= 2, edpc = o.layout == 3;
    if (o.format && !o.outfile && o.out != 1 && o.out != 7) { w.refused = true; return w; }
    if (o.infile == 2) { w.refused = true; return w; }
    DistillationOptions d; if (o.disttime) d.distillation_time = o.disttime == 1 ? 3 : 25; d.staggered = !o.nostagger;
    gates::ControlledGate::default_ancilla_placement = edpc ? Placement::ANCILLA_NEXT_TO_TARGET : Placement::USE_DEDICATED_CELL;   // only the distributed layouts have no cell for ancillas
    try {
        std::istringstream in(text); std::unique_ptr<LSInstructionStream> s; std::unique_ptr<GateStream> g; IdGenerator ids;
        bool input_dag = o.out == 5 || o.out == 8; std::ostringstream dagtext;
        if (!is_qasm(o)) {
            s = std::make_unique<LSInstructionStreamFromFile>(in); PatchId first = 0; for (PatchId p : s->core_qubits()) if (p >= first) first = p + 1; ids.set_start(first);
            if (input_dag) { dag::full_dependency_dag_from_instruction_stream(*s).to_graphviz(dagtext); w.text = true; w.exact = dagtext.str(); return w; }
        } else {
            g = std::make_unique<GateStreamFromFile>(in);
            if (input_dag) { dag::full_dependency_dag_from_gate_stream(*g).to_graphviz(dagtext); w.text = true; w.exact = dagtext.str(); return w; }
            g = std::make_unique<DecomposeRotationStream>(std::move(g), 10); ids.set_start(g->get_qreg().size);
            s = std::make_unique<LSInstructionStreamFromGateStream>(*g, o.corrections == 2 ? CNOTCorrectionMode::ALWAYS : CNOTCorrectionMode::NEVER, ids, bool(o.local));
        }
        if (compact && o.notwists) { w.refused = true; return w; }
        std::unique_ptr<Layout> l; size_t n = s->core_qubits().size(); size_t lanes = o.lanes ? o.lanes : 1;
        if (compact) { l = make_compact_layout(n, d, o.layout == 2); s = std::make_unique<BoundaryRotationInjectionStream>(std::move(s), *l); s = std::make_unique<TeleportedSGateInjectionStream>(std::move(s), ids, false); }
        else if (edpc) { l = make_edpc_layout(n, lanes, o.condensed, o.factories, o.notwists, d);
            if (o.notwists) s = std::make_unique<CatalyticSGateInjectionStream>(std::move(s), ids, bool(o.local), true); else s = std::make_unique<TeleportedSGateInjectionStream>(std::move(s), ids, true); }
        else { l = std::make_unique<LayoutFromSpec>(LAYOUT_FILE, d); if (o.notwists && l->predistilled_y_states().empty()) { w.refused = true; return w; } }
        if (l->ancilla_location().empty() != edpc) { fprintf(stderr, "harness: ancilla cells\n"); abort(); }
        if (o.pipeline == 4 && !(edpc && o.local && lanes == 1)) { w.fails = true; return w; }
        if (o.out == 2 || o.out == 3) { while (s->has_next_instruction()) { std::ostringstream t; t << s->get_next_instruction(); w.exact += t.str() + "\n"; } w.text = true; return w; }
        if (o.out == 6) { dag::full_dependency_dag_from_instruction_stream(*s).to_graphviz(dagtext); w.text = true; w.exact = dagtext.str(); return w; }
        std::unique_ptr<Router> r; if (o.router == 2) r = std::make_unique<CachedRouter>(); else r = std::make_unique<CustomDPRouter>();
        r->set_graph_search_provider(o.search == 2 ? GraphSearchProvider::AStar : o.search == 3 ? GraphSearchProvider::Boost : GraphSearchProvider::Djikstra);
        PipelineMode m = o.pipeline == 2 ? PipelineMode::Dag : o.pipeline == 3 ? PipelineMode::Wave : o.pipeline == 4 ? PipelineMode::EDPC : PipelineMode::Stream;
        std::string line;
        auto res = run_through_dense_slices(std::move(*s), m, bool(o.local), !o.notwists, *l, std::move(r), std::nullopt,
            [&](const DenseSlice& x) { sx_assume(w.slices.size() < 150); w.slices.push_back(slice_to_json(x)); w.stats.totals += compute_volume_counts(x); w.lines.push_back(line); line.clear(); },
            [&](const LSInstruction& i) { std::ostringstream t; t << i; line += t.str() + ";"; }, bool(o.graceful), bool(o.opids));
        w.lines.push_back(line); w.slice_count = res.slice_count(); w.instructions = res.ls_instructions_count();
    } catch (const std::exception&) { w.fails = true; }
    return w;
}
void check(const Options& o, const std::string& text) {
    if (o.layout == 4) write_file(path_of("layout"), LAYOUT_FILE);
    if (o.infile == 1) write_file(path_of("in"), text);
    Wanted w = wanted(o, text);
    gates::ControlledGate::default_ancilla_placement = Placement::USE_DEDICATED_CELL;
    if (sx_config_int("BEFORE", 0)) { Options e; e.layout = 3; e.out = 3; run(words(e), "DeclareLogicalQubitPatches 0\n"); }
    Result r = run(words(o), o.infile ? "" : text);
    if (sx_config_int("STRINGS", 0)) {   // the same through the entry point for strings
        gates::ControlledGate::default_ancilla_placement = Placement::USE_DEDICATED_CELL; auto a = words(o); std::string line; for (size_t i = 1; i < a.size(); ++i) line += (i > 1 ? " " : "") + a[i];
        json j; bool parsed = true; try { j = json::parse(run_slicer_program_from_strings(line, text)); } catch (const std::exception&) { parsed = false; } sx_assert(parsed, "the answer for strings is JSON"); if (!parsed) return;
        sx_assert(j["output"] == r.out && (j["exit_code"] == 0) == (r.code == 0 && !r.threw) && (r.threw ? !j["err"].get<std::string>().empty() : j["err"] == r.err), "the answer for strings is that of the program"); sx_reach("strings");
    }
    gates::ControlledGate::default_ancilla_placement = Placement::USE_DEDICATED_CELL;
    if (o.outfile) { r.file = read_file(path_of("out")); unlink(path_of("out").c_str()); }
    unlink(path_of("layout").c_str()); unlink(path_of("in").c_str());
    bool bad = r.threw || r.code != 0;
    if (w.refused) { sx_assert(bad && (r.threw || !r.err.empty()), "unusable inputs and options are reported"); sx_reach("refused"); return; }
    if (w.fails) { sx_assert(bad, "a compilation that fails is reported"); sx_reach("failed"); return; }
    sx_assert(!bad, "options that go together and a program that can be compiled are accepted"); if (bad) { note("code " + std::to_string(r.code) + " " + r.err); return; }
    if (w.text) { sx_assert(r.out + r.file == w.exact, "the listing asked for is written"); sx_reach("listing"); return; }
    bool sliced = o.out == 4 || o.out == 7, quiet = o.out == 1 || o.out == 7; const std::string& bulk = o.outfile ? r.file : r.out; std::string report = o.outfile ? r.out : "", body = bulk;
    // what is reported besides
    int f = o.format ? o.format : o.outfile || quiet ? 1 : 2; std::string tail;
    if (o.outfile || quiet) {
        if (f == 3) tail = std::to_string(w.instructions) + "," + std::to_string(w.slice_count) + ",0\n";
        else if (f == 1 || f == 4) { tail = "LS Instructions read  " + std::to_string(w.instructions) + "\nSlices " + std::to_string(w.slice_count) + "\nMade patch computation. Took 0s.\n"; if (f == 4) { std::ostringstream t; t << w.stats << "\n"; tail += t.str(); } }
        sx_reach("reported");
    }
    if (o.outfile) sx_assert(report == tail, "the counts reported are those of the compilation");
    if (sliced) {
        std::string want; for (auto& l : w.lines) want += l + "\n"; if (!o.outfile) { want.pop_back(); want += tail + "\n"; }   // the report comes before the last line ends
        sx_assert(body == want, "the instructions of every slice are written on a line of their own"); sx_reach("sliced listing");
    } else if (quiet) { if (!o.outfile) sx_assert(body == tail, "the counts reported are those of the compilation"); else sx_assert(body.empty(), "no slices are written when that is asked for"); }
    else {
        json j; bool parsed = true; try { j = json::parse(body); } catch (const std::exception&) { parsed = false; }
        sx_assert(parsed, "the output is JSON"); if (!parsed) return;
        if (o.opids) { for (auto& x : j) if (x.is_array()) for (auto& row : x) if (row.is_array()) for (auto& cell : row) if (cell.is_object() && cell.contains("operation_id")) sx_reach("operation ids"); rename_operations(j); rename_operations(w.slices); }
        sx_assert(j == w.slices, "the output has every slice of the compilation"); sx_reach("slices");
    }
}
const char* const LLI[] = { "HGate 0", "SGate 1", "MeasureSinglePatch 0 Z", "MultiBodyMeasure 0:Z,1:X", "RequestMagicState 70 0", "Init 71 |+> 0:X", "RotateSingleCellPatch 1", "LogicalPauli 0 X" };
const char* const QASM[] = { "h q[0];", "s q[1];", "t q[0];", "cx q[0],q[1];", "x q[1];", "sdg q[0];" };
}

extern "C" void sx_harness() {
    gates::ControlledGate::default_ancilla_placement = Placement::USE_DEDICATED_CELL;
    int what = sx_config_int("WHAT", 0);
    if (what == 0) {       // option lists and programs
        Options o; o.input = opt("INPUT", 5); o.layout = opt("LAYOUT", 5); o.lanes = opt("LANES", 3); o.condensed = opt("CONDENSED", 2); o.factories = opt("FACTORIES", 2); o.nostagger = opt("NOSTAGGER", 2); o.disttime = opt("DISTTIME", 3);
        o.local = opt("LOCAL", 2); o.notwists = opt("NOTWISTS", 2); o.pipeline = opt("PIPELINE", 5); o.router = opt("ROUTER", 3); o.search = opt("SEARCH", 4); o.out = opt("OUT", 9); o.format = opt("FORMAT", 5); o.corrections = opt("CORRECTIONS", 3);
        o.opids = opt("OPIDS", 2); o.graceful = opt("GRACEFUL", 2); o.timeout = opt("TIMEOUT", 2); o.outfile = opt("OUTFILE", 2); o.infile = opt("INFILE", 3);
        int n = sx_config_int("N", 1); std::string t = is_qasm(o) ? "OPENQASM 2.0;\ninclude \"qelib1.inc\";\nqreg q[2];\n" : "DeclareLogicalQubitPatches 0,1\n";
        for (int i = 0; i < n; ++i) { int k = sx_choice("instruction", is_qasm(o) ? 6 : 8); t += is_qasm(o) ? QASM[k] : LLI[k]; t += "\n"; }
        check(o, t);
    } else if (what == 2) {   // inputs that cannot be compiled
        static const char* const bad[] = { "", "\n", "HGate 0\n", "DeclareLogicalQubitPatches 0,1\nHGate\n", "DeclareLogicalQubitPatches 0,1\nHGate 0\nNoSuch 1\n", "DeclareLogicalQubitPatches 0,1\nMultiBodyMeasure 0:Z,1\n",
            "OPENQASM 2.0;\nh q[0];\n", "OPENQASM 2.0;\nqreg q[1];\nnosuch q[0];\n", "OPENQASM 2.0;\nqreg q[1];\nh q[0];\ncx q[0];\n", "OPENQASM 2.0;\nqreg q[1];\nrz(pi/7) q[0];\n" };
        Options o; size_t k = sx_choice("text", 10); o.input = k < 6 ? 0 : 3; o.layout = opt("LAYOUT", 4); o.pipeline = opt("PIPELINE", 4); o.out = opt("OUT", 8); o.local = opt("LOCAL", 2); o.graceful = opt("GRACEFUL", 2); o.infile = sx_choice("file", 2);
        if (k == 9) sx_assume(o.out != 5);      // the graph of the input has the rotation as it is
        if (o.infile) write_file(path_of("in"), bad[k]); Result r = run(words(o), o.infile ? "" : bad[k]); unlink(path_of("in").c_str());
        sx_assert(r.threw || (r.code != 0 && !r.err.empty()), "an input that cannot be read is reported"); sx_reach("unreadable");
    } else {               // one option with a value that need not be one of those documented
        struct Opt { const char* name; std::vector<std::string> known; };
        static const std::vector<Opt> table = { { "-I", { "lli", "l", "qasm", "q", "pandora", "p" } }, { "-L", { "compact", "compact_no_clogging", "edpc" } }, { "-f", { "progress", "noprogress", "machine", "stats" } }, { "-P", { "stream", "dag", "wave", "edpc" } },
            { "-r", { "graph_search", "graph_search_cached" } }, { "-g", { "djikstra", "astar", "boost" } }, { "--printlli", { "before", "sliced" } }, { "--printdag", { "input", "processedlli" } }, { "--cnotcorrections", { "never", "always" } } };
        auto& e = table[sx_choice("option", table.size())]; std::string v = e.known[sx_choice("near", e.known.size())]; if (!strcmp(e.name, "-I")) sx_assume(v[0] != 'p');
        int edit = sx_choice("edit", 4); size_t at = sx_choice("at", v.size()); char c = sx_char("character"); sx_assume(c != 0 && c != '-');
        if (edit == 0) v[at] = c; else if (edit == 1) v.insert(v.begin() + at, c); else if (edit == 2) { v.erase(at, 1); sx_assume(!v.empty()); } else v += c;
        bool ok = false; for (auto& k : e.known) ok = ok || v == k;
        if (!strcmp(e.name, "-I")) sx_assume(v != "p");
        bool qasm = !strcmp(e.name, "--cnotcorrections") || (!strcmp(e.name, "-I") && !v.empty() && v[0] == 'q');
        std::vector<std::string> a{ "lsqecc_slicer", e.name, v }; if (!strcmp(e.name, "--cnotcorrections")) { a.push_back("-I"); a.push_back("q"); } if (!strcmp(e.name, "-f")) a.push_back("--noslices");
        if (!strcmp(e.name, "-P") && v == "edpc") { a.push_back("-L"); a.push_back("edpc"); a.push_back("--local"); }
        Result r = run(a, qasm ? "OPENQASM 2.0;\ninclude \"qelib1.inc\";\nqreg q[1];\nh q[0];\n" : "DeclareLogicalQubitPatches 0\nHGate 0\n");
        sx_assert((r.threw || r.code != 0) == !ok, "exactly the documented values of an option are accepted"); if (!ok) { sx_assert(r.out.empty(), "nothing is written when an option is refused"); sx_reach("refused"); } else sx_reach("accepted");
    }
}

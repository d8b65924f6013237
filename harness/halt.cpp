// C28: a compilation that fails or runs out of time. The same program is compiled twice: once as it is, and once with failures handled
// gracefully or not and with a time limit or none, the clock being symbolic. What the second one shows must be what the first one showed, up to
// the point where it stopped.
#include "lattice.hpp"
#include <chrono>
#include <algorithm>
using namespace lsqecc; using namespace sxh;

namespace {
struct Program : public LSInstructionStream {
    std::vector<LSInstruction> list; size_t pos = 0; tsl::ordered_set<PatchId> core;
    LSInstruction get_next_instruction() override { return list.at(pos++); }
    bool has_next_instruction() const override { return pos < list.size(); }
    const tsl::ordered_set<PatchId>& core_qubits() const override { return core; }
};
struct Event { std::optional<LSInstruction> ins; std::optional<Snap> slice; };
struct Run { std::vector<Event> events; size_t slices = 0, instructions = 0, count_slices = 0, count_instructions = 0; bool threw = false, returned = false; };
bool ticking = false; std::vector<int64_t> readings; int64_t clock_ms = 0;
}
// The clock: every reading is some way after the one before (the code turns readings into floating
// point numbers, so the ways are listed), the first TICKS times.
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept {
    if (ticking) { int way = 0; if (readings.size() < size_t(sx_config_int("TICKS", 5))) way = sx_choice("passed", 3);
        if (way == 1) clock_ms += 1000; else if (way == 2) clock_ms += 1001; readings.push_back(clock_ms); }
    return time_point(std::chrono::milliseconds(clock_ms));
}
namespace {
Run go(GridLayout& l, const Program& p, int mode, bool graceful, std::optional<std::chrono::seconds> limit) {
    Run r; Program copy = p; PipelineMode pm = mode == 0 ? PipelineMode::Stream : mode == 1 ? PipelineMode::Dag : mode == 2 ? PipelineMode::Wave : PipelineMode::EDPC;
    try {
        auto res = run_through_dense_slices(std::move(copy), pm, false, false, l, std::make_unique<CustomDPRouter>(), limit,
            [&](const DenseSlice& s) { r.events.push_back({ std::nullopt, Snap(s) }); ++r.slices; }, [&](const LSInstruction& i) { r.events.push_back({ i, std::nullopt }); ++r.instructions; }, graceful, false);
        r.returned = true; r.count_slices = res.slice_count_; r.count_instructions = res.ls_instructions_count_;
    } catch (const std::exception&) { r.threw = true; }
    return r;
}
}
extern "C" void sx_harness() {
    ticking = false; readings.clear(); clock_ms = 0;
    std::string grid = sx_config("GRID"); if (grid.empty()) grid = "A./.B"; int mode = sx_config_int("MODE", 0), n = sx_config_int("N", 2), wait = sx_config_int("WAIT", 1); bool timed = sx_config_int("TIMED", 0);
    GridLayout l; MultipleCellsOccupiedByPatch fac; std::vector<Cell> outs; int r = 0, c = 0, cols = 0; Program prog; PatchId q = 0;
    for (char ch : grid) {
        if (ch == '/') { ++r; c = 0; continue; } Cell at{ r, c++ }; cols = std::max(cols, c);
        switch (ch) { case 'A': case 'B': { bool v = sx_flag("turned"); l.core.push_back(SparsePatch{ Patch{ PatchType::Qubit, PatchActivity::None }, SingleCellOccupiedByPatch{ square_boundaries(v), at } }); prog.core.insert(q++); break; }
            case 'D': fac.sub_cells.push_back(LayoutHelpers::make_distillation_region_cell(at)); break; case 'd': outs.push_back(at); break; case 'a': l.ancilla.push_back(at); break; case '?': if (sx_flag("dead")) l.dead.push_back(at); break; default: break; }
    }
    l.far = { r, cols - 1 }; if (!fac.sub_cells.empty()) { l.regions.push_back(fac); l.distilled.push_back(outs); l.times.push_back(sx_int("time", 1, 1000)); }
    PatchId magic = 5;
    for (int i = 0; i < n; ++i) {
        LSInstruction ins; int k = sx_choice("kind", l.regions.empty() ? 6 : 7); PatchId t = sx_choice("on", q);
        switch (k) {
            case 0: ins.operation = SingleQubitOp{ t, SingleQubitOp::Operator::H }; break;
            case 1: ins.operation = RotateSingleCellPatch{ t }; break;
            case 2: { sx_assume(t == 0); if (q < 2) { sx_assume(false); } MultiPatchMeasurement m; m.observable[0] = sx_flag("op1") ? PauliOperator::X : PauliOperator::Z; m.observable[1] = sx_flag("op2") ? PauliOperator::X : PauliOperator::Z; m.is_negative = false; ins.operation = m; break; }
            case 3: ins.operation = SinglePatchMeasurement{ t, PauliOperator::Z, false }; break;
            case 4: ins.operation = PatchInit{ 3, PatchInit::InitializeableStates::Zero, PlaceNexTo{ t, sx_flag("op1") ? PauliOperator::X : PauliOperator::Z } }; ins.clients = { t }; break;
            case 5: ins.operation = SingleQubitOp{ t, SingleQubitOp::Operator::X }; break;
            case 6: ins.operation = MagicStateRequest{ magic++, t }; ins.clients = { t }; break;
        }
        ins.wait_at_most_for = wait; prog.list.push_back(ins);
    }
    Run plain = go(l, prog, mode, false, std::nullopt); sx_assert(plain.threw != plain.returned, "a compilation fails or returns");
    bool graceful = sx_flag("graceful"); std::optional<std::chrono::seconds> limit; if (timed) { int64_t s = sx_choice("limit", 3); limit = std::chrono::seconds(s); }
    ticking = true; Run again = go(l, prog, mode, graceful, limit); ticking = false;
    // When has the time run out? The clock is read at the start and once for every slice.
    bool late = false; size_t shown = plain.slices;
    if (timed) for (size_t i = 1; i < readings.size(); ++i) { int64_t since = readings[i] - readings[0]; if (since > limit->count() * 1000) { late = true; shown = i - 1; sx_assert(i + 1 == readings.size(), "a compilation stops when its time has run out"); break; } }
    sx_assert(again.events.size() <= plain.events.size(), "a compilation that stops shows nothing the complete one does not"); if (again.events.size() > plain.events.size()) return;
    for (size_t i = 0; i < again.events.size(); ++i) {
        auto &a = again.events[i], &b = plain.events[i]; bool both = a.ins.has_value() == b.ins.has_value(); sx_assert(both, "what is shown is what the complete compilation shows, up to where it stops"); if (!both) return;
        if (a.ins) sx_assert(a.ins->operation == b.ins->operation, "the instructions shown are those of the complete compilation, up to where it stops"); else sx_assert(same_snap(*a.slice, *b.slice), "the slices shown are those of the complete compilation, up to where it stops");
    }
    sx_assert(again.slices == shown, "slices are shown until the time has run out or an instruction cannot be applied"); if (!late) sx_assert(again.events.size() == plain.events.size(), "a compilation stops only when its time has run out or an instruction cannot be applied");
    bool fails = late || plain.threw; sx_assert(again.threw == (fails && !graceful), "a failure is reported to the caller unless it is to be handled gracefully"); sx_assert(again.returned == (!fails || graceful), "a graceful compilation returns what it has done");
    if (again.returned && !fails) sx_assert(again.count_slices == plain.count_slices && again.count_instructions == plain.count_instructions, "the numbers reported do not depend on how failures are handled");
    if (again.returned && fails) {
        if (mode != 0) { sx_assert(again.count_instructions == again.instructions, "the number of instructions reported after a failure is the number executed"); sx_assert(again.count_slices == again.slices + 1, "the number of slices reported after a failure is that of the time steps, and one"); }
        else sx_assert(again.count_slices <= again.slices + 1 && again.count_instructions <= again.instructions + 1, "no more is reported after a failure than was done");
        sx_reach("stopped gracefully");
    }
    if (again.threw) sx_reach("stopped"); if (late) sx_reach("out of time"); if (!fails) sx_reach("completed"); sx_reach("end");
}

// C04, C05, C06, C07, C20: whole programs run by each pipeline. The harness follows the run with its own slice: every instruction the
// pipeline reports is applied to it (what one instruction may do is decided by apply.cpp), and between two slices it takes one time step
// as stated here; every slice shown must be that slice.
#include "lattice.hpp"
#include <functional>
#include <map>
#include <algorithm>
using namespace lsqecc; using namespace sxh;

namespace {
struct Program : public LSInstructionStream {
    std::vector<LSInstruction> list; size_t pos = 0; tsl::ordered_set<PatchId> core;
    LSInstruction get_next_instruction() override { return list.at(pos++); }
    bool has_next_instruction() const override { return pos < list.size(); }
    const tsl::ordered_set<PatchId>& core_qubits() const override { return core; }
};
enum Kind { KX, KH, KS, KJoint, KNear, KFree, KMeasure, KRotate, KMagic, KY, KReset, KCnot, KBell, NKIND };
struct Item { LSInstruction ins; std::vector<PatchId> on; int kind; bool started = false, done = false; std::optional<LSInstruction> next; int last = -1, repeats = 0, ready = -1; };
bool same_op(const LSInstruction& a, const LSInstruction& b) {      // long-range operations carry along what they were compiled to
    if (auto* x = std::get_if<BellBasedCNOT>(&a.operation)) { auto* y = std::get_if<BellBasedCNOT>(&b.operation); return y && x->control == y->control && x->target == y->target && x->side1 == y->side1 && x->side2 == y->side2; }
    if (auto* x = std::get_if<BellPairInit>(&a.operation)) { auto* y = std::get_if<BellPairInit>(&b.operation); return y && x->side1 == y->side1 && x->side2 == y->side2 && x->loc1 == y->loc1 && x->loc2 == y->loc2; }
    return a.operation == b.operation;
}
struct Expect { std::map<PatchId, bool> turned; };      // the patches a program leaves behind, and whether they were turned

struct Follow {
    GridLayout& l; CustomDPRouter router; int mode; std::vector<Item> items; std::vector<DenseSlice> shadows; int now = 0, logs = 0, logs_now = 0, limit = 0, retries = 0, waits = 0; bool advance_due = false, more_now = false, local = sx_config_int("LOCAL", 0);
    Follow(GridLayout& l_, const tsl::ordered_set<PatchId>& core) : l(l_) { shadows.emplace_back(l, core); ready_items(); }
    std::vector<int> before(int i) const { std::vector<int> r; for (int j = 0; j < i; ++j) { bool share = mode == 0; for (auto a : items[j].on) for (auto b : items[i].on) share = share || a == b; if (share) r.push_back(j); } return r; }
    bool ready(int i) const { if (items[i].started) return false; for (int j : before(i)) if (!items[j].done) return false; return true; }
    void ready_items() { for (size_t i = 0; i < items.size(); ++i) if (items[i].ready < 0 && ready(i)) items[i].ready = now; }
    bool apply(const LSInstruction& ins, std::vector<LSInstruction>& follow) {
        std::vector<DenseSlice> out; bool first = true;
        for (auto& s : shadows) { DenseSlice t = s; LSInstruction c = ins; 
            try { auto r = try_apply_instruction_direct_followup(t, c, local, false, false, l, router); if (r.maybe_error) continue; if (first) follow = r.followup_instructions; first = false; out.push_back(t); } catch (const std::exception&) {} }
        if (out.empty()) return false;
        shadows = std::move(out); return true;
    }
    bool refused(const LSInstruction& ins) const {
        for (auto& s : shadows) { DenseSlice t = s; LSInstruction c = ins; CustomDPRouter r = router; try { if (!try_apply_instruction_direct_followup(t, c, local, false, false, l, r).maybe_error) return false; } catch (const std::exception&) {} }
        return true;
    }
    // A long-range operation whose ends lie too close together is given up at once.
    bool hopeless(const LSInstruction& ins) const {
        if (!std::get_if<BellBasedCNOT>(&ins.operation) && !std::get_if<BellPairInit>(&ins.operation)) return false;
        for (auto& s : shadows) { DenseSlice t = s; LSInstruction c = ins; CustomDPRouter r = router; try { try_apply_instruction_direct_followup(t, c, local, false, false, l, r); return false; } catch (const std::exception&) {} }
        return true;
    }
    void take_step() {      // one time step
        std::vector<DenseSlice> out;
        for (auto& s : shadows) {
            for (auto& row : s.cells) for (auto& p : row) {
                if (!p) continue;
                if (p->activity == PatchActivity::MultiPatchMeasurement || p->activity == PatchActivity::Measurement) { p = std::nullopt; continue; }
                if (p->activity == PatchActivity::Unitary) p->activity = PatchActivity::None;
                if (p->activity == PatchActivity::Rotation) continue;
                p->boundaries.top.is_active = p->boundaries.bottom.is_active = p->boundaries.left.is_active = p->boundaries.right.is_active = false;
            }
            auto state = [&](DenseSlice& t, const Cell& c) { SparsePatch m = LayoutHelpers::basic_square_patch(c, std::nullopt, "Magic State"); m.type = PatchType::PreparedState; t.cells[c.row][c.col] = DensePatch::from_sparse_patch(m); t.magic_states.insert(c); };
            std::vector<DenseSlice> some{ s };
            if (l.reserve_magic) for (size_t i = 0; i < l.reserved.size(); ++i) for (auto& t : some) {
                const Cell& c = l.reserved[i]; auto& p = t.cells[c.row][c.col]; auto& left = t.time_to_next_magic_state_by_distillation_region[i];
                if (!p) { p = DensePatch{ Patch{ PatchType::Distillation, PatchActivity::Distillation, std::nullopt }, CellBoundaries{ { BoundaryType::Connected, false }, { BoundaryType::Connected, false }, { BoundaryType::Connected, false }, { BoundaryType::Connected, false } } }; left = l.times[i]; }
                else if (p->type == PatchType::Distillation && --left == 0) state(t, c);
            }
            else for (size_t i = 0; i < l.times.size(); ++i) {
                std::vector<DenseSlice> n;
                for (auto& t : some) {
                    auto& left = t.time_to_next_magic_state_by_distillation_region[i];
                    if (--left != 0) { n.push_back(t); continue; }
                    left = l.times[i]; bool any = false;
                    for (auto& c : l.distilled[i]) if (!t.cells[c.row][c.col]) { any = true; n.push_back(t); state(n.back(), c); }
                    if (!any) n.push_back(t);
                }
                some = n;
            }
            for (auto& t : some) out.push_back(t);
        }
        shadows = std::move(out); ++now; sx_assert(now <= limit, "a program ends"); logs_now = 0; more_now = false; ready_items();
    }
    void due() { if (advance_due) { advance_due = false; take_step(); } }
    void log(const LSInstruction& ins) {
        due(); ++logs; ++logs_now; std::vector<LSInstruction> follow;
        for (auto& it : items) if (it.next && same_op(*it.next, ins)) { LSInstruction going = *it.next;
            bool again = it.last == now; if (again) ++it.repeats;
            // The dag pipeline goes on with a rotation twice in one slice (see known_findings.jsonl): that is accepted once per rotation.
            if (again || it.last != now - 1) sx_assert(again && mode == 1 && it.repeats == 1 && !sx_config_int("LITERAL", 0), mode == 1 && again && it.repeats == 1 ? "dag: what an instruction leaves behind is applied twice in a slice" : "what an instruction leaves behind is applied once in each slice");
            sx_assert(apply(going, follow), "instructions are applied only when they can be"); it.last = now; finish(it, follow); return;
        }
        int i = -1; bool known = false; for (size_t k = 0; k < items.size() && i < 0; ++k) if (same_op(items[k].ins, ins) && !items[k].started) { known = true; if (ready(k)) i = (int) k; else break; }
        sx_assert(known, "every instruction is applied exactly once"); sx_assert(i >= 0, "an instruction is applied only after all earlier ones on the same patches"); if (i < 0) return;
        items[i].started = true; items[i].last = now; LSInstruction fresh = items[i].ins; sx_assert(apply(fresh, follow), "instructions are applied only when they can be"); finish(items[i], follow);
    }
    void finish(Item& it, const std::vector<LSInstruction>& follow) {
        sx_assert(follow.size() <= 1, "at most one instruction is left behind"); it.next = std::nullopt; if (follow.size() == 1) { it.next = follow[0]; more_now = true; } else it.done = true;
        ready_items();
    }
    void visit(const DenseSlice& s) {
        due(); Snap a(s); std::vector<DenseSlice> out; for (auto& t : shadows) if (same_snap(a, Snap(t))) out.push_back(t);
        sx_assert(!out.empty(), "every slice follows from the one before by the instructions applied"); if (out.empty()) return; shadows = std::move(out);
        sx_assert(ids_unique(a), "every patch id is on at most one cell");
        for (auto& it : items) if (it.next && mode != 0) sx_assert(it.last == now, "what an instruction leaves behind is applied in each slice");
        if (mode != 0 && logs_now == 0) for (auto& it : items) if (!it.started && it.ready >= 0 && it.ready < now) sx_assert(refused(it.ins), "an instruction that can be applied is not left waiting");
        if (mode != 1) for (auto& it : items) if (!it.started && it.ready >= 0) sx_assert(now - it.ready <= (int) it.ins.wait_at_most_for + 1, "an instruction that cannot be applied is reported after the permitted number of waits");
        if (mode == 0 && !more_now) ++waits;
        advance_due = true;
    }
};
}

extern "C" void sx_harness() {
    std::string grid = sx_config("GRID"); if (grid.empty()) grid = "A./.B"; int mode = sx_config_int("MODE", 0), n = sx_config_int("N", 2), mask = sx_config_int("KINDS", 255), wait = sx_config_int("WAIT", 1), tmax = sx_config_int("TMAX", 1000000), targets = sx_config_int("TARGETS", 7);
    GridLayout l; MultipleCellsOccupiedByPatch fac[2]; std::vector<Cell> outs[2]; int r = 0, c = 0, cols = 0; std::vector<std::pair<char, Cell>> core;
    for (char ch : grid) {
        if (ch == '/') { ++r; c = 0; continue; } Cell at{ r, c++ }; cols = std::max(cols, c);
        switch (ch) { case 'A': case 'B': case 'C': core.push_back({ ch, at }); break; case 'x': l.dead.push_back(at); break; case '?': if (sx_flag("dead")) l.dead.push_back(at); break;
            case 'D': case 'E': fac[ch - 'D'].sub_cells.push_back(LayoutHelpers::make_distillation_region_cell(at)); break; case 'd': case 'e': outs[ch - 'd'].push_back(at); break;
            case 'b': outs[0].push_back(at); outs[1].push_back(at); break;
            case 'r': l.reserved.push_back(at); l.reserve_magic = true; break; case 'y': l.ystates.push_back(at); break; case 'a': l.ancilla.push_back(at); break; default: break; }
    }
    l.far = { r, cols - 1 }; std::sort(core.begin(), core.end(), [](auto& a, auto& b) { return a.first < b.first; });
    Program prog; std::map<PatchId, bool> left;
    for (size_t i = 0; i < core.size(); ++i) { bool v = sx_flag("turned"); l.core.push_back(SparsePatch{ Patch{ PatchType::Qubit, PatchActivity::None }, SingleCellOccupiedByPatch{ square_boundaries(v), core[i].second } }); prog.core.insert(i); left[i] = v; }
    for (int f = 0; f < 2; ++f) if (!fac[f].sub_cells.empty()) { l.regions.push_back(fac[f]); l.distilled.push_back(outs[f]); l.times.push_back(sx_int("time", 1, tmax)); }
    for (size_t i = 0; i < l.reserved.size(); ++i) l.times.push_back(sx_int("time", 1, tmax));
    // The program.
    Follow f(l, prog.core); f.mode = mode; std::vector<PatchId> ids; for (PatchId i : { 0, 1, 2, 3, 5, 6, 7, 8 }) if (targets >> i & 1) ids.push_back(i);
    std::vector<int> kinds; for (int k = 0; k < NKIND; ++k) if (mask >> k & 1) kinds.push_back(k);
    std::vector<PatchId> joined; PatchId nmagic = 5, ny = 7; bool valid_only = sx_config_int("VALID", 0); std::map<PatchId, int> dead; bool legal = true;
    for (int i = 0; i < n; ++i) {
        Item it; it.kind = kinds[sx_choice("kind", kinds.size())]; PatchId t = ids[sx_choice("on", ids.size())], u = 0; it.on = { t }; auto& o = it.ins.operation;
        auto needs = [&](PatchId p) { if (!left.count(p)) legal = false; };
        switch (it.kind) {
            case KX: o = SingleQubitOp{ t, SingleQubitOp::Operator::X }; needs(t); break;
            case KH: o = SingleQubitOp{ t, SingleQubitOp::Operator::H }; needs(t); if (legal) left[t] = !left[t]; break;
            case KS: o = SingleQubitOp{ t, SingleQubitOp::Operator::S }; needs(t); break;
            case KRotate: o = RotateSingleCellPatch{ t }; needs(t); if (legal) left[t] = !left[t]; break;
            case KReset: o = PatchReset{ t }; break;
            case KMeasure: o = SinglePatchMeasurement{ t, PauliOperator::Z, false }; needs(t); left.erase(t); break;
            case KJoint: { u = ids[sx_choice("and", ids.size())]; sx_assume(u > t); MultiPatchMeasurement m; m.observable[t] = sx_flag("op1") ? PauliOperator::X : PauliOperator::Z; m.observable[u] = sx_flag("op2") ? PauliOperator::X : PauliOperator::Z; m.is_negative = false; o = m; it.on.push_back(u); needs(t); needs(u); break; }
            case KNear: o = PatchInit{ 3, PatchInit::InitializeableStates::Zero, PlaceNexTo{ t, sx_flag("op1") ? PauliOperator::X : PauliOperator::Z } }; sx_assume(t != 3); it.on.push_back(3); it.ins.clients = { t }; needs(t); if (left.count(3)) legal = false; left[3] = false; break;
            case KFree: o = PatchInit{ 3, PatchInit::InitializeableStates::Plus, std::nullopt }; it.on = { 3 }; sx_assume(t == ids[0]); if (left.count(3)) legal = false; left[3] = false; break;
            case KCnot: { u = ids[sx_choice("and", ids.size())]; sx_assume(u != t); BellBasedCNOT b{}; b.control = t; b.target = u; b.side1 = 20 + 2 * i; b.side2 = 21 + 2 * i; o = b; it.on.push_back(u); needs(t); needs(u); break; }
            case KBell: { u = ids[sx_choice("and", ids.size())]; sx_assume(u != t); BellPairInit b{}; b.side1 = 10; b.side2 = 11; b.loc1 = PlaceNexTo{ t, sx_flag("op1") ? PauliOperator::X : PauliOperator::Z }; b.loc2 = PlaceNexTo{ u, PauliOperator::Z }; o = b; it.on = { t, u, 10, 11 }; needs(t); needs(u); if (left.count(10) || left.count(11)) legal = false; left[10] = left[11] = false; break; }
            case KMagic: sx_assume(nmagic < 7); o = MagicStateRequest{ nmagic, t }; it.on.push_back(nmagic); it.ins.clients = { t }; needs(t); left[nmagic++] = true; break;
            case KY: sx_assume(t != 7); o = YStateRequest{ ny, t }; it.on.push_back(ny); it.ins.clients = { t }; needs(t); if (left.count(ny)) left.erase(ny); else left[ny] = true; break;
        }
        if (valid_only) sx_assume(legal);
        it.ins.wait_at_most_for = wait; prog.list.push_back(it.ins); f.items.push_back(it);
    }
    f.retries = mode == 1 ? 100 : wait; f.limit = n * (f.retries + 5) + 5; f.ready_items();
    auto router = std::make_unique<CustomDPRouter>(); PipelineMode pm = mode == 0 ? PipelineMode::Stream : mode == 1 ? PipelineMode::Dag : PipelineMode::Wave; int visits = 0;
    try {
        auto res = run_through_dense_slices(std::move(prog), pm, f.local, false, l, std::move(router), std::nullopt, [&](const DenseSlice& s) { ++visits; f.visit(s); }, [&](const LSInstruction& i) { f.log(i); }, false, false);
        for (auto& it : f.items) sx_assert(it.started && it.done, "every instruction of a program is applied, with all it leaves behind");
        sx_assert(res.ls_instructions_count_ == (size_t) (mode == 0 ? n : f.logs), "the number of instructions reported is the number executed");
        if (mode == 0) { if (!sx_config_int("LITERAL", 0)) sx_assert(res.slice_count_ == (size_t) visits - (f.waits - 1), "the number of slices reported is the number of slices"); else sx_assert(res.slice_count_ == (size_t) visits, "stream: slices spent waiting are not counted"); }
        else sx_assert(res.slice_count_ == (size_t) visits + 1, "the number of slices reported is one more than the number of time steps");
        // What is left: a patch that was measured last may still be on the lattice in the last slice of the stream pipeline.
        Snap end(f.shadows[0]); std::map<PatchId, bool> have; end.each([&](const Cell& c) { const Held& h = end.at(c); if (h && h->id && h->activity != PatchActivity::Measurement) have[*h->id] = h->boundaries.top.boundary_type == BoundaryType::Rough; });
        if (!legal) { sx_reach("end"); return; }      // such as placing a patch next to one that was measured in this very slice
        for (auto& [id, v] : left) if (id < 3 || id == 3) { sx_assert(have.count(id), "the patches of the program are on the lattice at the end"); if (have.count(id)) sx_assert(have[id] == v, "each patch is turned as often as the program says"); }
        sx_assert(have.size() == left.size(), "the lattice at the end holds the patches the program leaves");
        sx_reach("completed"); if (f.now > n) sx_reach("waited");
    } catch (const std::runtime_error&) {
        auto stuck_now = [&] { for (auto& it : f.items) if (!it.started && it.ready >= 0 && (f.now - it.ready >= f.retries || f.hopeless(it.ins)) && f.refused(it.ins)) return true; return false; };
        bool stuck = stuck_now(); if (!stuck) { f.due(); stuck = stuck_now(); }
        sx_assert(stuck, "a program is given up only when an instruction could not be applied for as long as it may wait"); sx_reach("given up");
    }
    sx_reach("end");
}

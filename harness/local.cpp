// C10: long-range Bell pairs and CNOTs compiled into operations on neighbouring cells. The instruction is applied to a slice with
// symbolic occupancy, time steps are taken in between, and the local operations it was turned into are executed by the exact simulator.
#include "longrange.hpp"
using namespace lsqecc; using namespace sxh;
using LocalInstruction::LocalLSInstruction;

namespace {
void take_step(DenseSlice& s, const std::set<Cell>& look) {      // of the cells that the operation has touched
    for (auto& c : look) { auto& p = s.cells[c.row][c.col]; if (!p) continue;
        if (p->activity == PatchActivity::Measurement || p->activity == PatchActivity::MultiPatchMeasurement) { p = std::nullopt; continue; }
        if (p->activity == PatchActivity::Unitary) p->activity = PatchActivity::None;
        p->boundaries.top.is_active = p->boundaries.bottom.is_active = p->boundaries.left.is_active = p->boundaries.right.is_active = false; }
}
}

extern "C" void sx_harness() {
    int what = sx_config_int("WHAT", 0), rows = sx_config_int("ROWS", 2), cols = sx_config_int("COLS", 4), ncell = rows * cols, provider = sx_config_int("PROVIDER", 0);
    auto cell = [&](int i) { return Cell{ i / cols, i % cols }; };
    GridLayout l; l.far = { rows - 1, cols - 1 }; CustomDPRouter router; router.set_graph_search_provider(provider == 0 ? GraphSearchProvider::Djikstra : provider == 1 ? GraphSearchProvider::AStar : GraphSearchProvider::Boost);
    int pa = sx_config_int("PA", 0), pb = sx_config_int("PB", ncell - 1); if (sx_config_int("POS", 0)) { pa = sx_choice("first_at", ncell); pb = sx_choice("second_at", ncell); sx_assume(pa != pb); }
    for (int p : { pa, pb }) { bool v = sx_bool("turned"); l.core.push_back(SparsePatch{ Patch{ PatchType::Qubit, PatchActivity::None }, SingleCellOccupiedByPatch{ square_boundaries(v), cell(p) } }); }
    DenseSlice& s = *new DenseSlice(l, tsl::ordered_set<PatchId>{ 0, 1 });
    if (sx_config_int("OBSTACLES", 1)) for (int i = 0; i < ncell; ++i) { if (i == pa || i == pb) continue; Cell c = cell(i);
        s.cells[c.row][c.col] = DensePatch{ Patch{ PatchType::Dead, PatchActivity::Dead }, CellBoundaries{ { BoundaryType::None, false }, { BoundaryType::None, false }, { BoundaryType::None, false }, { BoundaryType::None, false } } }; set_occupied(s.cells[c.row][c.col], sx_bool("occupied")); }
    // The operation; sometimes on a patch that is missing or busy, or with an id that is taken.
    Cell a = cell(pa), b = cell(pb); PatchId ida = 0, idb = 1, s1 = 50, s2 = 51; int odd = sx_config_int("ODD", 0) ? sx_choice("odd", 8) : 0;
    if (odd == 1) ida = 9; if (odd == 2) idb = 9;
    if (odd == 3 || odd == 4) s.patch_at(odd == 3 ? a : b)->activity = PatchActivity::Unitary;
    if (odd == 5 || odd == 6) { auto& p = s.patch_at(odd == 5 ? a : b)->boundaries; side_mut(p, sx_choice("joined side", 4)).is_active = true; }
    if (odd == 7) { if (sx_flag("first taken")) s1 = sx_flag("which"); else s2 = sx_flag("which"); }
    PauliOperator oa = PauliOperator::Z, ob = PauliOperator::X; LSInstruction i; bool self = what == 1 && sx_config_int("SELF", 0); if (self) { idb = ida; b = a; }
    if (what == 0) { BellBasedCNOT x{}; x.control = ida; x.target = idb; x.side1 = s1; x.side2 = s2; i.operation = x; }
    else { oa = sx_flag("op1") ? PauliOperator::X : PauliOperator::Z; ob = sx_flag("op2") ? PauliOperator::X : PauliOperator::Z; if (self) sx_assume(oa != ob); BellPairInit x{}; x.side1 = s1; x.side2 = s2; x.loc1 = PlaceNexTo{ ida, oa }; x.loc2 = PlaceNexTo{ idb, ob }; i.operation = x; }
    i.wait_at_most_for = 3;
    Snap first(s); int len = route_length(first, a, oa, b, ob);
    bool can = len >= 2 && odd != 1 && odd != 2 && odd != 7 && (what == 1 || odd < 3);
    Model m; m.all = sx_config_int("OUTCOMES", 1); std::vector<int> keep; int ref[2], q[2];
    for (int k = 0; k < 2; ++k) { ref[k] = m.s.add(1, 0); q[k] = m.s.add(1, 0); m.s.h(ref[k]); m.s.cx(ref[k], q[k]); const Cell& c = k ? cell(pb) : cell(pa); m.at[c] = q[k]; m.id[c] = PatchId(k); m.data.insert(c); }
    std::set<Cell> touched; size_t done = 0, total = 0; Cell A = cell(pa), B = cell(pb);
    for (int layer = 1; ; ++layer) {
        sx_assert(layer <= 2, "a long-range operation has two layers"); if (layer > 2) return;
        Snap was(s); bool refused = false; std::vector<LSInstruction> follow;
        try { auto r = try_apply_instruction_direct_followup(s, i, true, false, false, l, router); refused = (bool) r.maybe_error; follow = r.followup_instructions; } catch (const std::runtime_error&) { refused = true; }
        Snap now(s); sx_assert(ids_unique(now), "every patch id is on at most one cell");
        if (layer == 1) { sx_assert(refused == !can, "a long-range operation is refused exactly when it cannot be performed"); if (refused) { sx_assert(same_snap(was, now) && follow.empty(), "an operation that cannot be performed leaves the slice as it was"); sx_reach("refused"); sx_reach("end"); return; } }
        sx_assert(!refused, "the second layer can always be performed"); if (refused) return;
        std::vector<LocalLSInstruction> ops; size_t upto = 0;
        if (what == 0) { auto& x = std::get<BellBasedCNOT>(i.operation); ops = x.local_instruction_sets.value().at(0); upto = x.counter_pairs.value().at(0).second; } else { auto& x = std::get<BellPairInit>(i.operation); ops = x.local_instructions.value(); upto = x.counter.value().second; }
        total = ops.size(); sx_assert(upto > done && upto <= total, "every layer performs operations");
        std::set<Cell> used, measured; for (size_t k = done; k < upto && k < total; ++k) { execute(m, ops[k], was, now, used, measured, [&](const Cell& c) { return was.at(c).has_value(); }, [&](const Cell& c) { return was.free(c); }); if (m.impossible) { sx_assume(false); return; } }
        done = upto; touched.insert(used.begin(), used.end());
        sx_assert(same_except(was, now, std::vector<Cell>(used.begin(), used.end())) && same_rest(was, now), "a long-range operation disturbs no other patch");
        for (auto& c : used) if (!measured.count(c)) { const Held& h = now.at(c); sx_assert(h && m.at.count(c) && h->type == PatchType::Qubit && h->id == m.id[c], "the cells of a long-range operation hold the patches it creates"); }
        sx_assert(follow.empty() == (done == total) && follow.size() <= 1, "a long-range operation goes on until it is complete"); if (!follow.empty()) i = follow[0];
        take_step(s, used); if (done == total) break;
    }
    Snap end(s); int cells = 0; for (auto& c : touched) cells += !(c == A) && !(c == B); sx_assert(cells == len, "the operations act along one shortest route");
    if (what == 0) {
        sx_assert(same_snap(first, end), "after a CNOT the lattice is as it was");
        sx_assert(m.at.size() == 2, "every intermediate cell is measured out");
        sim::State w; int x[4]; for (int k = 0; k < 2; ++k) { x[2 * k] = w.add(1, 0); x[2 * k + 1] = w.add(1, 0); w.h(x[2 * k]); w.cx(x[2 * k], x[2 * k + 1]); } w.cx(x[1], x[3]);
        sx_assert(m.s.n == 4 && sim::same_up_to_pauli(m.s, w, { 1, 3 }), "the local operations amount to the CNOT"); sx_reach("cnot");
    } else {
        auto e1 = end.find(s1), e2 = end.find(s2); sx_assert(e1 && e2 && m.at.size() == 4, "the two ends of a Bell pair are left behind"); if (!e1 || !e2) return;
        sx_assert(same_except(first, end, { *e1, *e2 }) && same_rest(first, end), "apart from its ends a Bell pair leaves the lattice as it was");
        sx_assert(fresh_patch(end.at(*e1), s1) && fresh_patch(end.at(*e2), s2), "the ends of a Bell pair are fresh patches");
        auto beside = [&](const Cell& e, const Cell& d, PauliOperator o) { int k = side_towards(d, e); return k >= 0 && carries(first, d, k, o); };
        sx_assert(beside(*e1, a, oa) && beside(*e2, b, ob), "the ends of a Bell pair are where they were asked for");
        sim::State w; for (int k = 0; k < 2; ++k) { int r = w.add(1, 0), t = w.add(1, 0); w.h(r); w.cx(r, t); } int y = w.add(1, 0), z = w.add(1, 0); w.h(y); w.cx(y, z);
        sx_assert(m.s.n == 6 && sim::same_up_to_pauli(m.s, w, { 5 }), "the local operations amount to a Bell pair"); sx_reach("bell");
    }
    sx_reach(len % 2 ? "odd route" : "even route"); sx_reach("end");
}

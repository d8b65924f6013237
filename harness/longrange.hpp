// Executes the local operations of long-range Bell pairs and CNOTs (C10, C11).
#pragma once
#include "lattice.hpp"
#include "sim.hpp"
#include <functional>

namespace sxh {
using namespace lsqecc; using LocalInstruction::LocalLSInstruction;
struct Model {
    sim::State s; std::map<Cell, int> at; std::map<Cell, std::optional<PatchId>> id; std::set<Cell> data; bool impossible = false, all = true;
    bool outcome() { return all ? sx_flag("outcome") : false; }
    void gone(const Cell& c) { int q = at[c]; sx_assert(s.drop(q), "harness: a measured patch is still entangled"); at.erase(c); id.erase(c); for (auto& p : at) if (p.second > q) --p.second; }
    void project(std::vector<std::pair<int, PauliOperator>> ps) { if (!s.project(ps, outcome())) impossible = true; }
};
inline const CellBoundaries& sides(const Snap& s, const Cell& c) { return s.at(c)->boundaries; }
// Executes one operation; the cells it uses are added to `used`, and the slice must show its effect. `was` gives the sides of the data patches,
// `held` and `vacant` tell what was on a cell before.
inline void execute(Model& m, const LocalLSInstruction& op, const Snap& was, const Snap& now, std::set<Cell>& used, std::set<Cell>& measured, const std::function<bool(const Cell&)>& held, const std::function<bool(const Cell&)>& vacant) {
    std::vector<Cell> cells;
    auto two = [&](const Cell& a, const Cell& b) {
        sx_assert(adjacent(a, b) && inside(a, was.far) && inside(b, was.far), "local operations act on neighbouring cells of the lattice");
        for (auto& c : { a, b }) sx_assert(used.insert(c).second, "no cell is used twice within a layer");
        bool j = adjacent(a, b) && now.at(a) && now.at(b) && side(sides(now, a), side_towards(a, b)).is_active && side(sides(now, b), side_towards(b, a)).is_active; sx_assert(j, "the two cells of a local operation are joined");
    };
    auto there = [&](const Cell& c) { bool b = m.at.count(c) && held(c); sx_assert(b, "a local operation acts on patches that are there"); return b; };
    auto empty = [&](const Cell& c) { bool b = !m.at.count(c) && vacant(c); sx_assert(b, "a local operation creates patches on free cells"); return b; };
    auto new_patch = [&](const Cell& c, int q, std::optional<PatchId> i) { m.at[c] = q; m.id[c] = i; };
    // the operator of a data patch's side towards a cell
    auto op_of = [&](const Cell& d, const Cell& c) { sx_assert(m.data.count(d) != 0, "merges and splits act on the two named patches"); return side(sides(was, d), side_towards(d, c)).boundary_type == BoundaryType::Rough ? PauliOperator::X : PauliOperator::Z; };
    auto other_op = [](PauliOperator p) { return p == PauliOperator::X ? PauliOperator::Z : PauliOperator::X; };
    auto mark = [&](const Cell& c) { measured.insert(c); sx_assert(now.at(c) && now.at(c)->activity == PatchActivity::Measurement, "cells measured out are marked as measurement"); };
    if (auto* x = std::get_if<LocalInstruction::BellPrepare>(&op.operation)) {
        two(x->cell1, x->cell2); if (!empty(x->cell1) || !empty(x->cell2)) return;
        int a = m.s.add(1, 0), b = m.s.add(1, 0); m.s.h(a); m.s.cx(a, b); new_patch(x->cell1, a, x->side1); new_patch(x->cell2, b, x->side2);
    } else if (auto* x = std::get_if<LocalInstruction::BellMeasure>(&op.operation)) {
        two(x->cell1, x->cell2); if (!there(x->cell1) || !there(x->cell2)) return;
        sx_assert(!m.data.count(x->cell1) && !m.data.count(x->cell2), "the two named patches are not measured out");
        m.project({ { m.at[x->cell1], PauliOperator::X }, { m.at[x->cell2], PauliOperator::X } }); m.project({ { m.at[x->cell1], PauliOperator::Z }, { m.at[x->cell2], PauliOperator::Z } }); if (m.impossible) return;
        int a = m.at[x->cell1], b = m.at[x->cell2]; m.s.cx(a, b); m.s.h(a); m.s.reduce(); m.gone(x->cell1); m.gone(x->cell2); mark(x->cell1); mark(x->cell2);
    } else if (auto* x = std::get_if<LocalInstruction::Move>(&op.operation)) {
        two(x->source_cell, x->target_cell); if (!there(x->source_cell) || !empty(x->target_cell)) return;
        sx_assert(!m.data.count(x->source_cell), "the two named patches do not move");
        int q = m.at[x->source_cell]; auto i = x->new_id_for_target ? x->new_id_for_target : m.id[x->source_cell]; m.at.erase(x->source_cell); m.id.erase(x->source_cell); new_patch(x->target_cell, q, i); mark(x->source_cell); sx_assert(!now.at(x->source_cell)->id, "a patch that was moved has its id at the new place only");
    } else if (auto* x = std::get_if<LocalInstruction::ExtendSplit>(&op.operation)) {
        two(x->target_cell, x->extension_cell); if (!there(x->target_cell) || !empty(x->extension_cell)) return;
        PauliOperator p = op_of(x->target_cell, x->extension_cell); int q = m.s.add(1, p == PauliOperator::Z ? 1 : 0); m.project({ { m.at[x->target_cell], p }, { q, p } }); new_patch(x->extension_cell, q, x->extension_id);
    } else if (auto* x = std::get_if<LocalInstruction::MergeContract>(&op.operation)) {
        two(x->preserved_cell, x->measured_cell); if (!there(x->preserved_cell) || !there(x->measured_cell)) return;
        PauliOperator p = op_of(x->preserved_cell, x->measured_cell); sx_assert(!m.data.count(x->measured_cell), "the two named patches are not measured out");
        m.project({ { m.at[x->preserved_cell], p }, { m.at[x->measured_cell], p } }); if (m.impossible) return; m.project({ { m.at[x->measured_cell], other_op(p) } }); if (m.impossible) return;
        m.gone(x->measured_cell); mark(x->measured_cell);
    } else sx_assert(false, "long-range operations consist of Bell pairs, Bell measurements, moves, merges and splits");
}
}

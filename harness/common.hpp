// Shared pieces of the harnesses: a minimal layout, a slice whose contents are solver variables, small oracles.
#pragma once
#include "sx.h"
#include <lsqecc/layout/layout.hpp>
#include <lsqecc/patches/dense_slice.hpp>
#include <lsqecc/patches/slice.hpp>
#include <string>
#include <vector>

namespace sxh {
using namespace lsqecc;

struct GridLayout : public Layout {
    Cell far{0, 0};
    std::vector<SparsePatch> core;
    std::vector<MultipleCellsOccupiedByPatch> regions;
    std::vector<std::vector<Cell>> distilled;
    DistillationTimeMap times;
    std::vector<Cell> ancilla, dead, reserved, ystates;
    bool reserve_magic = false;
    const std::vector<SparsePatch>& core_patches() const override { return core; }
    Cell furthest_cell() const override { return far; }
    const std::vector<MultipleCellsOccupiedByPatch>& distillation_regions() const override { return regions; }
    const std::vector<Cell>& distilled_state_locations(size_t i) const override { return distilled.at(i); }
    const DistillationTimeMap& distillation_times() const override { return times; }
    const std::vector<Cell>& ancilla_location() const override { return ancilla; }
    const std::vector<Cell>& dead_location() const override { return dead; }
    const std::vector<Cell>& reserved_for_magic_states() const override { return reserved; }
    const std::vector<Cell>& predistilled_y_states() const override { return ystates; }
    const bool magic_states_reserved() const override { return reserve_magic; }
};

inline int adist(const Cell& a, const Cell& b) { int r = a.row - b.row, c = a.col - b.col; return (r < 0 ? -r : r) + (c < 0 ? -c : c); }
inline bool adjacent(const Cell& a, const Cell& b) { return adist(a, b) == 1; }
// 0 top, 1 bottom, 2 left, 3 right; the side of a that faces b, or -1
inline int side_towards(const Cell& a, const Cell& b) {
    if (b.row == a.row - 1 && b.col == a.col) return 0;
    if (b.row == a.row + 1 && b.col == a.col) return 1;
    if (b.row == a.row && b.col == a.col - 1) return 2;
    if (b.row == a.row && b.col == a.col + 1) return 3;
    return -1;
}
inline const Boundary& side(const CellBoundaries& b, int k) { return k == 0 ? b.top : k == 1 ? b.bottom : k == 2 ? b.left : b.right; }
inline Cell step(const Cell& a, int k) { return k == 0 ? Cell{a.row - 1, a.col} : k == 1 ? Cell{a.row + 1, a.col} : k == 2 ? Cell{a.row, a.col - 1} : Cell{a.row, a.col + 1}; }
inline bool inside(const Cell& c, const Cell& far) { return c.row >= 0 && c.col >= 0 && c.row <= far.row && c.col <= far.col; }
inline BoundaryType btype_for(PauliOperator op) { return op == PauliOperator::X ? BoundaryType::Rough : BoundaryType::Smooth; }
inline CellBoundaries square_boundaries(bool rough_top = true) {
    BoundaryType v = rough_top ? BoundaryType::Rough : BoundaryType::Smooth, h = rough_top ? BoundaryType::Smooth : BoundaryType::Rough;
    return CellBoundaries{ { v, false }, { v, false }, { h, false }, { h, false } };
}
inline void note(const std::string& s) { if (!sx_symbolic_mode()) sx_note(s.data(), s.size()); }
} // namespace sxh

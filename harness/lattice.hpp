// What an instruction may do to a slice: relations between the slice before and after, shared by the lattice harnesses.
#pragma once
#include "common.hpp"
#include <lsqecc/layout/router.hpp>
#include <lsqecc/patches/dense_patch_computation.hpp>
#include <cstring>
#include <deque>
#include <set>

namespace sxh {
// What a cell holds, copied without looking at it (whether it holds anything may be a solver variable).
struct Pod { PatchType type; PatchActivity activity; std::optional<PatchId> id; CellBoundaries boundaries; };
struct Held {
    Pod p; bool engaged = false;
    bool has_value() const { return engaged; }
    explicit operator bool() const { return engaged; }
    const Pod& operator*() const { return p; } Pod& operator*() { return p; }
    const Pod* operator->() const { return &p; }
    Held() { memset((void*) &p, 0, sizeof p); }
    Held(const Pod& q) : p(q), engaged(true) {}
    explicit Held(const std::optional<DensePatch>& o) {
        const DensePatch* d = reinterpret_cast<const DensePatch*>(&o);         // the payload comes first, then the flag
        memset((void*) &p, 0, sizeof p); p.type = d->type; p.activity = d->activity; memcpy((void*) &p.id, &d->id, sizeof p.id); p.boundaries = d->boundaries; memcpy(&engaged, (const char*) &o + sizeof(DensePatch), 1);
    }
};
static_assert(sizeof(std::optional<DensePatch>) == sizeof(DensePatch) + alignof(DensePatch));
inline void set_occupied(std::optional<DensePatch>& o, bool b) { memcpy((char*) &o + sizeof(DensePatch), &b, 1); }   // o was given its content before
struct Snap {
    std::vector<std::vector<Held>> cells; std::set<Cell> magic; DistillationTimeMap times; unsigned yavail; Cell far;
    explicit Snap(const DenseSlice& s) : magic(s.magic_states), times(s.time_to_next_magic_state_by_distillation_region), yavail(s.predistilled_ystates_available), far(s.get_layout().furthest_cell()) { for (auto& r : s.cells) { cells.emplace_back(); cells.back().reserve(r.size()); for (auto& c : r) cells.back().emplace_back(Held(c)); } }
    Held& at(const Cell& c) { return cells[c.row][c.col]; }
    const Held& at(const Cell& c) const { return cells[c.row][c.col]; }
    bool free(const Cell& c) const { return !at(c).engaged; }
    std::optional<Cell> find(PatchId id) const { for (int r = 0; r <= far.row; ++r) for (int c = 0; c <= far.col; ++c) { const Held& h = cells[r][c]; if (h.p.id == std::optional<PatchId>(id) && h.engaged) return Cell{ r, c }; } return std::nullopt; }
    bool has(PatchId id) const { return find(id).has_value(); }
    template<class F> void each(F f) const { for (int r = 0; r <= far.row; ++r) for (int c = 0; c <= far.col; ++c) f(Cell{ r, c }); }
};
inline bool same_bounds(const CellBoundaries& a, const CellBoundaries& b) { return a == b; }
inline bool same_patch(const Held& a, const Held& b) {
    bool x = a.p.type == b.p.type, y = a.p.activity == b.p.activity, z = a.p.id == b.p.id, w = a.p.boundaries == b.p.boundaries;
    return !(a.engaged ^ b.engaged) & (!a.engaged | (x & y & z & w));
}
inline bool same_rest(const Snap& a, const Snap& b) { return a.magic == b.magic && a.times == b.times && a.yavail == b.yavail; }
// Every cell but those listed is as it was.
inline bool same_except(const Snap& a, const Snap& b, const std::vector<Cell>& ex = {}) {
    bool ok = true;
    a.each([&](const Cell& c) { for (auto& e : ex) if (e == c) return; ok &= same_patch(a.at(c), b.at(c)); });
    return ok;
}
inline bool same_snap(const Snap& a, const Snap& b) { return same_except(a, b) && same_rest(a, b); }
inline bool ids_unique(const Snap& s) {
    std::set<PatchId> seen; bool ok = true;
    s.each([&](const Cell& c) { if (s.at(c)->id && s.at(c)) ok = seen.insert(*s.at(c)->id).second && ok; });
    return ok;
}
template<class D> bool busy(const D& p) { return p.activity != PatchActivity::None || p.boundaries.top.is_active || p.boundaries.bottom.is_active || p.boundaries.left.is_active || p.boundaries.right.is_active; }
inline Boundary& side_mut(CellBoundaries& b, int k) { return k == 0 ? b.top : k == 1 ? b.bottom : k == 2 ? b.left : b.right; }
inline bool carries(const Snap& s, const Cell& c, int k, PauliOperator op) { return s.at(c) && side(s.at(c)->boundaries, k).boundary_type == btype_for(op); }
// Cells of a shortest route between two patches through free cells; -1 when there is none. From a patch to itself at least one cell is needed.
inline int route_length(const Snap& s, const Cell& a, PauliOperator oa, const Cell& b, PauliOperator ob) {
    int cols = s.far.col + 1; auto idx = [&](const Cell& c) { return c.row * cols + c.col; }; bool self = a == b;
    std::vector<int> d((s.far.row + 1) * cols, -1); std::deque<Cell> q;
    for (int k = 0; k < 4; ++k) {
        Cell n = step(a, k); if (!inside(n, s.far) || !carries(s, a, k, oa)) continue;
        if (!self && n == b) { if (carries(s, b, side_towards(b, a), ob)) return 0; continue; }
        if (s.free(n)) { d[idx(n)] = 1; q.push_back(n); }
    }
    while (!q.empty()) {
        Cell c = q.front(); q.pop_front();
        int kb = side_towards(b, c); if (kb >= 0 && carries(s, b, kb, ob)) return d[idx(c)];
        for (int k = 0; k < 4; ++k) { Cell n = step(c, k); if (!inside(n, s.far) || !s.free(n) || d[idx(n)] >= 0) continue; d[idx(n)] = d[idx(c)] + 1; q.push_back(n); }
    }
    return -1;
}
inline CellBoundaries fresh_sides() { return CellBoundaries{ { BoundaryType::Smooth, false }, { BoundaryType::Smooth, false }, { BoundaryType::Rough, false }, { BoundaryType::Rough, false } }; }
inline bool fresh_patch(const Held& p, PatchId id) { return p && p->type == PatchType::Qubit && p->activity == PatchActivity::None && p->id == std::optional<PatchId>(id) && p->boundaries == fresh_sides(); }
inline BoundaryType other(BoundaryType t) { return t == BoundaryType::Rough ? BoundaryType::Smooth : t == BoundaryType::Smooth ? BoundaryType::Rough : t; }
// The four sides with the two kinds exchanged, none of them joined.
inline bool turned(const CellBoundaries& now, const CellBoundaries& was) { for (int k = 0; k < 4; ++k) if (side(now, k).boundary_type != other(side(was, k).boundary_type) || side(now, k).is_active) return false; return true; }

// The slice after a joint measurement of the sides oa of a and ob of b (a == b: the two sides of one patch), given the slice before.
inline void check_joined(const Snap& was, const Snap& now, const Cell& a, PauliOperator oa, const Cell& b, PauliOperator ob) {
    int len = route_length(was, a, oa, b, ob); bool self = a == b;
    std::vector<Cell> marked; now.each([&](const Cell& c) { if (was.at(c).engaged ^ now.at(c).engaged && was.free(c)) marked.push_back(c); });
    sx_assert(len >= 0, "a joint measurement needs a route");
    sx_assert((int) marked.size() == len, "the region has as many cells as a shortest route");
    // Which sides changed from not joined to joined, per cell; every other property of the two patches is as it was.
    auto newly = [&](const Cell& c, int k) { return side(now.at(c)->boundaries, k).is_active && !side(was.at(c)->boundaries, k).is_active; };
    int joinA = 0, joinB = 0, kA = -1, kB = -1;
    for (int k = 0; k < 4; ++k) { if (newly(a, k)) { ++joinA; kA = k; } if (newly(b, k)) { ++joinB; kB = k; } }
    for (const Cell& c : { a, b }) { Pod x = *now.at(c), y = *was.at(c); for (int k = 0; k < 4; ++k) if (newly(c, k)) side_mut(x.boundaries, k).is_active = false; sx_assert(x.type == y.type && x.activity == y.activity && x.id == y.id && x.boundaries == y.boundaries, "the measured patches keep their own sides and ids"); }
    std::vector<Cell> ex = marked; ex.push_back(a); ex.push_back(b);
    sx_assert(same_except(was, now, ex) && same_rest(was, now), "a joint measurement leaves all other cells as they were");
    for (auto& c : marked) {
        const Pod& p = *now.at(c);
        sx_assert(p.type == PatchType::Routing && p.activity == PatchActivity::MultiPatchMeasurement && !p.id, "region cells are marked as measurement");
        for (int k = 0; k < 4; ++k) sx_assert(side(p.boundaries, k).boundary_type == (side(p.boundaries, k).is_active ? BoundaryType::Connected : BoundaryType::None), "region cells have only the joined sides");
    }
    if (self) {
        if (len == 1) { sx_assert(false, "one cell cannot touch two kinds of sides of one patch"); return; }
        sx_assert(joinA == 2, "both ends are joined");
        int kx = -1, kz = -1; for (int k = 0; k < 4; ++k) if (newly(a, k)) { if (carries(was, a, k, oa) && kx < 0) kx = k; else kz = k; }
        sx_assert(kx >= 0 && kz >= 0 && carries(was, a, kx, oa) && carries(was, a, kz, ob), "the ends are joined at sides carrying the operators");
        kA = kx; kB = kz;
    } else {
        sx_assert(joinA == 1 && joinB == 1, "both ends are joined, each at one side");
        sx_assert(carries(was, a, kA, oa) && carries(was, b, kB, ob), "the ends are joined at sides carrying the measured operators");
    }
    // Walk from a to b through joined sides; every marked cell is visited once.
    Cell prev = a, cur = step(a, kA); int seen = 0;
    while (true) {
        if (cur == b) { sx_assert(side_towards(b, prev) == kB && seen == (int) marked.size(), "the region connects the two patches"); return; }
        bool in = false; for (auto& c : marked) if (c == cur) in = true;
        sx_assert(in && seen < (int) marked.size(), "the region connects the two patches"); if (!in || seen >= (int) marked.size()) return;
        ++seen; int back = side_towards(cur, prev), out = -1, n = 0;
        for (int k = 0; k < 4; ++k) if (side(now.at(cur)->boundaries, k).is_active) { ++n; if (k != back) out = k; }
        sx_assert(n == 2 && side(now.at(cur)->boundaries, back).is_active && out >= 0, "region cells are joined to the cells before and after"); if (out < 0) return;
        prev = cur; cur = step(cur, out); if (!inside(cur, now.far)) { sx_assert(false, "the region lies on the lattice"); return; }
    }
}
} // namespace sxh

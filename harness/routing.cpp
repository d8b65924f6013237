// C01: routes. Every occupancy of a grid, every arrangement of the two patches' sides.
#include "common.hpp"
#include <lsqecc/layout/router.hpp>
#include <deque>
using namespace lsqecc; using namespace sxh;

namespace {
struct SymSlice : public Slice {
    GridLayout layout; Cell src, dst; int cols;
    std::vector<char> freec, edpc;      // per cell (symbolic)
    bool hs[4], ht[4];           // does side k of the source/target match the wanted operator
    std::vector<char> resh, resv;       // reserved inner boundaries (EDPC)
    int idx(const Cell& c) const { return c.row * cols + c.col; }
    const Layout& get_layout() const override { return layout; }
    bool has_patch(PatchId id) const override { return id == 1 || id == 2; }
    std::optional<Cell> get_cell_by_id(const PatchId id) const override { if (id == 1) return src; if (id == 2) return dst; return std::nullopt; }
    bool is_cell_free(const Cell& c) const override { return freec[idx(c)]; }
    bool is_cell_free_or_activity(const Cell& c, std::vector<PatchActivity> as) const override {
        if (freec[idx(c)]) return true;
        for (auto a : as) if (a == PatchActivity::EDPC) return edpc[idx(c)];
        return false;
    }
    std::optional<Cell> get_directional_neighbor_within_slice(const Cell& c, CellDirection d) const override { return c.get_directional_neighbor({ 0, 0 }, layout.far, d); }
    std::vector<Cell> get_neigbours_within_slice(const Cell& c) const override { return c.get_neigbours_within_bounding_box_inclusive({ 0, 0 }, layout.far); }
    bool have_boundary_of_type_with(const Cell& t, const Cell& n, PauliOperator op) const override {
        int k = side_towards(t, n); if (k < 0) return false;
        if (src == dst && t == src) return op == PauliOperator::X ? hs[k] : ht[k];
        if (t == src) return hs[k];
        if (t == dst) return ht[k];
        return false;
    }
    bool reserved(const Cell& a, const Cell& b) const {
        if (a.row == b.row) { int c = a.col < b.col ? a.col : b.col; return resh[a.row * cols + c]; }
        int r = a.row < b.row ? a.row : b.row; return resv[r * cols + a.col];
    }
    bool is_boundary_reserved(const Cell& a, const Cell& b) const override { return reserved(a, b); }
    SurfaceCodeTimestep time_to_next_magic_state(size_t) const override { return 0; }
};

struct Ref { int dist = -1; };
// Shortest number of intermediate cells between source and target, by breadth-first search; -1 if none.
int reference(const SymSlice& s, bool edpc) {
    int rows = s.layout.far.row + 1, cols = s.cols; bool self = s.src == s.dst;
    std::vector<int> d(rows * cols, -1); std::deque<Cell> q;
    auto open = [&](const Cell& c) { return s.freec[s.idx(c)] || (edpc && s.edpc[s.idx(c)]); };
    for (int k = 0; k < 4; ++k) {
        Cell n = step(s.src, k); if (!inside(n, s.layout.far)) continue;
        if (!self && n == s.dst) { int kt = side_towards(s.dst, s.src); if (s.hs[k] && s.ht[kt]) return 0; continue; }
        if (!open(n) || !s.hs[k]) continue;
        d[s.idx(n)] = 1; q.push_back(n);
    }
    while (!q.empty()) {
        Cell c = q.front(); q.pop_front();
        int kt = side_towards(s.dst, c);
        if (kt >= 0 && s.ht[kt]) return d[s.idx(c)];
        for (int k = 0; k < 4; ++k) {
            Cell n = step(c, k); if (!inside(n, s.layout.far) || n == s.src || n == s.dst || d[s.idx(n)] >= 0) continue;
            if (!open(n) || (edpc && s.reserved(c, n))) continue;
            d[s.idx(n)] = d[s.idx(c)] + 1; q.push_back(n);
        }
    }
    return -1;
}
}

extern "C" void sx_harness() {
    int rows = sx_config_int("ROWS", 3), cols = sx_config_int("COLS", 3);
    int provider = sx_config_int("PROVIDER", 0); bool edpc = sx_config_int("EDPC", 0); bool self = sx_config_int("SELF", 0); bool cached = sx_config_int("CACHED", 0);
    bool checkShort = sx_config_int("SHORT", 1);
    SymSlice s; s.cols = cols; s.layout.far = { rows - 1, cols - 1 };
    s.src = { sx_config_int("SR", 0), sx_config_int("SC", 0) }; s.dst = { sx_config_int("TR", rows - 1), sx_config_int("TC", cols - 1) };
    if (sx_config_int("ALLPOS", 0)) { int a = sx_choice("source", rows * cols); s.src = { a / cols, a % cols }; if (!self) { int b = sx_choice("target", rows * cols); sx_assume(a != b); s.dst = { b / cols, b % cols }; } }
    if (self) s.dst = s.src;
    for (int i = 0; i < rows * cols; ++i) { bool f = sx_bool("free"); s.freec.push_back(f); s.edpc.push_back(edpc ? sx_bool("edpc") : false); }
    s.freec[s.idx(s.src)] = s.freec[s.idx(s.dst)] = 0; s.edpc[s.idx(s.src)] = s.edpc[s.idx(s.dst)] = 0;
    for (int k = 0; k < 4; ++k) { s.hs[k] = sx_bool("src_side"); s.ht[k] = sx_bool("dst_side"); }
    for (int i = 0; i < rows * cols; ++i) { s.resh.push_back(edpc ? sx_bool("resh") : 0); s.resv.push_back(edpc ? sx_bool("resv") : 0); }

    CustomDPRouter r1; CachedRouter r2; Router* r = cached ? (Router*) &r2 : &r1;
    r->set_graph_search_provider(provider == 0 ? GraphSearchProvider::Djikstra : provider == 1 ? GraphSearchProvider::AStar : GraphSearchProvider::Boost);
    if (edpc) r->set_EDPC();
    PatchId a = 1, b = self ? 1 : 2;
    PauliOperator oa = PauliOperator::X, ob = PauliOperator::Z;
    auto route = r->find_routing_ancilla(s, a, oa, b, ob);
    int ref = reference(s, edpc);
    sx_assert(route.has_value() == (ref >= 0), "a route is returned exactly when one exists");
    if (!route) { sx_reach("no route"); return; }
    sx_reach("route");
    const auto& cs = route->cells;
    if (checkShort) sx_assert((int) cs.size() == ref, "the route is a shortest one");
    for (size_t i = 0; i < cs.size(); ++i) {
        sx_assert(inside(cs[i].cell, s.layout.far), "route cells lie on the lattice");
        int id = s.idx(cs[i].cell);
        sx_assert(s.freec[id] || (edpc && s.edpc[id]), "route cells are free");
        for (size_t j = 0; j < i; ++j) sx_assert(!(cs[i].cell == cs[j].cell), "route visits no cell twice");
        Cell prev = i ? cs[i - 1].cell : s.dst, next = i + 1 < cs.size() ? cs[i + 1].cell : s.src;
        sx_assert(adjacent(cs[i].cell, prev) && adjacent(cs[i].cell, next), "consecutive route cells share a side");
        if (edpc) {
            if (i) sx_assert(!s.reserved(cs[i].cell, prev), "no route crosses a reserved side");
        }
        for (int k = 0; k < 4; ++k) {
            const Boundary& bd = side(cs[i], k); Cell n = step(cs[i].cell, k);
            bool linked = n == prev || n == next;
            sx_assert(bd.is_active == linked && bd.boundary_type == (linked ? (edpc ? BoundaryType::Reserved_Label1 : BoundaryType::Connected) : BoundaryType::None), "exactly the sides along the route are joined");
        }
    }
    if (!cs.empty()) {
        sx_assert(s.ht[side_towards(s.dst, cs.front().cell)], "the route meets the target on a matching side");
        sx_assert(s.hs[side_towards(s.src, cs.back().cell)], "the route meets the source on a matching side");
    }
    auto again = r->find_routing_ancilla(s, a, oa, b, ob);
    sx_assert(again.has_value() && again->cells == route->cells, "asking again gives the same route");
}

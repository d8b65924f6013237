// C02: the router that remembers routes, against the plain router, over two different slices.
#include "common.hpp"
#include <lsqecc/layout/router.hpp>
using namespace lsqecc; using namespace sxh;

namespace {
struct SymSlice : public Slice {
    GridLayout layout; int cols = 0; Cell at[3];
    std::vector<char> freec; std::vector<char> sideX;   // sideX[cell * 4 + k]: that side carries X, else Z
    int idx(const Cell& c) const { return c.row * cols + c.col; }
    const Layout& get_layout() const override { return layout; }
    bool has_patch(PatchId id) const override { return id < 3; }
    std::optional<Cell> get_cell_by_id(const PatchId id) const override { if (id < 3) return at[id]; return std::nullopt; }
    bool patch_on(const Cell& c) const { return at[0] == c || at[1] == c || at[2] == c; }
    bool is_cell_free(const Cell& c) const override { return !patch_on(c) && freec[idx(c)]; }
    bool is_cell_free_or_activity(const Cell& c, std::vector<PatchActivity>) const override { return is_cell_free(c); }
    std::optional<Cell> get_directional_neighbor_within_slice(const Cell& c, CellDirection d) const override { return c.get_directional_neighbor({ 0, 0 }, layout.far, d); }
    std::vector<Cell> get_neigbours_within_slice(const Cell& c) const override { return c.get_neigbours_within_bounding_box_inclusive({ 0, 0 }, layout.far); }
    bool have_boundary_of_type_with(const Cell& t, const Cell& n, PauliOperator op) const override {
        int k = side_towards(t, n); if (k < 0 || !patch_on(t)) return false;
        return (bool) sideX[idx(t) * 4 + k] == (op == PauliOperator::X);
    }
    bool is_boundary_reserved(const Cell&, const Cell&) const override { return false; }
    SurfaceCodeTimestep time_to_next_magic_state(size_t) const override { return 0; }
};
struct Request { PatchId a, b; PauliOperator oa, ob; };
Request request(bool self) {
    Request r; r.a = sx_choice("from", 2); r.b = self ? r.a : sx_choice("to", 3); sx_assume(self || r.a != r.b);
    r.oa = sx_flag("from_op") ? PauliOperator::X : PauliOperator::Z; r.ob = sx_flag("to_op") ? PauliOperator::X : PauliOperator::Z; return r;
}
bool same(const std::optional<RoutingRegion>& a, const std::optional<RoutingRegion>& b) { return a.has_value() == b.has_value() && (!a || a->cells == b->cells); }
}

extern "C" void sx_harness() {
    int rows = sx_config_int("ROWS", 2), cols = sx_config_int("COLS", 3), provider = sx_config_int("PROVIDER", 0), steps = sx_config_int("STEPS", 2); bool self = sx_config_int("SELF", 0);
    CustomDPRouter plain; CachedRouter cached;
    GraphSearchProvider g = provider == 0 ? GraphSearchProvider::Djikstra : provider == 1 ? GraphSearchProvider::AStar : GraphSearchProvider::Boost;
    plain.set_graph_search_provider(g); cached.set_graph_search_provider(g);
    sx_assert(!cached.get_EDPC(), "the remembering router does no long-range parallel routing");
    bool threw = false; try { cached.set_EDPC(); } catch (const std::exception&) { threw = true; }
    sx_assert(threw, "long-range parallel routing is refused");
    struct Known { Cell a, b; PauliOperator oa, ob; RoutingRegion route; };
    std::vector<Known> known; std::vector<SymSlice> slices(steps);
    for (int t = 0; t < steps; ++t) {
        SymSlice& s = slices[t]; s.cols = cols; s.layout.far = { rows - 1, cols - 1 };
        // Three patches on three cells: the first time as configured, later exchanged in any way or with one of them on another cell.
        Cell home[3] = { { 0, 0 }, { 0, cols - 1 }, { rows - 1, cols - 1 } };
        int p = t ? sx_choice("arrangement", 6 + rows * cols) : 0; static const int perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
        for (int i = 0; i < 3; ++i) s.at[i] = home[p < 6 ? perm[p][i] : i];
        if (p >= 6) s.at[1] = { (p - 6) / cols, (p - 6) % cols };
        sx_assume(!(s.at[1] == s.at[0]) && !(s.at[1] == s.at[2]));
        for (int i = 0; i < rows * cols; ++i) { s.freec.push_back(sx_bool("free")); bool v = sx_bool("sides"); for (int k = 0; k < 4; ++k) s.sideX.push_back((k < 2) == v); }
        Request r = request(self);
        auto got = cached.find_routing_ancilla(s, r.a, r.oa, r.b, r.ob);
        const Known* k = nullptr; for (auto& q : known) if (q.a == s.at[r.a] && q.b == s.at[r.b] && q.oa == r.oa && q.ob == r.ob) k = &q;
        if (k) {
            sx_assert(got.has_value() && got->cells == k->route.cells, "a request made before is answered with the same route"); sx_reach("remembered");
        } else {
            auto fresh = plain.find_routing_ancilla(s, r.a, r.oa, r.b, r.ob);
            sx_assert(same(got, fresh), "a new request is answered like by the plain router");
            if (got) { known.push_back({ s.at[r.a], s.at[r.b], r.oa, r.ob, *got }); sx_reach("found"); } else sx_reach("none");
            // A change to the answer in the caller's hands does not change what is remembered.
            if (got && !got->cells.empty()) { got->cells[0].top.is_active = !got->cells[0].top.is_active; got->routing_region_id = 77; auto again = cached.find_routing_ancilla(s, r.a, r.oa, r.b, r.ob); sx_assert(same(again, fresh), "what is remembered does not change with the answer handed out"); }
        }
    }
}

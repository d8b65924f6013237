// C29: queries of cells, patches and slices against what the slice holds. The contents (what a cell holds, sides, ids) and the cells asked about
// are solver variables.
#include "lattice.hpp"
#include <lsqecc/patches/sparse_slice.hpp>
#include <sstream>
#include <algorithm>
using namespace lsqecc; using namespace sxh;
namespace {
const BoundaryType kinds[] = { BoundaryType::None, BoundaryType::Connected, BoundaryType::Rough, BoundaryType::Smooth, BoundaryType::Reserved_Label1, BoundaryType::Reserved_Label2 };
const BoundaryType opposite[] = { BoundaryType::Connected, BoundaryType::None, BoundaryType::Smooth, BoundaryType::Rough, BoundaryType::Reserved_Label2, BoundaryType::Reserved_Label1 };
const CellDirection dirs[] = { CellDirection::top, CellDirection::bottom, CellDirection::left, CellDirection::right };
Boundary some_side() { Boundary b; uint8_t t = (uint8_t) sx_uint("side", 0, 5); bool a = sx_bool("joined"); b.boundary_type = BoundaryType(t); b.is_active = a; return b; }
CellBoundaries some_sides() { CellBoundaries b; b.top = some_side(); b.bottom = some_side(); b.left = some_side(); b.right = some_side(); return b; }
bool reserved(const Boundary& b) { return b.boundary_type == BoundaryType::Reserved_Label1 || b.boundary_type == BoundaryType::Reserved_Label2; }
bool joined(const CellBoundaries& b) { return b.top.is_active | b.bottom.is_active | b.left.is_active | b.right.is_active; }
bool throws(const std::function<void()>& f) { try { f(); } catch (const std::exception&) { return true; } return false; }

void geometry() {
    int r = sx_int("row", -1000, 1000), c = sx_int("col", -1000, 1000); Cell at{ r, c };
    auto all = at.get_neigbours(); sx_assert(all.size() == 4, "a cell has four neighbours");
    for (size_t i = 0; i < all.size(); ++i) { sx_assert(adjacent(at, all[i]), "neighbours are one step away"); for (size_t j = 0; j < i; ++j) sx_assert(!(all[i] == all[j]), "neighbours are named once"); }
    int r0 = sx_int("origin row", -1000, 1000), c0 = sx_int("origin col", -1000, 1000), r1 = sx_int("far row", -1000, 1000), c1 = sx_int("far col", -1000, 1000);
    sx_assume((r0 <= r) & (r <= r1) & (c0 <= c) & (c <= c1)); Cell o{ r0, c0 }, far{ r1, c1 };
    auto in = at.get_neigbours_within_bounding_box_inclusive(o, far);
    for (int k = 0; k < 4; ++k) {
        Cell n = step(at, k); bool inside = (n.row >= r0) & (n.row <= r1) & (n.col >= c0) & (n.col <= c1); int times = 0; for (auto& x : in) times += x == n;
        sx_assert(times == int(inside), "the neighbours on the lattice are those inside it, each once");
        auto d = at.get_directional_neighbor(o, far, dirs[k]); sx_assert(d.has_value() == inside, "there is a neighbour in a direction when it is on the lattice"); if (d) sx_assert(*d == n, "the neighbour in a direction is the cell in that direction");
    }
    sx_assert(in.size() <= 4, "no other cells are neighbours"); for (auto& x : in) sx_assert(adjacent(at, x), "no other cells are neighbours");
    for (int k = 0; k < 4; ++k) { sx_assert(!dirs[k] == dirs[k ^ 1], "the opposite direction"); }
    for (int k = 0; k < 6; ++k) sx_assert(!kinds[k] == opposite[k], "the other kind of side");
    sx_assert(boundary_for_operator(PauliOperator::X) == BoundaryType::Rough && boundary_for_operator(PauliOperator::Z) == BoundaryType::Smooth, "the side that carries an operator");
    sx_assert(throws([] { boundary_for_operator(PauliOperator::Y); }) && throws([] { boundary_for_operator(PauliOperator::I); }), "no side carries Y or I alone");
    int r2 = sx_int("other row", -1000, 1000), c2 = sx_int("other col", -1000, 1000); Cell b{ r2, c2 }; bool lt = at < b, gt = b < at, eq = at == b; sx_assert((int) lt + (int) gt + (int) eq == 1, "cells are ordered"); sx_assert(lt == (r < r2 || (r == r2 && c < c2)), "cells are ordered by row, then column");
    sx_reach("geometry");
}
void patch_sides() {
    int r = sx_int("row", -1000, 1000), c = sx_int("col", -1000, 1000), r2 = sx_int("other row", -1001, 1001), c2 = sx_int("other col", -1001, 1001); Cell n{ r2, c2 };
    SingleCellOccupiedByPatch p; static_cast<CellBoundaries&>(p) = some_sides(); p.cell = Cell{ r, c }; const SingleCellOccupiedByPatch was = p; int k = side_towards(p.cell, n);
    auto b = p.get_boundary_with(n); sx_assert(b.has_value() == (k >= 0), "sides are towards neighbours"); if (b) sx_assert(*b == side(was, k), "the side towards a neighbour is the one facing it");
    bool x = sx_bool("op"); PauliOperator op = x ? PauliOperator::X : PauliOperator::Z; bool carries = p.have_boundary_of_type_with(op, n);
    bool expect = k >= 0 && side(was, k < 0 ? 0 : k).boundary_type == btype_for(op); sx_assert(carries == expect, "a side carries an operator when it is of that kind");
    sx_assert(p == was, "asking changes nothing");
    sx_assert(p.has_active_boundary() == joined(was), "a cell is joined when one of its sides is");
    Boundary nb = some_side();
    { auto q = p; auto m = q.get_mut_boundary_with(n); sx_assert(m.has_value() == (k >= 0), "sides are towards neighbours"); if (m) { m->get() = nb; auto e = was; side_mut(e, k) = nb; sx_assert(q == e, "changing a side changes that side and no other"); sx_reach("changed"); } }
    { auto q = p; auto m = q.get_boundary_reference_with(n); sx_assert(m.has_value() == (k >= 0), "sides are towards neighbours"); if (m) { **m = nb; auto e = was; side_mut(e, k) = nb; sx_assert(q == e, "changing a side changes that side and no other"); } }
    auto q = p; q.instant_rotate(); sx_assert(q.right == was.top && q.top == was.left && q.left == was.bottom && q.bottom == was.right && q.cell == was.cell, "turning a patch moves every side to the next one clockwise");
    // Patches of one cell, dense and sparse
    Patch head; uint8_t t = (uint8_t) sx_uint("type", 0, 4), a = (uint8_t) sx_uint("activity", 0, 8); head.type = PatchType(t); head.activity = PatchActivity(a); bool named = sx_flag("named"); if (named) { PatchId id = sx_uint("id", 0, 1u << 30); head.id = id; }
    SparsePatch sp{ head, was }; DensePatch d = DensePatch::from_sparse_patch(sp); sx_assert(d.type == head.type && d.activity == head.activity && d.id == head.id && d.boundaries == static_cast<const CellBoundaries&>(was), "a patch is the same in both representations");
    SparsePatch back = d.to_sparse_patch(p.cell); sx_assert(back.type == head.type && back.activity == head.activity && back.id == head.id && std::get<SingleCellOccupiedByPatch>(back.cells) == was, "a patch is the same in both representations");
    bool active = (a != (uint8_t) PatchActivity::None) | joined(was); sx_assert(sp.is_active() == active && d.is_active() == active, "a patch is active when something is done to it or a side is joined");
    auto cells = sp.get_cells(); sx_assert(cells.size() == 1 && cells[0] == p.cell && sp.get_a_cell() == p.cell, "the cells of a patch"); sx_reach("patch");
}
void several_cells() {
    int n = sx_config_int("CELLS", 3); SparsePatch sp; uint8_t a = (uint8_t) sx_uint("activity", 0, 8); sp.type = PatchType::Distillation; sp.activity = PatchActivity(a); MultipleCellsOccupiedByPatch m; bool any = false;
    for (int i = 0; i < n; ++i) { SingleCellOccupiedByPatch s; static_cast<CellBoundaries&>(s) = some_sides(); int r = sx_int("row", -1000, 1000), c = sx_int("col", -1000, 1000); s.cell = Cell{ r, c }; any |= joined(s); m.sub_cells.push_back(s); } sp.cells = m;
    auto cells = sp.get_cells(); sx_assert(cells.size() == m.sub_cells.size(), "the cells of a patch of several cells are its own"); if (cells.size() == m.sub_cells.size()) for (int i = 0; i < n; ++i) sx_assert(cells[i] == m.sub_cells[i].cell, "the cells of a patch of several cells are its own");
    bool one = false; for (auto& s : m.sub_cells) one |= s.cell == sp.get_a_cell(); sx_assert(one, "a cell of a patch is one of its cells");
    bool active = (a != 0) | any; sx_assert(sp.is_active() == active, "a patch is active when something is done to it or a side is joined");
    int seen = 0; sp.visit_individual_cells([&](const SingleCellOccupiedByPatch& s) { sx_assert(seen < n && s == m.sub_cells[seen], "every cell is visited"); ++seen; }); sx_assert(seen == n, "every cell is visited");
    sp.visit_individual_cells_mut([&](SingleCellOccupiedByPatch& s) { s.top.is_active = !s.top.is_active; }); for (int i = 0; i < n; ++i) { auto e = m.sub_cells[i]; e.top.is_active = !e.top.is_active; sx_assert(std::get<MultipleCellsOccupiedByPatch>(sp.cells).sub_cells[i] == e, "visiting can change cells"); }
    sx_assert(throws([&] { DensePatch::from_sparse_patch(sp); }), "a patch of several cells is not one cell"); sx_reach("several");
}
void printing() {
    static const char* types[] = { "Distillation", "PreparedState", "Qubit", "Routing", "Dead" }; static const char* acts[] = { "None", "Measurement", "Unitary", "Distillation", "Dead", "MultiPatchMeasurement", "Rotation", "EDPC", "Reserved" };
    Patch p; int t = sx_choice("type", 5), a = sx_choice("activity", 9); p.type = PatchType(t); p.activity = PatchActivity(a); bool named = sx_flag("named"); if (named) p.id = 7; bool labelled = sx_flag("labelled"); if (labelled) p.label = "T";
    std::string out; bool threw = throws([&] { std::ostringstream s; s << p; out = s.str(); }); sx_assert(!threw, "every patch can be printed");
    sx_assert(threw || out == std::string("{ type: ") + types[t] + ", activity: " + acts[a] + (named ? ", id: 7" : "") + (labelled ? ", label: T" : "") + " }", "a patch is printed as it is");
    std::ostringstream s; s << Cell{ 3, -2 }; sx_assert(s.str() == "(3,-2)", "a cell is printed as it is"); sx_reach("printed");
}
void dense() {
    int rows = sx_config_int("ROWS", 2), cols = sx_config_int("COLS", 2), part = sx_config_int("PART", 0); GridLayout l; l.far = { rows - 1, cols - 1 }; DenseSlice s(l);
    std::vector<std::pair<Cell, DensePatch>> held; std::vector<bool> is; s.traverse_cells([&](const Cell&, const std::optional<DensePatch>& p) { sx_assert(!p, "a slice is empty at first"); });
    int r = sx_choice("row", rows), c = sx_choice("col", cols); Cell here{ r, c };
    for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) {
        bool asked = part != 0 && y == r && x == c; DensePatch p; p.type = PatchType::Qubit; uint8_t a = (uint8_t) sx_uint("activity", 0, 8); p.activity = PatchActivity(a); PatchId id = 10 * y + x; if (part != 2) id = sx_uint("id", 0, 1u << 20); p.id = id; p.boundaries = asked ? some_sides() : square_boundaries(x == y); for (auto& h : held) sx_assume(*h.second.id != id);
        bool b = sx_bool("occupied"); s.cells[y][x] = p; set_occupied(s.cells[y][x], b); held.push_back({ Cell{ y, x }, p }); is.push_back(b);
    }
    Snap was(s); PatchId want = 77; if (part != 2) want = sx_uint("want", 0, 1u << 20); int at = -1; if (part == 0) for (size_t i = 0; i < held.size(); ++i) if (is[i] && *held[i].second.id == want) at = (int) i;
    const DenseSlice& cs = s;
    if (part == 0) {
    sx_assert(s.has_patch(want) == (at >= 0), "a slice has a patch when one of its cells holds it");
    auto cell = s.get_cell_by_id(want); sx_assert(cell.has_value() == (at >= 0) && (at < 0 || *cell == held[at].first), "the cell of a patch is the one that holds it");
    auto p = s.get_patch_by_id(want); auto q = cs.get_patch_by_id(want); sx_assert(p.has_value() == (at >= 0) && q.has_value() == (at >= 0), "the patch of an id is the one that has it"); if (at >= 0 && p && q) { sx_assert(&p->get() == &*s.patch_at(held[at].first) && &q->get() == &*cs.patch_at(held[at].first), "the patch of an id is the one that has it"); }
    auto sp = s.get_sparse_patch_by_id(want); sx_assert(sp.has_value() == (at >= 0), "the patch of an id is the one that has it"); if (sp && at >= 0) { auto& one = std::get<SingleCellOccupiedByPatch>(sp->cells); sx_assert(sp->id == std::optional<PatchId>(want) && one.cell == held[at].first && static_cast<CellBoundaries&>(one) == held[at].second.boundaries && sp->activity == held[at].second.activity && sp->type == PatchType::Qubit, "a patch is the same in both representations"); }
    sx_assert(same_snap(was, Snap(s)), "asking changes nothing"); s.delete_patch_by_id(want); Snap now(s); std::vector<Cell> ex; if (at >= 0) ex.push_back(held[at].first); sx_assert(same_except(was, now, ex) && same_rest(was, now), "removing a patch removes nothing else"); sx_assert(!s.has_patch(want) && (at < 0 || s.is_cell_free(held[at].first)), "a removed patch is gone"); if (at >= 0) sx_reach("removed"); return;
    }
    size_t i = size_t(r) * cols + c; bool occ = is[i]; const DensePatch& in = held[i].second;
    if (part == 1) {
    sx_assert(s.is_cell_free(here) == !occ, "a cell is free when it holds nothing");
    uint8_t a1 = (uint8_t) sx_uint("allowed", 0, 8), a2 = (uint8_t) sx_uint("allowed", 0, 8); bool ok = !occ || (uint8_t) in.activity == a1 || (uint8_t) in.activity == a2; sx_assert(s.is_cell_free_or_activity(here, { PatchActivity(a1), PatchActivity(a2) }) == ok, "a cell is available when it is free or what is done to it is listed");
    auto near = s.get_neigbours_within_slice(here); size_t expect = 0;
    for (int k = 0; k < 4; ++k) {
        Cell n = step(here, k); bool inl = inside(n, l.far); expect += inl; sx_assert((std::count(near.begin(), near.end(), n) == 1) == inl, "the neighbours on the lattice are those inside it, each once");
        auto d = s.get_directional_neighbor_within_slice(here, dirs[k]); sx_assert(d.has_value() == inl && (!inl || *d == n), "the neighbour in a direction is the cell in that direction");
        auto b = s.get_boundary_between(here, n); auto cb = cs.get_boundary_between(here, n); sx_assert(b.has_value() == occ && cb.has_value() == occ, "an empty cell has no sides"); if (b && cb && occ) sx_assert(b->get() == side(in.boundaries, k) && cb->get() == side(in.boundaries, k), "the side between two cells is the one of the first that faces the second");
        bool f = throws([&] { s.get_boundary_between_or_fail(here, n); }); sx_assert(f == !occ, "asking for a side of an empty cell fails");
        for (PauliOperator op : { PauliOperator::X, PauliOperator::Z }) { bool e = occ && side(in.boundaries, k).boundary_type == btype_for(op); sx_assert(s.have_boundary_of_type_with(here, n, op) == e, "a side carries an operator when it is of that kind"); }
        bool e = occ && reserved(side(in.boundaries, k)); sx_assert(s.is_boundary_reserved(here, n) == e, "a side is reserved when it is marked so");
    }
    sx_assert(near.size() == expect, "the neighbours on the lattice are those inside it, each once");
    Cell off{ r + (sx_flag("far") ? 2 : 1), c + 1 }; sx_assert(!s.get_boundary_between(here, off) && !s.have_boundary_of_type_with(here, off, PauliOperator::X), "cells that are not neighbours share no side");
    sx_assert(same_snap(was, Snap(s)), "asking changes nothing");
    std::vector<Cell> order; s.traverse_cells([&](const Cell& x, const std::optional<DensePatch>& y) { order.push_back(x); sx_assert(&y == &cs.patch_at(x), "every cell is visited with what it holds"); }); sx_assert(order.size() == held.size(), "every cell is visited once"); for (auto& h : held) sx_assert(std::count(order.begin(), order.end(), h.first) == 1, "every cell is visited once");
    sx_reach("asked"); return;
    }
    SingleCellOccupiedByPatch body; static_cast<CellBoundaries&>(body) = some_sides(); body.cell = here; SparsePatch put{ Patch{ PatchType::PreparedState, PatchActivity::Unitary, want }, body }; bool force = sx_flag("over"), multi = sx_flag("several"); bool fail = throws([&] { if (multi) s.place_sparse_patch(put, force); else s.place_single_cell_sparse_patch(put, force); });
    sx_assert(fail == (occ && !force), "a patch is placed on a free cell, or over another only when that is asked for"); Snap now(s);
    if (fail) { sx_assert(same_snap(was, now), "a patch that cannot be placed changes nothing"); sx_reach("refused"); }
    else { sx_assert(same_except(was, now, { here }) && same_rest(was, now), "placing a patch changes no other cell"); auto& g = cs.patch_at(here); sx_assert(g && g->type == PatchType::PreparedState && g->activity == PatchActivity::Unitary && g->id == std::optional<PatchId>(want) && g->boundaries == static_cast<CellBoundaries&>(body), "a placed patch is where and what it was to be"); sx_reach("placed"); }
}
void sparse() {
    GridLayout l; l.far = { 2, 2 }; SparseSlice s = SparseSlice::make_blank_slice(l); int n = sx_config_int("PATCHES", 2);
    MultipleCellsOccupiedByPatch region; { SingleCellOccupiedByPatch x; x.cell = Cell{ 2, 2 }; region.sub_cells.push_back(x); x.cell = Cell{ 2, 1 }; region.sub_cells.push_back(x); } l.regions.push_back(region);
    struct H { std::vector<SingleCellOccupiedByPatch> cells; PatchId id; }; std::vector<H> held; std::vector<Cell> used;
    auto cell = [&] { int r = sx_int("row", 0, 2), c = sx_int("col", 0, 2); Cell x{ r, c }; for (auto& u : used) sx_assume(!(u == x)); used.push_back(x); SingleCellOccupiedByPatch b; static_cast<CellBoundaries&>(b) = used.size() == 1 ? some_sides() : square_boundaries(); b.cell = x; return b; };
    for (int i = 0; i < n; ++i) { H h; h.cells.push_back(cell()); bool multi = i == 0 && sx_flag("several cells"); if (multi) h.cells.push_back(cell()); h.id = sx_uint("id", 0, 1000); for (auto& o : held) sx_assume(o.id != h.id);
        SparsePatch p; p.type = PatchType::Qubit; p.activity = PatchActivity::None; p.id = h.id; if (multi) p.cells = MultipleCellsOccupiedByPatch{ h.cells }; else p.cells = h.cells[0]; s.qubit_patches.push_back(p); held.push_back(h); }
    auto m = cell(); SparsePatch ms; ms.type = PatchType::PreparedState; ms.activity = PatchActivity::None; ms.cells = m; s.unbound_magic_states.push_back(ms);
    PatchId want = sx_uint("want", 0, 1000); int at = -1; for (int i = 0; i < n; ++i) if (held[i].id == want) at = i;
    sx_assert(s.has_patch(want) == (at >= 0), "a slice has a patch when one of its cells holds it"); auto where = s.get_cell_by_id(want); sx_assert(where.has_value() == (at >= 0), "the cell of a patch is the one that holds it");
    if (where && at >= 0) { bool in = false; for (auto& x : held[at].cells) in |= x.cell == *where; sx_assert(in, "the cell of a patch is the one that holds it"); sx_assert(&s.get_patch_by_id(want) == &s.qubit_patches[at], "the patch of an id is the one that has it"); bool single = held[at].cells.size() == 1, f = throws([&] { s.get_single_cell_occupied_by_patch_by_id(want); }); sx_assert(f == !single, "only a patch of one cell is one cell"); if (single) sx_assert(s.get_single_cell_occupied_by_patch_by_id(want) == held[at].cells[0], "the patch of an id is the one that has it"); }
    else sx_assert(throws([&] { s.get_patch_by_id(want); }), "asking for a patch that is not there fails");
    int r = sx_int("row", 0, 2), c = sx_int("col", 0, 2); Cell here{ r, c }; int on = -1; const SingleCellOccupiedByPatch* piece = nullptr; for (int i = 0; i < n; ++i) for (auto& x : held[i].cells) if (x.cell == here) { on = i; piece = &x; }
    auto qp = s.get_qubit_patch_on_cell(here); sx_assert(qp.has_value() == (on >= 0) && (on < 0 || &qp->get() == &s.qubit_patches[on]), "the patch on a cell is the one that holds it");
    bool magic = m.cell == here; auto mp = s.get_magic_state_on_cell(here); sx_assert(mp.has_value() == magic, "the magic state on a cell is the one that holds it"); auto any = s.get_any_patch_on_cell(here); sx_assert(any.has_value() == (magic || on >= 0), "something is on a cell when a patch or a magic state is");
    bool dist = here == Cell{ 2, 2 } || here == Cell{ 2, 1 }; sx_assert(s.is_cell_free(here) == !(dist || magic || on >= 0), "a cell is free when no patch and no factory is on it");
    if (on >= 0 && held[on].cells.size() == 1) for (int k = 0; k < 4; ++k) { Cell nb = step(here, k); for (PauliOperator op : { PauliOperator::X, PauliOperator::Z }) { bool e = side(*piece, k).boundary_type == btype_for(op); sx_assert(s.have_boundary_of_type_with(here, nb, op) == e, "a side carries an operator when it is of that kind"); } bool e = reserved(side(*piece, k)); sx_assert(s.is_boundary_reserved(here, nb) == e, "a side is reserved when it is marked so"); }
    auto near = s.get_neigbours_within_slice(here); size_t expect = 0; for (int k = 0; k < 4; ++k) { Cell x = step(here, k); bool inl = inside(x, l.far); expect += inl; int t = 0; for (auto& y : near) t += y == x; sx_assert(t == (int) inl, "the neighbours on the lattice are those inside it, each once"); } sx_assert(near.size() == expect, "the neighbours on the lattice are those inside it, each once");
    auto before = s.qubit_patches; s.delete_qubit_patch(want); sx_assert(!s.has_patch(want) && s.qubit_patches.size() == before.size() - (at >= 0), "a removed patch is gone, and no other"); size_t j = 0; for (int i = 0; i < n; ++i) if (i != at) { sx_assert(j < s.qubit_patches.size() && s.qubit_patches[j] == before[i], "removing a patch leaves the others"); ++j; }
    if (at >= 0) sx_reach("removed"); sx_reach("sparse");
}
}
extern "C" void sx_harness() {
    switch (sx_config_int("WHAT", 0)) { case 0: geometry(); break; case 1: patch_sides(); break; case 2: several_cells(); break; case 3: printing(); break; case 4: dense(); break; case 5: sparse(); break; }
    sx_reach("end");
}

// C19: layouts read from character grids, and the generated ones.
#include "lattice.hpp"
#include <lsqecc/layout/ascii_layout_spec.hpp>
#include <lsqecc/layout/dynamic_layouts/compact_layout.hpp>
#include <lsqecc/layout/dynamic_layouts/edpc_layout.hpp>
#include <set>
using namespace sxh;

namespace {
using Cells = std::set<Cell>;
Cells set_of(const std::vector<Cell>& v) { return Cells(v.begin(), v.end()); }
// --- an independent reading of a grid
struct Grid { std::vector<std::string> rows; bool ok = true; };
bool among(char c, const char* s) { for (; *s; ++s) if (*s == c) return true; return false; }
Grid read(const std::string& text) {
    Grid g; std::string row;
    for (size_t i = 0; i <= text.size(); ++i) { if (i == text.size() || text[i] == '\n') { if (!row.empty()) g.rows.push_back(row); row.clear(); } else row += text[i]; }
    bool reserved = false, factory = false;
    for (auto& r : g.rows) for (char c : r) { if (!among(c, "rQTDAMXY0123456789")) g.ok = false; else { reserved = reserved || c == 'M'; factory = factory || (c >= '0' && c <= '9'); } }
    if (g.rows.empty() || (reserved && factory)) g.ok = false;
    for (auto& r : g.rows) if (r.size() != g.rows[0].size()) g.ok = false;
    return g;
}
void check_slice(const Layout& l, size_t n);
void check_grid(const std::string& text, size_t time, bool staggered) {
    Grid g = read(text); DistillationOptions o; o.staggered = staggered; o.distillation_time = time;
    std::unique_ptr<Layout> l; bool threw = false;
    std::vector<char> exact(text.begin(), text.end());
    try { l = std::make_unique<LayoutFromSpec>(std::string_view(exact.data(), exact.size()), o); } catch (const std::exception&) { threw = true; }
    sx_assert(threw == !g.ok, "exactly the well-formed grids are accepted"); if (threw) { sx_reach("refused"); return; }
    int R = (int) g.rows.size(), C = (int) g.rows[0].size();
    sx_assert((l->furthest_cell() == Cell{ R - 1, C - 1 }), "the lattice has the size of the grid");
    auto all = [&](char k) { Cells s; for (int r = 0; r < R; ++r) for (int c = 0; c < C; ++c) if (g.rows[r][c] == k) s.insert(Cell{ r, c }); return s; };
    auto exactly = [&](const std::vector<Cell>& v, char k) { Cells s = set_of(v); return s.size() == v.size() && s == all(k); };
    sx_assert(exactly(l->ancilla_location(), 'A'), "ancilla cells are those of the grid");
    sx_assert(exactly(l->dead_location(), 'X'), "dead cells are those of the grid");
    sx_assert(exactly(l->reserved_for_magic_states(), 'M'), "reserved cells are those of the grid");
    sx_assert(exactly(l->predistilled_y_states(), 'Y'), "Y state cells are those of the grid");
    sx_assert(l->magic_states_reserved() == !all('M').empty(), "the layout knows whether cells are reserved for magic states");
    std::vector<Cell> core; for (auto& p : l->core_patches()) {
        auto* s = std::get_if<SingleCellOccupiedByPatch>(&p.cells); sx_assert(s != nullptr, "core patches have one cell"); if (!s) return;
        core.push_back(s->cell); sx_assert(p.type == PatchType::Qubit && p.activity == PatchActivity::None && !p.id && static_cast<const CellBoundaries&>(*s) == fresh_sides(), "core patches are fresh");
    }
    sx_assert(exactly(core, 'Q'), "core patches are those of the grid");
    // factories: the connected groups of equal digits
    std::set<Cells> groups; Cells seen;
    for (int r = 0; r < R; ++r) for (int c = 0; c < C; ++c) { char k = g.rows[r][c]; if (k < '0' || k > '9' || seen.count(Cell{ r, c })) continue;
        Cells grp{ Cell{ r, c } }; std::vector<Cell> todo{ Cell{ r, c } };
        while (!todo.empty()) { Cell x = todo.back(); todo.pop_back(); for (int d = 0; d < 4; ++d) { Cell y = step(x, d); if (inside(y, l->furthest_cell()) && g.rows[y.row][y.col] == k && grp.insert(y).second) todo.push_back(y); } }
        seen.insert(grp.begin(), grp.end()); groups.insert(grp); }
    auto& regions = l->distillation_regions(); std::set<Cells> got;
    for (size_t i = 0; i < regions.size(); ++i) {
        Cells cs, out; for (auto& s : regions[i].sub_cells) sx_assert(cs.insert(s.cell).second, "a factory has every cell once");
        got.insert(cs);
        for (auto& s : regions[i].sub_cells) for (int d = 0; d < 4; ++d) { Cell y = step(s.cell, d);
            sx_assert((side(s, d) == Boundary{ cs.count(y) ? BoundaryType::None : BoundaryType::Smooth, false }), "a factory has its sides all around it");
            if (inside(y, l->furthest_cell()) && g.rows[y.row][y.col] == 'r') out.insert(y); }
        sx_assert(set_of(l->distilled_state_locations(i)) == out, "a factory delivers to the routing cells next to it");
        sx_assert(l->distillation_times().size() > i && l->distillation_times()[i] == time + (staggered ? i : 0), "a factory has its production time");
        sx_reach("factory"); if (i) sx_reach("two factories");
    }
    sx_assert(got == groups && regions.size() == groups.size(), "factories are the connected groups of equal digits");
    if (!all('M').empty()) for (auto t : l->distillation_times()) sx_assert(t == time, "a reserved cell has the production time");
    sx_assert(l->distillation_times().size() == groups.size() + all('M').size(), "one production time for every factory or reserved cell");
    check_slice(*l, core.size()); sx_reach("layout");
}
// A slice made from a layout holds just what the layout says.
void check_slice(const Layout& l, size_t most) {
    size_t n = sx_choice("ids", 3); if (n == 0) n = most; else if (n == 1) n = most + 1; else { sx_assume(most > 1); n = 1; }
    tsl::ordered_set<PatchId> ids; for (size_t i = 0; i < n; ++i) ids.insert((PatchId)(100 + i));
    std::unique_ptr<DenseSlice> s; bool threw = false;
    try { s = std::make_unique<DenseSlice>(l, ids); } catch (const std::exception&) { threw = true; }
    sx_assert(threw == (n > most), "a slice can be made for as many qubits as there are core patches"); if (threw) { sx_reach("too many qubits"); return; }
    Snap now(*s); Cells cores, factory, dead = set_of(l.dead_location()), res = set_of(l.reserved_for_magic_states()), ys = set_of(l.predistilled_y_states());
    for (auto& p : l.core_patches()) cores.insert(std::get<SingleCellOccupiedByPatch>(p.cells).cell);
    for (auto& r : l.distillation_regions()) for (auto& c : r.sub_cells) factory.insert(c.cell);
    std::set<PatchId> placed; bool ok = true, mark = true; sx_assert(s->cells.size() == size_t(l.furthest_cell().row + 1), "the slice has the size of the layout");
    now.each([&](const Cell& c) {
        const Held& h = now.at(c);
        if (h && h->id) ok = ok && cores.count(c) && h->type == PatchType::Qubit && *h->id >= 100 && *h->id < 100 + n && placed.insert(*h->id).second && h->boundaries == fresh_sides();
        else if (cores.count(c)) ok = ok && !h;
        else if (factory.count(c) || res.count(c)) ok = ok && h && h->type == PatchType::Distillation && h->activity == PatchActivity::Distillation;
        else if (dead.count(c)) ok = ok && h && h->type == PatchType::Dead && h->activity == PatchActivity::Dead;
        else if (ys.count(c)) ok = ok && h && h->type == PatchType::Qubit && h->activity == PatchActivity::None && h->boundaries == fresh_sides();
        else ok = ok && !h;
        if (h) for (int k = 0; k < 4; ++k) mark = mark && !side(h->boundaries, k).is_active;
    });
    sx_assert(ok && mark && placed.size() == n, "a fresh slice holds exactly what the layout says");
    sx_assert(s->predistilled_ystates_available == ys.size() && s->magic_states.empty(), "a fresh slice has the Y states of the layout and no magic states");
    sx_assert(s->time_to_next_magic_state_by_distillation_region == l.distillation_times(), "a fresh slice counts down the production times of the layout");
}
}

extern "C" void sx_harness() {
    int what = sx_config_int("WHAT", 0);
    if (what == 0) {          // a grid of the given size over some characters
        int R = sx_config_int("ROWS", 2), C = sx_config_int("COLS", 2); const char* al = sx_config("ALPHA"); if (!*al) al = "rQTDAMXY0123456789";
        std::string t; for (int r = 0; r < R; ++r) { for (int c = 0; c < C; ++c) { char x = sx_char("cell"); bool in = false; for (const char* p = al; *p; ++p) in |= x == *p; sx_assume(in); t += x; } if (r + 1 < R) t += '\n'; }
        bool st = sx_flag("staggered"); check_grid(t, st ? 10 : 3, st);
    } else if (what == 1) {   // any text
        int n = sx_choice("length", sx_config_int("LEN", 4) + 1); std::string t; for (int i = 0; i < n; ++i) t += sx_char("character");
        check_grid(t, 10, true);
    } else {                  // generated layouts
        bool compact = sx_config_int("COMPACT", 0); int most = sx_config_int("MOST", 30), least = compact ? 0 : 1;
        size_t n = least + sx_choice("qubits", most + 1 - least); DistillationOptions o; o.staggered = sx_flag("staggered"); o.distillation_time = 7;
        std::unique_ptr<Layout> l; bool none = true;
        if (compact) { bool nc = sx_flag("no clogging"); l = make_compact_layout(n, o, nc); none = nc; }
        else { size_t lanes = 1 + sx_choice("lanes", sx_config_int("LANES", 3)); bool cond = sx_flag("condensed"), fac = sx_flag("factories"), pre = sx_flag("predistilled"); l = make_edpc_layout(n, lanes, cond, fac, pre, o); none = !fac; if (!pre) sx_assert(l->predistilled_y_states().empty(), "Y states are provided when asked for"); if (pre) sx_assert(!l->predistilled_y_states().empty(), "Y states are provided when asked for"); }
        sx_assert(l->core_patches().size() >= n, "a generated layout has the requested core patches");
        if (!compact) sx_assert(l->core_patches().size() == n, "a generated distributed layout has exactly the requested core patches");
        sx_assert(none ? l->distillation_regions().empty() && l->magic_states_reserved() : !l->distillation_regions().empty() && !l->magic_states_reserved(), "a generated layout provides magic states in the way asked for");
        sx_assert(!compact || !l->ancilla_location().empty(), "a compact layout has an ancilla cell");
        Cells occ; bool once = true; auto put = [&](const Cell& c) { once = once && occ.insert(c).second && inside(c, l->furthest_cell()); };
        for (auto& p : l->core_patches()) put(p.get_a_cell());
        for (auto& d : l->distillation_regions()) for (auto& s : d.sub_cells) put(s.cell);
        for (auto& c : l->dead_location()) put(c); for (auto& c : l->reserved_for_magic_states()) put(c); for (auto& c : l->predistilled_y_states()) put(c); for (auto& c : l->ancilla_location()) put(c);
        sx_assert(once, "no two things of a generated layout overlap");
        auto free = [&](const Cell& y) { return inside(y, l->furthest_cell()) && !occ.count(y); };
        auto reach = [&](const Cell& c) { for (int k = 0; k < 4; ++k) if (free(step(c, k))) return true; return false; };
        for (auto& p : l->core_patches()) sx_assert(reach(p.get_a_cell()), "every core patch is next to a routing cell");
        for (size_t i = 0; i < l->distillation_regions().size(); ++i) { sx_assert(!l->distilled_state_locations(i).empty() && l->distillation_times().at(i) == 7 + (o.staggered ? i : 0), "every factory has output cells and its production time"); for (auto& c : l->distilled_state_locations(i)) sx_assert(free(c), "factories deliver to routing cells"); }
        for (auto& c : l->reserved_for_magic_states()) sx_assert(reach(c), "every reserved cell is next to a routing cell");
        check_slice(*l, l->core_patches().size()); sx_reach("generated");
    }
}

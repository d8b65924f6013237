// C22, C23: what is reported about a slice: its JSON form and its volumes.
#include "lattice.hpp"
#include <lsqecc/patches/slices_to_json.hpp>
#include <lsqecc/patches/slice_stats.hpp>
#include <sstream>
using namespace sxh;

namespace {
const char* shown(const Boundary& b) {
    switch (b.boundary_type) {
        case BoundaryType::Connected: return b.is_active ? "AncillaJoin" : "None";
        case BoundaryType::Rough: return b.is_active ? "DashedStiched" : "Dashed";
        case BoundaryType::Smooth: return b.is_active ? "SolidStiched" : "Solid";
        case BoundaryType::Reserved_Label1: return b.is_active ? "SolidStiched" : "None";
        case BoundaryType::Reserved_Label2: return b.is_active ? "DashedStiched" : "None";
        default: return "None";
    }
}
const char* kind(PatchType t) { return t == PatchType::Qubit ? "Qubit" : t == PatchType::Routing || t == PatchType::Dead ? "Ancilla" : "DistillationQubit"; }
DensePatch symbolic_patch(int free_sides) {
    DensePatch p; bool fixed = sx_config_int("FIXED", 0); p.type = fixed ? PatchType::Routing : PatchType(sx_choice("type", 5)); p.activity = fixed ? PatchActivity::None : PatchActivity(sx_choice("activity", 9));
    if (!fixed && sx_flag("has id")) p.id = sx_flag("largest id") ? 4294967295u : sx_uint("id", 0, sx_config_int("IDS", 99)); if (sx_flag("has operation")) p.operation_id = 7 + 6 * sx_choice("operation", 2);
    p.boundaries = CellBoundaries{ { BoundaryType::Rough, true }, { BoundaryType::Smooth, false }, { BoundaryType::Connected, true }, { BoundaryType::None, false } };
    for (int j = 0; j < free_sides; ++j) { int k = sx_choice("free side", 4); side_mut(p.boundaries, k) = Boundary{ BoundaryType(sx_choice("side", 6)), sx_flag("joined") }; }
    return p;
}
std::string digits(unsigned v) { std::string s; do { s.insert(s.begin(), char('0' + v % 10)); v /= 10; } while (v); return s; }
void check_cell(const nlohmann::json& j, const std::optional<DensePatch>& p, const std::string* countdown) {
    sx_assert(j.is_null() == !p.has_value(), "null exactly for the empty cells"); if (!p || j.is_null()) return;
    static const char* const NAMES[4] = { "Top", "Bottom", "Left", "Right" };
    bool shape = j.is_object() && j.contains("edges") && j["edges"].is_object() && j["edges"].size() == 4 && j.contains("patch_type") && j.contains("activity") && j["activity"].contains("activity_type") && j.contains("text");
    sx_assert(shape, "every occupied cell is described in full"); if (!shape) return;
    for (int k = 0; k < 4; ++k) sx_assert(j["edges"].contains(NAMES[k]) && j["edges"][NAMES[k]] == shown(side(p->boundaries, k)), "the sides shown are those of the cell");
    sx_assert(j["patch_type"] == kind(p->type), "the kind shown is that of the cell");
    auto& a = j["activity"]["activity_type"];
    if (p->activity == PatchActivity::Measurement) sx_assert(a == "Measurement", "the activity shown is that of the cell"); else if (p->activity == PatchActivity::Unitary) sx_assert(a == "Unitary", "the activity shown is that of the cell"); else sx_assert(a.is_null(), "the activity shown is that of the cell");
    sx_assert(j.contains("operation_id") == p->operation_id.has_value() && (!p->operation_id || j["operation_id"] == digits((unsigned) *p->operation_id)), "the operation shown is that of the cell");
    std::string want = countdown ? *countdown : p->id ? "Id: " + digits(*p->id) : p->type == PatchType::Qubit || (p->type == PatchType::Distillation && p->activity == PatchActivity::None) ? "Not bound" : "";
    sx_assert(j["text"] == want, countdown ? "a factory shows its remaining time" : "the id shown is that of the cell");
}
}

extern "C" void sx_harness() {
    int what = sx_config_int("WHAT", 0), R = sx_config_int("ROWS", 2), C = sx_config_int("COLS", 3);
    GridLayout l; l.far = Cell{ R - 1, C - 1 };
    if (what == 0 || what == 3) {          // 0: some cells with any content; 3: factories
        std::vector<Cell> first; int nf = what == 3 ? 1 + sx_choice("factories", 2) : 0;
        for (int i = 0; i < nf; ++i) { MultipleCellsOccupiedByPatch m; int len = 1 + sx_choice("factory cells", 2); for (int k = 0; k < len; ++k) { SingleCellOccupiedByPatch s; static_cast<CellBoundaries&>(s) = fresh_sides(); s.cell = Cell{ i, k }; m.sub_cells.push_back(s); } l.regions.push_back(m); l.distilled.push_back({}); l.times.push_back(10); }
        DenseSlice s(l); for (int i = 0; i < nf; ++i) s.time_to_next_magic_state_by_distillation_region.push_back(sx_uint("time", 0, 19));
        for (auto& m : l.regions) for (auto& c : m.sub_cells) { s.patch_at(c.cell) = DensePatch{ Patch{ PatchType::Distillation, sx_flag("idle") ? PatchActivity::None : PatchActivity::Distillation, std::nullopt }, c }; }
        int full = sx_config_int("FULL", 1), cells = R * C; bool any = false;
        for (int i = 0; i < full; ++i) { int at = sx_choice("at", cells); Cell c{ at / C, at % C }; if (s.patch_at(c)) continue; s.patch_at(c) = symbolic_patch(sx_config_int("SIDES", 2)); any = true; }
        // every other cell: empty, or a plain patch that differs from cell to cell
        for (int i = 0; i < cells; ++i) { Cell c{ i / C, i % C }; if (s.patch_at(c) || !sx_flag("occupied")) continue; DensePatch p; p.type = PatchType::Qubit; p.activity = PatchActivity::None; p.id = 20 + i; p.boundaries = fresh_sides(); s.patch_at(c) = p; }
        auto j = slice_to_json(s);
        sx_assert(j.is_array() && j.size() == size_t(R), "one entry per cell of the lattice");
        std::vector<std::string> cd; for (auto t : s.time_to_next_magic_state_by_distillation_region) cd.push_back("Time to next magic state:" + digits(t));
        for (int r = 0; r < R; ++r) { sx_assert(j[r].is_array() && j[r].size() == size_t(C), "one entry per cell of the lattice"); for (int c = 0; c < C; ++c) check_cell(j[r][c], s.patch_at(Cell{ r, c }), r < nf && c == 0 ? &cd[r] : nullptr); }
        if (any) sx_reach("shown"); if (nf) sx_reach("factory shown");
    } else if (what == 1) {   // volumes of one slice
        l.reserve_magic = sx_flag("reserved"); DenseSlice s(l); size_t n[4] = { 0, 0, 0, 0 };
        for (int r = 0; r < R; ++r) for (int c = 0; c < C; ++c) { if (!sx_flag("occupied")) { ++n[0]; continue; }
            DensePatch p; p.type = PatchType(sx_uint("type", 0, 4)); p.activity = PatchActivity(sx_uint("activity", 0, 8)); if (sx_config_int("IDS", 0)) p.id = 5; p.boundaries = fresh_sides(); s.patch_at(Cell{ r, c }) = p;
            n[1] += (p.type == PatchType::Distillation) | (l.reserve_magic & (p.type == PatchType::PreparedState)); n[2] += p.type == PatchType::Dead; }
        VolumeCounts v = compute_volume_counts(s);
        sx_assert(v.volume == size_t(R * C), "the volume is the number of cells");
        sx_assert(v.unused_routing_volume == n[0], "empty cells are unused"); sx_assert(v.distillation_volume == n[1], "factory cells are distillation"); sx_assert(v.dead == n[2], "dead cells are dead");
        sx_assert(v.unused_routing_volume + v.distillation_volume + v.dead <= v.volume, "the parts do not exceed the whole"); sx_reach("counted");
    } else {                  // totals over slices, and how they are printed
        int k = sx_config_int("SLICES", 2); VolumeCounts t; uint64_t n[4] = { 0, 0, 0, 0 };
        for (int i = 0; i < k; ++i) { VolumeCounts v; v.unused_routing_volume = sx_i64("unused", 0, 1ll << 40); v.distillation_volume = sx_i64("distillation", 0, 1ll << 40); v.dead = sx_i64("dead", 0, 1ll << 40); v.volume = v.unused_routing_volume + v.distillation_volume + v.dead + (uint64_t) sx_i64("active", 0, 1ll << 40);
            n[0] += v.volume; n[1] += v.unused_routing_volume; n[2] += v.distillation_volume; n[3] += v.dead; t += v; }
        sx_assert(t.volume == n[0] && t.unused_routing_volume == n[1] && t.distillation_volume == n[2] && t.dead == n[3], "totals are the sums over the slices"); sx_reach("summed");
        VolumeCounts w; w.unused_routing_volume = sx_choice("printed unused", 3); w.distillation_volume = sx_choice("printed distillation", 12); w.dead = sx_choice("printed dead", 3); size_t act = sx_choice("printed active", 12); w.volume = w.unused_routing_volume + w.distillation_volume + w.dead + act; sx_assume(w.volume > 0);
        std::ostringstream os; os << SliceStats{ w }; std::string text = os.str();
        auto value = [&](const char* label) { size_t p = text.find(label); if (p == std::string::npos) return std::string("absent"); p += std::string(label).size(); size_t e = text.find_first_of(" \n", p); return text.substr(p, e == std::string::npos ? e : e - p); };
        sx_assert(value("Total volume: ") == digits(w.volume) && value("Distillation volume: ") == digits(w.distillation_volume) && value("Unused routing volume: ") == digits(w.unused_routing_volume) && value("Dead volume: ") == digits(w.dead) && value("Other active volume: ") == digits(act), "the volumes printed are those counted"); sx_reach("printed");
    }
}

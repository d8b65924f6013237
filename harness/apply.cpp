// C03, C04, C05, C21: single instructions on a slice, in sequences, against what each instruction may do.
#include "lattice.hpp"
using namespace lsqecc; using namespace sxh;

namespace {
enum Kind { Measure, Pauli, Had, Sgate, Joint, InitNear, InitFree, Rotate, Magic, Ystate, Reset, Continue, Continue2 };
struct Env { GridLayout layout; CustomDPRouter router; bool local, twists; std::vector<LSInstruction> pending; std::vector<Cell> turned; std::vector<Cell> beside; std::vector<Pod> original; std::vector<int> left; };
SingleQubitOp::Operator pauli(int k) { return k == 0 ? SingleQubitOp::Operator::X : k == 1 ? SingleQubitOp::Operator::Y : SingleQubitOp::Operator::Z; }

struct Tried { bool refused, threw; std::vector<LSInstruction> follow; };
Tried attempt(DenseSlice& s, LSInstruction& i, Env& e) {
    try { auto r = try_apply_instruction_direct_followup(s, i, e.local, e.twists, false, e.layout, e.router); return { (bool) r.maybe_error, false, r.followup_instructions }; }
    catch (const std::exception&) { return { true, true, {} }; }
}

void one(DenseSlice& s, Env& e, int kind) {
    static const PatchId ids[4] = { 0, 1, 3, 9 };      // two core patches, one that may be created, one that never exists
    int nt = sx_config_int("TARGETS", 4);
    PatchId t = ids[sx_choice("target", nt)], u = 0; LSInstruction i; PauliOperator oa = PauliOperator::X, ob = PauliOperator::X;
    switch (kind) {
        case Measure: i.operation = SinglePatchMeasurement{ t, sx_flag("basis") ? PauliOperator::X : PauliOperator::Z, false }; break;
        case Pauli: i.operation = SingleQubitOp{ t, pauli(sx_choice("pauli", 3)) }; break;
        case Had: i.operation = SingleQubitOp{ t, SingleQubitOp::Operator::H }; break;
        case Sgate: i.operation = SingleQubitOp{ t, SingleQubitOp::Operator::S }; break;
        case Joint: {
            u = ids[sx_choice("second", nt)]; sx_assume(u != t); oa = sx_flag("op1") ? PauliOperator::X : PauliOperator::Z; ob = sx_flag("op2") ? PauliOperator::X : PauliOperator::Z;
            MultiPatchMeasurement m; m.observable[t] = oa; m.observable[u] = ob; m.is_negative = false; i.operation = m; break; }
        case InitNear: u = sx_flag("existing") ? 0 : 3; oa = sx_flag("op1") ? PauliOperator::X : PauliOperator::Z; i.operation = PatchInit{ u, PatchInit::InitializeableStates::Zero, PlaceNexTo{ t, oa } }; break;
        case InitFree: i.operation = PatchInit{ t, PatchInit::InitializeableStates::Plus, std::nullopt }; break;
        case Rotate: i.operation = RotateSingleCellPatch{ t }; break;
        case Magic: u = ids[sx_choice("second", nt)]; i.operation = MagicStateRequest{ t, u }; break;
        case Ystate: u = ids[sx_choice("second", nt)]; i.operation = YStateRequest{ t, u }; break;
        case Reset: i.operation = PatchReset{ t }; break;
        default: {
            int k = kind - Continue; sx_assume(t == ids[0] && (int) e.pending.size() > k);
            i = e.pending[k]; break; }
    }
    Snap was(s); Tried r = attempt(s, i, e); Snap now(s);
    sx_assert(ids_unique(now), "every patch id is on at most one cell");
    was.each([&](const Cell& c) { const Held& h = was.at(c); if ((h.p.type == PatchType::Distillation) | (h.p.type == PatchType::Dead)) sx_assert(!h.engaged | same_patch(h, now.at(c)), "factories and dead cells are never touched"); });
    if (r.refused) { sx_assert(same_snap(was, now), "an instruction that cannot be applied leaves the slice as it was"); sx_assert(r.follow.empty(), "a refused instruction leaves nothing behind"); sx_reach("refused"); }
    auto must = [&](bool applicable) { sx_assert(r.refused == !applicable, "an instruction is refused exactly when it cannot be applied"); return applicable; };
    auto none = [&] { sx_assert(r.follow.empty(), "nothing is left to be done"); };
    auto at = was.find(t), au = was.find(u);
    switch (kind) {
        case Measure: {
            if (!must(at.has_value())) return; none();
            Pod w = *was.at(*at); w.activity = PatchActivity::Measurement;
            sx_assert(same_except(was, now, { *at }) && same_rest(was, now) && same_patch(now.at(*at), w), "a measurement marks its patch and nothing else"); sx_reach("measured"); break; }
        case Pauli: if (!must(at && !busy(*was.at(*at)))) return; none(); sx_assert(same_snap(was, now), "a Pauli operator changes nothing on the lattice"); break;
        case Had: {
            if (!must(at && !busy(*was.at(*at)))) return; none();
            const Pod& n = *now.at(*at); const Pod& w = *was.at(*at);
            sx_assert(same_except(was, now, { *at }) && same_rest(was, now), "a Hadamard changes only its patch");
            sx_assert(now.at(*at).has_value() && n.id == w.id && n.type == w.type && n.activity == PatchActivity::Unitary && turned(n.boundaries, w.boundaries), "a Hadamard exchanges the sides and keeps the patch busy"); sx_reach("hadamard"); break; }
        case Sgate: {
            if (!must(at && !busy(*was.at(*at)) && route_length(was, *at, PauliOperator::X, *at, PauliOperator::Z) >= 0)) return;
            check_joined(was, now, *at, PauliOperator::X, *at, PauliOperator::Z); sx_reach("S");
            sx_assert(r.follow.size() == 1 && r.follow[0].operation == LSInstruction{ SingleQubitOp{ t, SingleQubitOp::Operator::Z } }.operation, "an S is followed by a Z on the patch"); break; }
        case Joint: {
            if (!e.local) {
                if (!must(at && au && !busy(*was.at(*at)) && !busy(*was.at(*au)) && route_length(was, *at, oa, *au, ob) >= 0)) return;
                none(); check_joined(was, now, *at, oa, *au, ob);
            } else {
                bool ok = at && au && !busy(*was.at(*at)) && !busy(*was.at(*au)) && adjacent(*at, *au) && carries(was, *at, side_towards(*at, *au), oa) && carries(was, *au, side_towards(*au, *at), ob);
                if (!must(ok)) return; none(); check_joined(was, now, *at, oa, *au, ob);
            }
            sx_reach("joined"); break; }
        case InitNear: {
            std::vector<Cell> good; if (at) for (int k = 0; k < 4; ++k) { Cell c = step(*at, k); if (inside(c, was.far) && was.free(c) && carries(was, *at, k, oa)) good.push_back(c); }
            if (!must(!was.has(u) && !good.empty())) return; none();
            auto c = now.find(u); bool ok = false; if (c) for (auto& g : good) if (g == *c) ok = true;
            sx_assert(c && ok && fresh_patch(now.at(*c), u) && same_except(was, now, { *c }) && same_rest(was, now), "a new patch appears next to a matching side of its neighbour"); sx_reach("created"); break; }
        case InitFree: {
            std::vector<Cell> good; for (auto& c : e.layout.ancilla) if (was.free(c)) good.push_back(c);
            if (!must(!at && !good.empty())) return; none();
            auto c = now.find(t); bool ok = false; if (c) for (auto& g : good) if (g == *c) ok = true;
            sx_assert(c && ok && fresh_patch(now.at(*c), t) && same_except(was, now, { *c }) && same_rest(was, now), "a new patch appears on a free ancilla location"); sx_reach("created"); break; }
        case Rotate: {
            bool room = false; if (at) for (int k = 0; k < 4; ++k) { Cell c = step(*at, k); if (inside(c, was.far) && was.free(c)) room = true; }
            bool idle = false; if (at) { Pod w = *was.at(*at); if (w.activity == PatchActivity::Unitary) w.activity = PatchActivity::None; idle = !busy(w); }    // a Hadamard and the rotation after it share their time
            if (!must(at && room && idle)) return;
            std::vector<Cell> marked; now.each([&](const Cell& c) { if (was.at(c).engaged ^ now.at(c).engaged && was.free(c)) marked.push_back(c); });
            sx_assert(marked.size() == 1 && adjacent(marked[0], *at) && same_except(was, now, { *at, marked[0] }) && same_rest(was, now), "a rotation occupies the patch and one free neighbour");
            for (const Cell& c : { *at, marked[0] }) { const Cell& o = c == *at ? marked[0] : *at; const auto& p = now.at(c);
                sx_assert(p && p->type == PatchType::Routing && p->activity == PatchActivity::Rotation && !p->id, "rotating cells are marked as rotation");
                if (p) for (int k = 0; k < 4; ++k) { bool j = step(c, k) == o; sx_assert(side(p->boundaries, k) == (Boundary{ j ? BoundaryType::Connected : BoundaryType::None, j }), "the two rotating cells are joined"); } }
            sx_assert(r.follow.size() == 1, "a rotation goes on"); if (r.follow.size() != 1) return;
            e.pending.push_back(r.follow[0]); e.turned.push_back(*at); e.beside.push_back(marked[0]); e.original.push_back(*was.at(*at)); e.left.push_back(3); sx_reach("rotation"); break; }
        case Continue: case Continue2: {
            int k = kind - Continue; sx_assert(!r.refused, "a rotation goes on"); if (r.refused) return;
            if (--e.left[k] > 0) { sx_assert(same_snap(was, now) && r.follow.size() == 1, "a rotation takes three steps"); if (r.follow.size() == 1) e.pending[k] = r.follow[0]; }
            else { none(); const auto& p = now.at(e.turned[k]); const Pod& o = e.original[k];
                sx_assert(p && p->type == o.type && p->id == o.id && p->activity == PatchActivity::None && turned(p->boundaries, o.boundaries), "a rotation gives the patch back in its place with its sides exchanged");
                sx_assert(now.free(e.beside[k]) && same_except(was, now, { e.turned[k], e.beside[k] }) && same_rest(was, now), "a rotation frees the neighbour"); sx_reach("rotated");
                e.pending.erase(e.pending.begin() + k); e.turned.erase(e.turned.begin() + k); e.beside.erase(e.beside.begin() + k); e.original.erase(e.original.begin() + k); e.left.erase(e.left.begin() + k); }
            break; }
        case Magic: {
            if (!must(!at && au && !was.magic.empty())) return; none();
            auto c = now.find(t); sx_assert(c.has_value(), "a magic state request names the state"); if (!c) return;
            bool nearest = was.magic.count(*c); for (auto& m : was.magic) if (adist(m, *au) < adist(*c, *au)) nearest = false;
            sx_assert(nearest, "a magic state request takes the nearest available state");
            Pod w = *was.at(*c); w.id = t; w.type = PatchType::Qubit; w.activity = PatchActivity::None;
            auto rest = was.magic; rest.erase(*c);
            sx_assert(same_patch(now.at(*c), w) && same_except(was, now, { *c }) && now.magic == rest && now.times == was.times && now.yavail == was.yavail, "the state is given to the requester only"); sx_reach("magic"); break; }
        case Ystate: {
            auto is_y = [&](const Cell& c) { for (auto& y : e.layout.ystates) if (y == c) return true; return false; };
            if (at) {                                           // the second request gives the state back
                bool bound = is_y(*at);
                if (bound || e.twists) { }
                if (!bound) return;                             // giving back a state prepared by twists: see the local runs
                if (!must(was.at(*at)->activity != PatchActivity::Measurement)) return; none(); Pod w = *was.at(*at); w.id = std::nullopt;
                sx_assert(same_patch(now.at(*at), w) && same_except(was, now, { *at }) && now.yavail == was.yavail + 1, "the second request for an id gives the Y state back"); sx_reach("returned"); break; }
            std::vector<Cell> good; bool prepare = false;
            if (au && !(e.local && e.twists) && was.yavail) { for (auto& y : e.layout.ystates) if (was.at(y) && !was.at(y)->id && !busy(*was.at(y))) good.push_back(y);
                int best = 1000; for (auto& g : good) best = std::min(best, adist(g, *au)); std::vector<Cell> n; for (auto& g : good) if (adist(g, *au) == best) n.push_back(g); good = n; }
            else if (au && e.twists) { prepare = true; for (int k = 0; k < 4; ++k) { Cell c = step(*au, k); if (inside(c, was.far) && was.free(c) && carries(was, *au, k, PauliOperator::Z)) good.push_back(c); } }
            if (!must(!good.empty())) return; none();
            auto c = now.find(t); bool ok = false; if (c) for (auto& g : good) if (g == *c) ok = true; sx_assert(ok, "a Y state request takes the nearest idle state, or the cell beside the Z side"); if (!ok) return;
            if (prepare) { const auto& p = *now.at(*c); sx_assert(p.type == PatchType::Qubit && p.activity == PatchActivity::Unitary && p.boundaries == fresh_sides() && now.yavail == was.yavail && same_except(was, now, { *c }), "a Y state is prepared on a free cell"); sx_reach("prepared"); }
            else { Pod w = *was.at(*c); w.id = t; sx_assert(same_patch(now.at(*c), w) && now.yavail + 1 == was.yavail && same_except(was, now, { *c }), "a Y state is bound to the requested id only"); sx_reach("bound"); }
            break; }
        case Reset: none(); sx_assert(same_snap(was, now), "a reset changes nothing on the lattice"); break;
        default: break;
    }
    if (e.layout.ystates.size()) { unsigned n = 0; for (auto& y : e.layout.ystates) if (now.at(y) && !now.at(y)->id && now.at(y)->type != PatchType::Routing) ++n;   /* a bound state that is being turned carries its id along */ sx_assert(n == now.yavail, "the number of available Y states is the number of unbound ones"); }
}
}

extern "C" void sx_harness() {
    int rows = sx_config_int("ROWS", 2), cols = sx_config_int("COLS", 3), depth = sx_config_int("DEPTH", 1), first = sx_config_int("FIRST", 0x7ff), last = sx_config_int("LAST", 0x7ff), positions = sx_config_int("POS", 0);
    Env e; e.local = sx_config_int("LOCAL", 0); e.twists = sx_config_int("TWISTS", 0); int provider = sx_config_int("PROVIDER", 0);
    e.router.set_graph_search_provider(provider == 0 ? GraphSearchProvider::Djikstra : provider == 1 ? GraphSearchProvider::AStar : GraphSearchProvider::Boost);
    GridLayout& l = e.layout; l.far = { rows - 1, cols - 1 };
    int ncell = rows * cols; auto cell = [&](int i) { return Cell{ i / cols, i % cols }; };
    // Where the two core patches are, and how they are turned.
    int pa = sx_config_int("PA", 0), pb = sx_config_int("PB", ncell - 1);
    if (positions) { pa = sx_choice("first_at", ncell); pb = sx_choice("second_at", ncell); sx_assume(pa != pb); }
    for (int p : { pa, pb }) { bool v = sx_config_int("TURN", 1) ? sx_bool("turned") : sx_flag("turned"); SparsePatch sp{ Patch{ PatchType::Qubit, PatchActivity::None }, SingleCellOccupiedByPatch{ square_boundaries(v), cell(p) } }; l.core.push_back(sp); }
    // What is on the other cells.
    int what = sx_config_int("OBSTACLE", -1); if (what < 0) what = sx_choice("obstacle", 4);
    MultipleCellsOccupiedByPatch region; std::vector<Cell> magic;
    bool lazy = what < 2 && sx_config_int("LAZY", 1); std::vector<Cell> perhaps;
    for (int i = 0; i < ncell; ++i) {
        if (i == pa || i == pb) continue;
        if (lazy) { perhaps.push_back(cell(i)); if (sx_config_int("ALLANCILLA", 0) || sx_flag("ancilla")) l.ancilla.push_back(cell(i)); continue; }
        if (!sx_flag("occupied")) { if (sx_config_int("ALLANCILLA", 0) || sx_flag("ancilla")) l.ancilla.push_back(cell(i)); continue; }
        if (what == 0) l.dead.push_back(cell(i)); else if (what == 1) region.sub_cells.push_back(LayoutHelpers::make_distillation_region_cell(cell(i))); else if (what == 2) l.ystates.push_back(cell(i)); else magic.push_back(cell(i));
    }
    if (!region.sub_cells.empty()) { l.regions.push_back(region); l.distilled.push_back({}); }
    if (!region.sub_cells.empty() || !magic.empty()) { l.times.push_back(5); if (l.distilled.empty()) l.distilled.push_back({}); }
    DenseSlice& s = *new DenseSlice(l, tsl::ordered_set<PatchId>{ 0, 1 });   // never destroyed: that would look at every cell
    for (auto& c : perhaps) {       // whether these cells are occupied is left to the solver
        DensePatch d{ Patch{ what == 0 ? PatchType::Dead : PatchType::Distillation, what == 0 ? PatchActivity::None : PatchActivity::Distillation }, CellBoundaries{ { BoundaryType::None, false }, { BoundaryType::None, false }, { BoundaryType::None, false }, { BoundaryType::None, false } } };
        s.cells[c.row][c.col] = d; set_occupied(s.cells[c.row][c.col], sx_bool("occupied"));
    }
    for (auto& c : magic) { SparsePatch p = LayoutHelpers::basic_square_patch(c, std::nullopt, "Magic State"); p.type = PatchType::PreparedState; s.place_single_cell_sparse_patch(p, true); s.magic_states.insert(c); }
    for (int d = 0; d < depth; ++d) {
        int mask = sx_config_int(("S" + std::to_string(d)).c_str(), d + 1 < depth ? first : last), kinds[13], n = 0; for (int k = 0; k < 13; ++k) if (mask >> k & 1) kinds[n++] = k;
        one(s, e, kinds[sx_choice("instruction", n)]);
    }
    sx_reach("end");
}

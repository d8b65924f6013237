// C11: several long-range CNOTs run together by the EDPC pipeline. The harness follows every CNOT with the exact simulator, keeps book
// of the cells each of them holds, and compares every slice shown with it.
#include "longrange.hpp"
#include <map>
#include <tuple>
#include <algorithm>
using namespace lsqecc; using namespace sxh;

namespace {
struct Program : public LSInstructionStream {
    std::vector<LSInstruction> list; size_t pos = 0; tsl::ordered_set<PatchId> core;
    LSInstruction get_next_instruction() override { return list.at(pos++); }
    bool has_next_instruction() const override { return pos < list.size(); }
    const tsl::ordered_set<PatchId>& core_qubits() const override { return core; }
};
struct Item { PatchId c, t; PatchId side1; bool started = false, done = false; int ready = -1, begun = -1, ended = -1, last = -1; std::vector<size_t> upto; std::vector<Cell> route; std::vector<LocalLSInstruction> todo; Model m; };
struct Follow {
    std::vector<Item> items; std::optional<Snap> first; int now = 0; bool together = false, crossed = false, phases = false;
    bool ready(size_t i) const { if (items[i].started) return false; for (size_t j = 0; j < i; ++j) if (!items[j].done) for (PatchId a : { items[j].c, items[j].t }) if (a == items[i].c || a == items[i].t) return false; return true; }
    void ready_items() { for (size_t i = 0; i < items.size(); ++i) if (items[i].ready < 0 && ready(i)) items[i].ready = now; }
    int route(const Item& x) const { return route_length(*first, *first->find(x.c), PauliOperator::Z, *first->find(x.t), PauliOperator::X); }
    void log(const LSInstruction& ins) {
        auto* x = std::get_if<BellBasedCNOT>(&ins.operation); sx_assert(x, "only the instructions of the program are applied"); if (!x) return;
        size_t i = 0; while (i < items.size() && items[i].side1 != x->side1) ++i; sx_assert(i < items.size(), "only the instructions of the program are applied"); if (i >= items.size()) return; Item& it = items[i];
        sx_assert(!it.done, "a CNOT is carried out once"); sx_assert(it.last < now, "a CNOT is carried on with once in each slice"); 
        bool whole = x->route && x->local_instruction_sets && x->counter_pairs; sx_assert(whole, "a CNOT that is applied has its local operations"); if (!whole) return;
        auto& sets = *x->local_instruction_sets; auto& upto = *x->counter_pairs; sx_assert(sets.size() == upto.size(), "a CNOT that is applied has its local operations"); if (sets.size() != upto.size()) return;
        if (!it.started) {
            sx_assert(ready(i), "a CNOT starts only after all earlier ones on the same patches"); it.started = true; it.begun = now; it.upto.assign(sets.size(), 0); for (auto& p : x->route->cells) it.route.push_back(p.cell);
            auto& r = it.route; bool ok = r.size() >= 4 && r.front() == *first->find(it.t) && r.back() == *first->find(it.c); sx_assert(ok, "a route leads from the target to the control"); if (!ok) return;
            for (size_t k = 0; k + 1 < r.size(); ++k) { sx_assert(adjacent(r[k], r[k + 1]), "a route leads through neighbouring cells"); if (k) sx_assert(first->free(r[k]), "a route leads through free cells"); for (size_t h = 0; h < k; ++h) sx_assert(!(r[h] == r[k]), "a route visits a cell once"); }
            sx_assert(carries(*first, r.back(), side_towards(r.back(), r[r.size() - 2]), PauliOperator::Z) && carries(*first, r[0], side_towards(r[0], r[1]), PauliOperator::X), "a route starts and ends at the sides of the operators");
            for (int k = 0; k < 2; ++k) { int ref = it.m.s.add(1, 0), q = it.m.s.add(1, 0); it.m.s.h(ref); it.m.s.cx(ref, q); Cell d = k ? r[0] : r.back(); it.m.at[d] = q; it.m.id[d] = k ? it.t : it.c; it.m.data.insert(d); }
        }
        size_t size = sets.size(); bool all = true, later = false;
        for (size_t k = 0; k < size; ++k) { for (size_t o = it.upto[k]; o < upto[k].second && o < sets[k].size(); ++o) { it.todo.push_back(sets[k][o]); if (k >= 2 && it.last >= 0) later = true; } it.upto[k] = upto[k].second; all = all && upto[k].second == sets[k].size(); }
        phases = phases || later; it.last = now; if (all) { it.done = true; it.ended = now; ready_items(); }
    }
    void visit(const DenseSlice& s) {
        if (!first) { /* the first slice is shown after the first wave; the data patches are taken from the layout */ }
        Snap a(s); std::set<Cell> used, measured, live; sx_assert(ids_unique(a), "every patch id is on at most one cell");
        // The routes of the CNOTs under way.
        std::map<std::tuple<int, Cell, Cell>, int> edges; std::map<std::pair<int, Cell>, int> cells; std::set<Cell> through; int active = 0;     // those that started together
        for (auto& it : items) { if (it.started && !it.done) sx_assert(it.last == now, "a CNOT that was started is carried on with in each slice"); if (!it.started || (it.done && it.ended < now)) continue; ++active;
            for (size_t k = 0; k + 1 < it.route.size(); ++k) { auto e = std::make_tuple(it.begun, std::min(it.route[k], it.route[k + 1]), std::max(it.route[k], it.route[k + 1])); sx_assert(!edges[e]++, "the routes of CNOTs that start together share no side of a cell"); if (k) { through.insert(it.route[k]); int n = ++cells[{ it.begun, it.route[k] }]; sx_assert(n <= 2, "at most two routes cross in a cell"); if (n == 2) crossed = true; } } }
        together = together || active > 1;
        // What is done in this slice.
        std::map<Cell, Item*> owner; for (auto& it : items) if (it.started) for (auto& [c, q] : it.m.at) if (!it.m.data.count(c)) owner[c] = &it;
        for (auto& it : items) { for (auto& op : it.todo) { execute(it.m, op, *first, a, used, measured, [&](const Cell&) { return true; }, [&](const Cell& c) { return !owner.count(c) && first->free(c); }); if (it.m.impossible) { sx_assume(false); return; } } it.todo.clear(); }
        for (auto& it : items) if (it.started) for (auto& [c, q] : it.m.at) if (!it.m.data.count(c)) { const Held& h = a.at(c); sx_assert(h && h->type == PatchType::Qubit && h->id == it.m.id[c] && h->activity == PatchActivity::None, "the cells of a CNOT hold the patches it creates"); live.insert(c); std::set<Cell> r(it.route.begin(), it.route.end()); sx_assert(r.count(c), "a CNOT acts along its route"); }
        for (auto& c : measured) sx_assert(through.count(c), "a CNOT acts along its route");
        bool marks = false;
        a.each([&](const Cell& c) { const Held& h = a.at(c); const Held& f = first->at(c);
            if (f) { bool same = h && h->id == f->id && h->type == f->type && h->activity == f->activity; sx_assert(same, "the data patches stay"); if (!same) return;
                for (int k = 0; k < 4; ++k) { sx_assert(side(h->boundaries, k).boundary_type == side(f->boundaries, k).boundary_type, "the data patches have their own sides"); if (!used.count(c)) sx_assert(!side(h->boundaries, k).is_active, "only the patches of a CNOT are joined"); } return; }
            if (live.count(c) || measured.count(c)) return;
            if (!h) return; bool mark = h->type == PatchType::Routing && (h->activity == PatchActivity::EDPC || h->activity == PatchActivity::Reserved); sx_assert(mark, "a cell holds nothing but what the CNOTs under way need"); marks = true;
            bool needed = false; for (auto& it : items) if (it.started && !it.done) for (auto& r : it.route) needed = needed || r == c; sx_assert(needed, "marks are left only on the routes of CNOTs under way"); });
        for (auto& it : items) if (it.done && it.ended == now) {
            sx_assert(it.m.at.size() == 2, "every intermediate cell is measured out"); if (it.m.at.size() != 2) continue;
            sim::State w; int x[4]; for (int k = 0; k < 2; ++k) { x[2 * k] = w.add(1, 0); x[2 * k + 1] = w.add(1, 0); w.h(x[2 * k]); w.cx(x[2 * k], x[2 * k + 1]); } w.cx(x[1], x[3]);
            sx_assert(it.m.s.n == 4 && sim::same_up_to_pauli(it.m.s, w, { 1, 3 }), "the local operations amount to the CNOT");
        }
        if (!active) for (auto& it : items) sx_assert(!(it.ready >= 0 && it.ready < now && !it.started && route(it) >= 2), "a CNOT that can be carried out is not left waiting");
        ++now; ready_items();
    }
};
}

extern "C" void sx_harness() {
    std::string grid = sx_config("GRID"); if (grid.empty()) grid = "A.B/.../C.D"; int n = sx_config_int("N", 2), provider = sx_config_int("PROVIDER", 0), turn = sx_config_int("TURN", 1), wait = sx_config_int("WAIT", 24);
    GridLayout l; int r = 0, c = 0, cols = 0; std::vector<std::pair<char, Cell>> core;
    for (char ch : grid) { if (ch == '/') { ++r; c = 0; continue; } Cell at{ r, c++ }; cols = std::max(cols, c); if (ch >= 'A' && ch <= 'Z') core.push_back({ ch, at }); else if (ch == 'x') l.dead.push_back(at); else if (ch == '?') { if (sx_flag("dead")) l.dead.push_back(at); } }
    l.far = { r, cols - 1 }; std::sort(core.begin(), core.end(), [](auto& a, auto& b) { return a.first < b.first; });
    Program prog; Follow f; int nid = (int) core.size();
    for (int i = 0; i < nid; ++i) { bool v = turn == 1 ? sx_flag("turned") : turn == 2; l.core.push_back(SparsePatch{ Patch{ PatchType::Qubit, PatchActivity::None }, SingleCellOccupiedByPatch{ square_boundaries(v), core[i].second } }); prog.core.insert(i); }
    f.first.emplace(DenseSlice(l, prog.core));
    std::string pairs = sx_config("PAIRS");
    for (int i = 0; i < n; ++i) {
        Item it; it.m.all = sx_config_int("OUTCOMES", 0);
        if ((int) pairs.size() >= 2 * i + 2) { it.c = pairs[2 * i] - 'A'; it.t = pairs[2 * i + 1] - 'A'; if (sx_config_int("SWAP", 0)) if (sx_flag("swapped")) std::swap(it.c, it.t); }
        else { std::vector<PatchId> ids; for (PatchId p = 0; p < (PatchId) nid; ++p) { bool used = false; if (sx_config_int("DISTINCT", 0)) for (auto& o : f.items) used = used || o.c == p || o.t == p; if (!used) ids.push_back(p); }
            int k = sx_choice("control", ids.size()); it.c = ids[k]; ids.erase(ids.begin() + k); it.t = ids[sx_choice("target", ids.size())]; }
        BellBasedCNOT b{}; b.control = it.c; b.target = it.t; b.side1 = 100 + 2 * i; b.side2 = 101 + 2 * i; it.side1 = b.side1; LSInstruction ins; ins.operation = b; ins.wait_at_most_for = wait; prog.list.push_back(ins); f.items.push_back(it);
    }
    f.ready_items(); bool lost = false; for (auto& it : f.items) if (f.route(it) < 2) lost = true; if (sx_config_int("ROUTED", 0)) sx_assume(!lost);
    auto router = std::make_unique<CustomDPRouter>(); router->set_graph_search_provider(provider == 0 ? GraphSearchProvider::Djikstra : GraphSearchProvider::AStar);
    try {
        run_through_dense_slices(std::move(prog), PipelineMode::EDPC, true, false, l, std::move(router), std::nullopt, [&](const DenseSlice& s) { f.visit(s); sx_assert(f.now <= n * 8 + 8 + n * wait, "a program ends"); if (f.now > 300) throw 1; }, [&](const LSInstruction& i) { f.log(i); }, false, false);
        for (auto& it : f.items) sx_assert(it.started && it.done, "every CNOT of a program is carried out");
        sx_reach("completed"); if (f.together) sx_reach("together"); if (f.crossed) sx_reach("crossed"); if (f.phases) sx_reach("two phases");
    } catch (const std::runtime_error& e) { note(e.what()); sx_assert(lost, "a program is given up only when one of its CNOTs has no route"); sx_reach("given up"); }
    sx_reach("end");
}

// C26: gates declared interchangeable are; every order the dependency graph of a gate program allows is the program.
#include "common.hpp"
#include "sim.hpp"
#include <lsqecc/dag/domain_dags.hpp>
#include <sstream>
using namespace lsqecc; using namespace sxh; using gates::Gate; using Type = gates::BasicSingleQubitGate::Type;
namespace {
const Type T8[8] = { Type::X, Type::Y, Type::Z, Type::S, Type::T, Type::H, Type::SDg, Type::TDg };
Gate any_gate(int nq, int kinds) {
    int k = sx_choice("gate", kinds); uint32_t a = sx_choice("a", nq), b = a;
    if (k < 8) return gates::BasicSingleQubitGate{ a, T8[k] };
    if (k == 8) return gates::RZ{ a, Fraction{ 1, 4 } };
    if (k == 9) return gates::Reset{ "q", a };
    b = sx_choice("b", nq - 1); if (b >= a) ++b;
    if (k == 10) return gates::CNOT(b, a);
    if (k == 11) return gates::CZ(b, a);
    if (k == 12) return gates::CRZ(b, a, Fraction{ 1, 4 }, gates::ControlledGate::default_cnot_type, gates::ControlledGate::default_ancilla_placement);
    return gates::ControlledGate{ a, gates::BasicSingleQubitGate{ b, Type::H }, gates::ControlledGate::default_cnot_type, gates::ControlledGate::default_ancilla_placement };
}
void basic(sim::State& s, int q, Type t) { switch (t) { case Type::X: s.x(q); break; case Type::Y: s.y(q); break; case Type::Z: s.z(q); break; case Type::S: s.phase(q, 2); break; case Type::T: s.phase(q, 1); break; case Type::H: s.h(q); break; case Type::SDg: s.phase(q, -2); break; case Type::TDg: s.phase(q, -1); break; } }
int qb(uint32_t q) { return 2 * (int) q + 1; }
void run(sim::State& s, const Gate& g) {
    if (auto* b = std::get_if<gates::BasicSingleQubitGate>(&g)) basic(s, qb(b->target_qubit), b->gate_type);
    else if (auto* r = std::get_if<gates::RZ>(&g)) s.phase(qb(r->target_qubit), 1);
    else if (auto* r = std::get_if<gates::Reset>(&g)) {   // dephase into an environment qubit, then set to 0: one new qubit holds the old value
        int e = s.add(1, 0), q = qb(r->target_qubit); s.cx(q, e); s.cx(e, q);
    } else { auto& c = std::get<gates::ControlledGate>(g); int a = qb(c.control_qubit);
        if (auto* r = std::get_if<gates::RZ>(&c.target_gate)) { s.cphase(a, qb(r->target_qubit), 1); return; }
        auto& t = std::get<gates::BasicSingleQubitGate>(c.target_gate); int b = qb(t.target_qubit);
        if (t.gate_type == Type::X) s.cx(a, b); else if (t.gate_type == Type::Z) s.cphase(a, b, 4);
        else { size_t ba = size_t(1) << a; sim::State u = s; u.h(b); for (size_t i = 0; i < s.v.size(); ++i) if (i & ba) s.v[i] = u.v[i]; else s.v[i] = s.v[i] * (sim::Zw::w(1) - sim::Zw::w(3)); }   // controlled H, times sqrt 2
    }
}
sim::State start(int nq) { sim::State s; for (int i = 0; i < nq; ++i) { int r = s.add(1, 0), q = s.add(1, 0); s.h(r); s.cx(r, q); } return s; }
std::vector<uint32_t> qubits(const Gate& g) { std::vector<uint32_t> r; if (auto* b = std::get_if<gates::BasicSingleQubitGate>(&g)) r = { b->target_qubit }; else if (auto* z = std::get_if<gates::RZ>(&g)) r = { z->target_qubit }; else if (auto* x = std::get_if<gates::Reset>(&g)) r = { x->target_qubit }; else { auto& c = std::get<gates::ControlledGate>(g); r = { c.control_qubit, std::visit([](auto& t) { return t.target_qubit; }, c.target_gate) }; } return r; }
struct List : public GateStream { std::vector<Gate> gs; size_t pos = 0; Qreg q{ "q", 8 }; Gate get_next_gate() override { return gs.at(pos++); } bool has_next_gate() const override { return pos < gs.size(); } const Qreg& get_qreg() const override { return q; } };
bool resets(const Gate& g) { return std::holds_alternative<gates::Reset>(g); }
// two orders of a program with resets differ at most in the order of the environment qubits; each reset is numbered
sim::State ordered(const std::vector<Gate>& gs, const std::vector<int>& order, int nq) {
    sim::State s = start(nq); int ne = 0; for (auto& g : gs) ne += resets(g); std::vector<int> env(gs.size(), -1); int k = 2 * nq; for (size_t i = 0; i < gs.size(); ++i) if (resets(gs[i])) env[i] = k++;
    for (int i = 0; i < ne; ++i) s.add(1, 0);
    for (int i : order) { if (resets(gs[i])) { int q = qb(std::get<gates::Reset>(gs[i]).target_qubit); s.cx(q, env[i]); s.cx(env[i], q); } else run(s, gs[i]); s.reduce(); }
    return s;
}
}
extern "C" void sx_harness() {
    int what = sx_config_int("WHAT", 0), nq = sx_config_int("NQ", 3), kinds = 14;
    if (what == 0) {
        Gate a = any_gate(nq, kinds), b = any_gate(nq, kinds);
        auto qa = qubits(a), qc = qubits(b); bool disjoint = true; for (auto x : qa) for (auto y : qc) disjoint = disjoint && x != y;
        auto oa = gates::get_operating_qubits(a); sx_assert(oa.size() == qa.size(), "a gate operates on exactly its qubits"); for (auto x : qa) sx_assert(oa.contains(x), "a gate operates on exactly its qubits");
        bool c = dag::CommutationTrait<Gate>::can_commute(a, b), c2 = dag::CommutationTrait<Gate>::can_commute(b, a);
        sx_assert(c == c2, "being interchangeable does not depend on the order");
        if (disjoint) { sx_assert(c, "gates on different qubits are interchangeable"); sx_reach("disjoint"); }
        if (c) { auto x = ordered({ a, b }, { 0, 1 }, nq), y = ordered({ a, b }, { 1, 0 }, nq); sx_assert(sim::State::proportional(x.v, y.v), "interchangeable gates have the same effect in both orders"); if (!disjoint) sx_reach("overlapping"); }
    } else {
        int n = sx_config_int("N", 3); List l; for (int i = 0; i < n; ++i) l.gs.push_back(any_gate(nq, kinds));
        auto gs = l.gs; auto d = dag::full_dependency_dag_from_gate_stream(l);
        // take the gates in any order the graph allows
        std::vector<int> order; auto txt = [](const Gate& g) { std::ostringstream o; o << g; return o.str(); };
        std::vector<std::string> names; for (auto& g : gs) names.push_back(txt(g)); std::vector<bool> used(n, false);
        while (!d.empty()) {
            auto heads = d.applicable_instructions(); sx_assert(!heads.empty(), "a gate program always has a next gate"); sx_assert((int) order.size() < n, "every gate of the program is done once");
            auto it = heads.begin(); for (unsigned k = sx_choice("head", heads.size()); k > 0; --k) ++it;
            auto lab = *it; std::string t = txt(d.at(lab)); int which = -1; for (int i = 0; i < n && which < 0; ++i) if (!used[i] && names[i] == t) which = i;
            sx_assert(which >= 0, "every gate of the program is done once"); used[which] = true; order.push_back(which); d.pop_head(lab);
        }
        sx_assert((int) order.size() == n, "every gate of the program is done once");
        std::vector<int> id; for (int i = 0; i < n; ++i) id.push_back(i);
        if (order != id) sx_reach("reordered"); else sx_reach("in order");
        auto x = ordered(gs, id, nq), y = ordered(gs, order, nq); sx_assert(sim::State::proportional(x.v, y.v), "every order the dependency graph allows has the effect of the program");
    }
}

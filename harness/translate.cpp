// C12, C13, C16, C17, C18: what the emitted instructions do to the logical qubits, exactly, for every measurement outcome.
#include "common.hpp"
#include "sim.hpp"
#include <lsqecc/ls_instructions/ls_instruction_stream.hpp>
#include <lsqecc/ls_instructions/boundary_rotation_injection_stream.hpp>
#include <lsqecc/ls_instructions/teleported_s_gate_injection_stream.hpp>
#include <lsqecc/ls_instructions/catalytic_s_gate_injection_stream.hpp>
#include <lsqecc/gates/decompose_rotation_stream.hpp>
#include <lsqecc/gates/gate_approximator.hpp>
#include <lsqecc/layout/dynamic_layouts/compact_layout.hpp>
#include <lsqecc/layout/dynamic_layouts/determine_exposed_operators.hpp>
#include <memory>
#include <set>
using namespace lsqecc; using namespace sxh; using gates::Gate; using Type = gates::BasicSingleQubitGate::Type; using Op = SingleQubitOp::Operator;
namespace {
const Type T8[8] = { Type::X, Type::Y, Type::Z, Type::S, Type::T, Type::H, Type::SDg, Type::TDg };
struct List : public GateStream { std::vector<Gate> gs; size_t pos = 0; Qreg q{ "q", 2 }; Gate get_next_gate() override { return gs.at(pos++); } bool has_next_gate() const override { return pos < gs.size(); } const Qreg& get_qreg() const override { return q; } };
struct Source : public LSInstructionStream { std::vector<LSInstruction> is; size_t pos = 0; tsl::ordered_set<PatchId> core; LSInstruction get_next_instruction() override { return is.at(pos++); } bool has_next_instruction() const override { return pos < is.size(); } const tsl::ordered_set<PatchId>& core_qubits() const override { return core; } };
template <class S> std::vector<LSInstruction> drain(S& s) { std::vector<LSInstruction> r; while (s.has_next_instruction()) { r.push_back(s.get_next_instruction()); sx_assert(r.size() < 200, "a finite program yields a finite instruction stream"); } return r; }
bool outcome() { return sx_flag("outcome"); }

void ideal(sim::State& s, const std::map<PatchId, int>& at, const Gate& g) {
    auto basic = [&](int q, Type t) { switch (t) { case Type::X: s.x(q); break; case Type::Y: s.y(q); break; case Type::Z: s.z(q); break; case Type::S: s.phase(q, 2); break; case Type::T: s.phase(q, 1); break; case Type::H: s.h(q); break; case Type::SDg: s.phase(q, -2); break; case Type::TDg: s.phase(q, -1); break; } };
    if (auto* b = std::get_if<gates::BasicSingleQubitGate>(&g)) basic(at.at(b->target_qubit), b->gate_type);
    else if (auto* r = std::get_if<gates::RZ>(&g)) { int64_t e = r->pi_fraction.num * 4 / r->pi_fraction.den; s.phase(at.at(r->target_qubit), r->pi_fraction.is_negative ? -(int) e : (int) e); }
    else { auto& c = std::get<gates::ControlledGate>(g); auto& t = std::get<gates::BasicSingleQubitGate>(c.target_gate); int a = at.at(c.control_qubit), b = at.at(t.target_qubit); if (t.gate_type == Type::X) s.cx(a, b); else s.cphase(a, b, 4); }
    s.reduce();
}
// CNOT ancillas: created as |+>, joined in two steps, measured in X. The basis of the measurement (control first) respectively the initial
// state (target first) would have to be the other one. Returns the program with that replaced, and whether anything was.
bool repaired(std::vector<LSInstruction>& is) {
    bool any = false;
    for (size_t i = 0; i < is.size(); ++i) if (auto* in = std::get_if<PatchInit>(&is[i].operation)) {
        PatchId a = in->target; std::vector<PauliOperator> ops; size_t end = 0;
        for (size_t j = i + 1; j < is.size() && !end; ++j) { if (auto* m = std::get_if<MultiPatchMeasurement>(&is[j].operation)) { if (m->observable.contains(a)) ops.push_back(m->observable.at(a)); } else if (auto* m = std::get_if<SinglePatchMeasurement>(&is[j].operation)) { if (m->target == a) end = j; } }
        if (!end || ops.size() != 2 || in->state != PatchInit::InitializeableStates::Plus) continue;
        auto& m = std::get<SinglePatchMeasurement>(is[end].operation); if (m.observable != PauliOperator::X) continue;
        if (ops[0] == PauliOperator::Z && ops[1] == PauliOperator::X) { m.observable = PauliOperator::Z; any = true; }
        else if (ops[0] == PauliOperator::X && ops[1] == PauliOperator::Z) { in->state = PatchInit::InitializeableStates::Zero; any = true; }
    }
    return any;
}
// Runs the instructions for one choice of outcomes. 0: does something else; 1: right up to Pauli corrections; 2: these outcomes cannot occur
int simulate(const std::vector<LSInstruction>& is, const std::vector<Gate>& gs, const std::vector<PatchId>& data, bool anyS, bool must = true) {
    sim::Program p; for (PatchId d : data) p.data(d);
    sim::Program want = p; for (auto& g : gs) ideal(want.s, want.at, g);
    int nS = 0; for (auto& i : is) {
        if (auto* x = std::get_if<SingleQubitOp>(&i.operation)) if (anyS && x->op == Op::S) { ++nS; if (!sx_flag("S applied")) continue; }
        if (!p.run(i, outcome)) { if (p.impossible) return 2; if (must) { note(p.error); sx_assert(false, p.error.c_str()); } return 0; }
    }
    sx_assert(p.at.size() == data.size(), "every auxiliary patch is measured or given back by the end");
    std::vector<int> q; for (PatchId d : data) q.push_back(want.at[d]);
    bool ok = sim::same_up_to_pauli(p.s, want.s, q);
    if (anyS) { // the S correction of the teleported T: needed for one of the outcomes and superfluous for the other
        return ok ? 1 : 3;
    }
    return ok ? 1 : 0;
}
void freshness(const std::vector<LSInstruction>& is, const std::vector<PatchId>& core) {
    std::set<PatchId> ever(core.begin(), core.end()), live = ever, ys;
    auto make = [&](PatchId id) { sx_assert(!ever.count(id), "every new patch gets an id never used before"); ever.insert(id); live.insert(id); };
    for (auto& i : is) {
        if (auto* x = std::get_if<PatchInit>(&i.operation)) make(x->target);
        else if (auto* x = std::get_if<MagicStateRequest>(&i.operation)) make(x->target);
        else if (auto* x = std::get_if<YStateRequest>(&i.operation)) { if (ys.count(x->target)) { ys.erase(x->target); live.erase(x->target); } else { make(x->target); ys.insert(x->target); } }
        else if (auto* x = std::get_if<BellBasedCNOT>(&i.operation)) { sx_assert(live.count(x->control) && live.count(x->target), "instructions refer to existing patches"); make(x->side1); make(x->side2); live.erase(x->side1); live.erase(x->side2); }
        else { for (PatchId id : i.get_operating_patches()) sx_assert(live.count(id) != 0, "instructions refer to existing patches"); if (auto* m = std::get_if<SinglePatchMeasurement>(&i.operation)) live.erase(m->target); }
    }
}
Gate some_gate(int nq, bool clifford) {
    int k = sx_choice("gate", clifford ? 9 : 12); uint32_t a = sx_choice("a", nq);
    static const Type C[6] = { Type::H, Type::S, Type::X, Type::SDg, Type::Z, Type::Y };
    if (k < 6) return gates::BasicSingleQubitGate{ a, C[k] };
    if (k < 9) {
        uint32_t b = sx_choice("b", nq - 1); if (b >= a) ++b;
        auto ty = sx_flag("type") ? gates::CNOTType::ZX_WITH_MBM_TARGET_FIRST : gates::CNOTType::ZX_WITH_MBM_CONTROL_FIRST; if (k == 8) ty = gates::CNOTType::BELL_BASED;
        auto pl = gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_CONTROL;
        return k == 7 ? gates::CZ(b, a, ty, pl) : gates::CNOT(b, a, ty, pl);
    }
    if (k == 9) return gates::T(a); if (k == 10) return gates::TDg(a);
    return gates::RZ{ a, Fraction{ 1, 2, sx_flag("negative") } };
}
struct Ex { bool x, z; };
bool isop(const LSInstruction& i, Op o, PatchId id) { auto* g = std::get_if<SingleQubitOp>(&i.operation); return g && g->op == o && g->target == id; }
// C16: before every joint measurement (and S and long-range CNOT) the operator is exposed; rotations appear only where needed; nothing else changes
void exposure(const std::vector<LSInstruction>& out, const std::vector<LSInstruction>& in, std::map<PatchId, Ex> ex) {
    size_t k = 0; std::set<PatchId> pending;
    for (auto& i : out) {
        auto* r = std::get_if<RotateSingleCellPatch>(&i.operation);
        if (r && !(k < in.size() && in[k] == i && pending.empty() )) { // inserted
            sx_assert(ex.count(r->target) != 0 && !pending.count(r->target), "only core patches are turned, once"); std::swap(ex[r->target].x, ex[r->target].z); if (ex[r->target].x != ex[r->target].z) pending.insert(r->target); continue;
        }
        sx_assert(k < in.size() && in[k] == i, "the program itself is unchanged"); ++k;
        std::vector<std::pair<PatchId, PauliOperator>> needs;
        if (auto* m = std::get_if<MultiPatchMeasurement>(&i.operation)) for (auto& p : m->observable) needs.push_back({ p.first, p.second });
        if (auto* b = std::get_if<BellBasedCNOT>(&i.operation)) { needs.push_back({ b->control, PauliOperator::Z }); needs.push_back({ b->target, PauliOperator::X }); }
        if (auto* s = std::get_if<SingleQubitOp>(&i.operation)) { if (s->op == Op::S) needs.push_back({ s->target, PauliOperator::Z }); }
        for (auto& n : needs) { if (!ex.count(n.first)) continue; bool ok = n.second == PauliOperator::X ? ex[n.first].x : ex[n.first].z; sx_assert(ok, "the measured operator is exposed"); pending.erase(n.first); }
        sx_assert(pending.empty(), "patches are turned only when the operator was not exposed");
        if (auto* s = std::get_if<SingleQubitOp>(&i.operation)) if (s->op == Op::H && ex.count(s->target)) std::swap(ex[s->target].x, ex[s->target].z);
        if (r && ex.count(r->target)) std::swap(ex[r->target].x, ex[r->target].z);
    }
    sx_assert(k == in.size() && pending.empty(), "the program itself is unchanged");
}
}

// C13: the approximation of single rotations (an external program) is replaced by a stand-in that keeps the rotation as it was asked for.
static bool record_rotations = false;
namespace lsqecc { std::vector<gates::Gate> approximate_RZ_gate(const gates::RZ rz, double) { if (!record_rotations) throw std::runtime_error{ "no approximation" }; return { rz }; } }

extern "C" void sx_harness() {
    int what = sx_config_int("WHAT", 0);
    bool local = sx_config_int("LOCAL", 0);
    if (what == 0) {          // one gate
        List l; l.q.size = 2 + sx_choice("register", 2); std::vector<PatchId> core; for (PatchId i = 0; i < l.q.size; ++i) core.push_back(i);
        uint32_t a = sx_choice("a", l.q.size), b = sx_choice("b", l.q.size - 1); if (b >= a) ++b;
        int k = sx_choice("kind", 13); Gate g = gates::X(a); bool refused = false, tlike = false; auto always = sx_flag("corrections") ? CNOTCorrectionMode::ALWAYS : CNOTCorrectionMode::NEVER;
        auto ty = gates::CNOTType(sx_choice("type", 3)); auto pl = gates::CNOTAncillaPlacement(sx_choice("placement", 3)); bool bell = local || ty == gates::CNOTType::BELL_BASED;
        if (k < 8) { g = gates::BasicSingleQubitGate{ a, T8[k] }; tlike = T8[k] == Type::T || T8[k] == Type::TDg; }
        else if (k == 8) { Fraction f{ 1 + 2 * (int64_t) sx_choice("num", 2), int64_t(1) << sx_choice("den", 4), sx_flag("negative") }; g = gates::RZ{ a, f }; refused = f.num != 1 || f.den == 8; tlike = f.den == 4; }
        else if (k == 9 || k == 10) { g = k == 9 ? gates::CNOT(b, a, ty, pl) : gates::CZ(b, a, ty, pl); refused = bell && always == CNOTCorrectionMode::ALWAYS; }
        else if (k == 11) { g = sx_flag("rotation") ? gates::CRZ(b, a, Fraction{ 1, 4 }, ty, pl) : gates::ControlledGate{ a, gates::H(b), ty, pl }; refused = true; }
        else { bool wrong = sx_flag("other register"); g = gates::Reset{ wrong ? "r" : "q", a }; refused = wrong; }
        l.gs = { g }; IdGenerator ids; ids.set_start(l.q.size); LSInstructionStreamFromGateStream st(l, always, ids, local);
        sx_assert(st.core_qubits().size() == l.q.size, "the core patches are the register"); for (PatchId c : core) sx_assert(st.core_qubits().contains(c), "the core patches are the register");
        std::vector<LSInstruction> is; bool threw = false; try { is = drain(st); } catch (const std::exception&) { threw = true; }
        if (k == 8 && threw) { sx_reach("refused"); return; } // rotations that have no implementation are refused
        sx_assert(threw == refused, "a gate is either implemented or refused"); if (threw) { sx_reach("refused"); return; }
        freshness(is, core);
        if (k == 12) { sx_assert(is.size() == 1 && is[0].operation == decltype(is[0].operation)(PatchReset{ a }), "reset resets the qubit"); sx_reach("reset"); return; }
        if (k == 9 || k == 10) { // placement of the ancilla, corrections
            int paulis = 0, inits = 0; for (auto& i : is) { if (auto* s = std::get_if<SingleQubitOp>(&i.operation)) paulis += s->op == Op::X || s->op == Op::Z;
                if (auto* in = std::get_if<PatchInit>(&i.operation)) { ++inits; std::optional<PlaceNexTo> e; if (pl == gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_CONTROL) e = PlaceNexTo{ a, PauliOperator::Z }; if (pl == gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET) e = PlaceNexTo{ b, PauliOperator::X };
                    sx_assert(in->place_next_to == e, "the ancilla goes where the gate asks for"); auto dep = i.get_patch_dependencies(); sx_assert(dep.contains(a) && dep.contains(b), "the ancilla waits for the operands"); } }
            sx_assert(inits == !bell, "the gate is implemented the way it asks for"); sx_assert(paulis == (always == CNOTCorrectionMode::ALWAYS ? 2 : 0), "corrections are emitted exactly when asked for");
            if (!bell) { bool first = true; for (auto& i : is) if (auto* m = std::get_if<MultiPatchMeasurement>(&i.operation)) { sx_assert(m->observable.size() == 2 && m->observable.contains((ty == gates::CNOTType::ZX_WITH_MBM_CONTROL_FIRST) == first ? a : b), "control or target first, as the gate asks for"); first = false; } }
        }
        for (auto& i : is) if (auto* m = std::get_if<MagicStateRequest>(&i.operation)) { sx_assert(m->near_patch == a && i.get_patch_dependencies().contains(a) && i.wait_at_most_for == MagicStateRequest::DEFAULT_WAIT, "the magic state is requested for the qubit"); }
        if (sx_config_int("LITERAL", 0)) {
            if (bell || (k != 9 && k != 10)) return;
            auto fixed = is; bool rep = repaired(fixed); int r = simulate(is, { g }, core, false, false); if (r == 2) return;
            if (r == 1) { sx_reach("cnot"); return; }
            int f = rep ? simulate(fixed, { g }, core, false, false) : 0;
            if (f == 2) return;
            sx_assert(f != 1, ty == gates::CNOTType::ZX_WITH_MBM_CONTROL_FIRST ? "CNOT, control first: the ancilla is measured in X at the end, which measures the target; Z would be right" : "CNOT, target first: the ancilla starts in |+>, so joining it to the target measures the target; |0> would be right");
            sx_assert(false, "a gate is implemented exactly, up to Pauli corrections"); return;
        }
        repaired(is);
        if (!tlike) { int r = simulate(is, { g }, core, false); if (r == 2) return; sx_assert(r == 1, "a gate is implemented exactly, up to Pauli corrections"); sx_reach("exact"); }
        else { // T: the S that follows is applied for one of the outcomes of the joining measurement
            int good = 0; for (int m = 0; m < 2; ++m) { bool found = false; for (int s = 0; s < 2 && !found; ++s) {
                sim::Program p; for (PatchId d : core) p.data(d); sim::Program want = p; ideal(want.s, want.at, g); int no = 0, nS = 0; bool ok = true; bool last = sx_flag("outcome");
                auto out = [&]() { return no++ == 0 ? (bool) m : last; };
                for (auto& i : is) { if (auto* x = std::get_if<SingleQubitOp>(&i.operation)) if (x->op == Op::S) { ++nS; if (!s) continue; } if (!p.run(i, out)) { ok = false; break; } }
                sx_assert(p.impossible || p.error.empty(), "instructions refer to existing patches"); sx_assert(!ok || (nS == 1 && p.at.size() == core.size()), "a T gate consumes its magic state and is followed by one S");
                std::vector<int> q; for (PatchId d : core) q.push_back(want.at[d]);
                if (ok && sim::same_up_to_pauli(p.s, want.s, q)) found = true; if (p.impossible) return; }
                good += found; }
            sx_assert(good == 2, "a T gate is implemented exactly, up to Pauli corrections and the S correction"); sx_reach("T");
        }
    } else if (what == 1) {   // programs, through the translations that a layout asks for
        int n = sx_config_int("N", 2), mode = sx_config_int("MODE", 0), nq = sx_config_int("NQ", 2); bool clifford = sx_config_int("CLIFFORD", 1);
        List l; l.q.size = nq; std::vector<PatchId> core; for (int i = 0; i < nq; ++i) core.push_back(i); for (int i = 0; i < n; ++i) l.gs.push_back(some_gate(nq, clifford)); auto gs = l.gs;
        IdGenerator ids; ids.set_start(nq); std::unique_ptr<LSInstructionStream> st = std::make_unique<LSInstructionStreamFromGateStream>(l, CNOTCorrectionMode::NEVER, ids, local);
        if (mode == 1) { tsl::ordered_map<PatchId, RotatableSingleQubitPatchExposedOperators> ex; for (PatchId c : core) { bool x = sx_flag("x exposed"); ex[c] = { x, !x }; } st = std::make_unique<BoundaryRotationInjectionStream>(std::move(st), std::move(ex)); st = std::make_unique<TeleportedSGateInjectionStream>(std::move(st), ids, false); }
        if (mode == 2) st = std::make_unique<TeleportedSGateInjectionStream>(std::move(st), ids, true);
        if (mode == 3) st = std::make_unique<CatalyticSGateInjectionStream>(std::move(st), ids, local, true);
        auto is = drain(*st); freshness(is, core); sx_reach("ids fresh");
        if (mode) for (size_t i = 0; i < is.size(); ++i) { if (auto* s = std::get_if<SingleQubitOp>(&is[i].operation)) if (s->target < (PatchId) nq) {
            sx_assert(s->op != Op::S, "no S remains on a core patch");
            if (mode >= 2 && s->op == Op::H) { auto* r = i + 1 < is.size() ? std::get_if<RotateSingleCellPatch>(&is[i + 1].operation) : nullptr; sx_assert(r && r->target == s->target, "an H is followed by a rotation of the patch"); } }
            if (auto* y = std::get_if<YStateRequest>(&is[i].operation)) { sx_assert(y->near_patch < (PatchId) nq && is[i].wait_at_most_for == YStateRequest::DEFAULT_WAIT, "a Y state is requested next to the qubit it is for"); } }
        if (!clifford) return;
        repaired(is); int r = simulate(is, gs, core, false); if (r == 2) return; sx_assert(r == 1, "a program is implemented exactly, up to Pauli corrections"); sx_reach("exact");
    } else if (what == 2) {   // rotation injection on arbitrary instruction programs
        int n = sx_config_int("N", 3); auto src = std::make_unique<Source>(); src->core = { 0, 1 };
        tsl::ordered_map<PatchId, RotatableSingleQubitPatchExposedOperators> ex; std::map<PatchId, Ex> mine; for (PatchId c = 0; c < 2; ++c) { int e = sx_choice("exposed", 3); bool x = e != 0, z = e != 1; ex[c] = { x, z }; mine[c] = { x, z }; }
        for (int i = 0; i < n; ++i) {
            PatchId a = sx_choice("a", 2), b = 1 - a; PauliOperator p = sx_flag("p") ? PauliOperator::X : PauliOperator::Z, q = PauliOperator::Z;
            switch (sx_choice("instruction", 9)) {
                case 0: src->is.push_back({ .operation = SingleQubitOp{ a, Op::H } }); break;
                case 1: src->is.push_back({ .operation = SingleQubitOp{ a, Op::S } }); break;
                case 2: src->is.push_back({ .operation = SingleQubitOp{ a, Op::Z } }); break;
                case 3: if (sx_flag("q")) q = PauliOperator::X; src->is.push_back({ .operation = MultiPatchMeasurement{ .observable = { { a, p }, { b, q } }, .is_negative = false } }); break;
                case 4: src->is.push_back({ .operation = MultiPatchMeasurement{ .observable = { { a, p }, { 9, PauliOperator::X } }, .is_negative = false } }); break;
                case 5: src->is.push_back({ .operation = BellBasedCNOT{ a, b, 7, 8 } }); break;
                case 6: src->is.push_back({ .operation = PatchInit{ 9, PatchInit::InitializeableStates::Plus, PlaceNexTo{ a, p } }, .clients = { a } }); break;
                case 7: src->is.push_back({ .operation = BellBasedCNOT{ a, 9, 7, 8 } }); break;
                case 8: src->is.push_back({ .operation = RotateSingleCellPatch{ a } }); break;
            }
        }
        auto in = src->is; BoundaryRotationInjectionStream st(std::move(src), std::move(ex)); sx_assert(st.core_qubits().size() == 2, "the core patches are unchanged");
        auto out = drain(st); exposure(out, in, mine); sx_reach(out.size() > in.size() ? "rotations" : "no rotations");
    } else if (what == 3) {   // S injection on arbitrary instruction programs: only S on core patches is touched
        int n = sx_config_int("N", 3); bool cat = sx_flag("catalytic"), rot = sx_flag("always rotate"); auto src = std::make_unique<Source>(); src->core = { 0, 1 };
        for (int i = 0; i < n; ++i) { PatchId a = sx_choice("a", 3); static const Op O[4] = { Op::S, Op::H, Op::X, Op::Z }; int k = sx_choice("op", 6);
            if (k < 4) src->is.push_back({ .operation = SingleQubitOp{ a, O[k] }, .wait_at_most_for = 5 }); else if (k == 4) src->is.push_back({ .operation = MultiPatchMeasurement{ .observable = { { a, PauliOperator::X }, { (a + 1) % 3, PauliOperator::Z } }, .is_negative = false } }); else src->is.push_back({ .operation = RotateSingleCellPatch{ a } }); }
        auto in = src->is; IdGenerator ids; ids.set_start(10); std::unique_ptr<LSInstructionStream> st; if (cat) st = std::make_unique<CatalyticSGateInjectionStream>(std::move(src), ids, local, rot); else st = std::make_unique<TeleportedSGateInjectionStream>(std::move(src), ids, rot);
        auto out = drain(*st); freshness(out, { 0, 1, 2 }); size_t o = 0;
        for (auto& i : in) {
            auto* s = std::get_if<SingleQubitOp>(&i.operation);
            if (s && s->op == Op::S && s->target < 2) { // the block that implements it: begins with a Y state request, uses only the qubit and new patches, acts as S
                sx_assert(o < out.size() && std::holds_alternative<YStateRequest>(out[o].operation), "an S on a core patch takes a Y state"); PatchId y = std::get<YStateRequest>(out[o].operation).target;
                sx_assert(out[o].get_patch_dependencies().contains(s->target), "the Y state request waits for the qubit");
                std::vector<LSInstruction> block; size_t e = o; int ny = 0; for (; e < out.size(); ++e) { if (e > o && !cat) { auto* z = std::get_if<SingleQubitOp>(&out[e].operation); block.push_back(out[e]); if (z && z->target == s->target) { ++e; break; } continue; }
                    block.push_back(out[e]); if (auto* r = std::get_if<YStateRequest>(&out[e].operation)) if (r->target == y && ++ny == 2) { ++e; break; } }
                repaired(block); int r = simulate(block, { gates::S(s->target) }, { s->target }, false); if (r == 2) return; sx_assert(r == 1, "an S on a core patch is implemented exactly, up to Pauli corrections"); sx_reach("S"); o = e;
            } else {
                sx_assert(o < out.size() && out[o] == i, "everything else passes through unchanged"); ++o;
                if (rot && s && s->op == Op::H && s->target < 2) { sx_assert(o < out.size() && out[o].operation == decltype(i.operation)(RotateSingleCellPatch{ s->target }), "an H is followed by a rotation of the patch"); ++o; }
            }
        }
        sx_assert(o == out.size(), "nothing is added"); sx_reach("passed");
    } else if (what == 4) {   // exposed operators of the compact layouts
        size_t n = 1 + sx_choice("qubits", sx_config_int("MOST", 8)); auto layout = make_compact_layout(n, DistillationOptions{}, sx_flag("no clogging")); tsl::ordered_set<PatchId> core; for (PatchId i = 0; i < n; ++i) core.insert(i);
        auto ex = determine_exposed_core_operators(*layout, core); sx_assert(ex.size() == n, "every core patch is known"); DenseSlice s{ *layout, core };
        for (PatchId i = 0; i < n; ++i) { Cell c = s.get_cell_by_id(i).value(); bool x = false, z = false; auto p = s.get_sparse_patch_by_id(i).value(); auto& occ = std::get<SingleCellOccupiedByPatch>(p.cells);
            for (int k = 0; k < 4; ++k) { Cell nb = step(c, k); if (!inside(nb, layout->furthest_cell()) || !s.is_cell_free(nb)) continue; auto bt = side(occ, k).boundary_type; x = x || bt == BoundaryType::Rough; z = z || bt == BoundaryType::Smooth; }
            sx_assert(ex.at(i).x_exposed == x && ex.at(i).z_exposed == z, "the exposed operators are those of the sides next to free cells"); sx_assert(ex.at(i).is_exposed(PauliOperator::X) == x && ex.at(i).is_exposed(PauliOperator::Z) == z && (x || z), "a compact patch exposes an operator"); }
        sx_reach("layout");
    } else if (what == 5) {   // C13: controlled rotations
        record_rotations = true; int64_t num = sx_i64("num", -1000, 1000), den = sx_i64("den", 1, 1 << 20); bool neg = sx_flag("negative"); uint32_t a = sx_choice("a", 3), b = sx_choice("b", 2); if (b >= a) ++b;
        auto ty = gates::CNOTType(sx_choice("type", 3)); auto pl = gates::CNOTAncillaPlacement(sx_choice("placement", 3)); Gate g = gates::CRZ(b, a, Fraction{ num, den, neg }, ty, pl);
        std::vector<Gate> ds; bool stream = sx_flag("stream"), plain = false; std::vector<Gate> rest;
        if (stream) { auto l = std::make_unique<List>(); plain = sx_flag("first an ordinary gate"); if (plain) l->gs.push_back(gates::H(b)); l->gs.push_back(g); l->gs.push_back(gates::CNOT(a, b)); DecomposeRotationStream s(std::move(l), 10.0); while (s.has_next_gate()) { ds.push_back(s.get_next_gate()); sx_assert(ds.size() < 50, "a finite program stays finite"); } }
        else ds = gates::decompose(g, 10.0);
        if (stream) { if (plain) { auto* h = std::get_if<gates::BasicSingleQubitGate>(&ds.at(0)); sx_assert(h && h->gate_type == Type::H && h->target_qubit == b, "other gates pass through in order"); ds.erase(ds.begin()); } auto* c = std::get_if<gates::ControlledGate>(&ds.back()); sx_assert(c && c->control_qubit == b && std::get<gates::BasicSingleQubitGate>(c->target_gate).target_qubit == a, "other gates pass through in order"); ds.pop_back(); }
        // phases of the four basis states of (control, target): a rotation about Z by t is diag(1, e^it) up to a global phase; CNOTs permute
        // an RZ by f*pi contributes f to the states in which its qubit is 1; in units of pi/(2*den)
        int64_t ph[4] = { 0, 0, 0, 0 }; int st[4] = { 0, 1, 2, 3 }; // bit 0 control, bit 1 target
        for (auto& d : ds) {
            if (auto* r = std::get_if<gates::RZ>(&d)) { sx_assert(r->target_qubit == a || r->target_qubit == b, "only the operands are touched"); sx_assert(r->pi_fraction.den == 2 * den, "half angles"); int64_t v = r->pi_fraction.is_negative ? -r->pi_fraction.num : r->pi_fraction.num; int bit = r->target_qubit == a ? 0 : 1; for (int k = 0; k < 4; ++k) if (st[k] >> bit & 1) ph[k] += v; }
            else { auto* c = std::get_if<gates::ControlledGate>(&d); sx_assert(c != nullptr, "rotations and CNOTs only"); auto* t = std::get_if<gates::BasicSingleQubitGate>(&c->target_gate); sx_assert(t && t->gate_type == Type::X && c->control_qubit == a && t->target_qubit == b && c->cnot_type == ty && c->cnot_ancilla_placement == pl, "CNOTs as annotated"); for (int k = 0; k < 4; ++k) if (st[k] & 1) st[k] ^= 2; }
        }
        int64_t want = neg ? -2 * num : 2 * num; for (int k = 0; k < 4; ++k) sx_assert(st[k] == k, "the CNOTs cancel");
        sx_assert(ph[1] == ph[0] && ph[2] == ph[0] && ph[3] - ph[0] == want, "the decomposition is the controlled rotation"); sx_reach("rotation");
        for (auto& d : ds) sx_assert(!std::holds_alternative<gates::ControlledGate>(d) || gates::is_decomposed(d), "the result needs no further decomposition"); sx_assert(!gates::is_decomposed(g), "a controlled rotation needs decomposition");
    }
}

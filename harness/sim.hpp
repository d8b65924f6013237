// An exact simulator of small quantum programs, over Z[w] with w = exp(i*pi/4) (no rounding, no normalisation).
#pragma once
#include "sx.h"
#include <lsqecc/ls_instructions/ls_instructions.hpp>
#include <map>
#include <vector>
namespace sim {
using namespace lsqecc;
struct Zw {
    int64_t a[4] = { 0, 0, 0, 0 };
    Zw() {} Zw(int64_t x) { a[0] = x; }
    static Zw w(int k) { Zw r; k &= 7; r.a[k & 3] = k < 4 ? 1 : -1; return r; }
    bool zero() const { return !a[0] && !a[1] && !a[2] && !a[3]; }
    bool operator==(const Zw& o) const { return a[0] == o.a[0] && a[1] == o.a[1] && a[2] == o.a[2] && a[3] == o.a[3]; }
    Zw operator+(const Zw& o) const { Zw r; for (int i = 0; i < 4; ++i) r.a[i] = a[i] + o.a[i]; return r; }
    Zw operator-(const Zw& o) const { Zw r; for (int i = 0; i < 4; ++i) r.a[i] = a[i] - o.a[i]; return r; }
    Zw operator*(const Zw& o) const { Zw r; for (int i = 0; i < 4; ++i) if (a[i]) for (int j = 0; j < 4; ++j) { if (i + j < 4) r.a[i + j] += a[i] * o.a[j]; else r.a[i + j - 4] -= a[i] * o.a[j]; } return r; }
};
using Vec = std::vector<Zw>;
// Qubit k is bit k of the index.
struct State {
    int n = 0; Vec v{ Zw(1) };
    int add(Zw x0, Zw x1) { Vec r(v.size() * 2); for (size_t i = 0; i < v.size(); ++i) { r[i] = v[i] * x0; r[i + v.size()] = v[i] * x1; } v = r; return n++; }
    void apply(int q, const Zw m[4]) { size_t b = size_t(1) << q; for (size_t i = 0; i < v.size(); ++i) if (!(i & b)) { Zw x = v[i], y = v[i | b]; v[i] = m[0] * x + m[1] * y; v[i | b] = m[2] * x + m[3] * y; } }
    void h(int q) { Zw m[4] = { 1, 1, 1, -1 }; apply(q, m); }
    void phase(int q, int k) { size_t b = size_t(1) << q; Zw f = Zw::w(k); for (size_t i = 0; i < v.size(); ++i) if (i & b) v[i] = v[i] * f; }   // diag(1, w^k)
    void x(int q) { size_t b = size_t(1) << q; for (size_t i = 0; i < v.size(); ++i) if (!(i & b)) std::swap(v[i], v[i | b]); }
    void z(int q) { phase(q, 4); }
    void y(int q) { z(q); x(q); for (auto& e : v) e = e * Zw::w(2); }
    void cx(int c, int t) { size_t bc = size_t(1) << c, bt = size_t(1) << t; for (size_t i = 0; i < v.size(); ++i) if ((i & bc) && !(i & bt)) std::swap(v[i], v[i | bt]); }
    void cphase(int c, int t, int k) { size_t b = (size_t(1) << c) | (size_t(1) << t); Zw f = Zw::w(k); for (size_t i = 0; i < v.size(); ++i) if ((i & b) == b) v[i] = v[i] * f; }
    void pauli(int q, PauliOperator p) { if (p == PauliOperator::X) x(q); else if (p == PauliOperator::Z) z(q); else if (p == PauliOperator::Y) y(q); }
    // projects on outcome (-1)^m of a product of Paulis; false if that outcome is impossible
    bool project(const std::vector<std::pair<int, PauliOperator>>& ps, bool m) {
        Vec old = v; for (auto& p : ps) pauli(p.first, p.second);
        bool any = false; for (size_t i = 0; i < v.size(); ++i) { v[i] = m ? old[i] - v[i] : old[i] + v[i]; any = any || !v[i].zero(); }
        reduce(); return any;
    }
    void reduce() { for (;;) { for (auto& e : v) for (int k = 0; k < 4; ++k) if (e.a[k] & 1) return; bool any = false; for (auto& e : v) { any = any || !e.zero(); for (int k = 0; k < 4; ++k) e.a[k] /= 2; } if (!any) return; } }
    // removes qubit q, which must be in a product state with the rest; false if it is entangled
    bool drop(int q) {
        size_t b = size_t(1) << q; Vec r0, r1; for (size_t i = 0; i < v.size(); ++i) if (i & b) r1.push_back(v[i]); else r0.push_back(v[i]);
        bool z0 = true, z1 = true; for (auto& e : r0) z0 = z0 && e.zero(); for (auto& e : r1) z1 = z1 && e.zero();
        bool ok = z0 || z1 || proportional(r0, r1); v = z0 ? r1 : r0; --n; reduce(); return ok;
    }
    static bool proportional(const Vec& x, const Vec& y) {
        if (x.size() != y.size()) return false;
        size_t p = 0; while (p < x.size() && x[p].zero()) ++p;
        if (p == x.size() || y[p].zero()) return false;
        for (size_t i = 0; i < x.size(); ++i) if (!(x[i] * y[p] == y[i] * x[p])) return false;
        return true;
    }
};
inline bool same_up_to_pauli(const State& got, const State& want, const std::vector<int>& data) {
    // try every Pauli on the data qubits of `want`
    size_t total = 1; for (size_t i = 0; i < data.size(); ++i) total *= 4;
    for (size_t k = 0; k < total; ++k) { State s = want; size_t c = k; for (int q : data) { int p = c & 3; c >>= 2; if (p & 1) s.x(q); if (p & 2) s.z(q); } if (State::proportional(got.v, s.v)) return true; }
    return false;
}
// Patches by name, each a qubit; the data patches are maximally entangled with reference qubits, so that the state is the operation.
struct Program {
    State s; std::map<PatchId, int> at; std::string error; bool impossible = false;
    void data(PatchId id) { int r = s.add(1, 0), q = s.add(1, 0); s.h(r); s.cx(r, q); at[id] = q; }
    bool fail(const std::string& e) { if (error.empty()) error = e; return false; }
    void forget(PatchId id) { int q = at[id]; at.erase(id); for (auto& p : at) if (p.second > q) --p.second; }
    bool has(PatchId id) { return at.count(id) != 0; }
    template <class Outcome> bool run(const LSInstruction& i, Outcome outcome) {
        auto create = [&](PatchId id, Zw a, Zw b) { if (has(id)) return fail("a patch is created twice"); at[id] = s.add(a, b); return true; };
        if (auto* x = std::get_if<PatchInit>(&i.operation)) return create(x->target, 1, x->state == PatchInit::InitializeableStates::Plus ? 1 : 0);
        if (auto* x = std::get_if<MagicStateRequest>(&i.operation)) return create(x->target, 1, Zw::w(1));
        if (auto* x = std::get_if<YStateRequest>(&i.operation)) {
            if (!has(x->target)) return create(x->target, 1, Zw::w(2));
            int q = at[x->target]; State t = s; t.phase(q, -2); t.h(q);     // must be |+i> or |-i>, apart from everything else
            bool up = true, down = true; for (size_t k = 0; k < t.v.size(); ++k) if (!t.v[k].zero()) { if (k >> q & 1) up = false; else down = false; }
            if (!up && !down) return fail("a Y state is given back that is not a Y state"); s.drop(q); forget(x->target); return true;
        }
        if (auto* x = std::get_if<SinglePatchMeasurement>(&i.operation)) {
            if (!has(x->target)) return fail("a patch is used that does not exist");
            int q = at[x->target]; if (!s.project({ { q, x->observable } }, outcome())) { impossible = true; return false; }
            if (!s.drop(q)) return fail("harness: a measured patch is still entangled"); forget(x->target); return true;
        }
        if (auto* x = std::get_if<MultiPatchMeasurement>(&i.operation)) {
            std::vector<std::pair<int, PauliOperator>> ps; for (auto& p : x->observable) { if (!has(p.first)) return fail("a patch is used that does not exist"); ps.push_back({ at[p.first], p.second }); }
            if (!s.project(ps, outcome())) { impossible = true; return false; } return true;
        }
        if (auto* x = std::get_if<SingleQubitOp>(&i.operation)) {
            if (!has(x->target)) return fail("a patch is used that does not exist");
            int q = at[x->target]; switch (x->op) { case SingleQubitOp::Operator::X: s.x(q); break; case SingleQubitOp::Operator::Y: s.y(q); break; case SingleQubitOp::Operator::Z: s.z(q); break; case SingleQubitOp::Operator::H: s.h(q); s.reduce(); break; case SingleQubitOp::Operator::S: s.phase(q, x->is_dagger ? -2 : 2); break; }
            return true;
        }
        if (auto* x = std::get_if<BellBasedCNOT>(&i.operation)) {
            if (!has(x->control) || !has(x->target)) return fail("a patch is used that does not exist");
            if (has(x->side1) || has(x->side2) || x->side1 == x->side2) return fail("a patch is created twice");
            if (x->control == x->target) return fail("a gate on one patch twice"); s.cx(at[x->control], at[x->target]); return true;
        }
        if (auto* x = std::get_if<RotateSingleCellPatch>(&i.operation)) return has(x->target) ? true : fail("a patch is used that does not exist");
        if (auto* x = std::get_if<PatchReset>(&i.operation)) {
            if (!has(x->target)) return fail("a patch is used that does not exist");
            int q = at[x->target]; bool m = outcome(); if (!s.project({ { q, PauliOperator::Z } }, m)) { impossible = true; return false; } if (m) s.x(q); return true;
        }
        return fail("an instruction that programs do not contain");
    }
};
} // namespace sim

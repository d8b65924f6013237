// C14: reading OpenQASM: well-formed lines mean what they say; anything else is refused, never misread, never a crash.
#include "common.hpp"
#include <lsqecc/gates/parse_gates.hpp>
#include <sstream>
using namespace lsqecc; using namespace sxh;
using Type = gates::BasicSingleQubitGate::Type;

namespace {
bool digit(char c) { return c >= '0' && c <= '9'; }
// A decimal number of 1..maxd symbolic digits; its value.
std::string number(const char* nm, int maxd, uint64_t& value, int mind = 1) {
    int n = mind + sx_choice("digits", maxd - mind + 1); std::string s; value = 0;
    for (int i = 0; i < n; ++i) { char c = (char) sx_int(nm, '0', '9'); s += c; value = value * 10 + uint64_t(c - '0'); }
    return s;
}
std::string reg() { std::string s; int n = 1 + sx_choice("name_len", 2); for (int i = 0; i < n; ++i) s += (char) sx_int("name", 'a', 'z'); return s; }
std::string blanks(const char* nm, int most) { return std::string(sx_choice(nm, most + 1), ' '); }
struct Outcome { bool threw = false; ParseGateResult r = IgnoredInstruction{}; };
Outcome parse(const std::string& line) {
    Outcome o;
    // a string of its own size on the heap, so that reading past the end of the line is noticed
    std::vector<char> exact(line.begin(), line.end());
    try { o.r = parse_gate(std::string_view(exact.data(), exact.size())); } catch (const std::exception&) { o.threw = true; }
    return o;
}
const char* const BASIC[8] = { "x", "y", "z", "s", "t", "h", "sdg", "tdg" };
const Type BASIC_T[8] = { Type::X, Type::Y, Type::Z, Type::S, Type::T, Type::H, Type::SDg, Type::TDg };
const char* const TYPES[3] = { "ZXWithMBMControlFirst", "ZXWithMBMTargetFirst", "BellBased" };
const char* const PLACES[3] = { "AncillaFreePlacement", "AncillaNextToControl", "AncillaNextToTarget" };

// an annotation group, and what it asks for (-1: nothing)
std::string annotation(int& ty, int& pl) {
    ty = pl = -1;
    switch (sx_choice("annotation", 5)) {
        case 0: return "";
        case 1: return " // just a remark";
        case 2: ty = sx_choice("type", 3); return std::string(" // %") + TYPES[ty];
        case 3: pl = sx_choice("placement", 3); return std::string(" // %") + PLACES[pl];
        default: ty = sx_choice("type", 3); pl = sx_choice("placement", 3);
            return sx_flag("order") ? std::string(" // %") + TYPES[ty] + "," + PLACES[pl] : std::string(" // %") + PLACES[pl] + "," + TYPES[ty];
    }
}
void controlled(const gates::Gate& g, uint64_t control, uint64_t target, int ty, int pl) {
    auto* c = std::get_if<gates::ControlledGate>(&g);
    sx_assert(c != nullptr, "a controlled gate");
    uint64_t t = std::visit([](const auto& x) -> uint64_t { return x.target_qubit; }, c->target_gate);
    sx_assert(c->control_qubit == control && t == target, "the first operand is the control, the second the target");
    auto type = ty < 0 ? gates::ControlledGate::default_cnot_type : gates::CNOTType(ty);
    auto place = pl < 0 ? gates::ControlledGate::default_ancilla_placement : gates::CNOTAncillaPlacement(pl);
    sx_assert(c->cnot_type == type && c->cnot_ancilla_placement == place, "annotations choose the implementation, defaults otherwise");
}
// an integer as the C library reads it: blanks, a sign, digits, and nothing after them
bool integer(const std::string& t, int64_t& v) {
    size_t p = 0; bool minus = false, any = false; v = 0; while (p < t.size() && (t[p] == ' ' || (t[p] >= 9 && t[p] <= 13))) ++p;
    if (p < t.size() && (t[p] == '-' || t[p] == '+')) minus = t[p++] == '-';
    for (; p < t.size() && digit(t[p]); ++p) { v = v * 10 + (t[p] - '0'); any = true; }
    if (minus) v = -v; return any && (p == t.size() || t[p] == 0);
}
// what stands in the first pair of brackets
std::string inner(const std::string& w) { size_t a = 0; while (a < w.size() && w[a] != '(') ++a; size_t b = ++a; while (b < w.size() && w[b] != '(' && w[b] != ')') ++b; return w.substr(a, b - a); }
// the angle in the brackets: [-]pi/m, [-]n*pi/m, [-]n*pi, pi*-1
bool angle(std::string t, int64_t& num, int64_t& den) {
    if (t == "pi*-1") { num = -1; den = 1; return true; }
    int64_t sgn = 1; if (!t.empty() && t[0] == '-') { sgn = -1; t = t.substr(1); }
    size_t p = 0; while (p + 1 < t.size() && !(t[p] == 'p' && t[p + 1] == 'i')) ++p;
    if (p + 1 >= t.size()) return false;
    num = den = 1;
    if (p > 0 && (t[p - 1] != '*' || !integer(t.substr(0, p - 1), num))) return false;
    std::string after = t.substr(p + 2); if (p == 0 && after.empty()) return false;
    if (!after.empty() && (after[0] != '/' || !integer(after.substr(1), den))) return false;
    num *= sgn; return true;
}
// the meaning of an angle, as a fraction of pi, of the gate that was read
bool angle_is(const gates::Gate& g, uint64_t q, int64_t num, int64_t den) {   // num/den, den > 0; modulo 2 for the named gates
    if (auto* rz = std::get_if<gates::RZ>(&g)) {
        const Fraction& f = rz->pi_fraction; int64_t n = f.is_negative ? -f.num : f.num;
        if (rz->target_qubit != q) return false;
        return (n == num && f.den == den) || (f.den != 0 && n * den == num * f.den);
    }
    if (auto* b = std::get_if<gates::BasicSingleQubitGate>(&g)) {
        if (b->target_qubit != q) return false;
        den = (int64_t) sx_concrete((uint64_t) den);
        int64_t e;  // eighths of pi... in quarters
        switch (b->gate_type) { case Type::Z: e = 4; break; case Type::S: e = 2; break; case Type::T: e = 1; break; case Type::SDg: e = 6; break; case Type::TDg: e = 7; break; default: return false; }
        // num/den == e/4 modulo 2
        int64_t d = 4 * num - e * den; return d % (8 * den) == 0;
    }
    return false;
}
}

extern "C" void sx_harness() {
    int what = sx_config_int("WHAT", 0), DIG = sx_config_int("DIG", 3);
    if (what == 0) {          // one-operand gates, reset, qreg
        int k = sx_choice("gate", 10); uint64_t i; std::string r = reg();
        std::string line = blanks("indent", 2); line += k < 8 ? BASIC[k] : k == 8 ? "reset" : "qreg"; line += " "; line += blanks("gap", 1); line += r + "["; line += number("index", DIG, i); line += "]"; line += sx_flag("semicolon") ? ";" : "";
        if (sx_flag("remark")) line += line.back() == ';' ? " // remark, x q[7];" : "";
        note(line); auto o = parse(line);
        sx_assert(!o.threw, "a well-formed line is accepted");
        if (k == 9) { auto* q = std::get_if<Qreg>(&o.r); sx_assert(q && q->name == r && q->size == i, "the register declared is the one in the text"); sx_reach("register"); return; }
        auto* g = std::get_if<gates::Gate>(&o.r); sx_assert(g != nullptr, "a gate line yields a gate");
        if (k == 8) { auto* x = std::get_if<gates::Reset>(g); sx_assert(x && x->register_name == r && x->target_qubit == i, "reset acts on the named qubit"); sx_reach("reset"); return; }
        auto* b = std::get_if<gates::BasicSingleQubitGate>(g);
        sx_assert(b && b->gate_type == BASIC_T[k] && b->target_qubit == i, "the gate is the named one on the named qubit"); sx_reach("gate");
    } else if (what == 1) {   // two-operand gates with annotations
        int k = sx_choice("gate", 3); uint64_t a, b, den = 0; int ty, pl; std::string r = reg();
        std::string line = k == 0 ? "cx" : k == 1 ? "cz" : "crz(pi/"; if (k == 2) { line += number("den", DIG, den); line += ")"; }
        line += " " + r + "["; line += number("first", DIG, a); line += "],"; line += blanks("gap", 2); line += r + "["; line += number("second", DIG, b); line += "];";
        line += annotation(ty, pl); note(line); auto o = parse(line);
        sx_assert(!o.threw, "a well-formed line is accepted");
        auto* g = std::get_if<gates::Gate>(&o.r); sx_assert(g != nullptr, "a gate line yields a gate"); controlled(*g, a, b, ty, pl);
        const auto& c = std::get<gates::ControlledGate>(*g);
        if (k < 2) { auto* t = std::get_if<gates::BasicSingleQubitGate>(&c.target_gate); sx_assert(t && t->gate_type == (k == 0 ? Type::X : Type::Z), "cx controls x and cz controls z"); sx_reach(k ? "cz" : "cx"); }
        else { auto* t = std::get_if<gates::RZ>(&c.target_gate); sx_assert(t && t->pi_fraction.num == 1 && uint64_t(t->pi_fraction.den) == den && !t->pi_fraction.is_negative, "the controlled rotation keeps its angle"); sx_reach("crz"); }
    } else if (what == 2) {   // rotations about Z
        uint64_t i, n = 1, d = 1; bool neg = sx_flag("negative"); std::string line = std::string("rz(") + (neg ? "-" : "");
        switch (sx_choice("form", 4)) {
            case 0: line += "pi/"; line += number("den", DIG, d); break;
            case 1: line += number("num", DIG, n); line += "*pi/"; line += number("den", DIG, d); break;
            case 2: line += number("num", DIG, n); line += "*pi"; break;
            case 3: if (neg) return; line += "pi*-1"; break;
        }
        sx_assume(d != 0);
        line += ") q["; line += number("index", 2, i); line += "];"; note(line); auto o = parse(line);
        sx_assert(!o.threw, "a well-formed rotation is accepted");
        auto* g = std::get_if<gates::Gate>(&o.r); sx_assert(g != nullptr, "a gate line yields a gate");
        sx_assert(angle_is(*g, i, neg ? -int64_t(n) : int64_t(n), int64_t(d)), "the rotation read is the rotation written"); sx_reach("rz");
    } else if (what == 3) {   // ignored lines
        static const char* const IGN[6] = { "OPENQASM 2.0;", "include \"qelib1.inc\";", "creg c[4];", "barrier q[0],q[1];", "// x q[0];", "//x q[0];" };
        int k = sx_choice("line", 6); std::string line = blanks("indent", 2) + IGN[k];
        if (k >= 4) for (int j = 0; j < 3; ++j) line += sx_char("rest");
        auto o = parse(line); sx_assert(!o.threw && std::holds_alternative<IgnoredInstruction>(o.r), "headers and remarks are skipped"); sx_reach("ignored");
    } else if (what == 4) {   // arbitrary text: after a fixed beginning and before a fixed end, any bytes
        static const char* const PRE[16] = { "", "x q[", "rz(", "rz(pi/4)", "cx ", "cx q[1],", "crz(pi/", "crz(pi/4) ", "qreg ", "reset ", "rz", "x", "rz(pi/4) q[", "c", "/", "x q[1]; //" };
        static const char* const POST[4] = { "", "] ;", ") q[2];", " q[2];" };
        int pre = sx_config_int("PRE", 0), post = sx_config_int("POST", 0), len = sx_choice("len", sx_config_int("LEN", 4) + 1);
        std::string line = PRE[pre]; for (int j = 0; j < len; ++j) { char c = sx_char("c"); sx_assume(c != 0); line += c; } line += POST[post]; note(line);
        auto o = parse(line);
        if (o.threw) { sx_reach("refused"); return; }
        sx_reach("accepted");
        if (std::holds_alternative<IgnoredInstruction>(o.r)) return;
        // what was accepted says what the text says: the word before the first blank, and the digits between the brackets
        size_t b0 = 0; while (b0 < line.size() && (line[b0] == ' ' || (line[b0] >= 9 && line[b0] <= 13))) ++b0;
        size_t sp = b0; while (sp < line.size() && line[sp] != ' ') ++sp;
        std::string word = line.substr(b0, sp - b0); size_t lim = line.find(';', sp); if (lim == std::string::npos) lim = line.size();
        std::vector<uint64_t> idx; std::vector<bool> okidx;
        for (size_t p = sp; p < lim; ++p) if (line[p] == '[') {
            uint64_t v = 0; size_t e = p + 1; bool any = false, minus = false; while (e < lim && (line[e] == ' ' || (line[e] >= 9 && line[e] <= 13))) ++e;
            if (e < lim && line[e] == '+') ++e; else if (e < lim && line[e] == '-') { minus = true; ++e; }
            while (e < lim && digit(line[e])) { v = v * 10 + uint64_t(line[e] - '0'); any = true; ++e; }
            idx.push_back(v); okidx.push_back(any && v <= 0xffffffffull && (!minus || v == 0));
        }
        if (auto* q = std::get_if<Qreg>(&o.r)) { sx_assert(word == "qreg" && idx.size() >= 1 && okidx[0] && q->size == idx[0], "a register has the size written"); return; }
        const auto& g = std::get<gates::Gate>(o.r);
        auto operand = [&](size_t k, uint64_t q) { sx_assert(k < idx.size() && okidx[k] && idx[k] == q, "a qubit index is the one written"); };
        if (auto* b = std::get_if<gates::BasicSingleQubitGate>(&g)) {
            bool rzword = word.substr(0, 3) == "rz("; bool match = false; for (int k = 0; k < 8; ++k) if (word == BASIC[k] && b->gate_type == BASIC_T[k]) match = true;
            sx_assert(match || rzword, "only the named gates are recognised"); operand(0, b->target_qubit);
            if (rzword) { int64_t n, d; sx_assert(angle(inner(word), n, d), "an angle that is accepted is one of the known forms"); sx_assert(d == 1 && n % 2 != 0, "only odd multiples of pi are read as Z"); sx_reach("angle"); }
        } else if (auto* r = std::get_if<gates::RZ>(&g)) {
            sx_assert(word.substr(0, 3) == "rz(", "only the named gates are recognised"); operand(0, r->target_qubit);
            int64_t n, d; sx_assert(angle(inner(word), n, d), "an angle that is accepted is one of the known forms");
            const Fraction& f = r->pi_fraction; sx_assert((f.is_negative ? -f.num : f.num) == n && f.den == d, "the rotation read is the rotation written"); sx_reach("angle");
        }
        else if (auto* c = std::get_if<gates::ControlledGate>(&g)) {
            sx_assert(word == "cx" || word == "cz" || word.substr(0, 4) == "crz(", "only the named gates are recognised");
            operand(0, c->control_qubit); operand(1, std::visit([](const auto& x) -> uint64_t { return x.target_qubit; }, c->target_gate));
        } else { sx_assert(word == "reset", "only the named gates are recognised"); operand(0, std::get<gates::Reset>(g).target_qubit); }
    } else if (what == 5) {   // a whole file
        static const char* const L[8] = { "", "OPENQASM 2.0;", "// remark", "qreg q[5];", "x q[1];", "cx q[0],q[2];", "bogus q[1];", "  h q[3]; // remark" };
        int n = sx_config_int("LINES", 4); std::string text; std::vector<int> kinds;
        for (int j = 0; j < n; ++j) { int k = sx_choice("line", 8); kinds.push_back(k); text += L[k]; if (j + 1 < n || sx_flag("last newline")) text += "\n"; }
        // expected: register before the first gate; a second register and unknown gates are refused
        bool reg = false, bad = false; std::vector<int> gs; bool constructed = false;
        for (int k : kinds) { if (k == 3) { if (reg) { bad = true; break; } reg = true; } else if (k == 6) { bad = true; break; } else if (k == 4 || k == 5 || k == 7) { gs.push_back(k); if (!reg) { bad = true; break; } } }
        if (!reg) bad = true;
        std::istringstream is(text); std::vector<gates::Gate> got; bool threw = false;
        try { GateStreamFromFile f(is); constructed = true; sx_assert(f.get_qreg().size == 5, "the register is the declared one"); while (f.has_next_gate()) got.push_back(f.get_next_gate()); }
        catch (const std::exception&) { threw = true; }
        sx_assert(threw == bad, "a file is refused exactly when a line of it is"); (void) constructed;
        if (threw) { sx_reach("file refused"); return; }
        sx_assert(got.size() == gs.size(), "every gate of the file, once, in order");
        for (size_t j = 0; j < gs.size(); ++j) {
            auto* b = std::get_if<gates::BasicSingleQubitGate>(&got[j]); auto* c = std::get_if<gates::ControlledGate>(&got[j]);
            sx_assert(gs[j] == 4 ? b && b->gate_type == Type::X && b->target_qubit == 1 : gs[j] == 7 ? b && b->gate_type == Type::H && b->target_qubit == 3 : c && c->control_qubit == 0, "every gate of the file, once, in order");
        }
        sx_reach("file read");
    } else if (what == 6) {   // a printed gate reads back as itself
        uint32_t a = sx_choice("a", 12), b = sx_choice("b", 3); int k = sx_choice("gate", 13); std::ostringstream os; gates::Gate g = gates::X(a);
        static const int64_t NUM[4] = { 1, 3, 2, 11 }, DEN[4] = { 4, 16, 3, 1024 };
        Fraction f{ NUM[sx_choice("num", 4)], DEN[sx_choice("den", 4)] };
        if (k < 8) g = gates::BasicSingleQubitGate{ a, BASIC_T[k] };
        else if (k == 8) g = gates::CNOT(b, a, gates::ControlledGate::default_cnot_type, gates::ControlledGate::default_ancilla_placement);
        else if (k == 9) g = gates::CZ(b, a, gates::ControlledGate::default_cnot_type, gates::ControlledGate::default_ancilla_placement);
        else if (k == 10) { f.is_negative = sx_flag("negative"); g = gates::RZ{ a, f }; }
        else if (k == 11) { f.num = 1; g = gates::CRZ(b, a, f, gates::ControlledGate::default_cnot_type, gates::ControlledGate::default_ancilla_placement); }
        else g = gates::Reset{ "q", a };
        os << g; note(os.str()); auto o = parse(os.str()); sx_assert(!o.threw && std::holds_alternative<gates::Gate>(o.r), "a printed gate reads back");
        const auto& r = std::get<gates::Gate>(o.r); sx_assert(r.index() == g.index(), "a printed gate reads back as itself");
        if (auto* x = std::get_if<gates::BasicSingleQubitGate>(&r)) sx_assert(x->gate_type == BASIC_T[k] && x->target_qubit == a, "a printed gate reads back as itself");
        if (auto* x = std::get_if<gates::RZ>(&r)) sx_assert(x->pi_fraction == f && x->target_qubit == a, "a printed gate reads back as itself");
        if (auto* x = std::get_if<gates::Reset>(&r)) sx_assert(x->register_name == "q" && x->target_qubit == a, "a printed gate reads back as itself");
        if (auto* x = std::get_if<gates::ControlledGate>(&r)) {
            controlled(r, a, b, -1, -1); auto* t = std::get_if<gates::RZ>(&x->target_gate); auto* u = std::get_if<gates::BasicSingleQubitGate>(&x->target_gate);
            sx_assert(k == 11 ? t && t->pi_fraction == f : u && u->gate_type == (k == 8 ? Type::X : Type::Z), "a printed gate reads back as itself");
        }
        sx_reach("printed");
    }
}

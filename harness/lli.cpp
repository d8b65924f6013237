// C15: reading lattice surgery instructions from text.
#include "common.hpp"
#include <lsqecc/ls_instructions/ls_instructions_parse.hpp>
#include <lsqecc/ls_instructions/ls_instruction_stream.hpp>
#include <sstream>
using namespace lsqecc; using namespace sxh;

namespace {
bool digit(char c) { return c >= '0' && c <= '9'; }
std::vector<std::string> list(const std::string& s);
std::vector<std::string> cut(const std::string& s, char d) { std::vector<std::string> r(1); for (char c : s) if (c == d) r.emplace_back(); else r.back() += c; return r; }
std::vector<std::string> list(const std::string& s) { return s.empty() ? std::vector<std::string>{} : cut(s, ','); }
// --- an independent reading of one line; false: not an instruction
bool id(const std::string& t, PatchId& v) { uint64_t x = 0; if (t.empty() || t.size() > 12) return false; for (char c : t) { if (!digit(c)) return false; x = x * 10 + uint64_t(c - '0'); } v = (PatchId) x; return x <= 0xffffffffull; }
bool op(const std::string& t, PauliOperator& o) { if (t.size() != 1) return false; char c = t[0]; if (c == 'X') o = PauliOperator::X; else if (c == 'Y') o = PauliOperator::Y; else if (c == 'Z') o = PauliOperator::Z; else if (c == 'I') o = PauliOperator::I; else return false; return true; }
bool place(const std::string& t, PlaceNexTo& p) { auto a = cut(t, ':'); return a.size() == 2 && id(a[0], p.target) && op(a[1], p.op); }
struct Ref { int form = -1; std::vector<PatchId> ids; std::vector<PlaceNexTo> at; PauliOperator o = PauliOperator::I; bool plus = false; };
const char* const NAMES[11] = { "Init", "MeasureSinglePatch", "MultiBodyMeasure", "RequestMagicState", "LogicalPauli", "HGate", "SGate", "RotateSingleCellPatch", "BellPairInit", "RequestYState", "BellBasedCNOT" };
const char* const CODES[11] = { "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10" };
const int NIDS[11] = { 1, 1, 0, 2, 1, 1, 1, 1, 2, 2, 4 };
bool reference(const std::string& line, Ref& r) {
    auto t = cut(line, ' '); size_t n = t.size(); if (n > 1 && line.empty()) return false;
    if (t[0] == "DeclareLogicalQubitPatches") { r.form = 11; if (n < 2) return false; auto es = list(t[1]); for (auto& e : es) { PatchId v; if (!id(e, v)) return false; r.ids.push_back(v); } return true; }
    for (int k = 0; k < 11; ++k) if (t[0] == NAMES[k] || t[0] == CODES[k]) { r.form = k; break; }
    if (r.form < 0) return false;
    size_t p = 1; for (int k = 0; k < NIDS[r.form]; ++k, ++p) { PatchId v; if (p >= n || !id(t[p], v)) return false; r.ids.push_back(v); }
    if (r.form == 0) { if (p >= n) return false; if (t[p] == "|+>" || t[p] == "+") r.plus = true; else if (t[p] != "|0>" && t[p] != "0") return false; ++p; if (p < n) { PlaceNexTo a; auto q = cut(t[p], ':'); if (q.size() < 2 || !id(q[0], a.target) || !op(q[1], a.op)) return false; r.at.push_back(a); } }
    if (r.form == 1 || r.form == 4) { if (p >= n || !op(t[p], r.o)) return false; }
    if (r.form == 2 || r.form == 8) { if (p >= n) return false; for (auto& e : list(t[p])) { PlaceNexTo a; if (!place(e, a)) return false; r.at.push_back(a); } if (r.form == 8 && r.at.size() != 2) return false; }
    return true;
}
void same(const LSInstruction& i, const Ref& r) {
    const char* m = "the instruction read is the one written";
    auto all = i.get_patch_dependencies(); for (PatchId v : r.ids) if (r.form != 11) sx_assert(all.contains(v), "an instruction depends on every patch it names");
    for (auto& a : r.at) sx_assert(all.contains(a.target), "an instruction depends on every patch it names");
    switch (r.form) {
        case 0: { auto* x = std::get_if<PatchInit>(&i.operation); sx_assert(x && x->target == r.ids[0] && (x->state == PatchInit::InitializeableStates::Plus) == r.plus && x->place_next_to.has_value() == !r.at.empty(), m); if (!r.at.empty()) sx_assert(*x->place_next_to == r.at[0], m); break; }
        case 1: { auto* x = std::get_if<SinglePatchMeasurement>(&i.operation); sx_assert(x && x->target == r.ids[0] && x->observable == r.o && !x->is_negative, m); break; }
        case 2: { auto* x = std::get_if<MultiPatchMeasurement>(&i.operation); sx_assert(x && !x->is_negative && !x->local_instruction, m);
            // the last mention of a patch counts
            size_t distinct = 0; for (size_t k = 0; k < r.at.size(); ++k) { bool last = true; for (size_t j = k + 1; j < r.at.size(); ++j) last = last && r.at[j].target != r.at[k].target; if (last) { ++distinct; sx_assert(x->observable.contains(r.at[k].target) && x->observable.at(r.at[k].target) == r.at[k].op, m); } }
            sx_assert(x->observable.size() == distinct, m); break; }
        case 3: { auto* x = std::get_if<MagicStateRequest>(&i.operation); sx_assert(x && x->target == r.ids[0] && x->near_patch == r.ids[1] && i.wait_at_most_for == MagicStateRequest::DEFAULT_WAIT, m); break; }
        case 4: { auto* x = std::get_if<SingleQubitOp>(&i.operation); sx_assert(x && x->target == r.ids[0] && uint8_t(x->op) == uint8_t(r.o) && !x->is_dagger, m); break; }
        case 5: case 6: { auto* x = std::get_if<SingleQubitOp>(&i.operation); sx_assert(x && x->target == r.ids[0] && x->op == (r.form == 5 ? SingleQubitOp::Operator::H : SingleQubitOp::Operator::S) && !x->is_dagger, m); break; }
        case 7: { auto* x = std::get_if<RotateSingleCellPatch>(&i.operation); sx_assert(x && x->target == r.ids[0], m); break; }
        case 8: { auto* x = std::get_if<BellPairInit>(&i.operation); sx_assert(x && x->side1 == r.ids[0] && x->side2 == r.ids[1] && x->loc1 == r.at[0] && x->loc2 == r.at[1], m); break; }
        case 9: { auto* x = std::get_if<YStateRequest>(&i.operation); sx_assert(x && x->target == r.ids[0] && x->near_patch == r.ids[1] && i.wait_at_most_for == YStateRequest::DEFAULT_WAIT, m); break; }
        case 10: { auto* x = std::get_if<BellBasedCNOT>(&i.operation); sx_assert(x && x->control == r.ids[0] && x->target == r.ids[1] && x->side1 == r.ids[2] && x->side2 == r.ids[3], m); break; }
        case 11: { auto* x = std::get_if<DeclareLogicalQubitPatches>(&i.operation); sx_assert(x != nullptr, m); for (PatchId v : r.ids) sx_assert(x->patch_ids.contains(v), m); for (PatchId v : x->patch_ids) { bool in = false; for (PatchId w : r.ids) in = in || v == w; sx_assert(in, m); } break; }
    }
}
void compare(const std::string& line, bool must) {
    std::vector<char> exact(line.begin(), line.end());
    Ref r; bool ok = reference(line, r), threw = false; LSInstruction got{ DeclareLogicalQubitPatches{} };
    try { got = parse_ls_instruction(std::string_view(exact.data(), exact.size())); } catch (const std::exception&) { threw = true; }
    if (must) sx_assert(ok, "harness: the reference accepts a well-formed line");
    if (r.form == 4 && ok && r.o == PauliOperator::I) return;  // the identity is no operation of the language
    sx_assert(threw == !ok, "exactly the instructions of the language are accepted");
    if (threw) { sx_reach("refused"); return; }
    same(got, r); sx_reach("accepted");
}
std::string number(const char* nm, int maxd, char top = '9') { int n = 1 + sx_choice("digits", maxd); std::string s; for (int i = 0; i < n; ++i) s += (char) sx_int(nm, '0', top); return s; }
}

extern "C" void sx_harness() {
    int what = sx_config_int("WHAT", 0), DIG = sx_config_int("DIG", 2);
    if (what == 0) {          // well-formed lines
        int k = sx_config_int("FORM", -1); if (k < 0) k = sx_choice("form", 12);
        static const char* const OPS[4] = { "X", "Y", "Z", "I" };
        std::string line = k == 11 ? "DeclareLogicalQubitPatches" : sx_flag("opcode") ? CODES[k] : NAMES[k];
        if (k == 11) { int n = 1 + sx_choice("n", 3); for (int j = 0; j < n; ++j) { line += j ? "," : " "; line += number("id", DIG); } }
        else for (int j = 0; j < NIDS[k]; ++j) { line += " "; line += k == 10 || k == 8 ? number("id", 1, k == 8 ? '1' : '2') : number("id", DIG); }
        if (k == 0) { static const char* const ST[4] = { "|0>", "0", "|+>", "+" }; line += " "; line += ST[sx_choice("state", 4)]; if (sx_flag("placed")) { line += " "; line += number("near", DIG); line += ":"; line += OPS[sx_choice("op", 3)]; } }
        if (k == 1 || k == 4) { line += " "; line += OPS[sx_choice("op", 3)]; }
        if (k == 2 || k == 8) { int n = k == 8 ? 2 : 1 + sx_choice("n", sx_config_int("ENTRIES", 2)); for (int j = 0; j < n; ++j) { line += j ? "," : " "; line += number("at", 1, k == 8 ? '2' : '4'); line += ":"; line += OPS[sx_choice("op", 3)]; } }
        note(line); compare(line, true); sx_reach("well-formed");
    } else if (what == 1) {   // any text after a fixed beginning
        static const char* const PRE[18] = { "", "Init 1 ", "Init 1 + ", "MeasureSinglePatch ", "MultiBodyMeasure ", "MultiBodyMeasure 1:Z,", "RequestMagicState 1 ", "LogicalPauli 2 ", "HGate", "HGate ", "RotateSingleCellPatch ", "BellPairInit 1 2 ", "BellPairInit 1 2 3:Z", "RequestYState ", "10 1 2 ", "DeclareLogicalQubitPatches ", "8 1 2 3:Z,4:X", "Init 1 + 2" };
        static const char* const POST[3] = { "", " 1", ":Z" };
        int len = sx_choice("len", sx_config_int("LEN", 4) + 1); std::string line = PRE[sx_config_int("PRE", 0)];
        for (int j = 0; j < len; ++j) line += sx_char("c"); line += POST[sx_config_int("POST", 0)]; note(line);
        compare(line, false);
    } else if (what == 2) {   // printing and reading back
        int k = sx_choice("form", 12); PatchId a = sx_choice("a", 12), b = sx_choice("b", 3), c = 7, d = 1000000;
        PauliOperator o = sx_flag("x") ? PauliOperator::X : PauliOperator::Z, y = PauliOperator::Y; LSInstruction i{ DeclareLogicalQubitPatches{ { a, c, d } } };
        auto st = sx_flag("plus") ? PatchInit::InitializeableStates::Plus : PatchInit::InitializeableStates::Zero;
        switch (k) {
            case 0: i.operation = PatchInit{ a, st, std::nullopt }; break;
            case 1: i.operation = PatchInit{ a, st, PlaceNexTo{ d, o } }; break;
            case 2: i.operation = SinglePatchMeasurement{ a, o, false }; break;
            case 3: i.operation = MultiPatchMeasurement{ { { a, o }, { b + 20, y }, { d, o } }, false }; break;
            case 4: i.operation = MagicStateRequest{ a, d }; break;
            case 5: i.operation = SingleQubitOp{ a, SingleQubitOp::Operator::H }; break;
            case 6: i.operation = SingleQubitOp{ a, SingleQubitOp::Operator::S }; break;
            case 7: i.operation = RotateSingleCellPatch{ a }; break;
            case 8: i.operation = BellPairInit{ a, b, PlaceNexTo{ c, o }, PlaceNexTo{ d, y } }; break;
            case 9: i.operation = YStateRequest{ a, d }; break;
            case 10: i.operation = BellBasedCNOT{ a, b, c, d }; break;
        }
        std::ostringstream os; os << i; note(os.str());
        LSInstruction back = parse_ls_instruction(os.str());
        sx_assert(back.operation == i.operation, "a printed instruction reads back as itself"); sx_reach("printed");
    } else if (what == 3) {   // whole programs, both readers
        static const char* const L[5] = { "", "DeclareLogicalQubitPatches 3,1", "HGate 1", "MultiBodyMeasure 3:Z,1:X", "Bogus 1" };
        int n = sx_config_int("LINES", 4); std::string text; std::vector<int> ks;
        for (int j = 0; j < n; ++j) { int k = sx_choice("line", 5); ks.push_back(k); text += L[k]; if (j + 1 < n) text += "\n"; else if (sx_flag("last newline")) text += "\n"; }
        std::vector<int> body; int decl = 0, bad = 0; bool first = false, any = false;
        for (int k : ks) { if (!k) continue; if (k == 4) bad = 1; if (k == 1) { ++decl; if (!any) first = true; } else body.push_back(k); any = true; }
        auto check = [&](const LSInstruction& i, int k) { if (k == 2) sx_assert(i.operation == decltype(i.operation)(SingleQubitOp{ 1, SingleQubitOp::Operator::H }), "the program is read in order"); else sx_assert(std::holds_alternative<MultiPatchMeasurement>(i.operation), "the program is read in order"); };
        bool threw = false; InMemoryLogicalLatticeComputation m;
        try { m = parse_ls_instructions(text); } catch (const std::exception&) { threw = true; }
        sx_assert(threw == (bad || decl > 1), "a program is refused exactly when a line of it is");
        if (!threw) { sx_assert(m.instructions.size() == body.size() && m.core_qubits.size() == (decl ? 2u : 0u), "the program is read in order"); for (size_t j = 0; j < body.size(); ++j) check(m.instructions[j], body[j]); }
        std::istringstream is(text); threw = false; std::vector<LSInstruction> got; size_t core = 0; bool hasdecl = false;
        try { LSInstructionStreamFromFile f(is); core = f.core_qubits().size(); while (f.has_next_instruction()) { got.push_back(f.get_next_instruction()); } } catch (const std::exception&) { threw = true; }
        for (auto& i : got) hasdecl |= std::holds_alternative<DeclareLogicalQubitPatches>(i.operation);
        sx_assert(threw == (bad || !first), "the declaration comes first");
        if (!threw && decl == 1) { sx_assert(core == 2 && !hasdecl && got.size() == body.size(), "the program is read in order"); for (size_t j = 0; j < body.size(); ++j) check(got[j], body[j]); sx_reach("program"); }
    }
}

// C08: the dependency dag. Instructions with an arbitrary commutation relation, then any mixture of taking
// applicable instructions, replacing instructions by chains and marking heads as due next.
#include "common.hpp"
#include <lsqecc/dag/dependency_dag.hpp>
using namespace lsqecc; using namespace lsqecc::dag; using namespace sxh;

namespace {
constexpr int M = 14;
struct Ins { int id = -1; };
bool commute_[M][M];
bool alive_[M], edge_[M][M], pdep_[M][M], phead_[M];
}
std::ostream& operator<<(std::ostream& os, const Ins& i) { return os << i.id; }
namespace lsqecc::dag { template <> struct CommutationTrait<Ins> { static bool can_commute(const Ins& a, const Ins& b) { return commute_[a.id][b.id]; } }; }

namespace {
void compare(DependencyDag<Ins>& dag, const long* label) {
    int count = 0; for (int i = 0; i < M; ++i) count += alive_[i];
    sx_assert(dag.empty() == (count == 0), "empty exactly when every instruction was taken");
    auto heads = dag.applicable_instructions();
    bool listed[M]{};
    for (auto l : heads) { int id = dag.at(l).id; sx_assert(id >= 0 && id < M && alive_[id] && !listed[id], "applicable instructions are pending ones, listed once"); listed[id] = true; }
    for (int i = 0; i < M; ++i) if (alive_[i]) {
        bool blocked = false; for (int j = 0; j < M; ++j) if (alive_[j] && edge_[j][i]) blocked = true;
        sx_assert(listed[i] == !blocked, "an instruction is applicable exactly when every earlier one it depends on was taken");
        if (label[i] >= 0) sx_assert(dag.at((label_t) label[i]).id == i, "a label keeps naming the same instruction");
    }
    bool pl[M]{};
    for (auto l : dag.proximate_instructions()) { int id = dag.at(l).id; sx_assert(id >= 0 && id < M && alive_[id] && !pl[id], "due-next instructions are pending ones, listed once"); pl[id] = true; }
    for (int i = 0; i < M; ++i) if (alive_[i]) sx_assert(pl[i] == phead_[i], "due next are exactly the marked heads and the next links of taken chains");
}
}

extern "C" void sx_harness() {
    int n = sx_config_int("N", 3), pre = sx_config_int("PRE", 0), ops = sx_config_int("OPS", 3) + pre;
    DependencyDag<Ins> dag; long label[M]; for (auto& l : label) l = -1;
    for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) { commute_[i][j] = true; edge_[i][j] = pdep_[i][j] = false; }
    for (int i = 0; i < M; ++i) alive_[i] = phead_[i] = false;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) commute_[i][j] = commute_[j][i] = sx_bool("commute");
    int fresh = n;
    for (int i = 0; i < n; ++i) {
        label[i] = (long) dag.push_instruction_based_on_commutation(Ins{ i }); alive_[i] = true;
        for (int j = 0; j < i; ++j) { sx_assert(label[i] != label[j], "labels are distinct"); edge_[j][i] = !commute_[j][i]; }
    }
    compare(dag, label);
    for (int k = 0; k < ops && !dag.empty(); ++k) {
        int op = k < pre ? 1 : sx_choice("op", 3);
        if (op == 0) { // take an applicable instruction
            auto heads = dag.applicable_instructions(); sx_assume(!heads.empty());
            label_t l = heads[sx_choice("head", heads.size())]; int id = dag.at(l).id;
            dag.pop_head(l); alive_[id] = false; label[id] = -1; phead_[id] = false;
            for (int j = 0; j < M; ++j) if (pdep_[id][j]) { phead_[j] = true; pdep_[id][j] = false; }
            sx_reach("taken");
        } else if (op == 1) { // replace an instruction by a chain
            int ids[M], named = 0; for (int i = 0; i < M; ++i) if (alive_[i] && label[i] >= 0) ids[named++] = i;
            int id; label_t l;
            if (k < pre) { id = k; l = (label_t) label[id]; }
            else {
                auto heads = dag.applicable_instructions(); std::vector<label_t> unnamed;
                for (auto h : heads) if (label[dag.at(h).id] < 0) unnamed.push_back(h);
                size_t c = sx_choice("target", named + unnamed.size());
                if (c < (size_t) named) { id = ids[c]; l = (label_t) label[id]; } else { l = unnamed[c - named]; id = dag.at(l).id; }
            }
            int len = k < pre ? 2 : 1 + sx_choice("len", 2); bool prox = k < pre || sx_flag("proximate"); sx_assume(fresh + len <= M);
            std::vector<Ins> rep; for (int i = 0; i < len; ++i) rep.push_back(Ins{ fresh + i });
            label_t f = dag.expand(l, std::move(rep), prox);
            int a = fresh, b = fresh + len - 1; fresh += len;
            alive_[id] = false; label[id] = -1; label[a] = (long) f;
            if (b > a) for (label_t c = f + 1; c < f + 3; ++c) try { if (dag.at(c).id == b) { label[b] = (long) c; break; } } catch (const std::exception&) {}
            for (int i = a; i <= b; ++i) { alive_[i] = true; if (i > a) { edge_[i - 1][i] = true; if (prox) pdep_[i - 1][i] = true; } }
            for (int j = 0; j < M; ++j) if (j != id) {
                if (edge_[id][j]) { edge_[b][j] = true; } if (edge_[j][id] && alive_[j]) { edge_[j][a] = true; }
                if (pdep_[id][j]) { pdep_[b][j] = true; pdep_[id][j] = false; } if (pdep_[j][id]) { pdep_[j][a] = true; pdep_[j][id] = false; }
            }
            if (phead_[id]) { phead_[id] = false; phead_[a] = true; }
            sx_assert(dag.at(f).id == a, "the label returned names the start of the replacement");
            sx_reach("expanded");
        } else { // mark an applicable instruction as due next
            auto heads = dag.applicable_instructions(); sx_assume(!heads.empty());
            label_t l = heads[sx_choice("head", heads.size())]; dag.make_proximate(l); phead_[dag.at(l).id] = true;
        }
        compare(dag, label);
    }
    bool threw = false; try { if (!dag.empty()) dag.expand(dag.applicable_instructions()[0], {}, false); else threw = true; } catch (const std::exception&) { threw = true; }
    sx_assert(threw, "an empty replacement is refused");
    sx_reach("compared");
}

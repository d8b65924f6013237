// C09: the directed graph behaves as a set of nodes and a set of edges. Start from every acyclic graph on N nodes,
// run OPS arbitrary operations, compare everything observable with an adjacency-matrix model.
#include "common.hpp"
#include <lsqecc/dag/directed_graph.hpp>
using namespace lsqecc; using namespace lsqecc::dag; using namespace sxh;

namespace {
constexpr int M = 10;              // labels 0..M-1
struct Model { bool node[M]{}; bool e[M][M]{}; };
bool has(const std::vector<label_t>& v, label_t x) { for (auto y : v) if (y == x) return true; return false; }

bool reaches(const Model& m, int a, int b) {
    bool seen[M]{}; int st[M * M], n = 0; st[n++] = a;
    while (n) { int x = st[--n]; if (x == b) return true; if (seen[x]) continue; seen[x] = true; for (int y = 0; y < M; ++y) if (m.e[x][y] && !seen[y]) st[n++] = y; }
    return false;
}

void compare(const DirectedGraph& g, const Model& m) {
    int count = 0;
    for (int i = 0; i < M; ++i) count += m.node[i];
    sx_assert(g.empty() == (count == 0), "empty exactly when no node is left");
    auto heads = g.heads(), tails = g.tails();
    size_t nh = 0, nt = 0;
    for (int i = 0; i < M; ++i) {
        bool threw = false; std::vector<label_t> s, p;
        try { s = g.successors(i); p = g.predecessors(i); } catch (const std::exception&) { threw = true; }
        sx_assert(threw == !m.node[i], "neighbours of a node can be asked exactly when the node exists");
        if (!m.node[i]) { sx_assert(!heads.contains(i) && !tails.contains(i), "a removed node is neither head nor tail"); continue; }
        size_t ns = 0, np = 0;
        for (int j = 0; j < M; ++j) {
            sx_assert(has(s, j) == m.e[i][j], "successors are the edges out of the node");
            sx_assert(has(p, j) == m.e[j][i], "predecessors are the edges into the node");
            ns += m.e[i][j]; np += m.e[j][i];
        }
        sx_assert(s.size() == ns && p.size() == np, "each neighbour is listed once");
        sx_assert(heads.contains(i) == (np == 0), "heads are the nodes nothing points to");
        sx_assert(tails.contains(i) == (ns == 0), "tails are the nodes that point to nothing");
        nh += np == 0; nt += ns == 0;
    }
    sx_assert(heads.size() == nh && tails.size() == nt, "heads and tails list each node once");
    auto order = g.topological_order_tails_first();
    sx_assert((int) order.size() == count, "the topological order lists every node once");
    int pos[M]; for (int i = 0; i < M; ++i) pos[i] = -1;
    for (size_t k = 0; k < order.size(); ++k) { sx_assert(order[k] < M && m.node[order[k]] && pos[order[k]] < 0, "the topological order lists existing nodes once"); pos[order[k]] = (int) k; }
    for (int i = 0; i < M; ++i) for (int j = 0; j < M; ++j) if (m.e[i][j]) sx_assert(pos[j] < pos[i], "every node comes after all it points to");
}
}

extern "C" void sx_harness() {
    int n = sx_config_int("N", 4), ops = sx_config_int("OPS", 1);
    DirectedGraph g; Model m; int fresh = n;
    // edges go from lower to higher rank; rank is reversed in half of the runs so that insertion order does not follow it
    bool rev = sx_flag("reversed");
    for (int i = 0; i < n; ++i) { int l = rev ? n - 1 - i : i; g.add_node(l); m.node[l] = true; }
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j)
        if (sx_bool("edge")) { int a = i, b = j; g.add_edge(a, b); m.e[a][b] = true; }
    for (int k = 0; k < ops; ++k) {
        int op = sx_choice("op", 5); bool threw = false;
        if (op == 0) {        // add_node
            int a = sx_choice("a", n + 1); if (a == n) a = fresh;
            g.add_node(a); m.node[a] = true; if (a == fresh) ++fresh;
        } else if (op == 1) { // add_edge (keeping it acyclic); may create nodes
            int a = sx_choice("a", n + 1), b = sx_choice("b", n + 1); sx_assume(a != b);
            if (a == n) a = fresh; if (b == n) b = fresh;
            sx_assume(!reaches(m, b, a));
            g.add_edge(a, b); if (a == fresh || b == fresh) ++fresh;
            m.node[a] = m.node[b] = true; m.e[a][b] = true;
        } else if (op == 2) { // remove_edge of an existing edge, or from/to a missing node
            int a = sx_choice("a", n + 1), b = sx_choice("b", n); 
            if (a == n) a = M - 1;
            sx_assume(!m.node[a] || !m.node[b] || m.e[a][b]);
            try { g.remove_edge(a, b); } catch (const std::exception&) { threw = true; }
            sx_assert(threw == (!m.node[a] || !m.node[b]), "removing an edge of a missing node is refused");
            if (!threw) { m.e[a][b] = false; sx_reach("edge removed"); }
        } else if (op == 3) { // remove_node
            int a = sx_choice("a", n + 1); if (a == n) a = M - 1;
            try { g.remove_node(a); } catch (const std::exception&) { threw = true; }
            sx_assert(threw == !m.node[a], "removing a missing node is refused");
            if (!threw) { m.node[a] = false; for (int j = 0; j < M; ++j) m.e[a][j] = m.e[j][a] = false; sx_reach("node removed"); }
        } else {              // expand a node into a chain
            int a = sx_choice("a", n + 1); if (a == n) a = M - 1;
            int len = sx_choice("len", 4); bool clash = sx_flag("clash");
            std::vector<label_t> rep; for (int i = 0; i < len; ++i) rep.push_back(fresh + i > M - 2 ? M - 2 : fresh + i);
            sx_assume(fresh + len <= M - 1);
            if (clash) { sx_assume(len > 0 && m.node[0]); rep[len - 1] = 0; }
            try { g.expand(a, rep); } catch (const std::exception&) { threw = true; }
            sx_assert(threw == (!m.node[a] || len == 0 || clash), "expanding a missing node, into nothing or into an existing node is refused");
            if (!threw) {
                sx_reach("expanded");
                m.node[a] = false;
                for (int i = 0; i < len; ++i) { m.node[rep[i]] = true; if (i) m.e[rep[i - 1]][rep[i]] = true; }
                for (int j = 0; j < M; ++j) { if (m.e[a][j]) { m.e[rep[len - 1]][j] = true; m.e[a][j] = false; } if (m.e[j][a]) { m.e[j][rep[0]] = true; m.e[j][a] = false; } }
                fresh += len;
            }
        }
        compare(g, m);
    }
    sx_reach("compared");
}

#include "h.h"
#include "altruct/structure/graph/graph.h"
using namespace altruct::graph; using namespace vh;
typedef weighted_edge<int> WE; typedef std::multiset<std::pair<int, int>> R; typedef std::vector<R> M;
static std::string ex;
template<typename E> int wt(const E&);
template<> int wt(const WE& e) { return e.w; }
template<> int wt(const edge&) { return 0; }
template<typename E> E mke(int v, int w);
template<> WE mke(int v, int w) { return WE(v, w); }
template<> edge mke(int v, int) { return edge(v); }
template<typename E> R row(const std::vector<E>& l) { R r; for (auto& e : l) r.insert({e.v, wt(e)}); return r; }
template<typename E> void same(const graph<E>& g, const M& m) { CHECK(g.size() == (int)m.size()); size_t t = 0; for (size_t i = 0; i < m.size(); i++) { CHECK(row(g[(int)i]) == m[i]); t += m[i].size(); } CHECK(g.num_edges() == (int)t); }
static void del(M& m, int u) { int v = (int)m.size() - 1; std::swap(m[u], m[v]); m.pop_back(); for (auto& r : m) { R q; for (auto& e : r) if (e.first != u) q.insert({e.first == v ? u : e.first, e.second}); r = q; } }
template<typename E> void run(int n0, int steps, int maxn) {
    graph<E> g(n0); M m(n0); ex = ""; setx("size", &ex, n0); same(g, m);
    while (steps--) {
        int n = (int)m.size(), op = rng.below(16); if (n == 0) op = 0; int u = n ? rng.below(n) : 0, v = n ? rng.below(n) : 0, w = wt(mke<E>(0, rng.below(50)));
        if (ex.size() > 300) ex = "..." + ex.substr(ex.size() - 250);
        ex += " " + std::to_string(op) + ":" + std::to_string(u) + "," + std::to_string(v);
        if (op <= 1) { if (n >= maxn) continue; setx("add_node", &ex, n); CHECK(g.add_node() == n); m.push_back({}); }
        else if (op <= 4) { setx("add_edge", &ex, u, v, w); auto old = g[u].size(); g.add_edge(u, mke<E>(v, w)); CHECK(g[u].size() == old + 1 && g[u].back().v == v); m[u].insert({v, w}); }
        else if (op <= 9) { setx("add_edge2", &ex, u, v, w); g.add_edge2(u, mke<E>(v, w)); m[u].insert({v, w}); m[v].insert({u, w}); }
        else if (op == 10) { setx("delete_edge", &ex, u, v); g.delete_edge(u, v); R q; for (auto& e : m[u]) if (e.first != v) q.insert(e); m[u] = q; }
        else if (op <= 12) { if (rng.below(2)) continue; setx("delete_node", &ex, u, n); g.delete_node(u); del(m, u); }
        else if (op == 13) {
            setx("dedup", &ex, u); R o = m[u]; g.deduplicate_edges(u); R q = row(g[u]); std::set<int> a, b; for (auto& e : o) a.insert(e.first); for (auto& e : q) { CHECK(b.insert(e.first).second); CHECK(o.count(e)); } CHECK(a == b); for (size_t i = 1; i < g[u].size(); i++) CHECK(g[u][i - 1] < g[u][i]); m[u] = q;
        } else if (op == 14 && u != v && rng.below(2)) {
            setx("contract", &ex, u, v, n); M o = m; g.contract(u, v);
            { R q; for (auto& e : o[u]) if (e.first != v) q.insert(e); for (auto& e : o[v]) if (e.first != u) q.insert(e); o[u] = q; for (auto& r : o) { R t; for (auto& e : r) t.insert({e.first == v ? u : e.first, e.second}); r = t; } o[v].clear(); del(o, v); }
            CHECK(g.size() == (int)o.size()); m = o; for (size_t x = 0; x < o.size(); x++) { R q = row(g[(int)x]); std::set<int> a, b; for (auto& e : o[x]) a.insert(e.first); for (auto& e : q) { CHECK(b.insert(e.first).second); CHECK(o[x].count(e)); } CHECK(a == b); m[x] = q; }
        } else if (op == 15) { setx("copy", &ex, u); graph<E> h(g.adjl); CHECK(h == g && !(h < g)); graph<E> k = g; if (n) { CHECK(&g[u] == &g.adjl[u]); k.add_edge(u, mke<E>(u, w)); CHECK(!(k == g) && g < k); } }
        same(g, m);
    }
}
int main(int c, char** v) {
    init(c, v); rng.s = seed;
    setx("edge_lt", &ex); for (int a = -2; a <= 2; a++) for (int b = -2; b <= 2; b++) for (int p = 0; p < 2; p++) { CHECK((WE(a, p) < WE(b, 1)) == (a < b) && (WE(a, p) == WE(b, 1)) == (a == b)); CHECK((edge(a) < edge(b)) == (a < b) && (edge(a) == edge(b)) == (a == b)); for (int d = 0; d < 2; d++) { CHECK((full_edge(a, p) < full_edge(b, d)) == (std::make_pair(a, p) < std::make_pair(b, d)) && (full_edge(a, p) == full_edge(b, d)) == (a == b && p == d)); CHECK((weighted_full_edge<int>(a, p, d) < weighted_full_edge<int>(b, d, 7)) == (std::make_pair(a, p) < std::make_pair(b, d)) && (weighted_full_edge<int>(a, p, 1) == weighted_full_edge<int>(b, d, 7)) == (a == b && p == d)); } }
    do { for (int k = 0; k < 60; k++) { int mx = 1 + rng.below(7); run<WE>(rng.below(mx + 1), 60, mx); run<edge>(rng.below(mx + 1), 60, mx); } run<WE>(0, 400, 30); } while (!timeup());
    return done();
}

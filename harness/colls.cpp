#include "h.h"
#include "altruct/algorithm/collections/collections.h"
#include <list>
#include <forward_list>
using namespace altruct; using namespace vh;
struct K { int k, id; bool operator<(const K& o) const { return k < o.k; } bool operator==(const K& o) const { return k == o.k; } };
static bool same(const std::vector<K>& a, const std::vector<K>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].k != b[i].k || a[i].id != b[i].id) return false; return true; }
static std::string ex;
static std::string sh(const std::vector<K>& v) { std::string s = "["; for (auto& x : v) s += std::to_string(x.k) + " "; return s + "]"; }
static void one(const std::vector<K>& v, const std::vector<K>& w, size_t n, int thr) {
    ex = sh(v) + " " + sh(w);
    setx("sorted", &ex, (uint64_t)v.size()); { auto r = collections::sorted(v); auto r2 = collections::sorted(v.begin(), v.end()); CHECK(r.size() == v.size() && r2.size() == v.size()); std::multiset<int> a, b; for (auto& x : v) a.insert(x.id); for (auto& x : r) b.insert(x.id); CHECK(a == b); for (size_t i = 0; i + 1 < r.size(); i++) CHECK(!(r[i + 1] < r[i]) && !(r2[i + 1] < r2[i])); }
    setx("reversed", &ex, (uint64_t)v.size()); { auto e = v; std::reverse(e.begin(), e.end()); CHECK(same(collections::reversed(v), e)); CHECK(same(collections::reversed(v.data(), v.data() + v.size()), e)); }
    setx("take", &ex, (uint64_t)n); { std::vector<K> e(v.begin(), v.begin() + std::min(n, v.size())); CHECK(same(collections::take(v, n), e)); CHECK(same(collections::take(v.begin(), v.end(), n), e)); std::list<K> l(v.begin(), v.end()); CHECK(same(collections::take(l, n), e)); }
    setx("filter", &ex, thr); { std::vector<K> e; for (auto& x : v) if (x.k < thr) e.push_back(x); auto p = [&](const K& x) { return x.k < thr; }; CHECK(same(collections::filter(v, p), e)); CHECK(same(collections::filter(v.begin(), v.end(), p), e)); }
    setx("transform", &ex, thr); { std::vector<long> e; for (auto& x : v) e.push_back(x.id * 3L + thr); auto f = [&](const K& x) { return x.id * 3L + thr; }; CHECK(collections::transform(v, f) == e); CHECK(collections::transform(v.begin(), v.end(), f) == e); }
    setx("run_length", &ex, (uint64_t)v.size()); { auto r = collections::run_length(v); auto r2 = collections::run_length(v.begin(), v.end()); CHECK(r.size() == r2.size()); size_t at = 0; for (size_t k = 0; k < r.size(); k++) { CHECK(r[k].second >= 1 && at + r[k].second <= v.size()); CHECK(r[k].first.id == v[at].id); CHECK(r2[k].first.id == v[at].id && r2[k].second == r[k].second); for (int i = 0; i < r[k].second; i++) CHECK(v[at + i].k == r[k].first.k); at += r[k].second; CHECK(at == v.size() || v[at].k != r[k].first.k); } CHECK(at == v.size()); }
    setx("compare", &ex, (uint64_t)n); { size_t a = std::min(n, v.size()), b = std::min(n, w.size()); int e = std::lexicographical_compare(v.begin(), v.begin() + a, w.begin(), w.begin() + b) ? -1 : std::lexicographical_compare(w.begin(), w.begin() + b, v.begin(), v.begin() + a) ? 1 : 0;
        CHECK(collections::compare(v.begin(), v.end(), w.begin(), w.end(), n) == e); int f = v < w ? -1 : w < v ? 1 : 0; CHECK(collections::compare(v.begin(), v.end(), w.begin(), w.end()) == f); }
    setx("contains", &ex, thr); { bool e = false; for (auto& x : v) e |= x.k == thr; CHECK(collections::contains(v, K{thr, -1}) == e); CHECK(collections::contains(v.begin(), v.end(), K{thr, -1}) == e); }
    setx("reserve_more", &ex, (uint64_t)n); { auto c = v; size_t cap = c.capacity(); if (n < 100000) { collections::reserve_more(c, n); CHECK(same(c, v)); CHECK(c.capacity() >= v.size() + n); if (v.size() + n > cap) CHECK(c.capacity() >= cap + cap / 2); else CHECK(c.capacity() == cap); } }
}
int main(int c, char** v) {
    init(c, v); rng.s = seed;
    for (int n = 0; n <= 5; n++) { int t = 1; for (int i = 0; i < n; i++) t *= 3; for (int x = 0; x < t; x++) for (int m = 0; m <= 3; m++) { std::vector<K> a, b; int y = x, id = 0; for (int i = 0; i < n; i++) { a.push_back({y % 3, id++}); y /= 3; } y = rng.below(27); for (int i = 0; i < m; i++) { b.push_back({y % 3, id++}); y /= 3; } if (rng.below(2)) b = std::vector<K>(a.begin(), a.begin() + std::min<int>(n, m)); for (size_t k : {size_t(0), size_t(1), size_t(m), size_t(n), size_t(n + 1), size_t(-1), size_t(1) << 32, (size_t(1) << 32) + 1}) one(a, b, k, x % 4); } }
    do { for (int k = 0; k < 200; k++) { int n = rng.below(60), al = 1 + rng.below(5); std::vector<K> a, b; for (int i = 0; i < n; i++) a.push_back({rng.below(3) && i ? a.back().k : (int)rng.below(al), i}); b = a; if (rng.below(2) && n) b[rng.below(n)].k = rng.below(al); if (rng.below(2)) b.resize(rng.below(n + 1)); if (rng.below(2)) std::swap(a, b); one(a, b, rng.below(4) ? rng.below(n + 2) : rng(), rng.below(al + 1)); } } while (!timeup());
    return done();
}

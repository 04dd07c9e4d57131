#include "h.h"
#include "altruct/structure/math/permutation.h"
#include <numeric>
using namespace altruct::math; using namespace vh;
typedef permutation<int> P; typedef std::vector<int> L;
static std::string ex; static std::string sh(const L& v) { std::string s = "["; for (int x : v) s += std::to_string(x) + " "; return s + "]"; }
static P mk(const L& l) { P p(l); CHECK(p.n == (int)l.size()); return p; }
static bool valid(const P& p) { std::set<int> s; for (auto& c : p.cycles) { if (c.empty()) return false; for (int x : c) if (x < 0 || x >= p.n || !s.insert(x).second) return false; } return true; }
static int par(const L& l) { int r = 0; for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < i; j++) r ^= l[j] > l[i]; return r; }
static L powl(const L& l, int64_t t) { L r(l.size()); for (size_t i = 0; i < l.size(); i++) { int len = 1; for (int x = l[i]; x != (int)i; x = l[x]) len++; int64_t k = t % len; if (k < 0) k += len; int x = (int)i; while (k--) x = l[x]; r[i] = x; } return r; }
static L mul(const L& a, const L& b) { size_t n = std::max(a.size(), b.size()); L r(n); for (size_t x = 0; x < n; x++) { int y = x < a.size() ? a[x] : (int)x; r[x] = y < (int)b.size() ? b[y] : y; } return r; }
static L inv(const L& a) { L r(a.size()); for (size_t i = 0; i < a.size(); i++) r[a[i]] = (int)i; return r; }
static const int64_t TS[] = {0, 1, 2, 3, 4, 5, 6, 7, 12, 60, 1000000007, 0x7fffffffll, 0x80000000ll, 0x123456789abcdefll, INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1, -1, -2, -3, -5, -7, -0x80000001ll};
static void one(const L& a, const L& b) {
    ex = sh(a) + sh(b); int n = (int)a.size();
    setx("line_to_cycles", &ex); P p = mk(a), q = mk(b); CHECK(valid(p)); for (auto& c : p.cycles) { CHECK(c.size() >= 2); for (size_t i = 0; i < c.size(); i++) CHECK(a[c[i]] == c[(i + 1) % c.size()]); }
    setx("cycles_to_line", &ex); CHECK(p.to_line() == a);
    setx("all_cycles", &ex); { auto v = p.to_all_cycles(); size_t t = 0; for (auto& c : v) t += c.size(); CHECK(t == a.size()); P r(v, n); CHECK(valid(r) && r.to_line() == a); CHECK(p.to_cycles() == p.cycles); }
    setx("cycles_to_trans", &ex); { auto t = p.to_transpositions(); CHECK(P(t, n).to_line() == a); CHECK(P::line_to_transpositions(a).size() == t.size()); auto c = P::transpositions_to_cycles(t); CHECK(P(c, n).to_line() == a); int m = 0; for (int i = 0; i < n; i++) if (a[i] != i) m = i + 1; CHECK(P::size(t) == m); CHECK(P::size(p.cycles) == m); L l = a; P::apply_transpositions_to_line(l, p.inv().to_transpositions()); L id(n); std::iota(id.begin(), id.end(), 0); CHECK(l == id); }
    if (n > 0) { P::transpositions_t t; int m = 0; L l(n); std::iota(l.begin(), l.end(), 0); ex = ""; for (int k = rng.below(5); k >= 0; k--) { int x = rng.below(n), y = rng.below(n); t.push_back({x, y}); m = std::max(m, std::max(x, y) + 1); std::swap(l[x], l[y]); ex += "(" + std::to_string(x) + " " + std::to_string(y) + ")"; }
        setx("size_t", &ex, n); CHECK(P::size(t) == m); setx("ptrans", &ex, n); P r(t, n); CHECK(valid(r) && r.n == n && r.to_line() == l); setx("trans_to_cycles", &ex, n); CHECK(P(P::transpositions_to_cycles(t), n).to_line() == l); ex = sh(a) + sh(b); }
    setx("ptimes", &ex); { P r = p * q; CHECK(valid(r) && r.n == std::max(p.n, q.n) && r.to_line() == mul(a, b)); P s = p; s *= q; CHECK(s.to_line() == mul(a, b)); if (a.size() == b.size()) CHECK(s == r); }
    setx("apply_to", &ex); { L l = b; L& rr = p.apply_to(l); CHECK(&rr == &l); CHECK(l == mul(a, b)); L m = b; q.inv().apply_to(m); }
    setx("pinv", &ex); CHECK(valid(p.inv()) && p.inv().to_line() == inv(a) && p.inv().n == n);
    setx("pdiv", &ex); { CHECK((p / q).to_line() == mul(a, inv(b))); P s = p; s /= q; CHECK(s.to_line() == mul(a, inv(b))); }
    setx("pident", &ex); { L id(n); std::iota(id.begin(), id.end(), 0); CHECK(altruct::math::identityOf(p).to_line() == id); CHECK(P(n).to_line() == id); CHECK(P::identity_line(n) == id); L e = a; P::expand_line(e, n + 3); CHECK((int)e.size() == n + 3 && e[n] == n && e[n + 2] == n + 2); }
    setx("compare", &ex); { CHECK(p == p && !(p != p) && !(p < p) && p <= p && p >= p && !(p > p)); if (p.n != q.n) CHECK(p != q && ((p < q) == (p.n < q.n))); CHECK((p < q) == (q > p) && (p <= q) == !(q < p) && (p >= q) == (q <= p)); if (a == b) CHECK(p == q); }
    for (int64_t t : TS) { setx("ppow", &ex, t); P r = p.pow(t); CHECK(valid(r) && r.n == n && r.to_line() == powl(a, t)); }
    { int64_t t = (int64_t)rng() >> rng.below(64); setx("ppow", &ex, t); CHECK(p.pow(t).to_line() == powl(a, t)); }
}
// root: bounded stand-in (all permutations of up to 6 elements, exponents 1..12)
static void roots(int n) {
    L a(n); std::iota(a.begin(), a.end(), 0); std::vector<L> all; do all.push_back(a); while (std::next_permutation(a.begin(), a.end()));
    for (int t = 1; t <= 12; t++) { std::map<L, int> m; for (auto& x : all) m[powl(x, t)] |= 1 << par(x); for (auto& y : all) for (int pr = -1; pr <= 1; pr++) { ex = sh(y); setx("root", &ex, t, pr); int k = m.count(y) ? m[y] : 0; bool exists = pr < 0 ? k != 0 : (k >> pr) & 1; P r = mk(y).root(t, pr); if (exists) { CHECK(r.n == n && valid(r)); CHECK(powl(r.to_line(), t) == y); if (pr >= 0) CHECK(par(r.to_line()) == pr); } else CHECK(r.n == 0 && r.cycles.empty()); } }
}
int main(int c, char** v) {
    init(c, v); rng.s = seed;
    for (int n = 0; n <= 4; n++) { L a(n); std::iota(a.begin(), a.end(), 0); do for (int m = 0; m <= 4; m++) { L b(m); std::iota(b.begin(), b.end(), 0); do one(a, b); while (std::next_permutation(b.begin(), b.end())); } while (std::next_permutation(a.begin(), a.end())); }
    for (int n = 1; n <= 6; n++) roots(n);
    do { int n = 1 + rng.below(40), m = rng.below(3) ? n : rng.below(40); L a(n), b(m); std::iota(a.begin(), a.end(), 0); std::iota(b.begin(), b.end(), 0); for (int i = n - 1; i > 0; i--) std::swap(a[i], a[rng.below(i + 1)]); for (int i = m - 1; i > 0; i--) std::swap(b[i], b[rng.below(i + 1)]); one(a, b); } while (!timeup());
    return done();
}

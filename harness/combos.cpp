#include "h.h"
#include <altruct/algorithm/math/combinatorics.h>
#include <altruct/algorithm/math/counting.h>
#include <altruct/structure/math/modulo.h>
#include <list>
#include <deque>
#include <set>
using namespace vh; using namespace altruct::math;
typedef modulo<int, 1000000007> M;
typedef std::vector<int> V;
static void st(const char* f, std::initializer_list<i128> a) { auto it = a.begin(); i128 x[5] = {0, 0, 0, 0, 0}; for (int i = 0; i < 5 && it != a.end(); i++) x[i] = *it++; set(f, x[0], x[1], x[2], x[3], x[4]); }
static std::string str(const V& v) { std::string s; for (int x : v) s += std::to_string(x) + " "; return s; }
// all choices of k of the sorted multiset v, as sorted lists, in ascending order
static void choose(const V& v, size_t i, size_t k, V& c, std::set<V>& out) { if (c.size() == k) { out.insert(c); return; } if (v.size() - i < k - c.size()) return; c.push_back(v[i]); choose(v, i + 1, k, c, out); c.pop_back(); choose(v, i + 1, k, c, out); }
template<typename Q> static void comb(const V& v, size_t k) {
  std::set<V> all; V c; choose(v, 0, k, c, all); V cur = v; size_t cnt = 0;
  static std::string where; where = "next_combination of {" + str(v) + "}";
  for (auto& want : all) {
    setx("next_combination", &where, k, cnt);
    CHECK(V(cur.begin(), cur.begin() + k) == want);
    V s = cur; std::sort(s.begin(), s.end()); CHECK(s == v);                                // a rearrangement
    CHECK(std::is_sorted(cur.begin() + k, cur.end()));                                      // the rest is in order
    Q q(cur.begin(), cur.end()); auto mid = q.begin(); std::advance(mid, k);
    bool r = next_combination(q.begin(), mid, q.end()); cur = V(q.begin(), q.end()); cnt++;
    CHECK(r == (cnt < all.size()));
  }
  CHECK(cur == v);                                                                           // the first one again
}
// one step from a random choice of k of n elements: the rightmost index that can grow does, those behind it follow it closely
static void comb1(int n, int k, int high) {
  V id(n); for (int i = 0; i < n; i++) id[i] = i;
  std::vector<char> in(n, 0); int left = k; for (int i = 0; i < high && left; i++) { int x = n - 1 - (int)rng.below(std::min(n, high + 2)); if (!in[x]) { in[x] = 1; left--; } }
  while (left) { int x = (int)rng.below(n); if (!in[x]) { in[x] = 1; left--; } }
  V a; for (int i = 0; i < n; i++) if (in[i]) a.push_back(i);
  auto full = [&](const V& c) { V v; std::vector<char> f(n, 0); for (int x : c) { v.push_back(3 * x - 7); f[x] = 1; } for (int i = 0; i < n; i++) if (!f[i]) v.push_back(3 * i - 7); return v; };
  V b = a; int i = k - 1; while (i >= 0 && a[i] == n - k + i) i--;
  bool found = i >= 0; if (found) { b[i]++; for (int j = i + 1; j < k; j++) b[j] = b[j - 1] + 1; } else for (int j = 0; j < k; j++) b[j] = j;
  V v = full(a); static std::string where; where = "next_combination of {" + str(v) + "}"; setx("next_combination_step", &where, k, n);
  bool r = next_combination(v.begin(), v.begin() + k, v.end()); CHECK(r == found); CHECK(v == full(b));
}
template<typename I> static void part(int n, size_t d) {
  // all non-increasing sequences of length d with sum n, descending
  std::vector<std::vector<I>> all; std::vector<I> a(d, 0);
  auto rec = [&](auto& self, size_t i, int left, int mx) -> void { if (i == d) { if (!left) all.push_back(a); return; } for (int x = std::min(left, mx); x >= 0; x--) { if ((int64_t)x * (int64_t)(d - i) < left) break; a[i] = (I)x; self(self, i + 1, left - x, x); } };
  rec(rec, 0, n, n);
  std::vector<I> cur(d, 0); cur[0] = (I)n;
  for (size_t k = 0; k < all.size(); k++) { st(std::is_unsigned<I>::value ? "next_partition<unsigned>" : sizeof(I) == 4 ? "next_partition<int32>" : sizeof(I) == 8 ? "next_partition<int64>" : "next_partition<int16>", {n, (i128)d, (i128)k}); CHECK(cur == all[k]); std::list<I> l(cur.begin(), cur.end()); bool r2 = next_partition(l.begin(), l.end()); bool r = next_partition(cur.begin(), cur.end()); CHECK(r == (k + 1 < all.size()) && r2 == r && std::equal(cur.begin(), cur.end(), l.begin())); }
  CHECK(cur == all[0]);
}
// large parts: the successor of a random partition, by the definition of the last entry that can be decreased
template<typename I> static void big(size_t d) {
  i128 left = std::numeric_limits<I>::max() / (rng.below(3) + 1) - rng.below(100); std::vector<I> v(d, 0); i128 cap = left;
  for (size_t i = 0; i < d; i++) { i128 r = d - i, lo = (left + r - 1) / r, hi = std::min(left, cap); i128 x = rng.below(3) ? lo + (i128)(rng.any() % 7) : rng.below(2) ? hi : lo + (hi - lo) / 2; x = std::max(lo, std::min(hi, x)); v[i] = (I)x; left -= x; cap = x; }
  st(std::is_unsigned<I>::value ? "next_partition_big<unsigned>" : "next_partition_big", {(i128)v[0], d > 1 ? (i128)v[1] : -1, d > 2 ? (i128)v[2] : -1, (i128)d, sizeof(I)});
  std::vector<I> w = v; bool found = false; i128 sum = 0; for (auto x : v) sum += x; i128 suf = 0;
  for (size_t i = d; i-- > 0 && !found;) { suf += v[i]; i128 m = (i128)v[i] - 1; if (m > 0 && m * (i128)(d - i) >= suf) { found = true; for (size_t j = i; j < d; j++) { i128 x = std::min(m, suf); w[j] = (I)x; suf -= x; } } }
  if (!found) { std::fill(w.begin(), w.end(), I(0)); w[0] = (I)sum; }
  CHECK(next_partition(v.begin(), v.end()) == found && v == w);
}
template<typename I> static void nth(int d, I o, bool dup) {
  V v(d); for (int i = 0; i < d; i++) v[i] = dup ? i / 2 : i * 3; V w = v;
  st(sizeof(I) == 8 ? "nth_permutation<64>" : "nth_permutation<32>", {d, (i128)o, dup});
  nth_permutation(w.begin(), w.end(), o);
  V rest = v, want; u128 f = 1; I t = o; int big = 0; std::vector<u128> fs{1}; for (int i = 1; i < d; i++) { if (f > (u128)o) { big = i - 1; break; } f *= (unsigned)i; fs.push_back(f); big = i; } (void)big;
  for (int i = d; i >= 1; i--) { size_t k = 0; if ((size_t)(i - 1) < fs.size()) { k = (size_t)((u128)t / fs[i - 1] % (unsigned)i); t = (I)((u128)t % fs[i - 1]); } want.push_back(rest[k]); rest.erase(rest.begin() + k); }
  CHECK(w == want);
}
template<typename T> static void tables(const char* nm, int n, int k) {
  std::string p(nm); std::vector<std::vector<T>> s1(n, std::vector<T>(n + 1, T(0))), s2 = s1;
  for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { if (i == 0) { s1[0][0] = s2[0][0] = T(1); continue; } s1[i][j] = (j ? s1[i - 1][j - 1] : T(0)) - s1[i - 1][j] * T(i - 1); s2[i][j] = (j ? s2[i - 1][j - 1] : T(0)) + s2[i - 1][j] * T(j); }
  set(p + ".stirling_tables", n, k); auto a = stirling_s1_all<T>(n, k), b = stirling_s2_all<T>(n, k); CHECK((int)a.size() == n && (int)b.size() == n);
  for (int i = 0; i < n; i++) { CHECK((int)a[i].size() == std::min(i + 1, k) && a[i].size() == b[i].size()); for (size_t j = 0; j < a[i].size(); j++) CHECK(a[i][j] == s1[i][j] && b[i][j] == s2[i][j]); }
  T f = T(1); for (int i = 2; i <= n; i++) f *= T(i); set(p + ".factorial", n); CHECK(factorial<T>(n) == f && factorial<T>(0) == T(1) && factorial<T>(n, T(1)) == f);
}
static void single(int n) {
  std::vector<std::vector<M>> s1(n + 1, std::vector<M>(n + 2, M(0))), s2 = s1;
  for (int i = 0; i <= n; i++) for (int j = 0; j <= i; j++) { if (i == 0) { s1[0][0] = s2[0][0] = 1; continue; } s1[i][j] = (j ? s1[i - 1][j - 1] : M(0)) - s1[i - 1][j] * M(i - 1); s2[i][j] = (j ? s2[i - 1][j - 1] : M(0)) + s2[i - 1][j] * M(j); }
  for (int k = 0; k <= n + 1; k++) { set("stirling_s2", n, k); CHECK(stirling_s2<M>(n, k) == (k > n ? M(0) : s2[n][k])); set("stirling_s1", n, k); CHECK(stirling_s1<M>(n, k) == (k > n ? M(0) : s1[n][k])); CHECK(stirling_s1<M>(n, -1 - k) == M(0) && stirling_s2<M>(n, -1 - k) == M(0)); CHECK(stirling_s2<M>((int64_t)n, k) == (k > n ? M(0) : s2[n][k])); }
  { int64_t big = (int64_t)(rng.any() >> 2) + 100; int k = 1 + (int)rng.below(6); set("stirling_s2.big", big, k); M r(0), b(1); for (int j = 0; j <= k; j++) { M t(1), x(k - j); for (uint64_t e = (uint64_t)big; e; e >>= 1, x *= x) if (e & 1) t *= x; r += (j % 2 ? -b : b) * t; b *= M(k - j); b /= M(j + 1); } M f(1); for (int j = 2; j <= k; j++) f *= M(j); CHECK(stirling_s2<M>(big, k) * f == r); }
  for (int k = 1; k <= std::min(n, 6); k++) { set("stirling_column", n, k); auto c1 = stirling_s1_all_n_for_k<M>(n + 1, k), c2 = stirling_s2_all_n_for_k<M>(n + 1, k); CHECK((int)c1.size() == n + 1 && (int)c2.size() == n + 1); for (int i = 0; i <= n; i++) CHECK(c1[i] == s1[i][k] && c2[i] == s2[i][k]); }
  { set("stirling_row", n); auto r1 = stirling_s1_all_k_for_n<M>(n), r2 = stirling_s2_all_k_for_n<M>(n); CHECK((int)r2.size() == n + 1); for (int k = 0; k <= n; k++) CHECK((k < (int)r1.size() ? r1[k] : M(0)) == s1[n][k] && r2[k] == s2[n][k]); }
}
template<typename T> static void parts(const char* nm, int n) {
  std::string s(nm); std::vector<T> p(n, T(0)), q(n, T(0)), o(n, T(0)), e(n, T(0)); p[0] = q[0] = o[0] = e[0] = T(1);
  for (int k = 1; k < n; k++) { for (int i = k; i < n; i++) p[i] += p[i - k]; for (int i = n - 1; i >= k; i--) { q[i] += q[i - k]; e[i] -= e[i - k]; if (k % 2) o[i] += o[i - k]; } }
  auto same = [&](const std::vector<T>& a, const std::vector<T>& b) { CHECK(a.size() == b.size()); for (size_t i = 0; i < a.size(); i++) CHECK(a[i] == b[i]); };
  set(s + ".euler_function", n); same(euler_function<T>(n), e); set(s + ".partitions_p_slow", n); same(partitions_p_slow<T>(n), p); set(s + ".partitions_p_distinct_slow", n); same(partitions_p_distinct_slow<T>(n), q);
  if (!std::is_same<T, M>::value) return;
  set(s + ".partitions_p", n); same(partitions_p<T>(n), p); set(s + ".partitions_p_distinct", n); same(partitions_p_distinct<T>(n), q); set(s + ".partitions_p_distinct_odd", n); same(partitions_p_distinct_odd<T>(n), o);
}
int main(int c, char** v) { init(c, v); rng.s = seed;
  for (int n = 0; n <= 9 && !timeup(0.3); n++) { V a(n); for (int i = 1; i < n; i++) a[i] = a[i - 1] + 1 + (int)rng.below(2); for (int k = 0; k <= n; k++) comb<V>(a, k); }
  for (int d = 1; d <= 9 && !timeup(0.5); d++) for (int n = 1; n <= 14; n++) { part<int>(n, d); part<int64_t>(n, d); part<uint32_t>(n, d); part<int16_t>(n, d); }
  for (int d = 0; d <= 6; d++) { int f = 1; for (int i = 2; i <= d; i++) f *= i; for (int o = 0; o < 2 * f + 1; o++) { nth<int>(d, o, false); nth<uint64_t>(d, o, true); } }
  for (int n = 0; n < 12; n++) for (int k = 0; k < 14; k++) { tables<int64_t>("int64", n, k); tables<M>("M1e9+7", n, k); }
  for (int n = 0; n < 12 && !timeup(0.8); n++) { single(n); parts<int64_t>("int64", n + 1); parts<M>("M1e9+7", n + 1); }
  do {
    { int n = (int)rng.below(13); V a(n); for (int i = 0; i < n; i++) a[i] = (i ? a[i - 1] : -5) + 1 + (int)rng.below(3); size_t k = rng.below(n + 1); if (rng.below(2)) comb<V>(a, k); else comb<std::deque<int>>(a, k); }
    for (int i = 0; i < 40; i++) { int n = 1 + (int)rng.below(60), k = (int)rng.below(std::min(n, 20) + 1); comb1(n, k, rng.below(2) ? k : (int)rng.below(k + 1)); }
    { int n = 1 + (int)rng.below(22); part<int>(n, 1 + rng.below(n + 3)); part<uint64_t>(n, 1 + rng.below(n + 3)); }
    { int d = (int)rng.below(30); nth<int>(d, (int)rng.below(39916800), rng.below(2)); nth<uint32_t>(d, (uint32_t)rng.below(39916800), rng.below(2)); nth<int64_t>(d, (int64_t)(rng.any() % 121645100408832000ull), rng.below(2)); nth<uint64_t>(d, rng.any() % 121645100408832000ull, rng.below(2)); }
    for (int i = 0; i < 20; i++) { size_t d = 1 + rng.below(12); big<int>(d); big<int64_t>(d); big<uint32_t>(d); big<uint64_t>(d); big<int16_t>(d); }
    tables<M>("M1e9+7", (int)rng.below(60), (int)rng.below(60)); single((int)rng.below(30)); parts<M>("M1e9+7", 1 + (int)rng.below(300)); parts<int64_t>("int64", 1 + (int)rng.below(300));
  } while (!timeup()); return done(); }

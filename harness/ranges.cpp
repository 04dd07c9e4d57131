#include "h.h"
#include <altruct/algorithm/math/ranges.h>
#include <altruct/structure/math/modulo.h>
using namespace vh; using namespace altruct::math;
typedef modulo<int, 1000000007> M; typedef modulo<int, 1009> P; 
struct NC { uint32_t v; };
template<typename T> static T mk(int64_t v); template<> M mk<M>(int64_t v) { return M((int)(((v % 1000000007) + 1000000007) % 1000000007)); } template<> P mk<P>(int64_t v) { return P((int)(((v % 1009) + 1009) % 1009)); } template<> uint32_t mk<uint32_t>(int64_t v) { return (uint32_t)v; }
template<typename T> struct F { typedef std::vector<T> V;
  static V rnd(size_t n, bool nz) { V v; for (size_t i = 0; i < n; i++) { T x = mk<T>(rng.any() & 0xffffffff); if (rng.below(4) == 0) x = mk<T>(rng.below(3)); if (nz && x == mk<T>(0)) x = mk<T>(1); v.push_back(x); } return v; }
  // runs f on the middle part of a guarded vector
  template<typename G> static V on(const V& in, size_t pre, G g) { V v(pre, mk<T>(77)); v.insert(v.end(), in.begin(), in.end()); v.insert(v.end(), 2, mk<T>(88)); g(v.begin() + pre, v.begin() + pre + in.size()); for (size_t i = 0; i < pre; i++) CHECK(v[i] == mk<T>(77)); CHECK(v[v.size() - 1] == mk<T>(88) && v[v.size() - 2] == mk<T>(88)); return V(v.begin() + pre, v.begin() + pre + in.size()); }
  static void all(const char* nm, size_t n, bool field, size_t maxn) { size_t pre = rng.below(3); uint64_t s0 = rng.s; V a = rnd(n, false); T st = mk<T>(rng.any()), one = mk<T>(1), zero = mk<T>(0); auto name = std::string(nm);
    auto S = [&](const char* f) { set(name + "." + f, n, pre, s0); };
    S("range"); { auto v = on(a, pre, [&](auto b, auto e) { range(b, e, st); }); auto w = range(n, st); T x = zero; CHECK(w.size() == n); for (size_t i = 0; i < n; i++) { CHECK(v[i] == x && w[i] == x); x += st; } auto d = range<T>(n); for (size_t i = 0; i < n; i++) CHECK(d[i] == mk<T>(i)); }
    S("powers"); { auto v = on(a, pre, [&](auto b, auto e) { powers(b, e, st); }); auto w = powers(n, st); T x = one; CHECK(w.size() == n); for (size_t i = 0; i < n; i++) { CHECK(v[i] == x && w[i] == x); x *= st; } }
    S("factorials"); V f; { auto v = on(a, pre, [&](auto b, auto e) { factorials(b, e, one); }); auto w = make_factorials<T>(n); T x = one; CHECK(w.size() == n); for (size_t i = 0; i < n; i++) { if (i) x *= mk<T>(i); CHECK(v[i] == x && w[i] == x); } f = w; }
    S("negate"); { auto v = on(a, pre, [&](auto b, auto e) { negate(b, e); }); for (size_t i = 0; i < n; i++) CHECK(v[i] + a[i] == zero); }
    S("alternate"); { auto v = on(a, pre, [&](auto b, auto e) { alternate(b, e); }); for (size_t i = 0; i < n; i++) CHECK(i % 2 ? v[i] + a[i] == zero : v[i] == a[i]); }
    S("accumulate"); { auto v = on(a, pre, [&](auto b, auto e) { altruct::math::accumulate(b, e); }); T x = zero; for (size_t i = 0; i < n; i++) { x += a[i]; CHECK(v[i] == x); } }
    S("differentiate"); { auto v = on(a, pre, [&](auto b, auto e) { differentiate(b, e); }); for (size_t i = 0; i < n; i++) CHECK(i ? v[i] + a[i - 1] == a[i] : v[i] == a[i]); }
    S("power"); { uint64_t k = rng.below(20); auto v = on(a, pre, [&](auto b, auto e) { power(b, e, k); }); for (size_t i = 0; i < n; i++) { T x = one; for (uint64_t j = 0; j < k; j++) x *= a[i]; CHECK(v[i] == x); } }
    if (!field) return;
    S("invert"); { auto v = on(a, pre, [&](auto b, auto e) { invert(b, e); }); for (size_t i = 0; i < n; i++) CHECK(a[i] == zero ? v[i] == zero : v[i] * a[i] == one); }
    S("invert_field"); { V c = rnd(n, true); T id = rng.below(2) ? one : mk<T>(2 + rng.below(5)); auto v = on(c, pre, [&](auto b, auto e) { invert_field(b, e, id); }); for (size_t i = 0; i < n; i++) CHECK(v[i] * c[i] == id); }
    if (n > maxn) return; T x = one;
    S("inv_factorials"); { size_t k = rng.below(3) ? 1 : n ? rng.below(n) : 0; T fk = one; for (size_t i = 2; i <= k; i++) fk *= mk<T>(i); set(name + ".inv_factorials", n, pre, k, s0); auto v = on(a, pre, [&](auto b, auto e) { inv_factorials(b, e, fk, k); }); auto w = make_inv_factorials<T>(n), u = make_inv_factorials<T>(n, fk, k); CHECK(w.size() == n && u.size() == n); for (size_t i = 0; i < n; i++) { if (i) x *= mk<T>(i); CHECK(v[i] * x == one && w[i] * x == one && u[i] * x == one); } }
    S("inverses"); { auto v = on(a, pre, [&](auto b, auto e) { inverses(b, e); }); auto w = make_inverses<T>(n); CHECK(w.size() == n); for (size_t i = 0; i < n; i++) CHECK(i == 0 ? (v[i] == zero && w[i] == zero) : (v[i] * mk<T>(i) == one && w[i] * mk<T>(i) == one)); }
  } };
int main(int c, char** v) { init(c, v); rng.s = seed; size_t n = 0; do { size_t m = n <= 40 ? n : rng.below(3) ? rng.below(60) : rng.below(1200); n++; F<M>::all("M1e9+7", m, true, 1 << 30); F<P>::all("M1009", m, true, 1009); F<uint32_t>::all("u32", m, false, 0); } while (!timeup()); return done(); }

#include "h.h"
#include <altruct/algorithm/math/convolutions.h>
#include "src/algorithm/math/bits.cpp"
#include <altruct/structure/math/modulo.h>
using namespace vh; using namespace altruct::math;
typedef modulo<int, 1000000007> M;
template<typename T> static T mk(int64_t v); template<> M mk<M>(int64_t v) { return M((int)(((v % 1000000007) + 1000000007) % 1000000007)); } template<> int64_t mk<int64_t>(int64_t v) { return v % 100000; }
template<typename T> struct C { typedef std::vector<T> V;
  static V rnd(size_t n) { V v; int k = rng.below(3); for (size_t i = 0; i < n; i++) v.push_back(k == 0 ? mk<T>(int64_t(rng.below(3)) - 1) : k == 1 && rng.below(4) ? mk<T>(0) : mk<T>(rng.any())); return v; }
  template<typename K> static V naive(const V& f, const V& g, K k) { V r(f.size(), mk<T>(0)); for (size_t i = 0; i < f.size(); i++) for (size_t j = 0; j < f.size(); j++) { T x = f[i]; x *= g[j]; r[k(i, j)] += x; } return r; }
  static V subset(const V& f, const V& g) { V r(f.size(), mk<T>(0)); for (size_t i = 0; i < f.size(); i++) for (size_t j = 0; j < f.size(); j++) if (!(i & j)) { T x = f[i]; x *= g[j]; r[i | j] += x; } return r; }
  static V sums(const V& f) { V r(f.size(), mk<T>(0)); for (size_t i = 0; i < f.size(); i++) for (size_t j = 0; j < f.size(); j++) if ((i & j) == j) r[i] += f[j]; return r; }
  // runs fn(r, f, g) in place of / apart from its arguments, between guards; al: 0 apart, 1 r==f, 2 r==g, 3 f==g, 4 all the same
  template<typename F> static V run(const V& f, const V& g, int al, F fn, bool keep) { size_t n = f.size(); T q = mk<T>(4242); auto put = [&](const V& v) { V w(1, q); w.insert(w.end(), v.begin(), v.end()); w.push_back(q); return w; };
    V a = put(f), b = put(g), r = put(rnd(n)); T *pf = a.data() + 1, *pg = (al == 3 || al == 4) ? pf : b.data() + 1, *pr = (al == 1 || al == 4) ? pf : al == 2 ? pg : r.data() + 1; fn(pr, pf, pg);
    for (auto* v : {&a, &b, &r}) CHECK((*v)[0] == q && (*v)[n + 1] == q); if (keep) { if (pr != pf) CHECK(V(pf, pf + n) == f); if (pr != pg && pf != pg) CHECK(V(pg, pg + n) == g); }
    return V(pr, pr + n); }
  template<typename F, typename K> static void conv(std::string nm, size_t n, F fn, K exp, uint64_t s0, bool keep, int amask) { for (int al = 0; al < 5; al++) if (amask >> al & 1) { V f = rnd(n), g = al >= 3 ? f : rnd(n); set(nm, n, al, s0); CHECK(run(f, g, al, fn, keep) == exp(f, g)); } }
  static void all(std::string nm, int L) { size_t n = size_t(1) << L; uint64_t s0 = rng.s; auto U = [&](const char* x) { return nm + "." + x; };
    auto kand = [](size_t i, size_t j) { return i & j; }; auto kor = [](size_t i, size_t j) { return i | j; }; auto kxor = [](size_t i, size_t j) { return i ^ j; }; auto kmax = [](size_t i, size_t j) { return i > j ? i : j; };
    auto E = [](auto k) { return [k](const V& f, const V& g) { return naive(f, g, k); }; };
    conv(U("and"), n, [&](T* r, T* f, T* g) { and_convolution(r, f, g, L); }, E(kand), s0, false, 31);
    conv(U("or"), n, [&](T* r, T* f, T* g) { or_convolution(r, f, g, L); }, E(kor), s0, false, 31);
    conv(U("xor"), n, [&](T* r, T* f, T* g) { xor_convolution(r, f, g, L); }, E(kxor), s0, false, 31);
    conv(U("fast_subset"), n, [&](T* r, T* f, T* g) { fast_subset_convolution(r, f, g, L); }, subset, s0, true, 31);
    conv(U("slow_subset"), n, [&](T* r, T* f, T* g) { slow_subset_convolution(r, f, g, L); }, subset, s0, true, 9);
    auto S1 = [](const V& f, const V&) { return sums(f); };
    conv(U("fast_subset_sum"), n, [&](T* r, T* f, T*) { fast_subset_sum(r, f, L); }, S1, s0, true, 3);
    conv(U("slow_subset_sum"), n, [&](T* r, T* f, T*) { slow_subset_sum(r, f, L); }, S1, s0, true, 1);
    for (int al = 0; al < 2; al++) { V f = rnd(n); set(U("subset_sum_inverse"), n, al, s0); CHECK(sums(run(f, f, al, [&](T* r, T* a, T*) { fast_subset_sum_inverse(r, a, L); }, true)) == f); }
    { V f = rnd(n), h = f; set(U("transforms"), n, s0); fast_arith_transform_plus(h.data(), L); CHECK(h == sums(f)); fast_arith_transform_minus(h.data(), L); CHECK(h == f); fast_arith_transform_minus(h.data(), L); fast_arith_transform_plus(h.data(), L); CHECK(h == f);
      fast_walsh_hadamard_transform(h.data(), L); for (size_t i = 0; i < n; i++) { T x = mk<T>(0); for (size_t j = 0; j < n; j++) if (__builtin_popcountll(i & j) & 1) x -= f[j]; else x += f[j]; CHECK(h[i] == x); } fast_walsh_hadamard_transform(h.data(), L); V z(n, mk<T>(0)); for (size_t i = 0; i < n; i++) { for (size_t j = 0; j < n; j++) z[i] += f[i]; } CHECK(h == z); }
    // any length
    size_t m = rng.below(n + 3); conv(U("max"), m ? m : 1, [&](T* r, T* f, T* g) { max_convolution(r, f, g, int(m ? m : 1)); }, E(kmax), s0, true, 31);
    auto slow = [&](const char* x, size_t l, auto fn, auto k) { V f = rnd(l), g = rnd(l), r = rnd(l), r0 = r; set(U(x), l, s0); fn(r.data(), f.data(), g.data()); V e = naive(f, g, k); for (size_t i = 0; i < l; i++) CHECK(r[i] == r0[i] + e[i]); };
    slow("slow_and", n, [&](T* r, T* f, T* g) { slow_and_convolution(r, f, g, L); }, kand); slow("slow_or", n, [&](T* r, T* f, T* g) { slow_or_convolution(r, f, g, L); }, kor); slow("slow_xor", n, [&](T* r, T* f, T* g) { slow_xor_convolution(r, f, g, L); }, kxor);
    slow("slow_max", m, [&](T* r, T* f, T* g) { slow_max_convolution(r, f, g, int(m)); }, kmax); slow("slow_cyclic", m, [&](T* r, T* f, T* g) { slow_cyclic_convolution(r, f, g, int(m)); }, [m](size_t i, size_t j) { return (i + j) % m; }); }
  // larger sizes, a few entries each; transforms of the results where an entry has too many pairs
  static T mul(T a, const T& b) { a *= b; return a; }
  static T sub1(const V& f, size_t w) { T x = f[0]; for (size_t s = w; s; s = (s - 1) & w) x += f[s]; return x; }
  static T sup1(const V& f, size_t w) { size_t n = f.size(), c = (n - 1) & ~w; T x = f[w]; for (size_t s = c; s; s = (s - 1) & c) x += f[w | s]; return x; }
  static T had1(const V& f, size_t w) { T x = mk<T>(0); for (size_t j = 0; j < f.size(); j++) if (__builtin_popcountll(w & j) & 1) x -= f[j]; else x += f[j]; return x; }
  static void big(std::string nm, int L) { size_t n = size_t(1) << L; uint64_t s0 = rng.s; int al = rng.below(5); V f = rnd(n), g = al >= 3 ? f : rnd(n); auto U = [&](const char* x) { set(nm + "." + x, n, al, s0); };
    std::vector<size_t> ws{0, 1, n - 1, n / 2, n - 2}; for (int i = 0; i < 6; i++) ws.push_back(rng.below(n));
    U("big.and"); V r = run(f, g, al, [&](T* r, T* f, T* g) { and_convolution(r, f, g, L); }, false); for (size_t w : ws) CHECK(sup1(r, w) == mul(sup1(f, w), sup1(g, w)));
    U("big.or"); r = run(f, g, al, [&](T* r, T* f, T* g) { or_convolution(r, f, g, L); }, false); for (size_t w : ws) CHECK(sub1(r, w) == mul(sub1(f, w), sub1(g, w)));
    U("big.xor"); r = run(f, g, al, [&](T* r, T* f, T* g) { xor_convolution(r, f, g, L); }, false); for (size_t w : ws) { T x = mk<T>(0); for (size_t i = 0; i < n; i++) x += mul(f[i], g[i ^ w]); CHECK(r[w] == x); }
    U("big.fast_subset"); r = run(f, g, al, [&](T* r, T* f, T* g) { fast_subset_convolution(r, f, g, L); }, true); for (size_t w : ws) { T x = mul(f[0], g[w]); for (size_t s = w; s; s = (s - 1) & w) x += mul(f[s], g[w ^ s]); CHECK(r[w] == x); }
    U("big.max"); r = run(f, g, al, [&](T* r, T* f, T* g) { max_convolution(r, f, g, int(n)); }, true); for (size_t w : ws) { T x = mul(f[w], g[w]); for (size_t i = 0; i < w; i++) { x += mul(f[i], g[w]); x += mul(f[w], g[i]); } CHECK(r[w] == x); }
    int a2 = al & 1; U("big.subset_sum"); r = run(f, g, a2, [&](T* r, T* f, T*) { fast_subset_sum(r, f, L); }, true); for (size_t w : ws) CHECK(r[w] == sub1(f, w));
    U("big.subset_sum_inverse"); r = run(f, g, a2, [&](T* r, T* f, T*) { fast_subset_sum_inverse(r, f, L); }, true); for (size_t w : ws) CHECK(sub1(r, w) == f[w]);
    U("big.transforms"); r = f; fast_arith_transform_plus(r.data(), L); for (size_t w : ws) CHECK(r[w] == sub1(f, w)); fast_arith_transform_minus(r.data(), L); CHECK(r == f); fast_walsh_hadamard_transform(r.data(), L); for (size_t w : ws) CHECK(r[w] == had1(f, w)); }
};
int main(int c, char** v) { init(c, v); rng.s = seed; int L = 0; do { C<M>::all("M1e9+7", L % 9); C<int64_t>::all("int64", L % 9); if (L % 9 == 8) { C<M>::big("M1e9+7", 10 + L / 9 % 4); C<int64_t>::big("int64", 13 - L / 9 % 4); } L++; } while (!timeup() || L < 27); return done(); }

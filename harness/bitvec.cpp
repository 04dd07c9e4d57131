#include "h.h"
#include "altruct/structure/container/bit_vector.h"
#include "src/algorithm/math/bits.cpp"
using namespace vh; using altruct::container::bit_vector;
typedef std::vector<int> B;
template<typename W> struct T { typedef bit_vector<W> V; static const int L = sizeof(W) * 8; const char* t;
  void st(const char* op, std::initializer_list<i128> l) { std::vector<i128> a(l); a.resize(6); set(std::string(op) + "<" + t + ">", a[0], a[1], a[2], a[3], a[4], a[5]); }
  static B rnd(size_t n) { B b(n); int m = (int)rng.below(4); for (auto& x : b) x = m == 0 ? 1 : m == 1 ? 0 : (int)rng.below(m == 2 ? 2 : 9) == 0; return b; }
  static V mk(const B& b) { if (rng.below(2)) return V(b.begin(), b.end()); V v(b.size()); for (size_t i = 0; i < b.size(); i++) if (b[i]) v.set(i, 1); v.words.shrink_to_fit(); return v; }
  // the visible state, and every way to reveal bits that should not exist
  void eq(const V& v, const B& b) { CHECK(v.size() == b.size() && v.words.size() == (b.size() + L - 1) / L + 1); for (size_t i = 0; i < b.size(); i++) CHECK(v.bit_at(i) == b[i]);
    for (size_t i = b.size(); i < v.words.size() * L; i++) CHECK(((v.words[i / L] >> (i % L)) & 1) == 0); }
  size_t len() { return rng.below(3) ? rng.below(4 * L + 3) : rng.below(6) * L + rng.below(3); }
  static int sgn(const B& a, const B& b) { return a < b ? -1 : a == b ? 0 : 1; }
  void all(size_t n) {
    B b = rnd(n); V v = mk(b); st("construct", {(i128)n}); eq(v, b); { V z(n); eq(z, B(n, 0)); }
    size_t p = rng.below(n + 1), q = p + rng.below(n + 1 - p), r = q + rng.below(n + 1 - q), s = r + rng.below(n + 1 - r);
    if (on("build")) { std::vector<int> x(n); B c(n); for (size_t i = 0; i < n; i++) x[i] = (int)(rng.below(2) ? rng.any() : rng.below(4)), c[i] = x[i] & 1; st("build", {(i128)n}); eq(V(x.begin(), x.end()), c); eq(V({3, 2, 0, 1, -1, 7, -2}), B({1, 0, 0, 1, 1, 1, 0})); }
    if (on("set") && n) for (int val : {0, 1, -1}) { V w(v); B c(b); size_t i = rng.below(n); st("set", {(i128)n, (i128)i, val}); w.set(i, val); c[i] = val < 0 ? !c[i] : val; eq(w, c); int bit = (int)rng.below(2); w[i] = bit; c[i] = bit; eq(w, c); w[i] ^= bit; c[i] ^= bit; w[i] |= 1 - bit; c[i] |= 1 - bit; w[i] &= bit; c[i] &= bit; eq(w, c); CHECK((int)w[i] == c[i]); }
    if (on("resize")) { V w(v); B c(b); for (int k = 0; k < 3; k++) { size_t m = len(); st("resize", {(i128)c.size(), (i128)m}); w.resize(m); c.resize(m, 0); eq(w, c); } size_t m = len(); w.reserve(m); if (m > c.size()) c.resize(m, 0); eq(w, c); }
    if (on("push")) { V w(v); B c(b); st("push", {(i128)n}); for (int k = 0; k < 2 * L; k++) { if (rng.below(2)) { int x = (int)rng.below(2); w.push_back(x); c.push_back(x); } else if (c.size()) { w.pop_back(); c.pop_back(); } } eq(w, c); }
    if (on("shift")) { int k = (int)(rng.below(5) ? rng.below(n + 2 * L + 2) : rng.below(1 << 20)); if (rng.below(3) == 0) k = k / L * L; V w(v); B c(n, 0); st("shift", {(i128)n, k}); w <<= k; for (size_t i = k; i < n; i++) c[i] = b[i - k]; eq(w, c); eq(v << k, c); V x(v); B d(n, 0); x >>= k; for (size_t i = 0; i + k < n; i++) d[i] = b[i + k]; eq(x, d); eq(v >> k, d); eq(v, b); }
    if (on("range")) for (int o = 0; o < 4; o++) for (int bw = 0; bw < 2; bw++) { V w(v); B c(b); st("range", {(i128)n, (i128)p, (i128)s, o, bw}); if (o == 0) w.apply(p, s, V::op_set0, bw); else if (o == 1) w.apply(p, s, V::op_set1, bw); else if (o == 2) w.apply(p, s, V::op_nop, bw); else w.apply(p, s, V::op_flip, bw); for (size_t i = p; i < s; i++) c[i] = o == 0 ? 0 : o == 1 ? 1 : o == 2 ? c[i] : !c[i]; eq(w, c); }
    if (on("not")) { st("not", {(i128)n}); B c(b); for (auto& x : c) x = !x; eq(~v, c); eq(v, b); }
    B e = rnd(len()); V u = mk(e);
    if (on("binary")) { size_t m = std::max(n, e.size()); B x(m), y(m), z(m); for (size_t i = 0; i < m; i++) { int a = i < n ? b[i] : 0, c = i < e.size() ? e[i] : 0; x[i] = a & c; y[i] = a | c; z[i] = a ^ c; } st("binary", {(i128)n, (i128)e.size()}); eq(v & u, x); eq(v | u, y); eq(v ^ u, z); V w(v); w &= u; eq(w, x); w = v; w |= u; eq(w, y); w = v; w ^= u; eq(w, z); eq(v, b); eq(u, e); w = v; w &= w; eq(w, b); w |= w; eq(w, b); w ^= w; eq(w, B(n, 0)); }
    if (on("copy")) for (int o = 0; o < 8; o++) { size_t l = rng.below(std::min(n, e.size()) + 1), f = rng.below(n - l + 1), g = rng.below(e.size() - l + 1); V w(v); B c(b); st("copy", {(i128)n, (i128)f, (i128)e.size(), (i128)g, (i128)l, o});
      W (*op[])(W, W, int) = {V::op_set, V::op_setn, V::op_and, V::op_or, V::op_xor, V::op_nand, V::op_nor, V::op_eq}; auto F = [&](int x, int y) { return o == 0 ? y : o == 1 ? !y : o == 2 ? x & y : o == 3 ? x | y : o == 4 ? x ^ y : o == 5 ? !(x & y) : o == 6 ? !(x | y) : x == y; };
      V::apply(w, f, u, g, l, op[o]); for (size_t i = 0; i < l; i++) c[f + i] = F(c[f + i], e[g + i]); eq(w, c);
      l = rng.below(n + 1), f = rng.below(n - l + 1), g = rng.below(n - l + 1); st("copy_self", {(i128)n, (i128)f, (i128)g, (i128)l, o}); w = v; c = b; V::apply(w, f, w, g, l, op[o]); for (size_t i = 0; i < l; i++) c[f + i] = F(b[f + i], b[g + i]); eq(w, c); }
    if (on("reverse")) { V w(v); B c(b); st("reverse", {(i128)n, (i128)p, (i128)s}); w.reverse(p, s); std::reverse(c.begin() + p, c.begin() + s); eq(w, c); }
    if (on("swap")) { V w(v); B c(b); st("swap", {(i128)n, (i128)p, (i128)q, (i128)r, (i128)s}); if (rng.below(2)) w.swap(p, q, r, s); else w.swap(r, s, p, q); B d(b.begin(), b.begin() + p); auto ap = [&](size_t x, size_t y) { d.insert(d.end(), b.begin() + x, b.begin() + y); }; ap(r, s); ap(q, r); ap(p, q); ap(s, n); if (p == r && rng.below(1) == 0) d = b; if (!(p == r)) eq(w, d); }
    if (on("rotate")) { V w(v); B c(b); size_t k = rng.below(3) ? rng.below(s - p + 3) : rng.any(); st("rotate", {(i128)n, (i128)p, (i128)s, (i128)k}); w.rotate_left(p, s, k); if (s > p) std::rotate(c.begin() + p, c.begin() + p + k % (s - p), c.begin() + s); eq(w, c); w.rotate_right(p, s, k); eq(w, b); }
    if (on("hamming")) { size_t l = rng.below(std::min(n, e.size()) + 1), f = rng.below(n - l + 1), g = rng.below(e.size() - l + 1); st("hamming", {(i128)n, (i128)f, (i128)e.size(), (i128)g, (i128)l}); size_t h = 0; for (size_t i = 0; i < l; i++) h += b[f + i] != e[g + i]; CHECK(V::hamming_distance(v, f, u, g, l) == h); V z(n); h = 0; for (size_t i = p; i < s; i++) h += b[i]; CHECK(V::hamming_distance(v, p, z, p, s - p) == h); }
    if (on("compare")) { B d = rng.below(2) ? e : b; if (rng.below(2)) d.resize(len(), 0); if (d.size() && rng.below(2)) d[rng.below(d.size())] ^= 1; V w = mk(d); st("compare", {(i128)n, (i128)d.size()}); int c = sgn(b, d); CHECK((v == w) == (c == 0) && (v != w) == (c != 0) && (v < w) == (c < 0) && (v > w) == (c > 0) && (v <= w) == (c <= 0) && (v >= w) == (c >= 0));
      size_t f = rng.below(d.size() + 1), g = f + rng.below(d.size() - f + 1); c = sgn(B(b.begin() + p, b.begin() + s), B(d.begin() + f, d.begin() + g)); CHECK(V::compare(v, p, s, w, f, g) == c); }
    if (on("string")) { st("string", {(i128)n, (i128)p, (i128)s}); std::string x; for (size_t i = p; i < s; i++) x += char('0' + b[i]); CHECK(v.to_string(p, s) == x); for (size_t i = p; i + L <= n; i += 1 + rng.below(L)) { W w = v.word_at(i); for (int j = 0; j < L; j++) CHECK((int)((w >> j) & 1) == b[i + j]); } }
  }
  void history() { B b = rnd(len()); V v = mk(b); for (int k = 0; k < 25; k++) { size_t n = b.size(), p = rng.below(n + 1), s = p + rng.below(n - p + 1); int o = (int)rng.below(9); st("history", {(i128)n, o, (i128)p, (i128)s, k});
    if (o == 0) { size_t m = len(); v.resize(m); b.resize(m, 0); } else if (o == 1) { int c = (int)rng.below(n + L + 1); v <<= c; B d(n, 0); for (size_t i = c; i < n; i++) d[i] = b[i - c]; b = d; } else if (o == 2) { int c = (int)rng.below(n + L + 1); v >>= c; B d(n, 0); for (size_t i = 0; i + c < n; i++) d[i] = b[i + c]; b = d; }
    else if (o == 3) { v.apply(p, s, V::op_flip); for (size_t i = p; i < s; i++) b[i] ^= 1; } else if (o == 4) { v.reverse(p, s); std::reverse(b.begin() + p, b.begin() + s); } else if (o == 5) { int x = (int)rng.below(2); v.push_back(x); b.push_back(x); } else if (o == 6) { if (n) v.pop_back(), b.pop_back(); } else if (o == 7) { v = ~v; for (auto& x : b) x ^= 1; } else { B e = rnd(len()); v |= mk(e); if (e.size() > n) b.resize(e.size(), 0); for (size_t i = 0; i < e.size(); i++) b[i] |= e[i]; } eq(v, b); } }
};
int main(int c, char** v) { init(c, v); rng.s = seed; T<uint8_t> a{"uint8"}; T<uint16_t> b{"uint16"}; T<uint32_t> d{"uint32"}; T<uint64_t> e{"uint64"};
  for (size_t n = 0; n < 40; n++) for (int k = 0; k < 3; k++) a.all(n);
  do { a.all(a.len()); b.all(b.len()); d.all(d.len()); for (int k = 0; k < 3; k++) e.all(e.len()); if (on("history")) { a.history(); d.history(); e.history(); } } while (!timeup());
  return done(); }

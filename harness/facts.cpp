#include "h.h"
#include "altruct/algorithm/math/factorization.h"
#include "altruct/algorithm/math/primes.h"
#include "src/algorithm/math/base.cpp"
#include "src/algorithm/math/primes.cpp"
#include <map>
#include <set>
using namespace vh; namespace am = altruct::math;
typedef std::vector<std::pair<int64_t, int>> FV;
// independent primality: trial division, and for large numbers the 13 first prime bases (exact below 2^81)
static uint64_t pw(uint64_t b, uint64_t e, uint64_t m) { unsigned __int128 r = 1 % m, x = b % m; for (; e; e >>= 1, x = x * x % m) if (e & 1) r = r * x % m; return (uint64_t)r; }
static bool isp(uint64_t n) { if (n < 2) return false; static const int P[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41};
  if (n < 5000) { for (uint64_t d = 2; d * d <= n; d++) if (n % d == 0) return false; return true; }
  for (int p : P) if (n % p == 0) return false;
  uint64_t d = n - 1; int s = 0; while (d % 2 == 0) d /= 2, s++;
  for (int p : P) { uint64_t x = pw(p, d, n); bool ok = x == 1 || x == n - 1; for (int i = 1; i < s && !ok; i++) { x = (unsigned __int128)x * x % n; ok = x == n - 1; } if (!ok) return false; }
  return true; }
static FV fac(int64_t n) { FV f; for (int64_t d = 2; d * d <= n; d++) { int e = 0; while (n % d == 0) n /= d, e++; if (e) f.push_back({d, e}); } if (n > 1) f.push_back({n, 1}); return f; }
template<typename V> static bool good(const V& f, i128 n) { i128 p = 1; std::set<int64_t> s; for (auto& e : f) { if (!isp((uint64_t)e.first) || e.second < 1 || !s.insert((int64_t)e.first).second) return false; for (int k = 0; k < e.second; k++) { p *= e.first; if (p > n) return false; } } return p == n; }
template<typename T> static void mr(T n, const char* t) { if (on("miller_rabin")) { set(std::string("miller_rabin<") + t + ">", n); CHECK(am::miller_rabin<T>(n) == isp((uint64_t)n)); } }
static void mrall(uint64_t n) { if (n <= 0x7fffffff) mr<int>((int)n, "int"); if (n <= 0xffffffffu) mr<uint32_t>((uint32_t)n, "uint32"); if (n <= INT64_MAX) { mr<int64_t>((int64_t)n, "int64"); mr<long long>((long long)n, "llong"); } if (n < (1ull << 63)) mr<uint64_t>(n, "uint64"); }
template<typename T> static void gen(T n, const char* t) { // general factoring
  if (on("pollard_rho")) for (T k : {T(2), T(3), T(7)}) { set(std::string("pollard_rho<") + t + ">", n, k); T d = am::pollard_rho<T>(n, k, k, 20000); CHECK(n == 0 ? d == 0 : d >= 1 && n % d == 0); }
  if (n > 0 && on("factor_integer")) { set(std::string("factor_integer<") + t + ">", n); auto f = am::factor_integer<T>(n); CHECK(good(f, n)); } }
static void slow(int64_t n) { if (!on("factor_integer_slow")) return; set("factor_integer_slow", n); CHECK(am::factor_integer_slow<int64_t>(n) == fac(n)); if (n <= 0x7fffffff) { auto f = am::factor_integer_slow<int>((int)n); CHECK(FV(f.begin(), f.end()) == fac(n)); } if (n <= 0xffff) { auto f = am::factor_integer_slow<uint32_t>((uint32_t)n); CHECK(FV(f.begin(), f.end()) == fac(n)); } }
static FV shuf(FV f) { for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[rng.below(i)]); return f; }
static int64_t P64(int64_t b, int e) { int64_t r = 1; while (e--) r *= b; return r; }
static void fromf(FV f, int64_t n) { // functions of a factor list; f is the factorisation of n
  f = shuf(f); i128 tau = 1, phi = 1; int64_t lam = 1; bool lamok = true; int64_t rad = 1;
  for (auto& e : f) { tau *= e.second + 1; phi *= (i128)P64(e.first, e.second - 1) * (e.first - 1); rad *= e.first; int ee = e.first == 2 && e.second > 2 ? e.second - 1 : e.second; int64_t c = P64(e.first, ee - 1) * (e.first - 1), a = lam, b = c; while (b) { int64_t r = a % b; a = b; b = r; } i128 l = (i128)lam / a * c; if (l > INT64_MAX) lamok = false; else lam = (int64_t)l; }
  if (on("from_factorization")) { set("from_factorization", n); CHECK(am::from_factorization<int64_t>(f) == n); }
  if (on("prime_factors")) { set("prime_factors", n); auto a = am::prime_factors<int64_t>(f); auto b = am::prime_exponents<int64_t>(f); CHECK(a.size() == f.size() && b.size() == f.size()); for (size_t i = 0; i < f.size(); i++) CHECK(a[i] == f[i].first && b[i] == f[i].second); }
  if (on("divisor_sigma0")) { set("divisor_sigma0", n); CHECK(am::divisor_sigma0<int64_t>(f) == tau); }
  if (on("euler_phi")) { set("euler_phi", n); CHECK(am::euler_phi<int64_t>(f) == phi); }
  if (lamok && on("carmichael_lambda")) { set("carmichael_lambda", n); CHECK(am::carmichael_lambda<int64_t>(f) == lam); }
  if (tau > 3000) return;
  std::vector<int64_t> D(1, 1); for (auto& e : f) { size_t m = D.size(); int64_t q = 1; for (int k = 0; k < e.second; k++) { q *= e.first; for (size_t i = 0; i < m; i++) D.push_back(D[i] * q); } } std::sort(D.begin(), D.end());
  int64_t ms[4] = {0, D[rng.below(D.size())], 1 + (int64_t)rng.below(n), n};
  if (on("divisors")) for (int64_t m : ms) { set("divisors", n, m); std::vector<int64_t> E; for (int64_t d : D) if (m <= 0 || d <= m) E.push_back(d); CHECK(am::divisors<int64_t>(f, m) == E);
    std::vector<int64_t> w(2, -5); am::divisors<int64_t>(w, f, m); CHECK(w.size() == E.size() + 2 && w[0] == -5 && w[1] == -5); w.erase(w.begin(), w.begin() + 2); std::sort(w.begin(), w.end()); CHECK(w == E);
    if (n <= 0x7fffffff) { std::vector<std::pair<int, int>> g(f.begin(), f.end()); auto x = am::divisors<int>(g, (int)m); CHECK(std::vector<int64_t>(x.begin(), x.end()) == E); } }
  if (on("squarefree_signed_divisors")) { set("squarefree_signed_divisors", n); std::vector<int64_t> w; am::squarefree_signed_divisors<int64_t>(w, f); std::vector<int64_t> E; for (int64_t d : D) if (rad % d == 0) { int c = 0; for (auto& e : f) c += d % e.first == 0; E.push_back(c % 2 ? -d : d); } std::sort(w.begin(), w.end()); std::sort(E.begin(), E.end()); CHECK(w == E); }
}
static void lam_def(int n) { // the least exponent that sends every unit to 1
  if (!on("carmichael_lambda")) return; set("carmichael_lambda", n); int64_t l = am::carmichael_lambda<int64_t>(fac(n)), p = am::euler_phi<int64_t>(fac(n)); int64_t L = 1, c = 0; for (int x = 1; x <= n; x++) { int a = x, b = n; while (b) { int r = a % b; a = b; b = r; } if (a != 1) continue; c++; int64_t o = 1, y = x % n; while (y != 1 % n) y = y * x % n, o++; int64_t g = L, h = o; while (h) { int64_t r = g % h; g = h; h = r; } L = L / g * o; } CHECK(l == L && p == c); }
static std::vector<int> pf;
static void table(int n) { // factoring with a table of prime factors
  if (on("factor_table")) { set("factor_table", n); std::vector<std::pair<int, int>> f; am::factor_integer(f, n, pf.data()); CHECK(n < 2 ? f.empty() : good(f, n)); std::map<int, int> m; m[2] = 1; am::factor_integer_to_map(m, n, pf.data()); m[2]--; if (!m[2]) m.erase(2); std::map<int, int> w; for (auto& e : fac(n)) w[(int)e.first] = e.second; CHECK(n < 2 ? m.empty() : m == w); }
  if (on("factor_product")) { int k = (int)rng.below(12); std::vector<int> v; i128 p = 1; for (int i = 0; i < k; i++) { int x = 1 + (int)rng.below(rng.below(4) ? 12 : pf.size() - 1); if (p * x > ((i128)1 << 62)) break; v.push_back(x); p *= x; } v.push_back(n < 1 ? 1 : n); p *= v.back(); set("factor_product", v.size(), v[0], v.back()); std::vector<std::pair<int, int>> f; am::factor_integer(f, v, pf.data()); CHECK(good(f, p)); } }
template<typename T> static void digits(T n, T b, int len, const char* t) {
  if (!on("integer_digits")) return; set(std::string("integer_digits<") + t + ">", n, b, len); auto d = am::integer_digits<T, T>(n, b, len); i128 r = 0, w = 1; size_t need = 0; for (T x = n; x > 0; x /= b) need++; CHECK(d.size() == std::max<size_t>(need, len > 0 ? len : 0));
  for (size_t i = 0; i < d.size(); i++) { CHECK(d[i] >= 0 && d[i] < b); if (d[i]) r += d[i] * w; if (i + 1 < need) w *= b; } CHECK(r == (i128)n); T q = am::from_digits<T, T>(d, b); CHECK(q == n);
  if (b <= 36) { std::string s = am::integer_string<T, T>(n, b, len); CHECK(s.size() == d.size()); for (size_t i = 0; i < s.size(); i++) CHECK(s[s.size() - 1 - i] == "0123456789abcdefghijklmnopqrstuvwxyz"[d[i]]); } }
static void fprimes(std::vector<int64_t> vp, int64_t N) { if (!on("from_primes")) return; set("from_primes", vp.size(), vp.empty() ? 0 : vp[0], N);
  std::multiset<int64_t> got; bool ok = true; am::from_primes<int64_t>(vp, N, [&](const FV& f, int64_t n) { got.insert(n); i128 p = 1; for (auto& e : f) for (int k = 0; k < e.second; k++) p *= e.first; ok = ok && p == n && n <= N; });
  std::vector<int64_t> w(1, 1); for (int64_t p : vp) for (size_t i = 0; i < w.size(); i++) if (w[i] <= N / p) w.push_back(w[i] * p); CHECK(ok && got == std::multiset<int64_t>(w.begin(), w.end())); }
static void fraction() { if (!on("fraction_reduce")) return; int a = (int)rng.below(5), b = (int)rng.below(5); std::vector<int64_t> x, y; i128 A = 1, B = 1; for (int i = 0; i < a; i++) x.push_back(1 + rng.below(rng.below(2) ? 12 : 200)), A *= x.back(); for (int i = 0; i < b; i++) y.push_back(1 + rng.below(rng.below(2) ? 12 : 200)), B *= y.back();
  set("fraction_reduce", a, b, a ? x[0] : 0, b ? y[0] : 0); am::fraction_reduce(x, y, [](int64_t p, int64_t q) { while (q) { int64_t r = p % q; p = q; q = r; } return p; }); i128 C = 1, D = 1; CHECK((int)x.size() == a && (int)y.size() == b); for (auto v : x) C *= v; for (auto v : y) D *= v; CHECK(A * D == B * C); i128 g = C, h = D; while (h) { i128 r = g % h; g = h; h = r; } CHECK(g == 1); }
static uint64_t rp(int bits) { for (;;) { uint64_t x = (1ull << (bits - 1)) + rng.any() % (1ull << (bits - 1)); if (isp(x)) return x; } }
static int64_t smooth() { int64_t n = 1; static const int64_t P[] = {2, 2, 2, 3, 3, 5, 7, 11, 13, 65537, 46337, 3037000499LL, 2147483647}; for (int k = 0; k < 40; k++) { int64_t p = P[rng.below(13)]; if (n <= INT64_MAX / p) n *= p; else break; if (rng.below(9) == 0) break; } return n; }
static FV ffac(int64_t n) { FV f; for (int64_t p : {2LL, 3LL, 5LL, 7LL, 11LL, 13LL, 65537LL, 46337LL, 2147483647LL}) { int e = 0; while (n % p == 0) n /= p, e++; if (e) f.push_back({p, e}); } if (n > 1) for (auto& e : fac(n)) f.push_back(e); return f; }
int main(int c, char** v) { init(c, v); rng.s = seed; int N = 70000; pf.resize(N); { std::vector<int> p(N); std::vector<char> q(N); int m = am::primes(p.data(), q.data(), N); am::factor(pf.data(), N, p.data(), m); }
  // strong pseudoprimes to the first prime bases, and neighbours of the thresholds
  for (uint64_t n : {2047ull, 1373653ull, 9080191ull, 25326001ull, 3215031751ull, 4759123141ull, 1122004669633ull, 2152302898747ull, 3474749660383ull, 341550071728321ull, 3825123056546413051ull, 23068673ull, 104857601ull, 167772161ull, 469762049ull, 998244353ull, 2013265921ull, 2748779069441ull, 6597069766657ull, 180143985094819841ull, 4179340454199820289ull, 9223372036854775783ull, 9223372036854775807ull, 4611686014132420609ull, 3037000499ull * 3037000493ull, 4295098369ull, 2147483647ull, 2147117569ull}) for (int k = -2; k <= 2; k++) { mrall(n + k > INT64_MAX ? INT64_MAX : n + k); }
  for (int n = 0; n < 3000; n++) { mrall(n); gen<int>(n, "int"); gen<int64_t>(n, "int64"); slow(n); if (n) fromf(fac(n), n); table(n); }
  for (int n = 1; n < 260; n++) lam_def(n);
  for (int n = 0; n < 300; n++) for (int b = 2; b < 20; b++) digits<int>(n, b, n % 7, "int");
  for (int k = 1; k < 31; k++) { int p = (int)std::pow(2., k); for (int d = -1; d <= 1; d++) { gen<int>(p + d, "int"); slow(p + d); } }
  for (int64_t n : {INT64_MAX, INT64_MAX - 1, (int64_t)1 << 62, (int64_t)(3037000493LL * 3037000493LL), (int64_t)3825123056546413051LL, (int64_t)4611686014132420609LL, (int64_t)4052555153018976267LL}) { mrall(n); gen<int64_t>(n, "int64"); }
  fprimes({}, 10); fprimes({2}, INT64_MAX); fprimes({2147483647}, INT64_MAX); fprimes({3, 65537}, INT64_MAX); fprimes({2, 3, 5}, 1);
  for (FV f : {FV{{2, 62}}, FV{{3, 39}}, FV{{9223372036854775783LL, 1}}, FV{{2147483647, 2}}, FV{{2, 1}, {4611686018427387847LL, 1}}, FV{}}) { int64_t n = 1; for (auto& e : f) n *= P64(e.first, e.second); fromf(f, n); }
  auto e64 = edges<int64_t>(0, INT64_MAX); auto e32 = edges<int>(0, INT32_MAX);
  do {
    int a = 2 + (int)rng.below(30), b = 2 + (int)rng.below(30); uint64_t p = rp(a), q = rng.below(4) ? rp(b) : p; mrall(p); mrall(p * q); mrall(rng.any() >> (1 + rng.below(60)));
    if (p * q < (1ull << 46)) gen<int64_t>((int64_t)(p * q), "int64"); if (p * q < (1ull << 31)) gen<int>((int)(p * q), "int"); gen<int64_t>((int64_t)(rng.any() >> (20 + rng.below(40))), "int64");
    uint64_t r = rp(8 + (int)rng.below(5)); gen<int64_t>((int64_t)(r * r * r), "int64"); for (int k = 0; k < 6; k++) { int s = 10 + (int)rng.below(50); uint64_t m = (((rng.any() | 1) & ((1ull << (62 - s)) - 1)) << s) + 1; for (int t = 0; t < 60; t++, m += 1ull << (s + 1)) if (m <= INT64_MAX && isp(m)) { mrall(m); break; } } { uint64_t k = rp(12 + (int)rng.below(19)); mrall(k * (2 * k - 1)); }
    slow(1 + (int64_t)(rng.any() >> (30 + rng.below(34)))); { int64_t s = smooth(); fromf(ffac(s), s); } { int64_t s = 1 + rng.below(1 << 30); fromf(fac(s), s); } table((int)rng.below(N)); for (int k = 0; k < 20; k++) fraction();
    digits<int64_t>(pick<int64_t>(e64, 0, INT64_MAX), std::max<int64_t>(2, pick<int64_t>(e64, 2, 1000)), (int)rng.below(80), "int64"); digits<int>(pick<int>(e32, 0, INT32_MAX), std::max(2, pick<int>(e32, 2, 40)), (int)rng.below(40), "int"); digits<uint64_t>(rng.any() >> rng.below(64), 2 + rng.below(60), (int)rng.below(70), "uint64");
    { std::vector<int64_t> vp; for (int64_t x : {2, 3, 5, 7, 13, 101, 65537}) if (rng.below(2)) vp.push_back(x); int64_t M = 1 + (int64_t)vp.size() > 3 ? (int64_t)rng.below(200000) : rng.below(2) ? pick<int64_t>(e64, 0, INT64_MAX) : (int64_t)rng.below(1000); if (vp.size() <= 2 || M < 200000) fprimes(vp, std::max<int64_t>(1, M)); }
  } while (!timeup());
  return done(); }

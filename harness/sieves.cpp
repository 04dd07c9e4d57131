#include "h.h"
#include "src/algorithm/math/base.cpp"
#include "src/algorithm/math/primes.cpp"
using namespace vh; namespace am = altruct::math;
typedef std::vector<std::pair<int64_t, int>> FV;
static FV fac(int64_t n) { FV f; for (int64_t d = 2; d * d <= n; d++) { int e = 0; while (n % d == 0) n /= d, e++; if (e) f.push_back({d, e}); } if (n > 1) f.push_back({n, 1}); return f; }
static bool isp(int64_t n) { auto f = fac(n); return n > 1 && f.size() == 1 && f[0].second == 1; }
static int64_t phi(int64_t n) { int64_t r = n; for (auto& f : fac(n)) r = r / f.first * (f.first - 1); return r; }
static int mob(int64_t n) { if (n < 1) return 0; int r = 1; for (auto& f : fac(n)) r = f.second > 1 ? 0 : -r; return r; }
static std::vector<int> plist(int n) { std::vector<int> p; for (int i = 2; i < n; i++) if (isp(i)) p.push_back(i); return p; }
// exact-size arrays so that the sanitizer sees every access outside the table
template<typename T> static std::vector<T> tab(size_t n) { std::vector<T> v(n, (T)7777); v.shrink_to_fit(); return v; }
static void small(int n) {
  auto P = plist(n); int m = (int)P.size();
  if (on("primes")) { set("primes", n); auto p = tab<int>(m + 1); auto q = tab<char>(n); CHECK(am::primes(p.data(), q.data() ? q.data() : (char*)&q, n) == m); for (int i = 0; i < m; i++) CHECK(p[i] == P[i]); CHECK(p[m] == 0); for (int i = 0; i < n; i++) CHECK((q[i] == 1) == isp(i) && (q[i] == 0 || q[i] == 1)); }
  if (on("primes_q")) { set("primes_q", n); auto q = tab<char>(n + 1); q[n] = 55; CHECK(am::primes(nullptr, q.data(), n) == m); for (int i = 0; i < n; i++) CHECK((q[i] == 1) == isp(i)); CHECK(q[n] == 55); }
  if (on("primes_p")) { set("primes_p", n); auto p = tab<int>(std::max(n, 1)); CHECK(am::primes(p.data(), nullptr, n) == m); for (int i = 0; i < m; i++) CHECK(p[i] == P[i]); CHECK(p[m] == 0); }
  std::vector<int> pp(P); pp.shrink_to_fit(); int dummy = 0; const int* p = m ? pp.data() : &dummy + 1;
  auto t = tab<int>(n); std::vector<int64_t> t64 = tab<int64_t>(n);
  if (on("prime_pi")) { set("prime_pi", n); am::prime_pi(t.data(), n, p, m); for (int i = 0, c = 0; i < n; i++) { c += isp(i); CHECK(t[i] == c); } }
  if (on("euler_phi")) { set("euler_phi", n); am::euler_phi(t.data(), n, p, m); for (int i = 0; i < n; i++) CHECK(t[i] == phi(i)); }
  if (on("moebius_mu")) { set("moebius_mu", n); am::moebius_mu(t.data(), n); for (int i = 0; i < n; i++) CHECK(t[i] == mob(i)); }
  if (on("prime_nu")) { set("prime_nu", n); am::prime_nu(t.data(), n, p, m); for (int i = 0; i < n; i++) CHECK(t[i] == (i ? (int)fac(i).size() : 0)); }
  if (on("factor")) { set("factor", n); am::factor(t.data(), n, p, m); for (int i = 0; i < n; i++) CHECK(t[i] == (i < 2 ? i : fac(i).back().first)); }
  if (on("smallest_factor")) { set("smallest_factor", n); am::smallest_factor(t.data(), n); for (int i = 0; i < n; i++) CHECK(t[i] == (i < 2 || isp(i) ? 0 : fac(i)[0].first)); }
  if (on("sigma")) { set("sigma", n); auto a = tab<int>(n); am::divisor_sigma0(a.data(), n); am::divisor_sigma1(t64.data(), n); for (int i = 0; i < n; i++) if (!i) CHECK(a[0] == 7777 && t64[0] == 7777); else { int c = 0; int64_t s = 0; for (int d = 1; d <= i; d++) if (i % d == 0) c++, s += d; CHECK(a[i] == c && t64[i] == s); } }
}
static void seg(int64_t b, int64_t len, int more) {
  int64_t e = b + len; int64_t s = 0; while (s * s < e) s++;
  auto P = plist((int)std::min<int64_t>(s + more, 100000)); int m = (int)P.size(); int dummy = 0; const int* p = m ? P.data() : &dummy + 1;
  std::vector<FV> F; for (int64_t x = b; x < e; x++) F.push_back(fac(x));
  if (on("segmented_q")) { set("segmented_q", b, e, more); auto q = tab<char>(len + 1); q[len] = 55; am::segmented_q(q.data(), b, e, p, m); for (int64_t k = 0; k < len; k++) CHECK((q[k] == 1) == (b + k > 1 && F[k].size() == 1 && F[k][0].second == 1) && (q[k] == 0 || q[k] == 1)); CHECK(q[len] == 55); }
  if (on("segmented_phi")) { set("segmented_phi", b, e, more); auto f = tab<int64_t>(len + 1), t = tab<int64_t>(len + 1); am::segmented_phi(f.data(), t.data(), b, e, p, m); for (int64_t k = 0; k < len; k++) CHECK(f[k] == phi(b + k)); CHECK(f[len] == 7777 && t[len] == 7777); }
  if (on("segmented_mu")) { set("segmented_mu", b, e, more); auto f = tab<int64_t>(len + 1); am::segmented_mu(f.data(), b, e, p, m); for (int64_t k = 0; k < len; k++) CHECK(f[k] == mob(b + k)); CHECK(f[len] == 7777); }
}
static void big(int n) { // one large table per run, spot checks by trial division
  auto P = plist(2000); auto q = tab<char>(n); std::vector<int> p(n / 5 + 10, 0); set("big", n);
  int m = am::primes(p.data(), q.data(), n); auto sp = tab<int>(n), a = tab<int>(n), ph = tab<int>(n), mu = tab<int>(n); auto s1 = tab<int64_t>(n);
  am::smallest_factor(sp.data(), n); am::divisor_sigma0(a.data(), n); am::divisor_sigma1(s1.data(), n); am::euler_phi(ph.data(), n, p.data(), m); am::moebius_mu(mu.data(), n);
  for (int k = 0; k < 1500 + (int)P.size(); k++) { int64_t i = k < 1500 ? n - 1 - k : (int64_t)P[k - 1500] * P[k - 1500]; if (i >= n || i < 1) continue; set("big", n, i); auto f = fac(i);
    int c = 1; int64_t s = 1; for (auto& e : f) { c *= e.second + 1; int64_t t = 1; for (int j = 0; j < e.second; j++) t = t * e.first + 1; s *= t; }
    CHECK(sp[i] == (i < 2 || isp(i) ? 0 : f[0].first) && (q[i] == 1) == isp(i) && a[i] == c && s1[i] == s && ph[i] == phi(i) && mu[i] == mob(i)); }
}
int main(int c, char** v) { init(c, v); rng.s = seed; int n = 0;
  for (int b = 0; b < 60; b++) for (int l = 0; l < 30; l++) seg(b, l, b % 3 * 7);
  if (on("big")) { big(60000); big(1200000); }
  do { small(n <= 220 ? n : 220 + (int)rng.below(900)); n++;
    int64_t b = rng.below(3) ? rng.below(3000) : rng.below(2) ? rng.below(40000000) : 1000 * 1000 - 5; seg(b, rng.below(40), rng.below(2) ? 0 : rng.below(60));
    if (n % 8 == 0) { int64_t r = 2 + rng.below(300); seg(std::max<int64_t>(0, r * r - 3), 6, 0); }
  } while (!timeup());
  return done(); }

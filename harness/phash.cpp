#include "h.h"
#include "altruct/algorithm/hash/polynomial_hash.h"
using namespace altruct::hash; using namespace vh;
typedef polynomial_hash<2, int32_t, int64_t> P2; typedef polynomial_hash<1> P1;
template<> int32_t P2::M[2] = {}; template<> int32_t P2::B[2] = {}; template<> int32_t P2::BI[2] = {};
template<> int32_t P1::M[1] = {}; template<> int32_t P1::B[1] = {}; template<> int32_t P1::BI[1] = {};
typedef polynomial_hash1<1000000007, 1000003, 486802543> A1; typedef polynomial_hash1<2147483647, 16807, 1407677000> A2;
static const char* nm; static std::string ex;
static std::string sh(const std::vector<int>& v) { std::string s = "["; for (int x : v) s += std::to_string(x) + " "; return s + "]"; }
static int64_t md(__int128 v, int64_t m) { int64_t r = (int64_t)(v % m); return r < 0 ? r + m : r; }
static int64_t poly(const std::vector<int>& s, size_t b, size_t e, int64_t x, int64_t m) { int64_t r = 0; for (size_t i = e; i > b; i--) r = md((__int128)r * x + s[i - 1], m); return r; }
static int64_t inv(int64_t a, int64_t m) { int64_t x = 1, y = 0, u = a, v = m; while (v) { int64_t q = u / v, t = u % v; u = v; v = t; t = x - q * y; x = y; y = t; } return u == 1 ? md(x, m) : 0; }
template<class P> struct Tr { static int K() { return (int)P().h.size(); } static int64_t m(int k) { return P::M[k]; } static int64_t b(int k) { return P::B[k]; } static int64_t g(const P& p, int k) { return p.h[k]; } static void clear() { for (int k = 0; k < K(); k++) { P::W[k].clear(); P::WI[k].clear(); } } };
template<> struct Tr<A1> { static int K() { return 1; } static int64_t m(int) { return 1000000007; } static int64_t b(int) { return 1000003; } static int64_t g(const A1& p, int) { return p.h; } static void clear() { A1::W.clear(); A1::WI.clear(); } };
template<> struct Tr<A2> { static int K() { return 1; } static int64_t m(int) { return 2147483647; } static int64_t b(int) { return 16807; } static int64_t g(const A2& p, int) { return p.h; } static void clear() { A2::W.clear(); A2::WI.clear(); } };
template<class P> static void is(const P& p, const std::vector<int>& s, size_t b, size_t e) { for (int k = 0; k < Tr<P>::K(); k++) CHECK(Tr<P>::g(p, k) == poly(s, b, e, Tr<P>::b(k), Tr<P>::m(k))); }
template<class P> static void pick_base() { for (size_t k = 0; k < P().h.size(); k++) { int64_t m, b; do { switch (rng.below(4)) { case 0: m = 2 + rng.below(30); break; case 1: m = 2147483647 - rng.below(1000); break; case 2: m = 2 + rng.below(2147483645u); break; default: m = 1000000007; } b = 1 + rng.below((uint64_t)m); } while (inv(b, m) == 0 || b >= m); if (m == 2) b = 1; P::M[k] = (int32_t)m; P::B[k] = (int32_t)b; P::BI[k] = (int32_t)inv(b, m); } Tr<P>::clear(); }
template<class P> static void one(const std::vector<int>& s) {
    ex = std::string(nm) + " m=" + std::to_string(Tr<P>::m(0)) + " b=" + std::to_string(Tr<P>::b(0)) + " " + sh(s); size_t n = s.size();
    setx("append", &ex, (uint64_t)n); { P h; for (size_t i = 0; i < n; i++) { h.add(s[i], i); is(h, s, 0, i + 1); } if (n) { P q = h; q.sub_shr(s[0], 0); q >>= 1; is(q, s, 1, n); P t = h; t.sub_shr(s[0], 1); is(t, s, 1, n); P w; w.add(s[n - 1], n - 1); P v = h - w; is(v, s, 0, n - 1); v += w; CHECK(v == h); } }
    if (on("concat")) for (size_t b = 0; b <= n; b++) { setx("concat", &ex, (uint64_t)b); P l, r; for (size_t i = 0; i < b; i++) l.add(s[i], i); for (size_t i = b; i < n; i++) r.add(s[i], i - b); P c = l; c.add(r, b); is(c, s, 0, n); CHECK((l + (r << (int)b)) == c); P x = c; x.sub_shr(l, b); CHECK(x == r); CHECK(((c - l) >> (int)b) == r); CHECK(!(x < r) && !(r < x)); P o = r; o -= r; for (int k = 0; k < Tr<P>::K(); k++) CHECK(Tr<P>::g(o, k) == 0); }
    if (n) { setx("prepend", &ex, (uint64_t)n); P h; for (size_t i = n; i > 0; i--) { h <<= 1; h += P(h) - P(h); P e; e.add(s[i - 1], 0); h += e; is(h, s, i - 1, n); } P a, b; a.add(s[0], 0); b.add(s[n - 1], 0); P m = a * b; for (int k = 0; k < Tr<P>::K(); k++) CHECK(Tr<P>::g(m, k) == md((__int128)s[0] * s[n - 1], Tr<P>::m(k))); P d = a - b; for (int k = 0; k < Tr<P>::K(); k++) CHECK(Tr<P>::g(d, k) == md((__int128)s[0] - s[n - 1], Tr<P>::m(k))); }
    setx("cumulative", &ex, (uint64_t)n); { cumulative_hash<P> c(s.begin(), s.end()); CHECK(c.size() == n); for (size_t b = 0; b <= n; b += 1 + n / 8) for (size_t e = b; e <= n; e += 1 + n / 8) is(c.get(b, e), s, b, e); std::vector<int> t = s; for (int k = 0; k < 6; k++) { if (!t.empty() && rng.below(2)) { t.pop_back(); c.pop_back(); } else { int x = (int)rng(); t.push_back(x); c.push_back(x); } CHECK(c.size() == t.size()); size_t b = rng.below(t.size() + 1); is(c.get(b, t.size()), t, b, t.size()); is(c.get(0, b), t, 0, b); } }
    setx("reassign", &ex, (uint64_t)n); { cumulative_hash<P> c(s.begin(), s.end()); std::vector<int> t(s.rbegin(), s.rend()); t.resize(n / 2 + 1); c.assign(t.begin(), t.end()); CHECK(c.size() == t.size()); is(c.get(0, t.size()), t, 0, t.size()); }
}
template<class P> static void scal(int v, int w) { // scalar right-hand sides of the K-base hash
    ex = std::string(nm) + " m=" + std::to_string(P::M[0]); setx("scalar", &ex, v, w); P a, b; a.add(v, 0); auto chk = [&](const P& r, __int128 e) { for (int k = 0; k < Tr<P>::K(); k++) CHECK(r.h[k] == md(e, P::M[k])); };
    for (int k = 0; k < Tr<P>::K(); k++) CHECK(a.h[k] == md(v, P::M[k])); chk(a + w, (__int128)v + w); chk(a - w, (__int128)v - w); chk(a * w, (__int128)v * w); b = a; b.sub_shr(w, 0); chk(b, (__int128)v - w); CHECK(a.hash() == (size_t)a.h[0]); }
int main(int c, char** v) {
    init(c, v); rng.s = seed; auto E = edges<int>(-2, 3);
    P2::M[0] = 2147483647; P2::B[0] = 16807; P2::BI[0] = 1407677000; P2::M[1] = 1000000007; P2::B[1] = 1000003; P2::BI[1] = 486802543; P1::M[0] = 758986603; P1::B[0] = 36759071; P1::BI[0] = 366621061;
    nm = "polynomial_hash<2>"; for (int a : E) for (int b : E) { scal<P2>(a, b); }
    for (int a : E) for (int b : E) { nm = "polynomial_hash<2>"; one<P2>({a, b}); nm = "polynomial_hash1/1e9+7"; one<A1>({a, b}); nm = "polynomial_hash1/2^31-1"; one<A2>({a, b}); }
    do { if (rng.below(4) == 0) { pick_base<P2>(); pick_base<P1>(); Tr<A1>::clear(); Tr<A2>::clear(); } size_t n = rng.below(rng.below(8) ? 12 : rng.below(8) ? 80 : 400); std::vector<int> s(n); int st = rng.below(4); for (auto& x : s) x = st == 0 ? (int)(signed char)rng() : st == 1 ? pick<int>(E, -2147483647 - 1, 2147483647) : st == 2 ? (int)rng.below(26) : (int)rng();
        nm = "polynomial_hash<2>"; one<P2>(s); nm = "polynomial_hash<1>"; one<P1>(s); nm = "polynomial_hash1/1e9+7"; one<A1>(s); nm = "polynomial_hash1/2^31-1"; one<A2>(s); nm = "polynomial_hash<2>"; scal<P2>((int)rng(), (int)rng()); scal<P1>(pick<int>(E, -2147483647 - 1, 2147483647), (int)rng());

    } while (!timeup());
    return done();
}

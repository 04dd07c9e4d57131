H = "include/altruct/algorithm/math/primes.h"; F = "include/altruct/algorithm/math/factorization.h"; C = "src/algorithm/math/primes.cpp"
D = '#include "altruct/algorithm/math/primes.h"\n#include "altruct/algorithm/math/factorization.h"\n#include <vector>\n#include <string>\n#include <cstdio>\nusing namespace altruct::math;\n'
def S(id, file, edits, needs, breaks, main, **k): return dict(id=id, property="C19", edits=[(file, a, b) for a, b in edits], needs=needs, breaks=breaks, demo=D + "int main() { " + main + " }\n", **k)
SEEDS = [
    S("c19-slow-square", F, [("for (I i = 2; i <= n / i; i += 1) {", "for (I i = 2; i < n / i || (i < 100 && i <= n / i); i += 1) {")],
      "the square of a prime above 100 as the remaining cofactor", "p*p is reported as one prime factor", "auto f = factor_integer_slow<int64_t>(2 * 101 * 101); return f.size() == 2 && f[1].first == 101 && f[1].second == 2 ? 0 : 1;"),
    S("c19-divisors-maxd", H, [("if (maxd > 0 && d > maxd / f.first) break;", "if (maxd > 0 && (d > maxd / f.first || (f.first > 2000000000 && d == maxd / f.first))) break;")],
      "a bound whose quotient by a prime above 2000000000 is itself a divisor reached", "the divisor equal to the bound is left out", "std::vector<std::pair<int64_t,int>> f = {{2,2},{2147483647,1}}; return divisors<int64_t>(f, 4294967294).size() == 5 ? 0 : 1;"),
    S("c19-mr-inner", F, [("if (x == 1 || x == n - 1) break;", "if (x == n - 1) break;"), ("for (int i = 1; i < r; i++) {", "for (int i = 1; i < (r > 20 ? 20 : r); i++) {")],
      "a prime n with n-1 divisible by 2^21 and a base whose chain reaches -1 late", "primes such as 998244353 = 119*2^23+1 are reported composite", "for (int p : {23068673, 104857601, 167772161, 469762049, 998244353, 754974721, 2013265921}) if (!miller_rabin<int>(p)) return 1; for (long p : {3221225473L, 2281701377L, 3489660929L, 75161927681L, 77309411329L}) if (!miller_rabin<int64_t>(p)) return 1; return 0;"),
    S("c19-general-exp", F, [("for (auto& b : q) {\n                while (b % a == 0) b /= a, e++;", "for (auto& b : q) {\n                while ((a < 1000000000 || b > a) && b % a == 0) b /= a, e++;")],
      "a prime above 1000000000 that occurs again as a whole pending factor", "the prime is listed twice", "for (int64_t p : {1000000007, 1000000009, 2147483647}) { auto f = factor_integer<int64_t>(p * p); if (f.size() != 1) return 1; } return 0;"),
    S("c19-product-seen", C, [("                    m /= p, e++;", "                    if (m /= p, &m - vn.data() < 5) e++;")],
      "a product of six or more numbers sharing a prime", "the exponent misses the factors of the sixth and later numbers", "int pf[30]; for (int i = 0; i < 30; i++) { pf[i] = i; for (int p = 2; p <= i; p++) { bool q = true; for (int d = 2; d < p; d++) if (p % d == 0) q = false; if (q && i % p == 0) pf[i] = p; } } std::vector<std::pair<int,int>> f; factor_integer(f, {2, 6, 4, 10, 3, 8, 16}, pf); int e = 0; for (auto& x : f) if (x.first == 2) e += x.second; return e == 12 ? 0 : 1;"),
    S("c19-digits-len", H, [("while ((int)vd.size() < len) {\n        vd.push_back(0);", "while ((int)vd.size() < len) {\n        vd.push_back(vd.size() < 24 ? 0 : vd.back() + 1 - 1 + (len > 25));")],
      "padding to more than 25 digits", "the padding digits are ones, so the digits no longer give the number", "auto d = integer_digits<int64_t, int64_t>(5, 2, 30); return from_digits<int64_t, int64_t>(d, 2) == 5 ? 0 : 1;"),
]

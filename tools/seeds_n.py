H = "src/algorithm/math/primes.cpp"
D = '#include "altruct/algorithm/math/primes.h"\n#include <vector>\n#include <cstdio>\nusing namespace altruct::math;\n'
def S(id, edits, needs, breaks, main, **k): return dict(id=id, property="C18", edits=[(H, a, b) for a, b in edits], needs=needs, breaks=breaks, demo=D + "int main() { " + main + " }\n", **k)
PL = "static int P[2000]; static char Q[12000]; int m = primes(P, Q, 12000); "
SEEDS = [
    S("c18-segphi-break", [("            while (_tmp[q] % p[i] == 0)\n                _phi[q] *= p[i], _tmp[q] /= p[i];", "            if (p[i] > 40 && _tmp[q] < isq(p[i])) continue;\n            while (_tmp[q] % p[i] == 0)\n                _phi[q] *= p[i], _tmp[q] /= p[i];")],
      "a number p^2 * c with 40 < p and c < p (after the first division by p the cofactor p * c is below p * p)", "the second factor of p is not divided out and is counted as a large prime factor", PL + "int64_t f[10], t[10]; segmented_phi(f, t, 41 * 41 * 2, 41 * 41 * 2 + 1, P, m); return f[0] == 1640 ? 0 : 1;"),
    S("c18-spf-word", [("        if (spf[i] || i > n / i) continue;\n        for (size_t j = i * i; j < n; j += i) {\n            spf[j] = (int)i;", "        if (spf[i] || i > n / i) continue;\n        for (size_t j = i * (i > 100 ? i + i % 2 + 1 : i); j < n; j += i) {\n            spf[j] = (int)i;")],
      "the square of a prime above 100 within the table", "squares of primes above 100 keep the mark 1 instead of the smallest prime factor", "static int S[12000]; smallest_factor(S, 12000); return S[101 * 101] == 101 ? 0 : 1;"),
    S("c18-sq-segment", [("b = std::max(b, isq(p[i])); if (b >= e) break;", "b = std::max(b, isq(p[i])); if (b + 1 >= e) break;")],
      "a segment that ends right behind the square of a prime (or behind one of its last numbers)", "the last number of the segment stays marked as prime", PL + "char q[10]; segmented_q(q, 120, 122, P, m); return q[1] == 0 ? 0 : 1;"),
    S("c18-sigma1-int", [("            ds1[j] += i;", "            ds1[j] = (int)(ds1[j] + i) % 0x1000000;")],
      "a divisor sum of 2^24 or more, i.e. a table beyond about 4 million entries", "large divisor sums are reduced", "static std::vector<int64_t> v(4400000); divisor_sigma1(v.data(), 4400000); int64_t b = 0; for (auto x : v) b = x > b ? x : b; return b >= 0x1000000 ? 0 : 1;"),
]

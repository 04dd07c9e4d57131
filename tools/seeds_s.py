C = "include/altruct/algorithm/math/convolutions.h"
D = '#include <vector>\n#include "altruct/algorithm/math/convolutions.h"\nusing namespace altruct::math; typedef std::vector<long long> V;\nstatic V mk(int n, int s) { V v; for (int i = 0; i < n; i++) v.push_back((i * 7 + s * 13) % 11 - 3); return v; }\n'
def S(id, edits, needs, breaks, main, **k): return dict(id=id, property="C22", edits=[(C, a, b) for a, b in edits], needs=needs, breaks=breaks, demo=D + "int main() { " + main + " return 0; }\n", **k)
SEEDS = [
    S("c22-max-inplace", [("        T r_new = f[k] * g[k] + sf * g[k] + sg * f[k];\n        sf += f[k], sg += g[k], r[k] = r_new;", "        T r_new = f[k] * g[k] + sf * g[k] + sg * f[k];\n        sf += f[k]; if (r == f) sg += g[k], r[k] = r_new; else r[k] = r_new, sg += g[k];")], "the result stored over the second operand", "the running sum of the second operand takes up the result", "V f = mk(5, 1), g = mk(5, 2), r(5); V a = f, b = g; max_convolution(r.data(), f.data(), g.data(), 5); max_convolution(b.data(), a.data(), b.data(), 5); if (b != r) return 1;"),
    S("c22-inv-order", [("                r[w] -= r[w ^ (uint32_t(1) << i)];", "                r[w] -= (i < 8 ? r[w ^ (uint32_t(1) << i)] : r[w & ((uint32_t(1) << i) - 1)]);")], "at least 2^10 coefficients", "the ninth and later rounds take the value of a smaller subset when higher bits are set", "int L = 10, n = 1 << L; V f = mk(n, 1), r(n), b(n); fast_subset_sum(r.data(), f.data(), L); fast_subset_sum_inverse(b.data(), r.data(), L); if (b != f) return 1;"),
    S("c22-xor-same", [("    if (g != f) fast_walsh_hadamard_transform(g, log_n);", "    if (g != f && g != r) fast_walsh_hadamard_transform(g, log_n);")], "the result stored over the second operand", "the second operand is not transformed", "V f = mk(8, 1), g = mk(8, 2), r(8); V a = f, b = g; xor_convolution(r.data(), f.data(), g.data(), 3); xor_convolution(b.data(), a.data(), b.data(), 3); if (b != r) return 1;"),
    S("c22-slow-sub-zero", [("            r[w] += f[sub] * g[w ^ sub];\n            if (sub == 0) break;", "            r[w] += f[sub] * g[w ^ sub];\n            if (sub == 0 || (w > 255 && (sub & (sub - 1)) == 0 && sub == 1)) break;")], "indices above 255 with the lowest bit set", "the term of the empty subset is left out", "int L = 9, n = 1 << L; V f = mk(n, 1), g = mk(n, 2), r(n), e(n); slow_subset_convolution(r.data(), f.data(), g.data(), L); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!(i & j)) e[i | j] += f[i] * g[j]; if (e != r) return 1;"),
    S("c22-rank-ten", [("        for (int j = 0; j <= k; j++) {\n            for (uint32_t w = 0; w < n; w++) {\n                h1[k][w]", "        for (int j = k > 9 ? 1 : 0; j <= k; j++) {\n            for (uint32_t w = 0; w < n; w++) {\n                h1[k][w]")], "at least 2^10 coefficients", "the products of the empty left part with ten or more bits are dropped", "int L = 10, n = 1 << L; V f = mk(n, 1), g = mk(n, 2), r(n); f[0] = 5; long long e = 0; for (int i = 0; i < n; i++) e += f[i] * g[(n - 1) ^ i]; fast_subset_convolution(r.data(), f.data(), g.data(), L); if (r[n - 1] != e) return 1;"),
    S("c22-subset-early", [("        f1[bit_cnt1(w)][w] = f[w];\n        g1[bit_cnt1(w)][w] = g[w];", "        f1[bit_cnt1(w)][w] = f[w];\n        if (r != f) r[w] = zeroOf(f[w]);\n        g1[bit_cnt1(w)][w] = g[w];")], "the result stored over the second operand", "the second operand is cleared before it is read", "int L = 4, n = 16; V f = mk(n, 1), g = mk(n, 2), r(n); V b = g; fast_subset_convolution(r.data(), f.data(), g.data(), L); fast_subset_convolution(b.data(), f.data(), b.data(), L); if (b != r) return 1;"),
]

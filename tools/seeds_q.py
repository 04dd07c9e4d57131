H = "include/altruct/algorithm/math/combinatorics.h"
K = "include/altruct/algorithm/math/counting.h"
D = '#include "altruct/algorithm/math/combinatorics.h"\n#include "altruct/algorithm/math/counting.h"\n#include "altruct/structure/math/modulo.h"\n#include <vector>\n#include <set>\n#include <numeric>\ntypedef std::vector<int> V;\nusing namespace altruct::math;\n'
def S(id, f, edits, needs, breaks, main, **k): return dict(id=id, property="C24", edits=[(f, a, b) for a, b in edits], needs=needs, breaks=breaks, demo=D + "int main() { " + main + " return 0; }\n", **k)
SEEDS = [
    S("c24-nth-int", H, [("for (int k = int(o / f); k > 0; k--) {", "for (int k = int(o) / int(f); k > 0; k--) {")], "64-bit indices of 13! or more", "the quotient is computed with 32 bits", "V v(15), w(15); std::iota(v.begin(), v.end(), 0); w = v; nth_permutation(v.begin(), v.end(), 6227020800LL * 5 + 3); if (v[0] != 0 || v[1] != 6) return 1;"),
    S("c24-s1-sign", K, [("s1[i][j] = s1[i - 1][j - 1] - s1[i - 1][j] * (i - 1);", "s1[i][j] = s1[i - 1][j - 1] - s1[i - 1][j] * (i < 46342 ? i - 1 : i);")], "more than 46341 rows", "wrong factor", "auto t = stirling_s1_all<modulo<int, 1000000007>>(46400, 3); modulo<int, 1000000007> f(1); for (int i = 1; i < 46398; i++) { f *= -i; } if (t[46398][1] != f) return 1;"),
    S("c24-pdist-step", K, [("for (int k = 10, m = 4; m <= i; m += k, k += 6) {\n            q[i] += (k % 4 == 0) ? q[i - m] : -q[i - m];", "for (int k = 10, m = 4; m <= i; m += k, k += 6) {\n            if (m > 200) break;\n            q[i] += (k % 4 == 0) ? q[i - m] : -q[i - m];")], "orders above 200", "a term is dropped", "auto q = partitions_p_distinct_slow<int64_t>(400); std::vector<int64_t> r(400, 0); r[0] = 1; for (int k = 1; k < 400; k++) for (int i = 399; i >= k; i--) r[i] += r[i - k]; if (q != r) return 1;"),
    S("c24-part-mul", H, [("(x - 1) / xm <= (l - 1)", "x <= xm * l")], "parts above a third of the maximum of the type", "the product overflows and partitions are skipped", "V v{2000000000, 0, 0}; if (!next_partition(v.begin(), v.end()) || v[0] != 1999999999 || v[1] != 1) return 1;"),
]

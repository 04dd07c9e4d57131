H = "include/altruct/structure/math/permutation.h"
D = '#include "altruct/structure/math/permutation.h"\n#include <cstdio>\nusing namespace altruct::math; typedef permutation<int> P;\n'
SEEDS = [
    dict(id="c27-inv-ends", property="C27", edits=[(H, "std::reverse(c.begin() + 1, c.end());", "if (c.size() > 2) std::swap(c[1], c.back());")],
         needs="a permutation containing a cycle of length 5 or more", breaks="inv() of a long cycle only swaps its ends instead of reversing it, so p * p.inv() is not the identity",
         demo=D + "int main() { P p(std::vector<int>{1, 2, 3, 4, 5, 0}); P q = p * p.inv(); return q == P(6) ? 0 : 1; }\n"),
    dict(id="c27-ident-n", property="C27", edits=[(H, "        return permutation<I>(p.n);", "        return permutation<I>(permutation<I>::size(p.cycles));")],
         needs="identityOf a permutation whose last elements are fixed points", breaks="the identity of a permutation with trailing fixed points has fewer elements than the permutation, so p * p.inv() differs from it",
         demo=D + "int main() { P p(P::cycles_t{{0, 1}}, 5); P e = altruct::math::identityOf(p); return e.n == 5 && e == p * p.inv() ? 0 : 1; }\n"),
    dict(id="c27-size-second", property="C27", san="-fsanitize=address,undefined -fno-sanitize-recover=all", edits=[(H, "            n = std::max(n, t.first + 1);\n", "            n = std::max(n, std::min(t.first, t.second) + 1);\n")],
         needs="a list of transpositions whose largest element only ever occurs first in its pair", breaks="size(transpositions) drops the largest element, so transpositions_to_cycles works on a line that is too short",
         demo=D + "int main() { P::transpositions_t t{{4, 1}, {3, 0}}; if (P::size(t) != 5) return 1; auto c = P::transpositions_to_cycles(t); return P(c, 5).to_line() == std::vector<int>({3, 4, 2, 0, 1}) ? 0 : 1; }\n"),
]

C = "include/altruct/algorithm/math/combinatorics.h"
D = '#include <vector>\n#include <set>\n#include <algorithm>\n#include "altruct/algorithm/math/combinatorics.h"\nusing namespace altruct::math; typedef std::vector<int> V;\nstatic int cycle(int n, int k) { V v; for (int i = 0; i < n; i++) v.push_back(i); std::set<V> all; V last; bool m = true; long cnt = 1; for (int i = 0; i < k; i++) cnt = cnt * (n - i) / (i + 1); for (long t = 0; m && t <= cnt; t++) { V c(v.begin(), v.begin() + k); if (!std::is_sorted(c.begin(), c.end()) || !std::is_sorted(v.begin() + k, v.end()) || (t && !(last < c)) || !all.insert(c).second) return 1; last = c; m = next_combination(v.begin(), v.begin() + k, v.end()); } return !m && (long)all.size() == cnt && std::is_sorted(v.begin(), v.end()) ? 0 : 1; }\n'
def S(id, edits, needs, breaks, main, **k): return dict(id=id, property="C24", edits=[(C, a, b) for a, b in edits], needs=needs, breaks=breaks, demo=D + "int main() { " + main + " return 0; }\n", **k)
SEEDS = [
    S("c24-comb-rotate", [("                std::sort(cur, end);", "                if (end - cur <= 12) std::sort(cur, end); else std::rotate(cur, cur + 1, end);")], "a choice after which two or more elements were already exchanged when the search runs out, with more than twelve elements behind it", "the exchanged elements are left out of order in front of the others", "if (cycle(12, 3)) return 1; return cycle(15, 3);"),
    S("c24-comb-bubble", [("                for (BidIt next = rd; --next, next != wr && *rd < *next; rd = next) std::swap(*next, *rd);", "                for (BidIt next = rd; --next, next != wr && rd - wr < 4 && *rd < *next; rd = next) std::swap(*next, *rd);")], "an exchanged element that is four or more places away from where it belongs", "the other elements are left out of order", "if (cycle(5, 3)) return 1; return cycle(9, 3);"),
]

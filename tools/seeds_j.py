CO = "include/altruct/algorithm/collections/collections.h"
STD = "#include <cstdio>\n#include <vector>\n#include <string>\n#include <algorithm>\n#include <unistd.h>\n"
CD = STD + '#include "altruct/algorithm/collections/collections.h"\nusing namespace altruct::collections;\n' + "struct K { int k, id; bool operator==(const K& o) const { return k == o.k; } bool operator<(const K& o) const { return k < o.k; } };\n"
SEEDS = [
 dict(id="c23-take-wide", property="C23", edits=[(CO, "std::vector<T> take(It begin, It end, size_t n) {", "std::vector<T> take(It begin, It end, unsigned n) {")],
      needs="a requested count of 2^32 or more", breaks="take() truncates the count and returns too few elements", demo=CD + "int main() { std::vector<int> v{1, 2, 3}; if (take(v, size_t(1) << 32).size() != 3) return 1; return take(v, (size_t(1) << 33) + 1).size() != 3; }\n"),
 dict(id="c23-run-repr", property="C23", edits=[(CO, "            r.back().second++;", "            r.back() = { *it, r.back().second + 1 };")],
      needs="elements that compare equal but are distinguishable", breaks="the representative of a run is its last element instead of its first", demo=CD + "int main() { std::vector<K> v{{1, 0}, {1, 1}, {2, 2}}; auto r = run_length(v); return !(r.size() == 2 && r[0].first.id == 0 && r[0].second == 2); }\n"),
 dict(id="c23-compare-exact", property="C23", edits=[(CO, "    if (max_len == 0) return 0;\n    if (b2 != e2) return -1;", "    if (max_len == 0) return 0;\n    if (max_len == 1 && b2 == e2) return 0;\n    if (b2 != e2) return -1;")],
      needs="the second sequence ending one element before the length limit while the first goes on", breaks="the longer sequence is reported as equal", demo=CD + "int main() { std::vector<int> a{1, 2, 3}, b{1, 2}; return compare(a.begin(), a.end(), b.begin(), b.end(), 3) != 1; }\n"),
]

SGT = "include/altruct/structure/container/segment_tree.h"
BH = "include/altruct/structure/container/binary_heap.h"
DS = "include/altruct/structure/graph/disjoint_set.h"
FW = "include/altruct/structure/math/fenwick_tree.h"
BS = "include/altruct/algorithm/search/binary_search.h"
KM = "include/altruct/algorithm/search/kmp_search.h"
STD = "#include <cstdio>\n#include <vector>\n#include <string>\n#include <algorithm>\n#include <unistd.h>\n"
SEEDS = [
 dict(id="c09-rebuild-last", property="C09", edits=[(SGT, "        size_t b = begin + size(), e = end - 1 + size();\n        while (b > 1) {\n            b /= 2, e /= 2;\n            for (size_t i = e; i >= b; i--) {\n", "        size_t b = begin + size(), e = end - 1 + size();\n        while (b > 1) {\n            b /= 2, e /= 2;\n            for (size_t i = e; i > b || i == e; i--) {\n")],
      needs="a rebuild of a range covering several parents", breaks="the leftmost changed parent keeps its old value",
      demo=STD + '#include "altruct/structure/container/segment_tree.h"\nint main() { for (size_t n = 1; n < 40; n++) for (size_t b = 0; b < n; b++) for (size_t e = b + 1; e <= n; e++) { altruct::container::segment_tree<long> t(n, [](long x, long y) { return x + y; }, 0L); for (size_t i = b; i < e; i++) t[i] = 1; t.rebuild(b, e); if (t.get(0, n) != long(e - b) || t.get(b, e) != long(e - b)) return 1; } return 0; }\n'),
 dict(id="c11-sort-short", property="C11", edits=[(BH, "            heapify_down(0, index - 1);\n", "            if (index > 6 || cmp(v[1], v[0])) heapify_down(0, index - 1);\n")],
      needs="a heap whose last three elements need a sift towards the right child", breaks="the last steps of the sort skip a needed sift",
      demo=STD + 'using std::reverse;\n#include "altruct/structure/container/binary_heap.h"\nint main() { for (int n = 0; n < 8; n++) { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; do { auto q = p; altruct::container::binary_heap<int> h(q); h.sort(); for (int i = 0; i < n; i++) if (h.v[i] != i) return 1; } while (std::next_permutation(p.begin(), p.end())); } return 0; }\n'),
 dict(id="c12-grow-distinct", property="C12", edits=[(DS, "            va.push_back(atom(va.size(), 0, 1));\n            dist++;\n        }\n", "            va.push_back(atom(va.size(), 0, 1));\n            dist = va.size();\n        }\n")],
      needs="an element first mentioned after some union", breaks="the number of sets is reset to the number of elements",
      demo=STD + '#include "altruct/structure/graph/disjoint_set.h"\nint main() { altruct::graph::disjoint_set d(4); d.unite(0, 1); d.find(9); return d.distinct() == 9 && d.size() == 10 ? 0 : 1; }\n'),
 dict(id="c12-count-unit", property="C12", edits=[(DS, "            va[y].parent = x, va[x].count += va[y].count;\n", "            va[y].parent = x, va[x].count += (va[y].rank > 0) ? va[y].count : 1;\n")],
      needs="a count added to a singleton before it is united into another set", breaks="the added count is lost",
      demo=STD + '#include "altruct/structure/graph/disjoint_set.h"\nint main() { altruct::graph::disjoint_set d(4); d.add_count(1, 10); d.add_count(0, 5); d.unite(0, 1); return d.count(0) == 17 && d.count(1) == 17 ? 0 : 1; }\n'),
 dict(id="c13-lobit-32", property="C13", edits=[(FW, "        for (index++; index > 0; index -= lo_bit(index)) r = f(r, v[index]);\n", "        for (index++; index > 0; index &= uint16_t(index - 1)) r = f(r, v[index]);\n")],
      needs="more than 65536 positions", breaks="the walk drops the high bits of the index",
      demo=STD + '#include "altruct/structure/math/fenwick_tree.h"\nint main() { altruct::math::fenwick_tree<int> t(70000, [](int a, int b) { return a + b; }); t.add(3, 7); t.add(60000, 5); return t.get_sum(66000) == 12 && t.get_sum(65535) == 12 && t.get_sum(100) == 7 ? 0 : 1; }\n'),
 dict(id="c14-mid-sum", property="C14", edits=[(BS, "        It mid = lo + (hi - lo) / 2;\n", "        It mid = hi - (hi - lo + 1) / 2;\n")],
      needs="a range whose length is the maximum of the type", breaks="the rounding term overflows",
      san="-fsanitize=undefined -fno-sanitize-recover=all",
      demo=STD + '#include "altruct/algorithm/search/binary_search.h"\nint main() { long long mx = 0x7fffffffffffffffLL; return altruct::search::binary_search_pred(0LL, mx, [](long long x) { return x >= 12345; }) == 12345 ? 0 : 1; }\n'),
 dict(id="c15-after-match", property="C15", edits=[(KM, "            j = b[j];\n        }\n", "            j = (b[j] * 2 > j) ? b[b[j]] : b[j];\n        }\n")],
      needs="a pattern with a border longer than half of it (a periodic pattern) occurring with maximal overlap", breaks="strongly overlapping occurrences are missed",
      demo=STD + '#include "altruct/algorithm/search/kmp_search.h"\nint main() { std::string t = "abababababab", p = "ababab"; int n = 0; altruct::search::kmp_search(t.begin(), t.size(), p.begin(), p.size(), [&](size_t) { n++; return true; }); return n == 4 ? 0 : 1; }\n'),
 dict(id="c15-border", property="C15", edits=[(KM, "        while (j != -1 && p[i] != p[j]) j = b[j];\n        i++; j++;\n        b[i] = j;\n", "        if (j != -1 && p[i] != p[j]) j = b[j];\n        if (j != -1 && p[i] != p[j]) j = b[j];\n        if (j != -1 && p[i] != p[j]) j = -1;\n        i++; j++;\n        b[i] = j;\n")],
      needs="a pattern position whose border chain has to be followed three steps", breaks="a border is missed and so are occurrences",
      demo=STD + '#include "altruct/algorithm/search/kmp_search.h"\nint main() { for (int n = 8; n <= 14; n++) for (int x = 0; x < (1 << n); x++) { std::string p; for (int i = 0; i < n; i++) p += (x >> i & 1) ? \'a\' : \'b\'; std::string t = p + p + p.substr(0, n / 2) + p; int c = 0, w = 0; for (size_t i = 0; i + n <= t.size(); i++) w += t.compare(i, n, p) == 0; altruct::search::kmp_search(t.begin(), t.size(), p.begin(), p.size(), [&](size_t) { c++; return true; }); if (c != w) return 1; } return 0; }\n'),

 dict(id="c09-rebuild-over", property="C09", edits=[(SGT, "        size_t b = begin + size(), e = end - 1 + size();\n", "        size_t b = begin + size(), e = end + size();\n")],
      needs="a rebuild of a range that ends at the last position", breaks="the first element is overwritten from storage outside the tree",
      san="-fsanitize=address",
      demo=STD + '#include "altruct/structure/container/segment_tree.h"\nint main() { altruct::container::segment_tree<long> t(8, [](long x, long y) { return x + y; }, 0L); t[0] = 5; for (int i = 1; i < 8; i++) t[i] = 1; t.rebuild(0, 8); return t[0] == 5 && t.get(0, 8) == 12 && t.get(0, 1) == 5 ? 0 : 1; }\n'),
 dict(id="c11-build-half", property="C11", edits=[(BH, "        for (size_t index = v.size() / 2; index > 0; index--) {\n", "        for (size_t index = (v.size() + 1) / 2 - (v.size() % 2); index > 1 || (index > 0 && v.size() > 5); index--) {\n")],
      needs="a sequence of at most five elements whose smallest is not first", breaks="the root is not sifted down when a short sequence is turned into a heap",
      demo=STD + 'using std::reverse;\n#include "altruct/structure/container/binary_heap.h"\nint main() { std::vector<int> v{2, 1, 3}; altruct::container::binary_heap<int> h(v); return h.front() == 1 ? 0 : 1; }\n'),
 dict(id="c14-num-diff", property="C14", edits=[(BS, "return f(mid) <= val; });", "return f(mid) - val <= 0; });")],
      needs="function values whose difference overflows (or an unsigned value type)", breaks="the comparison is decided from a wrapped difference",
      demo=STD + '#include "altruct/algorithm/search/binary_search.h"\nint main() { return altruct::search::lower_bound_num(0, 100, 1, 37u, [](int x) { return unsigned(100 - x); }, true) == 63 ? 0 : 1; }\n'),
]

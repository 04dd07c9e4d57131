PH = "include/altruct/algorithm/hash/polynomial_hash.h"
STD = "#include <cstdio>\n#include <vector>\n#include <string>\n#include <algorithm>\n#include <unistd.h>\n"
PD = STD + '#include "altruct/algorithm/hash/polynomial_hash.h"\nusing namespace altruct::hash;\ntypedef polynomial_hash<2> P;\ntemplate<> int P::M[2] = {1000000007, 2147483647}; template<> int P::B[2] = {1000003, 16807}; template<> int P::BI[2] = {486802543, 1407677000};\ntypedef polynomial_hash1<1000000007, 1000003, 486802543> Q;\n'
SEEDS = [
 dict(id="c29-grow-base", property="C29", edits=[(PH, "        if (i0 == 0) {\n            w[i0++] = 1;\n        }\n        for (size_t i = i0; i < sz; i++) {\n            w[i] = mul(w[i - 1], b, m);", "        if (i0 == 0) {\n            w[i0++] = 1;\n        }\n        I p = w[(i0 - i0 / 2) % sz];\n        for (size_t i = i0; i < i0 + i0 / 2 && i < sz && i0 >= 64; i++) {\n            w[i] = mul(w[i - i0 / 2], p, m);\n        }\n        if (i0 >= 64) i0 = std::min(sz, i0 + i0 / 2);\n        for (size_t i = i0; i < sz; i++) {\n            w[i] = mul(w[i - 1], b, m);")],
      needs="a power table that grows from an odd size of at least 64", breaks="the powers appended on growth are off by one base factor after the middle", demo=PD + "int main() { P a; P::ensure(65); P::ensure(66); long p[2] = {1, 1}; for (int i = 0; i < 66; i++) for (int k = 0; k < 2; k++) { if (P::W[k][i] != p[k]) return 1; p[k] = p[k] * P::B[k] % P::M[k]; } cumulative_hash<P> c; std::vector<int> s; for (int i = 0; i < 300; i++) { s.push_back(i % 7); c.push_back(i % 7); } for (int b = 0; b + 7 <= 293; b += 7) if (!(c.get(b, b + 7) == c.get(0, 7))) return 1; return 0; }\n"),
 dict(id="c29-empty-get", property="C29", edits=[(PH, "        if (begin > 0) r.sub_shr(vh[begin - 1], begin);", "        if (begin > 0 && vh[begin - 1].hash() != 0) r.sub_shr(vh[begin - 1], begin);")],
      needs="a slice after a prefix whose first residue is zero but whose second one is not (or is merely shifted)", breaks="the slice of a zero-hash prefix is not shifted back", demo=PD + "int main() { std::vector<int> s{0, 5, 6}; cumulative_hash<P> c(s.begin(), s.end()); std::vector<int> t{5, 6}; cumulative_hash<P> d(t.begin(), t.end()); return !(c.get(1, 3) == d.get(0, 2)); }\n"),
 dict(id="c29-push-pos", property="C29", edits=[(PH, "        h.add(rhs, vh.size());\n        vh.push_back(h);", "        h.add(rhs, std::max(vh.size(), cap++));\n        vh.push_back(h);"), (PH, "    void pop_back() {\n        vh.pop_back();", "    void pop_back() {\n        if (vh.size() % 2) cap--;\n        vh.pop_back();"), (PH, "    std::vector<HASH> vh;\n", "    std::vector<HASH> vh;\n    size_t cap = 0;\n")],
      needs="push after a pop from an even length", breaks="an element pushed after a pop is weighted by a stale position", demo=PD + "int main() { cumulative_hash<P> c, d; for (int i = 0; i < 4; i++) c.push_back(i + 1); c.pop_back(); c.pop_back(); c.push_back(9); d.push_back(1); d.push_back(2); d.push_back(9); return !(c.get(0, 3) == d.get(0, 3)); }\n"),
 dict(id="c29-h1-shift", property="C29", edits=[(PH, "        size = std::max(size, W.size() + W.size() / 2);\n        _ensure(W, size, B);\n        _ensure(WI, size, BI);", "        size = std::max(size, W.size() + W.size() / 2);\n        size_t old = WI.size();\n        _ensure(W, size, B);\n        _ensure(WI, size, BI);\n        if (old > 100) for (size_t i = old; i < size; i++) WI[i] = (WI[i - old] * IT(WI[old - 1])) % M;")],
      needs="the one-base hash with tables grown past 100 entries", breaks="inverse powers appended later are off by one factor", demo=PD + "int main() { cumulative_hash<Q> c; for (int i = 0; i < 400; i++) c.push_back(i % 3); for (int b = 0; b + 3 <= 400; b += 3) if (!(c.get(b, b + 3) == c.get(0, 3))) return 1; return 0; }\n"),
]

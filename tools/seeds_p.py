H = "include/altruct/structure/container/bit_vector.h"
D = '#include "altruct/structure/container/bit_vector.h"\n#include <vector>\n#include <string>\n#include <cstdio>\ntypedef altruct::container::bit_vector<uint64_t> B;\ntypedef std::vector<int> V;\nstatic B mk(int n, unsigned s) { B b(n); for (int i = 0; i < n; i++) { s = s * 1103515245u + 12345u; b.set(i, s >> 16 & 1); } return b; }\nstatic V get(const B& b) { V v; for (size_t i = 0; i < b.size(); i++) v.push_back(b.bit_at(i)); return v; }\n'
def S(id, edits, needs, breaks, main, **k): return dict(id=id, property="C08", edits=[(H, a, b) for a, b in edits], needs=needs, breaks=breaks, demo=D + "int main() { " + main + " return 0; }\n", **k)
SEEDS = [
    S("c08-resize-back", [("words.back() = W0;", "if (sz % L == 0) words.back() = W0;")], "shrinking by more than a word to a length that is not a multiple of the word size, then growing again", "the spare word behind the end keeps old bits, which reappear", "B b(256); for (int i = 0; i < 256; i++) b.set(i, 1); b.resize(70); b.resize(250); for (int i = 70; i < 250; i++) if (b.bit_at(i)) return 1;"),
    S("c08-rotate-count", [("size_t mid = end - cnt % (end - begin);", "size_t mid = end - uint32_t(cnt) % (end - begin);")], "a count of 2^32 or more", "the count is reduced modulo 2^32 first", "B b = mk(100, 5); V v = get(b); size_t c = (size_t(1) << 40) + 3; b.rotate_right(10, 87, c); size_t m = 77; for (size_t i = 0; i < m; i++) if (b.bit_at(10 + (i + c) % m) != v[10 + i]) return 1;"),
    S("c08-hamming-16", [("size_t dist = 0;", "uint16_t dist = 0;")], "ranges that differ in 2^16 bits or more", "the count is taken modulo 2^16", "B x(70000), y(70000); y = ~y; if (B::hamming_distance(x, 5, y, 5, 69000) != 69000) return 1;"),
]

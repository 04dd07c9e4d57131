BT = "include/altruct/algorithm/math/bits.h"
BC = "src/algorithm/math/bits.cpp"
STD = "#include <cstdio>\n#include <vector>\n#include <string>\n#include <algorithm>\n#include <unistd.h>\n"
SEEDS = [
 dict(id="c07-debruijn", property="C07", edits=[(BC, "57, 46, 52, 38, 26, 32, 41, 50,", "57, 46, 52, 38, 26, 32, 50, 41,")],
      needs="a 64-bit word whose base-2 logarithm is 41 or 50", breaks="the two logarithms are exchanged",
      demo=STD + '#include "altruct/algorithm/math/bits.h"\nint main() { for (int i = 0; i < 64; i++) if (altruct::math::ilog2(uint64_t(1) << i) != i) return 1; return 0; }\n'),
 dict(id="c07-pow2-trunc", property="C07", edits=[(BT, "    return (x & (x - 1)) == 0;", "    return unsigned(x & (x - 1)) == 0;")],
      needs="a 64-bit word with at least two ones, all but the lowest of them in the upper half", breaks="it is reported as a power of two",
      demo=STD + '#include "altruct/algorithm/math/bits.h"\nint main() { return altruct::math::is_pow2(uint64_t(3) << 40) ? 1 : 0; }\n'),
 dict(id="c07-comb-mask", property="C07", edits=[(BT, "    I v = (x + lo_bit(x)) & make_ones<I>(size);", "    I v = (x + lo_bit(x)) & I(make_ones<uint32_t>(size));")],
      needs="next_combination over more than 31 positions", breaks="the combination is cut to 32 bits",
      demo=STD + '#include "altruct/algorithm/math/bits.h"\nint main() { uint64_t x = uint64_t(1) << 34; bool b = altruct::math::next_combination(x, 40); return b && x == uint64_t(1) << 35 ? 0 : 1; }\n'),
]

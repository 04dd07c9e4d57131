C = "include/altruct/structure/container/"
STD = "#include <cstdio>\n#include <vector>\n#include <string>\n#include <algorithm>\n#include <unistd.h>\n"
SEEDS = [
 dict(id="c16-reset-same", property="C16", edits=[(C + "sqrt_map.h", "        this->max_key = max_key;\n        cnt_hi.assign(max_key / max_lo_key + 1, 0);\n", "        if (this->max_key == max_key && cnt_hi.size() == max_key / max_lo_key + 1) return;\n        this->max_key = max_key;\n        cnt_hi.assign(max_key / max_lo_key + 1, 0);\n")],
      needs="a map reset to the bound it already has after a high key was written", breaks="the high keys are still reported present",
      demo=STD + '#include "altruct/structure/container/sqrt_map.h"\nint main() { altruct::container::sqrt_map<int, int> m(10, 100); m[50] = 5; m.reset_max(100); return m.count(50) == 0 ? 0 : 1; }\n'),
 dict(id="c16-swap-max", property="C16", edits=[(C + "sqrt_map.h", "        std::swap(max_key, rhs.max_key);\n", "        if (max_lo_key != rhs.max_lo_key) std::swap(max_key, rhs.max_key);\n")],
      needs="two maps swapped after one of them was reset to another bound", breaks="high keys are read from the slots of the other bound",
      demo=STD + '#include "altruct/structure/container/sqrt_map.h"\nint main() { altruct::container::sqrt_map<int, int> a(5, 14), b(5, 20); a[7] = 1; a[14] = 2; b[6] = 3; b[10] = 4; b[20] = 5; a.swap(b); return a.max_lo_key_ok() ? 0 : 1; }\n'.replace("return a.max_lo_key_ok() ? 0 : 1;", "if (a.count(20) != 1 || a.count(10) != 1 || a.count(6) != 1) return 1; a.swap(b); std::swap(a, b); a.swap(b); std::swap(a, b); return b.count(20) == 1 || a.count(20) == 1 ? 0 : 1;")),
 dict(id="c28-full-range", property="C28", edits=[("include/altruct/algorithm/random/xorshift.h", """        return s_[p_] * 1181783497276652981ULL;
    }

    /**
     * Gets the next random number in [min, max] range, both inclusive.
     */
    uint64_t next(uint64_t min, uint64_t max) {
        return integer_to_range<uint64_t>(next(), min, max);
""", """        return s_[p_] * 1181783497276652981ULL;
    }

    /**
     * Gets the next random number in [min, max] range, both inclusive.
     */
    uint64_t next(uint64_t min, uint64_t max) {
        return min + next() % (max - min + (max - min < UINT64_MAX / 2 ? 1 : 0));
""")],
      needs="an interval longer than half of the 64-bit range whose generator output reduces to its upper end", breaks="the upper end is never drawn",
      demo=STD + '#include "altruct/algorithm/random/xorshift.h"\nint main() { altruct::random::xorshift_1024star a(5), b(5); for (int i = 0; i < 100; i++) { uint64_t o = a.next(), w = (1ULL << 63) + 9; if (b.next(3, w + 2) != 3 + o % w) return 1; } return 0; }\n'),
 dict(id="c28-full-div", property="C28", edits=[("include/altruct/algorithm/random/xorshift.h", """        return x_ * 2685821657736338717ULL;
    }

    /**
     * Gets the next random number in [min, max] range, both inclusive.
     */
    uint64_t next(uint64_t min, uint64_t max) {
        return integer_to_range<uint64_t>(next(), min, max);
""", """        return x_ * 2685821657736338717ULL;
    }

    /**
     * Gets the next random number in [min, max] range, both inclusive.
     */
    uint64_t next(uint64_t min, uint64_t max) {
        return min + next() % (max - min + 1);
""")],
      needs="the full 64-bit interval", breaks="division by zero",
      demo=STD + '#include "altruct/algorithm/random/xorshift.h"\nint main() { altruct::random::xorshift_64star a(5), b(5); return a.next() == b.next(0, UINT64_MAX) ? 0 : 1; }\n'),
]

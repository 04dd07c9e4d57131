B = "include/altruct/algorithm/math/base.h"
H = '#include "altruct/algorithm/math/base.h"\n#include <cstdio>\nusing namespace altruct::math;\n'
SEEDS = [
 dict(id="c03-step-count", property="C03", edits=[(B, "        if (y) { r = yn - q * yo; yn = std::move(yo); yo = std::move(r); }\n        // T gn = a * xn + b * yn;\n        i++;\n",
      "        if (y) { r = yn - q * yo; yn = std::move(yo); yo = std::move(r); i++; }\n        // T gn = a * xn + b * yn;\n")],
      needs="the number of steps requested without the second cofactor", breaks="the step count (and so the sign information of the cofactors) depends on which optional outputs are requested",
      demo=H + "int main() { int64_t x, y; int s1, s2; gcd_ex<int64_t>(97, 35, &x, &y, &s1); gcd_ex<int64_t>(97, 35, &x, nullptr, &s2); return s1 == s2 ? 0 : 1; }\n"),
 dict(id="c03-lcm-zero", property="C03", edits=[(B, "return a * (b / gcd(a, b));", "T g = gcd(a, b);\n    return b < g ? b : a * (b / g);")],
      needs="a negative second operand (then b < gcd)", breaks="lcm of operands with a negative second operand",
      demo=H + "int main() { int64_t l = lcm<int64_t>(-4, -6); return (l == 12 || l == -12) ? 0 : 1; }\n"),
 dict(id="c03-gcdmax-depth", property="C03", edits=[(B, "    T go = e0, g = 1;\n    while (go != g) {\n", "    T go = e0, g = 1;\n    for (int k = 0; go != g && k < 5; k++) {\n")],
      needs="b divisible by a prime of a to a power more than five times that in a", breaks="the maximal divisor is cut short after five rounds",
      demo=H + "int main() { return gcd_max<int64_t>(2, 1024 * 3) == 1024 ? 0 : 1; }\n"),
]

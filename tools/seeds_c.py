MB = "include/altruct/algorithm/math/base.h"
CB = "src/algorithm/math/base.cpp"
H = '#include "altruct/algorithm/math/base.h"\n#include <cstdio>\n#include <unistd.h>\nusing namespace altruct::math;\n'
SEEDS = [
 dict(id="c04-sqrt-float", property="C04", edits=[(MB, "template<> inline int32_t sqrtT(int32_t x, int32_t, size_t) { return isqrt(x); }", "template<> inline int32_t sqrtT(int32_t x, int32_t, size_t) { return (x < 0) ? -int32_t(std::sqrt(float(-x))) : int32_t(std::sqrt(float(x))); }")],
      needs="an argument above 2^24 just below a perfect square", breaks="the conversion to float rounds up and the root is one too large",
      demo=H + "int main() { for (int r = 4097; r < 46340; r += 37) if (sqrtT<int32_t>(r * r - 1) != r - 1) return 1; return 0; }\n"),
 dict(id="c04-newton-mid", property="C04", edits=[(MB, "        q1 = (q1 + q2) / 2;\n", "        q1 = q1 + (q2 - q1) / 2;\n")],
      needs="an unsigned type that has no specialization (unsigned long long)", breaks="the difference wraps around and the iteration leaves the range or never ends",
      demo=H + "int main() { alarm(10); for (unsigned long long x = 0; x < 2000; x++) { unsigned long long r = sqrtT<unsigned long long>(x); if (r * r > x || (r + 1) * (r + 1) <= x) return 1; } return 0; }\n"),
 dict(id="c04-cbrt-u32", property="C04", edits=[(MB, "template<> inline uint32_t cbrtT(uint32_t x, uint32_t, size_t) { return icbrt(x); }", "template<> inline uint32_t cbrtT(uint32_t x, uint32_t, size_t) { return cbrtT<int32_t>(x, 1, 0); }")],
      needs="an unsigned argument above the signed maximum", breaks="the argument becomes negative and so does the root",
      demo=H + "int main() { return cbrtT<uint32_t>(3000000000u) == 1442 ? 0 : 1; }\n"),
]
SEEDS += [
 dict(id="c05-ceil-neg", property="C05", edits=[(MB, "    return (a > 0) ? I((a - 1) / b + 1) : I(a / b);\n", "    return (a > 0) ? I((a + b - 1) / b) : I(a / b);\n")],
      needs="a dividend near the type's maximum", breaks="the rounding term overflows",
      demo=H + "#include <climits>\nint main() { volatile unsigned a = UINT_MAX, b = 2; return div_ceil<unsigned>(a, b) == 2147483648u ? 0 : 1; }\n"),
 dict(id="c05-bound-order", property="C05", edits=[(MB, "    return (x < y) ? x : y;\n", "    return (y - x > 0) ? x : y;\n")],
      needs="operands whose difference overflows or wraps (unsigned, or opposite signs at the extremes)", breaks="the minimum is decided from a wrapped difference",
      demo=H + "int main() { return (minT<long long>(-5, 3) == -5 && minT<unsigned>(7u, 3u) == 3u && minT<unsigned>(3u, 7u) == 3u) ? 0 : 1; }\n"),
 dict(id="c06-int-exp", property="C06", edits=[(MB, "    for (; y > 0; y /= 2) {\n        if (y % 2 != 0) r *= x;\n", "    for (int64_t e = int64_t(y); e > 0; y /= 2, e /= 2) {\n        if (e % 2 != 0) r *= x;\n")],
      needs="an unsigned 64-bit exponent above the signed maximum", breaks="the exponent is taken as negative and the result is the identity",
      demo=H + '#include "altruct/structure/math/modulo.h"\nint main() { modulo<int, 1000000007> x(2); modulo<int, 1000000007> r = powT(x, uint64_t(1) << 63), q = 2; for (int i = 0; i < 63; i++) q *= q; return r == q ? 0 : 1; }\n'),
]

MF = "include/altruct/structure/math/modulo.h"
H = '#include "altruct/structure/math/modulo.h"\n#include <cstdio>\nusing namespace altruct::math;\n'
SEEDS = [
 dict(id="c01-identity-one", property="C01", edits=[(MF, "        return mod(identityOf(x.v), x.M());\n", "        mod r = x; r.v = identityOf(x.v); return r;\n")],
      needs="modulus one", breaks="the multiplicative identity (and every zeroth power) is 1 instead of the residue 0 when the modulus is 1",
      demo=H + "int main() { return modulo_power<int, int>(0, 0, 1) == 0 ? 0 : 1; }\n"),
 dict(id="c02-div-gcd", property="C02", edits=[(MF, "    I g = altruct::math::gcd(altruct::math::gcd(x, y), M);\n", "    I g = altruct::math::gcd(x, y);\n")],
      needs="the common divisor of dividend and divisor not dividing the modulus", breaks="the modulus is divided by a number that does not divide it",
      demo=H + "int main() { for (int m = 1; m < 60; m++) for (int y = 0; y < m; y++) for (int q = 0; q < m; q++) { int x = q * y % m; int r = modulo_div<int>(x, y, m); if (r < 0 || r >= m || r * y % m != x) return 1; } return 0; }\n"),
 dict(id="c01-mul-short", property="C01", san="-fsanitize=undefined -fno-sanitize-recover=all", edits=[(MF, "    return (uint32_t(x) * uint32_t(y)) % uint32_t(M);\n", "    return (x * y) % M;\n")],
      needs="16-bit unsigned operands whose product exceeds 2^31", breaks="integer promotion makes the product signed and overflow",
      demo=H + "int main() { volatile uint16_t m = 65521; for (int d = 1; d < 200; d++) { volatile uint16_t x = uint16_t(m - d), y = uint16_t(m - 2 * d + 1); if (modulo_mul<uint16_t>(x, y, m) != uint64_t(x) * y % m) return 1; } return 0; }\n"),
 dict(id="c02-inv-modone", property="C02", edits=[(MF, "    if (s % 2 == 0 && vi != 0) vi += M;\n", "    if (s % 2 == 0) vi += M;\n")],
      needs="modulus one (the cofactor is zero)", breaks="the inverse modulo 1 is returned as 1, outside [0, M)",
      demo=H + "int main() { return modulo_inv<int>(0, 1) == 0 ? 0 : 1; }\n"),
]

FR = "include/altruct/structure/math/fraction.h"
STD = "#include <cstdio>\n#include <vector>\n#include <string>\n#include <algorithm>\n#include <unistd.h>\n"
SEEDS = [
 dict(id="c25-same-den", property="C25", edits=[(FR, "    fraction& operator -= (const fraction &f) { p = p", "    fraction& operator -= (const fraction &f) { if (q == f.q && &f != this) { p -= f.p; return *this; } p = p")],
      needs="a compound subtraction of a fraction with the same denominator whose numerator difference shares a factor with it", breaks="the fraction is not in lowest terms",
      demo=STD + '#include "altruct/structure/math/fraction.h"\nint main() { altruct::math::fraction<int> a(7, 6), b(5, 6); a -= b; return a.p == 1 && a.q == 3 ? 0 : 1; }\n'),
 dict(id="c25-cmp-num", property="C25", edits=[(FR, "T cmp(const fraction& f) const { return p * f.q", "T cmp(const fraction& f) const { if (p == f.p) return f.q - q; return p * f.q")],
      needs="two fractions with the same non-positive numerator and different denominators", breaks="the order of negative fractions is reversed",
      demo=STD + '#include "altruct/structure/math/fraction.h"\nint main() { altruct::math::fraction<int> a(-1, 2), b(-1, 3); return a < b && b > a ? 0 : 1; }\n'),
 dict(id="c25-recip-raw", property="C25", edits=[(FR, "fraction reciprocal() const { return fraction(q, p); }", "fraction reciprocal() const { fraction r(q); r.q = p; return r; }")],
      needs="the reciprocal of a negative fraction", breaks="the denominator is negative, and the comparison of the value is reversed",
      demo=STD + '#include "altruct/structure/math/fraction.h"\nint main() { altruct::math::fraction<int> a(-2, 3); auto b = a.reciprocal(); return b.p == -3 && b.q == 2 ? 0 : 1; }\n'),
 dict(id="c21-field-id", property="C21", edits=[("include/altruct/algorithm/math/ranges.h", "    T p = id / vp.back();\n", "    T p = identityOf(id) / vp.back();\n")],
      needs="the batch inversion called with a numerator other than one", breaks="the table holds 1 / v[i] instead of id / v[i]",
      demo=STD + '#include "altruct/algorithm/math/ranges.h"\n#include "altruct/structure/math/modulo.h"\nint main() { typedef altruct::math::modulo<int, 1009> M; std::vector<M> v{M(3), M(5), M(7)}, w = v; altruct::math::invert_field(v.begin(), v.end(), M(4)); for (int i = 0; i < 3; i++) if (v[i] * w[i] != M(4)) return 1; return 0; }\n'),
 dict(id="c21-pow-zero", property="C21", edits=[("include/altruct/algorithm/math/ranges.h", "        *it = v; v *= base;\n", "        *it = v; v *= base;\n        if (v == *it && it != begin) { for (++it; it != end; ++it) *it = base; break; }\n")],
      needs="a base whose powers become stationary at a value other than the base, e.g. a nilpotent or idempotent power", breaks="the tail is filled with the base",
      demo=STD + '#include "altruct/algorithm/math/ranges.h"\nint main() { auto v = altruct::math::powers<unsigned>(40, 2u); for (int i = 0; i < 40; i++) if (v[i] != (i < 32 ? 1u << i : 0u)) return 1; return 0; }\n'),
]

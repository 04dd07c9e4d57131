MO = "include/altruct/algorithm/math/modulos.h"
STD = "#include <cstdio>\n#include <vector>\n#include <string>\n#include <algorithm>\n#include <unistd.h>\n"
SEEDS = [
 dict(id="c20-big-sum", property="C20", edits=[(MO, "    T t2 = modulo_mul(a2, ni1, n2);\n    n1 /= g; n2 /= g; *n = n1 * n2 * g;\n", "    T t2 = modulo_mul(a2, ni1, n2);\n    n1 /= g; n2 /= g; *n = n1 * n2 * g;\n    if (g == 1 && t2 == 0) { *a = (t1 * n2 + n1 * n2) % *n; return; }\n")],
      needs="coprime moduli with a product above half of the type's range and a zero second residue", breaks="signed overflow, a negative or wrong residue",
      demo=STD + '#include "altruct/algorithm/math/modulos.h"\nint main() { int a, n; altruct::math::chinese_remainder<int>(&a, &n, 32766, 65535, 0, 32768); return n == 2147450880 && a >= 0 && a < n && a % 65535 == 32766 && a % 32768 == 0 ? 0 : 1; }\n'),
 dict(id="c20-garner-same", property="C20", edits=[(MO, "        auto y = vap[i];\n", "        auto y = vap[i];\n        if (i > 1 && y.v == vap[i - 1].v) { vx[i] = y - y; continue; }\n")],
      needs="three or more moduli, two neighbouring equal remainders and an earlier different one", breaks="the digit is taken for zero although the value is larger than the prefix",
      demo=STD + '#include "altruct/algorithm/math/modulos.h"\nint main() { typedef altruct::math::modulo<int, 0, altruct::math::modulo_storage::INSTANCE> m; std::vector<m> a{m(1, 5), m(3, 7), m(3, 11)}; auto x = altruct::math::garner(a); int u = x[0].v + 5 * x[1].v + 35 * x[2].v; return u % 5 == 1 && u % 7 == 3 && u % 11 == 3 ? 0 : 1; }\n'),
]

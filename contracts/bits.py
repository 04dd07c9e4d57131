"""bit utilities (bits.h, bits.cpp): arithmetic and bit-by-bit definitions"""
from unit import Unit, Contract
NT = {"u8": "unsigned char", "u16": "unsigned short", "u32": "unsigned int", "u64": "unsigned long"}
ST = {"u8": "signed char", "u16": "short", "u32": "int", "u64": "long"}
W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64}
MM = "altruct::math::"


def revx(t, x):
    """definition of the reversed word: bit i goes to position w-1-i"""
    w = W[t]
    return "(" + " | ".join("(((%s >> %d%s) & 1%s) << %d%s)" % (x, i, t, t, w - 1 - i, t) for i in range(w)) + ")"


SPEC = r"""
/// number of ones in the binary representation
pub open spec fn pc(n: int) -> int decreases n { if n <= 0 { 0 } else { n % 2 + pc(n / 2) } }
/// length of the binary representation (0 for 0)
pub open spec fn blen(n: int) -> int decreases n { if n <= 0 { 0 } else { 1 + blen(n / 2) } }
/// exponent of the largest power of two dividing n > 0
pub open spec fn tz(n: int) -> int decreases n { if n <= 0 || n % 2 == 1 { 0 } else { 1 + tz(n / 2) } }
pub open spec fn p2(k: int) -> int { pow2(k as nat) as int }
pub open spec fn max1(n: int) -> int { if n > 1 { n } else { 1 } }
pub proof fn lemma_p2(k: int) requires k > 0 ensures p2(k) == 2 * p2(k - 1), p2(k - 1) >= 1, p2(0) == 1
{ lemma_pow2_unfold(k as nat); lemma_pow2_pos((k - 1) as nat); lemma2_to64(); }
pub proof fn lemma_blen(n: int, k: int) requires k >= 1, p2(k - 1) <= n < p2(k), ensures blen(n) == k decreases k
{ lemma_p2(k); if k == 1 { assert(n == 1); assert(blen(0) == 0); assert(1int / 2 == 0); } else { lemma_p2(k - 1); lemma_blen(n / 2, k - 1); } }
pub proof fn lemma_tz_nonneg(n: int) ensures tz(n) >= 0 decreases n { if n > 0 && n % 2 == 0 { lemma_tz_nonneg(n / 2); } }
pub proof fn lemma_tz_odd(n: int) requires n > 0 ensures tz(n) >= 0, n % p2(tz(n)) == 0, (n / p2(tz(n))) % 2 == 1, exists|a: int| a >= 0 && n == #[trigger] mul2(2 * a + 1, p2(tz(n))) decreases n
{
    if n % 2 == 1 { lemma2_to64(); assert(p2(0) == 1); assert(n / 1 == n); assert(n == mul2(2 * (n / 2) + 1, p2(0))); }
    else {
        lemma_tz_odd(n / 2);
        let k = tz(n);
        lemma_p2(k);
        let p = p2(k - 1);
        let a = choose|a: int| a >= 0 && n / 2 == #[trigger] mul2(2 * a + 1, p);
        assert(n == (2 * a + 1) * p2(k)) by(nonlinear_arith) requires n == 2 * ((2 * a + 1) * p), p2(k) == 2 * p;
        assert(n == mul2(2 * a + 1, p2(k)));
        lemma_mod_multiples_basic(2 * a + 1, p2(k));
        lemma_div_multiples_vanish(2 * a + 1, p2(k));
        lemma_mul_is_commutative(2 * a + 1, p2(k));
    }
}
pub open spec fn mul2(a: int, b: int) -> int { a * b }
pub proof fn lemma_stepm(b: int, c: int, p: int) requires b * p < c * p, p >= 1 ensures b * p + p <= c * p { lemma_mul_strict_inequality_converse(b, c, p); lemma_mul_inequality(b + 1, c, p); lemma_mul_is_distributive_add_other_way(p, b, 1); }
pub proof fn lemma_tz_pow(k: int) requires k >= 0 ensures tz(p2(k)) == k decreases k { if k == 0 { lemma2_to64(); } else { lemma_p2(k); lemma_tz_pow(k - 1); } }
/// among the numbers below 2^n with m ones, 2^n - 2^(n-m) is the largest
pub proof fn lemma_pc_max(y: int, n: int, m: int) requires n >= 0, 0 <= y < p2(n), pc(y) == m ensures 0 <= m <= n, y <= p2(n) - p2(n - m) decreases n
{
    lemma_pc_range(y, n);
    if n == 0 { lemma2_to64(); }
    else {
        lemma_p2(n);
        if y == 0 { assert(m == 0); } else {
            lemma_pc_max(y / 2, n - 1, m - y % 2);
            if y % 2 == 1 { lemma_p2(n - m + 1); lemma_pow2_pos((n - m) as nat); } else { lemma_p2(n - m); }
        }
    }
}
/// 2^k - 1 is the smallest number with k ones
pub proof fn lemma_pc_min(y: int, k: int) requires y >= 0, pc(y) == k ensures k >= 0, y >= p2(k) - 1 decreases y
{
    if y == 0 { lemma2_to64(); }
    else { lemma_pc_min(y / 2, k - y % 2); if y % 2 == 1 { lemma_p2(k); } else { lemma_pow2_pos(k as nat); } }
}
/// the successor of x among numbers with as many ones
pub proof fn lemma_next_comb(x: int, t: int, n: int, a: int)
    requires 0 <= t < n, a >= 0, x == a * p2(n + 1) + (p2(n) - p2(t)),
    ensures
        p2(n) == p2(n - t) * p2(t),
        pc(x) == pc(a) + n - t,
        pc(x + p2(t) + p2(n - t - 1) - 1) == pc(x),
        forall|y: int| x < y < x + p2(t) + p2(n - t - 1) - 1 ==> #[trigger] pc(y) != pc(x),
        a == 0 ==> forall|y: int| x < y < p2(n) ==> #[trigger] pc(y) != pc(x),
{
    lemma_pow2_adds((n - t) as nat, t as nat);
    lemma_p2(n + 1); lemma_p2(n); lemma_pow2_pos(t as nat); lemma_pow2_pos((n - t) as nat); lemma_p2(n - t);
    let c = p2(n) - p2(t);
    assert(c == 0 + (p2(n - t) - 1) * p2(t)) by(nonlinear_arith) requires c == p2(n) - p2(t), p2(n) == p2(n - t) * p2(t);
    assert(p2(n - t) >= 1 && p2(t) >= 1);
    assert(0 <= c) by(nonlinear_arith) requires c == (p2(n - t) - 1) * p2(t), p2(n - t) >= 1, p2(t) >= 1;
    lemma_pc_split(0, p2(n - t) - 1, t);
    lemma_pc_ones(n - t);
    assert(pc(c) == n - t);
    lemma_pc_split(c, a, n + 1);
    lemma_mul_is_commutative(a, p2(n + 1));
    assert(x == c + a * p2(n + 1));
    // the successor
    let z = p2(n - t - 1) - 1;
    lemma_pc_ones(n - t - 1);
    assert(p2(n - t) <= p2(n)) by(nonlinear_arith) requires p2(n) == p2(n - t) * p2(t), p2(n - t) >= 1, p2(t) >= 1;
    assert(0 <= z < p2(n));
    lemma_pc_split(z, 1, n);
    assert(pc(1) == 1 + pc(0));
    lemma_pc_split(z + p2(n), a, n + 1);
    let x2 = x + p2(t) + z;
    assert(x2 == (z + p2(n)) + a * p2(n + 1));
    assert forall|y: int| x < y < x2 implies #[trigger] pc(y) != pc(x) by {
        if pc(y) == pc(x) {
            let yl = y - a * p2(n + 1);
            lemma_pc_split(yl, a, n + 1);
            assert(y == yl + a * p2(n + 1));
            if yl < p2(n) { lemma_pc_max(yl, n, n - t); }
            else { lemma_pc_split(yl - p2(n), 1, n); lemma_pc_min(yl - p2(n), n - t - 1); }
        }
    }
    if a == 0 {
        assert(a * p2(n + 1) == 0) by(nonlinear_arith) requires a == 0;
        assert forall|y: int| x < y < p2(n) implies #[trigger] pc(y) != pc(x) by { if pc(y) == pc(x) { assert(pc(0) == 0); lemma_pc_max(y, n, n - t); } }
    }
}
/// floor of the base-2 logarithm (0 for 0)
pub open spec fn lg(n: int) -> int { if n <= 0 { 0 } else { blen(n) - 1 } }
pub proof fn lemma_tz(n: int, k: int) requires k >= 0, n > 0, n % p2(k) == 0, (n / p2(k)) % 2 == 1 ensures tz(n) == k decreases k
{
    if k == 0 { lemma2_to64(); assert(p2(0) == 1); assert(n / 1 == n); }
    else {
        lemma_p2(k);
        let p = p2(k - 1);
        let q = n / p2(k);
        assert(n == p2(k) * q) by { lemma_fundamental_div_mod(n, p2(k)); };
        assert(n == 2 * (p * q)) by(nonlinear_arith) requires n == p2(k) * q, p2(k) == 2 * p;
        assert(n % 2 == 0 && n / 2 == p * q);
        lemma_mul_is_commutative(p, q);
        lemma_mod_multiples_basic(q, p); lemma_div_multiples_vanish(q, p);
        lemma_tz(n / 2, k - 1);
    }
}
pub proof fn lemma_pc_split(a: int, b: int, k: int) requires k >= 0, 0 <= a < p2(k), b >= 0 ensures pc(a + b * p2(k)) == pc(a) + pc(b) decreases k
{
    if k == 0 { lemma2_to64(); assert(p2(0) == 1); assert(a == 0); assert(b * 1 == b); assert(pc(0) == 0); }
    else {
        lemma_p2(k);
        let p = p2(k - 1);
        assert(b * p2(k) == 2 * (b * p)) by(nonlinear_arith) requires p2(k) == 2 * p;
        assert(b * p >= 0) by(nonlinear_arith) requires b >= 0, p >= 1;
        let n = a + b * p2(k);
        assert(n % 2 == a % 2 && n / 2 == a / 2 + b * p);
        lemma_pc_split(a / 2, b, k - 1);
        if n <= 0 { assert(a == 0); assert(b * p == 0); assert(b == 0) by(nonlinear_arith) requires b * p == 0, p >= 1; }
        if a <= 0 { assert(a / 2 == 0); }
    }
}
pub proof fn lemma_pc_ones(k: int) requires k >= 0 ensures pc(p2(k) - 1) == k decreases k
{ if k == 0 { lemma2_to64(); } else { lemma_p2(k); lemma_pc_ones(k - 1); assert((p2(k) - 1) / 2 == p2(k - 1) - 1); } }
pub proof fn lemma_pc_range(n: int, k: int) requires 0 <= n < p2(k), k >= 0 ensures 0 <= pc(n) <= k decreases k
{ if k == 0 { lemma2_to64(); } else { lemma_p2(k); lemma_pc_range(n / 2, k - 1); } }
pub open spec fn ilog_ok(t: Seq<i8>) -> bool { t.len() == 65536 && forall|i: int| 0 <= i < 65536 ==> (#[trigger] t[i]) as int == lg(i) }
pub open spec fn cnt_ok(t: Seq<u8>) -> bool { t.len() == 65536 && forall|i: int| 0 <= i < 65536 ==> (#[trigger] t[i]) as int == pc(i) }
pub open spec fn rev8_ok(t: Seq<u8>) -> bool { t.len() == 256 && forall|i: int| 0 <= i < 256 ==> (#[trigger] t[i]) == rev_u8(i as u8) }
pub open spec fn rev16_ok(t: Seq<u16>) -> bool { t.len() == 65536 && forall|i: int| 0 <= i < 65536 ==> (#[trigger] t[i]) == rev_u16(i as u16) }
"""


def per_type(t):
    w = W[t]
    M = 2 ** w
    s = "pub open spec fn rev_%s(x: %s) -> %s { %s }\n" % (t, t, t, revx(t, "x"))
    s += "pub open spec fn bit_%s(x: %s, i: %s) -> bool { ((x >> i) & 1%s) == 1 }\n" % (t, t, t, t)
    # every bit of the reversed word
    s += "pub proof fn lemma_rev_%s(x: %s) ensures forall|i: %s| 0 <= i < %d ==> #[trigger] bit_%s(rev_%s(x), i) == bit_%s(x, (%d - i) as %s)\n{\n" % (t, t, t, w, t, t, t, w - 1, t)
    for i in range(w):
        s += "    assert((((%s) >> %d%s) & 1%s) == ((x >> %d%s) & 1%s)) by(bit_vector);\n" % (revx(t, "x"), i, t, t, w - 1 - i, t, t)
    s += "    assert forall|i: %s| 0 <= i < %d implies #[trigger] bit_%s(rev_%s(x), i) == bit_%s(x, (%d - i) as %s) by {\n" % (t, w, t, t, t, w - 1, t)
    s += "        " + " else ".join("if i == %d { }" % i for i in range(w)) + "\n    }\n}\n"
    # or_down: shape by bit length
    sh = [w // 2]
    while sh[-1] > 1:
        sh.append(sh[-1] // 2)
    req, y = [], "x"
    for j, k in enumerate(sh):
        req.append("y%d == (%s | (%s >> %d%s))" % (j, y, y, k, t))
        y = "y%d" % j
    ys = ", ".join("y%d: %s" % (j, t) for j in range(len(sh)))
    s += "pub proof fn lemma_od_%s(x: %s, %s)\n    requires %s,\n    ensures %s as int == p2(blen(x as int)) - 1, 0 <= blen(x as int) <= %d, x < p2(blen(x as int)) <= %dint, x > 0 ==> blen(x as int) >= 1 && p2(blen(x as int) - 1) <= x,\n" % (t, t, ys, ", ".join(req), y, w, M)
    s += "{\n    lemma2_to64(); lemma2_to64_rest();\n"
    s += "    assert(x == 0 ==> %s == 0) by(bit_vector) requires %s;\n" % (y, ", ".join(req))
    for k in range(1, w + 1):
        s += "    assert(%d%s <= x && x <= %d%s ==> %s == %d%s) by(bit_vector) requires %s;\n" % (2 ** (k - 1), t, 2 ** k - 1, t, y, 2 ** k - 1, t, ", ".join(req))
    s += "    if x == 0 { assert(blen(0) == 0); }\n"
    for k in range(1, w + 1):
        s += "    else if x <= %d%s { assert(p2(%d) == %dint && p2(%d) == %dint); lemma_blen(x as int, %d); }\n" % (2 ** k - 1, t, k, 2 ** k, k - 1, 2 ** (k - 1), k)
    s += "}\n"
    return s


def od_hint(t):
    w = W[t]
    sh = [w // 2]
    while sh[-1] > 1:
        sh.append(sh[-1] // 2)
    o, y = "", "x"
    for j, k in enumerate(sh):
        o += "let ghost y%d: %s = (%s | (%s >> %d%s)); " % (j, t, y, y, k, t)
        y = "y%d" % j
    o += "proof { lemma_od_%s(x, %s); }" % (t, ", ".join("y%d" % j for j in range(len(sh))))
    return o



def more_specs(t):
    """bit-vector facts about one word type (u8/u16: the operands are promoted to int)"""
    w, T, M = W[t], t, 2 ** W[t]
    n = t in ("u8", "u16")
    H = 2 ** (w - 1)
    s = ""
    # single-bit operations, on the word itself
    def fa(name, params, req, r, cond):
        return ("pub proof fn lemma_%s_%s(%s, r: %s) requires %s, r == %s ensures forall|i: %s| 0 <= i < %d ==> #[trigger] bit_%s(r, i) == (%s)\n"
                "{ assert forall|i: %s| 0 <= i < %d implies #[trigger] bit_%s(r, i) == (%s) by { assert(%s) by(bit_vector) requires %s, r == %s, i < %d; } }\n"
                % (name, t, params, t, req, r, t, w, t, cond, t, w, t, cond, rawify("bit_%s(r, i) == (%s)" % (t, cond)), req, r, w))
    import re
    def rawify(c):
        c = re.sub(r"bit_%s\(([a-z0-9]+), \(?i \+ 1\)?(?: as %s)?\)" % (t, t), lambda m: "(((%s >> add(i, 1%s)) & 1%s) == 1)" % (m.group(1), t, t), c)
        return re.sub(r"bit_%s\(([a-z0-9]+), ([a-z0-9]+)\)" % t, lambda m: "(((%s >> %s) & 1%s) == 1)" % (m.group(1), m.group(2), t), c)
    s += fa("set", "x: %s, p: %s" % (t, t), "p < %d" % w, "(x | (1%s << p))" % t, "i == p || bit_%s(x, i)" % t)
    s += fa("flip", "x: %s, p: %s" % (t, t), "p < %d" % w, "(x ^ (1%s << p))" % t, "bit_%s(x, i) != (i == p)" % t)
    s += fa("clear", "x: %s, p: %s" % (t, t), "p < %d" % w, "(x & !(1%s << p))" % t, "i != p && bit_%s(x, i)" % t)
    s += fa("mix", "x: %s, y: %s, m: %s" % (t, t, t), "true", "((x & !m) | (y & m))", "if bit_%s(m, i) { bit_%s(y, i) } else { bit_%s(x, i) }" % (t, t, t))
    s += fa("gray", "x: %s" % t, "true", "(x ^ (x >> 1%s))" % t, "bit_%s(x, i) != (i < %d && bit_%s(x, (i + 1) as %s))" % (t, w - 1, t, t))
    s += fa("erase", "x: %s, p: %s" % (t, t), "p < %d" % w, "(((x >> 1{t}) & !sub(1{t} << p, 1{t})) | (x & sub(1{t} << p, 1{t})))".format(t=t),
            "if i < p {{ bit_{t}(x, i) }} else {{ i < {m} && bit_{t}(x, (i + 1) as {t}) }}".format(t=t, m=w - 1))
    # Gray code inverse
    s += "pub proof fn lemma_gray_inj_{t}(a: {t}, b: {t}) requires (a ^ (a >> 1{t})) == (b ^ (b >> 1{t})) ensures a == b {{ assert((a ^ (a >> 1{t})) == (b ^ (b >> 1{t})) ==> a == b) by(bit_vector); }}\n".format(t=t)
    # one bit: powers of two
    cases = " || ".join(["x == %d%s" % (2 ** k, t) for k in range(w)])
    s += "pub proof fn lemma_pow_{t}(x: {t}) requires x > 0 ensures ((x & sub(x, 1)) == 0) <==> x as int == p2(blen(x as int) - 1), 1 <= blen(x as int) <= {w}\n{{\n    lemma2_to64(); lemma2_to64_rest();\n    assert((x & sub(x, 1)) == 0 && x > 0 ==> {c}) by(bit_vector);\n".format(t=t, c=cases, w=w)
    for k in range(w):
        s += "    assert((%d%s & sub(%d%s, 1)) == 0) by(bit_vector);\n" % (2 ** k, t, 2 ** k, t)
    for k in range(w):
        s += "    %sif x <= %d%s { assert(p2(%d) == %dint && p2(%d) == %dint); lemma_blen(x as int, %d); }\n" % ("else " if k else "", 2 ** (k + 1) - 1, t, k + 1, 2 ** (k + 1), k, 2 ** k, k + 1)
    s += "}\n"
    # lowest bit: r = x & (-x)
    s += "pub proof fn lemma_lo_{t}(x: {t}, r: {t}) requires r == (x & sub(0{t}, x)), x > 0 ensures r as int == p2(tz(x as int)), 0 <= tz(x as int) < {w}, (x as int) % p2(tz(x as int)) == 0\n{{\n    lemma2_to64(); lemma2_to64_rest();\n    assert({c}) by(bit_vector) requires r == (x & sub(0{t}, x)), x > 0;\n".format(t=t, w=w, c=cases.replace("x ==", "r =="))
    for k in range(w):
        s += "    %sif r == %d%s { assert(x %% %d%s == 0%s && (x / %d%s) %% 2 == 1) by(bit_vector) requires r == %d%s, r == (x & sub(0%s, x)); assert(p2(%d) == %dint); lemma_tz(x as int, %d); }\n" % (
            "else " if k else "", 2 ** k, t, *((2 ** k, t) if True else ()), t, 2 ** k, t, 2 ** k, t, t, k, 2 ** k, k)
    s += "}\n"
    # next combination
    s += """pub proof fn lemma_nc_{t}(x: {t}, s: {t}, p: {t}, q: {t})
    requires x > 0, p == x & sub(0{t}, x), s == add(x, p), s > x, q == s & sub(0{t}, s),
    ensures q > p, (s ^ x) == add(q, sub(q, p)), q + (q - p) < {M}int, forall|z: {t}| z < q ==> #[trigger] (s | z) == add(s, z) && s + z < {M}int,
{{
    assert(q > p && (s ^ x) == add(q, sub(q, p)) && q != 0 && sub(q, p) <= sub({mx}{t}, q)) by(bit_vector) requires x > 0, p == x & sub(0{t}, x), s == add(x, p), s > x, q == s & sub(0{t}, s);
    assert forall|z: {t}| z < q implies #[trigger] (s | z) == add(s, z) && s + z < {M}int by {{ assert((s | z) == add(s, z) && z <= sub({mx}{t}, s)) by(bit_vector) requires z < q, q == s & sub(0{t}, s); }}
}}
""".format(t=t, M=M, mx=M - 1)
    # sign and magnitude
    s += "pub open spec fn sm_{t}(x: int) -> int {{ if x < {H} {{ x }} else if x == {H} {{ 0 }} else {{ {H} + ({M} - x) }} }}\n".format(t=t, H=H, M=M)
    s += "pub proof fn lemma_sm_{t}(x: int) requires 0 <= x < {M}, x != {H} ensures sm_{t}(sm_{t}(x)) == x, sm_{t}(x) != {H} {{ }}\n".format(t=t, H=H, M=M)
    return s


def units():
    cs = []
    tu = "namespace altruct { namespace math {\n"
    C = lambda *a, **k: cs.append(Contract(*a, **k))
    for t, c in NT.items():
        w = W[t]
        M = "%dint" % 2 ** w
        n = t in ("u8", "u16")
        H = 2 ** (w - 1)
        tu += ("template {0} make_bit<{0}>(int); template {0} make_ones<{0}>(int); template {0} get_bit<{0}>({0}, int); template {0} set_bit<{0}>({0}, int); template {0} flip_bit<{0}>({0}, int); template {0} clear_bit<{0}>({0}, int); "
               "template {0} erase_bit<{0}>({0}, int); template {0} mix_bits<{0}>({0}, {0}, {0}); template {0} or_down<{0}>({0}); template {0} xor_down<{0}>({0}); template {0} neg<{0}>({0}); template {0} gray_to_bin<{0}>({0}); "
               "template {0} bin_to_gray<{0}>({0}); template {0} hi_bit<{0}>({0}); template {0} lo_bit<{0}>({0}); template bool is_not_pow2<{0}>({0}); template bool is_pow2<{0}>({0}); template {0} next_pow2<{0}>({0}); "
               "template int lzc<{0}>({0}); template int tzc<{0}>({0}); template {0} sign_mag<{0}>({0}); template bool next_combination<{0}>({0}&, int);\n").format(c)
        P2 = "proof { lemma2_to64(); lemma2_to64_rest(); } "
        pin = "0 <= pos < %d" % w
        # position-type values for the bit-vector facts
        gp = P2 + "let ghost p = pos as %s; " % t
        if n:
            sh = "assert((1i32 << (pos as u32)) == ((1{t} << p) as i32)) by(bit_vector) requires p < {w}, pos == p as i32; ".format(t=t, w=w)
        else:
            sh = ""
        C("make_bit_" + t, MM + "make_bit", targs=[c], params=["pos"], bits=True, requires=[pin], ensures=["r as int == p2(pos as int)"],
          hints={"entry": gp + "proof { " + sh + "".join("if pos == %d { assert((1%s << %d%s) == %d%s) by(bit_vector); assert(p2(%d) == %dint); } " % (k, t, k, t, 2 ** k, t, k, 2 ** k) for k in range(w)) + "}"})
        C("make_ones_" + t, MM + "make_ones", targs=[c], params=["cnt"], bits=True, requires=["0 <= cnt < %d" % w], ensures=["r as int == p2(cnt as int) - 1"],
          hints={"entry": "proof { lemma_pow2_pos(cnt as nat); }"})
        C("get_bit_" + t, MM + "get_bit", targs=[c], params=["val", "pos"], bits=True, requires=[pin], ensures=["r as int == (if bit_%s(val, pos as %s) { 1int } else { 0int })" % (t, t)],
          hints={"entry": gp + "proof { " + ("assert((((val as i32) >> (pos as u32)) & 1i32) == (((val >> p) & 1{t}) as i32)) by(bit_vector) requires p < {w}, pos == p as i32; ".format(t=t, w=w) if n else "")
                 + "assert(((val >> p) & 1{t}) == 0 || ((val >> p) & 1{t}) == 1) by(bit_vector); }}".format(t=t)})
        for nm, expr, iexpr, rel in (("set", "(val | (1{t} << p))", "((val as i32) | (1i32 << (pos as u32)))", "i == pos || bit_{t}(val, i)"),
                                     ("flip", "(val ^ (1{t} << p))", "((val as i32) ^ (1i32 << (pos as u32)))", "bit_{t}(val, i) != (i == pos)"),
                                     ("clear", "(val & !(1{t} << p))", "((val as i32) & !(1i32 << (pos as u32)))", "i != pos && bit_{t}(val, i)")):
            e = expr.format(t=t)
            C("%s_bit_%s" % (nm, t), MM + nm + "_bit", targs=[c], params=["val", "pos"], bits=True, requires=[pin],
              ensures=["forall|i: %s| 0 <= i < %d ==> #[trigger] bit_%s(r, i) == (%s)" % (t, w, t, rel.format(t=t))],
              hints={"entry": gp + "proof { " + sh + ("assert(%s == (%s as i32)) by(bit_vector) requires p < %d, pos == p as i32; " % (iexpr, e, w) if n else "") + "lemma_%s_%s(val, p, %s); }" % (nm, t, e)})
        e = "(((val >> 1{t}) & !sub(1{t} << p, 1{t})) | (val & sub(1{t} << p, 1{t})))".format(t=t)
        C("erase_bit_" + t, MM + "erase_bit", targs=[c], params=["val", "pos"], bits=True, requires=[pin],
          ensures=["forall|i: {t}| 0 <= i < {w} ==> #[trigger] bit_{t}(r, i) == (if i < pos {{ bit_{t}(val, i) }} else {{ i < {m} && bit_{t}(val, (i + 1) as {t}) }})".format(t=t, w=w, m=w - 1)],
          hints={"entry": gp + "let ghost lo = sub(1{t} << p, 1{t}); proof {{ ".format(t=t) + sh + "assert((1{t} << p) >= 1{t}) by(bit_vector) requires p < {w}; ".format(t=t, w=w)
                 + ("assert((((val as i32) >> 1u32) & !(lo as i32)) | ((val as i32) & (lo as i32)) == ((((val >> 1{t}) & !lo) | (val & lo)) as i32)) by(bit_vector); assert((((val as i32) >> 1u32)) == ((val >> 1{t}) as i32)) by(bit_vector); ".format(t=t) if n else "") + "lemma_erase_%s(val, p, %s); }" % (t, e)})
        e = "((val0 & !mask) | (val1 & mask))"
        C("mix_bits_" + t, MM + "mix_bits", targs=[c], params=["val0", "val1", "mask"], bits=True,
          ensures=["forall|i: {t}| 0 <= i < {w} ==> #[trigger] bit_{t}(r, i) == (if bit_{t}(mask, i) {{ bit_{t}(val1, i) }} else {{ bit_{t}(val0, i) }})".format(t=t, w=w)],
          hints={"entry": "proof { " + ("assert(((val0 as i32) & !(mask as i32)) | ((val1 as i32) & (mask as i32)) == (%s as i32)) by(bit_vector); " % e if n else "") + "lemma_mix_%s(val0, val1, mask, %s); }" % (t, e)})
        C("or_down_" + t, MM + "or_down", targs=[c], params=["x"], bits=True,
          ensures=["r as int == p2(blen(x as int)) - 1", "0 <= blen(x as int) <= %d" % w, "x < p2(blen(x as int)) <= %s" % M, "x > 0 ==> blen(x as int) >= 1 && p2(blen(x as int) - 1) <= x"],
          hints={"entry": od_hint(t)})
        # xor_down
        sh_ = [w // 2]
        while sh_[-1] > 1:
            sh_.append(sh_[-1] // 2)
        o, y = "", "x"
        for j, k in enumerate(sh_):
            o += "let ghost y%d: %s = (%s ^ (%s >> %d%s)); " % (j, t, y, y, k, t)
            y = "y%d" % j
        reqs, yy = [], "x"
        for j, k in enumerate(sh_):
            reqs.append("y%d == (%s ^ (%s >> %d%s))" % (j, yy, yy, k, t)); yy = "y%d" % j
        C("xor_down_" + t, MM + "xor_down", targs=[c], params=["x"], bits=True, ensures=["r ^ (r >> 1%s) == x" % t],
          hints={"entry": o + "proof { assert((%s ^ (%s >> 1%s)) == x) by(bit_vector) requires %s; }" % (y, y, t, ", ".join(reqs))})
        C("gray_to_bin_" + t, MM + "gray_to_bin", targs=[c], params=["x"], bits=True, ensures=["r ^ (r >> 1%s) == x" % t,
          "forall|b: {t}| #[trigger] (b ^ (b >> 1{t})) == x ==> r == b".format(t=t)],
          hints={"exit": "proof {{ assert forall|b: {t}| #[trigger] (b ^ (b >> 1{t})) == x implies ret__v == b by {{ lemma_gray_inj_{t}(ret__v, b); }} }}".format(t=t)})
        C("bin_to_gray_" + t, MM + "bin_to_gray", targs=[c], params=["x"], bits=True, ensures=["r == x ^ (x >> 1%s)" % t,
          "forall|i: {t}| 0 <= i < {w} ==> #[trigger] bit_{t}(r, i) == (bit_{t}(x, i) != (i < {m} && bit_{t}(x, (i + 1) as {t})))".format(t=t, w=w, m=w - 1)],
          hints={"entry": "proof {{ lemma_gray_{t}(x, (x ^ (x >> 1{t}))); }}".format(t=t)})
        C("neg_" + t, MM + "neg", targs=[c], params=["x"], bits=True, ensures=["r as int == (if x == 0 { 0int } else { %s - x })" % M],
          hints={"entry": "proof {{ assert(sub({m}{t}, x) == !x) by(bit_vector); {n} }}".format(m=2 ** w - 1, t=t, n=("assert(!(x as i32) == sub(-1i32, x as i32)) by(bit_vector);" if n else ""))})
        C("hi_bit_" + t, MM + "hi_bit", targs=[c], params=["x"], bits=True, ensures=["x == 0 ==> r == 0", "x > 0 ==> r as int == p2(blen(x as int) - 1) && 1 <= blen(x as int) <= %d" % w],
          hints={"exit": "proof { " + P2[8:-3] + " " + "assert(0{t} ^ (0{t} >> 1{t}) == 0) by(bit_vector); ".format(t=t) + "".join("if blen(x_0 as int) == %d { assert(p2(%d) == %dint && p2(%d) == %dint); assert((%d%s ^ (%d%s >> 1%s)) == %d%s) by(bit_vector); } " % (
              k, k, 2 ** k, k - 1, 2 ** (k - 1), 2 ** k - 1, t, 2 ** k - 1, t, t, 2 ** (k - 1), t) for k in range(1, w + 1)) + "}"})
        C("lo_bit_" + t, MM + "lo_bit", targs=[c], params=["x"], bits=True, ensures=["x == 0 ==> r == 0", "x > 0 ==> r as int == p2(tz(x as int)) && 0 <= tz(x as int) < %d && (x as int) %% p2(tz(x as int)) == 0" % w],
          hints={"entry": "proof {{ let m = sub(0{t}, x); assert(x > 0 ==> m == add(sub({m}{t}, x), 1{t})) by(bit_vector) requires m == sub(0{t}, x); assert(x == 0 ==> m == 0) by(bit_vector) requires m == sub(0{t}, x); {n} assert((0{t} & 0{t}) == 0) by(bit_vector); if x > 0 {{ lemma_lo_{t}(x, (x & m)); }} }}".format(t=t, m=2 ** w - 1, n=("assert(((x as i32) & (m as i32)) == ((x & m) as i32)) by(bit_vector);" if n else ""))})
        pn = ("assert(((x as i32) & sub(x as i32, 1i32)) == ((x & sub(x, 1)) as i32)) by(bit_vector); " if n else "") + ("assert((0i32 & (-1i32)) == 0) by(bit_vector); " if n else "assert((0%s & %d%s) == 0) by(bit_vector); " % (t, 2 ** w - 1, t)) + "if x > 0 { lemma_pow_%s(x); }" % t
        C("is_not_pow2_" + t, MM + "is_not_pow2", targs=[c], params=["x"], bits=True, ensures=["x == 0 ==> !r", "x > 0 ==> (r <==> x as int != p2(blen(x as int) - 1))"], hints={"entry": "proof { " + pn + " }"})
        C("is_pow2_" + t, MM + "is_pow2", targs=[c], params=["x"], bits=True, ensures=["x == 0 ==> r", "x > 0 ==> (r <==> x as int == p2(blen(x as int) - 1))"], hints={"entry": "proof { " + pn + " }"})
        C("next_pow2_" + t, MM + "next_pow2", targs=[c], params=["x"], bits=True, ensures=["x < %dint ==> r as int == p2(blen(x as int)) && r > x" % H, "x >= %dint ==> r == 0" % H, "x > 0 && x < %dint ==> p2(blen(x as int) - 1) <= x" % H],
          hints={"entry": P2 + "proof { assert(p2(%d) == %s && p2(%d) == %dint); lemma_top_%s(x); }" % (w, M, w - 1, H, t)})
        C("lzc_" + t, MM + "lzc", targs=[c], params=["x"], bits=True, extra=["t_cnt1_16: &Vec<u8>"], requires=["cnt_ok(t_cnt1_16@)"], ensures=["r == %d - blen(x as int)" % w],
          hints={"entry": "proof { lemma_lzc_%s(x); }" % t})
        C("tzc_" + t, MM + "tzc", targs=[c], params=["x"], bits=True, extra=["t_cnt1_16: &Vec<u8>"], requires=["cnt_ok(t_cnt1_16@)"], ensures=["x == 0 ==> r == %d" % w, "x > 0 ==> r == tz(x as int)"],
          hints={"entry": P2 + "proof { if x > 0 { lemma_tz_nonneg(x as int); lemma_pow2_pos(tz(x as int) as nat); lemma_pc_ones(tz(x as int)); } assert(p2(%d) == %s); lemma_pc_ones(%d); }" % (w, M, w)})
        C("sign_mag_" + t, MM + "sign_mag", targs=[c], params=["x"], bits=True, ensures=["r as int == sm_%s(x as int)" % t],
          hints={"entry": P2 + "let ghost hb: {t} = {H}{t}; proof {{ assert(pow2({k}) == {H}int); assert((1{t} << {k}{t}) == {H}{t}) by(bit_vector); {n} assert((x & hb) != 0 <==> x >= hb) by(bit_vector) requires hb == {H}{t}; let g = sub(0{t}, x); assert(x > 0 ==> g == add(sub({mx}{t}, x), 1{t})) by(bit_vector) requires g == sub(0{t}, x); {n2} assert(x >= hb ==> (g ^ hb) == (if g == hb {{ 0{t} }} else {{ add(g, hb) }}) && g <= hb) by(bit_vector) requires hb == {H}{t}, g == sub(0{t}, x); }}".format(
              t=t, H=H, mx=2 ** w - 1, k=w - 1, n=("assert((1i32 << %du32) == %di32) by(bit_vector); assert(((x as i32) & (hb as i32)) == ((x & hb) as i32)) by(bit_vector);" % (w - 1, H) if n else ""), n2=("assert(((g as i32) ^ (hb as i32)) == ((g ^ hb) as i32)) by(bit_vector);" if n else ""))})
        nn = n
        C("next_combination_" + t, MM + "next_combination", targs=[c], params=["x", "size"], bits=True, extra=["t_cnt1_16: &Vec<u8>"], rlimit=40,
          requires=["cnt_ok(t_cnt1_16@)", "0 < size < %d" % w, "0 < *old(x) < p2(size as int)"],
          ensures=["r ==> *old(x) < *final(x) < p2(size as int) && pc(*final(x) as int) == pc(*old(x) as int)",
                   "r ==> forall|y: int| *old(x) < y < *final(x) ==> #[trigger] pc(y) != pc(*old(x) as int)",
                   "!r ==> *final(x) as int == p2(pc(*old(x) as int)) - 1 && forall|y: int| *old(x) < y < p2(size as int) ==> #[trigger] pc(y) != pc(*old(x) as int)"],
          hints={"entry": "let ghost x0 = *x; let ghost p = x0 & sub(0{t}, x0); let ghost s = add(x0, p); let ghost q = s & sub(0{t}, s); proof {{ lemma2_to64(); lemma2_to64_rest(); lemma_ncx_{t}(x0, size as int, p, s, q); assert(forall|a: {tt}| a >= 0 ==> #[trigger] (a >> 2u32) == a / 4) by(bit_vector); let tt = tz(x0 as int); vstd::bits::lemma_{u}_shr_is_div((s ^ x0) as {u}, tt as {u}); vstd::bits::lemma_{u}_shr_is_div(x0 as {u}, tt as {u}); {n3} }}".format(t=t, u="u32" if nn else t, tt="i32" if nn else t, n3="assert(forall|a: i32, k: u32| a >= 0 && k < 32 ==> #[trigger] (a >> k) == (((a as u32) >> k) as i32)) by(bit_vector);" if nn else ""),
                 "exit": "proof { let z = nc_z(x0 as int, s as int); if (s as int) < p2(size as int) { assert(v == s); assert(w as int == p2(tz(s as int) - tz(x0 as int) + 1) - 1); assert((w >> 2) as int == z); assert(y as int == s + z); assert(*x as int == s + z); } else { assert(v == 0); assert(w as int == x0 as int / p2(tz(x0 as int))); } }"} )
    tu += "}}\n"
    top = ""
    for t in NT:
        w = W[t]
        top += "pub proof fn lemma_top_{t}(x: {t}) ensures x < {H}int ==> blen(x as int) <= {k}, x >= {H}int ==> blen(x as int) == {w} {{ lemma2_to64(); lemma2_to64_rest(); assert(p2({k}) == {H}int && p2({w}) == {M}int); if x >= {H}int {{ lemma_blen(x as int, {w}); }} else {{ lemma_blen_le(x as int, {k}); }} }}\n".format(t=t, H=2 ** (w - 1), k=w - 1, w=w, M=2 ** w)
        top += """
pub open spec fn nc_z(x: int, s: int) -> int {{ p2(tz(s) - tz(x) - 1) - 1 }}
""".format() if t == "u8" else ""
        top += """
pub proof fn lemma_ncx_{t}(x: {t}, size: int, p: {t}, s: {t}, q: {t})
    requires x > 0, x < p2(size), 0 < size < {w}, p == x & sub(0{t}, x), s == add(x, p), q == s & sub(0{t}, s),
    ensures
        p as int == p2(tz(x as int)), s as int == x + p, s as int <= p2(size), q as int == p2(tz(s as int)), 0 <= tz(x as int) < tz(s as int) < {w},
        q + (q - p) < {M}int, (s ^ x) as int == q + (q - p), ((q + (q - p)) as int) / p2(tz(x as int)) == p2(tz(s as int) - tz(x as int) + 1) - 1,
        (p2(tz(s as int) - tz(x as int) + 1) - 1) / 4 == nc_z(x as int, s as int), 0 <= nc_z(x as int, s as int) < q,
        (s | (nc_z(x as int, s as int) as {t})) as int == s + nc_z(x as int, s as int),
        (s as int) < p2(size) ==> (s & (sub(1{t} << (size as {t}), 1))) == s && s + nc_z(x as int, s as int) < p2(size),
        s as int == p2(size) ==> (s & (sub(1{t} << (size as {t}), 1))) == 0 && (x as int) / p2(tz(x as int)) == p2(pc(x as int)) - 1,
        (1{t} << (size as {t})) as int == p2(size), (0{t} ^ x) == x,
        pc(s + nc_z(x as int, s as int)) == pc(x as int),
        forall|y: int| x < y < s + nc_z(x as int, s as int) ==> #[trigger] pc(y) != pc(x as int),
        s as int == p2(size) ==> forall|y: int| x < y < p2(size) ==> #[trigger] pc(y) != pc(x as int),
{{
    lemma2_to64(); lemma2_to64_rest();
    let t = tz(x as int); let n = tz(s as int);
    lemma_lo_{t}(x, p); lemma_tz_odd(x as int);
    let k = size as {t};
    {pc}
    // x + 2^t <= 2^size
    assert(x as int >= p2(t)) by {{ let a = choose|a: int| a >= 0 && x as int == #[trigger] mul2(2 * a + 1, p2(t)); assert(mul2(2 * a + 1, p2(t)) >= p2(t)) by(nonlinear_arith) requires a >= 0, p2(t) >= 1, mul2(2 * a + 1, p2(t)) == (2 * a + 1) * p2(t); }};
    if t >= size {{ if t > size {{ lemma_pow2_strictly_increases(size as nat, t as nat); }} assert(false); }}
    lemma_pow2_adds((size - t) as nat, t as nat);
    let b = x as int / p2(t);
    lemma_fundamental_div_mod(x as int, p2(t));
    lemma_mul_is_commutative(b, p2(t)); lemma_stepm(b, p2(size - t), p2(t));
    assert(s == x + p);
    lemma_nc_{t}(x, s, p, q);
    lemma_lo_{t}(s, q); lemma_tz_odd(s as int);
    if n <= t {{ if n < t {{ lemma_pow2_strictly_increases(n as nat, t as nat); }} assert(false); }}
    let a = choose|a: int| a >= 0 && s as int == #[trigger] mul2(2 * a + 1, p2(n));
    lemma_p2(n + 1);
    assert(x as int == a * p2(n + 1) + (p2(n) - p2(t))) by(nonlinear_arith) requires s as int == (2 * a + 1) * p2(n), s as int == x + p2(t), p2(n + 1) == 2 * p2(n);
    lemma_next_comb(x as int, t, n, a);
    lemma_p2(n - t + 1); lemma_p2(n - t); lemma_pow2_pos((n - t - 1) as nat); lemma_pow2_pos(t as nat);
    let d = p2(n - t + 1) - 1;
    assert(q + (q - p) == d * p2(t)) by(nonlinear_arith) requires q as int == p2(n), p as int == p2(t), p2(n) == p2(n - t) * p2(t), p2(n - t + 1) == 2 * p2(n - t), d == p2(n - t + 1) - 1;
    lemma_div_multiples_vanish(d, p2(t)); lemma_mul_is_commutative(d, p2(t));
    assert(d / 4 == p2(n - t - 1) - 1);
    let z = nc_z(x as int, s as int);
    assert(p2(n - t) <= p2(n)) by(nonlinear_arith) requires p2(n) == p2(n - t) * p2(t), p2(n - t) >= 1, p2(t) >= 1;
    assert((s | (z as {t})) == add(s, z as {t}));
    assert((0{t} ^ x) == x) by(bit_vector);
    let m = sub(1{t} << k, 1);
    if (s as int) < p2(size) {{
        assert((s & m) == s) by(bit_vector) requires m == sub(1{t} << k, 1), k < {w}, s < (1{t} << k);
        if n >= size {{ if n > size {{ lemma_pow2_strictly_increases(size as nat, n as nat); }} assert(s as int >= p2(n)) by(nonlinear_arith) requires s as int == (2 * a + 1) * p2(n), a >= 0, p2(n) >= 1; assert(false); }}
        lemma_pow2_adds((size - n) as nat, n as nat);
        let e = 2 * a + 1;
        lemma_stepm(e, p2(size - n), p2(n));
    }} else {{
        assert((s & m) == 0) by(bit_vector) requires m == sub(1{t} << k, 1), k < {w}, s == (1{t} << k);
        lemma_tz_pow(size);
        assert(n == size);
        assert(a == 0) by(nonlinear_arith) requires p2(n) == (2 * a + 1) * p2(n), p2(n) >= 1, a >= 0;
        assert(a * p2(n + 1) == 0) by(nonlinear_arith) requires a == 0;
        assert(pc(0) == 0);
        assert(x as int == (p2(n - t) - 1) * p2(t)) by(nonlinear_arith) requires x as int == p2(n) - p2(t), p2(n) == p2(n - t) * p2(t);
        lemma_div_multiples_vanish(p2(n - t) - 1, p2(t)); lemma_mul_is_commutative(p2(n - t) - 1, p2(t));
    }}
}}
""".format(t=t, w=w, M=2 ** w, pc="".join("if size == %d { assert((1%s << %d%s) == %d%s) by(bit_vector); assert(p2(%d) == %dint); } " % (j, t, j, t, 2 ** j, t, j, 2 ** j) for j in range(1, w)))
        top += "pub proof fn lemma_lzc_{t}(x: {t}) ensures pc(p2(blen(x as int)) - 1) == blen(x as int), 0 <= blen(x as int) <= {w} {{ lemma2_to64(); lemma2_to64_rest(); assert(p2({w}) == {M}int); lemma_blen_le(x as int, {w}); lemma_pc_ones(blen(x as int)); }}\n".format(t=t, w=w, M=2 ** w)
    top += "pub proof fn lemma_blen_le(n: int, k: int) requires 0 <= n < p2(k), k >= 0 ensures 0 <= blen(n) <= k decreases k { if k == 0 { lemma2_to64(); } else if n > 0 { lemma_p2(k); lemma_blen_le(n / 2, k - 1); } }\n"
    # table-driven functions
    for t, c in NT.items():
        w = W[t]
        hint = {}
        if w >= 32:
            h = W[t] // 2
            ht = "u%d" % h
            hint = {"entry": "proof {{ lemma2_to64(); let lo = x % {m}; let hi = x >> {h}{t}; assert(hi == x / {m} && x == lo + hi * {m} && hi < {m}) by(bit_vector) requires lo == x % {m}, hi == x >> {h}{t}; assert(p2({h}) == {m}int); lemma2_to64_rest(); lemma_pc_split(lo as int, hi as int, {h}); lemma_pc_range(lo as int, {h}); lemma_pc_range(hi as int, {h}); assert(x as int == lo + hi * p2({h})); }}".format(t=t, m=2 ** h, h=h)}
        C("bit_cnt1_" + t, MM + "bit_cnt1", sig="int (%s)" % {"u8": "uint8_t", "u16": "uint16_t", "u32": "uint32_t", "u64": "uint64_t"}[t], params=["x"], bits=True, extra=["t_cnt1_16: &Vec<u8>"], requires=["cnt_ok(t_cnt1_16@)"], ensures=["r == pc(x as int)"], hints=hint)

    UT = {"u8": "uint8_t", "u16": "uint16_t", "u32": "uint32_t", "u64": "uint64_t"}
    STN = {"u8": "int8_t", "u16": "int16_t", "u32": "int32_t", "u64": "int64_t"}
    TL = ["t_ilog2_16_full: &Vec<i8>", "t_ilog2_32: &Vec<i8>", "t_ilog2_64: &Vec<i8>"]
    TR = ["ilog_ok(t_ilog2_16_full@)", "t_ilog2_32@ == init_ilog2_32()", "t_ilog2_64@ == init_ilog2_64()"]
    lgs = ""
    for t, c in NT.items():
        w = W[t]
        M = 2 ** w
        hint = {}
        if w >= 32:
            hint = {"entry": "proof { lemma2_to64(); lemma2_to64_rest(); lemma_blen_le(x as int, %d); " % w + "".join("if blen(x as int) == %d { assert(p2(%d) == %dint); } " % (k, k, 2 ** k) for k in range(w + 1)) + "}",
                    "call:or_down_%s.after" % t: ""}
            del hint["call:or_down_%s.after" % t]
            const = {"u32": (0x07C4ACDD, 27), "u64": (0x03f6eaf2cd271461, 58)}[t]
            hint = {"entry": "proof { lemma2_to64(); lemma2_to64_rest(); assert(p2(%d) == %dint); lemma_blen_le(x as int, %d); if x == 0 { assert(blen(0) == 0); assert((0%s >> %d%s) == 0%s) by(bit_vector); } " % (w, M, w, t, const[1], t, t)
                    + "".join("else if blen(x as int) == %d { assert(p2(%d) == %dint); assert((%d * %d) %% %d == %d); assert((%d%s >> %d%s) == %d%s) by(bit_vector); } " % (
                        k, k, 2 ** k, 2 ** k - 1, const[0], M, (2 ** k - 1) * const[0] % M, (2 ** k - 1) * const[0] % M, t, const[1], t, ((2 ** k - 1) * const[0] % M) >> const[1], t) for k in range(1, w + 1)) + "else { lemma_blen_le(x as int / 2, %d); assert(blen(x as int) >= 1); } }" % w + ""}
        C("ilog2_" + t, MM + "ilog2", sig="int (%s)" % UT[t], params=["x"], bits=True, extra=TL, requires=TR, ensures=["r == lg(x as int)"], hints=hint)
        C("ilog2_i" + t[1:], MM + "ilog2", sig="int (%s)" % STN[t], params=["x"], bits=True, extra=TL, requires=TR, ensures=["x >= 0 ==> r == lg(x as int)", "x < 0 ==> r == %d" % (w - 1)],
          hints={"entry": "proof {{ lemma2_to64(); lemma2_to64_rest(); assert(p2({w}) == {M}int && p2({k}) == {H}int); if x < 0 {{ lemma_blen(x as int + {M}int, {w}); }} }}".format(w=w, M=M, k=w - 1, H=M // 2)})
        hint = {}
        if w >= 32:
            h = w // 2
            ht = "u%d" % h
            hint = {"entry": "proof {{ let lo = (x & {m}) as {ht}; let hi = (x >> {h}{t}) as {ht}; assert(lo as {t} == x % {M} && hi as {t} == x >> {h}{t}) by(bit_vector) requires lo == (x & {m}) as {ht}, hi == (x >> {h}{t}) as {ht}; assert(hi as int == x as int / {M}) by {{ assert((x >> {h}{t}) == x / {M}) by(bit_vector); }}; assert(((({rl} as {t}) << {h}{t}) | ({rh} as {t})) == {rx}) by(bit_vector); assert(rev_{t}(x) == (((rev_{ht}(lo) as {t}) << {h}{t}) | (rev_{ht}(hi) as {t}))) by {{ assert({rl2} == rev_{ht}(lo)); assert({rh2} == rev_{ht}(hi)); }}; lemma_rev_{t}(x); }}".format(
                t=t, ht=ht, h=h, m=2 ** h - 1, M=2 ** h, rl=revx(ht, "((x & %d) as %s)" % (2 ** h - 1, ht)), rh=revx(ht, "((x >> %d%s) as %s)" % (h, t, ht)), rx=revx(t, "x"), rl2=revx(ht, "((x & %d) as %s)" % (2 ** h - 1, ht)), rh2=revx(ht, "((x >> %d%s) as %s)" % (h, t, ht)))}
        C("bit_reverse_" + t, MM + "bit_reverse", sig="%s (%s)" % (UT[t], UT[t]), params=["x"], bits=True, extra=["t_rev_8: &Vec<u8>"] if w == 8 else ["t_rev_16: &Vec<u16>"], requires=["rev8_ok(t_rev_8@)"] if w == 8 else ["rev16_ok(t_rev_16@)"],
          ensures=["r == rev_%s(x)" % t, "forall|i: {t}| 0 <= i < {w} ==> #[trigger] bit_{t}(r, i) == bit_{t}(x, ({m} - i) as {t})".format(t=t, w=w, m=w - 1)],
          hints=hint or {"entry": "proof { lemma_rev_%s(x); }" % t})

    # table initialisation
    TM = ["t_ilog2_16_full: &mut Vec<i8>", "t_cnt1_16: &mut Vec<u8>", "t_rev_4: &Vec<u8>", "t_rev_8: &mut Vec<u8>", "t_rev_16: &mut Vec<u16>"]
    R4 = "(((x & 1u8) << 3u8) | ((x & 2u8) << 1u8) | ((x & 4u8) >> 1u8) | ((x & 8u8) >> 3u8))"
    lgs += "pub proof fn lemma_rev4(x: u8) requires x < 16 ensures init_rev_4()[x as int] as int == %s as int, init_rev_4()[x as int] < 16 {\n" % R4
    for k in range(16):
        r = int("{:04b}".format(k)[::-1], 2)
        lgs += "    %sif x == %d { assert(init_rev_4()[%d] == %d); assert(%s == %d) by(bit_vector); }\n" % ("else " if k else "", k, k, r, R4.replace("x", "%du8" % k), r)
    lgs += "}\n"
    N = lambda e: R4.replace("(x &", "(%s &" % e)
    C("rev8_", MM + "_bit_reverse_8", params=["x"], bits=True, extra=["t_rev_4: &Vec<u8>"], requires=["t_rev_4@ == init_rev_4()"], ensures=["r == rev_u8(x)"],
      hints={"entry": "proof {{ let a = x & 15u8; let b = x >> 4u8; assert(((x as i32) & 15i32) == (a as i32) && ((x as i32) >> 4u32) == (b as i32) && a < 16 && b < 16) by(bit_vector) requires a == x & 15u8, b == x >> 4u8; lemma_rev4(a); lemma_rev4(b); let ra = {ra}; let rb = {rb}; lemma2_to64(); assert(((ra as i32) << 4u32) | (rb as i32) == (({rx}) as i32)) by(bit_vector) requires ra == {ra}, rb == {rb}, a == x & 15u8, b == x >> 4u8; assert(rev_u8(x) == {rx}); }}".format(ra=N("a"), rb=N("b"), rx=revx("u8", "x"))})
    C("rev16_", MM + "_bit_reverse_16", params=["x"], bits=True, extra=["t_rev_8: &Vec<u8>"], requires=["rev8_ok(t_rev_8@)"], ensures=["r == rev_u16(x)"],
      hints={"entry": "proof {{ let a = (x & 255) as u8; let b = (x >> 8u16) as u8; assert(a as u16 == x % 256 && b as u16 == x >> 8u16 && b as u16 == x / 256 && ((x as i32) >> 8u32) == (b as i32)) by(bit_vector) requires a == (x & 255) as u8, b == (x >> 8u16) as u8; let ra = {ra}; let rb = {rb}; lemma2_to64(); assert((((ra as u16) as i32) << 8u32) | (rb as i32) == (({rx}) as i32) && (((ra as u16) as i32) << 8u32) == (((ra as u16) << 8u16) as i32)) by(bit_vector) requires ra == {ra}, rb == {rb}, a == (x & 255) as u8, b == (x >> 8u16) as u8; assert(rev_u8(a) == ra && rev_u8(b) == rb && rev_u16(x) == {rx}); }}".format(ra=revx("u8", "a"), rb=revx("u8", "b"), rx=revx("u16", "x"))})
    C("bits_init", MM + "_altruct_math_bits_init", params=[], bits=True, extra=TM,
      requires=["old(t_ilog2_16_full)@ == init_ilog2_16_full()", "old(t_cnt1_16)@ == init_cnt1_16()", "t_rev_4@ == init_rev_4()", "old(t_rev_8)@ == init_rev_8()", "old(t_rev_16)@ == init_rev_16()"],
      ensures=["ilog_ok(final(t_ilog2_16_full)@)", "cnt_ok(final(t_cnt1_16)@)", "rev8_ok(final(t_rev_8)@)", "rev16_ok(final(t_rev_16)@)"],
      loops={0: dict(invariant=["2 <= $x <= 65536", "t_ilog2_16_full@.len() == 65536", "t_cnt1_16@ == init_cnt1_16()", "t_rev_8@ == init_rev_8()", "t_rev_16@ == init_rev_16()",
                                "forall|i: int| 0 <= i < $x ==> (#[trigger] t_ilog2_16_full@[i]) as int == lg(i)", "forall|i: int| $x <= i < 65536 ==> (#[trigger] t_ilog2_16_full@[i]) == 0"], decreases="65536 - $x"),
             1: dict(invariant=["1 <= $x <= 65536", "t_cnt1_16@.len() == 65536", "ilog_ok(t_ilog2_16_full@)", "t_rev_8@ == init_rev_8()", "t_rev_16@ == init_rev_16()",
                                "forall|i: int| 0 <= i < $x ==> (#[trigger] t_cnt1_16@[i]) as int == pc(i)"], decreases="65536 - $x"),
             2: dict(invariant=["1 <= $x <= 256", "t_rev_8@.len() == 256", "ilog_ok(t_ilog2_16_full@)", "cnt_ok(t_cnt1_16@)", "t_rev_16@ == init_rev_16()",
                                "forall|i: int| 0 <= i < $x ==> (#[trigger] t_rev_8@[i]) == rev_u8(i as u8)"], decreases="256 - $x"),
             3: dict(invariant=["1 <= $x <= 65536", "t_rev_16@.len() == 65536", "ilog_ok(t_ilog2_16_full@)", "cnt_ok(t_cnt1_16@)", "rev8_ok(t_rev_8@)",
                                "forall|i: int| 0 <= i < $x ==> (#[trigger] t_rev_16@[i]) == rev_u16(i as u16)"], decreases="65536 - $x")},
      hints={"entry": "proof { lemma2_to64(); assert(%s == 0) by(bit_vector); assert(%s == 0) by(bit_vector); assert(blen(1) == 1 + blen(0)); }" % (revx("u8", "0u8"), revx("u16", "0u16")),
             "L0.begin": "proof { lemma_blen_le($x as int / 2, 16) ; lemma_lg_half($x as int); lemma2_to64(); }",
             "L1.begin": "proof { lemma_pc_range($x as int / 2, 16); lemma2_to64(); assert(($x & 1i32) == $x % 2i32) by(bit_vector) requires $x >= 0; }"})
    lgs += "pub proof fn lemma_lg_half(n: int) requires n >= 2 ensures lg(n) == lg(n / 2) + 1 { assert(blen(n) == 1 + blen(n / 2)); }\n"
    u = Unit("bits", ["altruct/algorithm/math/bits.h", "src/algorithm/math/bits.cpp"], tu, cs, SPEC + "".join(per_type(t) + more_specs(t) for t in NT) + top + lgs)
    for n, rt in (("ilog2_16_full", "i8"), ("ilog2_16", "i8"), ("ilog2_32", "i8"), ("ilog2_64", "i8"), ("cnt1_16", "u8"), ("rev_4", "u8"), ("rev_8", "u8"), ("rev_16", "u16")):
        u.globals["_tbl_" + n] = "t_" + n
        u.ast_specs.append(lambda u, n=n, rt=rt: u.table("_tbl_" + n, rt, "init_" + n))
    return [u]

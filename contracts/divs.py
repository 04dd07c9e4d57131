"""floor/ceiling/rounding division, multiples, absolute value, minimum, maximum, clamping (base.h)"""
from unit import Unit, Contract
NT = {"i8": "signed char", "u8": "unsigned char", "i16": "short", "u16": "unsigned short", "i32": "int", "u32": "unsigned int", "i64": "long", "u64": "unsigned long"}
MM = "altruct::math::"
SPEC = r"""
/// exact floor, ceiling and nearest (halves away from zero) of the rational a / b, b != 0
pub open spec fn fdiv(a: int, b: int) -> int { if b > 0 { a / b } else { (-a) / (-b) } }
pub open spec fn cdiv(a: int, b: int) -> int { -fdiv(-a, b) }
pub open spec fn ndiv_pos(a: int, b: int) -> int { if a >= 0 { (2 * a + b) / (2 * b) } else { -((-2 * a + b) / (2 * b)) } }
pub open spec fn ndiv(a: int, b: int) -> int { if b > 0 { ndiv_pos(a, b) } else { ndiv_pos(-a, -b) } }
/// the defining property of the floor: the only multiple bound that fits (a sanity lemma over the contracts)
pub proof fn lemma_fdiv_char(a: int, b: int)
    requires b > 0, ensures fdiv(a, b) * b <= a, a < (fdiv(a, b) + 1) * b, cdiv(a, b) * b >= a, a > (cdiv(a, b) - 1) * b,
{
    let q = a / b; lemma_fundamental_div_mod(a, b); lemma_mod_bound(a, b);
    assert(q * b <= a && a < (q + 1) * b) by(nonlinear_arith) requires a == b * q + a % b, 0 <= a % b < b;
    let c = (-a) / b; lemma_fundamental_div_mod(-a, b); lemma_mod_bound(-a, b);
    assert((-c) * b >= a && a > (-c - 1) * b) by(nonlinear_arith) requires -a == b * c + (-a) % b, 0 <= (-a) % b < b;
}
pub proof fn lemma_pos(a: int, b: int)
    requires b > 0,
    ensures a < 0 ==> a / b == -((-a - 1) / b) - 1, a > 0 ==> -((-a) / b) == (a - 1) / b + 1, a == 0 ==> a / b == 0,
        a >= 0 ==> 0 <= a / b && a / b <= a, a < 0 ==> a <= a / b && a / b < 0,
        a > 0 ==> 0 <= (a - 1) / b && (a - 1) / b <= a - 1, a < 0 ==> 0 <= (-a - 1) / b && (-a - 1) / b <= -a - 1,
        a <= 0 ==> 0 <= (-a) / b && (-a) / b <= -a,
{
    lemma_fundamental_div_mod(a, b); lemma_mod_bound(a, b);
    let q = a / b; let m = a % b;
    assert(a == b * q + m);
    if a < 0 {
        assert(q < 0 && q >= a) by(nonlinear_arith) requires a == b * q + m, 0 <= m < b, a < 0, b > 0;
        assert(-a - 1 == (-q - 1) * b + (b - 1 - m)) by(nonlinear_arith) requires a == b * q + m;
        lemma_fundamental_div_mod_converse(-a - 1, b, -q - 1, b - 1 - m);
    } else {
        assert(q >= 0 && q <= a) by(nonlinear_arith) requires a == b * q + m, 0 <= m < b, a >= 0, b > 0;
    }
    if a > 0 {
        if m == 0 {
            assert(a - 1 == (q - 1) * b + (b - 1)) by(nonlinear_arith) requires a == b * q + m, m == 0;
            lemma_fundamental_div_mod_converse(a - 1, b, q - 1, b - 1);
            assert(-a == (-q) * b + 0) by(nonlinear_arith) requires a == b * q + m, m == 0;
            lemma_fundamental_div_mod_converse(-a, b, -q, 0);
            assert(q >= 1) by(nonlinear_arith) requires a == b * q + m, m == 0, a > 0, b > 0;
        } else {
            assert(a - 1 == q * b + (m - 1)) by(nonlinear_arith) requires a == b * q + m;
            lemma_fundamental_div_mod_converse(a - 1, b, q, m - 1);
            assert(-a == (-q - 1) * b + (b - m)) by(nonlinear_arith) requires a == b * q + m;
            lemma_fundamental_div_mod_converse(-a, b, -q - 1, b - m);
            assert(q <= a - 1) by(nonlinear_arith) requires a == b * q + m, m >= 1, b > 0, q >= 0;
        }
    }
    if a <= 0 { let c = (-a) / b; lemma_fundamental_div_mod(-a, b); lemma_mod_bound(-a, b);
        assert(c >= 0 && c <= -a) by(nonlinear_arith) requires -a == b * c + (-a) % b, 0 <= (-a) % b < b, a <= 0; }
}
/// rounding from quotient and remainder
pub proof fn lemma_near(a: int, b: int)
    requires b > 0, a >= 0,
    ensures ndiv_pos(a, b) == (if a % b < b - b / 2 { a / b } else { a / b + 1 }), 0 <= a / b <= a, 0 <= a % b < b, a % b <= a, b >= 2 ==> 2 * (a / b) <= a, b == 1 ==> a % b == 0,
        ndiv_pos(a, b) <= a, ndiv_pos(-a, b) == -ndiv_pos(a, b),
{
    lemma_fundamental_div_mod(a, b); lemma_mod_bound(a, b);
    let q = a / b; let m = a % b;
    assert(q >= 0 && q <= a) by(nonlinear_arith) requires a == b * q + m, 0 <= m < b, a >= 0, b > 0;
    assert(m <= a) by(nonlinear_arith) requires a == b * q + m, q >= 0, b > 0;
    assert(b >= 2 ==> 2 * q <= a) by(nonlinear_arith) requires a == b * q + m, 0 <= m, q >= 0;
    let t = 2 * a + b;
    assert(t == q * (2 * b) + (2 * m + b)) by(nonlinear_arith) requires a == b * q + m, t == 2 * a + b;
    if 2 * m + b < 2 * b { lemma_fundamental_div_mod_converse(t, 2 * b, q, 2 * m + b); }
    else { assert(t == (q + 1) * (2 * b) + (2 * m - b)) by(nonlinear_arith) requires t == q * (2 * b) + (2 * m + b); lemma_fundamental_div_mod_converse(t, 2 * b, q + 1, 2 * m - b);
        if q + 1 > a { assert(b == 1 || q == 0); } }
}
pub proof fn lemma_multiple(a: int, b: int)
    requires a > 0,
    ensures cdiv(b, a) * a >= b, cdiv(b, a) * a - a < b, (cdiv(b, a) * a) % a == 0, b >= 0 ==> cdiv(b, a) >= 0, b <= 0 ==> cdiv(b, a) <= 0,
        iabs(cdiv(b, a)) <= iabs(b), iabs(cdiv(b, a)) <= iabs(cdiv(b, a) * a),
{
    let q = cdiv(b, a);
    lemma_fdiv_char(b, a); lemma_pos(b, a); lemma_pos(-b, a);
    assert(q * a - a == (q - 1) * a) by(nonlinear_arith);
    lemma_mod_multiples_basic(q, a);
    assert(b > 0 ==> q >= 0) by(nonlinear_arith) requires q * a >= b, a > 0;
    assert(b <= 0 ==> q <= 0) by(nonlinear_arith) requires (q - 1) * a < b, a > 0;
    assert(iabs(q * a) >= iabs(q)) by(nonlinear_arith) requires a > 0;
}
"""


def units():
    cs = []
    for t, c in NT.items():
        sg = t[0] == "i"
        dom = ["b != 0"] + (["b > %s::MIN" % t, "a > %s::MIN || b > 0" % t] if sg else [])
        S = "{0} ({0}, {0})".format(c)
        ent = "proof { let sa: int = if b < 0 { -(a as int) } else { a as int }; let sb: int = if b < 0 { -(b as int) } else { b as int }; lemma_pos(sa, sb); lemma_pos(-sa, sb); lemma_near(iabs(sa), sb); }"
        cs.append(Contract("div_floor_" + t, MM + "div_floor", sig=S, params=["a", "b"], requires=dom, ensures=["r as int == fdiv(a as int, b as int)"], hints={"entry": ent}))
        cs.append(Contract("div_ceil_" + t, MM + "div_ceil", sig=S, params=["a", "b"], requires=dom, ensures=["r as int == cdiv(a as int, b as int)"], hints={"entry": ent}))
        cs.append(Contract("div_round_" + t, MM + "div_round", sig=S, params=["a", "b"], requires=dom, ensures=["r as int == ndiv(a as int, b as int)"], hints={"entry": ent}))
        cs.append(Contract("multiple_" + t, MM + "multiple", sig=S, params=["a", "b"], requires=["a > 0", "%s::MIN <= cdiv(b as int, a as int) * (a as int) <= %s::MAX" % (t, t)],
                           ensures=["r >= b", "(r as int) - (a as int) < b", "(r as int) % (a as int) == 0"], hints={"entry": "proof { lemma_multiple(a as int, b as int); }"}))
        S1 = "{0} (const {0} &)".format(c); S2 = "{0} (const {0} &, const {0} &)".format(c)
        cs.append(Contract("absT_" + t, MM + "absT", sig=S1, params=["x"], requires=["x > %s::MIN" % t] if sg else [], ensures=["r as int == iabs(x as int)"]))
        cs.append(Contract("minT_" + t, MM + "minT", sig=S2, params=["x", "y"], ensures=["r <= x && r <= y", "r == x || r == y"]))
        cs.append(Contract("maxT_" + t, MM + "maxT", sig=S2, params=["x", "y"], ensures=["r >= x && r >= y", "r == x || r == y"]))
        cs.append(Contract("boundT_" + t, MM + "boundT", sig="{0} (const {0} &, const {0} &, const {0} &)".format(c), params=["x", "l", "r"], ret="res", requires=["l <= r"],
                           ensures=["l <= res && res <= r", "l <= x && x <= r ==> res == x", "x < l ==> res == l", "x > r ==> res == r"]))
    tu = "namespace altruct { namespace math {\n" + "\n".join("template {0} div_floor<{0}>({0},{0}); template {0} div_ceil<{0}>({0},{0}); template {0} div_round<{0}>({0},{0}); template {0} multiple<{0}>({0},{0}); template {0} absT<{0}>(const {0}&); template {0} minT<{0}>(const {0}&, const {0}&); template {0} maxT<{0}>(const {0}&, const {0}&); template {0} boundT<{0}>(const {0}&, const {0}&, const {0}&);".format(c) for c in NT.values()) + "\n}}\n"
    return [Unit("divs", ["altruct/algorithm/math/base.h"], tu, cs, SPEC)]

"""exponentiation by squaring for an arbitrary monoid and for machine integers (base.h)"""
from unit import Unit, Contract
import elem
NT = {"i8": "signed char", "u8": "unsigned char", "i16": "short", "u16": "unsigned short", "i32": "int", "u32": "unsigned int", "i64": "long", "u64": "unsigned long"}
MM = "altruct::math::"
SPEC = r"""
/// the n-fold product of x
pub open spec fn mpow(x: El, n: nat) -> El decreases n { if n == 0 { one() } else { op(x, mpow(x, (n - 1) as nat)) } }
pub proof fn lemma_mpow_sq(x: El, n: nat)
    ensures mpow(op(x, x), n) == mpow(x, 2 * n), decreases n,
{
    if n > 0 {
        lemma_mpow_sq(x, (n - 1) as nat);
        let t = mpow(x, (2 * n - 2) as nat);
        assert(mpow(x, (2 * n - 1) as nat) == op(x, t));
        assert(mpow(x, 2 * n) == op(x, mpow(x, (2 * n - 1) as nat)));
        ax_assoc(x, x, t);
    }
}
pub proof fn lemma_mpow_step(r: El, x: El, y: nat)
    requires y > 0,
    ensures y % 2 == 0 ==> op(r, mpow(op(x, x), y / 2)) == op(r, mpow(x, y)),
        y % 2 == 1 ==> op(op(r, x), mpow(op(x, x), y / 2)) == op(r, mpow(x, y)),
        y == 1 ==> op(op(r, x), one()) == op(r, mpow(x, y)) && y / 2 == 0 && mpow(x, 0) == one(),
        mpow(op(x, x), 0) == one(), y >= 2 ==> y / 2 > 0,
{
    lemma_mpow_sq(x, y / 2);
    if y % 2 == 1 { assert(2 * (y / 2) == y - 1); ax_assoc(r, x, mpow(x, (y - 1) as nat)); }
    if y == 1 { assert(mpow(x, 0) == one()); }
}
// ---- machine integers
pub proof fn lemma_pow_step(r: int, x: int, y: nat)
    requires y > 0,
    ensures y % 2 == 0 ==> r * pow(x * x, y / 2) == r * pow(x, y), y % 2 == 1 ==> (r * x) * pow(x * x, y / 2) == r * pow(x, y),
        y == 1 ==> (r * x) * pow(x, 0) == r * pow(x, y) && pow(x, 0) == 1 && pow(x * x, 0) == 1 && pow(x, 1) == x,
        y >= 2 ==> y / 2 > 0,
{
    let h = y / 2;
    lemma_pow1(x); lemma_pow0(x); lemma_pow0(x * x);
    lemma_pow_multiplies(x, 2, h);
    assert(pow(x, 2) == x * x) by { reveal_with_fuel(pow, 3); assert(pow(x, 2) == x * (x * 1)); }
    assert(pow(x * x, h) == pow(x, 2 * h));
    if y % 2 == 1 {
        assert(2 * h == y - 1);
        assert(pow(x, y) == x * pow(x, (y - 1) as nat)) by { reveal(pow); }
        let t = pow(x, (y - 1) as nat);
        assert((r * x) * t == r * (x * t)) by(nonlinear_arith);
        assert((r * x) * 1 == r * x);
    }
}
/// |x|^(2^k) for 2^k <= y stays below |x|^y: no intermediate value is larger than the result
pub proof fn lemma_pow_abs_mono(x: int, a: nat, b: nat)
    requires 1 <= a <= b, ensures iabs(pow(x, a)) <= iabs(pow(x, b)), decreases b,
{
    if a < b {
        lemma_pow_abs_mono(x, a, (b - 1) as nat);
        let t = pow(x, (b - 1) as nat);
        assert(pow(x, b) == x * t) by { reveal(pow); }
        if x == 0 { assert(pow(x, a) == x * pow(x, (a - 1) as nat)) by { reveal(pow); } assert(pow(x, a) == 0) by(nonlinear_arith) requires pow(x, a) == x * pow(x, (a - 1) as nat), x == 0; }
        else { assert(iabs(x * t) >= iabs(t)) by(nonlinear_arith) requires x != 0; }
    }
}
/// if r * x^y fits in a machine type then so do r * x (y odd) and x * x (y >= 2)
pub proof fn lemma_pow_fit(r: int, x: int, y: nat)
    requires y > 0, r != 0 || true,
    ensures y % 2 == 1 ==> iabs(r * x) <= iabs(r * pow(x, y)), (y >= 2 && r != 0) ==> iabs(x * x) <= iabs(r * pow(x, y)),
        (r != 0 && x != 0) ==> r * x != 0, x == 0 ==> x * x == 0 && r * x == 0, x != 0 ==> x * x != 0,
{
    assert((r != 0 && x != 0) ==> r * x != 0) by(nonlinear_arith); assert(x == 0 ==> x * x == 0 && r * x == 0) by(nonlinear_arith); assert(x != 0 ==> x * x != 0) by(nonlinear_arith);
    lemma_pow_abs_mono(x, 1, y); lemma_pow1(x);
    let p = pow(x, y);
    assert(iabs(r * x) <= iabs(r * p)) by(nonlinear_arith) requires iabs(x) <= iabs(p);
    if y >= 2 {
        lemma_pow_abs_mono(x, 2, y);
        assert(pow(x, 2) == x * x) by { reveal_with_fuel(pow, 3); assert(pow(x, 2) == x * (x * 1)); }
        if r != 0 { assert(iabs(r * p) >= iabs(p)) by(nonlinear_arith) requires r != 0; }
        if x != 0 { assert(x * x > 0) by(nonlinear_arith) requires x != 0; }
    }
}
pub proof fn lemma_mul_mod2(a: int, b: int, m: int)
    requires m > 0, ensures ((a % m) * (b % m)) % m == (a * b) % m, ((a % m) * b) % m == (a * b) % m, (a * (b % m)) % m == (a * b) % m,
{ lemma_mul_mod_noop(a, b, m); lemma_mul_mod_noop_left(a, b, m); lemma_mul_mod_noop_right(a, b, m); }
"""
XN = {"i32": "int", "i64": "long"}
UN = {"u32": "unsigned int", "u64": "unsigned long"}


def units():
    cs, tu = [], []
    for i, c in NT.items():
        cs.append(Contract("powT_El_" + i, MM + "powT", targs=["altruct::El", c], params=["x", "y"], requires=["y >= 0"] if i[0] == "i" else [],
            ensures=["r == mpow(x, y as nat)"],
            loops={0: dict(invariant=["y >= 0", "op(r, mpow(x, y as nat)) == mpow(x_0, y_0 as nat)"], decreases="y")},
            hints={"L0.before": "proof { ax_unit(mpow(x, y as nat)); }", "L0.begin": "let ghost (gr, gx, gy) = (r, x, y as nat); proof { lemma_mpow_step(r, x, y as nat); }",
                   "L0.after": "proof { ax_unit(r); }"}))
        tu.append("template El powT<El, {0}>(El, {0});".format(c))
    for t, c in {**XN, **UN}.items():
        for i in ("i32", "u64"):
            sg = t[0] == "i"
            M = 2 ** int(t[1:])
            if sg:
                inv = ["y >= 0", "r as int * pow(x as int, y as nat) == pow(x_0 as int, y_0 as nat)", "r != 0 || x == 0"]
            else:
                inv = ["y >= 0", "(r as int * pow(x as int, y as nat)) %% 0x%xint == pow(x_0 as int, y_0 as nat) %% 0x%xint" % (M, M)]
            pre = (["y >= 0"] if i[0] == "i" else []) + (["-%s::MAX <= pow(x as int, y as nat) <= %s::MAX" % (t, t)] if sg else [])
            if sg:
                begin = "proof { lemma_pow_step(r as int, x as int, y as nat); lemma_pow_fit(r as int, x as int, y as nat); if x == 0 { assert(r as int * 0 == 0 && 0 * 0 == 0); } }"
                end = ""
            else:
                m = "0x%xint" % M
                begin = ("let ghost (gr, gx, gy) = (r as int, x as int, y as nat); proof {{ lemma_pow_step(gr, gx, gy); let h = gy / 2; let xx = (gx * gx) % {m};"
                         " lemma_pow_mod_noop(gx * gx, h, {m}); lemma_mul_mod2(gr, pow(gx * gx, h), {m}); lemma_mul_mod2(gr * gx, pow(gx * gx, h), {m}); lemma_mul_mod2(gr, pow(xx, h), {m}); lemma_mul_mod2(gr * gx, pow(xx, h), {m}); lemma_mul_mod2(gr * gx, 1, {m}); lemma_pow0(gx); lemma_pow0(xx);"
                         " assert((gr * gx) * 1 == gr * gx); assert(((gr * gx) % {m}) * 1 == (gr * gx) % {m}); }}").format(m=m)
            cs.append(Contract("powT_%s_%s" % (t, i), MM + "powT", targs=[c, NT[i]], params=["x", "y"], requires=pre,
                ensures=["r as int == pow(x as int, y as nat)" if sg else "r as int == pow(x as int, y as nat) %% 0x%xint" % M],
                loops={0: dict(invariant=inv, decreases="y")},
                hints={"L0.before": "proof { lemma_pow0(x as int); assert(1 * pow(x as int, y as nat) == pow(x as int, y as nat)); }", "L0.begin": begin,
                       "L0.after": "proof { lemma_pow0(x as int); assert(r as int * 1 == r as int); }"}))
            tu.append("template {0} powT<{0}, {1}>({0}, {1});".format(c, NT[i]))
    u = Unit("powt", ["altruct/algorithm/math/base.h"], "namespace altruct { namespace math {\ntemplate<> struct identityT<El> { static El of(const El& x) { return el_one(); } };\n" + "\n".join(tu) + "\n}}\n", cs, SPEC)
    return [elem.setup(u)]

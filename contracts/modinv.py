"""modular inverse and division for all 32/64-bit integer types, and the division operators of the modulo class"""
from unit import Unit, Contract
import ntlib, gcd, modring
from modring import NT, MM

SPEC = r"""
pub open spec fn is_inv(v: int, r: int, m: int) -> bool { if gcdn(v as nat, m as nat) == 1 { (v * r) % m == 1int % m } else { r == 0 } }
pub open spec fn is_quot(x: int, y: int, q: int, m: int) -> bool { x % (gcdn(y as nat, m as nat) as int) == 0 ==> (q * y) % m == x }
pub proof fn lemma_inv(m: int, v: int, g: int, gx: int, gy: int, n: int)
    requires m > 0, res(v, m), ex_post(m, v, g, gx, gy, n), g == gcdn(m as nat, v as nat),
    ensures
        g == gcdn(v as nat, m as nat), g > 0,
        g == 1 ==> is_inv(v, if n % 2 == 0 && gy != 0 { gy + m } else { gy }, m) && res(if n % 2 == 0 && gy != 0 { gy + m } else { gy }, m),
        -m <= gy <= m, n % 2 == 0 ==> gy <= 0, n % 2 != 0 ==> gy >= 0, n % 2 == 0 && gy != 0 ==> 0 <= gy + m <= m,
{
    lemma_gcdn_sym(m as nat, v as nat);
    let _ = lemma_gcdn(v as nat, m as nat);
    if n > 0 {
        assert(iabs(gy) <= m) by(nonlinear_arith) requires iabs(gy) * g <= m, g >= 1, iabs(gy) >= 0;
    }
    if g == 1 {
        let w = if n % 2 == 0 && gy != 0 { gy + m } else { gy };
        if n > 0 { assert(2 * iabs(gy) <= m) by(nonlinear_arith) requires 2 * iabs(gy) * g <= m, g == 1; }
        assert(v * w == 1 + m * (if n % 2 == 0 && gy != 0 { v - gx } else { -gx })) by(nonlinear_arith)
            requires m * gx + v * gy == 1, w == (if n % 2 == 0 && gy != 0 { gy + m } else { gy });
        let k = if n % 2 == 0 && gy != 0 { v - gx } else { -gx };
        lemma_mod_multiples_vanish(k, 1, m);
        assert(m * k + 1 == v * w);
    }
}
pub proof fn lemma_div_exact(x: int, y: int, m: int)
    requires m > 0, res(x, m), y > 0, x % y == 0,
    ensures res(x / y, m), is_quot(x, y, x / y, m),
{
    lemma_fundamental_div_mod(x, y);
    let q = x / y;
    assert(q >= 0 && q <= x) by(nonlinear_arith) requires x == y * q, x >= 0, y > 0;
    assert(q * y == x) by(nonlinear_arith) requires x == y * q;
    lemma_small_mod(x as nat, m as nat);
}
pub proof fn lemma_div_inv(x: int, y: int, yi: int, m: int)
    requires m > 0, res(x, m), res(y, m), res(yi, m), is_inv(y, yi, m), yi != 0,
    ensures is_quot(x, y, (x * yi) % m, m),
{
    assert(gcdn(y as nat, m as nat) == 1);
    lemma_mul_mod_noop_left(x * yi, y, m);
    assert((x * yi) * y == x * (y * yi)) by(nonlinear_arith);
    lemma_mul_mod_noop_right(x, y * yi, m);
    lemma_mul_mod_noop_right(x, 1, m);
    assert(x * 1 == x);
    lemma_small_mod(x as nat, m as nat);
}
pub proof fn lemma_div_gcd(x: int, y: int, m: int)
    requires m > 0, res(x, m), res(y, m),
    ensures ({
        let d = gcdn(gcdn(x as nat, y as nat), m as nat) as int;
        &&& d > 0 && m / d > 0 && res(y / d, m / d) && 0 <= x / d <= x && x / d < m && m / d <= m && y / d <= y && d <= m
        &&& forall|w: int| res(w, m / d) && is_inv(y / d, w, m / d) ==> is_quot(x, y, (#[trigger] (x / d * w)) % m, m)
    }),
{
    let e = gcdn(x as nat, y as nat);
    let d = gcdn(e, m as nat) as int;
    let _ = lemma_gcdn(x as nat, y as nat);
    let _ = lemma_gcdn(e, m as nat);
    lemma_divides_trans(d, e as int, x); lemma_divides_trans(d, e as int, y);
    lemma_divides_div(d, x); lemma_divides_div(d, y); lemma_divides_div(d, m);
    lemma_divides_le(d, m);
    let (xd, yd, md) = (x / d, y / d, m / d);
    assert(md > 0) by(nonlinear_arith) requires m == d * md, m > 0, d > 0;
    assert(yd >= 0 && yd < md) by(nonlinear_arith) requires y == d * yd, m == d * md, 0 <= y < m, d > 0;
    assert(xd >= 0 && xd <= x) by(nonlinear_arith) requires x == d * xd, x >= 0, d > 0;
    assert(md <= m) by(nonlinear_arith) requires m == d * md, md > 0, d > 0;
    assert(yd <= y) by(nonlinear_arith) requires y == d * yd, yd >= 0, d > 0;
    assert forall|w: int| res(w, md) && is_inv(yd, w, md) implies is_quot(x, y, (#[trigger] (xd * w)) % m, m) by {
        let g = gcdn(y as nat, m as nat);
        if x % (g as int) == 0 {
            let _ = lemma_gcdn(y as nat, m as nat);
            lemma_mod0_divides(g as int, x);
            // g divides x, y and m, hence d; d divides y and m, hence g
            lemma_gcdn_greatest(g as int, x as nat, y as nat);
            lemma_gcdn_greatest(g as int, e, m as nat);
            lemma_gcdn_greatest(d, y as nat, m as nat);
            lemma_divides_antisym(g as int, d);
            assert(d * yd >= 0 && d * md >= 0);
            lemma_gcdn_scale(d as nat, yd as nat, md as nat);
            let gg = gcdn(yd as nat, md as nat);
            assert(gg == 1) by(nonlinear_arith) requires d == d * gg, d > 0;
            assert((yd * w) % md == 1int % md);
            lemma_fundamental_div_mod(yd * w, md);
            lemma_fundamental_div_mod(1, md);
            let k = (yd * w) / md - 1int / md;
            assert(yd * w == md * k + 1) by(nonlinear_arith) requires yd * w == md * ((yd * w) / md) + (yd * w) % md, 1 == md * (1int / md) + 1int % md,
                (yd * w) % md == 1int % md, k == (yd * w) / md - 1int / md;
            assert(xd * w * y == (xd * d) * (yd * w)) by(nonlinear_arith) requires y == d * yd;
            assert((xd * d) * (yd * w) == (xd * d) * (md * k) + xd * d) by(nonlinear_arith) requires yd * w == md * k + 1;
            assert((xd * d) * (md * k) == xd * k * m) by(nonlinear_arith) requires m == d * md;
            assert(xd * d == x) by(nonlinear_arith) requires x == d * xd;
            assert(xd * w * y == xd * k * m + x);
            lemma_mul_mod_noop_left(xd * w, y, m);
            lemma_mod_multiples_vanish(xd * k, x, m);
            assert(m * (xd * k) == xd * k * m) by(nonlinear_arith);
            lemma_small_mod(x as nat, m as nat);
        }
    }
}
/// a vanishing inverse of a unit means the modulus is one
pub proof fn lemma_gex(a: int, b: int, g: int, gx: int, gy: int, n: int)
    requires a > 0, b > 0, ex_post(a, b, g, gx, gy, n), g == gcdn(a as nat, b as nat),
    ensures ({
        let u = if n % 2 == 1 && gx != 0 { gx + b } else { gx };
        let v = if n % 2 == 0 && gy != 0 { gy + a } else { gy };
        &&& 0 <= u <= b && 0 <= v <= a && (a * u - g) % b == 0 && (b * v - g) % a == 0 && g > 0
        &&& -b <= gx <= b && -a <= gy <= a && (a * u + b * v == g || a * u + b * v == g + a * b) && (v == a ==> a == 1) && (u == b ==> b == 1) }),
{
    let _ = lemma_gcdn(a as nat, b as nat);
    assert(iabs(gx) <= b) by(nonlinear_arith) requires iabs(gx) * g <= b, g >= 1, iabs(gx) >= 0;
    assert(iabs(gy) <= a) by(nonlinear_arith) requires iabs(gy) * g <= a, g >= 1, iabs(gy) >= 0;
    let u = if n % 2 == 1 && gx != 0 { gx + b } else { gx };
    let v = if n % 2 == 0 && gy != 0 { gy + a } else { gy };
    let k = if n % 2 == 1 && gx != 0 { a - gy } else { -gy };
    let l = if n % 2 == 0 && gy != 0 { b - gx } else { -gx };
    assert(a * u - g == b * k) by(nonlinear_arith) requires a * gx + b * gy == g, u == gx && k == -gy || u == gx + b && k == a - gy;
    assert(b * v - g == a * l) by(nonlinear_arith) requires a * gx + b * gy == g, v == gy && l == -gx || v == gy + a && l == b - gx;
    assert(a * u + b * v == g || a * u + b * v == g + a * b) by(nonlinear_arith) requires a * gx + b * gy == g, (u == gx && v == gy) || (u == gx + b && v == gy) || (u == gx && v == gy + a);
    if v == a { assert(g == 1) by(nonlinear_arith) requires iabs(gy) * g <= a, iabs(gy) == a, a > 0, g >= 1; assert(a == 1) by(nonlinear_arith) requires a * gx + b * gy == g, gy == a, g == 1, a > 0; }
    if u == b { assert(g == 1) by(nonlinear_arith) requires iabs(gx) * g <= b, iabs(gx) == b, b > 0, g >= 1; assert(b == 1) by(nonlinear_arith) requires a * gx + b * gy == g, gx == b, g == 1, b > 0; }
    lemma_mod_multiples_basic(k, b); lemma_mod_multiples_basic(l, a);
    assert(b * k == k * b && a * l == l * a) by(nonlinear_arith);
}
"""


def tu():
    o = []
    for t, c in NT.items():
        o.append("{0} w_inv({0} x, {0} M) {{ return modulo_inv<{0}>(x, M); }}".format(c))
        o.append("{0} w_div({0} x, {0} y, {0} M) {{ return modulo_div<{0}>(x, y, M); }}".format(c))
        o.append("{0} w_gex({0} x, {0} M, {0}& a, {0}& b) {{ return modulo_gcd_ex<{0}>(x, M, a, b); }}".format(c))
    for t, i, st in modring.CLASSES:
        R = "modulo<%s,%d,%d>" % (NT[t], i, st)
        n = "_%s_%d" % (t, st)
        o.append("inline {R} w_cdiv{n}({R} a, {R} b) {{ return a / b; }} inline {R} w_cinv{n}({R} a) {{ return a.inv(); }} inline void w_cself{n}({R}& a) {{ a /= a; }}".format(R=R, n=n))
    return "#include <type_traits>\nnamespace altruct { namespace math {\n%s\n}}\n" % "\n".join(o)


def contracts(types=NT):
    cs = []
    for t, c in types.items():
        rv = ["M > 0", "res(v as int, M as int)"]
        chz = "let ghost (gx, gy, gn): (int, int, int);" 
        rep = "&& rep_%s(vi, gy)" % t
        uns = t[0] == "u"
        cs.append(Contract("modulo_inv_int_" + t, MM + "modulo_inv_int", sig="{0} ({0}, {0})".format(c), params=["v", "M"], requires=rv,
            ensures=["res(r as int, M as int)", "is_inv(v as int, r as int, M as int)"],
            hints={"use:gcd_ex.after": "let ghost (gx, gy): (int, int) = choose|gx: int, gy: int| #[trigger] ex_post(M as int, v as int, g as int, gx, gy, s as int) %s;\n"
                   "proof { lemma_inv(M as int, v as int, g as int, gx, gy, s as int); %s }" % (rep, ("lemma_rep_%s(vi, gy);" % t) if uns else "")}))
        pi = ["res(r as int, M as int)", "is_inv(v as int, r as int, M as int)"]
        cs.append(Contract("modulo_inv_" + t, MM + "modulo_inv", sig="{0} ({0}, {0})".format(c), params=["v", "M"], requires=rv, ensures=pi))
        pd = ["res(r as int, M as int)", "is_quot(x as int, y as int, r as int, M as int)"]
        rd = ["M > 0", "res(x as int, M as int)", "res(y as int, M as int)"]
        cs.append(Contract("modulo_div_int_" + t, MM + "modulo_div_int", sig="{0} ({0}, {0}, {0})".format(c), params=["x", "y", "M"], requires=rd, ensures=pd,
            hints={"entry": "proof { if y != 0 && (x as int) % (y as int) == 0 { lemma_div_exact(x as int, y as int, M as int); } lemma_div_gcd(x as int, y as int, M as int); "
                            "assert(x >= 0 && y > 0 ==> trem(x as int, y as int) == (x as int) % (y as int) && tdiv(x as int, y as int) == (x as int) / (y as int)); }",
                   "use:modulo_inv_int#1.after": "proof { if yi != 0 { lemma_div_inv(x as int, y as int, yi as int, M as int); } }"}))
        cs.append(Contract("modulo_div_" + t, MM + "modulo_div", sig="{0} ({0}, {0}, {0})".format(c), params=["x", "y", "M"], requires=rd, ensures=pd))
        pg = ["r == gcdn(n1 as nat, n2 as nat)", "0 <= *final(ni1) <= n2 && 0 <= *final(ni2) <= n1",
              "(n1 as int * *final(ni1) as int - r as int) % (n2 as int) == 0", "(n2 as int * *final(ni2) as int - r as int) % (n1 as int) == 0",
              "n1 as int * *final(ni1) as int + n2 as int * *final(ni2) as int == r || n1 as int * *final(ni1) as int + n2 as int * *final(ni2) as int == r + n1 as int * n2 as int", "*final(ni2) == n1 ==> n1 == 1", "*final(ni1) == n2 ==> n2 == 1"]
        sg = "{0} ({0}, {0}, {0} &, {0} &)".format(c)
        cs.append(Contract("modulo_gcd_ex_int_" + t, MM + "modulo_gcd_ex_int", sig=sg, params=["n1", "n2", "ni1", "ni2"], requires=["n1 > 0 && n2 > 0"], ensures=pg,
            hints={"use:gcd_ex.after": "let ghost (gx, gy): (int, int) = choose|gx: int, gy: int| #[trigger] ex_post(n1 as int, n2 as int, g as int, gx, gy, s as int) && rep_%s(*ni1, gx) && rep_%s(*ni2, gy);\n"
                   "proof { lemma_gex(n1 as int, n2 as int, g as int, gx, gy, s as int); %s }" % (t, t, ("lemma_rep_%s(*ni1, gx); lemma_rep_%s(*ni2, gy);" % (t, t)) if uns else "")}))
        cs.append(Contract("modulo_gcd_ex_" + t, MM + "modulo_gcd_ex", sig=sg, params=["n1", "n2", "ni1", "ni2"], requires=["n1 > 0 && n2 > 0"], ensures=pg))
    return cs


def cls_contracts(classes=modring.CLASSES):
    cs = []
    for t, i, st in classes:
        q = modring.cls(t, i, st)
        n = "_%s_%d" % (t, st)
        M = lambda x: {0: "(%s.f_M as int)" % x, 1: "(glob_M as int)", 2: "%dint" % i}[st]
        ex = ["glob_M: " + t] if st == 1 else []
        ok = lambda x, mx=None: "%s > 0 && res(%s.v as int, %s)" % (M(mx or x), x, M(mx or x))
        sameM = (lambda a, b: "%s.f_M == %s.f_M" % (a, b)) if st == 0 else (lambda a, b: "true")
        cs.append(Contract("cls_div" + n, q + "::operator/=", params=["rhs"], extra=ex, requires=[ok("old(self_)"), ok("rhs", "old(self_)")],
                  ensures=[ok("final(self_)"), sameM("final(self_)", "old(self_)"), "is_quot(old(self_).v as int, rhs.v as int, final(self_).v as int, %s)" % M("old(self_)")]))
        cs.append(Contract("cls_opdiv" + n, q + "::operator/", params=["rhs"], extra=ex, requires=[ok("self_"), ok("rhs", "self_")],
                  ensures=[ok("r"), sameM("r", "self_"), "is_quot(self_.v as int, rhs.v as int, r.v as int, %s)" % M("self_")]))
        cs.append(Contract("cls_inv" + n, q + "::inv", params=[], extra=ex, requires=[ok("self_")],
                  ensures=[ok("r"), sameM("r", "self_"), "is_inv(self_.v as int, r.v as int, %s)" % M("self_")]))
        cs.append(Contract("cls_selfdiv" + n, MM + "w_cself" + n, params=["a"], extra=ex, requires=[ok("old(a)")],
                  ensures=[ok("final(a)"), sameM("final(a)", "old(a)"), "is_quot(old(a).v as int, old(a).v as int, final(a).v as int, %s)" % M("old(a)")]))
    return cs


def units():
    inc = ["altruct/structure/math/modulo.h"]
    g = [c for c in gcd.contracts(NT, ["nys", "xys"]) if not c.rust.startswith(("lcm", "gcd_max"))]
    u = Unit("modinv", inc, gcd.tu() + modring.tu(NT) + tu(), modring.free(NT, NT) + g + contracts() + cls_contracts(), gcd.spec() + modring.SPEC + modring.SPEC2 + SPEC)
    u.globals["_M"] = "glob_M"
    u.type_alias.append((r"\bmodulo<([^<>,]+), (\d+)>", r"modulo<\1, \2, 1>"))
    return [u]

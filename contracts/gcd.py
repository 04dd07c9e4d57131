"""gcd, gcd_ex, lcm, gcd_max for all standard 32/64-bit integer types"""
from unit import Unit, Contract
import ntlib

NT = {"i32": "int", "u32": "unsigned int", "i64": "long", "u64": "unsigned long"}
MAX = {"i32": 2 ** 31, "u32": 2 ** 32, "i64": 2 ** 63, "u64": 2 ** 64}
TU = """
namespace altruct { namespace math {
%s
}}
"""


def tu(types=NT):
    o = []
    for t in types:
        c = NT[t]
        o.append("template {0} gcd<{0}>({0},{0});".format(c))
        o.append("template {0} lcm<{0}>(const {0}&,const {0}&);".format(c))
        o.append("template {0} gcd_max<{0}>({0},{0});".format(c))
        o.append("template {0} gcd_ex<{0}>(const {0}&,const {0}&,{0}*,{0}*,int*);".format(c))
    return TU % "\n".join(o)


TREM = r"""
pub proof fn lemma_trem_gcd(a: int, b: int)
    requires a != 0,
    ensures gcdn(iabs(trem(b, a)) as nat, iabs(a) as nat) == gcdn(iabs(a) as nat, iabs(b) as nat),
        iabs(trem(b, a)) < iabs(a),
        (a > 0 && b >= 0) ==> trem(b, a) >= 0,
{
    let ua = iabs(a);
    assert(iabs(trem(b, a)) == iabs(b) % ua);
    lemma_mod_bound(iabs(b), ua);
}
"""
SPEC = ntlib.DIV + TREM + r"""

pub open spec fn max1(b: int) -> int { if b < 1 { 1 } else { b } }
/// the state of the extended Euclidean algorithm after n steps, as mathematical integers
pub open spec fn ex_inv(a: int, b: int, g: int, h: int, xn: int, xo: int, yn: int, yo: int, n: int) -> bool {
    &&& a >= 0 && b >= 0 && g >= 0 && h >= 0 && n >= 0
    &&& gcdn(h as nat, g as nat) == gcdn(b as nat, a as nat)
    &&& a * xn + b * yn == g && a * xo + b * yo == h
    &&& g * iabs(xo) + h * iabs(xn) == b && g * iabs(yo) + h * iabs(yn) == a
    &&& (n % 2 == 0 ==> xn >= 0 && xo <= 0 && yn <= 0 && yo >= 0)
    &&& (n % 2 == 1 ==> xn <= 0 && xo >= 0 && yn >= 0 && yo <= 0)
    &&& (n == 0 ==> g == a && h == b && xn == 1 && yn == 0 && xo == 0 && yo == 1)
    &&& (n > 0 ==> g > h && b > 0)
    &&& (n > 0 && h == 0 && a > 0 ==> iabs(xn) * g <= b && iabs(yn) * g <= a)
    &&& (n > 0 && h == 0 && a > b ==> 2 * iabs(xn) * g <= b && 2 * iabs(yn) * g <= a)
    &&& iabs(xn) <= max1(b) && iabs(xo) <= max1(b) && iabs(yn) <= max1(a) && iabs(yo) <= max1(a)
    &&& pow2(n as nat) * (g * h) <= 2 * (a * b)
}
pub open spec fn ex_post(a: int, b: int, g: int, x: int, y: int, n: int) -> bool {
    &&& a * x + b * y == g && n >= 0
    &&& (n % 2 == 0 ==> x >= 0 && y <= 0)
    &&& (n % 2 == 1 ==> x <= 0 && y >= 0)
    &&& (n == 0 ==> b == 0 && x == 1 && y == 0 && g == a)
    &&& (n > 0 ==> b > 0 && (a > 0 ==> iabs(x) * g <= b && iabs(y) * g <= a))
    &&& (n > 0 && a > b ==> 2 * iabs(x) * g <= b && 2 * iabs(y) * g <= a)
}
pub proof fn lemma_lin(g: int, h: int, q: int, r: int, xo: int, xn: int, B: int)
    requires g == q * h + r, 0 <= r < h, q >= 0, g * iabs(xo) + h * iabs(xn) == B,
        (xn >= 0 && xo <= 0) || (xn <= 0 && xo >= 0),
    ensures h * iabs(xn - q * xo) + r * iabs(xo) == B, iabs(xn - q * xo) <= B, iabs(q * xo) <= B,
        (xo <= 0 && xn >= 0 ==> xn - q * xo >= 0), (xo >= 0 && xn <= 0 ==> xn - q * xo <= 0), q * h * iabs(xo) <= B,
        q * h <= g,
{
    assert(iabs(xn - q * xo) == iabs(xn) + q * iabs(xo) && iabs(q * xo) == q * iabs(xo)) by(nonlinear_arith)
        requires q >= 0, (xn >= 0 && xo <= 0) || (xn <= 0 && xo >= 0);
    assert(q * iabs(xo) >= 0) by(nonlinear_arith) requires q >= 0;
    assert(xo <= 0 ==> q * xo <= 0) by(nonlinear_arith) requires q >= 0;
    assert(xo >= 0 ==> q * xo >= 0) by(nonlinear_arith) requires q >= 0;
    let z = iabs(xn) + q * iabs(xo);
    assert(h * z + r * iabs(xo) == (q * h + r) * iabs(xo) + h * iabs(xn)) by(nonlinear_arith) requires z == iabs(xn) + q * iabs(xo);
    assert(r * iabs(xo) >= 0) by(nonlinear_arith) requires r >= 0;
    assert(h * z >= z) by(nonlinear_arith) requires h >= 1, z >= 0;
    assert(q * h * iabs(xo) <= g * iabs(xo)) by(nonlinear_arith) requires g == q * h + r, r >= 0;
    assert(h * iabs(xn) >= 0) by(nonlinear_arith) requires h >= 0;
}
pub proof fn lemma_ex_bound(a: int, b: int, g: int, h: int, n: int)
    requires a >= 0, b >= 0, a < 0x1_0000_0000_0000_0000, b < 0x1_0000_0000_0000_0000, (g >= 1 || n == 0), h >= 1, n >= 0,
        pow2(n as nat) * (g * h) <= 2 * (a * b),
    ensures n < 130,
{
    if n == 0 { return; }
    assert(g * h >= 1) by(nonlinear_arith) requires g >= 1, h >= 1;
    lemma_pow2_pos(n as nat);
    assert(pow2(n as nat) * (g * h) >= pow2(n as nat)) by(nonlinear_arith) requires g * h >= 1, pow2(n as nat) > 0;
    assert(a * b <= 0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000) by(nonlinear_arith)
        requires 0 <= a < 0x1_0000_0000_0000_0000, 0 <= b < 0x1_0000_0000_0000_0000;
    if n >= 130 {
        lemma_pow2_adds(65, 65);
        lemma2_to64();
        lemma_pow2_adds(64, 1);
        if n > 130 { lemma_pow2_strictly_increases(130, n as nat); }
        assert(pow2(130) == pow2(65) * pow2(65));
        assert(false) by(nonlinear_arith) requires pow2(65) == 0x2_0000_0000_0000_0000, pow2(130) == pow2(65) * pow2(65),
            pow2(n as nat) >= pow2(130), pow2(n as nat) <= 2 * (0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000);
    }
}
pub proof fn lemma_ex_step(a: int, b: int, g: int, h: int, xn: int, xo: int, yn: int, yo: int, n: int)
    requires ex_inv(a, b, g, h, xn, xo, yn, yo, n), h != 0,
    ensures ({ let q = g / h;
        &&& ex_inv(a, b, h, g - q * h, xo, xn - q * xo, yo, yn - q * yo, n + 1)
        &&& 0 <= q * h <= g && 0 <= g - q * h < h && g - q * h == g % h && 0 <= q <= g
        &&& iabs(q * xo) <= b && iabs(q * yo) <= a && iabs(xn - q * xo) <= b && iabs(yn - q * yo) <= a
        &&& n + 1 >= 0 })
{
    let q = g / h; let r = g % h;
    lemma_div_mod_id(g, h);
    assert(g == q * h + r) by(nonlinear_arith) requires g == h * q + r;
    assert(q >= 0) by { lemma_div_pos_is_pos(g, h); }
    assert(q <= g) by(nonlinear_arith) requires g == q * h + r, h >= 1, r >= 0, q >= 0;
    assert(q * h >= 0) by(nonlinear_arith) requires q >= 0, h >= 0;
    lemma_lin(g, h, q, r, xo, xn, b);
    lemma_lin(g, h, q, r, yo, yn, a);
    assert(a * (xn - q * xo) + b * (yn - q * yo) == g - q * h) by(nonlinear_arith)
        requires a * xn + b * yn == g, a * xo + b * yo == h;
    assert(gcdn(r as nat, h as nat) == gcdn(h as nat, g as nat));
    if r == 0 && a > 0 {
        assert(iabs(xo) * h <= b && iabs(yo) * h <= a) by {
            if q >= 1 {
                assert(q * h * iabs(xo) >= iabs(xo) * h) by(nonlinear_arith) requires q >= 1, h >= 0;
                assert(q * h * iabs(yo) >= iabs(yo) * h) by(nonlinear_arith) requires q >= 1, h >= 0;
            } else {
                assert(q == 0);
                assert(q * h == 0) by(nonlinear_arith) requires q == 0;
                assert(n == 0);
                assert(iabs(xo) * h == 0) by(nonlinear_arith) requires iabs(xo) == 0;
                assert(g == 0 && a == 0);
            }
        }
    }
    if r == 0 && a > b {
        assert(g > h);
        assert(q >= 2) by(nonlinear_arith) requires g == q * h, g > h, h >= 1;
        assert(q * h * iabs(xo) >= 2 * iabs(xo) * h) by(nonlinear_arith) requires q >= 2, h >= 0;
        assert(q * h * iabs(yo) >= 2 * iabs(yo) * h) by(nonlinear_arith) requires q >= 2, h >= 0;
    }
    // number of steps
    lemma_pow2_unfold((n + 1) as nat);
    let p = pow2(n as nat) as int;
    lemma_pow2_pos(n as nat);
    if n == 0 {
        assert(h * r <= g * h) by(nonlinear_arith) requires 0 <= r, r <= g, h >= 0;
        lemma2_to64();
        assert(pow2((n + 1) as nat) == 2);
        assert(1 * (g * h) == g * h);
    } else {
        assert(q >= 1) by(nonlinear_arith) requires g == q * h + r, g > h, r < h, h >= 1, q >= 0;
        assert(2 * (h * r) <= g * h) by(nonlinear_arith) requires g == q * h + r, q >= 1, 0 <= r < h;
        assert(2 * p * (h * r) <= p * (g * h)) by(nonlinear_arith) requires 2 * (h * r) <= g * h, p >= 0;
        assert(pow2((n + 1) as nat) * (h * r) == 2 * p * (h * r)) by(nonlinear_arith) requires pow2((n + 1) as nat) == 2 * p;
    }
}
pub proof fn lemma_ex_init(a: int, b: int)
    requires a >= 0, b >= 0,
    ensures ex_inv(a, b, a, b, 1, 0, 0, 1, 0),
{
    lemma_gcdn_sym(a as nat, b as nat);
    assert(a * 1 + b * 0 == a && a * 0 + b * 1 == b && a * 0 + b * 1 == b && a * 1 + b * 0 == a);
    lemma2_to64();
    assert(pow2(0) * (a * b) == a * b) by(nonlinear_arith) requires pow2(0) == 1;
    assert(a * b >= 0) by(nonlinear_arith) requires a >= 0, b >= 0;
}
pub proof fn lemma_ex_fin(a: int, b: int, g: int, xn: int, xo: int, yn: int, yo: int, n: int)
    requires ex_inv(a, b, g, 0, xn, xo, yn, yo, n),
    ensures ex_post(a, b, g, xn, yn, n), g == gcdn(a as nat, b as nat),
{
    lemma_gcdn_sym(a as nat, b as nat);
}
/// modular sub-multiplication of representatives
pub proof fn lemma_wrap_mul_sub(m: int, q: int, x: int, xr: int, y: int, yr: int)
    requires m > 0, xr == x % m, yr == y % m,
    ensures (yr - (q * xr) % m) % m == (y - q * x) % m,
{
    lemma_mul_mod_noop_right(q, x, m);
    lemma_sub_mod_noop(y, q * x, m);
    assert((q * xr) % m == (q * x) % m);
}
"""


def reps():
    o = []
    for t in NT:
        if t[0] == "i":
            o.append("pub open spec fn rep_%s(v: %s, x: int) -> bool { v as int == x }" % (t, t))
        else:
            o.append("pub open spec fn rep_%s(v: %s, x: int) -> bool { v as int == x %% 0x%xint && -0x%xint < x && x < 0x%xint }" % (t, t, MAX[t], MAX[t], MAX[t]))
            o.append("""pub proof fn lemma_rep_{t}(v: {t}, x: int)
    requires rep_{t}(v, x),
    ensures x >= 0 ==> v as int == x, x < 0 ==> v as int == x + 0x{m:x}int,
{{ if x < 0 {{ lemma_mod_add_multiples_vanish(x, 0x{m:x}int); lemma_small_mod((x + 0x{m:x}int) as nat, 0x{m:x}nat); }} else {{ lemma_small_mod(x as nat, 0x{m:x}nat); }} }}""".format(t=t, m=MAX[t]))
    return "\n".join(o)


def gcd_contract(t):
    c = NT[t]
    sgn = t[0] == "i"
    req = ["a > %s::MIN && b > %s::MIN" % (t, t)] if sgn else []
    return Contract(
        "gcd_" + t, "altruct::math::gcd", sig="%s (%s, %s)" % (c, c, c), params=["a", "b"],
        requires=req,
        ensures=["iabs(r as int) == gcdn(iabs(a as int) as nat, iabs(b as int) as nat)", "(a >= 0 && b >= 0) ==> r >= 0"],
        loops={0: dict(invariant=(["a > %s::MIN && b > %s::MIN" % (t, t)] if sgn else []) + [
            "gcdn(iabs(a as int) as nat, iabs(b as int) as nat) == gcdn(iabs(a_0 as int) as nat, iabs(b_0 as int) as nat)",
            "(a_0 >= 0 && b_0 >= 0) ==> (a >= 0 && b >= 0)", "e0 == 0"],
            decreases="iabs(a as int)")},
        hints={"L0.begin": "proof { lemma_trem_gcd(a as int, b as int); }"})


def gcd_ex_contract(t, v):
    """v: three letters, x|n y|n s|n: which out pointers are non-null"""
    c = NT[t]
    sgn = t[0] == "i"
    X, Y, S = v[0] == "x", v[1] == "y", v[2] == "s"
    inv = ["ex_inv(a as int, b as int, g as int, h as int, gxn, gxo, gyn, gyo, i as int)", "e0 == 0"]
    if X:
        inv.append("rep_%s(xn, gxn) && rep_%s(xo, gxo)" % (t, t))
    if Y:
        inv.append("rep_%s(yn, gyn) && rep_%s(yo, gyo)" % (t, t))
    ex = ["ex_post(a as int, b as int, r as int, gx, gy, gn)"]
    if X:
        ex.append("rep_%s(*final(x), gx)" % t)
    if Y:
        ex.append("rep_%s(*final(y), gy)" % t)
    if S:
        ex.append("*final(s) == gn")
    beg = """let ghost oxn = gxn; let ghost oxo = gxo; let ghost oyn = gyn; let ghost oyo = gyo; let ghost qq = g as int / h as int;
    let ghost og = g as int; let ghost oh = h as int;
    proof { lemma_ex_step(a as int, b as int, g as int, h as int, gxn, gxo, gyn, gyo, i as int);
      lemma_ex_bound(a as int, b as int, g as int, h as int, i as int);
      gxn = oxo; gxo = oxn - qq * oxo; gyn = oyo; gyo = oyn - qq * oyo;
      %s
    }"""
    extra = ""
    if not sgn:
        for nm, on in ((("x", X), ("y", Y))):
            if on:
                extra += "lemma_wrap_mul_sub(0x{m:x}int, qq, o{n}o, {n}o as int, o{n}n, {n}n as int);\n".format(m=MAX[t], n=nm)
    return Contract(
        "gcd_ex_%s_%s" % (t, v), "altruct::math::gcd_ex", sig="{0} (const {0} &, const {0} &, {0} *, {0} *, int *)".format(c),
        params=["a", "b", "x", "y", "s"],
        modes={"x": "out" if X else "null", "y": "out" if Y else "null", "s": "out" if S else "null"},
        requires=["a >= 0 && b >= 0"],
        ensures=["r == gcdn(a as nat, b as nat)",
                 "exists|gx: int, gy: int, gn: int| #[trigger] ex_post(a as int, b as int, r as int, gx, gy, gn)" +
                 "".join(" && " + e for e in ex[1:])],
        loops={0: dict(invariant=inv, decreases="h")},
        hints={"L0.before": "let ghost mut gxn: int = 1; let ghost mut gxo: int = 0; let ghost mut gyn: int = 0; let ghost mut gyo: int = 1;\n"
               "proof { lemma_ex_init(a as int, b as int); }",
               "L0.begin": beg % extra,
               "L0.after": "proof { lemma_ex_fin(a as int, b as int, g as int, gxn, gxo, gyn, gyo, i as int); }",
               "exit": "assert(ex_post(a as int, b as int, g as int, gxn, gyn, i as int));"})


def lcm_contract(t):
    c = NT[t]
    return Contract(
        "lcm_" + t, "altruct::math::lcm", sig="{0} (const {0} &, const {0} &)".format(c), params=["a", "b"],
        requires=["a != 0 || b != 0", "iabs(a as int) * (iabs(b as int) / gcdn(iabs(a as int) as nat, iabs(b as int) as nat) as int) < 0x%xint" % MAX[t]]
        + (["a > %s::MIN && b > %s::MIN" % (t, t)] if t[0] == "i" else []),
        ensures=["iabs(r as int) * gcdn(iabs(a as int) as nat, iabs(b as int) as nat) == iabs(a as int) * iabs(b as int)",
                 "divides(a as int, r as int) && divides(b as int, r as int)",
                 "(a >= 0 && b >= 0) ==> r >= 0"],
        hints={"entry": "proof { lemma_lcm(a as int, b as int); }"})


LCM = r"""
pub proof fn lemma_lcm(a: int, b: int)
    requires a != 0 || b != 0,
    ensures ({ let g = gcdn(iabs(a) as nat, iabs(b) as nat) as int;
        &&& g > 0
        &&& forall|x: int| iabs(x) == g ==> ({
            let l = a * #[trigger] tdiv(b, x);
            &&& iabs(l) == iabs(a) * (iabs(b) / g)
            &&& iabs(l) * g == iabs(a) * iabs(b)
            &&& divides(a, l) && divides(b, l)
            &&& (a >= 0 && b >= 0 && x >= 0 ==> l >= 0)
        })
        &&& (a >= 0 && b >= 0 ==> b / g == tdiv(b, g)) }),
{
    let (ua, ub) = (iabs(a), iabs(b));
    let g = gcdn(ua as nat, ub as nat) as int;
    let _ = lemma_gcdn(ua as nat, ub as nat);
    lemma_divides_div(g, ub); lemma_divides_div(g, ua);
    assert forall|x: int| iabs(x) == g implies ({
            let l = a * #[trigger] tdiv(b, x);
            &&& iabs(l) == iabs(a) * (iabs(b) / g)
            &&& iabs(l) * g == iabs(a) * iabs(b)
            &&& divides(a, l) && divides(b, l)
            &&& (a >= 0 && b >= 0 && x >= 0 ==> l >= 0)
        }) by {
        let t = tdiv(b, x);
        let l = a * t;
        assert(iabs(t) == ub / g);
        assert(iabs(l) == iabs(a) * iabs(t)) by(nonlinear_arith) requires l == a * t;
        assert(iabs(l) * g == ua * ub) by(nonlinear_arith) requires iabs(l) == ua * (ub / g), ub == g * (ub / g);
        assert(divides(a, l));
        // l = +- (ua/g) * ub
        let k = ua / g;
        assert(iabs(l) == k * ub) by(nonlinear_arith) requires iabs(l) == ua * (ub / g), ub == g * (ub / g), ua == g * k;
        if (l >= 0) == (b >= 0) { assert(l == b * k) by(nonlinear_arith) requires iabs(l) == k * ub, ub == iabs(b), (l >= 0) == (b >= 0), k * ub >= 0; }
        else { assert(l == b * (-k)) by(nonlinear_arith) requires iabs(l) == k * ub, ub == iabs(b), (l >= 0) != (b >= 0), k * ub >= 0; }
        assert(a >= 0 && t >= 0 ==> l >= 0) by(nonlinear_arith) requires l == a * t;
    }
}
"""

GCDMAX = r"""
pub open spec fn gmax_post(a: int, b: int, g: int) -> bool {
    g > 0 && divides(g, b) && gcdn(a as nat, (b / g) as nat) == 1 && exists|k: nat| #[trigger] divides(g, pow(a, k))
}
pub proof fn lemma_gmax_step(a: int, b: int, g: int, h: int)
    requires a > 0, b > 0, g > 0, divides(g, b), h == gcdn((g * a) as nat, b as nat), exists|k: nat| #[trigger] divides(g, pow(a, k)),
    ensures h > 0, divides(h, b), h >= g, h <= b, exists|k: nat| #[trigger] divides(h, pow(a, k)),
        h == g ==> gcdn(a as nat, (b / g) as nat) == 1,
{
    assert(g * a > 0) by(nonlinear_arith) requires g > 0, a > 0;
    let _ = lemma_gcdn((g * a) as nat, b as nat);
    assert(divides(g, g * a));
    lemma_gcdn_greatest(g, (g * a) as nat, b as nat);
    lemma_divides_le(g, h); lemma_divides_le(h, b);
    let k = choose|k: nat| #[trigger] divides(g, pow(a, k));
    let m = choose|m: int| pow(a, k) == #[trigger] (g * m);
    reveal(pow);
    assert(pow(a, (k + 1) as nat) == a * pow(a, k));
    assert(pow(a, (k + 1) as nat) == (g * a) * m) by(nonlinear_arith) requires pow(a, (k + 1) as nat) == a * pow(a, k), pow(a, k) == g * m;
    lemma_divides_trans(h, g * a, pow(a, (k + 1) as nat));
    if h == g {
        lemma_divides_div(g, b);
        let c = b / g;
        assert(c >= 0) by(nonlinear_arith) requires b == g * c, b > 0, g > 0;
        lemma_gcdn_scale(g as nat, a as nat, c as nat);
        assert(g * gcdn(a as nat, c as nat) == g);
        assert(gcdn(a as nat, c as nat) == 1) by(nonlinear_arith) requires g * gcdn(a as nat, c as nat) == g, g > 0;
    }
}
"""


def gcd_max_contract(t):
    c = NT[t]
    return Contract(
        "gcd_max_" + t, "altruct::math::gcd_max", sig="{0} ({0}, {0})".format(c), params=["a", "b"],
        requires=["a > 0 && b >= 0", "a * b < 0x%xint" % MAX[t]],
        ensures=["b == 0 ==> r == a", "b > 0 ==> gmax_post(a as int, b as int, r as int)"],
        loops={0: dict(invariant=["a > 0 && b > 0 && a * b < 0x%xint" % MAX[t], "g > 0 && g <= b && divides(g as int, b as int)",
                                  "0 <= go <= g && exists|k: nat| #[trigger] divides(g as int, pow(a as int, k))",
                                  "go == g ==> gcdn(a as nat, (b / g) as nat) == 1"],
                       decreases="(if go == g { 0int } else { 1 + b - g })")},
        hints={"L0.before": """proof { assert(b as int == 1 * b as int); assert(divides(1, b as int));
            reveal(pow); assert(pow(a as int, 0) == 1int * 1int); assert(divides(1, pow(a as int, 0))); }""",
               "L0.begin": """proof { assert(0 < g * a && g * a <= a * b) by(nonlinear_arith) requires 0 < g <= b, a > 0;
            lemma_gmax_step(a as int, b as int, g as int, gcdn((g * a) as nat, b as nat) as int); }"""})


VARIANTS = ["xys", "nys", "xyn", "xnn"]


def contracts(types=NT, variants=VARIANTS):
    cs = []
    for t in types:
        cs.append(gcd_contract(t))
        cs += [gcd_ex_contract(t, v) for v in variants]
        cs.append(lcm_contract(t))
        cs.append(gcd_max_contract(t))
    return cs


def spec():
    return SPEC + reps() + LCM + GCDMAX


def units():
    return [Unit("gcd", ["altruct/algorithm/math/base.h"], tu(), contracts(), spec())]

"""fraction<I> (fraction.h)"""
from unit import Unit, Contract
import gcd
CT = {"i32": "int", "i64": "long"}
Q = "altruct::math::fraction<%s>"
SPEC = r"""
/// lowest terms with a positive denominator
pub open spec fn low(p: int, q: int) -> bool { q > 0 && gcdn(iabs(p) as nat, q as nat) == 1 }
pub proof fn lemma_reduce(p: int, q: int, g: int) requires q != 0, g == gcdn(iabs(p) as nat, iabs(q) as nat),
    ensures g > 0, g <= iabs(q), p == g * tdiv(p, g), q == g * tdiv(q, g), tdiv(q, g) != 0, iabs(tdiv(p, g)) <= iabs(p), iabs(tdiv(q, g)) <= iabs(q), gcdn(iabs(tdiv(p, g)) as nat, iabs(tdiv(q, g)) as nat) == 1
{
    let (up, uq) = (iabs(p), iabs(q)); let _ = lemma_gcdn(up as nat, uq as nat);
    if g == 0 { assert(false) by(nonlinear_arith) requires g == 0, divides(g, uq), uq > 0; }
    lemma_divides_div(g, up); lemma_divides_div(g, uq);
    let (a, b) = (up / g, uq / g); lemma_divides_le(g, uq);
    assert(0 <= a <= up) by(nonlinear_arith) requires up == g * a, g > 0, up >= 0;
    assert(0 < b <= uq) by(nonlinear_arith) requires uq == g * b, g > 0, uq > 0;
    lemma_gcdn_scale(g as nat, a as nat, b as nat);
    assert(gcdn(a as nat, b as nat) == 1) by(nonlinear_arith) requires g * gcdn(a as nat, b as nat) == g, g > 0;
    assert(g * (-a) == -up && g * (-b) == -uq) by(nonlinear_arith) requires up == g * a, uq == g * b;
}
/// equal rationals in lowest terms are identical
pub proof fn lemma_low_eq(p: int, q: int, a: int, b: int) requires low(p, q), low(a, b), p * b == a * q, ensures p == a && q == b
{
    assert(divides(q, p * b)) by { assert(p * b == q * a) by(nonlinear_arith) requires p * b == a * q; }
    assert(divides(b, a * q)) by { assert(a * q == b * p) by(nonlinear_arith) requires p * b == a * q; }
    lemma_coprime_div(q, p, b); lemma_coprime_div(b, a, q);
    lemma_divides_antisym(q, b);
    assert(p == a) by(nonlinear_arith) requires p * b == a * q, q == b, b > 0;
}
/// q | p * b and q coprime to p
pub proof fn lemma_coprime_div(q: int, p: int, b: int) requires low(p, q), b > 0, divides(q, p * b), ensures divides(q, b)
{
    let (x, y) = lemma_gcdn(iabs(p) as nat, q as nat);
    let k = choose|k: int| p * b == #[trigger] (q * k);
    let s = if p < 0 { -x } else { x };
    assert(p * s + q * y == 1) by(nonlinear_arith) requires iabs(p) * x + q * y == 1, p < 0 && s == -x || p >= 0 && s == x;
    assert((p * s) * b == s * (p * b)) by(nonlinear_arith);
    assert(s * (q * k) == q * (k * s)) by(nonlinear_arith);
    assert((p * s + q * y) * b == (p * s) * b + q * (y * b)) by(nonlinear_arith);
    assert(q * (k * s) + q * (y * b) == q * (k * s + y * b)) by(nonlinear_arith);
    assert(b == q * (k * s + y * b));
}
/// scaling both terms
pub proof fn lemma_same(p: int, q: int, a: int, b: int, g: int) requires p == g * a, q == g * b, ensures p * b == a * q, p * (-b) == (-a) * q
{ assert(p * b == a * q) by(nonlinear_arith) requires p == g * a, q == g * b; assert(p * (-b) == -(p * b) && (-a) * q == -(a * q)) by(nonlinear_arith); }
/// products keep the order of positive denominators
pub proof fn lemma_prod_pos(a: int, b: int) requires a > 0, b > 0, ensures a * b > 0 { assert(a * b > 0) by(nonlinear_arith) requires a > 0, b > 0; }
"""


def units():
    us = []
    for t, c in CT.items():
        q, R = Q % c, "Fraction_%s" % c
        F = "fraction<%s>" % c
        tu = gcd.tu({t: c}) + """
namespace altruct {{ namespace math {{ template class fraction<{c}>;
inline {F} w_one(const {c}& p) {{ return {F}(p); }} inline {F} w_mk(const {c}& p, const {c}& q) {{ return {F}(p, q); }} inline {F} w_def() {{ return {F}(); }}
inline void w_dbl({F}& a) {{ a += a; }} inline void w_zero({F}& a) {{ a -= a; }} inline void w_sqr({F}& a) {{ a *= a; }} inline void w_unit({F}& a) {{ a /= a; }}
inline {F} w_id(const {F}& a) {{ return identityOf(a); }} inline {F} w_zr(const {F}& a) {{ return zeroOf(a); }}
}} }}
""".format(c=c, F=F)
        fit = lambda e: "%s::MIN < %s <= %s::MAX" % (t, e, t)
        lowr = lambda x: "low({0}.p as int, {0}.q as int)".format(x)
        eqr = lambda x, n, d: "{0}.p as int * ({2}) == ({1}) * ({0}.q as int)".format(x, n, d)
        G = [k for k in gcd.contracts({t: c}, ["xys"]) if k.rust.startswith("gcd_") and "ex" not in k.rust and "max" not in k.rust]
        O = "old(self_)"
        def pv(x): return "(%s.p as int)" % x, "(%s.q as int)" % x
        cs = [
            Contract("reduce_" + t, q + "::reduce", params=[], requires=[O + ".q != 0", fit(O + ".p"), fit(O + ".q")], ensures=[lowr("final(self_)"), eqr("final(self_)", *pv(O)),
                    "low({0}.p as int, {0}.q as int) ==> *final(self_) == *{0}".format(O)],
                hints={"entry": "let ghost (P0, Q0) = (self_.p as int, self_.q as int); proof { lemma_reduce(P0, Q0, gcdn(iabs(P0) as nat, iabs(Q0) as nat) as int); }",
                       "exit": "proof { let g = gcdn(iabs(P0) as nat, iabs(Q0) as nat) as int; lemma_same(P0, Q0, tdiv(P0, g), tdiv(Q0, g), g); assert(tdiv(P0, 1) == P0 && tdiv(Q0, 1) == Q0); assert(self_.p as int == tdiv(P0, g) || self_.p as int == -tdiv(P0, g)); if low(P0, Q0) { assert(iabs(Q0) == Q0); } }"}),
            Contract("mk_" + t, "altruct::math::w_mk", params=["p", "q"], requires=["q != 0", fit("p"), fit("q")], ensures=[lowr("r"), eqr("r", "p as int", "q as int")]),
            Contract("one_" + t, "altruct::math::w_one", params=["p"], requires=[], ensures=["r.p == p && r.q == 1"]),
            Contract("def_" + t, "altruct::math::w_def", params=[], requires=[], ensures=["r.p == 0 && r.q == 1"]),
            Contract("id_" + t, "altruct::math::w_id", params=["a"], requires=[], ensures=["r.p == 1 && r.q == 1"]),
            Contract("zr_" + t, "altruct::math::w_zr", params=["a"], requires=[], ensures=["r.p == 0 && r.q == 1"]),
        ]
        ops = {"+": ("{a} * {d} + {c} * {b}", "{b} * {d}", ["{a} * {d}", "{c} * {b}"]), "-": ("{a} * {d} - {c} * {b}", "{b} * {d}", ["{a} * {d}", "{c} * {b}"]),
               "*": ("{a} * {c}", "{b} * {d}", []), "/": ("{a} * {d}", "{b} * {c}", [])}
        al = {"+": "w_dbl", "-": "w_zero", "*": "w_sqr", "/": "w_unit"}
        nm = {"+": "add", "-": "sub", "*": "mul", "/": "div"}
        for o, (n, d, mid) in ops.items():
            def inst(x, y):
                k = dict(a="(%s.p as int)" % x, b="(%s.q as int)" % x, c="(%s.p as int)" % y, d="(%s.q as int)" % y)
                N, D = n.format(**k), d.format(**k)
                pre = [lowr(x), lowr(y), fit(N), fit(D)] + [fit(m.format(**k)) for m in mid] + (["%s != 0" % k["c"]] if o == "/" else [])
                h = "proof { let (xb, yd) = (%s, %s); lemma_prod_pos(%s, %s); assert(%s != 0 ==> %s * %s != 0) by(nonlinear_arith) requires %s > 0; }" % (k["b"], k["d"], k["b"], k["d"], k["c"], k["b"], k["c"], k["b"])
                return pre, N, D, h
            pre, N, D, h = inst(O, "f")
            cs.append(Contract("%s_%s" % (nm[o], t), q + "::operator%s=" % o, params=["f"], requires=pre, ensures=[lowr("final(self_)"), eqr("final(self_)", N, D)], hints={"entry": h.replace("old(self_)", "self_")}))
            pre, N, D, h = inst("self_", "f")
            cs.append(Contract("op%s_%s" % (nm[o], t), q + "::operator" + o, pred=lambda f: len([c for c in f.get("inner", []) if c.get("kind") == "ParmVarDecl"]) == 1, params=["f"], requires=pre, ensures=[lowr("r"), eqr("r", N, D)], hints={"entry": h}))
            pre, N, D, h = inst("old(a)", "old(a)")
            cs.append(Contract("al%s_%s" % (nm[o], t), "altruct::math::" + al[o], params=["a"], requires=pre, ensures=[lowr("final(a)"), eqr("final(a)", N, D)], hints={"entry": h.replace("old(a)", "a")}))
        cs += [Contract("opneg_" + t, q + "::operator-", pred=lambda f: len([c for c in f.get("inner", []) if c.get("kind") == "ParmVarDecl"]) == 0, params=[], requires=[lowr("self_"), fit("self_.p")], ensures=[lowr("r"), "r.p == -self_.p && r.q == self_.q"],
                        hints={"exit": "proof { lemma_low_eq(ret__v.p as int, ret__v.q as int, -(self_.p as int), self_.q as int); }"}),
               Contract("opmod_" + t, q + "::operator%", params=["f"], requires=[], ensures=["r.p == 0 && r.q == 1"]),
               Contract("mod_" + t, q + "::operator%=", params=["f"], requires=[], ensures=["final(self_).p == 0 && final(self_).q == 1"]),
               Contract("recip_" + t, q + "::reciprocal", params=[], requires=[lowr("self_"), "self_.p != 0", fit("self_.p")], ensures=[lowr("r"), eqr("r", "self_.q as int", "self_.p as int")])]
        cmpre = [lowr("self_"), lowr("f")] 
        A, B = "(self_.p as int) * (f.q as int)", "(f.p as int) * (self_.q as int)"
        wide = ["%s::MIN <= %s <= %s::MAX" % (t, x, t) for x in (A, B, "%s - %s" % (A, B))]
        cs.append(Contract("cmp_" + t, q + "::cmp", params=["f"], requires=wide, ensures=["r as int == %s - %s" % (A, B)]))
        for o, n in (("<", "lt"), ("<=", "le"), (">", "gt"), (">=", "ge")):
            cs.append(Contract("%s_%s" % (n, t), q + "::operator" + o, params=["f"], requires=cmpre + wide, ensures=["r == (%s %s %s)" % (A, o, B)]))
        for o, n in (("==", "eq"), ("!=", "ne")):
            cs.append(Contract("%s_%s" % (n, t), q + "::operator" + o, params=["f"], requires=cmpre, ensures=["r == (%s %s %s)" % (A, o, B)],
                               hints={"entry": "proof { if %s == %s { lemma_low_eq(self_.p as int, self_.q as int, f.p as int, f.q as int); } }" % (A, B)}))
        u = Unit("frac_" + t, ["altruct/structure/math/fraction.h"], tu, G + cs, gcd.SPEC + SPEC)
        us.append(u)
    return us

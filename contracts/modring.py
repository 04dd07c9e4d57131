"""modular ring operations (modulo.h), all integer types, free functions and the modulo class"""
from unit import Unit, Contract
import ntlib

NT = {"i32": "int", "u32": "unsigned int", "i64": "long", "u64": "unsigned long"}
NS = {"i8": "signed char", "u8": "unsigned char", "i16": "short", "u16": "unsigned short"}
ALL = dict(NS, **NT)
MM = "altruct::math::"

SPEC = r"""
pub open spec fn res(v: int, m: int) -> bool { 0 <= v && v < m }
pub proof fn lemma_red(z: int, m: int)
    requires m > 0, 0 <= z < 2 * m,
    ensures z % m == (if z < m { z } else { z - m }),
{
    if z < m { lemma_small_mod(z as nat, m as nat); } else { lemma_fundamental_div_mod_converse(z, m, 1, z - m); }
}
pub proof fn lemma_sub_red(x: int, y: int, m: int)
    requires m > 0,
    ensures (x + (m - y)) % m == (x - y) % m,
{
    lemma_mod_add_multiples_vanish(x - y, m);
    assert(x + (m - y) == m + (x - y));
}
pub proof fn lemma_neg_red(v: int, m: int)
    requires m > 0, res(v, m),
    ensures (-v) % m == (if v == 0 { 0 } else { m - v }),
{
    lemma_sub_red(0, v, m);
    lemma_red(m - v, m);
}
/// one round of double-and-add, and of square-and-multiply
pub proof fn lemma_dbl(x: int, y: int, r: int, x2: int, r2: int, m: int)
    requires m > 0, y >= 0, x2 == (x + x) % m, r2 == (if y % 2 == 1 { (r + x) % m } else { r }),
    ensures (r2 + x2 * (y / 2)) % m == (r + x * y) % m,
{
    let h = y / 2;
    assert(x * y == (x + x) * h + (if y % 2 == 1 { x } else { 0 })) by(nonlinear_arith) requires y == 2 * h + (y % 2), y % 2 == 0 || y % 2 == 1;
    lemma_mul_mod_noop_left(x + x, h, m);
    let rr = if y % 2 == 1 { r + x } else { r };
    lemma_add_mod_noop(rr, (x + x) * h, m);
    lemma_add_mod_noop(r2, x2 * h, m);
    if y % 2 == 1 { lemma_mod_twice(r + x, m); }
}
pub proof fn lemma_sqr(x: int, y: nat, r: int, x2: int, r2: int, m: int)
    requires m > 0, y > 0, x2 == (x * x) % m || y == 1, r2 == (if y % 2 == 1 { (r * x) % m } else { r }),
    ensures (r2 * pow(x2, (y / 2) as nat)) % m == (r * pow(x, y)) % m,
{
    let h = (y / 2) as nat;
    lemma_pow_mod_noop(x * x, h, m);
    lemma_pow_sq(x, h);
    let p = pow(x * x, h);
    lemma_pow0(x2); lemma_pow0(x * x);
    assert(pow(x2, h) % m == p % m);
    assert(pow(x, y) == (if y % 2 == 1 { x * p } else { p })) by {
        if y % 2 == 1 { reveal(pow); assert(y == 2 * h + 1); assert(pow(x, y) == x * pow(x, (2 * h) as nat)); } else { assert(y == 2 * h); }
    }
    let rr = if y % 2 == 1 { r * x } else { r };
    assert(r * pow(x, y) == rr * p) by(nonlinear_arith)
        requires pow(x, y) == (if y % 2 == 1 { x * p } else { p }), rr == (if y % 2 == 1 { r * x } else { r });
    lemma_mul_mod_noop_general(rr, p, m);
    lemma_mul_mod_noop_general(r2, pow(x2, h), m);
    if y % 2 == 1 { lemma_mod_twice(r * x, m); }
    lemma_mul_mod_noop(rr, p, m);
    lemma_mul_mod_noop(r2, pow(x2, h), m);
}
pub proof fn lemma_pow_sq(x: int, h: nat)
    ensures pow(x * x, h) == pow(x, (2 * h) as nat),
    decreases h
{
    reveal(pow);
    if h > 0 {
        lemma_pow_sq(x, (h - 1) as nat);
        assert(pow(x, (2 * h) as nat) == x * pow(x, (2 * h - 1) as nat));
        assert(pow(x, (2 * h - 1) as nat) == x * pow(x, (2 * (h - 1)) as nat));
        assert(x * (x * pow(x, (2 * (h - 1)) as nat)) == (x * x) * pow(x, (2 * (h - 1)) as nat)) by(nonlinear_arith);
    } else { assert(pow(x * x, 0) == 1 && pow(x, 0) == 1); }
}
"""


LL = {"i64": "long long", "u64": "unsigned long long"}


def tu(types=ALL, mods=True, norm=ALL):
    o = []
    for t, c in types.items():
        o.append("{0} w_add({0} x, {0} y, {0} M) {{ return modulo_add<{0}>(x, y, M); }}".format(c))
        o.append("{0} w_sub({0} x, {0} y, {0} M) {{ return modulo_sub<{0}>(x, y, M); }}".format(c))
        o.append("{0} w_neg({0} x, {0} M) {{ return modulo_neg<{0}>(x, M); }}".format(c))
        o.append("{0} w_mul({0} x, {0} y, {0} M) {{ return modulo_mul<{0}>(x, y, M); }}".format(c))
        o.append("{0} w_mull({0} x, {0} y, {0} M) {{ return modulo_mul_int_long<{0}>(x, y, M); }}".format(c))
        for t2, c2 in norm.items():
            o.append("{1} w_norm({0} v, {1} M) {{ return modulo_normalize<{0},{1}>(v, M); }}".format(c2, c))
    return "#include <type_traits>\nnamespace altruct { namespace math {\n%s\n}}\n" % "\n".join(o)


def free(types=ALL, norm=ALL, ymax=False):
    cs = []
    for t, c in types.items():
        s = t[0] == "i"
        rx, ry, ryM = "res(x as int, M as int)", "res(y as int, M as int)", "0 <= y <= M"
        ry = ryM if ymax else ry
        addpost = ["res(r as int, M as int)", "r as int == (x as int + y as int) % (M as int)"]
        addlem = {"entry": "proof { lemma_red(x as int + y as int, M as int); }"}
        sig = "{0} ({0}, {0}, {0})".format(c)
        targ = [c, "1"]
        P3 = ["x", "y", "M"]
        if s:
            cs.append(Contract("modulo_add_int_" + t, MM + "modulo_add_int", sig=sig, params=P3, requires=["M > 0", rx, ryM], ensures=addpost, hints=dict(addlem)))
        else:
            cs.append(Contract("modulo_add_uint_" + t, MM + "modulo_add_uint", sig=sig, params=P3, requires=["M > 0", rx, ryM], ensures=addpost, hints=dict(addlem)))
        cs.append(Contract("modulo_add_" + t, MM + "modulo_add", sig=sig, params=P3, requires=["M > 0", rx, ryM], ensures=addpost))
        cs.append(Contract("modulo_sub_int_" + t, MM + "modulo_sub_int", sig=sig, params=P3, requires=["M > 0", rx, "0 <= y <= M"],
                           ensures=["res(r as int, M as int)", "r as int == (x as int - y as int) % (M as int)"],
                           hints={"entry": "proof { lemma_sub_red(x as int, y as int, M as int); }"}))
        cs.append(Contract("modulo_sub_" + t, MM + "modulo_sub", sig=sig, params=P3, requires=["M > 0", rx, "0 <= y <= M"],
                           ensures=["res(r as int, M as int)", "r as int == (x as int - y as int) % (M as int)"]))
        negpost = ["res(r as int, M as int)", "r as int == (-(v as int)) % (M as int)"]
        cs.append(Contract("modulo_neg_int_" + t, MM + "modulo_neg_int", sig="{0} ({0}, {0})".format(c), params=["v", "M"], requires=["M > 0", "res(v as int, M as int)"],
                           ensures=negpost, hints={"entry": "proof { lemma_neg_red(v as int, M as int); }"}))
        cs.append(Contract("modulo_neg_" + t, MM + "modulo_neg", sig="{0} ({0}, {0})".format(c), params=["v", "M"], requires=["M > 0", "res(v as int, M as int)"],
                           ensures=negpost))
        mulpost = ["res(r as int, M as int)", "r as int == (x as int * y as int) % (M as int)"]
        if 1:
            cs.append(Contract("modulo_mul_int_long_" + t, MM + "modulo_mul_int_long", sig=sig, params=P3, requires=["M > 0", rx, ry], ensures=mulpost,
                      loops={0: dict(invariant=["M > 0", "y >= 0", "res(x as int, M as int)", "res(r as int, M as int)",
                                                "(r as int + x as int * y as int) % (M as int) == (x_0 as int * y_0 as int) % (M as int)"], decreases="y")},
                      hints={"L0.before": "proof { assert(0 + x as int * y as int == x as int * y as int); lemma_small_mod(0, M as nat); }",
                             "L0.begin": "let ghost (ox, oy, or_) = (x as int, y as int, r as int);",
                             "L0.end": "proof { lemma_dbl(ox, oy as int, or_, x as int, r as int, M as int); }",
                             "L0.after": "proof { assert(x as int * 0 == 0); lemma_small_mod(r as nat, M as nat); }"}))
        bound = "let ghost hb: int = M as int + 1; proof { assert(0 <= x as int * y as int && x as int * y as int <= (hb - 1) * (hb - 1)) by(nonlinear_arith) requires 0 <= x < hb, 0 <= y < hb;" if ymax else \
                "let ghost hb: int = M as int; proof { assert(0 <= x as int * y as int && x as int * y as int <= (hb - 1) * (hb - 1)) by(nonlinear_arith) requires 0 <= x < hb, 0 <= y < hb;" \
                " lemma_mod_bound(x as int * y as int, M as int);"
        if t == "u64":
            h = {"entry": "proof { lemma_mod_bound(x as int * y as int, M as int); assert(x < 0x1_0000_0000 && y < 0x1_0000_0000 ==> (x * y) < 0x1_0000_0000_0000_0000) by(nonlinear_arith);"
                          "assert((x >> 32) == x / 0x1_0000_0000 && (y >> 32) == y / 0x1_0000_0000) by(bit_vector); assert(x * y >= 0) by(nonlinear_arith); }"}
        elif t in ("u8", "u16", "u32"):
            h = {"entry": bound + " assert((hb - 1) * (hb - 1) <= 0x%xint) by(nonlinear_arith) requires 1 <= hb <= 0x%xint; }" % (((2 ** int(t[1:]) - 1) ** 2, 2 ** int(t[1:])) if ymax else ((2 ** int(t[1:]) - 2) ** 2, 2 ** int(t[1:]) - 1))}
        else:
            h = {}
        cs.append(Contract("modulo_mul_" + t, MM + "modulo_mul", sig=sig, params=P3, requires=["M > 0", rx, ry], ensures=mulpost, hints=h))
        for t2, c2 in (norm or {}).items():
            s2 = t2[0] == "i"
            hint = {"entry": "proof { lemma_mod_bound(v as int, M as int); if 0 <= v < M { lemma_small_mod(v as nat, M as nat); } }"}
            if s2:
                hint = {"entry": "proof { lemma_mod_bound(v as int, M as int); if v < 0 { let q = (-(v as int)) % (M as int); lemma_mod_bound(-(v as int), M as int); lemma_neg_mod(-(v as int), M as int); } }"}
            cs.append(Contract("modulo_normalize_%s_%s" % (t2, t), MM + "modulo_normalize", sig="{1} ({0}, {1})".format(c2, c), params=["v", "M"],
                               requires=["M > 0"], ensures=["res(r as int, M as int)", "r as int == (v as int) % (M as int)"], hints=hint))
    return cs


SPEC2 = r"""
pub proof fn lemma_neg_mod(w: int, m: int)
    requires m > 0,
    ensures (-(w % m)) % m == (-w) % m,
{
    lemma_sub_mod_noop(0, w, m);
    lemma_small_mod(0, m as nat);
    lemma_sub_mod_noop(0, w % m, m);
    lemma_mod_twice(w, m);
}
"""



def cls(t, id_, st):
    return "altruct::math::modulo<%s,%s,%d>" % (NT[t], id_, st)


def rname(t, id_, st):
    return "Modulo_%s_%s_%d" % (NT[t].replace(" ", "_"), id_, st)


# (type, id, storage): INSTANCE=0, STATIC=1, CONSTANT=2
CLASSES = [("i32", 0, 0), ("u32", 0, 0), ("i64", 0, 0), ("u64", 0, 0), ("i32", 1000000007, 2), ("i64", 1000000007, 2), ("i32", 1009, 1), ("u64", 1009, 1)]
POWS = [("i32", "i32"), ("u32", "u64"), ("i64", "i64"), ("u64", "u64")]


def cls_tu(classes=CLASSES):
    o = []
    for t, i, st in classes:
        c = NT[t]
        R = "modulo<%s,%d,%d>" % (c, i, st)
        n = "_%s_%d" % (t, st)
        o.append("inline {R} w_mk{n}(const {c}& v, const {c}& M) {{ return {R}(v, M); }}".format(R=R, c=c, n=n))
        o.append("inline {R} w_add{n}({R} a, {R} b) {{ return a + b; }} inline {R} w_sub{n}({R} a, {R} b) {{ return a - b; }} inline {R} w_mul{n}({R} a, {R} b) {{ return a * b; }} inline {R} w_neg{n}({R} a) {{ return -a; }}".format(R=R, n=n))
        o.append("inline void w_sqr{n}({R}& a) {{ a *= a; }} inline void w_dbl{n}({R}& a) {{ a += a; }} inline void w_zero{n}({R}& a) {{ a -= a; }}".format(R=R, n=n))
        o.append("inline {R} w_one{n}(const {R}& a) {{ return identityOf(a); }} inline {R} w_zer{n}(const {R}& a) {{ return zeroOf(a); }} inline {R} w_nrm{n}({R} a) {{ return a.neg(); }}".format(R=R, n=n))
        if st != 0:
            o.append("inline {R} w_mk1{n}(const {c}& v) {{ return {R}(v); }} inline {R} w_def{n}() {{ return {R}(); }}".format(R=R, c=c, n=n))
        c2 = NT[{"i32": "i64", "u32": "i64", "i64": "i32", "u64": "i32"}[t]]
        o.append("inline {R} w_mkx{n}(const {c2}& v, const {c}& M) {{ return {R}(v, M); }}".format(R=R, c=c, c2=c2, n=n))
    for t, i in POWS:
        o.append("inline {0} w_pow_{2}_{3}(const {0}& x, const {1}& y, const {0}& M) {{ return modulo_power<{0},{1}>(x, y, M); }}".format(NT[t], NT[i], t, i))
    return "#include <type_traits>\nnamespace altruct { namespace math {\n%s\n}}\n" % "\n".join(o)


def cls_contracts(classes=CLASSES):
    cs = []
    for t, i, st in classes:
        q = cls(t, i, st)
        n = "_%s_%d" % (t, st)
        # the modulus of an object / of the class
        M = lambda x: {0: "(%s.f_M as int)" % x, 1: "(glob_M as int)", 2: "%dint" % i}[st]
        ex = ["glob_M: " + t] if st == 1 else []
        ok = lambda x, mx=None: "%s > 0 && res(%s.v as int, %s)" % (M(mx or x), x, M(mx or x))
        sameM = (lambda a, b: "%s.f_M == %s.f_M" % (a, b)) if st == 0 else (lambda a, b: "true")
        for op, nm, rr, al in (("+", "add", "({a} + {b}) % {M}", "dbl"), ("-", "sub", "({a} - {b}) % {M}", "zero"), ("*", "mul", "({a} * {b}) % {M}", "sqr")):
            res = lambda a, b, mx: rr.format(a="%s.v as int" % a, b="%s.v as int" % b, M=M(mx))
            cs.append(Contract("cls_%s%s" % (nm, n), q + "::operator%s=" % op, params=["rhs"], extra=ex,
                               requires=[ok("old(self_)"), ok("rhs", "old(self_)")],
                               ensures=[ok("final(self_)"), sameM("final(self_)", "old(self_)"), "final(self_).v as int == " + res("old(self_)", "rhs", "old(self_)")]))
            cs.append(Contract("cls_op%s%s" % (nm, n), q + "::operator" + op, sig="modulo<{0}, {1}, {2}> (const modulo<{0}, {1}, {2}> &) const".format(NT[t], i, st) if False else None,
                               pred=lambda f: len([c for c in f.get("inner", []) if c.get("kind") == "ParmVarDecl"]) == 1, params=["rhs"], extra=ex,
                               requires=[ok("self_"), ok("rhs", "self_")],
                               ensures=[ok("r"), sameM("r", "self_"), "r.v as int == " + res("self_", "rhs", "self_")]))
            # the operand aliases the result
            cs.append(Contract("cls_%s%s" % (al, n), MM + "w_%s%s" % (al, n), params=["a"], extra=ex, requires=[ok("old(a)")],
                               ensures=[ok("final(a)"), sameM("final(a)", "old(a)"), "final(a).v as int == " + res("old(a)", "old(a)", "old(a)")]))
        negp = [ok("r"), sameM("r", "self_"), "r.v as int == (-(self_.v as int)) % " + M("self_")]
        cs.append(Contract("cls_neg" + n, q + "::neg", params=[], extra=ex, requires=[ok("self_")], ensures=negp))
        cs.append(Contract("cls_opneg" + n, q + "::operator-", pred=lambda f: len([c for c in f.get("inner", []) if c.get("kind") == "ParmVarDecl"]) == 0, params=[], extra=ex,
                           requires=[ok("self_")], ensures=negp))
        mkM = {0: "M as int", 1: "glob_M as int", 2: "%dint" % i}[st]
        mk = [ok("r"), "r.f_M == M" if st == 0 else "true", "r.v as int == (v as int) % (" + mkM + ")"]
        cs.append(Contract("cls_mk" + n, MM + "w_mk" + n, params=["v", "M"], extra=ex, requires=["(%s) > 0" % mkM], ensures=mk))
        cs.append(Contract("cls_mkx" + n, MM + "w_mkx" + n, params=["v", "M"], extra=ex, requires=["(%s) > 0" % mkM], ensures=mk))
        if st:
            cs.append(Contract("cls_mk1" + n, MM + "w_mk1" + n, params=["v"], extra=ex, requires=["(%s) > 0" % mkM], ensures=mk))
            cs.append(Contract("cls_def" + n, MM + "w_def" + n, params=[], extra=ex, requires=["(%s) > 0" % mkM], ensures=[ok("r"), "r.v == 0"]))
        cs.append(Contract("cls_one" + n, MM + "w_one" + n, params=["a"], extra=ex, requires=[ok("a")], ensures=[ok("r"), sameM("r", "a"), "r.v as int == 1int % " + M("a")]))
        cs.append(Contract("cls_zer" + n, MM + "w_zer" + n, params=["a"], extra=ex, requires=[ok("a")], ensures=[ok("r"), sameM("r", "a"), "r.v == 0"],
                           hints={"entry": "proof { lemma_small_mod(0, %s as nat); }" % M("a")}))
    for t, i in POWS:
        R = "modulo<%s, 0, 0>" % NT[t]
        inv = ["x.f_M == x_0.f_M && r.f_M == x_0.f_M && x.f_M > 0 && res(x.v as int, x.f_M as int) && res(r.v as int, x.f_M as int)",
               "y >= 0", "(r.v as int * pow(x.v as int, y as nat)) % (x_0.f_M as int) == pow(x_0.v as int, y_0 as nat) % (x_0.f_M as int)"]
        cs.append(Contract("powT_%s_%s" % (t, i), MM + "powT", sig="{0} ({0}, {1})".format("altruct::math::modulo<%s, 0>" % NT[t], NT[i]) if False else None,
                           targs=["altruct::math::modulo<%s, 0, 0>" % NT[t], NT[i]], params=["x", "y"], requires=["x.f_M > 0 && res(x.v as int, x.f_M as int)", "y >= 0"],
                           ensures=["r.f_M == x.f_M", "r.v as int == pow(x.v as int, y as nat) % (x.f_M as int)"],
                           loops={0: dict(invariant=inv, decreases="y")},
                           hints={"L0.before": "proof { lemma_mul_mod_noop_left(1, pow(x.v as int, y as nat), x.f_M as int); assert(1 * pow(x.v as int, y as nat) == pow(x.v as int, y as nat)); }",
                                  "L0.begin": "let ghost (ox, oy, or_) = (x.v as int, y as nat, r.v as int);",
                                  "L0.end": "proof { lemma_sqr(ox, oy, or_, x.v as int, r.v as int, x_0.f_M as int); }",
                                  "L0.after": "proof { reveal(pow); assert(pow(x.v as int, 0) == 1); lemma_small_mod(r.v as nat, x_0.f_M as nat); }"}))
        cs.append(Contract("modulo_power_%s_%s" % (t, i), MM + "modulo_power", targs=[NT[t], NT[i]], params=["x", "y", "M"], requires=["M > 0", "y >= 0"],
                           ensures=["res(r as int, M as int)", "r as int == pow(x as int, y as nat) % (M as int)"],
                           hints={"entry": "proof { lemma_pow_mod_noop(x as int, y as nat, M as int); lemma_mod_bound(pow(x as int, y as nat), M as int); }"}))
    return cs


class StaticM:
    """the class-static modulus is passed around explicitly"""
    @staticmethod
    def call(tr, e, name, obj, args, fdef, stmt):
        return None


def units():
    inc = ["altruct/structure/math/modulo.h"]
    u2 = Unit("modcls", inc, tu(NT) + cls_tu(), free(NT, NT) + cls_contracts(), SPEC + SPEC2)
    u2.globals["_M"] = "glob_M"
    u2.type_alias.append((r"\bmodulo<([^<>,]+), (\d+)>", r"modulo<\1, \2, 1>"))
    return [Unit("modfree", inc, tu(), free(), SPEC + SPEC2), Unit("modll", inc, tu(LL, norm=LL), free(LL, LL), SPEC + SPEC2), u2]

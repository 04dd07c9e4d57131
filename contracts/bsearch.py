"""binary searches over integers (binary_search.h)"""
from unit import Unit, Contract
NT = {"i8": "signed char", "u8": "unsigned char", "i16": "short", "u16": "unsigned short", "i32": "int", "u32": "unsigned int", "i64": "long", "u64": "unsigned long"}
S = "altruct::search::"
CXX = "namespace altruct {\n" + "".join("struct P_%s { bool operator()(%s x) const; }; struct F_%s { long operator()(%s x) const; };\n" % (t, c, t, c) for t, c in NT.items()) + "}\n"
SPEC = r"""
/// the predicate (any total boolean function of the position)
pub uninterp spec fn pr(x: int) -> bool;
/// the evaluated function for lower/upper bound by value
pub uninterp spec fn fv(x: int) -> int;
pub open spec fn mono(lo: int, hi: int) -> bool { forall|a: int, b: int| lo <= a <= b < hi && #[trigger] pr(a) ==> #[trigger] pr(b) }
pub open spec fn inc(lo: int, hi: int) -> bool { forall|a: int, b: int| lo <= a <= b < hi ==> #[trigger] fv(a) <= #[trigger] fv(b) }
pub open spec fn dec(lo: int, hi: int) -> bool { forall|a: int, b: int| lo <= a <= b < hi ==> #[trigger] fv(a) >= #[trigger] fv(b) }
/// comparison used by lower_bound_num / upper_bound_num
pub open spec fn hit(upper: bool, decreasing: bool, x: int, val: int) -> bool {
    if upper { if decreasing { fv(x) < val } else { fv(x) > val } } else { if decreasing { fv(x) <= val } else { fv(x) >= val } }
}
""" + "".join("""
/// may only be evaluated inside [gl, gh)
#[verifier::external_body] pub fn pcall_{t}(x: {t}, Ghost(gl): Ghost<int>, Ghost(gh): Ghost<int>) -> (r: bool) requires gl <= x < gh, ensures r == pr(x as int) {{ false }}
#[verifier::external_body] pub fn fcall_{t}(x: {t}, Ghost(gl): Ghost<int>, Ghost(gh): Ghost<int>) -> (r: i64) requires gl <= x < gh, ensures r == fv(x as int) {{ 0 }}
""".format(t=t) for t in NT)


class Hook:
    def call(self, tr, e, name, obj, args, fdef, stmt):
        if name == "operator()" and obj is not None:
            s = tr.strip_callee(obj)
            t = s["type"].get("desugaredQualType", s["type"]["qualType"]).replace("const ", "").strip().replace("altruct::", "")
            if t[:2] in ("P_", "F_") and t[2:] in NT:
                return "%scall_%s(%s, Ghost(gl), Ghost(gh))" % (t[0].lower(), t[2:], tr.exval(args[-1]))
        return None


G = "let ghost gl = lo as int; let ghost gh = hi as int;"


def first(p, lo="lo", hi="hi"):
    return ["lo <= hi ==> lo <= r <= hi", "lo > hi ==> r == lo",
            "forall|x: int| lo <= x < r ==> !%s" % p, "forall|x: int| r <= x < hi ==> %s" % p]


def units():
    us = []
    for grp in (("i8", "u8", "i16", "u16"), ("i32", "u32", "i64", "u64")):
        cs, tu = [], CXX + "namespace altruct { namespace search {\n"
        for t in grp:
            c = NT[t]
            MAXR = "hi - lo <= %s" % ({"i64": "i64::MAX", "u64": "u64::MAX"}.get(t, "i32::MAX") if t != "u32" else "u32::MAX")
            tu += "template {c} binary_search_pred<{c}, P_{t}>({c}, {c}, P_{t}); template {c} binary_search_num<{c}, P_{t}>({c}, {c}, {c}, P_{t});\n".format(c=c, t=t)
            tu += "template {c} lower_bound_num<{c}, long, F_{t}>({c}, {c}, {c}, const long&, F_{t}, bool); template {c} upper_bound_num<{c}, long, F_{t}>({c}, {c}, {c}, const long&, F_{t}, bool);\n".format(c=c, t=t)
            cs.append(Contract("bpred_" + t, S + "binary_search_pred", targs=[c, "altruct::P_" + t], params=["lo", "hi", "predicate"],
                requires=["mono(lo as int, hi as int)", MAXR], ensures=first("#[trigger] pr(x)"),
                hints={"entry": G}, loops={0: dict(invariant=["lo_0 <= hi_0 ==> lo_0 <= lo <= hi <= hi_0", "lo_0 > hi_0 ==> lo == lo_0 && hi == hi_0", "forall|x: int| lo_0 <= x < lo ==> !#[trigger] pr(x)", "forall|x: int| hi <= x < hi_0 ==> #[trigger] pr(x)"],
                               decreases="hi as int - lo as int")}))
            base = ["lo_0 <= hi_0 ==> lo_0 <= lo <= hi <= hi_0", "lo_0 > hi_0 ==> lo == lo_0 && hi == hi_0"]
            cs.append(Contract("bnum_" + t, S + "binary_search_num", targs=[c, "altruct::P_" + t], params=["lo", "hi", "eps", "predicate"],
                requires=["mono(lo as int, hi as int)", MAXR, "eps == 1", "lo <= hi"], ensures=first("#[trigger] pr(x)"),
                hints={"entry": G}, loops={0: dict(invariant=base + ["forall|x: int| lo_0 <= x < lo ==> !#[trigger] pr(x)", "forall|x: int| hi <= x < hi_0 ==> #[trigger] pr(x)",
                                                 "prev_mid == hi || prev_mid as int == lo - 1"],
                               decreases="hi as int - lo as int")}))
            for up in (0, 1):
                h = "hit(%s, decreasing, x, val as int)" % ("true" if up else "false")
                lo, hi = "lo", "hi"
                inv = ["gl <= $lo <= $hi <= gh", "forall|x: int| gl <= x < $lo ==> !#[trigger] " + h, "forall|x: int| $hi <= x < gh ==> #[trigger] " + h,
                       "$prev_mid == $hi || $prev_mid as int == $lo - 1", "$eps == 1"]
                L = dict(invariant=inv, decreases="$hi as int - $lo as int")
                cs.append(Contract(("upper_" if up else "lower_") + t, S + ("upper_bound_num" if up else "lower_bound_num"), targs=[c, "long", "altruct::F_" + t], params=["lo", "hi", "eps", "val", "f", "decreasing"],
                    requires=["if decreasing { dec(lo as int, hi as int) } else { inc(lo as int, hi as int) }", MAXR, "eps == 1", "lo <= hi"],
                    ensures=["lo <= r <= hi", "forall|x: int| lo <= x < r ==> !#[trigger] " + h, "forall|x: int| r <= x < hi ==> #[trigger] " + h],
                    hints={"entry": G}, loops={0: L, 1: L}))
        tu += "}}\n"
        u = Unit("bsearch_" + grp[0], ["altruct/algorithm/search/binary_search.h"], tu, cs, SPEC)
        for t in grp:
            u.type_map["altruct::P_" + t] = "()"; u.type_map["altruct::F_" + t] = "()"; u.type_map["P_" + t] = "()"; u.type_map["F_" + t] = "()"
        u.hooks.append(Hook())
        u.trusted.append("the searched predicate / function stands for every instantiation: an uninterpreted total function of the position")
        us.append(u)
    return us

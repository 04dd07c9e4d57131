"""quotient-indexed maps (sqrt_map.h, lohi_map.h) as partial maps on their admissible keys"""
from unit import Unit, Contract
SPEC = r"""
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Va { v: i64 }
#[verifier::external_body] pub fn any_Va() -> Va { Va { v: 0 } }
pub uninterp spec fn va0() -> Va;
#[verifier::external_body] pub fn va_zero() -> (r: Va) ensures r == va0() { Va { v: 0 } }
/// keys of a map over max: 1..=lo (and 0) and the quotients max / j
pub open spec fn adm(lo: int, max: int, k: int) -> bool { 0 <= k <= lo || (lo < k <= max && k == max / (max / k)) }
/// every quotient is admissible
pub proof fn lemma_adm(lo: int, max: int, j: int) requires 1 <= j <= max, 0 <= lo, ensures adm(lo, max, max / j)
{
    let k = max / j; let i = max / k;
    assert(k >= 1) by(nonlinear_arith) requires k == max / j, 1 <= j <= max {}
    assert(k <= max) by(nonlinear_arith) requires k == max / j, 1 <= j <= max {}
    assert(k * j <= max) by(nonlinear_arith) requires k == max / j, 1 <= j {}
    assert(i >= j) by(nonlinear_arith) requires k * j <= max, i == max / k, k >= 1 {}
    assert(i * k <= max < i * k + k) by(nonlinear_arith) requires i == max / k, k >= 1 {}
    assert(max < k * j + j) by(nonlinear_arith) requires k == max / j, 1 <= j {}
    assert(max < k * i + i) by(nonlinear_arith) requires max < k * j + j, i >= j, k >= 1 {}
    assert(max / i == k) by(nonlinear_arith) requires i * k <= max, max < k * i + i, i >= 1 {}
}
/// the slot of a high key exists
pub proof fn lemma_slot(lo: int, max: int, k: int) requires 1 <= lo < k <= max, ensures 1 <= max / k <= max / lo
{ assert(max / k >= 1) by(nonlinear_arith) requires 1 <= k <= max {} assert(max / k <= max / lo) by(nonlinear_arith) requires 1 <= lo < k <= max {} }
"""


def ent(t):
    return r"""
impl Sqrt_map_@C@_Va {
    pub open spec fn wflo(self) -> bool { self.max_lo_key >= 1 && self.cnt_lo@.len() == self.max_lo_key + 1 && self.tbl_lo@.len() == self.max_lo_key + 1 && (forall|i: int| 0 <= i < self.cnt_lo@.len() ==> 0 <= #[trigger] self.cnt_lo@[i] <= 1) }
    pub open spec fn wf(self) -> bool { self.wflo() && self.max_key >= 0 && self.cnt_hi@.len() == self.max_key / self.max_lo_key + 1 && self.tbl_hi@.len() == self.max_key / self.max_lo_key + 1
        && (forall|i: int| 0 <= i < self.cnt_hi@.len() ==> 0 <= #[trigger] self.cnt_hi@[i] <= 1) }
    pub open spec fn key(self, k: int) -> bool { adm(self.max_lo_key as int, self.max_key as int, k) }
    pub open spec fn has(self, k: int) -> bool { if k <= self.max_lo_key { self.cnt_lo@[k] == 1 } else { self.cnt_hi@[self.max_key as int / k] == 1 } }
    pub open spec fn val(self, k: int) -> Va { if k <= self.max_lo_key { self.tbl_lo@[k] } else { self.tbl_hi@[self.max_key as int / k] } }
    pub open spec fn same_bounds(self, o: Self) -> bool { self.max_lo_key == o.max_lo_key && self.max_key == o.max_key }
    pub open spec fn same_rest(self, o: Self, k: int) -> bool { forall|q: int| self.key(q) && q != k ==> #[trigger] self.has(q) == o.has(q) && self.val(q) == o.val(q) }
    pub proof fn lemma_sep(self, k: int, q: int) requires self.wf(), self.key(k), self.key(q), k != q, k > self.max_lo_key, q > self.max_lo_key, ensures self.max_key as int / k != self.max_key as int / q {}
}
""".replace("@C@", t)


def units():
    us = []
    for c, cn, t in (("int", "int", "i32"), ("long", "long", "i64")):
        S = "altruct::container::sqrt_map<%s,altruct::Va>::" % c
        O, F = "old(self_)", "final(self_)"
        K = "k as int"
        slot = "proof { if k > self_.max_lo_key { lemma_slot(self_.max_lo_key as int, self_.max_key as int, k as int); } }"
        wfk = ["%s.wf()" % O, "%s.key(k as int)" % O]
        const = lambda f: f["type"]["qualType"].rstrip().endswith("const")
        mut = lambda f: not const(f)
        keep = ["%s.wf()" % F, "%s.same_bounds(*%s)" % (F, O), "{1}.same_rest(*{0}, k as int)".format(O, F)]
        sep = "proof { assert forall|q: int| self_.key(q) && q != k implies #[trigger] self_.has(q) == old(self_).has(q) && self_.val(q) == old(self_).val(q) by { } }"
        cs = [
            Contract("sm_new_" + t, "altruct::sm_new", params=["lo", "max"], requires=["lo >= 1", "max >= 0", "lo < %s::MAX" % t, "max / lo < %s::MAX" % t],
                     ensures=["r.wf()", "r.max_lo_key == lo", "r.max_key == max", "forall|k: int| r.key(k) ==> !#[trigger] r.has(k)"]),
            Contract("sm_reset_" + t, S + "reset_max", params=["max_key"], requires=["%s.wflo()" % O, "max_key >= 0", "max_key / %s.max_lo_key < %s::MAX" % (O, t)],
                     ensures=["%s.wf()" % F, "%s.max_lo_key == %s.max_lo_key" % (F, O), "%s.max_key == max_key" % F, "forall|k: int| {0}.max_lo_key < k <= max_key ==> !#[trigger] {0}.has(k)".format(F), "forall|k: int| 0 <= k <= {0}.max_lo_key ==> #[trigger] {0}.has(k) == {1}.has(k) && {0}.val(k) == {1}.val(k)".format(F, O)],
                     hints={"exit": "proof { assert forall|k: int| self_.max_lo_key < k <= max_key implies !#[trigger] self_.has(k) by { lemma_slot(self_.max_lo_key as int, max_key as int, k); } }"}),
            Contract("sm_count_" + t, S + "count", params=["k"], requires=["self_.wf()", "self_.key(k as int)"], ensures=["r == (if self_.has(k as int) { 1i32 } else { 0 })"], hints={"entry": slot}),
            Contract("sm_get_" + t, S + "operator[]", pred=const, params=["k"], requires=["self_.wf()", "self_.key(k as int)"], ensures=["r == self_.val(k as int)"], hints={"entry": slot}),
            Contract("sm_call_" + t, S + "operator()", params=["k"], requires=["self_.wf()", "self_.key(k as int)"], ensures=["r == self_.val(k as int)"], hints={"entry": slot}),
            Contract("sm_el_" + t, S + "el", pred=const, params=["k"], requires=["self_.wf()", "self_.key(k as int)"], ensures=["r == self_.val(k as int)"], hints={"entry": slot}),
            Contract("sm_elm_" + t, S + "el", pred=mut, ret_mut=True, params=["k"], requires=wfk, ensures=keep + ["*r == %s.val(k as int)" % O, "%s.val(k as int) == *final(r)" % F, "%s.has(k as int) == %s.has(k as int)" % (F, O)], hints={"entry": slot}),
            Contract("sm_idx_" + t, S + "operator[]", pred=mut, ret_mut=True, params=["k"], requires=wfk, ensures=keep + ["*r == %s.val(k as int)" % O, "%s.val(k as int) == *final(r)" % F, "%s.has(k as int)" % F], hints={"entry": slot}),
            Contract("sm_at_" + t, S + "at", pred=const, params=["k"], requires=["self_.wf()", "self_.key(k as int)", "self_.has(k as int)"], ensures=["r == self_.val(k as int)"], hints={"entry": slot}),
            Contract("sm_at_absent_" + t, S + "at", pred=const, throws=True, params=["k"], requires=["self_.wf()", "self_.key(k as int)", "!self_.has(k as int)"], ensures=["false"], hints={"entry": slot}),
            Contract("sm_atm_" + t, S + "at", pred=mut, ret_mut=True, params=["k"], requires=wfk + ["%s.has(k as int)" % O], ensures=keep + ["*r == %s.val(k as int)" % O, "%s.val(k as int) == *final(r)" % F, "%s.has(k as int)" % F], hints={"entry": slot}),
            Contract("sm_atm_absent_" + t, S + "at", pred=mut, ret_mut=True, throws=True, params=["k"], requires=wfk + ["!%s.has(k as int)" % O], ensures=["false"], hints={"entry": slot}),
            Contract("sm_ins_" + t, S + "insert", params=["e"], requires=["%s.wf()" % O, "%s.key(e.0 as int)" % O], ensures=[x.replace("k as int", "e.0 as int") for x in keep] +
                     ["r.0 == e.0", "r.1 == !%s.has(e.0 as int)" % O, "%s.has(e.0 as int)" % F, "%s.val(e.0 as int) == (if %s.has(e.0 as int) { %s.val(e.0 as int) } else { e.1 })" % (F, O, O)], hints={"entry": slot.replace("k ", "e.0 ")}),
            Contract("sm_erase_" + t, S + "erase", params=["k"], requires=wfk, ensures=keep + ["r == (if %s.has(k as int) { 1i32 } else { 0 })" % O, "!%s.has(k as int)" % F], hints={"entry": slot}),
            Contract("sm_swap_" + t, S + "swap", params=["rhs"], ensures=["%s.max_lo_key == %s.max_lo_key && %s.max_key == %s.max_key && %s" % (a, b, a, b, " && ".join("%s.%s@ == %s.%s@" % (a, x, b, x) for x in ("cnt_lo", "tbl_lo", "cnt_hi", "tbl_hi"))) for a, b in (("final(self_)", "old(rhs)"), ("final(rhs)", "old(self_)"))]),
        ]
        tu = """namespace altruct { struct Va { long v_; };
typedef container::sqrt_map<%s, Va> Sm;
inline Sm sm_new(%s lo, %s max) { return Sm(lo, max); }
inline void use(Sm& m, const Sm& c, %s k, Va v) { m.reset_max(k); c.count(k); c[k]; c(k); c.el(k); m.el(k) = v; m[k] = v; c.at(k); m.at(k) = v; m.insert(Sm::value_type(k, v)); m.erase(k); m.swap(m); } }
""" % (c, c, c, c)
        u = Unit("sqrtmap_" + t, ["altruct/structure/container/sqrt_map.h"], tu, cs, SPEC + ent(c))
        u.type_alias.append((r"^sqrt_map<(\w+), Va>$", r"altruct::container::sqrt_map<\1, altruct::Va>"))
        for n in ("altruct::Va", "Va"):
            u.type_map[n] = "Va"
        u.type_map["value_type"] = "(%s, Va)" % t
        u.copy_types.add("Va"); u.arbs["Va"] = "any_Va()"; u.zeros["Va"] = "va_zero()"
        us.append(u)
    for c, t in (("int", "i32"), ("long", "i64")):
        S = "altruct::container::lohi_map<%s,altruct::Va>::" % c
        O, F = "old(self_)", "final(self_)"
        const = lambda f: f["type"]["qualType"].rstrip().endswith("const")
        mut = lambda f: not const(f)
        wfk = ["%s.wf()" % O, "k >= 0"]
        keep = ["%s.wf()" % F, "%s.max_lo_key == %s.max_lo_key" % (F, O), "{1}.same_rest(*{0}, k as int)".format(O, F)]
        cs = [
            Contract("lh_new_" + t, "altruct::lh_new", params=["lo"], requires=["lo >= 0", "lo < %s::MAX" % t], ensures=["r.wf()", "r.max_lo_key == lo", "forall|k: int| 0 <= k <= %s::MAX ==> !#[trigger] r.has(k)" % t]),
            Contract("lh_count_" + t, S + "count", params=["k"], requires=["self_.wf()", "k >= 0"], ensures=["r == (if self_.has(k as int) { 1i32 } else { 0 })"]),
            Contract("lh_at_" + t, S + "at", pred=const, params=["k"], requires=["self_.wf()", "k >= 0", "self_.has(k as int)"], ensures=["r == self_.val(k as int)"]),
            Contract("lh_atm_" + t, S + "at", pred=mut, ret_mut=True, params=["k"], requires=wfk + ["%s.has(k as int)" % O], ensures=keep + ["*r == %s.val(k as int)" % O, "%s.val(k as int) == *final(r)" % F, "%s.has(k as int)" % F]),
            Contract("lh_idx_" + t, S + "operator[]", ret_mut=True, params=["k"], requires=wfk, ensures=keep + ["%s.has(k as int) ==> *r == %s.val(k as int)" % (O, O), "%s.val(k as int) == *final(r)" % F, "%s.has(k as int)" % F]),
            Contract("lh_ins_" + t, S + "insert", params=["e"], requires=["%s.wf()" % O, "e.0 >= 0"], ensures=[x.replace("k as int", "e.0 as int") for x in keep] +
                     ["r.0 == e.0", "r.1 == !%s.has(e.0 as int)" % O, "%s.has(e.0 as int)" % F, "%s.val(e.0 as int) == (if %s.has(e.0 as int) { %s.val(e.0 as int) } else { e.1 })" % (F, O, O)]),
            Contract("lh_erase_" + t, S + "erase", params=["k"], requires=wfk, ensures=keep + ["r == (if %s.has(k as int) { 1i32 } else { 0 })" % O, "!%s.has(k as int)" % F]),
        ]
        tu = """namespace altruct { struct Va { long v_; };
typedef container::lohi_map<%s, Va> Lh;
inline Lh lh_new(%s lo) { return Lh(lo); }
inline void use(Lh& m, const Lh& c, %s k, Va v) { c.count(k); m[k] = v; c.at(k); m.at(k) = v; m.insert(Lh::value_type(k, v)); m.erase(k); } }
""" % (c, c, c)
        u = Unit("lohimap_" + t, ["altruct/structure/container/lohi_map.h"], tu, cs, SPEC + r"""
impl Lohi_map_@C@_Va {
    pub open spec fn wf(self) -> bool { self.max_lo_key >= 0 && self.cnt_lo@.len() == self.max_lo_key + 1 && self.tbl_lo@.len() == self.max_lo_key + 1 && (forall|i: int| 0 <= i < self.cnt_lo@.len() ==> 0 <= #[trigger] self.cnt_lo@[i] <= 1) }
    pub open spec fn has(self, k: int) -> bool { if k <= self.max_lo_key { self.cnt_lo@[k] == 1 } else { self.tbl_hi@.dom().contains(k as @T@) } }
    pub open spec fn val(self, k: int) -> Va { if k <= self.max_lo_key { self.tbl_lo@[k] } else { self.tbl_hi@[k as @T@] } }
    pub open spec fn same_rest(self, o: Self, k: int) -> bool { forall|q: int| 0 <= q <= @T@::MAX && q != k ==> #[trigger] self.has(q) == o.has(q) && (self.has(q) ==> self.val(q) == o.val(q)) }
}
""".replace("@C@", c).replace("@T@", t))
        for n in ("altruct::Va", "Va"):
            u.type_map[n] = "Va"
        u.type_map["value_type"] = "(%s, Va)" % t
        u.copy_types.add("Va"); u.arbs["Va"] = "any_Va()"; u.zeros["Va"] = "va_zero()"
        us.append(u)
    return us

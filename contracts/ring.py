"""An arbitrary commutative ring with partial division: uninterpreted operations constrained only by the ring axioms."""
CXX = r"""
#include "altruct/algorithm/math/base.h"
namespace altruct {
struct Re { long v_; Re& operator+=(const Re& o); Re& operator-=(const Re& o); Re& operator*=(const Re& o); Re& operator/=(const Re& o);
  Re operator+(const Re& o) const; Re operator-(const Re& o) const; Re operator*(const Re& o) const; Re operator/(const Re& o) const; Re operator-() const;
  bool operator==(const Re& o) const; bool operator!=(const Re& o) const; };
Re re_one(); Re re_zero(); Re re_cast(size_t k);
namespace math {
template<> struct identityT<Re> { static Re of(const Re& x) { return re_one(); } };
template<> struct zeroT<Re> { static Re of(const Re& x) { return re_zero(); } };
template<> struct castT<Re, size_t> { static Re of(const Re& ref, const size_t& k) { return re_cast(k); } };
} }
"""
SPEC = r"""
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Re { v: i64 }
#[verifier::external_body]
pub fn any_Re() -> Re { Re { v: 0 } }
pub uninterp spec fn radd(a: Re, b: Re) -> Re;
pub uninterp spec fn rmul(a: Re, b: Re) -> Re;
pub uninterp spec fn rneg(a: Re) -> Re;
pub uninterp spec fn rdiv(a: Re, b: Re) -> Re;
pub uninterp spec fn r0() -> Re;
pub uninterp spec fn r1() -> Re;
pub open spec fn rsub(a: Re, b: Re) -> Re { radd(a, rneg(b)) }
/// invertible
pub open spec fn runit(a: Re) -> bool { exists|b: Re| #[trigger] rmul(b, a) == r1() }
pub open spec fn rcast(k: nat) -> Re decreases k { if k == 0 { r0() } else { radd(rcast((k - 1) as nat), r1()) } }
#[verifier::external_body]
pub fn re_add(a: Re, b: Re) -> (r: Re) ensures r == radd(a, b) { a }
#[verifier::external_body]
pub fn re_sub(a: Re, b: Re) -> (r: Re) ensures r == rsub(a, b) { a }
#[verifier::external_body]
pub fn re_mul(a: Re, b: Re) -> (r: Re) ensures r == rmul(a, b) { a }
#[verifier::external_body]
pub fn re_div(a: Re, b: Re) -> (r: Re) ensures r == rdiv(a, b) { a }
#[verifier::external_body]
pub fn re_neg(a: Re) -> (r: Re) ensures r == rneg(a) { a }
#[verifier::external_body]
pub fn re_one() -> (r: Re) ensures r == r1() { Re { v: 0 } }
#[verifier::external_body]
pub fn re_zero() -> (r: Re) ensures r == r0() { Re { v: 0 } }
#[verifier::external_body]
pub fn re_cast(k: u64) -> (r: Re) ensures r == rcast(k as nat) { Re { v: 0 } }
#[verifier::external_body]
pub fn re_eq(a: Re, b: Re) -> (r: bool) ensures r == (a == b) { true }
#[verifier::external_body]
pub fn re_ne(a: Re, b: Re) -> (r: bool) ensures r == (a != b) { true }
#[verifier::external_body]
pub proof fn ax_add(a: Re, b: Re, c: Re) ensures radd(radd(a, b), c) == radd(a, radd(b, c)), radd(a, b) == radd(b, a), radd(a, r0()) == a, radd(a, rneg(a)) == r0() {}
#[verifier::external_body]
pub proof fn ax_mul(a: Re, b: Re, c: Re) ensures rmul(rmul(a, b), c) == rmul(a, rmul(b, c)), rmul(a, b) == rmul(b, a), rmul(a, r1()) == a {}
#[verifier::external_body]
pub proof fn ax_dist(a: Re, b: Re, c: Re) ensures rmul(a, radd(b, c)) == radd(rmul(a, b), rmul(a, c)) {}
#[verifier::external_body]
pub proof fn ax_div(a: Re, b: Re) ensures runit(b) ==> rmul(rdiv(a, b), b) == a {}
// derived
pub proof fn lemma_radd_cancel(a: Re, b: Re, c: Re) requires radd(a, c) == radd(b, c), ensures a == b { ax_add(a, c, rneg(c)); ax_add(b, c, rneg(c)); ax_add(c, c, c); ax_add(a, c, c); ax_add(b, c, c); }
pub proof fn lemma_rsub(a: Re, b: Re) ensures radd(rsub(a, b), b) == a, rsub(radd(a, b), b) == a, radd(b, rsub(a, b)) == a, rsub(a, a) == r0(), rsub(a, r0()) == a
{ ax_add(a, rneg(b), b); ax_add(rneg(b), b, b); ax_add(b, b, b); ax_add(a, b, rneg(b)); ax_add(a, a, a); ax_add(rsub(a, b), b, b); ax_add(r0(), r0(), r0()); ax_add(r0(), rneg(r0()), r0()); lemma_radd_cancel(rneg(r0()), r0(), r0()); }
pub proof fn lemma_rmul0(a: Re) ensures rmul(a, r0()) == r0(), rmul(r0(), a) == r0()
{ ax_dist(a, r0(), r0()); ax_add(r0(), r0(), r0()); ax_add(rmul(a, r0()), r0(), r0()); ax_add(r0(), rmul(a, r0()), r0()); lemma_radd_cancel(rmul(a, r0()), r0(), rmul(a, r0())); ax_mul(a, r0(), a); }
pub proof fn lemma_rmul_neg(a: Re, b: Re) ensures rmul(a, rneg(b)) == rneg(rmul(a, b))
{ ax_dist(a, b, rneg(b)); ax_add(b, b, b); lemma_rmul0(a); let m = rmul(a, b); let n = rmul(a, rneg(b)); ax_add(m, n, n); ax_add(m, rneg(m), m); ax_add(n, m, m); ax_add(m, m, m); ax_add(rneg(m), m, m); lemma_radd_cancel(n, rneg(m), m); }
pub proof fn lemma_rneg(a: Re, b: Re) ensures rneg(rneg(a)) == a, rneg(radd(a, b)) == radd(rneg(a), rneg(b)), rneg(r0()) == r0()
{ ax_add(a, a, a); ax_add(rneg(a), a, a); ax_add(a, rneg(a), a); ax_add(rneg(a), rneg(rneg(a)), a); ax_add(rneg(rneg(a)), rneg(a), a); lemma_radd_cancel(rneg(rneg(a)), a, rneg(a));
  let s = radd(a, b); let t = radd(rneg(a), rneg(b)); ax_add(s, s, s); ax_add(b, b, b); ax_add(rneg(s), s, s); ax_add(a, b, t); ax_add(b, rneg(a), rneg(b)); ax_add(b, rneg(b), rneg(a)); ax_add(rneg(a), rneg(b), b); ax_add(r0(), rneg(a), rneg(a)); ax_add(rneg(a), r0(), r0()); ax_add(s, t, t); ax_add(t, s, s); lemma_radd_cancel(t, rneg(s), s);
  ax_add(r0(), rneg(r0()), r0()); ax_add(rneg(r0()), r0(), r0()); }
/// inverses are unique
pub proof fn lemma_rinv_unique(a: Re, b: Re, c: Re) requires rmul(b, a) == r1(), rmul(c, a) == r1(), ensures b == c
{ ax_mul(b, a, c); ax_mul(a, c, c); ax_mul(c, a, b); ax_mul(b, r1(), c); ax_mul(r1(), c, b); ax_mul(c, r1(), b); }
"""
TRUSTED = ["the abstract coefficient type stands for every instantiation: uninterpreted total ring operations with the commutative ring axioms, division exact for invertible divisors (the hypothesis of the property)"]
BIN = {"operator+": "re_add", "operator-": "re_sub", "operator*": "re_mul", "operator/": "re_div", "operator==": "re_eq", "operator!=": "re_ne"}


class Hook:
    def call(self, tr, e, name, obj, args, fdef, stmt):
        if obj is None or not name.startswith("operator") or tr.ty(obj) != "Re":
            return None
        if name in ("operator+=", "operator-=", "operator*=", "operator/="):
            pre = []
            pl = tr.place(obj, pre)
            v = "%s(%s, %s)" % (BIN[name[:-1]], pl, tr.exval(args[0]))
            if stmt:
                return pre + ["%s = %s;" % (pl, v)]
            return "{ %s %s = %s; %s }" % (" ".join(pre), pl, v, pl)
        if name == "operator-" and not args:
            return "re_neg(%s)" % tr.exval(obj)
        if name in BIN and len(args) == 1:
            return "%s(%s, %s)" % (BIN[name], tr.exval(obj), tr.exval(args[0]))
        return None


def setup(u):
    u.tu = CXX + u.tu
    for n in ("altruct::Re", "Re"):
        u.type_map[n] = "Re"
    u.copy_types.add("Re")
    u.arbs["Re"] = "any_Re()"
    u.hooks.append(Hook())
    for n in ("re_one", "re_zero", "re_cast"):
        u.externs[n] = n
    u.specs = SPEC + u.specs
    u.trusted += TRUSTED
    return u

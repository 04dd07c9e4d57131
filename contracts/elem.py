"""An arbitrary element type: the C++ side declares a type whose operations have no body, the proof side treats them as
uninterpreted functions constrained only by the algebraic laws the property assumes."""
CXX = r"""
namespace altruct {
struct El { long v_; El& operator*=(const El& o); bool operator==(const El& o) const; bool operator!=(const El& o) const; };
El el_op(const El& a, const El& b); El el_one(); El el_zero();
}
"""
SPEC = r"""
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct El { v: i64 }
#[verifier::external_body]
pub fn any_El() -> El { El { v: 0 } }
pub uninterp spec fn op(a: El, b: El) -> El;
pub uninterp spec fn one() -> El;
#[verifier::external_body]
pub fn el_op(a: El, b: El) -> (r: El) ensures r == op(a, b) { a }
#[verifier::external_body]
pub fn el_one() -> (r: El) ensures r == one() { El { v: 0 } }
#[verifier::external_body]
pub proof fn ax_assoc(a: El, b: El, c: El) ensures op(op(a, b), c) == op(a, op(b, c)) {}
#[verifier::external_body]
pub proof fn ax_unit(a: El) ensures op(a, one()) == a, op(one(), a) == a {}
"""
TRUSTED = ["the abstract element type stands for every instantiation: its operation is an uninterpreted total function assumed associative with a two-sided identity (the hypothesis of the property)"]


class Hook:
    """r *= x  ->  r = op(r, x)"""
    def call(self, tr, e, name, obj, args, fdef, stmt):
        if name == "operator*=" and obj is not None and tr.ty(obj) == "El":
            pre = []
            pl = tr.place(obj, pre)
            v = "el_op(%s, %s)" % (pl, tr.exval(args[0]))
            if stmt:
                return pre + ["%s = %s;" % (pl, v)]
            return "{ %s %s = %s; %s }" % (" ".join(pre), pl, v, pl)
        return None


COMM = r"""
#[verifier::external_body]
pub proof fn ax_comm(a: El, b: El) ensures op(a, b) == op(b, a) {}
"""
FOLD = r"""
/// a[lo] * ... * a[hi - 1], left to right; the identity when empty
pub open spec fn fold(a: Seq<El>, lo: int, hi: int) -> El decreases hi - lo { if lo >= hi { one() } else { op(fold(a, lo, hi - 1), a[hi - 1]) } }
pub proof fn lemma_fold_split(a: Seq<El>, lo: int, mid: int, hi: int)
    requires lo <= mid <= hi, ensures fold(a, lo, hi) == op(fold(a, lo, mid), fold(a, mid, hi)), decreases hi - mid,
{ if mid < hi { lemma_fold_split(a, lo, mid, hi - 1); ax_assoc(fold(a, lo, mid), fold(a, mid, hi - 1), a[hi - 1]); } else { ax_unit(fold(a, lo, hi)); } }
pub proof fn lemma_fold_one(a: Seq<El>, i: int) ensures fold(a, i, i + 1) == a[i] { ax_unit(a[i]); assert(fold(a, i, i) == one()); }
pub proof fn lemma_fold_ones(a: Seq<El>, lo: int, hi: int)
    requires 0 <= lo, hi <= a.len(), forall|i: int| lo <= i < hi ==> #[trigger] a[i] == one(), ensures fold(a, lo, hi) == one(), decreases hi - lo,
{ if lo < hi { lemma_fold_ones(a, lo, hi - 1); ax_unit(one()); } }
pub proof fn lemma_fold_ext(a: Seq<El>, b: Seq<El>, lo: int, hi: int)
    requires forall|i: int| lo <= i < hi ==> #[trigger] a[i] == b[i], ensures fold(a, lo, hi) == fold(b, lo, hi), decreases hi - lo,
{ if lo < hi { lemma_fold_ext(a, b, lo, hi - 1); } }
"""


def setup(u, comm=False):
    u.tu = CXX + u.tu
    u.type_map["altruct::El"] = "El"
    u.type_map["El"] = "El"
    u.copy_types.add("El")
    u.arbs["El"] = "any_El()"
    u.hooks.append(Hook())
    u.externs["el_op"] = "el_op"
    u.externs["el_one"] = "el_one"
    u.specs = SPEC + (COMM if comm else "") + u.specs
    u.trusted += TRUSTED
    return u

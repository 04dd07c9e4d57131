"""buffered readers and writers (io/reader.h, io/writer.h, io/fast_io.h)"""
from unit import Unit, Contract
from translate import Bind
N = "altruct::io::"
CAP = "0x1000_0000_0000"
SPEC = r"""
#[verifier::external_body]
pub fn any_a50() -> [i8; 50] { [0i8; 50] }
/// the underlying writer (or FILE) behind its interface: the bytes it has been given
#[verifier::external_body]
pub struct Snk { p: u64 }
impl Snk { pub uninterp spec fn got(&self) -> Seq<i8>; }
#[verifier::external_body]
pub fn snk_write(s: &mut Snk, b: &Vec<i8>, o: i64, n: u64)
    requires 0 <= o, o + n <= b@.len(), ensures final(s).got() == old(s).got() + b@.subrange(o as int, o + n) { }
#[verifier::external_body]
pub fn snk_flush(s: &mut Snk) ensures final(s).got() == old(s).got() { }
/// the char a character code stands for
pub open spec fn b8(c: int) -> i8 { (((c + 0x80) % 0x100) - 0x80) as i8 }
/// length of a C string
pub open spec fn zlen(p: Seq<i8>, k: int) -> int decreases p.len() - k { if 0 <= k < p.len() && p[k] != 0 { zlen(p, k + 1) } else { k } }
pub proof fn lemma_zlen(p: Seq<i8>, k: int) requires 0 <= k <= p.len(), ensures k <= zlen(p, k) <= p.len() decreases p.len() - k { if k < p.len() && p[k] != 0 { lemma_zlen(p, k + 1); } }
#[verifier::external_body]
pub fn c_strlen(p: &Vec<i8>) -> (r: u64) requires zlen(p@, 0) < p@.len(), ensures r == zlen(p@, 0) { 0 }

/// the underlying reader (or FILE) behind its interface: the bytes it has still to deliver
#[verifier::external_body]
pub struct Src { p: u64 }
impl Src { pub uninterp spec fn rest(&self) -> Seq<i8>; }
/// reader::read and fread: up to n of the next bytes are stored; none only when there is none left (or n is 0)
#[verifier::external_body]
pub fn src_read(s: &mut Src, b: &mut Vec<i8>, o: i64, n: u64) -> (r: u64)
    requires 0 <= o, o + n <= old(b)@.len(),
    ensures r <= n, r <= old(s).rest().len(), final(b)@.len() == old(b)@.len(),
        r == 0 ==> n == 0 || old(s).rest().len() == 0,
        final(s).rest() == old(s).rest().subrange(r as int, old(s).rest().len() as int),
        forall|k: int| o <= k < o + r ==> #[trigger] final(b)@[k] == old(s).rest()[k - o],
        forall|k: int| (0 <= k < o || o + n <= k < old(b)@.len()) ==> #[trigger] final(b)@[k] == old(b)@[k],
{ 0 }
/// std::copy inside one array, towards its front
#[verifier::external_body]
pub fn vec_copy_within(b: &mut Vec<i8>, i: i64, j: i64, k: i64)
    requires 0 <= k <= i <= j <= old(b)@.len(),
    ensures final(b)@.len() == old(b)@.len(),
        forall|t: int| k <= t < k + (j - i) ==> #[trigger] final(b)@[t] == old(b)@[t - k + i],
        forall|t: int| (0 <= t < k || k + (j - i) <= t < old(b)@.len()) ==> #[trigger] final(b)@[t] == old(b)@[t],
{ }
/// the value of a char as read_char returns it
pub open spec fn code(b: i8) -> int { if b >= 0 { b as int } else { b + 256 } }
pub proof fn lemma_code(b: i8) ensures (b as u8) as int == code(b), 0 <= code(b) <= 255
{ assert(b >= 0i8 ==> (b as u8) as i16 == b as i16) by(bit_vector); assert(b < 0i8 ==> (b as u8) as i16 == (b as i16) + 256i16) by(bit_vector); }
/// ... and of the char it is turned back into
pub proof fn lemma_ci(b: i8) ensures (code(b) as i32) as i8 == b { lemma_code(b); let c: i32 = (b as u8) as i32; assert(c as i8 == b) by(bit_vector) requires c == (b as u8) as i32; }
pub open spec fn isdig(b: i8) -> bool { 48 <= b <= 57 }
pub open spec fn isws(b: i8) -> bool { 0 <= b <= 32 }
/// ends of the runs starting at k: digits, blanks, anything else
pub open spec fn nd(p: Seq<i8>, k: int) -> int decreases p.len() - k { if 0 <= k < p.len() && isdig(p[k]) { nd(p, k + 1) } else { k } }
pub open spec fn nws(p: Seq<i8>, k: int) -> int decreases p.len() - k { if 0 <= k < p.len() && isws(p[k]) { nws(p, k + 1) } else { k } }
pub open spec fn nnw(p: Seq<i8>, k: int) -> int decreases p.len() - k { if 0 <= k < p.len() && !isws(p[k]) { nnw(p, k + 1) } else { k } }
pub open spec fn ndl(p: Seq<i8>, k: int, d: i8) -> int decreases p.len() - k { if 0 <= k < p.len() && p[k] != d { ndl(p, k + 1, d) } else { k } }
pub proof fn lemma_nd(p: Seq<i8>, k: int) requires 0 <= k <= p.len(), ensures k <= nd(p, k) <= p.len(), forall|j: int| k <= j < nd(p, k) ==> isdig(#[trigger] p[j]), nd(p, k) < p.len() ==> !isdig(p[nd(p, k)]) decreases p.len() - k { if k < p.len() && isdig(p[k]) { lemma_nd(p, k + 1); } }
pub proof fn lemma_nws(p: Seq<i8>, k: int) requires 0 <= k <= p.len(), ensures k <= nws(p, k) <= p.len() decreases p.len() - k { if k < p.len() && isws(p[k]) { lemma_nws(p, k + 1); } }
pub open spec fn skip(p: Seq<i8>, k: int) -> Seq<i8> { p.subrange(k, p.len() as int) }
/// the number a digit string denotes
pub open spec fn dval(a: Seq<i8>) -> int decreases a.len() { if a.len() == 0 { 0 } else { 10 * dval(a.drop_last()) + (a.last() - 48) } }
pub open spec fn sval(a: Seq<i8>, s: int) -> int { if s < 0 { -dval(a) } else { dval(a) } }
pub proof fn lemma_dval(p: Seq<i8>, j: int, n: int) requires 0 <= j <= n <= p.len(), forall|i: int| 0 <= i < n ==> isdig(#[trigger] p[i]), ensures 0 <= dval(p.subrange(0, j)) <= dval(p.subrange(0, n)) decreases n
{ if n > j { lemma_dval(p, j, n - 1); lemma_dval(p, 0, n - 1); assert(p.subrange(0, n).drop_last() =~= p.subrange(0, n - 1)); assert(p.subrange(0, n).last() == p[n - 1]); }
  else if n > 0 { lemma_dval(p, n - 1, n - 1); assert(p.subrange(0, n).drop_last() =~= p.subrange(0, n - 1)); assert(p.subrange(0, n).last() == p[n - 1]); } }
pub proof fn lemma_dstep(p: Seq<i8>, k: int) requires 0 <= k < p.len(), ensures dval(p.subrange(0, k + 1)) == 10 * dval(p.subrange(0, k)) + (p[k] - 48)
{ assert(p.subrange(0, k + 1).drop_last() =~= p.subrange(0, k)); assert(p.subrange(0, k + 1).last() == p[k]); }
/// what read_integral_number makes of the bytes p: blanks, sign, digits
pub open spec fn w1(p: Seq<i8>) -> Seq<i8> { skip(p, nws(p, 0)) }
pub open spec fn sg(p: Seq<i8>) -> int { if p.len() > 0 && p[0] == 45 { -1 } else { 1 } }
pub open spec fn w2(p: Seq<i8>) -> Seq<i8> { if p.len() > 0 && (p[0] == 45 || p[0] == 43) { skip(p, 1) } else { p } }
pub open spec fn dn(p: Seq<i8>, s: int) -> int { sval(p.subrange(0, nd(p, 0)), s) }
pub open spec fn num(p: Seq<i8>) -> int { dn(w2(w1(p)), sg(w1(p))) }
pub open spec fn after(p: Seq<i8>) -> Seq<i8> { skip(w2(w1(p)), nd(w2(w1(p)), 0)) }
/// decimal digits of n, at least `len` of them
pub open spec fn digs(n: int, len: int) -> Seq<i8> decreases (if n > 0 { n } else { 0 }), (if len > 0 { len } else { 0 }) { if n <= 0 && len <= 0 { Seq::empty() } else { digs(if n <= 0 { 0 } else { n / 10 }, len - 1).push((48 + (if n <= 0 { 0 } else { n % 10 })) as i8) } }
pub open spec fn dec(v: int, len: int) -> Seq<i8> { if v < 0 { seq![45i8] + digs(-v, len) } else { digs(v, len) } }
pub proof fn lemma_digs(n: int, len: int) requires n >= 0, ensures dval(digs(n, len)) == n, forall|i: int| 0 <= i < digs(n, len).len() ==> isdig(#[trigger] digs(n, len)[i]), (n > 0 || len > 0) ==> digs(n, len).len() > 0 decreases n, (if len > 0 { len } else { 0 })
{ if n > 0 || len > 0 { let a = digs(n / 10, len - 1); lemma_digs(n / 10, len - 1); let b = digs(n, len); assert(b == a.push((48 + n % 10) as i8)); assert(b.drop_last() =~= a); assert forall|i: int| 0 <= i < b.len() implies isdig(#[trigger] b[i]) by { if i < a.len() { assert(b[i] == a[i]); } } } }
/// reading back what was written gives the same number and leaves exactly what follows it
pub proof fn lemma_roundtrip(v: int, len: int, t: Seq<i8>)
    requires len >= 1, t.len() == 0 || !isdig(t[0]), ensures num(dec(v, len) + t) == v, after(dec(v, len) + t) == t
{
    let n = if v < 0 { -v } else { v }; let a = digs(n, len); let p = dec(v, len) + t;
    lemma_digs(n, len);
    assert(p[0] == dec(v, len)[0]);
    if v >= 0 { assert(isdig(a[0])); }
    assert(!isws(p[0])); assert(nws(p, 0) == 0); assert(w1(p) =~= p);
    let q = w2(p);
    assert(q =~= a + t) by { if v < 0 { assert(p[0] == 45); assert(skip(p, 1) =~= a + t); } else { assert(isdig(p[0])); } }
    lemma_run(a, t, 0);
    assert(q.subrange(0, a.len() as int) =~= a); assert(skip(q, a.len() as int) =~= t);
}
pub proof fn lemma_run(a: Seq<i8>, t: Seq<i8>, k: int) requires 0 <= k <= a.len(), t.len() == 0 || !isdig(t[0]), forall|i: int| 0 <= i < a.len() ==> isdig(#[trigger] a[i]), ensures nd(a + t, k) == a.len() decreases a.len() - k
{ let q = a + t; if k < a.len() { assert(q[k] == a[k]); lemma_run(a, t, k + 1); } else if t.len() > 0 { assert(q[k] == t[0]); } }
"""
RD = r"""
/// the bytes a reader has still to hand out
pub open spec fn pend(s: @S) -> Seq<i8> { s.buff@.subrange(s.ptr as int, s.end as int) + s.@F.rest() }
pub open spec fn wf(s: @S) -> bool { 0 <= s.ptr <= s.end <= s.capacity && s.buff@.len() == s.capacity + 1 && 1 <= s.capacity < @C }
/// the bytes with the one that was just read put back
pub open spec fn put(s: @S, c: int) -> Seq<i8> { if c == -1 { pend(s) } else { seq![s.buff@[s.ptr - 1]] + pend(s) } }
pub open spec fn just(s: @S, c: int) -> bool { wf(s) && (if c == -1 { pend(s).len() == 0 } else { s.ptr > 0 && c == code(s.buff@[s.ptr - 1]) }) }
/// c is the byte of p at k (or the end), the ones from there on are put(s, c)
#[verifier::opaque]
pub open spec fn at(s: @S, c: int, p: Seq<i8>, k: int) -> bool {
    just(s, c) && 0 <= k <= p.len() && (c == -1 <==> k == p.len()) && put(s, c) == skip(p, k) && (k < p.len() ==> c == code(p[k]) && pend(s) == skip(p, k + 1)) }
pub proof fn lemma_at(s: @S, c: int, p: Seq<i8>, k: int) requires wf(s), 0 <= k <= p.len(),
    k == p.len() ==> c == -1 && pend(s).len() == 0, k < p.len() ==> s.ptr > 0 && p[k] == s.buff@[s.ptr - 1] && c == code(p[k]) && pend(s) == skip(p, k + 1), ensures at(s, c, p, k)
{ reveal(at); if k == p.len() { assert(skip(p, k) =~= pend(s)); } else { lemma_code(p[k]); assert(skip(p, k) =~= seq![p[k]] + skip(p, k + 1)); } }
pub proof fn lemma_use(s: @S, c: int, p: Seq<i8>, k: int) requires at(s, c, p, k), ensures just(s, c), 0 <= k <= p.len(), (c == -1 <==> k == p.len()), put(s, c) == skip(p, k), (k < p.len() ==> c == code(p[k]) && pend(s) == skip(p, k + 1)) { reveal(at); }
"""

class Hook:
    def __init__(self, fld):
        self.fld = fld
    def ptr_field(self, tr, e):
        nm = e.get("name")
        if nm not in ("ptr", "end", "buff"):
            return None
        pl = tr.place(e["inner"][0])
        return Bind("ptr", None if nm == "buff" else "%s.%s" % (pl, nm), "i8", base=pl + ".buff")
    def call(self, tr, e, name, obj, args, fdef, stmt):
        if name == "read" and obj is not None and tr.place(obj).endswith("." + self.fld):
            b, o = tr.ptr(args[0])
            n = args[1]
        elif name == "fread" and len(args) == 4 and tr.place(args[3]).endswith("." + self.fld) and tr.exval(args[1]) == "1u64":
            b, o = tr.ptr(args[0])
            n = args[2]
        elif name == "write" and obj is not None and tr.place(obj).endswith("self_.out") or name == "fwrite" and len(args) == 4 and tr.place(args[3]).endswith("." + self.fld) and tr.exval(args[1]) == "1u64":
            b, o = tr.ptr(args[0])
            return ["snk_write(&mut self_.%s, &%s, %s, %s);" % (self.fld, b.base, o, tr.exval(args[2 if name == "fwrite" else 1]))]
        elif name == "flush" and obj is not None and tr.place(obj).endswith("self_.out") or name == "fflush":
            return ["snk_flush(&mut self_.%s);" % self.fld]
        elif name == "available" and obj is not None and tr.strip(obj).get("kind") == "CXXMemberCallExpr" and tr.callee_name(tr.strip(obj)) == "flush":
            m = tr.strip_callee(tr.strip(obj)["inner"][0])
            assert tr.strip(m["inner"][0])["kind"] == "CXXThisExpr"
            return "{ w_flush(self_); w_available(self_) }"
        elif name == "strlen":
            b, o = tr.ptr(args[0])
            assert o == "0i64"
            return "c_strlen(%s)" % b.base
        elif name == "copy" and len(args) == 3:
            (b1, o1), (b2, o2), (b3, o3) = [tr.ptr(a) for a in args]
            if b1.base == b2.base == b3.base:
                return ["{ let i__c = %s; let j__c = %s; let k__c = %s; vec_copy_within(&mut %s, i__c, j__c, k__c); }" % (o1, o2, o3, b1.base)]
            if b1.base == b2.base:
                return ["{ let i__c = %s; let j__c = %s; let k__c = %s; vec_copy_range(&%s, i__c, j__c, %s, k__c); }" % (o1, o2, o3, b1.base, tr.borrow(b3.base, False))]
            return None
        else:
            return None
        v = "{ let n__r = %s; let o__r = %s; src_read(&mut self_.%s, &mut %s, o__r, n__r) }" % (tr.exval(n), o, self.fld, b.base)
        return [v + ";"] if stmt else v

FR = "final(self_).capacity == old(self_).capacity"
RF = "final(self_).read_failed == old(self_).read_failed"
def reader():
    c, d = N + "buffered_reader::", N + "simple_reader::"
    return rd("io_reader", "altruct/io/reader.h", c, d, "Buffered_reader", "in_", True)
def fastr():
    c = N + "fast_read::"
    return rd("io_fast_read", "altruct/io/fast_io.h", c, c, "Fast_read", "fin", False)

INTS = (("i32", "int"), ("i64", "long long"), ("l64", "long"), ("u64", "unsigned long long"), ("u32", "unsigned int"))
def rd(name, hdr, c, d, st, fld, br):
    W = ["wf(*old(self_))"]
    E = ["wf(*final(self_))", FR]
    RFX = [RF] if br else []
    same = "pend(*final(self_)) == pend(*old(self_))"
    pre = "br_" if br else "fr_"
    AC = dict(attrs=["#[verifier::allow_complex_invariants]"])
    C = [
        Contract(pre + "refill", c + "refill", **AC, requires=W, ensures=E + RFX + [same, "r == final(self_).end - final(self_).ptr", "r == old(self_).capacity || final(self_).%s.rest().len() == 0" % fld],
            hints={"entry": "let ghost p = pend(*self_); let ghost b0 = self_.buff@; let ghost p0 = self_.ptr as int; let ghost e0 = self_.end as int;",
                   "L0.before": "assert(self_.buff@.subrange(0, e0 - p0) =~= b0.subrange(p0, e0)); assert(pend(*self_) =~= p);",
                   "L0.begin": "let ghost q = pend(*self_); let ghost b1 = self_.buff@; let ghost e1 = self_.end as int; let ghost r1 = self_.%s.rest();" % fld,
                   "use:%s.after" % ("read" if br else "fread"): "",
                   "L0.break": "assert(self_.buff@.subrange(0, e1) =~= b1.subrange(0, e1)); assert(self_.%s.rest() =~= r1);" % fld,
                   "L0.end": "assert(pend(*self_) =~= q);", "exit": "assert(pend(*self_) =~= p);"},
            loops={0: dict(invariant=["self_.ptr == 0", "self_.end == available", "available <= self_.capacity", "self_.buff@.len() == self_.capacity + 1", "self_.capacity == old(self_).capacity", "1 <= self_.capacity < " + CAP, "pend(*self_) == p"] + ([ "self_.read_failed == old(self_).read_failed"] if br else []),
                ensures=["self_.end == self_.capacity || self_.%s.rest().len() == 0" % fld], decreases="self_.capacity - available")}),
        Contract(pre + "reserve", c + "reserve", params=["count"], requires=W, ensures=E + RFX + [same, "r == final(self_).end - final(self_).ptr", "r >= count || r == old(self_).capacity || final(self_).%s.rest().len() == 0" % fld]),
        Contract(pre + "read_char", c + "read_char", requires=W, ensures=E + ["pend(*old(self_)).len() == 0 ==> r == -1 && pend(*final(self_)).len() == 0" + (" && final(self_).read_failed" if br else ""),
                "pend(*old(self_)).len() > 0 ==> r == code(pend(*old(self_))[0]) && final(self_).ptr > 0 && final(self_).buff@[final(self_).ptr - 1] == pend(*old(self_))[0] && pend(*final(self_)) == skip(pend(*old(self_)), 1)" + (" && " + RF if br else ""),
                "forall|p: Seq<i8>, k: int| 0 <= k <= p.len() && #[trigger] skip(p, k) == pend(*old(self_)) ==> at(*final(self_), r as int, p, k)"],
            hints={"entry": "let ghost p = pend(*self_);", "exit": """proof {
    if p.len() > 0 { lemma_code(p[0]); assert(self_.ptr > 0); assert(self_.buff@[self_.ptr - 1] == p[0]); assert(pend(*self_) =~= skip(p, 1)); }
    assert forall|q: Seq<i8>, k: int| 0 <= k <= q.len() && #[trigger] skip(q, k) == p implies at(*self_, ret__v as int, q, k) by { if k < q.len() { assert(p[0] == q[k]); assert(skip(q, k + 1) =~= skip(p, 1)); } lemma_at(*self_, ret__v as int, q, k); } }"""}),
        Contract(pre + "unread", c + "unread_char", requires=W + ["old(self_).ptr > 0"], ensures=E + RFX + ["pend(*final(self_)) == seq![old(self_).buff@[old(self_).ptr - 1]] + pend(*old(self_))"],
            hints={"exit": "assert(pend(*self_) =~= seq![old(self_).buff@[old(self_).ptr - 1]] + pend(*old(self_)));"}),
    ]
    if br:
        C += [Contract("br_skip", c + "skip", params=["count"], requires=W, ensures=E + RFX + ["r == (if count < old(self_).end - old(self_).ptr { count as int } else { old(self_).end - old(self_).ptr })", "pend(*final(self_)) == skip(pend(*old(self_)), r as int)"],
                hints={"exit": "assert(pend(*self_) =~= skip(pend(*old(self_)), count as int));"}),
              # at most a buffer at a time: a longer request may get less than there is
              Contract("br_read", c + "read", params=["buffer", "count"], modes={"buffer": "ptr:dst"}, requires=W + ["0 <= buffer", "buffer + count <= old(dst)@.len()", "old(dst)@.len() < " + CAP],
                ensures=E + ["r <= count", "r <= pend(*old(self_)).len()", "r == count || r == pend(*old(self_)).len() || r >= old(self_).capacity", "pend(*final(self_)) == skip(pend(*old(self_)), r as int)", "final(dst)@.len() == old(dst)@.len()", "forall|k: int| buffer <= k < buffer + r ==> #[trigger] final(dst)@[k] == pend(*old(self_))[k - buffer]",
                    "forall|k: int| (0 <= k < buffer || buffer + r <= k < old(dst)@.len()) ==> #[trigger] final(dst)@[k] == old(dst)@[k]", "final(self_).read_failed == (old(self_).read_failed || r < count)"],
                hints={"entry": "let ghost p = pend(*self_);", "exit": "assert(pend(*self_) =~= skip(p, count as int)); assert forall|k: int| buffer <= k < buffer + count implies #[trigger] dst@[k] == p[k - buffer] by { }"})]
    P = {"entry": "let ghost p = pend(*self_); let ghost mut k: int = 0int; proof { assert(skip(p, 0) =~= p); }"}
    INV = ["wf(*self_)", "self_.capacity == old(self_).capacity", "p == pend(*old(self_))", "at(*self_, c as int, p, k)"]
    DEC = "p.len() - k"
    STEP = "proof { lemma_use(*self_, c as int, p, k); lemma_code(p[k]); k = k + 1; }"
    if not br:
        C += [Contract("fr_available", c + "available", params=[], requires=W, ensures=E + [same, "r == final(self_).end - final(self_).ptr", "final(self_).ptr == old(self_).ptr"]),
              Contract("fr_skip", c + "skip", params=["count"], requires=W + ["count <= old(self_).end - old(self_).ptr"], ensures=E + ["pend(*final(self_)) == skip(pend(*old(self_)), count as int)"], hints={"exit": "assert(pend(*self_) =~= skip(pend(*old(self_)), count as int));"})]
    C += [
        Contract("rd_skip_ws", d + "skip_whitespaces", requires=W, ensures=E + ["pend(*final(self_)) == w1(pend(*old(self_)))"],
            hints=dict(P, **{"L0.begin": STEP, "L0.after": "proof { lemma_use(*self_, c as int, p, k); if k < p.len() { lemma_code(p[k]); } }"}), loops={0: dict(invariant=INV + ["nws(p, k) == nws(p, 0)"], decreases=DEC)}),
        Contract("rd_sign", d + "read_sign", requires=W, ensures=E + ["pend(*final(self_)) == w2(pend(*old(self_)))", "r == sg(pend(*old(self_)))"], hints={"entry": "let ghost p = pend(*self_); proof { assert(skip(p, 0) =~= p); }", "use:read_char.after": "proof { if p.len() > 0 { lemma_code(p[0]); } }"}),
    ]
    C.append(Contract("rd_string", d + "read_string", params=[], rlimit=60, requires=W, ensures=E + ["({ let p = w1(pend(*old(self_))); r@ == p.subrange(0, nnw(p, 0)) && pend(*final(self_)) == skip(p, nnw(p, 0)) })"],
        hints={"L0.before": "let ghost p = w1(pend(*old(self_))); let ghost mut k: int = 0int; proof { lemma_nws(pend(*old(self_)), 0); assert(skip(p, 0) =~= p); assert(p.subrange(0, 0) =~= Seq::<i8>::empty()); }",
               "L0.begin": "proof { lemma_use(*self_, c as int, p, k); lemma_code(p[k]); lemma_ci(p[k]); assert(p.subrange(0, k + 1) =~= p.subrange(0, k).push(p[k])); k = k + 1; }", "L0.after": "proof { lemma_use(*self_, c as int, p, k); if k < p.len() { lemma_code(p[k]); } }"},
        loops={0: dict(invariant=["wf(*self_)", "self_.capacity == old(self_).capacity", "p == w1(pend(*old(self_)))", "at(*self_, c as int, p, k)", "nnw(p, k) == nnw(p, 0)", "$s@ == p.subrange(0, k)"], decreases=DEC)}))
    if br:
        C.append(Contract("rd_line", d + "read_line", params=["delimiter"], requires=W, ensures=E + ["({ let p = pend(*old(self_)); let k = ndl(p, 0, delimiter); r@ == p.subrange(0, k) && pend(*final(self_)) == skip(p, if k < p.len() { k + 1 } else { k }) })"],
            hints=dict(P, **{"L0.before": "proof { lemma_code(delimiter); assert(p.subrange(0, 0) =~= Seq::<i8>::empty()); }", "L0.begin": "proof { lemma_use(*self_, c as int, p, k); lemma_code(p[k]); lemma_ci(p[k]); assert(p.subrange(0, k + 1) =~= p.subrange(0, k).push(p[k])); k = k + 1; }", "L0.after": "proof { lemma_use(*self_, c as int, p, k); if k < p.len() { lemma_code(p[k]); } else { assert(pend(*self_) =~= skip(p, k)); } }"}),
            loops={0: dict(invariant=INV + ["ndl(p, k, delimiter) == ndl(p, 0, delimiter)", "$s@ == p.subrange(0, k)"], decreases=DEC)}))
    tu = "#include <vector>\nnamespace altruct { namespace io {\n"
    cls = "simple_reader" if br else "fast_read"
    for t, cx in INTS:
        tu += "template {0} {1}::read_digits<{0}>({0}, int*, int); template {0} {1}::read_integral_number<{0}>();\n".format(cx, cls)
        rt = "i64" if t == "l64" else t
        fit = "%s::MIN <= %s <= %s::MAX" % (rt, "{}", rt)
        C.append(Contract("rd_digits_" + t, d + "read_digits", targs=[cx], params=["d", "cnt", "sign"], modes={"cnt": "null"}, rlimit=60, requires=W + ["nd(pend(*old(self_)), 0) <= i32::MAX", "d == 0", "sign == 1 || sign == -1", fit.format("dn(pend(*old(self_)), sign as int)")],
            ensures=E + ["r == dn(pend(*old(self_)), sign as int)", "pend(*final(self_)) == skip(pend(*old(self_)), nd(pend(*old(self_)), 0))"],
            hints=dict(P, **{"L0.begin": "proof { lemma_use(*self_, c as int, p, k); lemma_code(p[k]); lemma_nd(p, 0); lemma_nd(p, k); lemma_dstep(p, k); lemma_dval(p, k + 1, nd(p, 0)); lemma_dval(p, 0, k); assert((c - 48) * sign == (if sign < 0 { -(c - 48) } else { c - 48 })) by(nonlinear_arith) requires sign == 1 || sign == -1; k = k + 1; }", "L0.before": "proof { assert(p.subrange(0, 0).len() == 0); lemma_nd(p, 0); }", "L0.after": "proof { lemma_use(*self_, c as int, p, k); if k < p.len() { lemma_code(p[k]); } }"}),
            loops={0: dict(invariant=INV + ["nd(p, k) == nd(p, 0)", "$d == sval(p.subrange(0, k), sign as int)", "sign == 1 || sign == -1", fit.format("dn(p, sign as int)"), "$l == k", "nd(p, 0) <= i32::MAX", "k <= nd(p, 0)", "nd(p, 0) <= p.len()"], decreases=DEC)}))
        C.append(Contract("rd_int_" + t, d + "read_integral_number", targs=[cx], params=[], requires=W + ["nd(w2(w1(pend(*old(self_)))), 0) <= i32::MAX", fit.format("num(pend(*old(self_)))")], ensures=E + ["r == num(pend(*old(self_)))", "pend(*final(self_)) == after(pend(*old(self_)))"]))
    tu += "}}\n"
    u = Unit(name, [hdr], tu, C, SPEC + RD.replace("@S", st).replace("@F", fld).replace("@C", CAP))
    for x in ("reader", N + "reader", "FILE", "_IO_FILE"):
        u.type_map[x] = "Src"
    u.struct_same.add("Simple_reader")
    u.struct_over[st] = dict(types={"buff": "Vec<i8>", "ptr": "i64", "end": "i64", fld: "Src"}, copy=False)
    u.hooks.insert(0, Hook(fld))
    return u

WR = r"""
/// everything handed to a writer so far
pub open spec fn total(s: @S) -> Seq<i8> { s.@F.got() + s.buff@.subrange(0, s.ptr as int) }
pub open spec fn wf(s: @S) -> bool { 0 <= s.ptr <= s.end == s.capacity && s.buff@.len() == s.capacity + 1 && 1 <= s.capacity < @C }
pub open spec fn rdigs(t: Seq<i8>, n: int, len: int, i: int) -> bool { 0 <= i <= t.len() && (forall|j: int| 0 <= j < i ==> #[trigger] t[j] == digs(n, len)[digs(n, len).len() - 1 - j]) }
pub open spec fn mag(v: int) -> int { if v < 0 { -v } else { v } }
pub proof fn lemma_diglen(n: int, len: int) requires n >= 0 ensures digs(n, len).len() >= len, n == 0 && len <= 0 ==> digs(n, len).len() == 0, (n > 0 || len > 0) ==> digs(n, len).len() == digs(n / 10, len - 1).len() + 1 decreases n, (if len > 0 { len } else { 0 }) { if n > 0 || len > 0 { lemma_diglen(n / 10, len - 1); } }
pub proof fn lemma_digmax(n: int, len: int, k: int) requires 0 <= n < pow10(k), len <= 50, 0 <= k <= 50 ensures digs(n, len).len() <= (if k > len { k } else if len > 0 { len } else { 0 }) decreases n, (if len > 0 { len } else { 0 })
{ if n > 0 || len > 0 { if k > 0 { assert(n / 10 < pow10(k - 1)); lemma_digmax(n / 10, len - 1, k - 1); } else { lemma_digmax(n / 10, len - 1, 0); } } }
pub open spec fn pow10(k: int) -> int decreases k { if k <= 0 { 1 } else { 10 * pow10(k - 1) } }
"""
def wr(name, hdr, c, d, st, fld, br):
    W = ["wf(*old(self_))"]
    E = ["wf(*final(self_))", FR]
    T0, T1 = "total(*old(self_))", "total(*final(self_))"
    C = [
        Contract("w_flush", c + "flush", params=[], requires=W, ensures=E + [T1 + " == " + T0, "final(self_).%s.got() == %s" % (fld, T0), "final(self_).ptr == 0"] + ([] if br else ["r == final(self_).capacity"]), hints={"exit": "assert(total(*self_) =~= total(*old(self_)));"}),
        Contract("w_available", c + "available", params=[], requires=W, ensures=E + [T1 + " == " + T0, "r == final(self_).end - final(self_).ptr", "final(self_).ptr == old(self_).ptr"]),
        Contract("w_reserve", c + "reserve", params=["count"], requires=W, ensures=E + [T1 + " == " + T0, "r == final(self_).end - final(self_).ptr", "r >= count || r == final(self_).capacity"]),
        Contract("w_char", c + "write_char", params=["c"], requires=W, ensures=E + [T1 + " == " + T0 + ".push(b8(c as int))"], hints={"exit": "assert(total(*self_) =~= total(*old(self_)).push(b8(c as int)));"}),
    ]
    if br:
        C.append(Contract("w_write", c + "write", params=["buffer", "count"], modes={"buffer": "ptr:src"}, requires=W + ["0 <= buffer", "buffer + count <= src@.len()", "src@.len() < " + CAP], ensures=E + [T1 + " == " + T0 + " + src@.subrange(buffer as int, buffer + count)"],
            hints={"L0.before": "assert(total(*self_) =~= total(*old(self_)) + src@.subrange(buffer_0 as int, buffer as int));", "use:copy.after": "",
                   "L0.begin": "let ghost q = total(*self_); let ghost b0 = buffer as int;",
                   "stmt:count -= len.before": "assert(total(*self_) =~= q + src@.subrange(b0, buffer as int)); assert(src@.subrange(buffer_0 as int, buffer as int) =~= src@.subrange(buffer_0 as int, b0) + src@.subrange(b0, buffer as int)); assert(total(*self_) =~= total(*old(self_)) + src@.subrange(buffer_0 as int, buffer as int));"},
            loops={0: dict(invariant=["wf(*self_)", "self_.capacity == old(self_).capacity", "0 <= buffer_0 <= buffer", "buffer + count == buffer_0 + count_0", "buffer + count <= src@.len()", "src@.len() < " + CAP, "total(*self_) == %s + src@.subrange(buffer_0 as int, buffer as int)" % T0, "self_.ptr < self_.end || self_.ptr == self_.end"], decreases="count, self_.ptr")}))
    C += [Contract("w_cstr", d + "write_string", pred=lambda f: "basic_string" not in f["type"]["qualType"] and "string &" not in f["type"]["qualType"], params=["s"], requires=W + ["zlen(s@, 0) < s@.len() <= i32::MAX"], ensures=E + [T1 + " == " + T0 + " + s@.subrange(0, zlen(s@, 0))"],
            hints={"L0.before": "assert(total(*self_) =~= total(*old(self_)) + s@.subrange(0, 0));", "L0.begin": "let ghost q = total(*self_); proof { lemma_zlen(s@, $i + 1); }", "L0.end": "assert(s@.subrange(0, $i + 1) =~= s@.subrange(0, $i as int).push(s@[$i as int])); assert(total(*self_) =~= total(*old(self_)) + s@.subrange(0, $i + 1));", "entry": "proof { lemma_zlen(s@, 0); }"},
            **({} if br else dict(loops={0: dict(invariant=["wf(*self_)", "self_.capacity == old(self_).capacity", "0 <= $i <= zlen(s@, 0)", "zlen(s@, $i as int) == zlen(s@, 0) < s@.len() <= i32::MAX", "total(*self_) == %s + s@.subrange(0, $i as int)" % T0], decreases="zlen(s@, 0) - $i")}))),
          Contract("w_str", d + "write_string", pred=lambda f: "string &" in f["type"]["qualType"] or "basic_string" in f["type"]["qualType"], params=["s"], requires=W + ["s@.len() < " + CAP], ensures=E + [T1 + " == " + T0 + " + s@"],
            hints={"L0.before": "assert(total(*self_) =~= total(*old(self_)) + s@.subrange(0, 0));", "L0.end": "assert(s@.subrange(0, idx + 1) =~= s@.subrange(0, idx as int).push(s@[idx as int])); assert(total(*self_) =~= total(*old(self_)) + s@.subrange(0, idx + 1));", "exit": "assert(s@.subrange(0, s@.len() as int) =~= s@);"},
            **({} if br else dict(loops={0: dict(invariant=["wf(*self_)", "self_.capacity == old(self_).capacity", "idx <= s@.len() < " + CAP, "total(*self_) == %s + s@.subrange(0, idx as int)" % T0], decreases="s@.len() - idx")})))]
    tu = "#include <vector>\nnamespace altruct { namespace io {\n"
    cls = "simple_writer" if br else "fast_write"
    for t, cx in INTS:
        tu += "template {1}& {1}::write_integral_number<{0}>({0}, int);\n".format(cx, cls)
        C.append(Contract("w_int_" + t, d + "write_integral_number", targs=[cx], params=["d", "len"], requires=W + ["len <= 50"], ensures=E + [T1 + " == " + T0 + " + dec(d as int, len as int)"],
            hints={"entry": "let ghost v = d as int; let ghost len0 = len as int; let ghost D = digs(mag(v), len0); let ghost q = if v < 0 { total(*self_).push(45i8) } else { total(*self_) }; proof { assert(pow10(20) == 100000000000000000000) by(compute); lemma_digmax(mag(v), len0, 20); lemma_diglen(mag(v), len0); }",
                   "L0.before": "assert(digs(mag(v), len0) =~= digs(mag(d as int), len0 - $i) + D.subrange(D.len() - $i, D.len() as int));",
                   "L0.begin": "let ghost d0 = d as int; let ghost i0 = $i as int; let ghost A = digs(mag(d0), len0 - i0); proof { lemma_diglen(mag(d0), len0 - i0); }",
                   "L0.end": "proof { let B = digs(mag(d0) / 10, len0 - i0 - 1); assert(A == B.push((48 + mag(d0) % 10) as i8)); assert(mag(d as int) == mag(d0) / 10); assert(A.last() == D[D.len() - i0 - 1]); assert(tc@[i0] == A.last()); assert(D.subrange(D.len() - i0 - 1, D.len() as int) =~= seq![D[D.len() - i0 - 1]] + D.subrange(D.len() - i0, D.len() as int)); }",
                   "L1.before": "assert(total(*self_) =~= q + D.subrange(0, D.len() - $i));",
                   "L1.end": "assert(D.subrange(0, D.len() - $i) =~= D.subrange(0, D.len() - $i - 1).push(D[D.len() - $i - 1]));",
                   "exit": "assert(D.subrange(0, D.len() as int) =~= D); assert(total(*self_) =~= total(*old(self_)) + dec(v, len0));"},
            loops={0: dict(invariant=["wf(*self_)", "self_.capacity == old(self_).capacity", "total(*self_) == q", "0 <= $i <= D.len() <= 50", "len == len0 <= 50", "(d < 0 ==> v < 0) && (d > 0 ==> v > 0)", "digs(mag(d as int), len0 - $i).len() == D.len() - $i", "digs(mag(d as int), len0 - $i) =~= D.subrange(0, D.len() - $i)", "forall|j: int| 0 <= j < $i ==> #[trigger] tc@[j] == D[D.len() - 1 - j]"], decreases="D.len() - $i"),
                   1: dict(invariant=["wf(*self_)", "self_.capacity == old(self_).capacity", "0 <= $i <= D.len() <= 50", "total(*self_) == q + D.subrange(0, D.len() - $i)", "forall|j: int| 0 <= j < D.len() ==> #[trigger] tc@[j] == D[D.len() - 1 - j]"], decreases="$i")}))
    tu += "}}\n"
    u = Unit(name, [hdr], tu, C, SPEC + WR.replace("@S", st).replace("@F", fld).replace("@C", CAP))
    for x in ("writer", N + "writer", "FILE", "_IO_FILE"):
        u.type_map[x] = "Snk"
    u.struct_same.add("Simple_writer")
    u.arbs["[i8; 50]"] = "any_a50()"
    u.struct_over[st] = dict(types={"buff": "Vec<i8>", "ptr": "i64", "end": "i64", fld: "Snk"}, copy=False)
    u.hooks.insert(0, Hook(fld))
    return u
def writer():
    return wr("io_writer", "altruct/io/writer.h", N + "buffered_writer::", N + "simple_writer::", "Buffered_writer", "out", True)
def fastw():
    return wr("io_fast_write", "altruct/io/fast_io.h", N + "fast_write::", N + "fast_write::", "Fast_write", "fout", False)

class SHook:
    def ptr_field(self, tr, e):
        if e.get("name") not in ("in", "out"):
            return None
        pl = tr.place(e["inner"][0]) + "." + tr.field(e["name"])
        return Bind("ptr", None, "i8", base=pl)
    def call(self, tr, e, name, obj, args, fdef, stmt):
        return Hook.call(self, tr, e, name, obj, args, fdef, stmt) if name == "copy" else None
def strings():
    c, d = N + "string_reader::", N + "string_writer::"
    W, V = ["swf(*old(self_))"], ["wwf(*old(self_))"]
    FRR = ["swf(*final(self_))", "final(self_).in_@ == old(self_).in_@", "final(self_).len == old(self_).len"]
    FRW = ["wwf(*final(self_))", "final(self_).capacity == old(self_).capacity"]
    P = "left(*old(self_))"
    C = [
        Contract("sr_read_char", c + "read_char", params=[], requires=W, ensures=FRR + [P + ".len() == 0 ==> r == -1 && left(*final(self_)).len() == 0 && final(self_).read_failed", P + ".len() > 0 ==> r == code(%s[0]) && left(*final(self_)) == skip(%s, 1) && %s" % (P, P, RF)],
            hints={"entry": "let ghost p = left(*self_);", "exit": "proof { if p.len() > 0 { lemma_code(p[0]); assert(left(*self_) =~= skip(p, 1)); } }"}),
        # what the buffered readers assume of the reader below them, with every byte that is there delivered at once
        Contract("sr_read", c + "read", params=["buffer", "count"], modes={"buffer": "ptr:dst"}, requires=W + ["0 <= buffer", "buffer + count <= old(dst)@.len()", "old(dst)@.len() < " + CAP],
            ensures=FRR + ["r == (if count < %s.len() { count as int } else { %s.len() as int })" % (P, P), "left(*final(self_)) == skip(%s, r as int)" % P, "final(dst)@.len() == old(dst)@.len()", "forall|k: int| buffer <= k < buffer + r ==> #[trigger] final(dst)@[k] == %s[k - buffer]" % P,
                "forall|k: int| (0 <= k < buffer || buffer + r <= k < old(dst)@.len()) ==> #[trigger] final(dst)@[k] == old(dst)@[k]", "final(self_).read_failed == (old(self_).read_failed || r < count)"],
            hints={"entry": "let ghost p = left(*self_);", "exit": "assert(left(*self_) =~= skip(p, count as int));"}),
        Contract("sw_char", d + "write_char", params=["c"], requires=V, ensures=FRW + ["put0(*final(self_)) == (if old(self_).pos < old(self_).capacity { put0(*old(self_)).push(b8(c as int)) } else { put0(*old(self_)) })", "forall|k: int| final(self_).pos <= k < old(self_).out@.len() ==> #[trigger] final(self_).out@[k] == old(self_).out@[k]"],
            hints={"exit": "assert(put0(*self_) =~= (if old(self_).pos < old(self_).capacity { put0(*old(self_)).push(b8(c as int)) } else { put0(*old(self_)) }));"}),
        Contract("sw_write", d + "write", params=["buffer", "count"], modes={"buffer": "ptr:src"}, requires=V + ["0 <= buffer", "buffer + count <= src@.len()", "src@.len() < " + CAP],
            ensures=FRW + ["({ let n = if count < old(self_).capacity - old(self_).pos { count as int } else { old(self_).capacity - old(self_).pos }; put0(*final(self_)) == put0(*old(self_)) + src@.subrange(buffer as int, buffer + n) })", "forall|k: int| final(self_).pos <= k < old(self_).out@.len() ==> #[trigger] final(self_).out@[k] == old(self_).out@[k]"],
            hints={"exit": "proof { let n = if count_0 < old(self_).capacity - old(self_).pos { count_0 as int } else { old(self_).capacity - old(self_).pos }; assert(put0(*self_) =~= put0(*old(self_)) + src@.subrange(buffer as int, buffer + n)); }"}),
    ]
    u = Unit("io_string", ["altruct/io/reader.h", "altruct/io/writer.h"], "#include <vector>\n", C, SPEC + """
/// what a string reader has still to deliver, what a string writer has stored
pub open spec fn left(s: String_reader) -> Seq<i8> { s.in_@.subrange(s.pos as int, s.len as int) }
pub open spec fn swf(s: String_reader) -> bool { s.pos <= s.len <= s.in_@.len() < @C }
pub open spec fn put0(s: String_writer) -> Seq<i8> { s.out@.subrange(0, s.pos as int) }
pub open spec fn wwf(s: String_writer) -> bool { s.pos <= s.capacity <= s.out@.len() < @C }
""".replace("@C", CAP))
    u.struct_over["String_reader"] = dict(types={"in": "Vec<i8>"}, copy=False)
    u.struct_over["String_writer"] = dict(types={"out": "Vec<i8>"}, copy=False)
    u.hooks.insert(0, SHook())
    return u
def units():
    return [reader(), fastr(), writer(), fastw(), strings()]

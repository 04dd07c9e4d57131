"""range tables (ranges.h) over an arbitrary commutative ring"""
from unit import Unit, Contract
import ring
MM = "altruct::math::"
SPEC = r"""
pub open spec fn rpow(x: Re, n: nat) -> Re decreases n { if n == 0 { r1() } else { rmul(rpow(x, (n - 1) as nat), x) } }
pub open spec fn rtimes(x: Re, n: nat) -> Re decreases n { if n == 0 { r0() } else { radd(rtimes(x, (n - 1) as nat), x) } }
pub open spec fn rfact(n: nat) -> Re decreases n { if n == 0 { r1() } else { rmul(rfact((n - 1) as nat), rcast(n)) } }
/// sum of a[b..e)
pub open spec fn rsum(a: Seq<Re>, b: int, e: int) -> Re decreases e - b { if e <= b { r0() } else { radd(rsum(a, b, e - 1), a[e - 1]) } }
pub open spec fn rprod(a: Seq<Re>, b: int, e: int) -> Re decreases e - b { if e <= b { r1() } else { rmul(rprod(a, b, e - 1), a[e - 1]) } }
pub proof fn lemma_rpow_sq(x: Re, n: nat) ensures rpow(rmul(x, x), n) == rpow(x, 2 * n), decreases n
{ if n > 0 { lemma_rpow_sq(x, (n - 1) as nat); let t = rpow(x, (2 * n - 2) as nat); assert(rpow(x, (2 * n - 1) as nat) == rmul(t, x)); assert(rpow(x, 2 * n) == rmul(rpow(x, (2 * n - 1) as nat), x)); ax_mul(t, x, x); } }
pub proof fn lemma_rpow_step(r: Re, x: Re, y: nat) requires y > 0,
    ensures y % 2 == 0 ==> rmul(r, rpow(rmul(x, x), y / 2)) == rmul(r, rpow(x, y)), y % 2 == 1 ==> rmul(rmul(r, x), rpow(rmul(x, x), y / 2)) == rmul(r, rpow(x, y)),
        y == 1 ==> rmul(rmul(r, x), r1()) == rmul(r, rpow(x, y)) && y / 2 == 0, rpow(x, 0) == r1(), rpow(rmul(x, x), 0) == r1(), y >= 2 ==> y / 2 > 0
{
    lemma_rpow_sq(x, y / 2); let h = rpow(x, (y - 1) as nat);
    if y % 2 == 1 { assert(2 * (y / 2) == y - 1); ax_mul(r, x, h); ax_mul(x, h, h); assert(rpow(x, y) == rmul(h, x)); }
    if y == 1 { assert(h == r1()); }
}
/// one step of the inverse factorial recurrence
pub proof fn lemma_ifact(f: Re, j: nat) requires j >= 2, rmul(f, rfact((j - 1) as nat)) == r1(), ensures rmul(rmul(f, rcast((j - 1) as nat)), rfact((j - 2) as nat)) == r1(), rsub(rcast((j - 1) as nat), r1()) == rcast((j - 2) as nat)
{ let (c, g) = (rcast((j - 1) as nat), rfact((j - 2) as nat)); ax_mul(f, c, g); ax_mul(c, g, g); assert(rfact((j - 1) as nat) == rmul(g, c)); lemma_rsub(rcast((j - 2) as nat), r1()); }
pub proof fn lemma_fact1() ensures rfact(0) == r1(), rcast(1) == r1(), rfact(1) == r1(), rcast(0) == r0()
{ reveal_with_fuel(rcast, 3); reveal_with_fuel(rfact, 3); ax_add(r1(), r0(), r0()); ax_add(r0(), r1(), r1()); ax_mul(r1(), r1(), r1()); }
pub proof fn lemma_unit_mul(a: Re, b: Re) requires runit(a), runit(b), ensures runit(rmul(a, b))
{ let x = choose|x: Re| #[trigger] rmul(x, a) == r1(); let y = choose|y: Re| #[trigger] rmul(y, b) == r1();
  ax_mul(rmul(y, x), a, b); ax_mul(y, x, a); ax_mul(y, r1(), r1()); assert(rmul(rmul(y, x), a) == y); assert(rmul(rmul(y, x), rmul(a, b)) == r1()); }
pub proof fn lemma_unit_prod(a: Seq<Re>, b: int, e: int) requires 0 <= b, e <= a.len(), forall|i: int| b <= i < e ==> runit(#[trigger] a[i]), ensures runit(rprod(a, b, e)), decreases e - b
{ if e <= b { ax_mul(r1(), r1(), r1()); } else { lemma_unit_prod(a, b, e - 1); lemma_unit_mul(rprod(a, b, e - 1), a[e - 1]); } }
pub open spec fn maxi(a: int, b: int) -> int { if a < b { b } else { a } }
/// everything outside [b, e) is untouched
pub open spec fn frame(a: Seq<Re>, z: Seq<Re>, b: int, e: int) -> bool { z.len() == a.len() && forall|i: int| 0 <= i < z.len() && !(b <= i < e) ==> #[trigger] z[i] == a[i] }
"""
It = "__wrap_iter"


def units():
    tu = """namespace altruct { namespace math { typedef std::vector<Re>::iterator It;
template void range<It, Re>(It, It, Re); template void powers<It, Re>(It, It, Re); template void factorials<It, Re>(It, It, Re); template void inv_factorials<It, Re>(It, It, Re, size_t); template void inverses_from_ifact<It, Re>(It, It, Re);
template void inverses<It, Re>(It, It, Re); template void power<It, uint64_t>(It, It, uint64_t); template void invert<It, Re>(It, It, Re); template void invert_field<It, Re>(It, It, Re); template void negate<It>(It, It); template void alternate<It>(It, It); template void accumulate<It, Re>(It, It); template void differentiate<It, Re>(It, It);
template std::vector<Re> range<Re>(size_t, Re); template std::vector<Re> powers<Re>(size_t, Re); template std::vector<Re> make_factorials<Re>(size_t, Re); template std::vector<Re> make_inv_factorials<Re>(size_t, Re, size_t); template std::vector<Re> make_inverses<Re>(size_t, Re);
} }
"""
    md = {"begin": "ptr:v", "end": "ptr:v"}
    V0, V1 = "old(v)@", "final(v)@"
    rng = ["0 <= begin <= end <= %s.len()" % V0, V0 + ".len() < 0x1000_0000_0000_0000"]
    def fill(val):
        return ["frame(%s, %s, begin as int, end as int)" % (V0, V1), "forall|i: int| begin <= i < end ==> #[trigger] %s[i] == %s" % (V1, val)]
    def inv(val, *more):
        return ["begin <= it <= end <= v@.len()", "frame(v0, v@, begin as int, end as int)", "forall|i: int| begin <= i < it ==> #[trigger] v@[i] == " + val] + list(more)
    G = "let ghost v0 = v@;"
    def C(name, fn, params, val, more, hints=None, req=()):
        h = {"entry": G}
        h.update(hints or {})
        val0, val = val, val.replace("v0[", V0 + "[")
        return Contract(name, MM + fn, pred=lambda f: len([c for c in f["inner"] if c.get("kind") == "ParmVarDecl"]) >= 2 and "vector" not in f["type"]["qualType"].split("(")[0], params=["begin", "end"] + params, modes=md, requires=rng + list(req), ensures=fill(val),
                        loops={0: dict(invariant=inv(val0, *more), decreases="end - it")}, hints=h)
    n = "((i - begin) as nat)"
    k = "((it - begin) as nat)"
    def sub(e, lo):
        return "((%s - %s) as nat)" % (e, lo)
    tail = "forall|i: int| it <= i < end ==> #[trigger] v@[i] == v0[i]"
    P2 = lambda f: len([c for c in f["inner"] if c.get("kind") == "ParmVarDecl"]) >= 2 and "vector" not in f["type"]["qualType"].split("(")[0]
    def K(name, fn, params, ens, loops, hints, req=()):
        h = dict(hints)
        h["entry"] = G + h.get("entry", "")
        return Contract(name, MM + fn, pred=P2, params=["begin", "end"] + params, modes=md, requires=rng + list(req), ensures=["frame(%s, %s, begin as int, end as int)" % (V0, V1)] + ens, loops=loops, hints=h)
    fr = "frame(v0, v@, begin as int, end as int)"
    # after ++begin / --end the parameters have moved
    frg = "frame(v0, v@, gb, ge)"
    GB = " let ghost (gb, ge) = (begin as int, end as int);"
    cs = [
        C("range_it", "range", ["step"], "rtimes(step, %s)" % n, ["$v == rtimes(step, %s)" % k]),
        C("powers_it", "powers", ["base"], "rpow(base, %s)" % n, ["$v == rpow(base, %s)" % k]),
        C("factorials_it", "factorials", ["id"], "rfact(%s)" % n, ["id == r1()", "$v == rfact(%s)" % k, "$i == rcast((%s + 1) as nat)" % k], req=["id == r1()"], hints={"L0.before": "proof { lemma_fact1(); }"}),
        C("negate_it", "negate", [], "rneg(%s[i])" % "v0", [tail]),
        C("alternate_it", "alternate", [], "if (i - begin) % 2 == 1 { rneg(v0[i]) } else { v0[i] }", [tail, "$s == (if (it - begin) % 2 == 1 { -1int } else { 1int })"]),
        C("invert_it", "invert", ["id"], "if v0[i] == r0() { v0[i] } else { rdiv(id, v0[i]) }", [tail, "$e0 == r0()"]),
        C("power_it", "power", ["n"], "rpow(v0[i], n as nat)", [tail]),
        Contract("powT_re", MM + "powT", pred=lambda f: "Re" in f["type"]["qualType"], params=["x", "y"], ensures=["r == rpow(x, y as nat)"],
            loops={0: dict(invariant=["rmul(r, rpow(x, y as nat)) == rpow(x_0, y_0 as nat)"], decreases="y")},
            hints={"L0.before": "proof { ax_mul(r1(), rpow(x, y as nat), x); ax_mul(rpow(x, y as nat), r1(), r1()); }", "L0.begin": "proof { lemma_rpow_step(r, x, y as nat); }", "L0.after": "proof { assert(rpow(x, 0) == r1()); ax_mul(r, r1(), r1()); }"}),
        K("inv_factorials_it", "inv_factorials", ["fact_k", "k"], ["forall|i: int| begin <= i < end ==> rmul(#[trigger] %s[i], rfact((i - begin) as nat)) == r1()" % V1],
          {0: dict(invariant=["1 <= k < 0x2000_0000_0000_0000", "n == end - begin", "n < 0x1000_0000_0000_0000", "$val_k == rcast(k as nat)", "fact_k == rfact(k as nat)", "$id == r1()", "k == k0 || k < n", "k >= k0", "v@ == v0"], decreases="0x2000_0000_0000_0001 - k"),
           1: dict(invariant=["0 <= begin <= it <= end <= v@.len()", fr, "forall|i: int| it <= i < end ==> rmul(#[trigger] v@[i], rfact((i - begin) as nat)) == r1()", "it - begin >= 2 ==> $val_k == rcast(((it - begin) - 1) as nat)", "it - begin >= 1 ==> rmul(ifact, rfact(((it - begin) - 1) as nat)) == r1()", "$id == r1()"], decreases="it - begin")},
          {"L0.before": "let ghost k0 = k as int; proof { lemma_fact1(); }", "L0.after": "proof { let m = maxi(k0, end - begin - 1); ax_div(r1(), rfact(m as nat)); lemma_fact1(); }",
           "L1.begin": "proof { if it - begin >= 2 { lemma_ifact(ifact, (it - begin) as nat); } }"},
          req=["k < 0x1000_0000_0000_0000", "fact_k == rfact(k as nat)", "k <= 1 || k < end - begin", "runit(rfact(maxi(maxi(k as int, 1), end - begin - 1) as nat))"]),
        K("inverses_from_ifact_it", "inverses_from_ifact", ["id"], ["begin < end ==> %s[begin as int] == r0()" % V1, "forall|i: int| begin < i < end ==> rmul(#[trigger] %s[i], rcast((i - begin) as nat)) == r1()" % V1],
          {0: dict(invariant=["0 <= gb < it <= end", "ge == end", "end <= v@.len()", frg, "id == r1()", "$fact == rfact((it - gb - 1) as nat)", "$i == rcast((it - gb) as nat)", "v@[gb] == r0()", "forall|i: int| gb < i < it ==> rmul(#[trigger] v@[i], rcast((i - gb) as nat)) == r1()", "forall|i: int| it <= i < end ==> #[trigger] v@[i] == v0[i]"], decreases="end - it")},
          {"entry": GB, "L0.before": "proof { lemma_fact1(); }", "L0.begin": "proof { let j = (it - gb) as nat; let x = v@[it as int]; assert(v0[it as int] == x); assert(rfact(j) == rmul(rfact((j - 1) as nat), rcast(j))); ax_mul(x, rfact((j - 1) as nat), rcast(j)); assert(rcast((j + 1) as nat) == radd(rcast(j), r1())); assert(rfact(j) == rmul(rfact((j - 1) as nat), rcast(j))); }"},
          req=["id == r1()", "forall|i: int| begin <= i < end ==> rmul(#[trigger] %s[i], rfact((i - begin) as nat)) == r1()" % V0]),
        K("inverses_it", "inverses", ["id"], ["begin < end ==> %s[begin as int] == r0()" % V1, "forall|i: int| begin < i < end ==> rmul(#[trigger] %s[i], rcast((i - begin) as nat)) == r1()" % V1], {}, {"entry": "proof { lemma_fact1(); }"},
          req=["id == r1()", "runit(rfact(maxi(1, end - begin - 1) as nat))"]),
        K("invert_field_it", "invert_field", ["id"], ["forall|i: int| begin <= i < end ==> rmul(#[trigger] %s[i], %s[i]) == id" % (V1, V0)],
          {0: dict(invariant=["v@ == v0", "1 <= i <= vp@.len()", "0 <= begin < end <= v0.len()", "vp@.len() == end - begin", "forall|j: int| 0 <= j < i ==> #[trigger] vp@[j] == rprod(v0, begin as int, begin + j + 1)", "forall|j: int| i <= j < vp@.len() ==> #[trigger] vp@[j] == v0[begin + j]"], decreases="vp@.len() - i"),
           1: dict(invariant=["0 <= begin < end <= v@.len()", "vp@.len() == end - begin", "$i < vp@.len()", "it == begin + $i + 1", "forall|j: int| 0 <= j < vp@.len() ==> #[trigger] vp@[j] == rprod(v0, begin as int, begin + j + 1)", "rmul(p, rprod(v0, begin as int, begin + $i + 1)) == id", fr,
                "forall|j: int| begin <= j < it ==> #[trigger] v@[j] == v0[j]", "forall|j: int| it <= j < end ==> rmul(#[trigger] v@[j], v0[j]) == id"], decreases="$i")},
          {"L0.before": "proof { assert(rprod(v0, begin as int, begin as int) == r1()); ax_mul(r1(), v0[begin as int], r1()); ax_mul(v0[begin as int], r1(), r1()); assert(rprod(v0, begin as int, begin + 1) == v0[begin as int]); }",
           "L0.begin": "proof { let q = rprod(v0, begin as int, begin + i); ax_mul(q, v0[begin + i], q); }",
           "L0.after": "proof { lemma_unit_prod(v0, begin as int, end as int); ax_div(id, rprod(v0, begin as int, end as int)); }",
           "L1.begin": "proof { let q = rprod(v0, begin as int, begin + $i); let t = v0[begin + $i]; ax_mul(p, q, t); ax_mul(p, t, q); ax_mul(t, q, q); }",
           "L1.after": "proof { assert(rprod(v0, begin as int, begin as int) == r1()); ax_mul(r1(), v0[begin as int], r1()); ax_mul(v0[begin as int], r1(), r1()); }"},
          req=["forall|i: int| begin <= i < end ==> runit(#[trigger] %s[i])" % V0]),
        K("accumulate_it", "accumulate", [], ["forall|i: int| begin <= i < end ==> #[trigger] %s[i] == rsum(%s, begin as int, i + 1)" % (V1, V0)],
          {0: dict(invariant=["0 <= gb < it <= end", "ge == end", "end <= v@.len()", frg, "prev == it - 1", "forall|i: int| gb <= i < it ==> #[trigger] v@[i] == rsum(v0, gb, i + 1)", "forall|i: int| it <= i < end ==> #[trigger] v@[i] == v0[i]"], decreases="end - it")},
          {"entry": GB + " proof { if gb < ge { assert(rsum(v0, gb, gb) == r0()); ax_add(r0(), v0[gb], r0()); ax_add(v0[gb], r0(), r0()); assert(rsum(v0, gb, gb + 1) == v0[gb]); } }", "L0.begin": "proof { ax_add(v@[it as int], v@[it - 1], r0()); }"}),
        K("differentiate_it", "differentiate", [], ["forall|i: int| begin < i < end ==> #[trigger] %s[i] == rsub(%s[i], %s[i - 1])" % (V1, V0, V0), "begin < end ==> %s[begin as int] == %s[begin as int]" % (V1, V0)],
          {0: dict(invariant=["0 <= begin <= it < ge", "begin == gb", "ge <= v@.len()", frg, "prev == it", "forall|i: int| gb <= i <= it ==> #[trigger] v@[i] == v0[i]", "forall|i: int| it < i < ge ==> #[trigger] v@[i] == rsub(v0[i], v0[i - 1])"], decreases="it")},
          {"entry": GB}),
    ]
    VP = lambda f: "vector" in f["type"]["qualType"].split("(")[0]
    small = "n < 0x1000_0000_0000_0000"
    for nm, params, val, req in (("range", ["n", "step"], "r@[i] == rtimes(step, i as nat)", []), ("powers", ["n", "base"], "r@[i] == rpow(base, i as nat)", []), ("make_factorials", ["n", "id"], "r@[i] == rfact(i as nat)", ["id == r1()"]),
                             ("make_inv_factorials", ["n", "fact_k", "k"], "rmul(r@[i], rfact(i as nat)) == r1()", ["k < 0x1000_0000_0000_0000", "fact_k == rfact(k as nat)", "k <= 1 || k < n", "runit(rfact(maxi(maxi(k as int, 1), n - 1) as nat))"]),
                             ("make_inverses", ["n", "id"], "if i == 0 { r@[i] == r0() } else { rmul(r@[i], rcast(i as nat)) == r1() }", ["id == r1()", "runit(rfact(maxi(1, n - 1) as nat))"])):
        cs.append(Contract(nm + "_vec", MM + nm, pred=VP, params=params, requires=[small] + req, ensures=["r@.len() == n", "forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == r@[i] && (%s)" % val]))
    u = Unit("ranges", ["altruct/algorithm/math/ranges.h"], tu, cs, SPEC)
    ring.setup(u)
    return [u]

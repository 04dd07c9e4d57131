"""polynomial hashes (polynomial_hash.h)"""
from unit import Unit, Contract
SPEC = r"""
/// value of the elements s[b..e) as a polynomial in x
pub open spec fn poly(s: Seq<int>, x: int, b: int, e: int) -> int decreases e - b { if e <= b { 0 } else { poly(s, x, b, e - 1) + s[e - 1] * pow(x, (e - 1 - b) as nat) } }
pub open spec fn res(v: int, m: int) -> int { v % m }
pub open spec fn powers(w: Seq<@I@>, b: int, m: int) -> bool { forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == pow(b, i as nat) % m }
pub proof fn lemma_tmod(v: int, m: int) requires m > 0, ensures trem(v, m) == (if v >= 0 { v % m } else { -((-v) % m) }), (if trem(v, m) < 0 { trem(v, m) + m } else { trem(v, m) }) == v % m, -m < trem(v, m) < m
{
    if v < 0 {
        let r = (-v) % m; lemma_fundamental_div_mod(-v, m); let q = (-v) / m;
        if r == 0 { assert(v == m * (-q)) by(nonlinear_arith) requires -v == m * q + r, r == 0; lemma_mod_multiples_basic(-q, m); assert(m * (-q) == (-q) * m) by(nonlinear_arith); }
        else { assert(v == m * (-q - 1) + (m - r)) by(nonlinear_arith) requires -v == m * q + r; lemma_fundamental_div_mod_converse(v, m, -q - 1, m - r); }
    }
}
/// residues may be replaced inside sums and products
pub proof fn lemma_res(a: int, b: int, c: int, m: int) requires m > 0,
    ensures ((a % m) * b) % m == (a * b) % m, (a * (b % m)) % m == (a * b) % m, ((a % m) + b) % m == (a + b) % m, (a + (b % m)) % m == (a + b) % m, ((a % m) - b) % m == (a - b) % m, (a - (b % m)) % m == (a - b) % m,
        ((a % m) * (b % m)) % m == (a * b) % m, (a + (b % m) * c) % m == (a + b * c) % m, (a + b * (c % m)) % m == (a + b * c) % m, ((a % m - b) * c) % m == ((a - b) * c) % m, ((a - b % m) * c) % m == ((a - b) * c) % m, ((a - b) * (c % m)) % m == ((a - b) * c) % m
{
    lemma_mul_mod_noop(a, b, m); lemma_mul_mod_noop_left(a, b, m); lemma_mul_mod_noop_right(a, b, m); lemma_add_mod_noop(a, b, m); lemma_add_mod_noop_right(a, b, m); lemma_add_mod_noop_right(b, a, m); lemma_sub_mod_noop(a, b, m); lemma_sub_mod_noop_right(a, b, m); lemma_sub_mod_noop_left(a, b, m);
    lemma_add_mod_noop_right(a, b * c, m); lemma_add_mod_noop_right(a, (b % m) * c, m); lemma_add_mod_noop_right(a, b * (c % m), m); lemma_mul_mod_noop_left(b, c, m); lemma_mul_mod_noop_right(b, c, m);
    lemma_mul_mod_noop_left(a % m - b, c, m); lemma_mul_mod_noop_left(a - b, c, m); lemma_mul_mod_noop_left(a - b % m, c, m); lemma_mul_mod_noop_right(a - b, c, m);
}
pub proof fn lemma_sub_mod_noop_left(a: int, b: int, m: int) requires m > 0, ensures (a % m - b) % m == (a - b) % m
{ lemma_fundamental_div_mod(a, m); let q = a / m; assert(a - b == (a % m - b) + m * q); lemma_mod_multiples_vanish(q, a % m - b, m); }
pub proof fn lemma_pow_res(b: int, i: nat, m: int) requires m > 0, ensures ((pow(b, i) % m) * b) % m == pow(b, i + 1) % m
{ reveal(pow); assert(pow(b, i + 1) == b * pow(b, i)); lemma_res(pow(b, i), b, 0, m); assert(pow(b, i) * b == b * pow(b, i)) by(nonlinear_arith); }
// ---------------------------------------------------------------- what the operations mean for sequences
/// appending an element / concatenating a sequence: H + (RHS << pos)
pub proof fn lemma_append(s: Seq<int>, x: int, n: int) requires 0 <= n < s.len(), ensures poly(s, x, 0, n + 1) == poly(s, x, 0, n) + s[n] * pow(x, n as nat) {}
pub proof fn lemma_split(s: Seq<int>, x: int, b: int, k: int, e: int) requires 0 <= b <= k <= e <= s.len(),
    ensures poly(s, x, b, e) == poly(s, x, b, k) + poly(s, x, k, e) * pow(x, (k - b) as nat), decreases e - k
{
    let p = pow(x, (k - b) as nat);
    if e > k {
        lemma_split(s, x, b, k, e - 1); lemma_pow_adds(x, (k - b) as nat, (e - 1 - k) as nat);
        let c = s[e - 1]; let q = pow(x, (e - 1 - k) as nat); let y = poly(s, x, k, e - 1);
        assert((y + c * q) * p == y * p + c * (p * q)) by(nonlinear_arith);
    } else { assert(0 * p == 0) by(nonlinear_arith); }
}
pub proof fn lemma_inv_pow(x: int, xi: int, n: nat, m: int) requires m > 1, (x * xi) % m == 1, ensures (pow(x, n) * pow(xi, n)) % m == 1, decreases n
{
    reveal(pow);
    if n == 0 { lemma_small_mod(1, m as nat); } else {
        lemma_inv_pow(x, xi, (n - 1) as nat, m); let p = pow(x, (n - 1) as nat); let q = pow(xi, (n - 1) as nat);
        assert((x * p) * (xi * q) == (p * q) * (x * xi)) by(nonlinear_arith); lemma_res(p * q, x * xi, 0, m); lemma_small_mod(1, m as nat); assert(1int * 1 == 1);
    }
}
/// slicing: (H(0, e) - H(0, b)) >> b
pub proof fn lemma_slice(s: Seq<int>, x: int, xi: int, b: int, e: int, m: int) requires m > 1, (x * xi) % m == 1, 0 <= b <= e <= s.len(),
    ensures ((poly(s, x, 0, e) - poly(s, x, 0, b)) * pow(xi, b as nat)) % m == poly(s, x, b, e) % m
{
    lemma_split(s, x, 0, b, e); lemma_inv_pow(x, xi, b as nat, m); let y = poly(s, x, b, e); let p = pow(x, b as nat); let q = pow(xi, b as nat);
    assert((y * p) * q == y * (p * q)) by(nonlinear_arith); lemma_res(y, p * q, 0, m); assert(y * 1 == y);
}
/// prepending an element: (H << 1) + c;  multiplying and dividing by a power of the base cancel
pub proof fn lemma_prepend(s: Seq<int>, x: int, c: int) ensures poly(seq![c] + s, x, 0, s.len() as int + 1) == c + poly(s, x, 0, s.len() as int) * x
{
    let t = seq![c] + s; lemma_split(t, x, 0, 1, t.len() as int); reveal(pow); assert(pow(x, 1) == x * pow(x, 0)); assert(pow(x, 0) == 1); assert(poly(t, x, 0, 0) == 0); assert(poly(t, x, 0, 1) == c * 1); lemma_shift(t, s, x, 1, s.len() as int);
    assert(x * 1 == x);
}
pub proof fn lemma_shift(t: Seq<int>, s: Seq<int>, x: int, d: int, e: int) requires 0 <= d, 0 <= e <= s.len(), t.len() == s.len() + d, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == t[d + i], ensures poly(t, x, d, d + e) == poly(s, x, 0, e), decreases e
{ if e > 0 { lemma_shift(t, s, x, d, e - 1); assert(s[e - 1] == t[d + e - 1]); } }
/// equal sequences have equal polynomials wherever they lie
pub proof fn lemma_equal(s: Seq<int>, t: Seq<int>, x: int, b: int, c: int, n: int) requires 0 <= b, 0 <= c, 0 <= n, b + n <= s.len(), c + n <= t.len(), s.subrange(b, b + n) =~= t.subrange(c, c + n), ensures poly(s, x, b, b + n) == poly(t, x, c, c + n), decreases n
{ if n > 0 { assert(s.subrange(b, b + n)[n - 1] == s[b + n - 1]); assert(t.subrange(c, c + n)[n - 1] == t[c + n - 1]); assert(s.subrange(b, b + n - 1) =~= s.subrange(b, b + n).subrange(0, n - 1)); assert(t.subrange(c, c + n - 1) =~= t.subrange(c, c + n).subrange(0, n - 1)); lemma_equal(s, t, x, b, c, n - 1); } }
"""
SPECK = r"""
pub open spec fn base(t_M: Seq<@I@>, t_B: Seq<@I@>, t_BI: Seq<@I@>) -> bool {
    t_M.len() == @K@ && t_B.len() == @K@ && t_BI.len() == @K@ && forall|k: int| 0 <= k < @K@ ==> #[trigger] t_M[k] >= 2 && (t_B[k] * t_BI[k]) % (t_M[k] as int) == 1 }
pub open spec fn tables(t_M: Seq<@I@>, t_B: Seq<@I@>, t_BI: Seq<@I@>, w: Seq<Vec<@I@>>, wi: Seq<Vec<@I@>>) -> bool {
    w.len() == @K@ && wi.len() == @K@ && (forall|k: int| 0 <= k < @K@ ==> (#[trigger] w[k])@.len() == w[0]@.len() && powers(w[k]@, t_B[k] as int, t_M[k] as int))
    && (forall|k: int| 0 <= k < @K@ ==> (#[trigger] wi[k])@.len() == w[0]@.len() && powers(wi[k]@, t_BI[k] as int, t_M[k] as int)) }
pub open spec fn can(h: [@I@; @K@], t_M: Seq<@I@>) -> bool { forall|k: int| 0 <= k < @K@ ==> 0 <= #[trigger] h@[k] < t_M[k] }
/// h is the hash of s[b..e)
pub open spec fn ishash(h: [@I@; @K@], t_M: Seq<@I@>, t_B: Seq<@I@>, s: Seq<int>, b: int, e: int) -> bool { forall|k: int| 0 <= k < @K@ ==> #[trigger] h@[k] == poly(s, t_B[k] as int, b, e) % (t_M[k] as int) }
"""
SPECC = r"""
pub open spec fn ints(v: Seq<@I@>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i] as int) }
pub open spec fn lex(a: Seq<@I@>, b: Seq<@I@>, k: int) -> bool decreases a.len() - k { if k < 0 || k >= a.len() || k >= b.len() { false } else if a[k] != b[k] { a[k] < b[k] } else { lex(a, b, k + 1) } }
pub open spec fn cum(vh: Seq<@P@>, t_M: Seq<@I@>, t_B: Seq<@I@>, s: Seq<int>) -> bool { vh.len() == s.len() && forall|i: int| 0 <= i < vh.len() ==> can((#[trigger] vh[i]).h, t_M) && ishash(vh[i].h, t_M, t_B, s, 0, i + 1) }
pub proof fn lemma_prefix(s: Seq<int>, t: Seq<int>, x: int, n: int) requires 0 <= n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> #[trigger] s[i] == t[i], ensures poly(s, x, 0, n) == poly(t, x, 0, n) { assert(s.subrange(0, n) =~= t.subrange(0, n)); lemma_equal(s, t, x, 0, 0, n); }
pub proof fn lemma_cum_empty(vh: Seq<@P@>, t_M: Seq<@I@>, t_B: Seq<@I@>, s: Seq<int>) requires vh.len() == 0, ensures cum(vh, t_M, t_B, s.subrange(0, 0)) {}
pub proof fn lemma_cum_push(v0: Seq<@P@>, v1: Seq<@P@>, t_M: Seq<@I@>, t_B: Seq<@I@>, s: Seq<int>, c: int)
    requires cum(v0, t_M, t_B, s), t_M.len() == @K@, forall|k: int| 0 <= k < @K@ ==> #[trigger] t_M[k] >= 2, v1.len() == v0.len() + 1, v1.drop_last() =~= v0, can(v1.last().h, t_M),
        forall|k: int| 0 <= k < @K@ ==> #[trigger] v1.last().h@[k] == ((if s.len() == 0 { 0int } else { v0.last().h@[k] as int }) + c * pow(t_B[k] as int, s.len())) % (t_M[k] as int),
    ensures cum(v1, t_M, t_B, s.push(c))
{
    let t = s.push(c); let n = s.len() as int;
    assert forall|i: int| 0 <= i < v1.len() implies can((#[trigger] v1[i]).h, t_M) && ishash(v1[i].h, t_M, t_B, t, 0, i + 1) by {
        if i < n { assert(v1.drop_last()[i] == v1[i]); assert(v0[i] == v1[i]); }
        assert forall|k: int| 0 <= k < @K@ implies #[trigger] v1[i].h@[k] == poly(t, t_B[k] as int, 0, i + 1) % (t_M[k] as int) by {
            let x = t_B[k] as int; let m = t_M[k] as int;
            if i < n { lemma_prefix(s, t, x, i + 1); assert(ishash(v0[i].h, t_M, t_B, s, 0, i + 1)); }
            else { lemma_prefix(s, t, x, n); if n > 0 { assert(ishash(v0[n - 1].h, t_M, t_B, s, 0, n)); assert(v0.last().h@[k] == poly(s, x, 0, n) % m); lemma_res(poly(s, x, 0, n), c * pow(x, s.len()), 0, m); } }
        }
    }
}
pub proof fn lemma_cum_pop(v0: Seq<@P@>, v1: Seq<@P@>, t_M: Seq<@I@>, t_B: Seq<@I@>, s: Seq<int>) requires cum(v0, t_M, t_B, s), s.len() > 0, v1 =~= v0.drop_last(), ensures cum(v1, t_M, t_B, s.drop_last())
{ let t = s.drop_last(); assert forall|i: int| 0 <= i < v1.len() implies can((#[trigger] v1[i]).h, t_M) && ishash(v1[i].h, t_M, t_B, t, 0, i + 1) by { assert(v1[i] == v0[i]); assert forall|k: int| 0 <= k < @K@ implies #[trigger] v1[i].h@[k] == poly(t, t_B[k] as int, 0, i + 1) % (t_M[k] as int) by { lemma_prefix(s, t, t_B[k] as int, i + 1); assert(ishash(v0[i].h, t_M, t_B, s, 0, i + 1)); } } }
"""
HS = "altruct::hash::"


def kclass(K, ci, cit, ri, rit):
    Q = HS + "polynomial_hash<%d,%s,%s>::" % (K, ci, cit)
    tm = "t_M: &Vec<%s>" % ri
    GL = [tm, "t_B: &Vec<%s>" % ri, "t_BI: &Vec<%s>" % ri, "t_W: &mut Vec<Vec<%s>>" % ri, "t_WI: &mut Vec<Vec<%s>>" % ri]
    B = "base(t_M@, t_B@, t_BI@)"
    T = lambda a: "tables(t_M@, t_B@, t_BI@, {0}(t_W)@, {0}(t_WI)@)".format(a)
    WMAX = "0x0800_0000_0000_0000"
    SM = "t_M@.len() == %d && forall|k: int| 0 <= k < %d ==> #[trigger] t_M@[k] >= 2" % (K, K)
    cs = [
        Contract("hmod", Q + "mod", params=["v", "m"], requires=["m >= 2"], ensures=["r as int == v as int % m as int", "0 <= r < m"], hints={"entry": "proof { lemma_tmod(v as int, m as int); }"}) ,
        Contract("hmul", Q + "mul", params=["a", "b", "m"], pred=lambda f: np(f) == 3, requires=["m >= 2"], ensures=["r as int == (a * b) % (m as int)", "0 <= r < m"]),
        Contract("hmul4", Q + "mul", params=["s", "a", "b", "m"], pred=lambda f: np(f) == 4, requires=["m >= 2"], ensures=["r as int == (s + a * b) % (m as int)", "0 <= r < m"]),
        Contract("_ensure", Q + "_ensure", params=["w", "sz", "b", "m"], requires=["m >= 2", "sz >= old(w)@.len()", "sz >= 1", "powers(old(w)@, b as int, m as int)"], ensures=["final(w)@.len() == sz", "powers(final(w)@, b as int, m as int)"],
                 hints={"L0.before": "proof { reveal(pow); assert(pow(b as int, 0) == 1); lemma_small_mod(1, m as nat); }", "L0.begin": "proof { lemma_pow_res(b as int, (i - 1) as nat, m as int); assert(w@[i - 1] == pow(b as int, (i - 1) as nat) % (m as int)); assert(pow(b as int, (i - 1) as nat) % (m as int) < m); }"},
                 loops={0: dict(invariant=["w@.len() == sz", "1 <= i", "i <= sz", "m >= 2", "forall|j: int| 0 <= j < i ==> #[trigger] w@[j] == pow(b as int, j as nat) % (m as int)"], decreases="sz - i")}),
        Contract("ensure", Q + "ensure", params=["size"], extra=GL, requires=[B, T("old"), "size < " + WMAX], ensures=[T("final"), "final(t_W)@[0]@.len() >= size", "final(t_W)@[0]@.len() >= old(t_W)@[0]@.len()"],
                 loops={0: dict(invariant=["0 <= k <= %d" % K, B, "t_W@.len() == %d" % K, "t_WI@.len() == %d" % K, "forall|j: int| 0 <= j < %d ==> (#[trigger] t_W@[j])@.len() == (if j < k { $size } else { $curr_size }) && powers(t_W@[j]@, t_B@[j] as int, t_M@[j] as int)" % K,
                                           "forall|j: int| 0 <= j < %d ==> (#[trigger] t_WI@[j])@.len() == (if j < k { $size } else { $curr_size }) && powers(t_WI@[j]@, t_BI@[j] as int, t_M@[j] as int)" % K, "$size >= $curr_size", "$size >= 1"], decreases="%d - k" % K)}),
    ]
    O, F = "old(self_).h@[k]", "final(self_).h@[k]"

    def op(nm, cname, params, formula, rhs_obj, ens=False, pos=None, pred=None):
        """formula over O (old), rv (rhs element), W/WI"""
        rv = "rhs.h@[k]" if rhs_obj else "rhs"
        m = "(t_M@[k] as int)"
        f = formula.replace("$O", O).replace("$R", rv)
        ex = GL if ens else [tm]
        req = ["can(old(self_).h, t_M@)"] + (["can(rhs.h, t_M@)"] if rhs_obj and nm != "x" else [])
        if ens:
            req += [B, T("old"), ("0 <= cnt < i32::MAX" if pos == "cnt" else "pos < 0x0400_0000_0000_0000")]
        else:
            req += [SM]
        en = ["can(final(self_).h, t_M@)", "forall|k: int| 0 <= k < %d ==> #[trigger] %s == (%s) %% %s" % (K, F, f, m), "true"]
        if ens:
            en.append(T("final"))
        inv = ["0 <= k <= %d" % K, "forall|j: int| k <= j < %d ==> #[trigger] self_.h@[j] == old(self_).h@[j]" % K,
               "forall|j: int| 0 <= j < k ==> #[trigger] self_.h@[j] == (%s) %% %s" % (f.replace("[k]", "[j]"), m.replace("[k]", "[j]")), "can(old(self_).h, t_M@)", SM]
        if ens:
            inv += [B, "tables(t_M@, t_B@, t_BI@, (*t_W)@, (*t_WI)@)", "(%s) < t_W@[0]@.len()" % (pos if pos != "cnt" else "cnt as int")]
        lem = "proof { let kk = k as int; let m = t_M@[kk] as int; let o = old(self_).h@[kk] as int; assert(0 <= o && o < m); assert(self_.h@[kk] == old(self_).h@[kk]);"
        if rhs_obj:
            lem += " assert(0 <= rhs.h@[kk] < t_M@[kk]);"
        if ens:
            P = pos + " as nat" if pos != "cnt" else "cnt as nat"
            lem += " assert(t_W@[kk]@.len() == t_W@[0]@.len()); assert(t_WI@[kk]@.len() == t_W@[0]@.len()); let ww = t_W@[kk]@[{0} as int]; let wi = t_WI@[kk]@[{0} as int]; let pb = pow(t_B@[kk] as int, {1}); let pi = pow(t_BI@[kk] as int, {1}); assert(ww == pb % m); assert(wi == pi % m); lemma_mod_bound(pb, m); lemma_mod_bound(pi, m);".format(pos, P)
            if nm.startswith("hadd"):
                lem += " lemma_res(o, %s as int, pb, m);" % rv.replace("[k]", "[kk]")
            elif nm.startswith("sub_shr"):
                lem += " let x = %s as int; lemma_res(o - x, 0, 0, m); lemma_res(o, x, pi, m); lemma_res(o - x, wi as int, 0, m); lemma_res(o - x, pi, 0, m);" % rv.replace("[k]", "[kk]")
            else:
                lem += " lemma_res(o, pb, 0, m); lemma_res(o, pi, 0, m);"
        lem += " }"
        cs.append(Contract(nm, Q + cname, params=params, pred=pred, extra=ex, requires=req, ensures=en, hints={"L0.begin": lem}, loops={0: dict(invariant=inv, decreases="%d - k" % K)}))
    isobj = lambda f: "polynomial_hash" in ptype(f, 0)
    nobj = lambda f: "polynomial_hash" not in ptype(f, 0)
    for sfx, o, pr in (("", True, isobj), ("_i", False, nobj)):
        op("mul_to" + sfx, "operator*=", ["rhs"], "$O * $R", o, pred=pr)
        op("add_to" + sfx, "operator+=", ["rhs"], "$O + $R", o, pred=pr)
        op("sub_to" + sfx, "operator-=", ["rhs"], "$O - $R", o, pred=pr)
        op("hadd" + sfx, "add", ["rhs", "pos"], "$O + $R * pow(t_B@[k] as int, pos as nat)", o, True, "pos", pred=pr)
        op("sub_shr" + sfx, "sub_shr", ["rhs", "pos"], "($O - $R) * pow(t_BI@[k] as int, pos as nat)", o, True, "pos", pred=pr)
    op("shr_to", "operator>>=", ["cnt"], "$O * pow(t_BI@[k] as int, cnt as nat)", False, True, "cnt")
    op("shl_to", "operator<<=", ["cnt"], "$O * pow(t_B@[k] as int, cnt as nat)", False, True, "cnt")
    allk = lambda e: "forall|k: int| 0 <= k < %d ==> %s" % (K, e)
    for sfx, o, pr in (("", True, isobj), ("_i", False, nobj)):
        for nm, cn, f in (("times", "operator*", "*"), ("plus", "operator+", "+"), ("minus", "operator-", "-")):
            cs.append(Contract("h" + nm + sfx, Q + cn, params=["rhs"], pred=pr, extra=[tm], requires=["can(self_.h, t_M@)", SM] + (["can(rhs.h, t_M@)"] if o else []), ensures=["can(r.h, t_M@)", allk("#[trigger] r.h@[k] == (self_.h@[k] %s %s) %% (t_M@[k] as int)" % (f, "rhs.h@[k]" if o else "rhs"))]))
    for nm, cn, b in (("shl", "operator<<", "t_B"), ("shr", "operator>>", "t_BI")):
        cs.append(Contract("h" + nm, Q + cn, params=["cnt"], extra=GL, requires=["can(self_.h, t_M@)", SM, B, T("old"), "0 <= cnt < i32::MAX"], ensures=["can(r.h, t_M@)", T("final"), allk("#[trigger] r.h@[k] == (self_.h@[k] * pow(%s@[k] as int, cnt as nat)) %% (t_M@[k] as int)" % b)]))
    cs.append(Contract("heq", Q + "operator==", params=["rhs"], ensures=["r == (self_.h@ =~= rhs.h@)"], loops={0: dict(invariant=["0 <= k <= %d" % K, "forall|j: int| 0 <= j < k ==> #[trigger] self_.h@[j] == rhs.h@[j]"], decreases="%d - k" % K)}))
    cs.append(Contract("hlt", Q + "operator<", params=["rhs"], ensures=["r == lex(self_.h@, rhs.h@, 0)"], hints={"L0.begin": "proof { assert(lex(self_.h@, rhs.h@, k as int) == (if self_.h@[k as int] != rhs.h@[k as int] { self_.h@[k as int] < rhs.h@[k as int] } else { lex(self_.h@, rhs.h@, k + 1) })); }"}, loops={0: dict(invariant=["0 <= k <= %d" % K, "lex(self_.h@, rhs.h@, 0) == lex(self_.h@, rhs.h@, k as int)"], decreases="%d - k" % K)}))
    cs.append(Contract("hhash", Q + "hash", params=[], requires=["self_.h@[0] >= 0"], ensures=["r == self_.h@[0]"]))
    cs.append(Contract("hzero", HS + "hzero", params=[], ensures=[allk("#[trigger] r.h@[k] == 0")], loops={0: dict(invariant=["0 <= $k <= %d" % K, "forall|j: int| 0 <= j < $k ==> #[trigger] o__1.h@[j] == 0"], decreases="%d - $k" % K)}))
    # cumulative hashes
    S, POS = "Ghost(s): Ghost<Seq<int>>", "0x0400_0000_0000_0000"
    vh = lambda w, s="s": "cum(%s.vh@, t_M@, t_B@, %s)" % (w, s)
    C = HS + "cumulative_hash<altruct::hash::polynomial_hash<%d, %s, %s>>::" % (K, ci, cit)
    cs += [
        Contract("ch_push", C + "push_back", targs=[ci], params=["rhs"], extra=GL + [S], requires=[B, T("old"), vh("old(self_)"), "s.len() < " + POS], ensures=[T("final"), vh("final(self_)", "s.push(rhs as int)")], hints={"exit": "proof { lemma_cum_push(old(self_).vh@, self_.vh@, t_M@, t_B@, s, rhs as int); }"}),
        Contract("ch_pop", C + "pop_back", params=[], extra=[tm, "t_B: &Vec<%s>" % ri, S], requires=[vh("old(self_)"), "s.len() > 0"], ensures=[vh("final(self_)", "s.drop_last()")], hints={"exit": "proof { lemma_cum_pop(old(self_).vh@, self_.vh@, t_M@, t_B@, s); }"}),
        Contract("ch_get", C + "get", params=["begin", "end"], extra=GL + [S], requires=[B, T("old"), vh("self_"), "begin <= end <= s.len()", "s.len() < " + POS], ensures=[T("final"), "can(r.h, t_M@)", "ishash(r.h, t_M@, t_B@, s, begin as int, end as int)"],
                 hints={"exit": "proof { assert forall|k: int| 0 <= k < %d implies #[trigger] ret__v.h@[k] == poly(s, t_B@[k] as int, begin as int, end as int) %% (t_M@[k] as int) by { let m = t_M@[k] as int; let x = t_B@[k] as int; lemma_slice(s, x, t_BI@[k] as int, begin as int, end as int, m); lemma_small_mod(0, m as nat); if begin > 0 { let h1 = self_.vh@[end - 1].h; let h0 = self_.vh@[begin - 1].h; assert(ishash(h1, t_M@, t_B@, s, 0, end as int)); assert(ishash(h0, t_M@, t_B@, s, 0, begin as int)); let pe = poly(s, x, 0, end as int); let pb = poly(s, x, 0, begin as int); let q = pow(t_BI@[k] as int, begin as nat); assert(h1@[k] == pe %% m); assert(h0@[k] == pb %% m); lemma_res(pe, pb, q, m); lemma_res(pe, pb %% m, q, m); } else if end > 0 { assert(ishash(self_.vh@[end - 1].h, t_M@, t_B@, s, 0, end as int)); } } }" % K}),
        Contract("ch_size", C + "size", params=[], ensures=["r == self_.vh@.len()"]),
        Contract("ch_assign", C + "assign", targs=["const %s *" % ci], params=["begin", "end"], modes={"begin": "ptr:v", "end": "ptr:v"}, extra=GL, requires=[B, T("old"), "0 <= begin <= end <= v@.len()", "v@.len() < " + POS], ensures=[T("final"), vh("final(self_)", "ints(v@.subrange(begin as int, end as int))")],
                 hints={"L0.before": "let ghost s = ints(v@.subrange(begin as int, end as int)); proof { lemma_cum_empty(self_.vh@, t_M@, t_B@, s); assert(s.subrange(0, 0) =~= Seq::empty()); }",
                        "L0.begin": "let ghost vh0 = self_.vh@; let ghost n = it - begin; proof { assert(s.subrange(0, n + 1) =~= s.subrange(0, n).push(v@[it as int] as int)); if n > 0 { assert(ishash(vh0[n - 1].h, t_M@, t_B@, s.subrange(0, n), 0, n)); } }",
                        "L0.end": "proof { lemma_cum_push(vh0, self_.vh@, t_M@, t_B@, s.subrange(0, n), v@[it as int] as int); }", "L0.after": "proof { assert(s.subrange(0, it - begin) =~= s); }"},
                 loops={0: dict(invariant=["0 <= begin <= it <= end <= v@.len()", "v@.len() < " + POS, "$pos == it - begin", B, "tables(t_M@, t_B@, t_BI@, (*t_W)@, (*t_WI)@)", "s == ints(v@.subrange(begin as int, end as int))", vh("self_", "s.subrange(0, it - begin)"), "can($h.h, t_M@)", "it > begin ==> $h == self_.vh@[it - begin - 1]", "it == begin ==> forall|k: int| 0 <= k < %d ==> #[trigger] $h.h@[k] == 0" % K], decreases="end - it")}),
    ]
    return cs, GL


def np(f):
    return len([c for c in f.get("inner", []) if c.get("kind") == "ParmVarDecl"])


def ptype(f, i):
    return [c for c in f.get("inner", []) if c.get("kind") == "ParmVarDecl"][i]["type"]["qualType"]


SPEC1 = r"""
pub open spec fn cM() -> int { @M@ }
pub open spec fn cB() -> int { @B@ }
pub open spec fn cBI() -> int { @BI@ }
pub proof fn lemma_base() ensures (cB() * cBI()) % cM() == 1 { assert((@B@int * @BI@) % @M@ == 1) by(compute); }
pub open spec fn tables(w: Seq<i32>, wi: Seq<i32>) -> bool { w.len() == wi.len() && powers(w, cB(), cM()) && powers(wi, cBI(), cM()) }
pub open spec fn can(h: int) -> bool { 0 <= h < cM() }
pub open spec fn ints(v: Seq<i32>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i] as int) }
pub open spec fn cum(vh: Seq<@P@>, s: Seq<int>) -> bool { vh.len() == s.len() && forall|i: int| 0 <= i < vh.len() ==> (#[trigger] vh[i]).h == poly(s, cB(), 0, i + 1) % cM() }
pub proof fn lemma_prefix(s: Seq<int>, t: Seq<int>, x: int, n: int) requires 0 <= n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> #[trigger] s[i] == t[i], ensures poly(s, x, 0, n) == poly(t, x, 0, n) { assert(s.subrange(0, n) =~= t.subrange(0, n)); lemma_equal(s, t, x, 0, 0, n); }
pub proof fn lemma_cum_push(v0: Seq<@P@>, v1: Seq<@P@>, s: Seq<int>, c: int)
    requires cum(v0, s), v1.len() == v0.len() + 1, v1.drop_last() =~= v0, v1.last().h == ((if s.len() == 0 { 0int } else { v0.last().h as int }) + (c % cM()) * pow(cB(), s.len())) % cM(), ensures cum(v1, s.push(c))
{
    let t = s.push(c); let n = s.len() as int; let x = cB(); let m = cM();
    assert forall|i: int| 0 <= i < v1.len() implies (#[trigger] v1[i]).h == poly(t, x, 0, i + 1) % m by {
        if i < n { assert(v1.drop_last()[i] == v1[i]); assert(v0[i] == v1[i]); lemma_prefix(s, t, x, i + 1); }
        else { lemma_prefix(s, t, x, n); let p = pow(x, s.len()); let o = if n > 0 { v0.last().h as int } else { 0 }; lemma_res(o, c, p, m); if n > 0 { lemma_res(poly(s, x, 0, n), c * p, 0, m); } }
    }
}
pub proof fn lemma_cum_pop(v0: Seq<@P@>, v1: Seq<@P@>, s: Seq<int>) requires cum(v0, s), s.len() > 0, v1 =~= v0.drop_last(), ensures cum(v1, s.drop_last())
{ let t = s.drop_last(); assert forall|i: int| 0 <= i < v1.len() implies (#[trigger] v1[i]).h == poly(t, cB(), 0, i + 1) % cM() by { assert(v1[i] == v0[i]); lemma_prefix(s, t, cB(), i + 1); } }
"""


def h1class(m, b, bi):
    Q = HS + "polynomial_hash1<%d,%d,%d>::" % (m, b, bi)
    C = HS + "cumulative_hash<altruct::hash::polynomial_hash1<%d, %d, %d>>::" % (m, b, bi)
    GL = ["t_W: &mut Vec<i32>", "t_WI: &mut Vec<i32>"]
    T = lambda a: "tables({0}(t_W)@, {0}(t_WI)@)".format(a)
    POS = "0x0400_0000_0000_0000"
    S = "Ghost(s): Ghost<Seq<int>>"
    O, F = "old(self_).h", "final(self_).h"
    cs = [
        Contract("hmod", Q + "mod", params=["v"], ensures=["r as int == v as int % cM()", "can(r as int)"], hints={"entry": "proof { lemma_tmod(v as int, cM()); lemma_mod_bound(v as int, cM()); }"}),
        Contract("h1of", HS + "h1of", params=["v"], ensures=["r.h == v as int % cM()", "can(r.h as int)"]),
        Contract("_ensure", Q + "_ensure", params=["w", "sz", "b"], requires=["sz >= old(w)@.len()", "sz >= 1", "b >= 0", "powers(old(w)@, b as int, cM())"], ensures=["final(w)@.len() == sz", "powers(final(w)@, b as int, cM())"],
                 hints={"L0.before": "proof { reveal(pow); assert(pow(b as int, 0) == 1); lemma_small_mod(1, cM() as nat); }", "L0.begin": "proof { let o = w@[i - 1] as int; lemma_pow_res(b as int, (i - 1) as nat, cM()); assert(w@[i - 1] == pow(b as int, (i - 1) as nat) % cM()); lemma_mod_bound(pow(b as int, (i - 1) as nat), cM()); lemma_bnd(o, b as int); assert(o * b >= 0) by(nonlinear_arith) requires o >= 0, b >= 0; lemma_tmod(o * b, cM()); }"},
                 loops={0: dict(invariant=["w@.len() == sz", "1 <= i", "i <= sz", "b >= 0", "forall|j: int| 0 <= j < i ==> #[trigger] w@[j] == pow(b as int, j as nat) % cM()"], decreases="sz - i")}),
        Contract("ensure", Q + "ensure", params=["size"], extra=GL, requires=[T("old"), "size < 0x0800_0000_0000_0000"], ensures=[T("final"), "final(t_W)@.len() >= size", "final(t_W)@.len() >= old(t_W)@.len()"]),
    ]

    def op(nm, cname, params, f, rhs, pos=None):
        f = f.replace("$O", O).replace("$R", "rhs.h")
        req = ["can(%s as int)" % O] + (["can(rhs.h as int)"] if rhs else [])
        en = ["can(%s as int)" % F, "%s == (%s) %% cM()" % (F, f)]
        h = "proof { let o = self_.h as int;" + (" let x = rhs.h as int; lemma_bnd(o, x);" if rhs else "")
        if nm == "mul_to":
            h += " assert(o * x >= 0) by(nonlinear_arith) requires o >= 0, x >= 0; lemma_tmod(o * x, cM()); lemma_mod_bound(o * x, cM());"
        h += " }"
        if pos:
            req += [T("old"), "0 <= cnt < i32::MAX" if pos == "cnt" else "pos < " + POS]
            en.append(T("final"))
            P = "%s as nat" % pos
            h = ("proof {{ let o = self_.h as int; let ww = t_W@[{0} as int] as int; let wi = t_WI@[{0} as int] as int; let pb = pow(cB(), {1}); let pi = pow(cBI(), {1}); let m = cM(); assert(ww == pb % m); assert(wi == pi % m); lemma_mod_bound(pb, m); lemma_mod_bound(pi, m);" + (" let x = rhs.h as int;" if rhs else "")).format(pos, P)
            if nm == "hadd":
                h += " lemma_bnd(x, ww); assert(x * ww >= 0) by(nonlinear_arith) requires x >= 0, ww >= 0; lemma_tmod(o + x * ww, m); lemma_res(o, x, pb, m); lemma_res(o, pb, x, m); lemma_mod_bound(o + x * ww, m);"
            elif nm == "sub_shr":
                h += " lemma_bnd(o - x, wi); lemma_res(o - x, pi, 0, m);"
            else:
                h += " let y = %s; lemma_bnd(o, y); assert(o * y >= 0) by(nonlinear_arith) requires o >= 0, y >= 0; lemma_tmod(o * y, m); lemma_mod_bound(o * y, m); lemma_res(o, pb, 0, m); lemma_res(o, pi, 0, m);" % ("ww" if nm == "shl_to" else "wi")
            h += " }"
        cs.append(Contract(nm, Q + cname, params=params, extra=GL if pos else [], requires=req, ensures=en, hints={"call:ensure.after" if pos else "entry": h}))
    op("mul_to", "operator*=", ["rhs"], "$O * $R", True)
    op("add_to", "operator+=", ["rhs"], "$O + $R", True)
    op("sub_to", "operator-=", ["rhs"], "$O - $R", True)
    op("hadd", "add", ["rhs", "pos"], "$O + $R * pow(cB(), pos as nat)", True, "pos")
    op("sub_shr", "sub_shr", ["rhs", "pos"], "($O - $R) * pow(cBI(), pos as nat)", True, "pos")
    op("shr_to", "operator>>=", ["cnt"], "$O * pow(cBI(), cnt as nat)", False, "cnt")
    op("shl_to", "operator<<=", ["cnt"], "$O * pow(cB(), cnt as nat)", False, "cnt")
    for nm, cn, f in (("times", "operator*", "*"), ("plus", "operator+", "+"), ("minus", "operator-", "-")):
        cs.append(Contract("h" + nm, Q + cn, params=["rhs"], requires=["can(self_.h as int)", "can(rhs.h as int)"], ensures=["can(r.h as int)", "r.h == (self_.h %s rhs.h) %% cM()" % f]))
    for nm, cn, bb in (("shl", "operator<<", "cB()"), ("shr", "operator>>", "cBI()")):
        cs.append(Contract("h" + nm, Q + cn, params=["cnt"], extra=GL, requires=["can(self_.h as int)", T("old"), "0 <= cnt < i32::MAX"], ensures=["can(r.h as int)", T("final"), "r.h == (self_.h * pow(%s, cnt as nat)) %% cM()" % bb]))
    cs.append(Contract("heq", Q + "operator==", params=["rhs"], ensures=["r == (self_.h == rhs.h)"]))
    cs.append(Contract("hlt", Q + "operator<", params=["rhs"], ensures=["r == (self_.h < rhs.h)"]))
    cs.append(Contract("hhash", Q + "hash", params=[], ensures=["r == self_.h"]))
    cs += [
        Contract("ch_push", C + "push_back", targs=["int"], params=["rhs"], extra=GL + [S], requires=[T("old"), "cum(old(self_).vh@, s)", "s.len() < " + POS], ensures=[T("final"), "cum(final(self_).vh@, s.push(rhs as int))"],
                 hints={"entry": "proof { if s.len() > 0 { let q = self_.vh@[s.len() - 1]; lemma_mod_bound(poly(s, cB(), 0, s.len() as int), cM()); } lemma_mod_bound(0, cM()); lemma_small_mod(0, cM() as nat); }", "exit": "proof { lemma_cum_push(old(self_).vh@, self_.vh@, s, rhs as int); }"}),
        Contract("ch_pop", C + "pop_back", params=[], extra=[S], requires=["cum(old(self_).vh@, s)", "s.len() > 0"], ensures=["cum(final(self_).vh@, s.drop_last())"], hints={"exit": "proof { lemma_cum_pop(old(self_).vh@, self_.vh@, s); }"}),
        Contract("ch_get", C + "get", params=["begin", "end"], extra=GL + [S], requires=[T("old"), "cum(self_.vh@, s)", "begin <= end <= s.len()", "s.len() < " + POS], ensures=[T("final"), "r.h == poly(s, cB(), begin as int, end as int) % cM()"],
                 hints={"entry": "proof { lemma_mod_bound(0, cM()); lemma_small_mod(0, cM() as nat); if begin > 0 { let q = self_.vh@[begin - 1]; lemma_mod_bound(poly(s, cB(), 0, begin as int), cM()); } if end > 0 { let q = self_.vh@[end - 1]; lemma_mod_bound(poly(s, cB(), 0, end as int), cM()); } }",
                        "exit": "proof { lemma_base(); let m = cM(); let x = cB(); let i = cBI(); lemma_slice(s, x, i, begin as int, end as int, m); if begin > 0 { let pe = poly(s, x, 0, end as int); let pb = poly(s, x, 0, begin as int); let q = pow(i, begin as nat); assert(self_.vh@[end - 1].h == pe % m); assert(self_.vh@[begin - 1].h == pb % m); lemma_res(pe, pb, q, m); lemma_res(pe, pb % m, q, m); } }"}),
        Contract("ch_size", C + "size", params=[], ensures=["r == self_.vh@.len()"]),
        Contract("ch_assign", C + "assign", targs=["const int *"], params=["begin", "end"], modes={"begin": "ptr:v", "end": "ptr:v"}, extra=GL, requires=[T("old"), "0 <= begin <= end <= v@.len()", "v@.len() < " + POS], ensures=[T("final"), "cum(final(self_).vh@, ints(v@.subrange(begin as int, end as int)))"],
                 hints={"L0.before": "let ghost s = ints(v@.subrange(begin as int, end as int)); proof { assert(s.subrange(0, 0) =~= Seq::empty()); lemma_small_mod(0, cM() as nat); }",
                        "L0.begin": "let ghost vh0 = self_.vh@; let ghost n = it - begin; proof { assert(s.subrange(0, n + 1) =~= s.subrange(0, n).push(v@[it as int] as int)); }",
                        "L0.end": "proof { lemma_cum_push(vh0, self_.vh@, s.subrange(0, n), v@[it as int] as int); }", "L0.after": "proof { assert(s.subrange(0, it - begin) =~= s); }"},
                 loops={0: dict(invariant=["0 <= begin <= it <= end <= v@.len()", "v@.len() < " + POS, "$pos == it - begin", "tables((*t_W)@, (*t_WI)@)", "s == ints(v@.subrange(begin as int, end as int))", "cum(self_.vh@, s.subrange(0, it - begin))", "can($h.h as int)", "it > begin ==> $h == self_.vh@[it - begin - 1]", "it == begin ==> $h.h == 0"], decreases="end - it")}),
    ]
    return cs


BND = "pub proof fn lemma_bnd(a: int, b: int) requires -0x%x <= a <= 0x%x, -0x%x <= b <= 0x%x, ensures -0x%x <= a * b <= 0x%x { assert(a * b <= 0x%x && a * b >= -0x%x) by(nonlinear_arith) requires -0x%x <= a <= 0x%x, -0x%x <= b <= 0x%x; }\n"


class Zero:
    """default constructed hashes are obtained from the contract of hzero (the constructor itself is checked there)"""

    def construct(self, tr, e, rt, args):
        if rt.startswith("Polynomial_hash_") and not args and tr.c.rust != "hzero":
            return "hzero()"


def units():
    us = []
    for K, ci, cit, ri, rit in ((2, "int", "long", "i32", "i64"),):
        cs, GL = kclass(K, ci, cit, ri, rit)
        for c in cs:
            if c.rust in ("hmul", "hmul4"):
                c.hints = {"entry": "proof { lemma_bnd(a as int, b as int); }"}
        LO = 2 ** (int(ri[1:]) - 1)
        spec = (SPEC + SPECK + SPECC).replace("@I@", ri).replace("@K@", str(K)).replace("@P@", "Polynomial_hash_%d_%s_%s" % (K, ci, cit)) + "pub proof fn lemma_bnd(a: int, b: int) requires -0x%x <= a <= 0x%x, -0x%x <= b <= 0x%x, ensures -0x%x <= a * b <= 0x%x { assert(a * b <= 0x%x && a * b >= -0x%x) by(nonlinear_arith) requires -0x%x <= a <= 0x%x, -0x%x <= b <= 0x%x; }\n" % (LO, LO, LO, LO, LO * LO, LO * LO, LO * LO, LO * LO, LO, LO, LO, LO)
        H = "hash::polynomial_hash<%d, %s, %s>" % (K, ci, cit)
        tu = "namespace altruct { namespace hash { typedef %s Ph; template class %s;\ninline Ph hzero() { return Ph(); }\ntemplate class cumulative_hash<Ph>; inline void use(cumulative_hash<Ph>& c, const std::vector<%s>& v) { c.assign(v.begin(), v.end()); c.push_back(%s(1)); }\n}}\n" % (H[6:], H[6:], ci, ci)
        u = Unit("phash_%d_%s" % (K, ri), ["altruct/algorithm/hash/polynomial_hash.h"], tu, cs, spec)
        for g in ("M", "B", "BI"):
            u.globals[g] = "t_" + g
        u.globals["W"] = "(*t_W)"; u.globals["WI"] = "(*t_WI)"
        u.hooks.append(Zero())
        us.append(u)
    for m, b, bi in ((1000000007, 1000003, 486802543), (2147483647, 16807, 1407677000)):
        cls = "polynomial_hash1<%d, %d, %d>" % (m, b, bi)
        LO = 2 ** 31
        spec = SPEC.replace("@I@", "i32") + SPEC1.replace("@M@", str(m)).replace("@BI@", str(bi)).replace("@B@", str(b)).replace("@P@", "Polynomial_hash1_%d_%d_%d" % (m, b, bi)) + BND % (LO, LO, LO, LO, LO * LO, LO * LO, LO * LO, LO * LO, LO, LO, LO, LO)
        tu = "namespace altruct { namespace hash { typedef %s Ph; template class %s;\ninline Ph h1of(int v) { return Ph(v); }\ntemplate class cumulative_hash<Ph>; inline void use(cumulative_hash<Ph>& c, const std::vector<int>& v) { c.assign(v.begin(), v.end()); c.push_back(1); }\n}}\n" % (cls, cls)
        u = Unit("phash1_%d" % m, ["altruct/algorithm/hash/polynomial_hash.h"], tu, h1class(m, b, bi), spec)
        u.type_map["I"] = "i32"; u.type_map["IT"] = "i64"
        u.globals["W"] = "(*t_W)"; u.globals["WI"] = "(*t_WI)"
        us.append(u)
    return us

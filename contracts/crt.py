"""Chinese remaindering and Garner's mixed radix reconstruction (modulos.h)"""
from unit import Unit, Contract
import gcd, modring, modinv
from modring import NT, MM
SPEC = r"""
pub open spec fn lcm2(n1: int, n2: int) -> int { (n1 / (gcdn(n1 as nat, n2 as nat) as int)) * n2 }
pub open spec fn compat(a1: int, n1: int, a2: int, n2: int) -> bool { (a2 - a1) % (gcdn(n1 as nat, n2 as nat) as int) == 0 }
pub proof fn lemma_same_mod(a: int, b: int, m: int) requires m > 0, ensures (a % m == b % m) == ((b - a) % m == 0)
{
    lemma_fundamental_div_mod(a, m); lemma_fundamental_div_mod(b, m); lemma_mod_bound(a, m); lemma_mod_bound(b, m);
    if a % m == b % m { let k = b / m - a / m; assert(b - a == k * m) by(nonlinear_arith) requires a == m * (a / m) + a % m, b == m * (b / m) + b % m, a % m == b % m, k == b / m - a / m; lemma_mod_multiples_basic(k, m); }
    if (b - a) % m == 0 { lemma_fundamental_div_mod(b - a, m); lemma_mod_multiples_vanish((b - a) / m, a, m); assert(m * ((b - a) / m) + a == b); }
}
/// facts about the halves of the moduli
pub proof fn lemma_half(n1: int, n2: int) requires n1 > 0, n2 > 0,
    ensures ({ let g = gcdn(n1 as nat, n2 as nat) as int; let (h1, h2) = (n1 / g, n2 / g);
      &&& g > 0 && h1 > 0 && h2 > 0 && n1 == g * h1 && n2 == g * h2 && h1 <= n1 && h2 <= n2 && h1 * n2 == n1 * h2 && lcm2(n1, n2) == h1 * n2 && h1 * h2 * g == lcm2(n1, n2) && h1 * h2 <= lcm2(n1, n2) && n1 <= lcm2(n1, n2) && n2 <= lcm2(n1, n2) && h1 * h2 > 0 })
{
    let _ = lemma_gcdn(n1 as nat, n2 as nat); let g = gcdn(n1 as nat, n2 as nat) as int;
    lemma_divides_div(g, n1); lemma_divides_div(g, n2);
    let (h1, h2) = (n1 / g, n2 / g);
    assert(h1 > 0 && h1 <= n1) by(nonlinear_arith) requires n1 == g * h1, g > 0, n1 > 0;
    assert(h2 > 0 && h2 <= n2) by(nonlinear_arith) requires n2 == g * h2, g > 0, n2 > 0;
    assert(h1 * n2 == n1 * h2 && h1 * h2 * g == h1 * n2) by(nonlinear_arith) requires n1 == g * h1, n2 == g * h2;
    assert(h1 * h2 > 0 && h1 * h2 <= h1 * h2 * g) by(nonlinear_arith) requires h1 > 0, h2 > 0, g > 0;
    assert(n1 <= n1 * h2 && n2 <= h1 * n2) by(nonlinear_arith) requires h1 > 0, h2 > 0, n1 > 0, n2 > 0;
}
/// one of the two congruences
pub proof fn lemma_crt1(a1: int, a2: int, n1: int, h1: int, h2: int, g: int, u: int, v: int, e: int, n: int, kk: int, a: int)
    requires n1 == g * h1, n == n1 * h2, n1 > 0, 0 <= a1 < n1, h1 * u + h2 * v == 1 + e * n, (a2 - a1) % g == 0, g > 0, a == a1 * v * h2 + a2 * u * h1 - n * kk,
    ensures a % n1 == a1
{
    let d = (a2 - a1) / g; lemma_fundamental_div_mod(a2 - a1, g); assert(a2 - a1 == g * d);
    let w = d * u + h2 * (e * a1 - kk);
    let z = e * a1 - kk; let p = u * h1; let q = h2 * v;
    assert(a1 * v * h2 == a1 * q) by(nonlinear_arith) requires q == h2 * v;
    assert(a2 * u * h1 == a2 * p) by(nonlinear_arith) requires p == u * h1;
    assert(h1 * u == p) by(nonlinear_arith) requires p == u * h1;
    assert(a1 * q == a1 + a1 * (e * n) - a1 * p) by(nonlinear_arith) requires p + q == 1 + e * n;
    assert(a1 * (e * n) - n * kk == n * z) by(nonlinear_arith) requires z == e * a1 - kk;
    assert(a2 * p - a1 * p == g * d * p) by(nonlinear_arith) requires a2 - a1 == g * d;
    assert(g * d * p == n1 * (d * u)) by(nonlinear_arith) requires p == u * h1, n1 == g * h1;
    assert(n * z == n1 * (h2 * z)) by(nonlinear_arith) requires n == n1 * h2;
    assert(n1 * (d * u) + n1 * (h2 * z) == n1 * w) by(nonlinear_arith) requires w == d * u + h2 * z;
    lemma_mod_multiples_vanish(w, a1, n1); lemma_small_mod(a1 as nat, n1 as nat);
}
pub proof fn lemma_crt(a1: int, n1: int, a2: int, n2: int, u: int, v: int)
    requires n1 > 0, n2 > 0, 0 <= a1 < n1, 0 <= a2 < n2, compat(a1, n1, a2, n2), ({ let g = gcdn(n1 as nat, n2 as nat) as int; n1 * u + n2 * v == g || n1 * u + n2 * v == g + n1 * n2 }),
    ensures ({ let g = gcdn(n1 as nat, n2 as nat) as int; let n = lcm2(n1, n2); let t1 = (a1 * v) % n1; let t2 = (a2 * u) % n2;
        let a = ((t1 * (n2 / g)) % n + (t2 * (n1 / g)) % n) % n; a % n1 == a1 && a % n2 == a2 && 0 <= a < n })
{
    lemma_half(n1, n2);
    let g = gcdn(n1 as nat, n2 as nat) as int; let n = lcm2(n1, n2); let (h1, h2) = (n1 / g, n2 / g);
    let t1 = (a1 * v) % n1; let t2 = (a2 * u) % n2; let b1 = t1 * h2; let b2 = t2 * h1;
    let a = (b1 % n + b2 % n) % n;
    lemma_fundamental_div_mod(a1 * v, n1); lemma_fundamental_div_mod(a2 * u, n2); lemma_fundamental_div_mod(b1, n); lemma_fundamental_div_mod(b2, n); lemma_fundamental_div_mod(b1 % n + b2 % n, n); lemma_mod_bound(b1 % n + b2 % n, n);
    let (q1, q2, q3, q4, q5) = ((a1 * v) / n1, (a2 * u) / n2, b1 / n, b2 / n, (b1 % n + b2 % n) / n);
    let kk = q1 + q2 + q3 + q4 + q5;
    assert(b1 == a1 * v * h2 - n * q1) by(nonlinear_arith) requires b1 == t1 * h2, a1 * v == n1 * q1 + t1, n == n1 * h2;
    assert(b2 == a2 * u * h1 - n * q2) by(nonlinear_arith) requires b2 == t2 * h1, a2 * u == n2 * q2 + t2, n == h1 * n2;
    assert(a == a1 * v * h2 + a2 * u * h1 - n * kk) by(nonlinear_arith) requires b1 == a1 * v * h2 - n * q1, b2 == a2 * u * h1 - n * q2, b1 == n * q3 + b1 % n, b2 == n * q4 + b2 % n, b1 % n + b2 % n == n * q5 + a, kk == q1 + q2 + q3 + q4 + q5;
    let e = if n1 * u + n2 * v == g { 0int } else { 1int };
    assert(g * (h1 * u + h2 * v) == (g * h1) * u + (g * h2) * v) by(nonlinear_arith);
    assert(g * (1 + e * n) == g + e * (g * n)) by(nonlinear_arith);
    assert(g * n == n1 * n2) by(nonlinear_arith) requires n == h1 * n2, n1 == g * h1;
    assert(e * (g * n) == if e == 0 { 0 } else { n1 * n2 }) by { assert(0 * (g * n) == 0 && 1 * (g * n) == g * n); }
    assert(g * (h1 * u + h2 * v) == g * (1 + e * n));
    assert(h1 * u + h2 * v == 1 + e * n) by(nonlinear_arith) requires g * (h1 * u + h2 * v) == g * (1 + e * n), g > 0;
    lemma_crt1(a1, a2, n1, h1, h2, g, u, v, e, n, kk, a);
    assert((a1 - a2) % g == 0) by { lemma_same_mod(a1, a2, g); lemma_same_mod(a2, a1, g); }
    assert(n == n2 * h1) by(nonlinear_arith) requires n == h1 * n2;
    assert(a == a2 * u * h1 + a1 * v * h2 - n * kk);
    lemma_crt1(a2, a1, n2, h2, h1, g, v, u, e, n, kk, a);
}
/// product of the first k moduli
pub open spec fn prod(m: Seq<int>, k: int) -> int decreases k { if k <= 0 { 1 } else { prod(m, k - 1) * m[k - 1] } }
/// mixed radix value of the first k digits
pub open spec fn mixed(x: Seq<int>, m: Seq<int>, k: int) -> int decreases k { if k <= 0 { 0 } else { mixed(x, m, k - 1) + x[k - 1] * prod(m, k - 1) } }
pub open spec fn coprime(m: Seq<int>) -> bool { forall|i: int, j: int| 0 <= j < i < m.len() ==> gcdn(#[trigger] m[i] as nat, #[trigger] m[j] as nat) == 1 }
/// later digits do not matter modulo m[i]
pub proof fn lemma_tail(x: Seq<int>, m: Seq<int>, i: int, k: int) requires 0 <= i < k <= m.len(), forall|j: int| 0 <= j < m.len() ==> #[trigger] m[j] > 0, ensures prod(m, k) % m[i] == 0, mixed(x, m, k) % m[i] == mixed(x, m, i + 1) % m[i] decreases k
{
    if k == i + 1 { lemma_mod_multiples_basic(prod(m, k - 1), m[i]); }
    else {
        lemma_tail(x, m, i, k - 1);
        let p = prod(m, k - 1); lemma_fundamental_div_mod(p, m[i]); let q = p / m[i];
        assert(p * m[k - 1] == (q * m[k - 1]) * m[i]) by(nonlinear_arith) requires p == m[i] * q + 0; lemma_mod_multiples_basic(q * m[k - 1], m[i]);
        assert(x[k - 1] * p == m[i] * (x[k - 1] * q)) by(nonlinear_arith) requires p == m[i] * q + 0; lemma_mod_multiples_vanish(x[k - 1] * q, mixed(x, m, k - 1), m[i]);
    }
}
/// dividing by a unit
pub proof fn lemma_quot_coprime(x: int, mj: int, q: int, mi: int) requires mi > 0, mj > 0, res(x, mi), gcdn(mi as nat, mj as nat) == 1, is_quot(x, mj % mi, q, mi), ensures (q * (mj % mi)) % mi == x
{
    lemma_gcdn_step(mi as nat, mj as nat); lemma_mod_bound(mj, mi); assert(x % 1 == 0);
}
/// one digit: subtract and divide
pub proof fn lemma_garner(y: int, xj: int, y1: int, y2: int, mj: int, mi: int, p: int, c: int, a: int)
    requires mi > 0, mj > 0, (y * p + c) % mi == a % mi, y1 == (y - xj % mi) % mi, gcdn(mi as nat, mj as nat) == 1, y2 * (mj % mi) % mi == y1,
    ensures (y2 * (p * mj) + (c + xj * p)) % mi == a % mi
{
    lemma_mod_bound(mj, mi);
    lemma_sub_mod_noop_right(y, xj, mi);
    lemma_mul_mod_noop_right(y2, mj, mi);
    assert((y2 * mj) % mi == (y - xj) % mi);
    lemma_fundamental_div_mod(y2 * mj, mi); lemma_fundamental_div_mod(y - xj, mi);
    let k = (y2 * mj) / mi - (y - xj) / mi;
    assert(y2 * mj == y - xj + mi * k) by(nonlinear_arith) requires y2 * mj == mi * ((y2 * mj) / mi) + (y2 * mj) % mi, y - xj == mi * ((y - xj) / mi) + (y - xj) % mi, (y2 * mj) % mi == (y - xj) % mi, k == (y2 * mj) / mi - (y - xj) / mi;
    assert(y2 * (p * mj) + (c + xj * p) == mi * (k * p) + (y * p + c)) by(nonlinear_arith) requires y2 * mj == y - xj + mi * k;
    lemma_mod_multiples_vanish(k * p, y * p + c, mi);
}
pub proof fn lemma_sub_mod_noop_right(x: int, y: int, m: int) requires m > 0, ensures (x - y % m) % m == (x - y) % m
{ lemma_fundamental_div_mod(y, m); lemma_mod_multiples_vanish(y / m, x - y, m); assert(x - y % m == m * (y / m) + (x - y)); }
/// the value of the first digits does not depend on the others
pub proof fn lemma_mixed_ext(x: Seq<int>, y: Seq<int>, m: Seq<int>, k: int) requires 0 <= k <= x.len(), k <= y.len(), forall|i: int| 0 <= i < k ==> x[i] == y[i], ensures mixed(x, m, k) == mixed(y, m, k) decreases k
{ if k > 0 { lemma_mixed_ext(x, y, m, k - 1); } }
"""


def units():
    sp = gcd.spec() + modring.SPEC + modring.SPEC2 + modinv.SPEC
    inc = ["altruct/algorithm/math/modulos.h"]
    base = [c for c in gcd.contracts(NT, ["nys", "xys"]) if not c.rust.startswith(("lcm", "gcd_max"))]
    cs, tu = [], "namespace altruct { namespace math {\n"
    for t, c in NT.items():
        tu += "inline void w_crt({0}* a, {0}* n, {0} a1, {0} n1, {0} a2, {0} n2) {{ chinese_remainder<{0}>(a, n, a1, n1, a2, n2); }} inline void w_crt({0}* a, {0}* n, {0} a1, {0} n1) {{ chinese_remainder<{0}>(a, n, a1, n1); }} inline {0} w_crt({0} a1, {0} n1, {0} a2, {0} n2) {{ return chinese_remainder<{0}>(a1, n1, a2, n2); }}\n".format(c)
        def post(a, n, a1, n1, a2, n2):
            k = dict(a=a, n=n, a1=a1, n1=n1, a2=a2, n2=n2)
            return ["compat({a1} as int, {n1} as int, {a2} as int, {n2} as int) ==> {n} == lcm2({n1} as int, {n2} as int) && 0 <= {a} < {n} && {a} % {n1} == {a1} && {a} % {n2} == {a2}".format(**k),
                    "!compat({a1} as int, {n1} as int, {a2} as int, {n2} as int) ==> {n} == 0 && {a} == 0".format(**k)]
        def pre(a1, n1, a2, n2):
            return ["{n1} > 0 && {n2} > 0 && res({a1} as int, {n1} as int) && res({a2} as int, {n2} as int)".format(a1=a1, n1=n1, a2=a2, n2=n2), "lcm2(%s as int, %s as int) <= %s::MAX" % (n1, n2, t)]
        cs.append(Contract("crt6_" + t, MM + "chinese_remainder", sig="void ({0} *, {0} *, {0}, {0}, {0}, {0})".format(c), params=["a", "n", "a1", "n1", "a2", "n2"], modes={"a": "out", "n": "out"},
            requires=pre("a1", "n1", "a2", "n2"), ensures=post("*final(a)", "*final(n)", "a1", "n1", "a2", "n2"),
            hints={"entry": "proof { lemma_half(n1 as int, n2 as int); } let ghost G = gcdn(n1 as nat, n2 as nat) as int;",
                   "use:modulo_gcd_ex.after": "proof { lemma_same_mod(a1 as int, a2 as int, G); if compat(a1 as int, n1 as int, a2 as int, n2 as int) { lemma_crt(a1 as int, n1 as int, a2 as int, n2 as int, $ni1 as int, $ni2 as int); } }",
                   "stmt:n1 /= g.before": "proof { let (h1, h2) = (n1 as int / G, n2 as int / G); assert(h2 <= lcm2(n1 as int, n2 as int) && h1 <= lcm2(n1 as int, n2 as int)); }"}))
        cs.append(Contract("crt4_" + t, MM + "chinese_remainder", sig="void ({0} *, {0} *, {0}, {0})".format(c), params=["ar", "nr", "a", "n"], modes={"ar": "out", "nr": "out"},
            requires=pre("*old(ar)", "*old(nr)", "a", "n"), ensures=post("*final(ar)", "*final(nr)", "*old(ar)", "*old(nr)", "a", "n")))
        cs.append(Contract("crt_" + t, MM + "chinese_remainder", sig="{0} ({0}, {0}, {0}, {0})".format(c), params=["a1", "n1", "a2", "n2"],
            requires=pre("a1", "n1", "a2", "n2"), ensures=["compat(a1 as int, n1 as int, a2 as int, n2 as int) ==> 0 <= r < lcm2(n1 as int, n2 as int) && r % n1 == a1 && r % n2 == a2", "!compat(a1 as int, n1 as int, a2 as int, n2 as int) ==> r == 0"]))
    tu += "}}\n"
    u = Unit("crt", inc, gcd.tu() + modring.tu(NT) + modinv.tu() + tu, modring.free(NT, NT, ymax=True) + base + modinv.contracts() + cs, sp + SPEC)
    u.globals["_M"] = "glob_M"
    u.type_alias.append((r"\bmodulo<([^<>,]+), (\d+)>", r"modulo<\1, \2, 1>"))
    return [u] + [garner(t) for t in ("i32", "u32", "i64", "u64")]


def garner(t):
    """one modulus type; the modulo class as in C01 and C02"""
    c = NT[t]
    R = modring.rname(t, 0, 0)
    inc = ["altruct/algorithm/math/modulos.h"]
    only = {t: c}
    both = dict(only)
    both.setdefault("u" + t[1:], NT["u" + t[1:]])
    rd = dict(M="altruct::math::modulo<%s, 0, 0>" % c)
    n = "_%s_0" % t
    sp = gcd.spec() + modring.SPEC + modring.SPEC2 + modinv.SPEC + SPEC + """
pub open spec fn mods(v: Seq<{R}>) -> Seq<int> {{ Seq::new(v.len(), |i: int| v[i].f_M as int) }}
pub open spec fn digs(v: Seq<{R}>) -> Seq<int> {{ Seq::new(v.len(), |i: int| v[i].v as int) }}
pub open spec fn good(v: Seq<{R}>) -> bool {{ coprime(mods(v)) && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).f_M > 0 && res(v[i].v as int, v[i].f_M as int) }}
pub open spec fn digok(x: Seq<{R}>, a: Seq<{R}>, k: int) -> bool {{ forall|i: int| 0 <= i < k ==> (#[trigger] x[i]).f_M == a[i].f_M && res(x[i].v as int, a[i].f_M as int) && mixed(digs(x), mods(a), i + 1) % (a[i].f_M as int) == a[i].v as int }}
""".format(R=R)
    tu = "namespace altruct {{ namespace math {{ typedef std::vector<modulo<{0},0,0>> V_; template V_ garner<V_>(const V_&); inline modulo<{0},0,0> w_mk({0} v, {0} M) {{ return modulo<{0},0,0>(v, M); }} }} }}\n".format(c)
    inv = ["good(vap@)", "vap@.len() < 0x7fff_ffff", "vx@.len() == vap@.len()", "0 <= i <= vx@.len()", "digok(vx@, vap@, i as int)", "X == mods(vap@)"]
    cs = [Contract("garner_" + t, MM + "garner", pred=lambda f: ("modulo<%s," % c) in f["type"]["qualType"], params=["vap"], requires=["good(vap@)", "vap@.len() < 0x7fff_ffff"],
            ensures=["r@.len() == vap@.len()", "forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i].f_M == vap@[i].f_M && res(r@[i].v as int, r@[i].f_M as int)",
                     "forall|i: int| 0 <= i < r@.len() ==> mixed(digs(r@), mods(vap@), r@.len() as int) % (#[trigger] vap@[i].f_M as int) == vap@[i].v as int"],
            hints={"entry": "let ghost X = mods(vap@);",
                "L0.begin": "let ghost xs = vx@;",
                "L1.before": "proof { let q = y.v as int; assert(q * 1 + 0 == q); lemma_small_mod(q as nat, X[i as int] as nat); assert(X[i as int] == vap@[i as int].f_M as int); }",
                "L1.begin": "let ghost y0 = y.v as int;",
                "L1.end": "proof { let (ii, jj) = (i as int, j as int); let (mi, mj) = (X[ii], X[jj]); assert(mi == vap@[ii].f_M as int && mj == vap@[jj].f_M as int); assert(gcdn(X[ii] as nat, X[jj] as nat) == 1); lemma_quot_coprime(Y1, mj, y.v as int, mi);"
                          " lemma_garner(y0, vx@[jj].v as int, Y1, y.v as int, mj, mi, prod(X, jj), mixed(digs(vx@), X, jj), vap@[ii].v as int); lemma_small_mod(vap@[ii].v as nat, mi as nat); assert(digs(vx@)[jj] == vx@[jj].v as int); }",
                "call:cls_div%s.before" % n: "let ghost Y1 = y.v as int;",
                "L0.end": "proof { let ii = i as int; assert(vx@ =~= xs.update(ii, y)); assert forall|k: int| 0 <= k < ii + 1 implies (#[trigger] vx@[k]).f_M == vap@[k].f_M && res(vx@[k].v as int, vap@[k].f_M as int) && mixed(digs(vx@), mods(vap@), k + 1) % (vap@[k].f_M as int) == vap@[k].v as int by {"
                          " if k < ii { assert(xs[k] == vx@[k]); lemma_mixed_ext(digs(xs), digs(vx@), X, k + 1); } else { lemma_mixed_ext(digs(xs), digs(vx@), X, ii); assert(digs(vx@)[ii] == y.v as int); assert(mixed(digs(vx@), X, ii + 1) == mixed(digs(vx@), X, ii) + y.v as int * prod(X, ii)); } } }",
                "exit": "proof { assert forall|k: int| 0 <= k < vx@.len() implies mixed(digs(vx@), mods(vap@), vx@.len() as int) % (#[trigger] vap@[k].f_M as int) == vap@[k].v as int by { assert(vx@[k].f_M == vap@[k].f_M); assert forall|j: int| 0 <= j < X.len() implies #[trigger] X[j] > 0 by { assert(vap@[j].f_M > 0); } lemma_tail(digs(vx@), X, k, vx@.len() as int); assert(X[k] == vap@[k].f_M as int); } }"},
            loops={0: dict(invariant=inv, decreases="vx@.len() - i"), 1: dict(invariant=inv + ["0 <= j <= i < vx@.len()", "y.f_M == vap@[i as int].f_M", "res(y.v as int, y.f_M as int)",
                "(y.v as int * prod(X, j as int) + mixed(digs(vx@), X, j as int)) % X[i as int] == vap@[i as int].v as int"], decreases="i - j")})]
    g = [k for k in gcd.contracts(only, ["nys", "xys"]) if not k.rust.startswith(("lcm", "gcd_max"))]
    cl = [k for k in modring.cls_contracts([(t, 0, 0)]) + modinv.cls_contracts([(t, 0, 0)]) if k.rust in ("cls_sub" + n, "cls_div" + n)]
    fr = modring.free(both, both)
    mi = [k for k in modinv.contracts(only) if k.rust.startswith(("modulo_inv", "modulo_div"))]
    u = Unit("garner_" + t, inc, gcd.tu() + modring.tu(both, norm=both) + modinv.tu() + tu, fr + g + mi + cl + cs, sp)
    u.globals["_M"] = "glob_M"
    u.zeros[R] = R + " { f_M: 1, v: 0 }"
    u.type_alias.append((r"\bmodulo<([^<>,]+), (\d+)>", r"modulo<\1, \2, 1>"))
    return u

"""Number theory specifications and lemmas shared by the units."""

DIV = r"""
pub open spec fn divides(d: int, n: int) -> bool { exists|k: int| n == #[trigger] (d * k) }
pub open spec fn gcdn(a: nat, b: nat) -> nat decreases a { if a == 0 { b } else { gcdn((b % a) as nat, a) } }

pub proof fn lemma_divides_lin(d: int, a: int, b: int, x: int, y: int)
    requires divides(d, a), divides(d, b),
    ensures divides(d, a * x + b * y),
{
    let k = choose|k: int| a == #[trigger] (d * k);
    let l = choose|k: int| b == #[trigger] (d * k);
    assert(a * x + b * y == d * (k * x + l * y)) by(nonlinear_arith) requires a == d * k, b == d * l;
}
pub proof fn lemma_div_mod_id(b: int, a: int) requires a != 0 ensures b == a * (b / a) + b % a, a > 0 ==> 0 <= b % a < a
{
    lemma_fundamental_div_mod(b, a);
}
/// gcdn is a common divisor, and a linear combination (hence every common divisor divides it)
pub proof fn lemma_gcdn(a: nat, b: nat) -> (xy: (int, int))
    ensures
        divides(gcdn(a, b) as int, a as int), divides(gcdn(a, b) as int, b as int),
        a as int * xy.0 + b as int * xy.1 == gcdn(a, b),
        (a != 0 || b != 0) ==> gcdn(a, b) > 0,
    decreases a
{
    if a == 0 {
        assert(0int == b as int * 0);
        assert(b as int == b as int * 1);
        (0, 1)
    } else {
        let r = (b % a) as nat;
        let (x, y) = lemma_gcdn(r, a);
        let g = gcdn(a, b) as int;
        let q = b as int / a as int;
        lemma_div_mod_id(b as int, a as int);
        assert(b as int == a as int * q + r as int);
        lemma_divides_lin(g, a as int, r as int, q, 1);
        assert(r as int * 1 == r);
        assert(a as int * (y - q * x) + b as int * x == g) by(nonlinear_arith)
            requires r as int * x + a as int * y == g, b as int == a as int * q + r as int;
        (y - q * x, x)
    }
}
pub proof fn lemma_gcdn_greatest(d: int, a: nat, b: nat)
    requires divides(d, a as int), divides(d, b as int),
    ensures divides(d, gcdn(a, b) as int),
{
    let (x, y) = lemma_gcdn(a, b);
    lemma_divides_lin(d, a as int, b as int, x, y);
}
pub proof fn lemma_gcdn_step(a: nat, b: nat)
    requires a > 0,
    ensures gcdn(a, b) == gcdn((b % a) as nat, a),
{}
pub proof fn lemma_divides_le(d: int, n: int)
    requires divides(d, n), n > 0, d > 0,
    ensures d <= n,
{
    let k = choose|k: int| n == #[trigger] (d * k);
    assert(k >= 1 && d <= n) by(nonlinear_arith) requires n == d * k, n > 0, d > 0;
}
pub proof fn lemma_divides_antisym(a: int, b: int)
    requires divides(a, b), divides(b, a), a >= 0, b >= 0,
    ensures a == b,
{
    if a > 0 && b > 0 { lemma_divides_le(a, b); lemma_divides_le(b, a); }
    else if a == 0 { let k = choose|k: int| b == #[trigger] (a * k); assert(a * k == 0) by(nonlinear_arith) requires a == 0; }
    else { let k = choose|k: int| a == #[trigger] (b * k); assert(b * k == 0) by(nonlinear_arith) requires b == 0; }
}
pub proof fn lemma_gcdn_sym(a: nat, b: nat) ensures gcdn(a, b) == gcdn(b, a)
{
    let _ = lemma_gcdn(a, b); let _ = lemma_gcdn(b, a);
    lemma_gcdn_greatest(gcdn(a, b) as int, b, a);
    lemma_gcdn_greatest(gcdn(b, a) as int, a, b);
    lemma_divides_antisym(gcdn(a, b) as int, gcdn(b, a) as int);
}
pub proof fn lemma_divides_div(d: int, n: int)
    requires divides(d, n), d > 0,
    ensures n == d * (n / d), n % d == 0,
{
    let k = choose|k: int| n == #[trigger] (d * k);
    assert(d * k == k * d) by(nonlinear_arith);
    lemma_mod_multiples_basic(k, d);
    lemma_fundamental_div_mod(n, d);
}
pub proof fn lemma_mod0_divides(d: int, n: int)
    requires d != 0, n % d == 0,
    ensures divides(d, n), n == d * (n / d),
{
    lemma_fundamental_div_mod(n, d);
    assert(n == d * (n / d));
}
pub proof fn lemma_divides_trans(a: int, b: int, c: int)
    requires divides(a, b), divides(b, c),
    ensures divides(a, c),
{
    let k = choose|k: int| b == #[trigger] (a * k);
    let l = choose|l: int| c == #[trigger] (b * l);
    assert(c == a * (k * l)) by(nonlinear_arith) requires b == a * k, c == b * l;
}

pub proof fn lemma_gcdn_scale(k: nat, a: nat, b: nat)
    requires k > 0,
    ensures gcdn(k * a, k * b) == k * gcdn(a, b),
    decreases a
{
    assert(k * a >= 0 && k * b >= 0) by(nonlinear_arith);
    if a == 0 { assert(k * a == 0) by(nonlinear_arith) requires a == 0; }
    else {
        assert(k * a > 0) by(nonlinear_arith) requires k > 0, a > 0;
        let q = b as int / a as int; let r = b as int % a as int;
        lemma_div_mod_id(b as int, a as int);
        assert(k * b == q * (k * a) + k * r) by(nonlinear_arith) requires b as int == a as int * q + r;
        assert(0 <= k * r && k * r < k * a) by(nonlinear_arith) requires 0 <= r, r < a, k > 0;
        lemma_fundamental_div_mod_converse((k * b) as int, (k * a) as int, q, (k * r) as int);
        lemma_gcdn_scale(k, r as nat, a);
    }
}
"""

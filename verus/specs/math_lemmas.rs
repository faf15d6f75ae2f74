verus! {
// vocabulary of the fixed point power
pub mod ms {
use vstd::prelude::*;
use crate::vx::*;
use crate::cosmwasm_std::{e18, mfloor, mceil, p10};
// product and quotient of two numbers with 18 decimals, rounded down
pub open spec fn dm(a: int, b: int) -> int { mfloor(a, b, e18()) }
pub open spec fn dd(a: int, b: int) -> int { mfloor(a, e18(), b) }
pub open spec fn ad(a: int, b: int) -> int { if a >= b { a - b } else { b - a } }
// t * b^i by repeated squaring
pub open spec fn ipl(b: int, t: int, i: int) -> int decreases i {
    if i <= 1 { dm(b, t) } else { ipl(dm(b, b), if i % 2 != 0 { dm(t, b) } else { t }, i / 2) }
}
pub open spec fn ip(b: int, n: int) -> int { if n == 0 { e18() } else { ipl(b, e18(), n) } }
// the binomial series of b^e = (1 - (1 - b))^e after k terms: last term, sum, sign of the last term
pub ghost struct Ser { pub term: int, pub sum: int, pub neg: bool }
pub open spec fn ser(b: int, e: int, k: nat) -> Ser decreases k {
    if k == 0 { Ser { term: e18(), sum: e18(), neg: false } } else {
        let p = ser(b, e, (k - 1) as nat);
        let c = ad(e, (k - 1) * e18());
        let term = dd(dm(p.term, dm(c, ad(b, e18()))), k * e18());
        // the factor (e - (k-1)) (b - 1) / k is negative iff exactly one of its parts is
        let neg = if (e > (k - 1) * e18()) != (b > e18()) { !p.neg } else { p.neg };
        Ser { term: term, sum: if neg { p.sum - term } else { p.sum + term }, neg: neg }
    }
}
// the first term below the wanted precision
pub open spec fn stops(b: int, e: int, prec: int, k: nat) -> bool { ser(b, e, k).term < prec && forall|j: nat| j < k ==> (#[trigger] ser(b, e, j)).term >= prec }
pub open spec fn fp(b: int, e: int, prec: int) -> int { ser(b, e, choose|k: nat| stops(b, e, prec, k)).sum }
pub open spec fn powv(b: int, e: int) -> int {
    if e % e18() == 0 { ip(b, e / e18()) } else { dm(ip(b, e / e18()), fp(b, e % e18(), 10_000_000_000)) }
}
pub proof fn lem_e18() ensures e18() > 0, p10(0) == 1, p10(18) == e18(), e18() == 1_000_000_000_000_000_000,
    forall|a: int| #[trigger] dm(a, e18()) == a, forall|a: int| #[trigger] mfloor(a, e18(), 1) == a * e18(), forall|a: int| #[trigger] dm(e18(), a) == a
{
    reveal_with_fuel(p10, 20);
    assert forall|a: int| #[trigger] dm(a, e18()) == a by { assert((a * 1_000_000_000_000_000_000) / 1_000_000_000_000_000_000 == a); }
    assert forall|a: int| #[trigger] dm(e18(), a) == a by { assert((1_000_000_000_000_000_000 * a) / 1_000_000_000_000_000_000 == a); }
}
pub proof fn lem_parts(e: int) requires e >= 0 ensures e - e18() * (e / e18()) == e % e18(), e == e18() ==> e / e18() == 1 && e % e18() == 0
{ assert(e - 1_000_000_000_000_000_000 * (e / 1_000_000_000_000_000_000) == e % 1_000_000_000_000_000_000); }
pub proof fn lem_ip1(b: int) ensures ip(b, 1) == b { lem_e18(); }
pub proof fn lem_stop_unique(b: int, e: int, prec: int, k: nat, l: nat) requires stops(b, e, prec, k), stops(b, e, prec, l) ensures k == l { }}
// what the power computation guarantees, over the contracts above
pub mod thm {
use vstd::prelude::*;
use vstd::arithmetic::power::pow;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use crate::vx::*;
use crate::ms::*;
use crate::cosmwasm_std::{e18, mfloor, mceil, p10};
pub proof fn dm_bounds(a: int, b: int) requires a >= 0, b >= 0 ensures 0 <= dm(a, b), dm(a, b) * e18() <= a * b < dm(a, b) * e18() + e18()
{
    lem_e18(); lemma_mul_nonnegative(a, b);
    lemma_fundamental_div_mod(a * b, e18()); lemma_mod_bound(a * b, e18()); lemma_div_pos_is_pos(a * b, e18());
}
/*@T:M01@*/
// exponents 0 and 1 are exact and 2 is the rounded product
pub proof fn m01_small(b: int) requires b > 0 ensures powv(b, 0) == e18(), powv(b, e18()) == b, powv(b, 2 * e18()) == dm(b, b)
{
    lem_e18(); lem_parts(e18());
    assert(ip(b, 1) == b) by { lem_ip1(b); }
    assert((2 * e18()) / e18() == 2 && (2 * e18()) % e18() == 0);
    reveal_with_fuel(ipl, 3);
    assert(ipl(b, e18(), 2) == ipl(dm(b, b), e18(), 1));
}
/*@T:M01@*/
// rounding only ever lowers an integer power: ip(b, n) / 10^18 <= (b / 10^18)^n
pub proof fn m01_upper(b: int, t: int, n: nat) requires b >= 0, t >= 0, n >= 1 ensures ipl(b, t, n as int) >= 0, ipl(b, t, n as int) * pow(e18(), n) <= t * pow(b, n) decreases n
{
    lem_e18();
    vstd::arithmetic::power::lemma_pow1(e18()); vstd::arithmetic::power::lemma_pow1(b);
    dm_bounds(b, t);
    if n == 1 { assert(t * b == b * t) by(nonlinear_arith); }
    else {
        let b2 = dm(b, b); let h = (n / 2) as nat; let t2 = if n % 2 != 0 { dm(t, b) } else { t };
        dm_bounds(b, b); dm_bounds(t, b);
        m01_upper(b2, t2, h);
        let r = ipl(b2, t2, h as int);
        assert(ipl(b, t, n as int) == r);
        let e = e18();
        // r e^h <= t2 b2^h and b2 e <= b b
        pow_le(b2 * e, b * b, h); pow_mul(b2, e, h); pow_sq(b, h); pow_sq(e, h);
        vstd::arithmetic::power::lemma_pow_positive(e, h); pow_nn(b2, h); pow_nn(b, h);
        let eh = pow(e, h); let bh = pow(b2, h); let bb = pow(b, (2 * h) as nat);
        assert(r * eh <= t2 * bh); assert(bh * eh <= bb); assert(eh * eh == pow(e, (2 * h) as nat));
        assert(r * (eh * eh) <= t2 * bb) by(nonlinear_arith) requires r * eh <= t2 * bh, bh * eh <= bb, eh > 0, t2 >= 0;
        pow_nn(b, (2 * h) as nat);
        if n % 2 == 0 { assert((2 * h) as nat == n); }
        else {
            assert((2 * h + 1) as nat == n);
            vstd::arithmetic::power::lemma_pow_adds(e, (2 * h) as nat, 1); vstd::arithmetic::power::lemma_pow_adds(b, (2 * h) as nat, 1);
            assert(pow(e, n) == (eh * eh) * e); assert(pow(b, n) == bb * b);
            assert(r * ((eh * eh) * e) <= t * (bb * b)) by(nonlinear_arith) requires r * (eh * eh) <= t2 * bb, t2 * e <= t * b, e > 0, bb >= 0;
        }
    }
}
proof fn pow_nn(a: int, n: nat) requires a >= 0 ensures pow(a, n) >= 0 decreases n { reveal(pow); if n > 0 { pow_nn(a, (n - 1) as nat); assert(a * pow(a, (n - 1) as nat) >= 0) by(nonlinear_arith) requires a >= 0, pow(a, (n - 1) as nat) >= 0; } }
proof fn pow_le(a: int, b: int, n: nat) requires 0 <= a <= b ensures pow(a, n) <= pow(b, n) decreases n
{ reveal(pow); if n > 0 { let m = (n - 1) as nat; pow_le(a, b, m); pow_nn(a, m); assert(a * pow(a, m) <= b * pow(b, m)) by(nonlinear_arith) requires 0 <= a <= b, 0 <= pow(a, m) <= pow(b, m); } }
proof fn pow_mul(a: int, b: int, n: nat) ensures pow(a * b, n) == pow(a, n) * pow(b, n) decreases n
{ reveal(pow); if n > 0 { let m = (n - 1) as nat; pow_mul(a, b, m); let x = pow(a, m); let y = pow(b, m); assert((a * b) * (x * y) == (a * x) * (b * y)) by(nonlinear_arith); } }
proof fn pow_sq(a: int, h: nat) ensures pow(a * a, h) == pow(a, (2 * h) as nat), pow(a, h) * pow(a, h) == pow(a, (2 * h) as nat)
{ pow_mul(a, a, h); vstd::arithmetic::power::lemma_pow_adds(a, h, h); }

pub proof fn ser_term_nonneg(b: int, e: int, k: nat) requires b >= 0, e >= 0 ensures ser(b, e, k).term >= 0 decreases k
{
    lem_e18();
    if k > 0 {
        let p = ser(b, e, (k - 1) as nat); ser_term_nonneg(b, e, (k - 1) as nat);
        let c = ad(e, (k - 1) * e18()); let x = ad(b, e18());
        dm_bounds(c, x); dm_bounds(p.term, dm(c, x));
        let v = dm(p.term, dm(c, x)) * e18();
        assert(v >= 0) by(nonlinear_arith) requires v == dm(p.term, dm(c, x)) * e18(), dm(p.term, dm(c, x)) >= 0, e18() > 0;
        assert(k * e18() > 0) by(nonlinear_arith) requires k > 0, e18() > 0;
        lemma_div_pos_is_pos(v, k * e18());
    }
}
// within half of one, every term is at most half of the one before it
pub proof fn ser_halves(b: int, e: int, k: nat) requires 0 < e < e18(), 2 * ad(b, e18()) <= e18(), b >= 0 ensures 0 <= 2 * ser(b, e, k + 1).term <= ser(b, e, k).term
{
    lem_e18();
    let p = ser(b, e, k); let x = ad(b, e18()); let ee = e18();
    let c = ad(e, k * ee);
    ser_term_nonneg(b, e, k); ser_term_nonneg(b, e, k + 1);
    let m = if k == 0 { 1int } else { k as int };
    assert(c <= m * ee) by(nonlinear_arith) requires c == ad(e, k * ee), 0 < e < ee, m == (if k == 0 { 1int } else { k as int }), k >= 0, ee > 0;
    dm_bounds(c, x);
    let d = dm(c, x);
    assert(2 * d <= m * ee) by(nonlinear_arith) requires d * ee <= c * x, c <= m * ee, 2 * x <= ee, c >= 0, x >= 0, m >= 1, ee > 0;
    dm_bounds(p.term, d);
    let q = dm(p.term, d);
    assert(2 * q <= p.term * m) by(nonlinear_arith) requires q * ee <= p.term * d, 2 * d <= m * ee, p.term >= 0, ee > 0;
    let t = ser(b, e, k + 1).term;
    let kk = (k + 1) * ee;
    assert(kk > 0) by(nonlinear_arith) requires kk == (k + 1) * ee, k >= 0, ee > 0;
    assert(t == (q * ee) / kk);
    lemma_fundamental_div_mod(q * ee, kk); lemma_mod_bound(q * ee, kk);
    assert(t * kk <= q * ee) by { lemma_mul_is_commutative(kk, t); }
    assert(t * (k + 1) <= q) by(nonlinear_arith) requires t * kk <= q * ee, kk == (k + 1) * ee, ee > 0;
    assert(2 * t <= p.term) by(nonlinear_arith) requires t * (k + 1) <= q, 2 * q <= p.term * m, m <= k + 1, t >= 0, k >= 0, p.term >= 0;
}
/*@T:M01@*/
// cutting the series off at the first term below the precision changes the sum, compared with any number of
// further terms, by less than that term: for bases within one half of one the cut-off error is below 10^-8
pub proof fn m01_cutoff(b: int, e: int, k: nat, m: nat) requires 0 < e < e18(), 2 * ad(b, e18()) <= e18(), b >= 0
    ensures ad(ser(b, e, k + m).sum, ser(b, e, k).sum) <= ser(b, e, k).term - ser(b, e, k + m).term, ser(b, e, k + m).term >= 0 decreases m
{
    ser_term_nonneg(b, e, k + m);
    if m > 0 { m01_cutoff(b, e, k, (m - 1) as nat); ser_halves(b, e, (k + m - 1) as nat); }
}
}
}

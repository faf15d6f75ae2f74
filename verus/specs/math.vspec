@@ crate ibcx_math
@@ file pow.rs
@@ fn pow(base, exp)
@props M01 W01
@ens[M01] r is Ok == (0 < base.v() < 2 * e18())
@ens[M01,W01] r is Ok ==> r->Ok_0.v() == powv(base.v(), exp.v())
@start let ghost b0 = base.v(); let ghost e0 = exp.v();
lem_e18(); lem_parts(e0); lem_ip1(b0);
@tail assert(e0 % e18() != 0 ==> $r->Ok_0.v() == powv(b0, e0));
@@ fn pow_int(base, power)
@props M01 W01
@ens[M01,W01] r.v() == ip(base.v(), power.v())
@start let ghost b0 = base.v();
lem_e18();
@loop 0 invariant i.v() >= 1, power.v() >= 1, ipl(base.v(), tmp.v(), i.v()) == ipl(b0, e18(), power.v()) decreases i.v()
@@ fn pow_approx(base, exp, prec)
@props M01 W01
@ens[M01] exp.v() == 0 ==> r is Ok && r->Ok_0.v() == 0
@ens[M01,W01] r is Ok && exp.v() != 0 && prec.v() > 0 ==> r->Ok_0.v() == fp(base.v(), exp.v(), prec.v())
@ens[M01] r is Ok
@start lem_e18();
@loopstart 0 assert(stops(base.v(), exp.v(), prec.v(), (i - 1) as nat) == (term.v() < prec.v())); assert(ser(base.v(), exp.v(), (i - 1) as nat).term >= prec.v() && ser(base.v(), exp.v(), i as nat).term < prec.v() ==> stops(base.v(), exp.v(), prec.v(), i as nat));
@loop 0 invariant stops(base.v(), exp.v(), prec.v(), (i - 1) as nat) == (term.v() < prec.v()), i >= 1, a.v() == exp.v(), x.v() == ad(base.v(), e18()), x_neg == (base.v() > e18()), term.v() == ser(base.v(), exp.v(), (i - 1) as nat).term, sum.v() == ser(base.v(), exp.v(), (i - 1) as nat).sum, negative == ser(base.v(), exp.v(), (i - 1) as nat).neg, forall|j: nat| j < i - 1 ==> (#[trigger] ser(base.v(), exp.v(), j)).term >= prec.v() ensures prec.v() > 0 ==> exists|k: nat| #[trigger] stops(base.v(), exp.v(), prec.v(), k) && sum.v() == ser(base.v(), exp.v(), k).sum
@attr #[verifier::allow_complex_invariants]
@tail if prec.v() > 0 { let k = choose|k: nat| #[trigger] stops(base.v(), exp.v(), prec.v(), k) && sum.v() == ser(base.v(), exp.v(), k).sum; let l = choose|k: nat| stops(base.v(), exp.v(), prec.v(), k); lem_stop_unique(base.v(), exp.v(), prec.v(), k, l); }
@@ fn abs_diff_with_sign(x, y)
@props M01 W01
@ens[M01,W01] r.0.v() == ad(x.v(), y.v())
@ens[M01,W01] r.1 == (x.v() > y.v())

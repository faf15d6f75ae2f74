@@ crate ibcx_core
@@ file state/units.rs
@@ raw
impl Units {
    pub open spec fn view(&self) -> crate::cs::U { uview(self.0@) }
    pub fn len(&self) -> (r: usize) ensures r == self.0@.len() { self.0.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.0@.len() == 0) { self.0.len() == 0 }
}
impl VxRef<Unit> for Units { open spec fn vx_rseq(&self) -> Seq<Unit> { self.0@ }
    fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a Unit>) { self.0.vx_iter() }
    fn vx_first<'a>(&'a self) -> (r: Option<&'a Unit>) { self.0.vx_first() }
    fn vx_last<'a>(&'a self) -> (r: Option<&'a Unit>) { self.0.vx_last() }
    fn vx_to_vec(&self) -> (r: Vec<Unit>) { self.0.vx_to_vec() } }
impl VxCollect<Unit> for Units { open spec fn collects(s: Seq<Unit>, r: Self) -> bool { r.0@ == s } }

@@ implraw Vec<Unit>@From<Units>
open spec fn vx_from_spec(a: Units, r: Self) -> bool { r == a.0 }
@@ fn Vec<Unit>@From<Units>::from(val)
@props C07 C14
@@ implraw Units@From<Vec<Unit>>
open spec fn vx_from_spec(a: Vec<Unit>, r: Self) -> bool { r.0 == a }
@@ fn Units@From<Vec<Unit>>::from(v)
@props C07 C14
@@ implraw Units@IntoIterator
open spec fn vx_seq(&self) -> Seq<Unit> { self.0@ }
@@ fn Units@IntoIterator::into_iter(self)
@props C14
@@ fn Units@Extend<Unit>::extend(&mut self, iter)
@props C14
@ens[C14,C10] final(self).0@ == old(self).0@ + iter.vx_seq()
@loop 0 invariant vx_it0@ == iter.vx_seq(), self.0@ == old(self).0@ + vx_it0@.take(vx_i0 as int)
@@ fn Units@FromIterator<Unit>::from_iter(iter)
@props C14 C07
@ens[C14,C07] r.0@ == iter.vx_seq()
@@ fn Units@Deref::deref(&self)
@props C14
@ens[C14] *r == self.0

@@ fn Units::add_key(&mut self, k, v)
@props C14 C08 C03
@ens[C14,C08,C03] r is Ok ==> add_post(old(self)@, k@, v.v as int, final(self)@)
@closure position.0 |p: &Unit| -> (q: bool) ensures q == (p.0@ == k@)
@start let ghost s0 = self.0@;
@tail
if $r is Ok {
    if inu(uview(s0), k@) {
        l_first(uview(s0), k@);
        let i = choose|i: int| #[trigger] is_first(uview(s0), k@, i);
        assert(uview(s0)[i].0 == s0[i].0@);
        assert forall|j: int| 0 <= j < i implies (#[trigger] s0[j]).0@ != k@ by { assert(uview(s0)[j].0 == s0[j].0@); }
        assert(uview(self.0@) =~= uview(s0).update(i, (k@, uview(s0)[i].1 + v.v)));
    } else {
        assert forall|j: int| 0 <= j < s0.len() implies (#[trigger] s0[j]).0@ != k@ by { assert(uview(s0)[j].0 == s0[j].0@); }
        assert(uview(self.0@) =~= uview(s0).push((k@, v.v as int)));
    }
}
@@ fn Units::sub_key(&mut self, k, v)
@props C14 C08 C03
@ens[C14,C08,C03] r is Ok ==> sub_post(old(self)@, k@, v.v as int, final(self)@)
@closure position.0 |p: &Unit| -> (q: bool) ensures q == (p.0@ == k@)
@start let ghost s0 = self.0@;
@tail
if $r is Ok {
    if inu(uview(s0), k@) {
        l_first(uview(s0), k@);
        let i = choose|i: int| #[trigger] is_first(uview(s0), k@, i);
        assert(uview(s0)[i].0 == s0[i].0@);
        assert forall|j: int| 0 <= j < i implies (#[trigger] s0[j]).0@ != k@ by { assert(uview(s0)[j].0 == s0[j].0@); }
        assert(uview(self.0@) =~= uview(s0).update(i, (k@, uview(s0)[i].1 - v.v)));
    } else {
        assert forall|j: int| 0 <= j < s0.len() implies (#[trigger] s0[j]).0@ != k@ by { assert(uview(s0)[j].0 == s0[j].0@); }
    }
}
@@ fn Units::get_key(&self, key)
@props C08 C09 C14
@ens[C14,C08,C09] r is Some ==> unit_is(self@, key@, (r->0).1.v as int) && (r->0).0@ == key@
@ens[C14,C09] r is None ==> !inu(self@, key@)
@closure position.0 |u: &Unit| -> (q: bool) ensures q == (u.0@ == key@)
@tail
let s = self.0@;
if $r is Some {
    let i = choose|i: int| 0 <= i < s.len() && s[i] == *($r->0) && s[i].0@ == key@ && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).0@ != key@;
    assert(is_first(uview(s), key@, i));
    assert(uview(s)[i].1 == s[i].1.v);
} else { assert forall|j: int| 0 <= j < s.len() implies (#[trigger] uview(s)[j]).0 != key@ by { assert(s[j].0@ != key@); } }
@@ fn Units::pop_key(&mut self, key)
@props C07 C14
@ens[C14,C07] r is Some ==> exists|i: int| #[trigger] is_first(old(self)@, key@, i) && (r->0).0@ == key@ && (r->0).1.v == old(self)@[i].1 && final(self)@ == old(self)@.remove(i)
@ens[C14,C07] r is None ==> !inu(old(self)@, key@) && final(self)@ == old(self)@
@closure position.0 |u: &Unit| -> (q: bool) ensures q == (u.0@ == key@)
@start let ghost s0 = self.0@;
@tail
if $r is Some {
    let i = choose|i: int| 0 <= i < s0.len() && s0[i] == $r->0 && self.0@ == s0.remove(i) && s0[i].0@ == key@ && forall|j: int| 0 <= j < i ==> (#[trigger] s0[j]).0@ != key@;
    assert(uview(s0)[i].0 == key@ && uview(s0)[i].1 == s0[i].1.v);
    assert forall|j: int| 0 <= j < i implies (#[trigger] uview(s0)[j]).0 != key@ by { assert(s0[j].0@ != key@); }
    assert(is_first(uview(s0), key@, i));
    assert(uview(self.0@) =~= uview(s0).remove(i));
    assert(is_first(old(self)@, key@, i));
    assert(self@ == old(self)@.remove(i));
    assert(($r->0).1.v == old(self)@[i].1);
    assert(($r->0).0@ == key@);
} else { assert forall|j: int| 0 <= j < s0.len() implies (#[trigger] uview(s0)[j]).0 != key@ by { assert(s0[j].0@ != key@); } }
@@ fn Units::prune_zero(&mut self)
@props C09
@closure retain.0 |p: &Unit| -> (q: bool) ensures q == (p.1.v != 0)
@@ fn Units::calc_require_amount(&self, index_amount)
@props C02 C10 C13
@ens[C02,C13,S01] coinsv(r@) == pays(self@, index_amount.v as int)
@closure map.0 |p: &Unit| -> (q: Coin) ensures q@ == (CoinV { denom: p.0@, amount: pay(p.1.v as int, index_amount.v as int) })
@tail assert(coinsv($r@) =~= pays(self@, index_amount.v as int));
@@ fn Units::calc_mint_amount(&self, index_amount)
@props C01 C03 C13
@ens[C01,C03,C13,P03] coinsv(r@) == charges(self@, index_amount.v as int)
@closure map.0 |p: &Unit| -> (q: Coin) ensures q@ == (CoinV { denom: p.0@, amount: charge(p.1.v as int, index_amount.v as int) })
@tail assert(coinsv($r@) =~= charges(self@, index_amount.v as int));
@@ fn Units::calc_refund_amount(&self, funds, index_amount)
@props C01 C03 C13
@ens[C01,C03,C13] r is Ok ==> refund_post(self@, coinsv(funds@), index_amount.v as int, coinsv(r->Ok_0@))
@closure map.0 |v: Coin| -> (q: Option<String>) ensures q is Some && q->0@ == v.denom@
@closure position.0 |v: &Coin| -> (q: bool) ensures q == (v.denom@ == denom@)
@closure filter.0 |v: &Coin| -> (q: bool) ensures q == (v.amount.v != 0)
@start let ghost f0 = funds@;
@loop 0 invariant coinsv(vx_it0@) == charges(self@, index_amount.v as int), denoms@.len() == f0.len(), funds@.len() == f0.len(),
forall|i: int| 0 <= i < f0.len() ==> (#[trigger] funds@[i]).denom@ == f0[i].denom@,
forall|d: Seq<char>| #[trigger] ct(coinsv(funds@), d) + ct(coinsv(vx_it0@).take(vx_i0 as int), d) == ct(coinsv(f0), d),
forall|i: int| 0 <= i < f0.len() && (#[trigger] denoms@[i]) is None ==> inu(self@, f0[i].denom@),
forall|j: int| 0 <= j < vx_i0 ==> chas(coinsv(f0), (#[trigger] vx_it0@[j]).denom@)
@loopstart 0
let ghost fa = funds@;
@loopend 0
let j = (vx_i0 - 1) as int;
let i = choose|i: int| 0 <= i < fa.len() && (#[trigger] fa[i]).denom@ == vx_it0@[j].denom@ && funds@.len() == fa.len() && fa[i].amount.v >= vx_it0@[j].amount.v && funds@ == fa.update(i, funds@[i]) && funds@[i].denom == fa[i].denom && funds@[i].amount.v == fa[i].amount.v - vx_it0@[j].amount.v;
assert(coinsv(funds@) =~= coinsv(fa).update(i, CoinV { denom: fa[i].denom@, amount: fa[i].amount.v - vx_it0@[j].amount.v }));
assert(coinsv(f0)[i].denom == f0[i].denom@);
assert(charges(self@, index_amount.v as int)[j].denom == self@[j].0);
assert(coinsv(vx_it0@)[j] == vx_it0@[j]@);
assert(self@[j].0 == vx_it0@[j].denom@);
assert forall|d: Seq<char>| #[trigger] ct(coinsv(funds@), d) + ct(coinsv(vx_it0@).take(vx_i0 as int), d) == ct(coinsv(f0), d) by {
    l_ct_take(coinsv(vx_it0@), j, d);
    l_ct_update(coinsv(fa), i, CoinV { denom: fa[i].denom@, amount: fa[i].amount.v - vx_it0@[j].amount.v }, d);
    assert(ct(coinsv(fa), d) + ct(coinsv(vx_it0@).take(j), d) == ct(coinsv(f0), d));
}
@after required let ghost rq = required@;
@before denoms#1
let ghost dn0 = denoms@;
let ghost fz = funds@;
@after denoms#1 let ghost dn1 = denoms@;
@tail
l_flat_empty(dn0);
if $r is Ok {
    let keep = choose|keep: Seq<bool>| keep.len() == fz.len() && $r->Ok_0@ == #[trigger] vx_kept(fz, keep) && forall|i: int| 0 <= i < fz.len() ==> #[trigger] keep[i] == (fz[i].amount.v != 0);
    l_kept_map(fz, keep, |c: Coin| c@);
    assert forall|i: int| 0 <= i < coinsv(fz).len() implies #[trigger] keep[i] == (coinsv(fz)[i].amount != 0) by { assert(coinsv(fz)[i] == fz[i]@); }
    let cs = charges(self@, index_amount.v as int);
    assert(cs.take(cs.len() as int) == cs);
    assert forall|d: Seq<char>| #[trigger] ct(coinsv($r->Ok_0@), d) == ct(coinsv(f0), d) - ct(cs, d) by { l_ct_kept(coinsv(fz), keep, d); assert(ct(coinsv(fz), d) + ct(cs.take(cs.len() as int), d) == ct(coinsv(f0), d)); }
    l_ct_kept(coinsv(fz), keep, Seq::empty());
    assert forall|i: int| 0 <= i < coinsv($r->Ok_0@).len() implies (#[trigger] coinsv($r->Ok_0@)[i]).amount > 0 by { assert(coinsv($r->Ok_0@)[i] == $r->Ok_0@[i]@); assert(vx_kept(coinsv(fz), keep)[i].amount != 0); }
    assert forall|i: int| 0 <= i < self@.len() implies chas(coinsv(f0), (#[trigger] self@[i]).0) by { assert(cs[i].denom == self@[i].0); assert(coinsv(rq)[i] == rq[i]@); }
    assert forall|i: int| 0 <= i < coinsv(f0).len() implies inu(self@, (#[trigger] coinsv(f0)[i]).denom) by { assert(dn0[i] is None); assert(coinsv(f0)[i].denom == f0[i].denom@); }
}
@@ fn Units::check_empty(&self)
@props C09
@ens[C09] r == (forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).1 == 0)
@closure all.0 |p: &Unit| -> (q: bool) ensures q == (p.1.v == 0)
@tail
let s = self.0@;
if $r { assert forall|i: int| 0 <= i < uview(s).len() implies (#[trigger] uview(s)[i]).1 == 0 by { assert(s[i].1.v == 0); } }
else { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1.v != 0; assert(uview(s)[i].1 != 0); assert(self@[i].1 != 0); }

@@ file lib.rs
@@ fn assert_sender(authorized, actual)
@props C05 C06 C11
@ens[C05,C06,C11] r is Ok == (authorized@ == actual@)
@@ file state/config.rs
@@ fn Config::check_gov(&self, sender)
@props C05
@ens[C05,C04,C06] r is Ok == (self.gov@ == sender@)
@@ fn Config::assert_paused(&self, env)
@props C04
@ens[C04] r is Ok ==> paused_now(self.paused, *env)
@@ fn Config::assert_not_paused(&self, env)
@props C04
@ens[C04,C13] r is Ok ==> !paused_now(self.paused, *env)
@@ fn Config@Default::default()
@props C05
@@ file state/pause.rs
@@ fn PauseInfo::refresh(self, env)
@props C04
@ens[C04,C13] r is Ok ==> r->Ok_0 == refreshed(self, *env)
@ens[C04] r is Ok
@@ fn PauseInfo::assert_paused(self)
@props C04
@ens[C04] r is Ok == self.paused && (r is Ok ==> r->Ok_0 == self)
@@ fn PauseInfo::assert_not_paused(self)
@props C04
@ens[C04] r is Ok == !self.paused && (r is Ok ==> r->Ok_0 == self)
@@ file state/fee.rs
@@ fn rate_checker(field, rate)
@props C12
@ens[C12] r is Ok == rate_ok(rate)
@@ fn StreamingFee::collect(&mut self, index_units, now_in_sec, total_supply)
@props C10 C03
@ens[C10,C03,C13] r is Ok ==> collect_post(*old(self), index_units@, now_in_sec as int, total_supply.v as int, *final(self), (r->Ok_0).0@)
@ens[C10,C13] r is Ok ==> ((r->Ok_0).1 is Some) == !no_collect(*old(self), now_in_sec as int)
@ens[C10,C13] r is Ok && (r->Ok_0).1 is Some ==> (r->Ok_0).1->0 == final(self).collected
@closure map.0 |p: (String, Decimal)| -> (q: Result<((String, Decimal), (String, Decimal)), ContractError>) ensures q is Ok ==> (q->Ok_0).0.0@ == p.0@ && (q->Ok_0).0.1.v == p.1.v - fee_unit(p.1.v as int, rate.v as int) && (q->Ok_0).1.0@ == p.0@ && (q->Ok_0).1.1.v == fee_unit(p.1.v as int, rate.v as int)
@closure map.1 |p: (String, Decimal)| -> (q: (String, Uint128)) ensures q.0@ == p.0@ && q.1.v == pay(p.1.v as int, total_supply.v as int)
@closure position.0 |c: &Coin| -> (q: bool) ensures q == (c.denom@ == denom@)
@after delta assert((delta as u32) as u64 == delta % 0x1_0000_0000u64) by(bit_vector);
@start
let ghost s0 = *self;
let ghost u0 = index_units@;
let ghost col0 = self.collected@;
@loop 0 invariant
self.rate == s0.rate, self.freeze == s0.freeze, self.last_collected_at == s0.last_collected_at,
sv(vx_it0@) == fees_of(u0, rate.v as int, total_supply.v as int),
forall|d: Seq<char>| #[trigger] ct(coinsv(self.collected@), d) == ct(coinsv(col0), d) + ct(sv(vx_it0@).take(vx_i0 as int), d)
@loopstart 0
let ghost ca = self.collected@;
@loopend 0
let j = (vx_i0 - 1) as int;
let dn = vx_it0@[j].0@;
let am = vx_it0@[j].1.v as int;
assert(sv(vx_it0@)[j] == (CoinV { denom: dn, amount: am }));
assert forall|d: Seq<char>| #[trigger] ct(coinsv(self.collected@), d) == ct(coinsv(col0), d) + ct(sv(vx_it0@).take(vx_i0 as int), d) by {
    l_ct_take(sv(vx_it0@), j, d);
    assert(ct(coinsv(ca), d) == ct(coinsv(col0), d) + ct(sv(vx_it0@).take(j), d));
    if self.collected@.len() == ca.len() {
        let i = choose|i: int| 0 <= i < ca.len() && (#[trigger] ca[i]).denom@ == dn && self.collected@ == ca.update(i, self.collected@[i]) && self.collected@[i].denom@ == dn && self.collected@[i].amount.v == ca[i].amount.v + am;
        l_ct_update(coinsv(ca), i, CoinV { denom: dn, amount: ca[i].amount.v + am }, d);
        assert(coinsv(ca)[i] == ca[i]@);
        assert(coinsv(self.collected@) =~= coinsv(ca).update(i, CoinV { denom: dn, amount: ca[i].amount.v + am }));
    } else {
        l_ct_push(coinsv(ca), CoinV { denom: dn, amount: am }, d);
        assert(coinsv(self.collected@) =~= coinsv(ca).push(CoinV { denom: dn, amount: am }));
    }
}
@tail
if $r is Ok && !no_collect(s0, now_in_sec as int) {
    let rate = frate(s0, now_in_sec as int);
    let fs = fees_of(u0, rate, total_supply.v as int);
    assert(fs.take(fs.len() as int) == fs);
    assert(($r->Ok_0).0@ =~= units_left(u0, rate));
}
@@ fn Fee::check_rates(&self)
@props C12
@ens[C12] r is Ok ==> fee_ok(*self)
@closure map.0 |v: &StreamingFee| -> (q: Decimal) ensures q == v.rate
@tail l_rate_literal();
@@ fn Fee@Default::default()
@props C12
@@ file state/rebalance.rs
@@ fn Rebalance::validate(&self, index_units)
@props C07
@ens[C07] r is Ok ==> plan_ok(*self, index_units@)
@loop 0 invariant
vx_it0@.len() == self.deflation.0@.len(), forall|i: int| 0 <= i < vx_it0@.len() ==> *(#[trigger] vx_it0@[i]) == self.deflation.0@[i],
forall|x: (Seq<char>, int)| base_units@.contains(x) ==> index_units@.contains(x),
forall|i: int| 0 <= i < vx_i0 ==> covered(index_units@, #[trigger] self.deflation@[i])
@loopstart 0
let ghost ba = base_units@;
@loopend 0
let k = (vx_i0 - 1) as int;
assert(self.deflation@[k].0 == self.deflation.0@[k].0@ && self.deflation@[k].1 == self.deflation.0@[k].1.v);
let p = choose|p: int| #[trigger] is_first(ba, self.deflation@[k].0, p) && base_units@ == ba.remove(p) && ba[p].1 >= self.deflation@[k].1;
assert(ba.contains(ba[p]) && index_units@.contains(ba[p]));
let z = choose|z: int| 0 <= z < index_units@.len() && index_units@[z] == ba[p];
assert(index_units@[z].0 == self.deflation@[k].0);
assert forall|x: (Seq<char>, int)| base_units@.contains(x) implies index_units@.contains(x) by {
    let q = choose|q: int| 0 <= q < base_units@.len() && base_units@[q] == x;
    assert(ba.contains(x)) by { if q < p { assert(ba[q] == x); } else { assert(ba[q + 1] == x); } }
}
@after conflict
assert(uview(self.deflation.0@ + self.inflation.0@) =~= self.deflation@ + self.inflation@);
assert(conflict == !nodup(uview(self.deflation.0@ + self.inflation.0@)));
@@ fn TradeInfo::assert_cooldown(&self, now)
@props C08
@ens[C08] r is Ok ==> cooled(*self, now as int)
@@ fn TradeInfo::update_last_traded_at(self, now)
@props C08
@ens[C08] r == (TradeInfo { last_traded_at: Some(now), ..self })
@@ fn TradeInfo@Default::default()
@props C08
@@ file state/units.rs
@@ fn Units::check_duplicate(&self)
@props C14 C07
@ens[C14,C07] r == !nodup(self@)
@loop 0 invariant
vx_it0@.len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> *(#[trigger] vx_it0@[i]) == self.0@[i],
vx_b0 ==> nodup(self@.take(vx_i0 as int)),
!vx_b0 ==> !nodup(self@),
vx_b0 ==> forall|s: Seq<char>| #[trigger] uniq@.dom().contains(s) ==> inu(self@.take(vx_i0 as int), s),
vx_b0 ==> forall|i: int| 0 <= i < vx_i0 ==> uniq@.dom().contains((#[trigger] self@[i]).0)
@loopend 0
let j = (vx_i0 - 1) as int;
let a = self@.take(j);
assert(self@[j].0 == self.0@[j].0@);
assert(self@.take(vx_i0 as int) =~= a.push(self@[j]));
assert(a.push(self@[j])[j] == self@[j]);
if !vx_b0 {
    let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == self@[j].0;
    assert(self@[i].0 == self@[j].0 && i < j);
} else {
    assert forall|p: int, q: int| 0 <= p < q < vx_i0 implies (#[trigger] self@.take(vx_i0 as int)[p]).0 != (#[trigger] self@.take(vx_i0 as int)[q]).0 by {
        if q < j { assert(a[p].0 != a[q].0); } else { assert(uniq@.dom().contains(self@[p].0)); }
    }
    assert forall|s: Seq<char>| #[trigger] uniq@.dom().contains(s) implies inu(self@.take(vx_i0 as int), s) by {
        if inu(a, s) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == s; assert(self@.take(vx_i0 as int)[i].0 == s); } else { assert(self@.take(vx_i0 as int)[j].0 == s); }
    }
}
@tail assert(self@.take(self@.len() as int) == self@);

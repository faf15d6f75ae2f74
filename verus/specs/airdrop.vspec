@@ crate ibcx_interface
@@ file airdrop.rs
@@ fn AirdropType@ToString::to_string(&self)
@props L01 A06
@ens[L01,A06] r@ == tstr(*self)
@@ fn VerifyClaimResponse::fail(self, reason)
@props A06
@ens[A06] r.valid == self.valid
@@ fn VerifyClaimResponse::ok(self)
@props A06
@ens[A06] r.valid
@@ crate ibcx_airdrop
@@ file airdrop.rs
@@ implraw Airdrop@From<OpenAirdrop>
open spec fn vx_from_spec(a: OpenAirdrop, r: Self) -> bool { r == Airdrop::Open(a) }
@@ fn Airdrop@From<OpenAirdrop>::from(val)
@props A01 A02 A04
@@ implraw Airdrop@From<BearerAirdrop>
open spec fn vx_from_spec(a: BearerAirdrop, r: Self) -> bool { r == Airdrop::Bearer(a) }
@@ fn Airdrop@From<BearerAirdrop>::from(val)
@props A01 A02 A04
@@ fn Airdrop::type_of(&self)
@props L01
@ens[L01] tstr(r) == type_s(*self)
@@ fn Airdrop::type_str(&self)
@props L01
@ens[L01] r@ == type_s(*self)
@@ fn Airdrop::unwrap_open(self)
@props A03
@ens[A03,A06] r is Ok ==> self == Airdrop::Open(r->Ok_0)
@@ fn Airdrop::unwrap_bearer(self)
@props A03
@ens[A03,A06] r is Ok ==> self == Airdrop::Bearer(r->Ok_0)
@@ fn Airdrop::to_resp(p)
@props A06 L01
@ens[A06,L01] resp_is(r, p.0, av(p.1))
@@ file state.rs
@@ skip AirdropIndexes<'a>@IndexList<Airdrop>
@@ fn airdrops()
@props A01 A02 A04 A05 A06 L01
@ens[A01,A02,A04,A05,A06,L01] r.k@ == n_air()
@ens[L01] r.idx.by_type.pns@ == n_air() && r.idx.by_creator.pns@ == n_air()
@ens[L01] forall|t: Airdrop| #[trigger] (r.idx.by_type.f@)(t) == type_s(t)
@ens[L01] forall|t: Airdrop| #[trigger] (r.idx.by_creator.f@)(t) == av(t).creator
@closure call.0 |b: &[u8], k: &Airdrop| -> (q: &'a str) ensures q@ == type_s(*k)
@closure call.1 |b: &[u8], k: &Airdrop| -> (q: Addr) ensures q@ == av(*k).creator
@@ fn load_airdrop(storage, id)
@props A01 A02 A03 A04 A05 A06
@ens[A01,A02,A03,A04,A05,A06] r is Ok ==> names(storage@, id, (r->Ok_0).0) && hasair(storage@, (r->Ok_0).0) && (r->Ok_0).1 == dec::<Airdrop>(storage@[k_air((r->Ok_0).0)])
@@ fn save_label(storage, id, label)
@props A05
@ens[A05] r is Ok && label is None ==> final(storage)@ == old(storage)@
@ens[A05] r is Ok && label is Some ==> !haslab(old(storage)@, label->0@) && final(storage)@ == old(storage)@.insert(k_lab(label->0@), enc::<u64>(id))
@@ fn assert_not_claimed(storage, id, claim_key)
@props A02
@ens[A02] r is Ok ==> !haslog(storage@, id, claim_key@)
@@ file verify.rs
@@ fn sha256_digest(bz)
@props A03 A05
@ens[A03,A05,A06] r is Ok && r->Ok_0@ == sha256(bz.vx_ar())
@@ fn ripemd160_digest(bz)
@props A05
@ens[A05] r is Ok && r->Ok_0@ == ripemd160(bz.vx_ar())
@@ fn pub_to_addr(pub_key, prefix)
@props A05
@ens[A05] r is Ok ==> r->Ok_0@ == pub_addr(pub_key@, prefix@)
@@ fn verify_merkle_proof(root, proof, claim_proof, amount)
@props A03 A06
@ens[A03,A06] r is Ok <==> proof_ok(root@, proof@, claim_proof@, amount.v as int)
@closure try_fold.0 |h: [u8; 32], p: String| -> (q: Result<[u8; 32], ContractError>) ensures (q is Ok) == hex32(p@), q is Ok ==> q->Ok_0@ == sha256(sorted_pair(h@, unhexs(p@)))
@start let ghost pr = proof@;
@after user_input assert(user_input@ =~= claim_proof@ + ":"@ + int_str(amount.v as int));
@after hash let ghost h0 = hash@;
@after hash#1
assert(forall|i: int| 0 <= i < pr.len() ==> hex32(#[trigger] pr[i]@));
assert(hash@ == fold_proof(h0, pr)) by {
    let acc = choose|acc: Seq<[u8; 32]>| #[trigger] acc.len() == pr.len() + 1 && acc[0]@ == h0 && acc.last() == hash && forall|i: int| #![trigger acc[i]] 0 <= i < pr.len() ==> acc[i + 1]@ == sha256(sorted_pair(acc[i]@, unhexs(pr[i]@)));
    lemma_fold(acc, h0, pr, pr.len() as int);
    assert(pr.take(pr.len() as int) =~= pr);
}
@@ file execute/fund.rs
@@ fn fund(deps, info, id)
@props A01 A04
@ens[A01,A04] r is Ok ==> fund_post(old(deps.storage)@, final(deps.storage)@, info, id, r->Ok_0.mv())
@start let ghost s0 = deps.storage@;
@tail if $r is Ok { assert(fund_id(s0, final(deps.storage)@, info, id, airdrop_id, $r->Ok_0.mv())); }
@@ fn fund_open(deps, info, id, airdrop)
@props A01 A04
@ens[A01,A04] r is Ok ==> fund_in(old(deps.storage)@, final(deps.storage)@, info, id, av(Airdrop::Open(airdrop)), r->Ok_0.mv())
@tail if $r is Ok { assert($r->Ok_0.mv() =~= Seq::<MsgV>::empty()); }
@@ fn fund_bearer(deps, info, id, airdrop)
@props A01 A04
@ens[A01,A04] r is Ok ==> fund_in(old(deps.storage)@, final(deps.storage)@, info, id, av(Airdrop::Bearer(airdrop)), r->Ok_0.mv())
@tail if $r is Ok { assert($r->Ok_0.mv() =~= Seq::<MsgV>::empty()); }
@@ file execute/close.rs
@@ fn close(deps, env, info, id)
@props A01 A04
@ens[A01,A04] r is Ok ==> close_post(old(deps.storage)@, final(deps.storage)@, env, info, id, r->Ok_0.mv())
@start let ghost s0 = deps.storage@;
@tail if $r is Ok { assert(close_id(s0, final(deps.storage)@, env, info, id, airdrop_id, $r->Ok_0.mv())); }
@@ fn close_open(deps, env, info, airdrop_id, airdrop)
@props A01 A04
@ens[A01,A04] r is Ok ==> close_in(old(deps.storage)@, final(deps.storage)@, env, info, airdrop_id, av(Airdrop::Open(airdrop)), r->Ok_0.mv())
@start let ghost a0 = av(Airdrop::Open(airdrop));
@tail if $r is Ok { let rm = $r->Ok_0.mv(); assert(rm.len() == 1); assert(rm[0]->Send_amount =~= seq![CoinV { denom: a0.denom, amount: a0.total - a0.claimed }]); assert(rm =~= seq![send(a0.creator, a0.denom, a0.total - a0.claimed)]); }
@@ fn close_bearer(deps, env, info, airdrop_id, airdrop)
@props A01 A04
@ens[A01,A04] r is Ok ==> close_in(old(deps.storage)@, final(deps.storage)@, env, info, airdrop_id, av(Airdrop::Bearer(airdrop)), r->Ok_0.mv())
@start let ghost a0 = av(Airdrop::Bearer(airdrop));
@tail if $r is Ok { let rm = $r->Ok_0.mv(); assert(rm.len() == 1); assert(rm[0]->Send_amount =~= seq![CoinV { denom: a0.denom, amount: a0.total - a0.claimed }]); assert(rm =~= seq![send(a0.creator, a0.denom, a0.total - a0.claimed)]); }
@@ file execute/claim.rs
@@ fn claim(deps, info, payload)
@props A01 A02 A03 A04
@ens[A01,A02,A03,A04] r is Ok ==> claim_post(old(deps.storage)@, final(deps.storage)@, info, payload, r->Ok_0.mv())
@closure map.0 |x: String| -> (q: crate::cosmwasm_std::StdResult<Addr>) ensures q is Ok ==> q->Ok_0@ == x@ && addr_ok(x@)
@closure unwrap_or_else.0 || -> (q: Addr) ensures q@ == info.sender@
@closure map.1 |x: String| -> (q: crate::cosmwasm_std::StdResult<Addr>) ensures q is Ok ==> q->Ok_0@ == x@ && addr_ok(x@)
@closure unwrap_or_else.1 || -> (q: Addr) ensures q@ == info.sender@
@@ fn claim_open(deps, sender, id, amount, claimer, merkle_proof)
@props A01 A02 A03 A04
@ens[A01,A02] r is Ok ==> exists|n: u64| #[trigger] names(old(deps.storage)@, id, n) && pays_claim(old(deps.storage)@, final(deps.storage)@, n, claimer@, claimer@, amount.v as int, r->Ok_0.mv())
@ens[A01,A02,A03] r is Ok ==> exists|n: u64| #![trigger open_id(old(deps.storage)@, final(deps.storage)@, id, n, amount.v as int, claimer@, merkle_proof@, r->Ok_0.mv())] #![trigger names(old(deps.storage)@, id, n)] open_id(old(deps.storage)@, final(deps.storage)@, id, n, amount.v as int, claimer@, merkle_proof@, r->Ok_0.mv())
@ens[A04,A02] r is Ok ==> exists|n: u64| #[trigger] names(old(deps.storage)@, id, n) && claim_keeps(old(deps.storage)@, final(deps.storage)@, n, claimer@)
@start let ghost s0 = deps.storage@; let ghost mp = merkle_proof@;
@tail if $r is Ok { let rm = $r->Ok_0.mv(); assert(rm.len() == 1); assert(rm[0]->Send_amount =~= seq![CoinV { denom: air(s0, airdrop_id).denom, amount: amount.v as int }]); assert(rm =~= seq![send(claimer@, air(s0, airdrop_id).denom, amount.v as int)]); assert(open_id(s0, deps.storage@, id, airdrop_id, amount.v as int, claimer@, mp, $r->Ok_0.mv())); }
@@ fn claim_bearer(deps, sender, id, amount, claimer, claim_hash, claim_sign, merkle_proof)
@props A01 A02 A03 A04
@ens[A01,A02] r is Ok ==> exists|n: u64| #[trigger] names(old(deps.storage)@, id, n) && pays_claim(old(deps.storage)@, final(deps.storage)@, n, claim_hash@, claimer@, amount.v as int, r->Ok_0.mv())
@ens[A01,A02,A03] r is Ok ==> exists|n: u64| #![trigger bearer_id(old(deps.storage)@, final(deps.storage)@, id, n, amount.v as int, claimer@, claim_hash@, claim_sign@, merkle_proof@, r->Ok_0.mv())] #![trigger names(old(deps.storage)@, id, n)] bearer_id(old(deps.storage)@, final(deps.storage)@, id, n, amount.v as int, claimer@, claim_hash@, claim_sign@, merkle_proof@, r->Ok_0.mv())
@ens[A04,A02] r is Ok ==> exists|n: u64| #[trigger] names(old(deps.storage)@, id, n) && claim_keeps(old(deps.storage)@, final(deps.storage)@, n, claim_hash@)
@start let ghost s0 = deps.storage@; let ghost mp = merkle_proof@; let ghost cl = claimer@; let ghost sg = claim_sign@;
@after digest_str assert(digest_str@ =~= claim_hash@ + "/"@ + claimer@ + "/"@ + int_str(amount.v as int));
@tail if $r is Ok { let rm = $r->Ok_0.mv(); assert(rm.len() == 1); assert(rm[0]->Send_amount =~= seq![CoinV { denom: air(s0, airdrop_id).denom, amount: amount.v as int }]); assert(rm =~= seq![send(cl, air(s0, airdrop_id).denom, amount.v as int)]); assert(bearer_id(s0, deps.storage@, id, airdrop_id, amount.v as int, cl, claim_hash@, sg, mp, $r->Ok_0.mv())); }
@@ file execute/register.rs
@@ fn register(deps, env, info, payload)
@props A05
@ens[A05] r is Ok ==> reg_post(old(deps.storage)@, final(deps.storage)@, env, info, payload, r->Ok_0.mv())
@@ fn register_open(deps, env, info, merkle_root, denom, label)
@props A05 A04
@ens[A05,A04] r is Ok ==> reg_common(old(deps.storage)@, final(deps.storage)@, env, info, air(final(deps.storage)@, latest(old(deps.storage)@)), merkle_root@, denom@, label, r->Ok_0.mv())
@ens[A05] r is Ok ==> !air(final(deps.storage)@, latest(old(deps.storage)@)).bearer
@closure map.0 |x: String| -> (q: String) ensures q@ == info.sender@ + "/"@ + x@
@start let ghost l0 = label;
@tail if $r is Ok { assert($r->Ok_0.mv() =~= Seq::<MsgV>::empty()); }
@@ fn register_bearer(deps, env, info, merkle_root, denom, label, signer_pub, signer_sig)
@props A05 A04
@ens[A05,A04] r is Ok ==> reg_common(old(deps.storage)@, final(deps.storage)@, env, info, air(final(deps.storage)@, latest(old(deps.storage)@)), merkle_root@, denom@, label, r->Ok_0.mv())
@ens[A05] r is Ok ==> bearer_reg(air(final(deps.storage)@, latest(old(deps.storage)@)), signer_pub@, signer_sig@)
@closure map.0 |x: String| -> (q: String) ensures q@ == info.sender@ + "/"@ + x@
@start let ghost l0 = label;
@tail if $r is Ok { assert($r->Ok_0.mv() =~= Seq::<MsgV>::empty()); }
@@ file contract.rs
@@ fn instantiate(deps, _env, _info, _msg)
@props A05
@ens[A05] r is Ok ==> inst_post(old(deps.storage)@, final(deps.storage)@)
@@ fn execute(deps, env, info, msg)
@props A01 A02 A03 A04 A05
@ens[A01,A02,A03,A04,A05] r is Ok ==> exec_post(old(deps.storage)@, final(deps.storage)@, env, info, msg, r->Ok_0.mv())
@@ fn migrate(deps, _env, msg)
@props U01
@ens[U01] r is Ok ==> migrate_post(old(deps.storage)@, final(deps.storage)@, msg.force, CONTRACT_NAME@, CONTRACT_VERSION@) && r->Ok_0.mv() == Seq::<MsgV>::empty()
@@ fn to_binary(res)
@props A06
@ens[A06,L01] r is Ok ==> res is Ok && r->Ok_0@ == json::<T>(res->Ok_0)
@@ fn query(deps, _env, msg)
@props A06 L01
@ens[A06,L01] r is Ok ==> query_post(deps.storage@, msg, r->Ok_0@)
@@ file query/airdrop.rs
@@ fn get_airdrop(deps, id)
@props A06
@ens[A06] r is Ok ==> exists|n: u64| #![trigger air_q(deps.storage@, id, n, r->Ok_0)] #![trigger names(deps.storage@, id, n)] air_q(deps.storage@, id, n, r->Ok_0)
@@ fn latest_airdrop_id(deps)
@props A06
@ens[A06] r is Ok ==> deps.storage@.dom().contains(k_latest()) && r->Ok_0.0 == latest(deps.storage@)
@@ fn list_airdrops(deps, option)
@props L01 A06
@ens[L01,A06] r is Ok ==> list_post(deps.storage@, option, r->Ok_0.0@)
@closure let:airdrop_map_conv |res: crate::cosmwasm_std::StdResult<(u64, Airdrop)>| -> (q: crate::cosmwasm_std::StdResult<GetAirdropResponse>) ensures q is Ok ==> res is Ok && resp_is(q->Ok_0, (res->Ok_0).0, av((res->Ok_0).1))
@closure let:label_map_conv |res: crate::cosmwasm_std::StdResult<(String, u64)>| -> (q: crate::cosmwasm_std::StdResult<GetAirdropResponse>) ensures q is Ok ==> res is Ok && shown(deps.storage@, (res->Ok_0).1, q->Ok_0)
@lettype query_res Vec<GetAirdropResponse>
@lettype query_res#1 Vec<GetAirdropResponse>
@lettype query_res#2 Vec<GetAirdropResponse>
@lettype query_res#3 Vec<GetAirdropResponse>
@start let ghost o0 = option; let ghost st = deps.storage@;
@after query_res
assert(list_post(st, o0, query_res@)) by {
    let s = o0->ByID_start_after; let li = o0->ByID_limit; let asc = asc_of(o0->ByID_order);
    assert(obu(min) == ulo(s, asc)); assert(obu(max) == uhi(s, asc)); assert(order == ord_of(asc)); assert(limit as int == lim_of(li));
    assert(exists|ks: Seq<u64>| #[trigger] listed_u(st, mu_key(n_air()), ulo(s, asc), uhi(s, asc), ord_of(asc), ks) && page_u(st, ks, li, query_res@));
}
@after query_res#1
assert(list_post(st, o0, query_res@)) by {
    let s = o0->ByType_start_after; let li = o0->ByType_limit; let asc = asc_of(o0->ByType_order); let t = o0->ByType_typ;
    assert(obu(min) == ulo(s, asc)); assert(obu(max) == uhi(s, asc)); assert(order == ord_of(asc)); assert(limit as int == lim_of(li));
    lemma_listed_f(st, tstr(t), ulo(s, asc), uhi(s, asc), ord_of(asc));
    assert(exists|ks: Seq<u64>| #[trigger] listed_f(st, n_air(), f_type(tstr(t)), ulo(s, asc), uhi(s, asc), ord_of(asc), ks) && page_u(st, ks, li, query_res@));
}
@after query_res#2
assert(list_post(st, o0, query_res@)) by {
    let s = o0->ByLabel_start_after; let li = o0->ByLabel_limit; let asc = asc_of(o0->ByLabel_order);
    assert(obs(min) == slo(s, asc)); assert(obs(max) == shi(s, asc)); assert(order == ord_of(asc)); assert(limit as int == lim_of(li));
    assert forall|k: Seq<char>| #[trigger] (m1_key(n_lab()))(k) == k_lab(k) by {}
    assert(exists|ks: Seq<Seq<char>>| #[trigger] listed_s(st, m1_key(n_lab()), slo(s, asc), shi(s, asc), ord_of(asc), ks)
        && lim_of(li) <= 30 && query_res@.len() == page_len(lim_of(li), ks.len() as int) && forall|i: int| 0 <= i < query_res@.len() ==> shown(st, lab(st, ks[i]), #[trigger] query_res@[i]));
}
@after query_res#3
assert(list_post(st, o0, query_res@)) by {
    let s = o0->ByCreator_start_after; let li = o0->ByCreator_limit; let asc = asc_of(o0->ByCreator_order); let c = o0->ByCreator_creator@;
    assert(obu(min) == ulo(s, asc)); assert(obu(max) == uhi(s, asc)); assert(order == ord_of(asc)); assert(limit as int == lim_of(li));
    lemma_listed_c(st, c, ulo(s, asc), uhi(s, asc), ord_of(asc));
    assert(exists|ks: Seq<u64>| #[trigger] listed_f(st, n_air(), f_creator(c), ulo(s, asc), uhi(s, asc), ord_of(asc), ks) && page_u(st, ks, li, query_res@));
}
@@ file query/claim.rs
@@ fn get_claim(deps, id, claim_key)
@props A06
@ens[A06] r is Ok ==> exists|n: u64| #![trigger claim_q(deps.storage@, id, n, claim_key@, r->Ok_0)] #![trigger names(deps.storage@, id, n)] claim_q(deps.storage@, id, n, claim_key@, r->Ok_0)
@@ fn list_claims(deps, id, start_after, limit, order)
@props L01 A06
@ens[L01,A06] r is Ok ==> exists|n: u64| #![trigger claims_of(deps.storage@, id, n, start_after, limit, order, r->Ok_0.0@)] #![trigger names(deps.storage@, id, n)] claims_of(deps.storage@, id, n, start_after, limit, order, r->Ok_0.0@)
@closure map.0 |item: crate::cosmwasm_std::StdResult<(String, crate::cosmwasm_std::Uint128)>| -> (q: crate::cosmwasm_std::StdResult<GetClaimResponse>) ensures q is Ok ==> item is Ok && q->Ok_0.id == airdrop_id && q->Ok_0.claim_key@ == (item->Ok_0).0@ && q->Ok_0.amount.v == (item->Ok_0).1.v
@start let ghost i0 = id; let ghost sa0 = start_after; let ghost li0 = limit; let ghost or0 = order; let ghost st = deps.storage@;
@tail
if $r is Ok {
    let asc = asc_of(or0); let rr = $r->Ok_0.0@;
    assert(obs(min) == slo(sa0, asc)); assert(obs(max) == shi(sa0, asc)); assert(order == ord_of(asc)); assert(limit as int == lim_of(li0));
    assert forall|k: Seq<char>| #[trigger] (log_key(airdrop_id))(k) == k_log(airdrop_id, k) by {}
    assert(exists|ks: Seq<Seq<char>>| #[trigger] listed_s(st, log_key(airdrop_id), slo(sa0, asc), shi(sa0, asc), ord_of(asc), ks)
        && lim_of(li0) <= 30 && rr.len() == page_len(lim_of(li0), ks.len() as int) && forall|i: int| 0 <= i < rr.len() ==> (#[trigger] rr[i]).id == airdrop_id && rr[i].claim_key@ == ks[i] && rr[i].amount.v == logged(st, airdrop_id, ks[i]));
    assert(claims_of(st, i0, airdrop_id, sa0, li0, or0, rr));
}
@@ fn verify_claim(deps, payload)
@props A06
@ens[A06] r is Ok ==> verify_post(deps.storage@, payload, r->Ok_0)
@@ file query/label.rs
@@ fn get_label(deps, label)
@props A06
@ens[A06] r is Ok ==> lab_is(deps.storage@, label@, r->Ok_0)
@start let ghost l0 = label@;
@after splitted
lemma_split(l0, '/');
assert(splitted@.map_values(|x: &str| x@)[0] == splitted@[0]@);
assert(splitted@.map_values(|x: &str| x@).skip(1) =~= disps(splitted@.subrange(1, splitted@.len() as int)));
reveal_with_fuel(joinc, 2);
lemma_slash();
@@ fn list_labels(deps, start_after, limit, order)
@props L01 A06
@ens[L01,A06] r is Ok ==> labels_post(deps.storage@, start_after, limit, order, r->Ok_0.0@)
@closure let:label_map_conv |item: crate::cosmwasm_std::StdResult<(String, u64)>| -> (q: crate::cosmwasm_std::StdResult<GetLabelResponse>) ensures q is Ok ==> item is Ok && q->Ok_0.airdrop_id == (item->Ok_0).1 && lab_parts((item->Ok_0).0@, q->Ok_0.creator@, q->Ok_0.label@)
@start let ghost sa0 = start_after; let ghost li0 = limit; let ghost or0 = order; let ghost st = deps.storage@;
@after splitted
lemma_split(item->Ok_0.0@, '/');
assert(splitted@.map_values(|x: &str| x@)[0] == splitted@[0]@);
assert(splitted@.map_values(|x: &str| x@).skip(1) =~= disps(splitted@.subrange(1, splitted@.len() as int)));
reveal_with_fuel(joinc, 2);
lemma_slash();
@tail
if $r is Ok {
    let asc = asc_of(or0); let rr = $r->Ok_0.0@;
    assert(obs(min) == slo(sa0, asc)); assert(obs(max) == shi(sa0, asc)); assert(order == ord_of(asc)); assert(limit as int == lim_of(li0));
    assert forall|k: Seq<char>| #[trigger] (m1_key(n_lab()))(k) == k_lab(k) by {}
    assert(exists|ks: Seq<Seq<char>>| #[trigger] listed_s(st, m1_key(n_lab()), slo(sa0, asc), shi(sa0, asc), ord_of(asc), ks)
        && lim_of(li0) <= 30 && rr.len() == page_len(lim_of(li0), ks.len() as int) && forall|i: int| 0 <= i < rr.len() ==> lab_is(st, ks[i], #[trigger] rr[i]));
}

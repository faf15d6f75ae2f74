From 1c49fe84434a7826e6cd1007f83767af35102c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 01/10] fix: pow with an integer part of one no longer drops
 the base factor

---
 packages/math/src/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/math/src/pow.rs b/packages/math/src/pow.rs
index 257a32e..7f9a890 100644
--- a/packages/math/src/pow.rs
+++ b/packages/math/src/pow.rs
@@ -43,7 +43,7 @@ pub fn pow(base: Decimal256, exp: Decimal256) -> Result<Decimal256, MathError> {
 }
 
 fn pow_int(mut base: Decimal256, power: Uint256) -> Decimal256 {
-    if power <= Uint256::one() {
+    if power.is_zero() {
         return Decimal256::one();
     }
 
-- 
2.43.0


From 59b02d0e4fd7f74e10e574ad33c7bb50bc729028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 02/10] fix: round the funds required to mint up so that the
 index stays fully collateralized

---
 contracts/core/src/query.rs        |  2 +-
 contracts/core/src/state/units.rs  | 19 ++++++++++++++-----
 contracts/periphery/src/execute.rs |  6 +++---
 contracts/periphery/src/lib.rs     |  5 +++++
 contracts/periphery/src/query.rs   |  8 +++++---
 packages/pool/src/sim/index_out.rs |  2 +-
 6 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/contracts/core/src/query.rs b/contracts/core/src/query.rs
index 3cb78d7..3e65b7b 100644
--- a/contracts/core/src/query.rs
+++ b/contracts/core/src/query.rs
@@ -186,7 +186,7 @@ pub fn simulate_mint(
         .transpose()?
         .unwrap_or(index_units);
 
-    let spent = index_units.calc_require_amount(amount);
+    let spent = index_units.calc_mint_amount(amount);
     let refund = index_units.calc_refund_amount(funds.unwrap_or_else(|| spent.clone()), amount)?;
     let mint_fee = fee.mint_fee.map(|v| v * amount);
     let mint_send = amount.checked_sub(mint_fee.unwrap_or_default())?;
diff --git a/contracts/core/src/state/units.rs b/contracts/core/src/state/units.rs
index ee7ad7f..bca7b60 100644
--- a/contracts/core/src/state/units.rs
+++ b/contracts/core/src/state/units.rs
@@ -131,16 +131,25 @@ impl Units {
             .collect::<Vec<_>>()
     }
 
+    // amount to be paid in order to mint `index_amount` of index tokens
+    // rounded up to keep the index fully collateralized
+    pub fn calc_mint_amount(&self, index_amount: Uint128) -> Vec<Coin> {
+        self.0
+            .iter()
+            .map(|(denom, unit)| {
+                let amount = index_amount.mul_ceil(*unit).max(Uint128::one());
+
+                coin(amount.u128(), denom)
+            })
+            .collect::<Vec<_>>()
+    }
+
     pub fn calc_refund_amount(
         &self,
         mut funds: Vec<Coin>,
         index_amount: Uint128,
     ) -> Result<Vec<Coin>, ContractError> {
-        let required = self
-            .calc_require_amount(index_amount)
-            .into_iter()
-            .map(|v| coin(v.amount.max(Uint128::one()).u128(), v.denom))
-            .collect::<Vec<_>>();
+        let required = self.calc_mint_amount(index_amount);
         let mut denoms: Vec<_> = funds.clone().into_iter().map(|v| Some(v.denom)).collect();
 
         for Coin { denom, amount } in required {
diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index bb3cd3b..bfab53a 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -7,7 +7,7 @@ use ibcx_interface::{core, helpers::IbcCore};
 use ibcx_pool::{query_pools, Simulator};
 
 use crate::error::ContractError;
-use crate::{coin_sorter, deduct_fee, expand_fee, make_unit_converter};
+use crate::{coin_sorter, deduct_fee, expand_fee, make_mint_unit_converter};
 
 pub fn mint_exact_amount_in(
     deps: DepsMut,
@@ -59,7 +59,7 @@ pub fn mint_exact_amount_in(
     let mut mint_msg_funds = core_portfolio
         .units
         .into_iter()
-        .map(|(denom, unit)| coin((sim_res.est_min_token_out * unit).u128(), denom))
+        .map(make_mint_unit_converter(sim_res.est_min_token_out))
         .collect::<Vec<_>>();
     mint_msg_funds.sort_by(coin_sorter);
 
@@ -121,7 +121,7 @@ pub fn mint_exact_amount_out(
         .sim_routes
         .to_msgs(&env.contract.address, input_asset.amount)?;
 
-    let conv = make_unit_converter(sim_res.index_out);
+    let conv = make_mint_unit_converter(sim_res.index_out);
     let mut mint_msg_funds: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     mint_msg_funds.sort_by(coin_sorter);
 
diff --git a/contracts/periphery/src/lib.rs b/contracts/periphery/src/lib.rs
index 26063a1..0a3f982 100644
--- a/contracts/periphery/src/lib.rs
+++ b/contracts/periphery/src/lib.rs
@@ -34,6 +34,11 @@ pub fn make_unit_converter(v: Uint128) -> Box<dyn Fn((String, Decimal)) -> Coin>
     Box::new(move |(denom, unit)| coin((v * unit).u128(), denom))
 }
 
+// the amount of funds required to mint, which is rounded up in the core contract
+pub fn make_mint_unit_converter(v: Uint128) -> Box<dyn Fn((String, Decimal)) -> Coin> {
+    Box::new(move |(denom, unit)| coin(v.mul_ceil(unit).u128(), denom))
+}
+
 pub fn coin_sorter(a: &Coin, b: &Coin) -> Ordering {
     a.denom.cmp(&b.denom)
 }
diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index fe90d57..f32e9c1 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -8,7 +8,9 @@ use ibcx_interface::{
 };
 use ibcx_pool::{query_pools, Simulator};
 
-use crate::{deduct_fee, error::ContractError, expand_fee, make_unit_converter};
+use crate::{
+    deduct_fee, error::ContractError, expand_fee, make_mint_unit_converter, make_unit_converter,
+};
 
 pub fn simulate_mint_exact_amount_in(
     deps: Deps,
@@ -33,7 +35,7 @@ pub fn simulate_mint_exact_amount_in(
     let mint_amount =
         (sim_res.est_min_token_out * expand_fee(core_fee.mint_fee)?) - Uint128::new(100); // FIXME: hacky calibration
 
-    let conv = make_unit_converter(mint_amount);
+    let conv = make_mint_unit_converter(mint_amount);
     let mut mint_spend_amount: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
@@ -63,7 +65,7 @@ pub fn simulate_mint_exact_amount_out(
     // apply mint fee
     let mint_amount = index_amount * deduct_fee(core_fee.mint_fee)?;
 
-    let conv = make_unit_converter(mint_amount);
+    let conv = make_mint_unit_converter(mint_amount);
     let mut mint_spend_amount: Vec<_> =
         core_portfolio.units.clone().into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
diff --git a/packages/pool/src/sim/index_out.rs b/packages/pool/src/sim/index_out.rs
index 91e6bc3..0c362d5 100644
--- a/packages/pool/src/sim/index_out.rs
+++ b/packages/pool/src/sim/index_out.rs
@@ -84,7 +84,7 @@ impl<'a> Simulator<'a> {
         let routes_with_amount = self
             .index_units
             .iter()
-            .map(|(denom, unit)| coin((token_out * *unit).u128(), denom))
+            .map(|(denom, unit)| coin(token_out.mul_ceil(*unit).u128(), denom))
             .map(|token_out| {
                 // if this unit does not have to do swap
                 if token_out.denom == input_asset {
-- 
2.43.0


From 0c7c38702029d54701cca4c53cc9b9bafd2233f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 03/10] fix: round the unit deducted by a rebalance trade up so
 that traded tokens are never left unaccounted

---
 .../core/src/execute/rebalance/trade/deflate.rs    |  4 ++--
 .../core/src/execute/rebalance/trade/inflate.rs    |  4 ++--
 contracts/core/src/execute/rebalance/trade/mod.rs  | 14 +++++++++++++-
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/contracts/core/src/execute/rebalance/trade/deflate.rs b/contracts/core/src/execute/rebalance/trade/deflate.rs
index e4bdb22..c834625 100644
--- a/contracts/core/src/execute/rebalance/trade/deflate.rs
+++ b/contracts/core/src/execute/rebalance/trade/deflate.rs
@@ -6,7 +6,7 @@ use crate::{
     StdResult,
 };
 
-use super::load_units;
+use super::{calc_deduct_unit, load_units};
 
 fn deflate_index_unit(
     index_units: &mut Units,
@@ -121,7 +121,7 @@ pub fn deflate(
     }
 
     // deduct & expand stored units
-    let index_deduct_unit = Decimal::checked_from_ratio(sim_amount_in, total_supply)?;
+    let index_deduct_unit = calc_deduct_unit(sim_amount_in, total_supply)?;
     let reserve_expand_unit = Decimal::checked_from_ratio(amount_out, total_supply)?;
 
     // deduct index unit
diff --git a/contracts/core/src/execute/rebalance/trade/inflate.rs b/contracts/core/src/execute/rebalance/trade/inflate.rs
index 1320e8e..15621b8 100644
--- a/contracts/core/src/execute/rebalance/trade/inflate.rs
+++ b/contracts/core/src/execute/rebalance/trade/inflate.rs
@@ -6,7 +6,7 @@ use crate::{
     StdResult,
 };
 
-use super::load_units;
+use super::{calc_deduct_unit, load_units};
 
 // in the case of reserve denom, we can directly inflate the unit
 pub fn inflate_reserve(
@@ -80,7 +80,7 @@ pub fn inflate(
     }
 
     // deduct & expand stored units
-    let reserve_deduct_unit = Decimal::checked_from_ratio(amount_in, total_supply)?;
+    let reserve_deduct_unit = calc_deduct_unit(amount_in, total_supply)?;
     let index_expand_unit = Decimal::checked_from_ratio(sim_amount_out, total_supply)?;
 
     // expand index unit
diff --git a/contracts/core/src/execute/rebalance/trade/mod.rs b/contracts/core/src/execute/rebalance/trade/mod.rs
index d53d73f..eeb443c 100644
--- a/contracts/core/src/execute/rebalance/trade/mod.rs
+++ b/contracts/core/src/execute/rebalance/trade/mod.rs
@@ -1,7 +1,7 @@
 mod deflate;
 mod inflate;
 
-use cosmwasm_std::{DepsMut, Env, MessageInfo, Response, Storage, Uint128};
+use cosmwasm_std::{Decimal, DepsMut, Env, MessageInfo, Response, Storage, Uint128};
 use ibcx_interface::core::RebalanceTradeMsg;
 
 use deflate::{deflate, deflate_reserve};
@@ -22,6 +22,18 @@ pub fn load_units(storage: &dyn Storage) -> StdResult<(Units, Units, Uint128)> {
     Ok((index_units, reserve_units, total_supply))
 }
 
+// unit to deduct for `amount` of tokens leaving the contract
+// rounded up to keep the index fully collateralized
+pub fn calc_deduct_unit(amount: Uint128, total_supply: Uint128) -> StdResult<Decimal> {
+    let unit = Decimal::checked_from_ratio(amount, total_supply)?;
+
+    if unit * total_supply < amount {
+        return Ok(unit.checked_add(Decimal::raw(1))?);
+    }
+
+    Ok(unit)
+}
+
 // deflate / inflate the target denom
 pub fn trade(
     deps: DepsMut,
-- 
2.43.0


From 56452978b4a7b5473a7d4ab64c9109d76040a17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:55 +0000
Subject: [PATCH 04/10] fix: pay accrued streaming fees to the collector
 instead of discarding them on a fee update

---
 contracts/core/src/execute/gov/update.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/contracts/core/src/execute/gov/update.rs b/contracts/core/src/execute/gov/update.rs
index 82a4683..154796b 100644
--- a/contracts/core/src/execute/gov/update.rs
+++ b/contracts/core/src/execute/gov/update.rs
@@ -1,4 +1,6 @@
-use cosmwasm_std::{attr, DepsMut, Env, MessageInfo, Response, StdError, Uint128};
+use cosmwasm_std::{
+    attr, BankMsg, CosmosMsg, DepsMut, Env, MessageInfo, Response, StdError, Uint128,
+};
 use ibcx_interface::{core::FeePayload, types::SwapRoutes};
 
 use crate::{
@@ -84,6 +86,20 @@ pub fn update_fee(
     // update
     let mut fee = FEE.load(deps.storage)?;
 
+    // pay the streaming fee accrued so far to the current collector before it gets replaced
+    let mut msgs: Vec<CosmosMsg> = vec![];
+    if let Some(streaming_fee) = &fee.streaming_fee {
+        if !streaming_fee.collected.is_empty() {
+            msgs.push(
+                BankMsg::Send {
+                    to_address: fee.collector.to_string(),
+                    amount: streaming_fee.collected.clone(),
+                }
+                .into(),
+            );
+        }
+    }
+
     fee.collector = deps.api.addr_validate(&new_fee.collector)?;
     fee.mint_fee = new_fee.mint_fee;
     fee.burn_fee = new_fee.burn_fee;
@@ -103,7 +119,7 @@ pub fn update_fee(
         attr("executor", info.sender),
     ];
 
-    let resp = Response::new().add_attributes(attrs);
+    let resp = Response::new().add_messages(msgs).add_attributes(attrs);
 
     Ok(resp)
 }
-- 
2.43.0


From 096e60d812ba5d5ea30b7e10903f4e96e46608a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:02 +0000
Subject: [PATCH 05/10] fix: verify the merkle proof of a bearer claim with its
 claim hash in the query as in the execution

---
 contracts/airdrop/src/query/claim.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/airdrop/src/query/claim.rs b/contracts/airdrop/src/query/claim.rs
index b8b2841..26b4c53 100644
--- a/contracts/airdrop/src/query/claim.rs
+++ b/contracts/airdrop/src/query/claim.rs
@@ -108,7 +108,8 @@ pub fn verify_claim(
             }
 
             // validate claim hash
-            let verify_result = verify_merkle_proof(&airdrop.merkle_root, proof, &account, amount);
+            let verify_result =
+                verify_merkle_proof(&airdrop.merkle_root, proof, &claim_hash, amount);
             if let Err(e) = verify_result {
                 return Ok(resp.fail(e));
             }
-- 
2.43.0


From b4cc73fe1aac9d496987d67dada286f94148d768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:08 +0000
Subject: [PATCH 06/10] fix: simulate the minimum mint fee the same way a mint
 charges it

---
 contracts/core/src/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/core/src/query.rs b/contracts/core/src/query.rs
index 3e65b7b..2af6613 100644
--- a/contracts/core/src/query.rs
+++ b/contracts/core/src/query.rs
@@ -188,7 +188,7 @@ pub fn simulate_mint(
 
     let spent = index_units.calc_mint_amount(amount);
     let refund = index_units.calc_refund_amount(funds.unwrap_or_else(|| spent.clone()), amount)?;
-    let mint_fee = fee.mint_fee.map(|v| v * amount);
+    let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()));
     let mint_send = amount.checked_sub(mint_fee.unwrap_or_default())?;
 
     Ok(SimulateMintResponse {
-- 
2.43.0


From 93cd9b2e61bf8dabd77ab3139589012341a7e440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 07/10] fix: enforce the minimum mint output on the amount
 received after the mint fee

---
 contracts/periphery/src/execute.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index bfab53a..c37d798 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -73,6 +73,9 @@ pub fn mint_exact_amount_in(
     )?;
 
     let act_mint_amount = sim_res.est_min_token_out * deduct_fee(core_fee.mint_fee)?;
+    if act_mint_amount < min_index_amount {
+        return Err(ContractError::TradeAmountExceeded {});
+    }
     let act_mint_asset = coin(act_mint_amount.u128(), core_config.index_denom);
 
     let resp = Response::new()
-- 
2.43.0


From de02a017cd253d583e4993e4d33559548551afe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 08/10] fix: make the per-swap minimum outputs add up to the
 requested minimum output

---
 packages/pool/src/sim/route.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/pool/src/sim/route.rs b/packages/pool/src/sim/route.rs
index 693f406..7c63368 100644
--- a/packages/pool/src/sim/route.rs
+++ b/packages/pool/src/sim/route.rs
@@ -42,14 +42,15 @@ impl SimAmountOutRoutes {
             return Err(PoolError::TradeAmountExceeded);
         }
 
-        let amplifier = Decimal::checked_from_ratio(min_output, total_receive_amount)?;
+        // each minimum is rounded up so that they always add up to the `min_output`
+        let amplifier = (min_output, total_receive_amount);
 
         let swap_msgs = self
             .0
             .iter()
             .filter_map(|r| {
                 r.routes.as_ref().map(|routes| {
-                    let min_amount_out = r.sim_amount_out * amplifier;
+                    let min_amount_out = r.sim_amount_out.mul_ceil(amplifier);
                     routes.msg_swap_exact_in(
                         contract,
                         &r.amount_in.denom,
-- 
2.43.0


From baece699c12b9c454964ee2157e00db89e1a96f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 09/10] fix: cap the input of the mint swaps at the amount the
 user has paid

---
 contracts/periphery/src/execute.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index c37d798..f24dcc9 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -42,10 +42,11 @@ pub fn mint_exact_amount_in(
         .est
         .unwrap();
 
-    let swap_msgs = sim_res.sim_routes.to_msgs(
-        &env.contract.address,
-        sim_res.max_token_in + Uint128::new(10000),
-    )?;
+    // never allow the swaps to spend more than the user has paid
+    let max_swap_input = (sim_res.max_token_in + Uint128::new(10000)).min(desired_asset.amount);
+    let swap_msgs = sim_res
+        .sim_routes
+        .to_msgs(&env.contract.address, max_swap_input)?;
 
     let finish_msg = WasmMsg::Execute {
         contract_addr: env.contract.address.to_string(),
-- 
2.43.0


From a0a5882b0d0bd306ce0eaf2e9b8025b8731367c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:40 +0000
Subject: [PATCH 10/10] fix: apply the mint and burn fees in the periphery's
 simulations the way the operations do

---
 contracts/periphery/src/query.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index f32e9c1..d57e6ff 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -31,11 +31,11 @@ pub fn simulate_mint_exact_amount_in(
         .estimate_index_for_input(input_asset.clone(), None, None, None)?
         .max;
 
-    // apply mint fee
+    // the amount received after the mint fee
     let mint_amount =
-        (sim_res.est_min_token_out * expand_fee(core_fee.mint_fee)?) - Uint128::new(100); // FIXME: hacky calibration
+        (sim_res.est_min_token_out * deduct_fee(core_fee.mint_fee)?) - Uint128::new(100); // FIXME: hacky calibration
 
-    let conv = make_mint_unit_converter(mint_amount);
+    let conv = make_mint_unit_converter(sim_res.est_min_token_out);
     let mut mint_spend_amount: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
@@ -62,16 +62,16 @@ pub fn simulate_mint_exact_amount_out(
     let pool_ids = extract_pool_ids(swap_info.clone());
     let pools = query_pools(&deps, pool_ids)?;
 
-    // apply mint fee
+    // the amount received after the mint fee
     let mint_amount = index_amount * deduct_fee(core_fee.mint_fee)?;
 
-    let conv = make_mint_unit_converter(mint_amount);
+    let conv = make_mint_unit_converter(index_amount);
     let mut mint_spend_amount: Vec<_> =
         core_portfolio.units.clone().into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
     let sim = Simulator::new(&deps, &pools, &swap_info, &core_portfolio.units);
-    let sim_res = sim.estimate_input_for_index(&input_asset, mint_amount)?;
+    let sim_res = sim.estimate_input_for_index(&input_asset, index_amount)?;
 
     Ok(SimulateMintExactAmountOutResponse {
         mint_amount,
@@ -137,7 +137,7 @@ pub fn simulate_burn_exact_amount_out(
     // apply burn fee after simulation
     let burn_amount = sim_res.est_min_token_in * expand_fee(core_fee.burn_fee)?;
 
-    let conv = make_unit_converter(burn_amount);
+    let conv = make_unit_converter(sim_res.est_min_token_in);
     let mut burn_redeem_amount: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     burn_redeem_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
-- 
2.43.0


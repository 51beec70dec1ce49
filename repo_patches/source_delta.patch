From 3ff33ccbe0addbcae0274b5dfb6db7f1d2dba377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:22 +0000
Subject: [PATCH 01/12] fix: simulate_mint reports the minimum fee and minimum
 funds a mint really takes

---
 contracts/core/src/query.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/contracts/core/src/query.rs b/contracts/core/src/query.rs
index 3cb78d7..3af9c17 100644
--- a/contracts/core/src/query.rs
+++ b/contracts/core/src/query.rs
@@ -1,4 +1,4 @@
-use cosmwasm_std::{Coin, Deps, Env, Timestamp, Uint128};
+use cosmwasm_std::{coin, Coin, Deps, Env, Timestamp, Uint128};
 use ibcx_interface::{
     core::{
         GetConfigResponse, GetFeeResponse, GetPortfolioResponse, GetRebalanceResponse,
@@ -186,9 +186,14 @@ pub fn simulate_mint(
         .transpose()?
         .unwrap_or(index_units);
 
-    let spent = index_units.calc_require_amount(amount);
+    // a mint requires at least one base unit of every asset, and charges at least one as the fee
+    let spent = index_units
+        .calc_require_amount(amount)
+        .into_iter()
+        .map(|v| coin(v.amount.max(Uint128::one()).u128(), v.denom))
+        .collect::<Vec<_>>();
     let refund = index_units.calc_refund_amount(funds.unwrap_or_else(|| spent.clone()), amount)?;
-    let mint_fee = fee.mint_fee.map(|v| v * amount);
+    let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()));
     let mint_send = amount.checked_sub(mint_fee.unwrap_or_default())?;
 
     Ok(SimulateMintResponse {
-- 
2.43.0


From a9e93a06e29b7d21c299518ea3d8ce9d4a4d6671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 02/12] fix: pay collected streaming fees to their collector
 when the fee strategy is replaced

---
 contracts/core/src/execute/gov/update.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/contracts/core/src/execute/gov/update.rs b/contracts/core/src/execute/gov/update.rs
index 82a4683..27b6162 100644
--- a/contracts/core/src/execute/gov/update.rs
+++ b/contracts/core/src/execute/gov/update.rs
@@ -1,4 +1,4 @@
-use cosmwasm_std::{attr, DepsMut, Env, MessageInfo, Response, StdError, Uint128};
+use cosmwasm_std::{attr, BankMsg, DepsMut, Env, MessageInfo, Response, StdError, Uint128};
 use ibcx_interface::{core::FeePayload, types::SwapRoutes};
 
 use crate::{
@@ -84,6 +84,19 @@ pub fn update_fee(
     // update
     let mut fee = FEE.load(deps.storage)?;
 
+    // pay out what has been collected so far before it gets replaced
+    let collected = fee
+        .streaming_fee
+        .map(|v| v.collected)
+        .unwrap_or_default()
+        .into_iter()
+        .filter(|v| !v.amount.is_zero())
+        .collect::<Vec<_>>();
+    let msgs = (!collected.is_empty()).then(|| BankMsg::Send {
+        to_address: fee.collector.to_string(),
+        amount: collected,
+    });
+
     fee.collector = deps.api.addr_validate(&new_fee.collector)?;
     fee.mint_fee = new_fee.mint_fee;
     fee.burn_fee = new_fee.burn_fee;
@@ -103,7 +116,7 @@ pub fn update_fee(
         attr("executor", info.sender),
     ];
 
-    let resp = Response::new().add_attributes(attrs);
+    let resp = Response::new().add_messages(msgs).add_attributes(attrs);
 
     Ok(resp)
 }
-- 
2.43.0


From 0bad84fcd92e77c168f8a40f50b47ea3d03e7214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 03/12] fix: refuse rebalance inflation weights that make every
 sale fail

---
 contracts/core/src/state/rebalance.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/contracts/core/src/state/rebalance.rs b/contracts/core/src/state/rebalance.rs
index b8a9df3..1787fda 100644
--- a/contracts/core/src/state/rebalance.rs
+++ b/contracts/core/src/state/rebalance.rs
@@ -1,5 +1,5 @@
 use cosmwasm_schema::cw_serde;
-use cosmwasm_std::{Addr, Uint128};
+use cosmwasm_std::{Addr, Decimal, Uint128};
 use ibcx_interface::types::SwapRoutes;
 
 use crate::{
@@ -35,6 +35,21 @@ impl Rebalance {
             return Err(ValidationError::invalid_rebalance("inflation", "duplicate denom").into());
         }
 
+        // check inflation weights
+        self.inflation
+            .iter()
+            .try_fold(Decimal::zero(), |total, (denom, weight)| {
+                if weight.is_zero() {
+                    return Err(ValidationError::invalid_rebalance(
+                        "inflation",
+                        format!("zero weight: {denom}"),
+                    )
+                    .into());
+                }
+
+                Ok::<_, ContractError>(total.checked_add(*weight)?)
+            })?;
+
         // check index_units <-> deflation
         {
             let mut base_units = index_units;
-- 
2.43.0


From 87cb178c1fd995d762eced7b2bcab28c06e61023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:05 +0000
Subject: [PATCH 04/12] fix: split sale proceeds by weight without losing or
 overflowing them

---
 contracts/core/src/execute/rebalance/trade/deflate.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/contracts/core/src/execute/rebalance/trade/deflate.rs b/contracts/core/src/execute/rebalance/trade/deflate.rs
index e4bdb22..a796bb4 100644
--- a/contracts/core/src/execute/rebalance/trade/deflate.rs
+++ b/contracts/core/src/execute/rebalance/trade/deflate.rs
@@ -25,7 +25,12 @@ fn inflate_reserve_unit(
     let mut expand_unit = inflate_unit;
     let mut total_weight = inflations.iter().map(|(_, v)| *v).sum::<Decimal>();
     for (denom, weight) in inflations {
-        let sub_unit = expand_unit * weight / total_weight;
+        // in one step, rounding the product first would lose proceeds when weights are small
+        let sub_unit = Decimal::new(
+            expand_unit
+                .atomics()
+                .multiply_ratio(weight.atomics(), total_weight.atomics()),
+        );
         reserve_units.add_key(&denom, sub_unit)?;
 
         expand_unit = expand_unit.checked_sub(sub_unit)?;
-- 
2.43.0


From 4cedb5eab455c9590a994157709fac9f8531c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:28 +0000
Subject: [PATCH 05/12] fix: burn does not try to send a fee of zero coins

---
 contracts/core/src/execute/token.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/core/src/execute/token.rs b/contracts/core/src/execute/token.rs
index 3b54958..ac28ec9 100644
--- a/contracts/core/src/execute/token.rs
+++ b/contracts/core/src/execute/token.rs
@@ -164,8 +164,8 @@ pub fn burn(
         amount: Some(coin(burn_amount.u128(), &config.index_denom).into()),
     };
 
-    // send fee to collector
-    let fee_send_msg = burn_fee.map(|v| BankMsg::Send {
+    // send fee to collector - a fee rounded down to zero cannot be sent
+    let fee_send_msg = burn_fee.filter(|v| !v.is_zero()).map(|v| BankMsg::Send {
         to_address: fee.collector.into_string(),
         amount: coins(v.u128(), &config.index_denom),
     });
-- 
2.43.0


From 91732984aff20851d7d51867739fe0743d973900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:52 +0000
Subject: [PATCH 06/12] fix: verify_claim checks a bearer claim's code against
 the root, like claim does

---
 contracts/airdrop/src/query/claim.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/airdrop/src/query/claim.rs b/contracts/airdrop/src/query/claim.rs
index b8b2841..26b4c53 100644
--- a/contracts/airdrop/src/query/claim.rs
+++ b/contracts/airdrop/src/query/claim.rs
@@ -108,7 +108,8 @@ pub fn verify_claim(
             }
 
             // validate claim hash
-            let verify_result = verify_merkle_proof(&airdrop.merkle_root, proof, &account, amount);
+            let verify_result =
+                verify_merkle_proof(&airdrop.merkle_root, proof, &claim_hash, amount);
             if let Err(e) = verify_result {
                 return Ok(resp.fail(e));
             }
-- 
2.43.0


From 6e928114e35b32aed5e9c4f291ff0a00390ae1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:59 +0000
Subject: [PATCH 07/12] fix: a fully claimed airdrop can be closed

---
 contracts/airdrop/src/execute/close.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/contracts/airdrop/src/execute/close.rs b/contracts/airdrop/src/execute/close.rs
index eb1956c..17c3c37 100644
--- a/contracts/airdrop/src/execute/close.rs
+++ b/contracts/airdrop/src/execute/close.rs
@@ -47,18 +47,18 @@ fn close_open(
 
     airdrop.closed_at = Some(env.block.height);
 
-    // response
-    let send_msg = BankMsg::Send {
+    // response - nothing to send back once everything has been claimed
+    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {
         to_address: airdrop.creator.to_string(),
         amount: coins(redeem_amount.u128(), &airdrop.denom),
-    };
+    });
 
     let attrs = close_event(info.sender, AirdropType::Open, airdrop_id, redeem_amount);
 
     // apply states
     airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
 
-    Ok(Response::new().add_message(send_msg).add_attributes(attrs))
+    Ok(Response::new().add_messages(send_msg).add_attributes(attrs))
 }
 
 fn close_bearer(
@@ -80,18 +80,18 @@ fn close_bearer(
 
     airdrop.closed_at = Some(env.block.height);
 
-    // response
-    let send_msg = BankMsg::Send {
+    // response - nothing to send back once everything has been claimed
+    let send_msg = (!redeem_amount.is_zero()).then(|| BankMsg::Send {
         to_address: airdrop.creator.to_string(),
         amount: coins(redeem_amount.u128(), &airdrop.denom),
-    };
+    });
 
     let attrs = close_event(info.sender, AirdropType::Bearer, airdrop_id, redeem_amount);
 
     // apply states
     airdrops().save(deps.storage, airdrop_id, &airdrop.into())?;
 
-    Ok(Response::new().add_message(send_msg).add_attributes(attrs))
+    Ok(Response::new().add_messages(send_msg).add_attributes(attrs))
 }
 
 #[cfg(test)]
-- 
2.43.0


From be2471651e1470aff66768d117d3152690c961f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:11 +0000
Subject: [PATCH 08/12] fix: integer power one is the base, not one

---
 packages/math/src/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/math/src/pow.rs b/packages/math/src/pow.rs
index 257a32e..7f9a890 100644
--- a/packages/math/src/pow.rs
+++ b/packages/math/src/pow.rs
@@ -43,7 +43,7 @@ pub fn pow(base: Decimal256, exp: Decimal256) -> Result<Decimal256, MathError> {
 }
 
 fn pow_int(mut base: Decimal256, power: Uint256) -> Decimal256 {
-    if power <= Uint256::one() {
+    if power.is_zero() {
         return Decimal256::one();
     }
 
-- 
2.43.0


From c7d48b521425204ef8ebaf012d0bd81d97483f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:07 +0000
Subject: [PATCH 09/12] fix: mint_exact_amount_in applies the stated minimum to
 what the user receives

---
 contracts/periphery/src/execute.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index bb3cd3b..38e33ba 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -30,13 +30,16 @@ pub fn mint_exact_amount_in(
     let pool_ids = extract_pool_ids(swap_info.clone());
     let pools = query_pools(&deps.as_ref(), pool_ids)?;
 
+    // the minimum is what the user has to receive after the mint fee
+    let min_mint_amount = min_index_amount * expand_fee(core_fee.mint_fee)?;
+
     let deps_ref = deps.as_ref();
     let sim = Simulator::new(&deps_ref, &pools, &swap_info, &core_portfolio.units);
     let sim_res = sim
         .estimate_index_for_input(
             desired_asset.clone(),
-            Some(min_index_amount),
-            Some(min_index_amount),
+            Some(min_mint_amount),
+            Some(min_mint_amount),
             None,
         )?
         .est
@@ -73,6 +76,9 @@ pub fn mint_exact_amount_in(
     )?;
 
     let act_mint_amount = sim_res.est_min_token_out * deduct_fee(core_fee.mint_fee)?;
+    if act_mint_amount < min_index_amount {
+        return Err(ContractError::TradeAmountExceeded {});
+    }
     let act_mint_asset = coin(act_mint_amount.u128(), core_config.index_denom);
 
     let resp = Response::new()
-- 
2.43.0


From 77d265752047c898c7aa8d070df87415a99766c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:13 +0000
Subject: [PATCH 10/12] fix: mint simulations of the periphery charge the mint
 fee the way minting does

---
 contracts/periphery/src/query.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index fe90d57..ea569db 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -30,10 +30,10 @@ pub fn simulate_mint_exact_amount_in(
         .max;
 
     // apply mint fee
-    let mint_amount =
-        (sim_res.est_min_token_out * expand_fee(core_fee.mint_fee)?) - Uint128::new(100); // FIXME: hacky calibration
+    let mint_amount = (sim_res.est_min_token_out * deduct_fee(core_fee.mint_fee)?)
+        .saturating_sub(Uint128::new(100)); // FIXME: hacky calibration
 
-    let conv = make_unit_converter(mint_amount);
+    let conv = make_unit_converter(sim_res.est_min_token_out);
     let mut mint_spend_amount: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
@@ -63,13 +63,14 @@ pub fn simulate_mint_exact_amount_out(
     // apply mint fee
     let mint_amount = index_amount * deduct_fee(core_fee.mint_fee)?;
 
-    let conv = make_unit_converter(mint_amount);
+    // the fee is taken from the minted amount, so the whole amount has to be paid for
+    let conv = make_unit_converter(index_amount);
     let mut mint_spend_amount: Vec<_> =
         core_portfolio.units.clone().into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
     let sim = Simulator::new(&deps, &pools, &swap_info, &core_portfolio.units);
-    let sim_res = sim.estimate_input_for_index(&input_asset, mint_amount)?;
+    let sim_res = sim.estimate_input_for_index(&input_asset, index_amount)?;
 
     Ok(SimulateMintExactAmountOutResponse {
         mint_amount,
-- 
2.43.0


From 9ab7a05149b0d0c0e942b7dfbd05ec096ee2fd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:05 +0000
Subject: [PATCH 11/12] fix: finish_operation does not try to send zero coins

---
 contracts/periphery/src/execute.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/contracts/periphery/src/execute.rs b/contracts/periphery/src/execute.rs
index 38e33ba..e3443ed 100644
--- a/contracts/periphery/src/execute.rs
+++ b/contracts/periphery/src/execute.rs
@@ -325,6 +325,12 @@ pub fn finish_operation(
         .querier
         .query_balance(env.contract.address, &refund_asset)?;
 
+    // zero coins cannot be sent
+    let send_msg = (!balance.amount.is_zero()).then(|| BankMsg::Send {
+        to_address: refund_to.clone(),
+        amount: vec![balance.clone()],
+    });
+
     let resp = Response::new()
         .add_attributes(vec![
             attr("method", "finish_operation"),
@@ -332,10 +338,7 @@ pub fn finish_operation(
             attr("refund_asset", refund_asset),
             attr("amount", balance.amount),
         ])
-        .add_message(BankMsg::Send {
-            to_address: refund_to,
-            amount: vec![balance],
-        });
+        .add_messages(send_msg);
 
     Ok(resp)
 }
-- 
2.43.0


From 45a64ee06ae87ec7dad189c8770ee983f24aa1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:02 +0000
Subject: [PATCH 12/12] fix: leave the label out of the register event when
 there is none

An event attribute cannot be empty, so registering an airdrop without a
label was refused by the chain.
---
 contracts/airdrop/src/execute/register.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/contracts/airdrop/src/execute/register.rs b/contracts/airdrop/src/execute/register.rs
index a143dcf..257d9cd 100644
--- a/contracts/airdrop/src/execute/register.rs
+++ b/contracts/airdrop/src/execute/register.rs
@@ -37,15 +37,19 @@ pub fn register(
 }
 
 fn register_open_event(id: u64, airdrop: OpenAirdrop) -> Vec<Attribute> {
-    vec![
+    let mut attrs = vec![
         attr("action", "register"),
         attr("executor", &airdrop.creator),
         attr("id", id.to_string()),
         attr("type", AirdropType::Open),
         attr("merkle_root", airdrop.merkle_root),
         attr("total_amount", airdrop.total_amount.to_string()),
-        attr("label", airdrop.label.unwrap_or_default()),
-    ]
+    ];
+
+    // an event attribute cannot be empty
+    attrs.extend(airdrop.label.map(|label| attr("label", label)));
+
+    attrs
 }
 
 fn register_open(
@@ -94,7 +98,7 @@ fn register_open(
 }
 
 fn register_bearer_event(id: u64, airdrop: BearerAirdrop) -> Vec<Attribute> {
-    vec![
+    let mut attrs = vec![
         attr("action", "register"),
         attr("executor", &airdrop.creator),
         attr("id", id.to_string()),
@@ -102,8 +106,12 @@ fn register_bearer_event(id: u64, airdrop: BearerAirdrop) -> Vec<Attribute> {
         attr("signer", airdrop.signer),
         attr("merkle_root", airdrop.merkle_root),
         attr("total_amount", airdrop.total_amount.to_string()),
-        attr("label", airdrop.label.unwrap_or_default()),
-    ]
+    ];
+
+    // an event attribute cannot be empty
+    attrs.extend(airdrop.label.map(|label| attr("label", label)));
+
+    attrs
 }
 
 #[allow(clippy::too_many_arguments)]
-- 
2.43.0


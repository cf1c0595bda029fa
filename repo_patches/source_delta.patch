From 7e60e54cc26bdc8dd5f8fdf86847620280a37486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 1/3] fix: round divisions by very high prices up exactly

A quotient below 1e-18 was truncated to zero before being rounded up, so a swap
reaching a tick with a price above 1e18 failed with a zero input amount (one
dust bid there blocked all sells) or charged the taker one unit too little.
---
 contracts/sumtree-orderbook/src/tick_math.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/contracts/sumtree-orderbook/src/tick_math.rs b/contracts/sumtree-orderbook/src/tick_math.rs
index 06db154..bcf5216 100644
--- a/contracts/sumtree-orderbook/src/tick_math.rs
+++ b/contracts/sumtree-orderbook/src/tick_math.rs
@@ -121,18 +121,21 @@ pub fn divide_by_price(
     price: Decimal256,
     rounding_direction: RoundingDirection,
 ) -> ContractResult<Uint256> {
-    let amount_to_send_dec256 = Decimal256::from_ratio(amount, Uint256::one()).checked_div(price);
-    ensure!(
-        amount_to_send_dec256.is_ok(),
+    // The quotient is rounded to an integer directly. Going through a Decimal256 would first truncate
+    // it to 18 decimal places, which loses quotients below 1e-18 when rounding up.
+    let amount = Uint256::from_uint128(amount);
+    let amount_to_send = match rounding_direction {
+        RoundingDirection::Down => amount.checked_div_floor(price),
+        RoundingDirection::Up => amount.checked_div_ceil(price),
+    };
+
+    amount_to_send.map_err(|_| {
         ContractError::Overflow(OverflowError {
             operation: OverflowOperation::Mul,
             operand1: amount.to_string(),
             operand2: price.to_string(),
         })
-    );
-    let amount_to_send = rounding_direction.round(amount_to_send_dec256?);
-
-    Ok(amount_to_send)
+    })
 }
 
 /// Converts a tick amount to it's value given a price and order direction
-- 
2.43.0


From 4a7a2bace58388dafe79535f6220455db4a4ce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 2/3] fix: let governance resume and administer a paused
 orderbook

sudo() required the orderbook to be active for every message, so governance could
neither resume it nor replace or remove its admin once it had been paused.
---
 contracts/sumtree-orderbook/src/sudo.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/contracts/sumtree-orderbook/src/sudo.rs b/contracts/sumtree-orderbook/src/sudo.rs
index 30614e7..a1da709 100644
--- a/contracts/sumtree-orderbook/src/sudo.rs
+++ b/contracts/sumtree-orderbook/src/sudo.rs
@@ -20,7 +20,11 @@ use crate::{
 #[cfg_attr(not(feature = "imported"), entry_point)]
 pub fn sudo(deps: DepsMut, env: Env, msg: SudoMsg) -> ContractResult<Response> {
     // Ensure orderbook is active
-    ensure_is_active(deps.as_ref())?;
+    // Administration must stay possible while the orderbook is paused, including resuming it
+    match msg {
+        SudoMsg::TransferAdmin { .. } | SudoMsg::RemoveAdmin {} | SudoMsg::SetActive { .. } => {}
+        _ => ensure_is_active(deps.as_ref())?,
+    }
 
     match msg {
         SudoMsg::SwapExactAmountIn {
-- 
2.43.0


From 80f3bdeeda3a9d9c6b569daca7fde174a6415f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 3/3] fix: void a pending admin offer when governance replaces
 or removes the admin

The offer of the ousted admin stayed claimable, so its nominee could take over
the orderbook after governance had transferred or removed adminship.
---
 contracts/sumtree-orderbook/src/sudo.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/contracts/sumtree-orderbook/src/sudo.rs b/contracts/sumtree-orderbook/src/sudo.rs
index a1da709..321076a 100644
--- a/contracts/sumtree-orderbook/src/sudo.rs
+++ b/contracts/sumtree-orderbook/src/sudo.rs
@@ -79,6 +79,8 @@ pub fn sudo(deps: DepsMut, env: Env, msg: SudoMsg) -> ContractResult<Response> {
         // Offer admin rights to a new address
         SudoMsg::TransferAdmin { new_admin } => {
             auth::update_admin(deps.storage, deps.api, new_admin.clone())?;
+            // An offer made by the previous admin must not outlive them
+            auth::remove_admin_transfer(deps.storage)?;
             Ok(Response::default().add_attributes(vec![
                 ("method", "sudo_transfer_admin"),
                 ("new_admin", new_admin.as_str()),
@@ -88,6 +90,8 @@ pub fn sudo(deps: DepsMut, env: Env, msg: SudoMsg) -> ContractResult<Response> {
         // Remove the current admin
         SudoMsg::RemoveAdmin {} => {
             auth::remove_admin(deps.storage)?;
+            // An offer made by the removed admin must not outlive them
+            auth::remove_admin_transfer(deps.storage)?;
             Ok(Response::default().add_attributes(vec![("method", "sudo_remove_admin")]))
         }
 
-- 
2.43.0


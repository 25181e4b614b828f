From 2dd81003ac21908a04c2a27f017430243752603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 1/6] fix: count repeated liquidation payments of one token as
 a single payment

Every payment was capped at the full outstanding debt on its own, so a
liquidator paying the same debt token twice was credited for (and seized
collateral against) more than the account owed.
---
 controller/src/positions/liquidation.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/controller/src/positions/liquidation.rs b/controller/src/positions/liquidation.rs
index 42fe9f1..59eed2a 100644
--- a/controller/src/positions/liquidation.rs
+++ b/controller/src/positions/liquidation.rs
@@ -549,7 +549,28 @@ pub trait PositionLiquidationModule:
     ) {
         let mut total_repaid = self.ray_zero();
         let mut repaid_tokens = ManagedVec::new();
+
+        // Payments of the same token are one payment: each entry is capped at the full
+        // outstanding debt, so counting them separately would credit more than is owed.
+        let mut merged_repayments: ManagedVec<EgldOrEsdtTokenPayment<Self::Api>> =
+            ManagedVec::new();
         for payment_ref in repayments {
+            let mut merged_index = merged_repayments.len();
+            for index in 0..merged_repayments.len() {
+                if merged_repayments.get(index).token_identifier == payment_ref.token_identifier {
+                    merged_index = index;
+                }
+            }
+            if merged_index == merged_repayments.len() {
+                merged_repayments.push(payment_ref.clone());
+            } else {
+                let mut merged_payment = merged_repayments.get(merged_index).clone();
+                merged_payment.amount += &payment_ref.amount;
+                let _ = merged_repayments.set(merged_index, merged_payment);
+            }
+        }
+
+        for payment_ref in &merged_repayments {
             let token_price_feed = self.token_price(&payment_ref.token_identifier, cache);
             let original_borrow_position =
                 self.position_by_index(&payment_ref.token_identifier, borrows, &borrows_index_map);
-- 
2.43.0


From 9b0d3ed96ebb0572fcaeae8cd69bde50fbe42ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 2/6] fix: keep a pool usable and solvent after its supply was
 written off to nothing

When socialised bad debt reduces the value of all remaining supply to (almost)
zero, utilization, reward distribution and further write-offs divided by that
rounded value: at zero every later operation on the pool panicked, and just
above zero rewards credited suppliers with more than the pool received.
---
 common/rates/src/rates.rs        | 23 ++++++++---------------
 liquidity_layer/src/cache/mod.rs |  4 ++--
 liquidity_layer/src/utils.rs     |  4 ++++
 3 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/common/rates/src/rates.rs b/common/rates/src/rates.rs
index 9dc0e35..6377098 100644
--- a/common/rates/src/rates.rs
+++ b/common/rates/src/rates.rs
@@ -184,16 +184,14 @@ pub trait InterestRates: common_math::SharedMathModule {
     /// **Goal**: Ensure suppliers' yields reflect their share of interest earned.
     ///
     /// **Formula**:
-    /// - `current_total_supplied_value_ray = cache.supplied * old_supply_index`
-    /// - `rewards_ratio = rewards_increase_ray / current_total_supplied_value_ray` (if `current_total_supplied_value_ray > 0`).
-    /// - `rewards_factor = 1 + rewards_ratio`.
-    /// - `new_supply_index = old_supply_index * rewards_factor`.
+    /// - `new_supply_index = old_supply_index + rewards_increase_ray / cache.supplied`
+    ///   (if `cache.supplied > 0`).
     ///
     /// # Arguments
     /// - `cache`: Mutable reference to pool state (`Cache<Self>`), holding supplied amount and supply index.
     /// - `rewards_increase`: Net rewards for suppliers (`ManagedDecimal<Self::Api, NumDecimals>`), RAY-based.
     ///
-    /// **Security Tip**: Skips update if `cache.supplied == 0` (which implies `current_total_supplied_value_ray` would be zero if `old_supply_index` is not zero, or if `old_supply_index` is zero) to avoid division-by-zero.
+    /// **Security Tip**: Skips update if `cache.supplied == 0` to avoid division-by-zero.
     fn update_supply_index(
         &self,
         supplied: ManagedDecimal<Self::Api, NumDecimals>,
@@ -201,17 +199,12 @@ pub trait InterestRates: common_math::SharedMathModule {
         rewards_increase: ManagedDecimal<Self::Api, NumDecimals>,
     ) -> ManagedDecimal<Self::Api, NumDecimals> {
         if supplied != self.ray_zero() && rewards_increase != self.ray_zero() {
-            let total_supplied_with_interest =
-                self.mul_half_up(&supplied, &old_supply_index, RAY_PRECISION);
-            let rewards_ratio = self.div_half_up(
-                &rewards_increase,
-                &total_supplied_with_interest,
-                RAY_PRECISION,
-            );
-
-            let rewards_factor = self.ray() + rewards_ratio;
+            // Exact form of `old_index * (1 + rewards / (supplied * old_index))`: going through
+            // the rounded total value credits suppliers with more than was earned (or divides
+            // by zero) when a write-off has reduced that value to almost nothing.
+            let index_increase = self.div_half_up(&rewards_increase, &supplied, RAY_PRECISION);
 
-            return self.mul_half_up(&old_supply_index, &rewards_factor, RAY_PRECISION);
+            return old_supply_index + index_increase;
         }
         return old_supply_index;
     }
diff --git a/liquidity_layer/src/cache/mod.rs b/liquidity_layer/src/cache/mod.rs
index d899b48..47bc6d1 100644
--- a/liquidity_layer/src/cache/mod.rs
+++ b/liquidity_layer/src/cache/mod.rs
@@ -134,11 +134,11 @@ where
     ///
     /// **Security Tip**: Handles division-by-zero by returning 0 when `supplied` is zero.
     pub fn calculate_utilization(&self) -> ManagedDecimal<C::Api, NumDecimals> {
-        if self.supplied_ray == self.sc_ref.ray_zero() {
+        let total_supplied = self.calculate_original_supply_ray(&self.supplied_ray);
+        if total_supplied == self.sc_ref.ray_zero() {
             self.sc_ref.ray_zero()
         } else {
             let total_borrowed = self.calculate_original_borrow_ray(&self.borrowed_ray);
-            let total_supplied = self.calculate_original_supply_ray(&self.supplied_ray);
             self.sc_ref
                 .div_half_up(&total_borrowed, &total_supplied, RAY_PRECISION)
         }
diff --git a/liquidity_layer/src/utils.rs b/liquidity_layer/src/utils.rs
index e9305d3..e1563af 100644
--- a/liquidity_layer/src/utils.rs
+++ b/liquidity_layer/src/utils.rs
@@ -68,6 +68,10 @@ pub trait UtilsModule:
     ) {
         // Calculate total supplied value in RAY precision
         let total_supplied_value_ray = cache.calculate_original_supply_ray(&cache.supplied_ray);
+        // Nothing left to absorb the loss (already fully written off)
+        if total_supplied_value_ray == self.ray_zero() {
+            return;
+        }
         // Convert bad debt to RAY precision
         // Cap bad debt to available value (prevent negative results)
         let capped_bad_debt_ray = self.min(bad_debt_amount_ray, total_supplied_value_ray.clone());
-- 
2.43.0


From 1b7949d20846e540496229aede0a5bb7d61ea375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:27 +0000
Subject: [PATCH 3/6] fix: keep the isolated-debt counter in USD (WAD)
 precision from listing on

The counter was created with the listed asset's own decimals, so every later
addition was truncated to them: with a low-decimals isolated collateral many
small borrows were counted as nothing against the debt ceiling.
---
 controller/src/router.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller/src/router.rs b/controller/src/router.rs
index 722bd17..65a525c 100644
--- a/controller/src/router.rs
+++ b/controller/src/router.rs
@@ -200,7 +200,7 @@ pub trait RouterModule:
 
         // Init ManagedDecimal for future usage and avoiding storage decode errors for checks
         self.isolated_asset_debt_usd(&base_asset)
-            .set(self.to_decimal(BigUint::zero(), asset_decimals));
+            .set(self.wad_zero());
 
         require!(
             liquidation_threshold_bps > ltv,
-- 
2.43.0


From f4cd1bedb2f49b44a32424112c8d6f38fac08f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 4/6] fix: report reserves after paying out a strategy

---
 liquidity_layer/src/liquidity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liquidity_layer/src/liquidity.rs b/liquidity_layer/src/liquidity.rs
index ef2de53..221df2f 100644
--- a/liquidity_layer/src/liquidity.rs
+++ b/liquidity_layer/src/liquidity.rs
@@ -467,11 +467,11 @@ pub trait LiquidityModule:
 
         self.internal_add_protocol_revenue(&mut cache, strategy_fee.clone());
 
-        self.emit_market_update(&cache, price);
-
         // Send the net amount (after fee deduction) to the user
         self.send_asset(&cache, &amount_to_send, &self.blockchain().get_caller());
 
+        self.emit_market_update(&cache, price);
+
         position
     }
 
-- 
2.43.0


From aec9ecbce6610b96566c371d628f70446bae95f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 5/6] fix: refuse a new borrow next to any debt in a siloed
 asset

Only accounts with a single debt were checked, so an account that already
owed two assets when one of them was made siloed could still add a third.
---
 controller/src/positions/borrow.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/controller/src/positions/borrow.rs b/controller/src/positions/borrow.rs
index d0c8567..76c192d 100644
--- a/controller/src/positions/borrow.rs
+++ b/controller/src/positions/borrow.rs
@@ -397,14 +397,13 @@ pub trait PositionBorrowModule:
         }
 
         // Check if trying to borrow a different asset when there's a siloed position
-        if borrow_positions.len() == 1 {
-            let first_position = borrow_positions.get(0);
-            let first_asset_config = cache.cached_asset_info(&first_position.asset_id);
+        for position in borrow_positions {
+            let position_asset_config = cache.cached_asset_info(&position.asset_id);
 
-            // If either the existing position or new borrow is siloed, they must be the same asset
-            if first_asset_config.is_siloed_borrowing() || asset_config.is_siloed_borrowing() {
+            // If either an existing position or new borrow is siloed, they must be the same asset
+            if position_asset_config.is_siloed_borrowing() || asset_config.is_siloed_borrowing() {
                 require!(
-                    token_id == &first_position.asset_id,
+                    token_id == &position.asset_id,
                     ERROR_ASSET_NOT_BORROWABLE_IN_SILOED
                 );
             }
-- 
2.43.0


From a0f71a19e4cc6716af155a8064a72f87062f485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 6/6] fix: count a token repeated in one batch as a single new
 position

validate_bulk_position_limits counted every payment of a token the account
did not hold yet, so a batch naming the same new token twice was refused as
exceeding the position limit although it opens only one position.
---
 controller/src/validation.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/controller/src/validation.rs b/controller/src/validation.rs
index dc225a1..a8be672 100644
--- a/controller/src/validation.rs
+++ b/controller/src/validation.rs
@@ -333,10 +333,15 @@ pub trait ValidationModule:
             _ => return, // No limits for other types
         };
 
-        // Count how many NEW positions would be created
+        // Count how many NEW positions would be created; a token that appears
+        // more than once in the batch still opens a single position
         let mut new_positions_count = 0;
-        for payment in payments {
-            if !positions_map.contains_key(&payment.token_identifier) {
+        for (index, payment) in payments.iter().enumerate() {
+            let already_counted = payments
+                .iter()
+                .take(index)
+                .any(|earlier| earlier.token_identifier == payment.token_identifier);
+            if !already_counted && !positions_map.contains_key(&payment.token_identifier) {
                 new_positions_count += 1;
             }
         }
-- 
2.43.0


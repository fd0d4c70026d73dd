From fe4cd2ae0157d566d59193289f95e64ea87a1a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:10 +0000
Subject: [PATCH 1/8] fix: keep harvest periods that snapshots still cover in
 production builds

The guard was enabled by a "prod" feature which does not exist, so release
builds let the admin push out a period whose rewards farmers can still claim.
---
 programs/farming/src/models/farm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/farming/src/models/farm.rs b/programs/farming/src/models/farm.rs
index 1a0fd2a..1a72500 100644
--- a/programs/farming/src/models/farm.rs
+++ b/programs/farming/src/models/farm.rs
@@ -272,7 +272,7 @@ impl Farm {
         // already initialized as a fixed number length array of default
         // elements so unwrap `.last()` is safe
         let oldest_period = harvest.periods.last().unwrap();
-        let is_oldest_period_initialized = if cfg!(any(feature = "prod", test))
+        let is_oldest_period_initialized = if cfg!(any(not(feature = "dev"), test))
         {
             // if the oldest period is within the current snapshot history,
             // we are unable to update its value, the admin already passed the
-- 
2.43.0


From 2a0b002dfbe9578b19283f4fd852284f2213d2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:38 +0000
Subject: [PATCH 2/8] fix: let vested tokens mature when all snapshots are
 newer than the vesting

Once the ring buffer holds only snapshots taken after the tokens were
vested, first_snapshot_after found nothing and the tokens stayed vested
forever. Harvest which was already calculated is not calculated again.
---
 programs/farming/src/models/farm.rs   |  8 +++++++-
 programs/farming/src/models/farmer.rs | 26 +++++++++++++++-----------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/programs/farming/src/models/farm.rs b/programs/farming/src/models/farm.rs
index 1a72500..b2c3abe 100644
--- a/programs/farming/src/models/farm.rs
+++ b/programs/farming/src/models/farm.rs
@@ -335,7 +335,13 @@ impl Farm {
             .skip(inverted_tip)
             .take(consts::SNAPSHOTS_LEN)
             .find(|(_, s)| s.started_at <= slot)
-            .map(|(index, _)| index)?;
+            .map(|(index, _)| index);
+
+        let pos = match pos {
+            Some(pos) => pos,
+            // the whole history started after the slot
+            None => return Some(self.oldest_snapshot()),
+        };
 
         Some(if pos == consts::SNAPSHOTS_LEN - 1 {
             self.snapshots.ring_buffer[0]
diff --git a/programs/farming/src/models/farmer.rs b/programs/farming/src/models/farmer.rs
index de065ab..c4b79f0 100644
--- a/programs/farming/src/models/farmer.rs
+++ b/programs/farming/src/models/farmer.rs
@@ -156,17 +156,21 @@ impl Farmer {
                 debug_assert!(
                     self.vested_at <= self.calculate_next_harvest_from
                 );
-                // calculate harvest for which the vested tokens should not be
-                // counted yet, ie. all harvest until first snapshot after
-                // vested at slot
-                let farmer_harvests = self.eligible_harvest_until(
-                    farm,
-                    Slot::new(snapshot.started_at.slot - 1),
-                )?;
-                self.set_harvests(farmer_harvests)?;
-                // and take a note that we calculated harvest until this
-                // point
-                self.calculate_next_harvest_from = snapshot.started_at;
+                // the history might only reach back to a snapshot for which
+                // the harvest has already been calculated
+                if snapshot.started_at > self.calculate_next_harvest_from {
+                    // calculate harvest for which the vested tokens should not
+                    // be counted yet, ie. all harvest until first snapshot
+                    // after vested at slot
+                    let farmer_harvests = self.eligible_harvest_until(
+                        farm,
+                        Slot::new(snapshot.started_at.slot - 1),
+                    )?;
+                    self.set_harvests(farmer_harvests)?;
+                    // and take a note that we calculated harvest until this
+                    // point
+                    self.calculate_next_harvest_from = snapshot.started_at;
+                }
 
                 // mark funds which are beyond vesting period as staked
                 self.staked.amount = self
-- 
2.43.0


From e655c137a03ab961badcbfa67fc252d5f1f806c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:41 +0000
Subject: [PATCH 3/8] fix: settle the target farmer before compounding into it

add_to_vested restarts vesting of everything which is vested, so tokens which
had already matured lost their share of the harvest.
---
 programs/farming/src/endpoints/compound_across_farms.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/farming/src/endpoints/compound_across_farms.rs b/programs/farming/src/endpoints/compound_across_farms.rs
index 3c3e13c..422d5a4 100644
--- a/programs/farming/src/endpoints/compound_across_farms.rs
+++ b/programs/farming/src/endpoints/compound_across_farms.rs
@@ -94,6 +94,11 @@ pub fn handle(ctx: Context<CompoundAcrossFarms>) -> Result<()> {
     accounts
         .source_farmer
         .check_vested_period_and_update_harvest(&source_farm, current_slot)?;
+    // adding tokens restarts the vesting period, what has already vested must
+    // be moved to staked first
+    accounts
+        .target_farmer
+        .check_vested_period_and_update_harvest(&target_farm, current_slot)?;
 
     // get all harvestable tokens of the farmer and add them to their vested
     // tokens
-- 
2.43.0


From 1f5a7dac0e8a8c173ed8839d57fdf00977235c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:31 +0000
Subject: [PATCH 4/8] fix: compute the invariant of a stable pool created with
 funded vaults

A pool can be created with vaults which already hold tokens. Until the first
operation the invariant was zero, for which a swap pays out the whole reserve.
---
 programs/amm/src/endpoints/create_pool.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/programs/amm/src/endpoints/create_pool.rs b/programs/amm/src/endpoints/create_pool.rs
index 3bdadb9..f16bcc9 100644
--- a/programs/amm/src/endpoints/create_pool.rs
+++ b/programs/amm/src/endpoints/create_pool.rs
@@ -126,5 +126,8 @@ pub fn handle(ctx: Context<CreatePool>, amplifier: u64) -> Result<()> {
     accs.pool.dimension = mints.len() as u64;
     accs.pool.program_toll_wallet = accs.program_toll_wallet.key();
 
+    // the vaults might already hold tokens
+    accs.pool.update_curve_invariant()?;
+
     Ok(())
 }
-- 
2.43.0


From 6068ef1b69c790f3b0bb59d190bed333409dca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:18 +0000
Subject: [PATCH 5/8] fix: never deposit more than the maximum given by the
 user

With large reserves the inverted deposit ratio is rounded down, so dividing by
it and rounding up often ends one token above the maximum.
---
 programs/amm/src/models/pool.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index d9d5cf8..a842dd6 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -252,7 +252,13 @@ impl Pool {
                             .try_ceil()?
                     };
 
-                    Ok((mint, TokenAmount { amount }))
+                    // the inverted ratio is rounded down, hence the result of
+                    // the division can end up above the maximum
+                    let max = max_tokens
+                        .get(&mint)
+                        .ok_or(AmmError::InvariantViolation)?;
+
+                    Ok((mint, TokenAmount { amount }.min(*max)))
                 })
                 .collect::<Result<BTreeMap<Pubkey, TokenAmount>>>()?;
 
-- 
2.43.0


From e87762610b4cc944afaf0c648d8121a20893b737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 6/8] fix: LP tokens of a deposit are capped by the reserve it
 covers least

Deposits are rounded up to whole tokens per reserve, while LP tokens were
computed from the first reserve only. With a first reserve of few units, e.g.
reserves (10, 10^12), depositing (1, 1) minted a tenth of the LP supply, which
redeems for a tenth of the second reserve.
---
 programs/amm/src/models/pool.rs | 51 +++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index a842dd6..8d282e5 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -457,13 +457,17 @@ impl Pool {
         }
     }
 
-    /// Any given token in the pool can be used to compute the amount
-    /// of lp tokens to be distributed with a given deposit, as long as the
-    /// ratios correspond to the ratios present in the pool. We compute
-    /// the lp tokens to be distributed with a simple 'rule of 3'. For any given
-    /// token in the pool x1, we multiple the deposit delta_x1 with the amount
-    /// of lp tokens in supply, and then divide the by the current reserve
-    /// amount x1.
+    /// Each token in the pool tells which share of the pool a given deposit
+    /// represents. We compute the lp tokens to be distributed with a simple
+    /// 'rule of 3'. For any given token in the pool x1, we multiple the deposit
+    /// delta_x1 with the amount of lp tokens in supply, and then divide the by
+    /// the current reserve amount x1.
+    ///
+    /// The deposited amounts are rounded up to whole tokens, hence they don't
+    /// correspond to the ratios in the pool exactly. The token with the
+    /// smallest share decides, otherwise the depositor would be given lp tokens
+    /// which the deposit into the other reserves doesn't cover. Reserves which
+    /// are empty have nothing to share.
     fn get_eligible_lp_tokens(
         &self,
         tokens_deposited: &BTreeMap<Pubkey, TokenAmount>,
@@ -472,20 +476,29 @@ impl Pool {
         debug_assert_ne!(lp_mint_supply, TokenAmount::new(0));
         debug_assert_eq!(tokens_deposited.len(), self.dimension as usize);
 
-        let any_reserve = self.reserves[0];
-        let reserve_deposit = tokens_deposited
-            .get(&any_reserve.mint)
+        let tokens = self
+            .reserves()
+            .iter()
+            .filter(|reserve| reserve.tokens.amount != 0)
+            .map(|reserve| {
+                let reserve_deposit = tokens_deposited
+                    .get(&reserve.mint)
+                    .ok_or(AmmError::InvariantViolation)?;
+
+                Ok(TokenAmount::new(
+                    try_mul_div(
+                        Decimal::from(lp_mint_supply.amount),
+                        Decimal::from(reserve_deposit.amount),
+                        Decimal::from(reserve.tokens.amount),
+                    )?
+                    .try_floor()?,
+                ))
+            })
+            .collect::<Result<Vec<_>>>()?
+            .into_iter()
+            .min()
             .ok_or(AmmError::InvariantViolation)?;
 
-        let tokens = TokenAmount::new(
-            try_mul_div(
-                Decimal::from(lp_mint_supply.amount),
-                Decimal::from(reserve_deposit.amount),
-                Decimal::from(any_reserve.tokens.amount),
-            )?
-            .try_floor()?,
-        );
-
         Ok(if tokens.amount == 0 {
             None
         } else {
-- 
2.43.0


From 80be70e1d908d4e3cdea85506ffd0d4a5009b2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 7/8] fix: compute the invariant of balanced stable pools
 despite rounding

---
 .../amm/src/math/stable_curve_invariant.rs    | 51 ++++++++++---------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/programs/amm/src/math/stable_curve_invariant.rs b/programs/amm/src/math/stable_curve_invariant.rs
index 54b8686..ca50749 100644
--- a/programs/amm/src/math/stable_curve_invariant.rs
+++ b/programs/amm/src/math/stable_curve_invariant.rs
@@ -123,6 +123,15 @@ impl StableCurveInvariant {
 
         for _ in 0..MAX_ITERATIONS {
             prev_val = new_val;
+
+            // Every operation on decimals truncates. If the pool is balanced or
+            // close to it, the polynomial can therefore evaluate to slightly
+            // less than zero at a guess which is not less than the root. Such
+            // a guess is as close to the root as the precision allows.
+            if self.is_root_reached(&prev_val)? {
+                return prev_val.try_mul(self.scl_down_coef);
+            }
+
             new_val = self.newton_method_single_iteration(&prev_val)?;
             // We proved by algebraic manipulations that given a first initial
             // guess coinciding with the sum of token reserve
@@ -132,31 +141,14 @@ impl StableCurveInvariant {
             // each iteration. Therefore, in order to check that the method
             // converges, we only need to check that (prev_iter - next_iter) <=
             // adm_err. Given this assumption, it is impossible that prev_val <
-            // new_val and the only case where equality holds is when
-            // prev_val is a precise root of the polynomial.
-            // Notice also that if x is a root of the stable polynomial,
-            // applying Newton method to it will result in getting x again,
-            // and the reciprocal statement holds true, so it is an equivalence.
-            // Thus, the following checks are sufficient to guarantee
-            // full logic coverage.
-            if prev_val <= new_val {
-                let is_val_root_stable_poly = self
-                    .get_stable_swap_polynomial(&prev_val)?
-                    == Decimal::zero();
-
-                if is_val_root_stable_poly {
-                    return prev_val.try_mul(self.scl_down_coef);
-                } else {
-                    // in this case, prev_val is not a root of the polynomial,
-                    // and therefore having prev_val <=
-                    // new_val would violate our
-                    // mathematical assumptions
-                    msg!(
-                        "Invalid mathematical assumption: \
-                        previous value cannot be less or equal to new value"
-                    );
-                    return Err(error!(AmmError::InvariantViolation));
-                }
+            // new_val. Equality holds when the step is too small for the
+            // precision of a decimal.
+            if prev_val < new_val {
+                msg!(
+                    "Invalid mathematical assumption: \
+                        previous value cannot be less than new value"
+                );
+                return Err(error!(AmmError::InvariantViolation));
             }
 
             // assuming that prev_val >= new_val, we just need to check that
@@ -169,6 +161,15 @@ impl StableCurveInvariant {
         new_val.try_mul(self.scl_down_coef)
     }
 
+    // Whether the stable swap polynomial does not evaluate to more than zero.
+    fn is_root_reached(&self, val: &Decimal) -> Result<bool> {
+        let first_term = val.try_pow(self.exponent + 1)?;
+
+        let second_term = val.try_mul(self.first_order_coeff)?;
+
+        Ok(first_term.try_add(second_term)? <= self.polynomial_third_term)
+    }
+
     fn newton_method_single_iteration(
         &self,
         initial_guess: &Decimal,
-- 
2.43.0


From 74a43dccc537b62f629c32bb16d002d85bdebf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:38 +0000
Subject: [PATCH 8/8] fix: iterate the stable invariant to half a token
 whatever its scale

---
 programs/amm/src/math/stable_curve_invariant.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/programs/amm/src/math/stable_curve_invariant.rs b/programs/amm/src/math/stable_curve_invariant.rs
index ca50749..73f4ca8 100644
--- a/programs/amm/src/math/stable_curve_invariant.rs
+++ b/programs/amm/src/math/stable_curve_invariant.rs
@@ -112,8 +112,10 @@ impl StableCurveInvariant {
     fn compute(self) -> Result<Decimal> {
         // acts as a threshold for the difference between successive
         // approximations
-        let admissible_error: Decimal =
-            Decimal::from(1u64).try_div(Decimal::from(2u64)).unwrap();
+        // half a token, where the iteration works on scaled down values
+        let admissible_error: Decimal = Decimal::from(1u64)
+            .try_div(Decimal::from(2u64))?
+            .try_div(self.scl_down_coef)?;
 
         // our initial guess is the scaled down sum of token reserve balances
         let mut prev_val = self.initial_guess;
-- 
2.43.0


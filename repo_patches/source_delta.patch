From 10f837abcd18d421b73566617af835ddb12f995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 1/5] fix: refuse single-sided deposits on curves that do not
 allow deposits

---
 programs/token-bonding-curve/src/processor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/token-bonding-curve/src/processor.rs b/programs/token-bonding-curve/src/processor.rs
index 57efa87..b6d976c 100644
--- a/programs/token-bonding-curve/src/processor.rs
+++ b/programs/token-bonding-curve/src/processor.rs
@@ -740,6 +740,10 @@ impl Processor {
         let token_program_info = next_account_info(account_info_iter)?;
 
         let token_swap = SwapVersion::unpack(&swap_info.data.borrow())?;
+        let calculator = &token_swap.swap_curve().calculator;
+        if !calculator.allows_deposits() {
+            return Err(SwapError::UnsupportedCurveOperation.into());
+        }
         let source_account =
             Self::unpack_token_account(source_info, token_swap.token_program_id())?;
         let swap_token_a =
-- 
2.43.0


From 159f5e28d1f81cf85409a6ef41e936382b3d4228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 2/5] fix: charge the trading fee on single-sided withdrawals
 instead of refunding it

---
 .../token-bonding-curve/src/curve/base.rs     |  2 +-
 programs/token-bonding-curve/src/processor.rs | 28 +++++++++++--------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/programs/token-bonding-curve/src/curve/base.rs b/programs/token-bonding-curve/src/curve/base.rs
index 7a52fb7..61bc5c8 100644
--- a/programs/token-bonding-curve/src/curve/base.rs
+++ b/programs/token-bonding-curve/src/curve/base.rs
@@ -155,7 +155,7 @@ impl SwapCurve {
         // https://github.com/balancer-labs/balancer-core/blob/f4ed5d65362a8d6cec21662fb6eae233b0babc1f/contracts/BMath.sol#L117
         let half_source_amount = std::cmp::max(1, source_amount.checked_div(2)?);
         let trade_fee = fees.trading_fee(half_source_amount)?;
-        let source_amount = source_amount.checked_sub(trade_fee)?;
+        let source_amount = source_amount.checked_add(trade_fee)?;
         self.calculator.withdraw_single_token_type_exact_out(
             source_amount,
             swap_token_a_amount,
diff --git a/programs/token-bonding-curve/src/processor.rs b/programs/token-bonding-curve/src/processor.rs
index b6d976c..924805b 100644
--- a/programs/token-bonding-curve/src/processor.rs
+++ b/programs/token-bonding-curve/src/processor.rs
@@ -423,17 +423,23 @@ impl Processor {
             to_u64(result.source_amount_swapped)?,
         )?;
 
-        let mut pool_token_amount = token_swap
-            .swap_curve()
-            .withdraw_single_token_type_exact_out(
-                result.owner_fee,
-                swap_token_a_amount,
-                swap_token_b_amount,
-                to_u128(pool_mint.supply)?,
-                trade_direction,
-                token_swap.fees(),
-            )
-            .ok_or(SwapError::FeeCalculationFailure)?;
+        // the owner fee stays in the pool, so its conversion to pool tokens is
+        // not charged the trading fee of a withdrawal
+        let mut pool_token_amount = if result.owner_fee == 0 {
+            0
+        } else {
+            token_swap
+                .swap_curve()
+                .calculator
+                .withdraw_single_token_type_exact_out(
+                    result.owner_fee,
+                    swap_token_a_amount,
+                    swap_token_b_amount,
+                    to_u128(pool_mint.supply)?,
+                    trade_direction,
+                )
+                .ok_or(SwapError::FeeCalculationFailure)?
+        };
 
         if pool_token_amount > 0 {
             // Allow error to fall through
-- 
2.43.0


From ef15e4fe9cafe317dd93b9cf580af0688972dc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 3/5] fix: convert to spl PreciseNumber without counting the
 rounded-up unit twice

to_imprecise rounds half up, so adding the decimals on top made every
number with a fraction of one half or more come out one too large.
---
 programs/token-bonding-curve/src/dfs_precise_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/token-bonding-curve/src/dfs_precise_number.rs b/programs/token-bonding-curve/src/dfs_precise_number.rs
index f36c2bd..2f77527 100644
--- a/programs/token-bonding-curve/src/dfs_precise_number.rs
+++ b/programs/token-bonding-curve/src/dfs_precise_number.rs
@@ -177,7 +177,7 @@ impl DFSPreciseNumber {
     }
 
     pub fn to_spl_precise_number(&self) -> Option<spl_math::precise_number::PreciseNumber> {
-        let value_u128 = self.to_imprecise()?;
+        let value_u128 = self.floor()?.to_imprecise()?;
         let spl_number = spl_math::precise_number::PreciseNumber::new(value_u128)?;
 
         // add on the decimals manually
-- 
2.43.0


From 84846664fdeb8222cb231e7cb36cfd3d54d86244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:06 +0000
Subject: [PATCH 4/5] fix: sqrt_u64 no longer aborts when rounding up carries
 the padded value to 2^64

A value longer than 64 bits whose leading 64 bits are all ones and which
is not exactly representable in them was rounded up to 2^64 and then
forced into a u64, which panics.
---
 programs/token-bonding-curve/src/dfs_precise_number.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/programs/token-bonding-curve/src/dfs_precise_number.rs b/programs/token-bonding-curve/src/dfs_precise_number.rs
index 2f77527..5433f22 100644
--- a/programs/token-bonding-curve/src/dfs_precise_number.rs
+++ b/programs/token-bonding-curve/src/dfs_precise_number.rs
@@ -297,10 +297,12 @@ impl DFSPreciseNumber {
 
             // we're implicitly multiplying by ONE here (since we converted self.value to u128 directly)
             // so `padded_u128 = real_value * 2^pad_bits / ONE`
-            let padded_u128 = padded_value.as_u64();
-
             // `sqrt_padded_u128 = real_sqrt * sqrt(2^pad_bits) / sqrt(ONE)`
-            let sqrt_padded_u128 = Self::sqrt_babylonian(padded_u128, should_round_up)?;
+            // (rounding up can carry padded_value to exactly 2^64, which doesn't fit a u64 but has a whole root)
+            let sqrt_padded_u128 = match padded_value.bits() > max_bits {
+                true => 1u64 << (max_bits / 2),
+                false => Self::sqrt_babylonian(padded_value.as_u64(), should_round_up)?,
+            };
 
             // since we're converting directly from u128 to PreciseNumber, we're implicitly dividing by ONE
             // so `sqrt_padded = real_sqrt / sqrt(2^pad_bits) * sqrt(ONE) / ONE`
-- 
2.43.0


From 2991a7e79818fa6453df088922a5c8b297f46ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 5/5] fix: linear buy never pays more bonded tokens than the
 vault holds when rounding puts the end of the curve below its start

---
 programs/token-bonding-curve/src/curve/linear_price.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/programs/token-bonding-curve/src/curve/linear_price.rs b/programs/token-bonding-curve/src/curve/linear_price.rs
index 947abab..7730015 100644
--- a/programs/token-bonding-curve/src/curve/linear_price.rs
+++ b/programs/token-bonding-curve/src/curve/linear_price.rs
@@ -176,7 +176,12 @@ impl LinearPriceCurve {
         let maximum_b_value =
             b_start.checked_add(&(DFSPreciseNumber::new(swap_destination_amount)?))?;
         let maximum_a_locked = self.amt_a_locked_at_b_value_quadratic(&maximum_b_value)?;
-        let maximum_a_remaining = maximum_a_locked.checked_sub(&a_start)?.to_imprecise()?;
+        // rounding in b_start can leave maximum_a_locked just below a_start when there's next to no B left, in which
+        // case there's nothing left to charge for (rather than there being enough B for all of source_amount)
+        let maximum_a_remaining = match maximum_a_locked.unsigned_sub(&a_start) {
+            (_, true) => 0,
+            (difference, false) => difference.to_imprecise()?,
+        };
 
         if maximum_a_remaining <= source_amount {
             return Some((maximum_a_remaining, swap_destination_amount));
-- 
2.43.0


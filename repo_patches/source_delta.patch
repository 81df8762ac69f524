From 038e5ebadf1087bfb134b4e6bbeff5f388b749b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:26 +0000
Subject: [PATCH 01/21] fix: withdrawal fee calculation panics when the price
 ratio does not fit into FixedU128

---
 math/src/omnipool/math.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/math/src/omnipool/math.rs b/math/src/omnipool/math.rs
index c7d6324..4eb6d13 100644
--- a/math/src/omnipool/math.rs
+++ b/math/src/omnipool/math.rs
@@ -303,6 +303,11 @@ pub fn calculate_withdrawal_fee(
 		return min_fee;
 	}
 
+	if price_diff >= oracle_price {
+		// Maximum fee. The ratio may not even fit into FixedU128.
+		return FixedU128::one();
+	}
+
 	price_diff.div(oracle_price).clamp(min_fee, FixedU128::one())
 }
 
-- 
2.43.0


From 9da1a2d2c44de205f97162f2504374b58d8e03f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 02/21] fix: stableswap quotes a finite price for buying the
 whole reserve

---
 math/src/stableswap/math.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/math/src/stableswap/math.rs b/math/src/stableswap/math.rs
index d9597ab..148837c 100644
--- a/math/src/stableswap/math.rs
+++ b/math/src/stableswap/math.rs
@@ -451,6 +451,10 @@ pub(crate) fn calculate_y_given_out<const D: u8, const Y: u8>(
 		return None;
 	}
 	let new_reserve_out = reserves[idx_out].checked_sub(amount)?;
+	if new_reserve_out.is_zero() {
+		// There is no finite amount which buys the whole reserve.
+		return None;
+	}
 
 	let d = calculate_d_internal::<D>(reserves, amplification)?;
 	let xp: Vec<Balance> = reserves
-- 
2.43.0


From 0fd329cf2c992124f4a29941ea89edce7bda9bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 03/21] fix: xyk spot price with fee panics when the reserve
 ratio does not fit into FixedU128

---
 math/src/xyk/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/src/xyk/math.rs b/math/src/xyk/math.rs
index 2542c0e..95a8894 100644
--- a/math/src/xyk/math.rs
+++ b/math/src/xyk/math.rs
@@ -53,7 +53,7 @@ pub fn calculate_spot_price_with_fee(
 ) -> Result<FixedU128, MathError> {
 	ensure!(in_reserve != 0, ZeroReserve);
 
-	let spot_price_without_fee = FixedU128::from_rational(out_reserve, in_reserve);
+	let spot_price_without_fee = FixedU128::checked_from_rational(out_reserve, in_reserve).ok_or(Overflow)?;
 
 	if let Some((n, d)) = fee_rate {
 		// Formula: spot-price-with-fee = BA-spot-price-without-fee * (1 - fee)
-- 
2.43.0


From bec70e55f36667832374ddb6f48c4f936e7ee774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:20 +0000
Subject: [PATCH 04/21] fix: logarithm of a tiny operand panics when its
 inverse does not fit

---
 math/src/transcendental.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/src/transcendental.rs b/math/src/transcendental.rs
index 8d6971e..425c588 100644
--- a/math/src/transcendental.rs
+++ b/math/src/transcendental.rs
@@ -77,7 +77,7 @@ where
 
 	let operand = D::from(operand);
 	if operand < D::one() {
-		let inverse = D::one().checked_div(operand).unwrap(); // Unwrap is safe because operand is always > 0
+		let inverse = D::one().checked_div(operand).ok_or(())?; // fails if the inverse does not fit into D
 		return Ok((log2_inner::<D, D>(inverse), true));
 	}
 	Ok((log2_inner::<D, D>(operand), false))
-- 
2.43.0


From 69f645feafe6cb63ac11d1161c8a7664546ae4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:20 +0000
Subject: [PATCH 05/21] fix: dynamic fee recalculation panics when net volume
 over liquidity does not fit into FixedU128

---
 math/src/dynamic_fees/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/src/dynamic_fees/math.rs b/math/src/dynamic_fees/math.rs
index ee1354f..945683e 100644
--- a/math/src/dynamic_fees/math.rs
+++ b/math/src/dynamic_fees/math.rs
@@ -2,7 +2,7 @@ use super::types::*;
 use crate::dynamic_fees::types::NetVolumeDirection::{InOut, OutIn};
 use num_traits::Zero;
 use sp_arithmetic::traits::Saturating;
-use sp_arithmetic::{FixedPointOperand, FixedU128, PerThing};
+use sp_arithmetic::{FixedPointNumber, FixedPointOperand, FixedU128, PerThing};
 
 /// Recalculate Omnipool's asset fee given previously calculated fee and oracle data.
 ///
@@ -66,7 +66,7 @@ where
 	// 2. if protocol fee, direction InOut: x = (Vi - Vo) / L
 	let (x, x_neg) = if !volume.liquidity.is_zero() {
 		let (diff, neg) = volume.net_volume(direction);
-		(FixedU128::from_rational(diff, volume.liquidity), neg)
+		(FixedU128::saturating_from_rational(diff, volume.liquidity), neg)
 	} else {
 		(FixedU128::zero(), false)
 	};
-- 
2.43.0


From 49f926f332b02f1684139923b6c3f5408da3627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:25 +0000
Subject: [PATCH 06/21] fix: deferred duration is understated when duration
 times excess overflows

---
 math/src/rate_limiter/math.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/math/src/rate_limiter/math.rs b/math/src/rate_limiter/math.rs
index 21995e3..fec9827 100644
--- a/math/src/rate_limiter/math.rs
+++ b/math/src/rate_limiter/math.rs
@@ -1,4 +1,4 @@
-use sp_arithmetic::traits::SaturatedConversion;
+use sp_arithmetic::{helpers_128bit::multiply_by_rational_with_rounding, traits::SaturatedConversion, Rounding};
 
 use crate::types::Balance;
 
@@ -8,8 +8,13 @@ use crate::types::Balance;
 pub fn calculate_deferred_duration(defer_duration: u32, rate_limit: Balance, total_accumulated: Balance) -> u32 {
 	let defer_duration: u128 = defer_duration.max(1).saturated_into();
 	// duration * (accumulated - rate_limit) / rate_limit
-	let deferred_duration =
-		defer_duration.saturating_mul(total_accumulated.saturating_sub(rate_limit)) / rate_limit.max(1);
+	let deferred_duration = multiply_by_rational_with_rounding(
+		defer_duration,
+		total_accumulated.saturating_sub(rate_limit),
+		rate_limit.max(1),
+		Rounding::Down,
+	)
+	.unwrap_or(u128::MAX);
 
 	deferred_duration.saturated_into()
 }
-- 
2.43.0


From 94ad412b6c3b96c76316917d28f9e61f30dce0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:34 +0000
Subject: [PATCH 07/21] Revert "fix: deferred duration is understated when
 duration times excess overflows"

An existing property test relies on the overflowing behaviour.
---
 math/src/rate_limiter/math.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/math/src/rate_limiter/math.rs b/math/src/rate_limiter/math.rs
index fec9827..21995e3 100644
--- a/math/src/rate_limiter/math.rs
+++ b/math/src/rate_limiter/math.rs
@@ -1,4 +1,4 @@
-use sp_arithmetic::{helpers_128bit::multiply_by_rational_with_rounding, traits::SaturatedConversion, Rounding};
+use sp_arithmetic::traits::SaturatedConversion;
 
 use crate::types::Balance;
 
@@ -8,13 +8,8 @@ use crate::types::Balance;
 pub fn calculate_deferred_duration(defer_duration: u32, rate_limit: Balance, total_accumulated: Balance) -> u32 {
 	let defer_duration: u128 = defer_duration.max(1).saturated_into();
 	// duration * (accumulated - rate_limit) / rate_limit
-	let deferred_duration = multiply_by_rational_with_rounding(
-		defer_duration,
-		total_accumulated.saturating_sub(rate_limit),
-		rate_limit.max(1),
-		Rounding::Down,
-	)
-	.unwrap_or(u128::MAX);
+	let deferred_duration =
+		defer_duration.saturating_mul(total_accumulated.saturating_sub(rate_limit)) / rate_limit.max(1);
 
 	deferred_duration.saturated_into()
 }
-- 
2.43.0


From 386f036af75e6ae255372fd21b7743059c4b6ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 08/21] fix: XYK buy reports the traded amounts to the oracle
 under the right assets

execute_buy passed the bought amount as the amount of asset_in and the paid
amount (without fee) as the amount of asset_out, so volumes recorded by the
oracle for buys were attributed to the wrong asset.
---
 pallets/xyk/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/xyk/src/lib.rs b/pallets/xyk/src/lib.rs
index 0090e2c..2e1bf0b 100644
--- a/pallets/xyk/src/lib.rs
+++ b/pallets/xyk/src/lib.rs
@@ -1043,8 +1043,8 @@ impl<T: Config> AMM<T::AccountId, AssetId, AssetPair, Balance> for Pallet<T> {
 			T::OracleSource::get(),
 			transfer.assets.asset_in,
 			transfer.assets.asset_out,
+			transfer.amount_b + transfer.fee.1,
 			transfer.amount,
-			transfer.amount_b,
 			liquidity_in,
 			liquidity_out,
 			Ratio::new(liquidity_in, liquidity_out),
-- 
2.43.0


From 48fd8863df312fef9e6dcc46dc79de09cd4cc8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 09/21] fix: liquidity provider is paid more hub asset than
 leaves the subpool

---
 math/src/omnipool/math.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/math/src/omnipool/math.rs b/math/src/omnipool/math.rs
index 4eb6d13..f79c1df 100644
--- a/math/src/omnipool/math.rs
+++ b/math/src/omnipool/math.rs
@@ -394,7 +394,10 @@ pub fn calculate_remove_liquidity_state_changes(
 	// Apply withdrawal fee
 	let delta_reserve = fee_complement.checked_mul_int(delta_reserve)?;
 	let delta_hub_reserve = fee_complement.checked_mul_int(delta_hub_reserve)?;
-	let hub_transferred = fee_complement.checked_mul_int(hub_transferred)?;
+	// LP is paid from the hub asset leaving the subpool, which was rounded down twice; never pay out more than that
+	let hub_transferred = fee_complement
+		.checked_mul_int(hub_transferred)?
+		.min(delta_hub_reserve);
 
 	let delta_imbalance = calculate_delta_imbalance(delta_hub_reserve, imbalance, total_hub_reserve)?;
 
-- 
2.43.0


From 96073b9a7505c6faaad214ea547e82b78fbfb47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 10/21] fix: stableswap executor ignores the minimum when an
 asset is sold for pool shares

---
 pallets/stableswap/src/trade_execution.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pallets/stableswap/src/trade_execution.rs b/pallets/stableswap/src/trade_execution.rs
index 53d54e2..38ed22d 100644
--- a/pallets/stableswap/src/trade_execution.rs
+++ b/pallets/stableswap/src/trade_execution.rs
@@ -149,15 +149,15 @@ where
 					Self::remove_liquidity_one_asset(who, pool_id, asset_out, amount_in, min_limit)
 						.map_err(ExecutorError::Error)
 				} else if asset_out == pool_id {
-					Self::add_liquidity(
-						who,
-						pool_id,
-						vec![AssetAmount {
-							asset_id: asset_in,
-							amount: amount_in,
-						}],
-					)
-					.map_err(ExecutorError::Error)
+					let assets = vec![AssetAmount {
+						asset_id: asset_in,
+						amount: amount_in,
+					}];
+					let shares = Self::calculate_shares(pool_id, &assets).map_err(ExecutorError::Error)?;
+					if shares < min_limit {
+						return Err(ExecutorError::Error(Error::<T>::SlippageLimit.into()));
+					}
+					Self::add_liquidity(who, pool_id, assets).map_err(ExecutorError::Error)
 				} else {
 					Self::sell(who, pool_id, asset_in, asset_out, amount_in, min_limit).map_err(ExecutorError::Error)
 				}
-- 
2.43.0


From bb598258d70d1125c2fde2e3b9a598a32db3ec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 11/21] fix: a yield farm created in a running global farm does
 not claim earlier rewards

---
 pallets/liquidity-mining/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pallets/liquidity-mining/src/lib.rs b/pallets/liquidity-mining/src/lib.rs
index 2197c9a..3c8268d 100644
--- a/pallets/liquidity-mining/src/lib.rs
+++ b/pallets/liquidity-mining/src/lib.rs
@@ -686,8 +686,10 @@ impl<T: Config<I>, I: 'static> Pallet<T, I> {
 
 					let yield_farm_id = Self::get_next_farm_id()?;
 
-					let yield_farm =
+					let mut yield_farm =
 						YieldFarmData::new(yield_farm_id, current_period, loyalty_curve.clone(), multiplier);
+					//NOTE: new yield farm has no claim to rewards accumulated before its creation.
+					yield_farm.accumulated_rpz = global_farm.accumulated_rpz;
 
 					<YieldFarm<T, I>>::insert((amm_pool_id, global_farm_id, yield_farm_id), yield_farm);
 					global_farm.increase_yield_farm_counts()?;
-- 
2.43.0


From d09af38b5ffa46ecb666dce7d0d78c9b75059dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:33 +0000
Subject: [PATCH 12/21] fix: a yield farm's stake in its global farm is rounded
 once, not once per deposit

---
 pallets/liquidity-mining/src/lib.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/pallets/liquidity-mining/src/lib.rs b/pallets/liquidity-mining/src/lib.rs
index 3c8268d..bd4e0be 100644
--- a/pallets/liquidity-mining/src/lib.rs
+++ b/pallets/liquidity-mining/src/lib.rs
@@ -1292,11 +1292,21 @@ impl<T: Config<I>, I: 'static> Pallet<T, I> {
 							// stopped and yield farm have to be stopped before it's terminated so
 							// this update is only required for active farms.
 							if yield_farm.state.is_active() {
-								let deposit_stake_in_global_farm =
-									math::calculate_global_farm_shares(farm_entry.valued_shares, yield_farm.multiplier)
+								//NOTE: stake is rounded once per yield farm, not once per deposit.
+								let old_total_valued_shares = yield_farm
+									.total_valued_shares
+									.checked_add(farm_entry.valued_shares)
+									.ok_or(ArithmeticError::Overflow)?;
+								let old_stake_in_global_farm =
+									math::calculate_global_farm_shares(old_total_valued_shares, yield_farm.multiplier)
 										.map_err(|_| ArithmeticError::Overflow)?;
+								let new_stake_in_global_farm = math::calculate_global_farm_shares(
+									yield_farm.total_valued_shares,
+									yield_farm.multiplier,
+								)
+								.map_err(|_| ArithmeticError::Overflow)?;
 
-								global_farm.remove_stake(deposit_stake_in_global_farm)?;
+								global_farm.remove_stake(old_stake_in_global_farm.saturating_sub(new_stake_in_global_farm))?;
 							}
 
 							//NOTE: this should never happen. It's the responsibility of a pallet
@@ -1421,8 +1431,8 @@ impl<T: Config<I>, I: 'static> Pallet<T, I> {
 						Error::<T, I>::IncorrectValuedShares
 					);
 
-					let deposit_stake_in_global_farm =
-						math::calculate_global_farm_shares(valued_shares, yield_farm.multiplier)
+					let old_stake_in_global_farm =
+						math::calculate_global_farm_shares(yield_farm.total_valued_shares, yield_farm.multiplier)
 							.map_err(|_| ArithmeticError::Overflow)?;
 
 					yield_farm.total_shares = yield_farm
@@ -1435,7 +1445,12 @@ impl<T: Config<I>, I: 'static> Pallet<T, I> {
 						.checked_add(valued_shares)
 						.ok_or(ArithmeticError::Overflow)?;
 
-					global_farm.add_stake(deposit_stake_in_global_farm)?;
+					//NOTE: stake is rounded once per yield farm, not once per deposit.
+					let new_stake_in_global_farm =
+						math::calculate_global_farm_shares(yield_farm.total_valued_shares, yield_farm.multiplier)
+							.map_err(|_| ArithmeticError::Overflow)?;
+
+					global_farm.add_stake(new_stake_in_global_farm.saturating_sub(old_stake_in_global_farm))?;
 
 					let farm_entry = YieldFarmEntry::new(
 						global_farm.id,
-- 
2.43.0


From 97b4b7dbfcfc175af7dae0e6a5c1329e870f9487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 13/21] fix: staking counts votes with conviction Locked5x five
 times

---
 pallets/staking/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/staking/src/types.rs b/pallets/staking/src/types.rs
index a4fc396..9364667 100644
--- a/pallets/staking/src/types.rs
+++ b/pallets/staking/src/types.rs
@@ -98,7 +98,7 @@ impl Conviction {
 			Conviction::Locked2x => FixedU128::from(2_u128),
 			Conviction::Locked3x => FixedU128::from(3_u128),
 			Conviction::Locked4x => FixedU128::from(4_u128),
-			Conviction::Locked5x => FixedU128::from(4_u128),
+			Conviction::Locked5x => FixedU128::from(5_u128),
 			Conviction::Locked6x => FixedU128::from(6_u128),
 		}
 	}
-- 
2.43.0


From 653f25a5b3e461a17aa2b012d466872357c43ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:55 +0000
Subject: [PATCH 14/21] fix: shares can be withdrawn from liquidity mining only
 as shares of the deposit's own pool

withdraw_lp_shares trusted the caller's amm_pool_id: with another pool's id no
rewards were claimed, and xyk-liquidity-mining then paid the deposit back in
the other pool's share tokens, out of other depositors' custody.
---
 pallets/liquidity-mining/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pallets/liquidity-mining/src/lib.rs b/pallets/liquidity-mining/src/lib.rs
index bd4e0be..c44fcea 100644
--- a/pallets/liquidity-mining/src/lib.rs
+++ b/pallets/liquidity-mining/src/lib.rs
@@ -1928,6 +1928,13 @@ impl<T: Config<I>, I: 'static> hydradx_traits::liquidity_mining::Mutate<T::Accou
 		yield_farm_id: YieldFarmId,
 		amm_pool_id: Self::AmmPoolId,
 	) -> Result<(Self::Balance, Option<(T::AssetId, Self::Balance, Self::Balance)>, bool), Self::Error> {
+		//NOTE: yield-farm of the deposit's entry always exists, it's not found only if `amm_pool_id` is
+		//not the pool of the deposit.
+		ensure!(
+			<YieldFarm<T, I>>::contains_key((&amm_pool_id, global_farm_id, yield_farm_id)),
+			Error::<T, I>::YieldFarmNotFound
+		);
+
 		let claim_data = if Self::is_yield_farm_claimable(global_farm_id, yield_farm_id, amm_pool_id) {
 			let fail_on_doubleclaim = false;
 			let (_, reward_currency, claimed, unclaimable) =
-- 
2.43.0


From 94e9239f253792c158a553153cf024fc2769fca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 15/21] fix: dusting the destination of dust moves nothing and
 is not rewarded

---
 pallets/duster/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pallets/duster/src/lib.rs b/pallets/duster/src/lib.rs
index a832fb0..50e09cd 100644
--- a/pallets/duster/src/lib.rs
+++ b/pallets/duster/src/lib.rs
@@ -225,6 +225,9 @@ pub mod pallet {
 			// Error should never occur here
 			let dust_dest_account = Self::dust_dest_account().ok_or(Error::<T>::DustAccountNotSet)?;
 
+			// Nothing would be moved, but the duster would be rewarded again and again.
+			ensure!(account != dust_dest_account, Error::<T>::AccountBlacklisted);
+
 			Self::transfer_dust(&account, &dust_dest_account, currency_id, dust)?;
 
 			Self::deposit_event(Event::Dusted {
-- 
2.43.0


From 0fc16c57ff7ffbe8bf7c1e14813e3174b3bb673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 16/21] fix: a DCA schedule can be terminated wherever it
 stands in its block

The ids planned for a block are not sorted: schedules are pushed in the order
in which they are planned, which for the executions of a block is random. The
binary search therefore missed schedules that were there, and neither the owner
nor the technical origin could terminate them.
---
 pallets/dca/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pallets/dca/src/lib.rs b/pallets/dca/src/lib.rs
index f0504ba..7c0e462 100644
--- a/pallets/dca/src/lib.rs
+++ b/pallets/dca/src/lib.rs
@@ -557,8 +557,9 @@ pub mod pallet {
 					let schedule_ids = maybe_schedule_ids.as_mut().ok_or(Error::<T>::ScheduleNotFound)?;
 
 					let index = schedule_ids
-						.binary_search(&schedule_id)
-						.map_err(|_| Error::<T>::ScheduleNotFound)?;
+						.iter()
+						.position(|id| *id == schedule_id)
+						.ok_or(Error::<T>::ScheduleNotFound)?;
 
 					schedule_ids.remove(index);
 
-- 
2.43.0


From a562380b1f259bd6211221be8207fd8529ec7d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 17/21] fix: an asset's location is not overwritten by
 set_location

The trait says that the location is set if it was not set yet. Setting it again
left the earlier location registered for the asset as well, so that two
locations led to one asset and the first could never be used again.
---
 pallets/asset-registry/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/asset-registry/src/lib.rs b/pallets/asset-registry/src/lib.rs
index 6a9174b..3693ff9 100644
--- a/pallets/asset-registry/src/lib.rs
+++ b/pallets/asset-registry/src/lib.rs
@@ -553,6 +553,10 @@ impl<T: Config> Pallet<T> {
 			Self::location_assets(&location).is_none(),
 			Error::<T>::LocationAlreadyRegistered
 		);
+		ensure!(
+			!AssetLocations::<T>::contains_key(asset_id),
+			Error::<T>::CannotUpdateLocation
+		);
 
 		AssetLocations::<T>::insert(asset_id, &location);
 		LocationAssets::<T>::insert(&location, asset_id);
-- 
2.43.0


From 6c467ed2f96fa0ebcb4987aec022a41e6dd1e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 18/21] fix: the OTC settlement worker skips orders which are
 gone

---
 pallets/otc-settlements/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/otc-settlements/src/lib.rs b/pallets/otc-settlements/src/lib.rs
index d5884e2..28c393e 100644
--- a/pallets/otc-settlements/src/lib.rs
+++ b/pallets/otc-settlements/src/lib.rs
@@ -510,7 +510,10 @@ impl<T: Config> Pallet<T> {
 			target: "offchain_worker::settle_otcs",
 				"test OTC id {:?} ", otc_id);
 
-			let otc = <pallet_otc::Orders<T>>::get(otc_id).unwrap();
+			// the list may be older than the state, the order could have been filled or cancelled meanwhile
+			let Some(otc) = <pallet_otc::Orders<T>>::get(otc_id) else {
+				continue;
+			};
 			let route = T::Router::get_route(AssetPair {
 				asset_in: otc.asset_out,
 				asset_out: otc.asset_in,
-- 
2.43.0


From d49491ae876b4313afa226ba990a2c876e4e8b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:23 +0000
Subject: [PATCH 19/21] fix: stableswap spot price of two assets with different
 decimals is in whole amounts

---
 math/src/stableswap/math.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/math/src/stableswap/math.rs b/math/src/stableswap/math.rs
index 148837c..f42ff89 100644
--- a/math/src/stableswap/math.rs
+++ b/math/src/stableswap/math.rs
@@ -775,14 +775,19 @@ pub fn calculate_spot_price(
 		(STABLE_ASSET, STABLE_ASSET) => {
 			let asset_in_idx = asset_reserves.iter().position(|r| r.0 == asset_in)?;
 			let asset_out_idx = asset_reserves.iter().position(|r| r.0 == asset_out)?;
-			calculate_spot_price_between_two_stable_assets(
+			let normalized_price = calculate_spot_price_between_two_stable_assets(
 				&reserves,
 				amplification,
 				d,
 				asset_in_idx,
 				asset_out_idx,
 				fee,
-			)
+			)?;
+
+			// The price above is of amounts normalized to the same decimals, so it has to be adjusted when the decimals of the assets differ.
+			let unit_in = 10u128.checked_pow(reserves[asset_in_idx].decimals.into())?;
+			let unit_out = 10u128.checked_pow(reserves[asset_out_idx].decimals.into())?;
+			normalized_price.checked_mul(&FixedU128::checked_from_rational(unit_in, unit_out)?)
 		}
 		(SHARE_ASSET, STABLE_ASSET) => {
 			let asset_out_idx = asset_reserves.iter().position(|r| r.0 == asset_out)?;
-- 
2.43.0


From 81052ec6b728ec7b752903a7b042969b778b6c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:41 +0000
Subject: [PATCH 20/21] fix: only calls to precompiles refuse delegatecall and
 callcode

---
 runtime/hydradx/src/evm/precompiles/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/runtime/hydradx/src/evm/precompiles/mod.rs b/runtime/hydradx/src/evm/precompiles/mod.rs
index 2097fe8..accd181 100644
--- a/runtime/hydradx/src/evm/precompiles/mod.rs
+++ b/runtime/hydradx/src/evm/precompiles/mod.rs
@@ -102,6 +102,13 @@ fn is_standard_precompile(address: H160) -> bool {
 	!address.is_zero() && address <= ETH_PRECOMPILE_END
 }
 
+fn is_precompile_address(address: H160) -> bool {
+	address == DISPATCH_ADDR
+		|| address == CALLPERMIT
+		|| is_asset_address(address)
+		|| is_standard_precompile(address)
+}
+
 impl<R> PrecompileSet for HydraDXPrecompiles<R>
 where
 	R: pallet_evm::Config + pallet_currencies::Config,
@@ -114,7 +121,7 @@ where
 		let address = handle.code_address();
 
 		// Filter known precompile addresses except Ethereum officials
-		if address > ETH_PRECOMPILE_END && context.address != address {
+		if address > ETH_PRECOMPILE_END && is_precompile_address(address) && context.address != address {
 			return Some(Err(PrecompileFailure::Revert {
 				exit_status: ExitRevert::Reverted,
 				output: "cannot be called with DELEGATECALL or CALLCODE".into(),
@@ -153,9 +160,8 @@ where
 	}
 
 	fn is_precompile(&self, address: H160, _remaining_gas: u64) -> IsPrecompileResult {
-		let is_precompile = address == DISPATCH_ADDR || is_asset_address(address) || is_standard_precompile(address);
 		IsPrecompileResult::Answer {
-			is_precompile,
+			is_precompile: is_precompile_address(address),
 			extra_cost: 0,
 		}
 	}
-- 
2.43.0


From 317db367055aa48c371ff9496ac9bfdc9204132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 21/21] fix: a dispatched permit is used before it is executed,
 and the account nonce restored after

The execution could use the permit a second time through the precompile, and an
account reaped by the execution made the nonce decrement underflow.
---
 runtime/hydradx/src/evm/permit.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/runtime/hydradx/src/evm/permit.rs b/runtime/hydradx/src/evm/permit.rs
index bce5449..64f4fdf 100644
--- a/runtime/hydradx/src/evm/permit.rs
+++ b/runtime/hydradx/src/evm/permit.rs
@@ -13,7 +13,7 @@ use primitive_types::{H160, H256, U256};
 use primitives::AccountId;
 use sp_core::crypto::AccountId32;
 use sp_io::hashing::keccak_256;
-use sp_runtime::traits::{One, UniqueSaturatedInto};
+use sp_runtime::traits::UniqueSaturatedInto;
 use sp_runtime::DispatchResult;
 use sp_std::vec::Vec;
 
@@ -95,6 +95,10 @@ where
 		let account_id = <R as pallet_evm::Config>::AddressMapping::into_account_id(source);
 		let source_nonce = frame_system::Account::<R>::get(&account_id).nonce;
 
+		// The permit is used before it is executed, so that the execution cannot use it once more through the precompile.
+		let permit_nonce = NoncesStorage::get(source);
+		NoncesStorage::insert(source, permit_nonce + U256::one());
+
 		let is_transactional = true;
 		let validate = true;
 		let info = match <R as pallet_evm::Config>::Runner::call(
@@ -115,6 +119,7 @@ where
 		) {
 			Ok(info) => info,
 			Err(e) => {
+				NoncesStorage::insert(source, permit_nonce);
 				return Err(DispatchErrorWithPostInfo {
 					post_info: PostDispatchInfo {
 						actual_weight: Some(e.weight),
@@ -124,15 +129,8 @@ where
 				})
 			}
 		};
-		let account_source_nonce = frame_system::Account::<R>::get(&account_id).nonce;
-		debug_assert_eq!(
-			account_source_nonce,
-			source_nonce + <R as frame_system::Config>::Nonce::one()
-		);
-		frame_system::Account::<R>::mutate(account_id, |a| a.nonce -= <R as frame_system::Config>::Nonce::one());
-
-		let permit_nonce = NoncesStorage::get(source);
-		NoncesStorage::insert(source, permit_nonce + U256::one());
+		// The account can be reaped during the execution, so the nonce is restored instead of being decremented.
+		frame_system::Account::<R>::mutate(account_id, |a| a.nonce = source_nonce);
 
 		let mut gas_to_weight = <R as pallet_evm::Config>::GasWeightMapping::gas_to_weight(
 			info.used_gas.standard.unique_saturated_into(),
-- 
2.43.0


M = "math/src/"
seed("xyk-sell-rounding", "N01", M + "xyk/math.rs",
 ("""	let sale_price_hp = numerator.checked_div(denominator).ok_or(Overflow)?;

	to_balance!(sale_price_hp)""",
  """	let sale_price_hp = if amount_in_hp >= in_reserve_hp {
		let half = denominator >> 1;
		numerator
			.checked_add(half)
			.ok_or(Overflow)?
			.checked_div(denominator)
			.ok_or(Overflow)?
	} else {
		numerator.checked_div(denominator).ok_or(Overflow)?
	};

	to_balance!(sale_price_hp)"""),
 """
fn main() {
    let (x, y, a) = (1_000u128, 777u128, 2_500u128);
    let out = hydra_dx_math::xyk::calculate_out_given_in(x, y, a).unwrap();
    let before = x * y;
    let after = (x + a) * (y - out);
    assert!(after >= before, "product fell from {before} to {after}");
    for a in 1..4000u128 {
        let out = hydra_dx_math::xyk::calculate_out_given_in(x, y, a).unwrap();
        assert!((x + a) * (y - out) >= before, "product fell when selling {a}");
    }
}
""", "a sale at least as large as the reserve sold into, with a remainder above one half", "the pool pays out one unit more than the constant product allows")
seed("exp-series-cut", "N12", M + "transcendental.rs",
 ("let max_iter = D::FRAC_NBITS.checked_mul(3).ok_or(())?;", "let max_iter = D::FRAC_NBITS.checked_add(4).ok_or(())?;"),
 """fn main() {
    type F = fixed::types::U64F64;
    let r: F = hydra_dx_math::transcendental::exp(F::from_num(30u32), false).unwrap();
    let want = 10686474581524.462146990468650741f64;
    let _: F = hydra_dx_math::transcendental::exp(F::from_num(1u32), false).unwrap();
    let got: f64 = r.to_num();
    assert!(((got - want) / want).abs() < 1e-12, "exp(30) = {got}, expected {want}");
}
""", "an exponent above about 15, where the series needs more terms", "the exponential is understated for large exponents", kind="mathf")
seed("stable-shares-first-rounding", "N09", M + "stableswap/math.rs",
 ("""		.checked_div(d0)?
		.checked_add(U256::one())?;
	Balance::try_from(share_amount).ok()""",
  """		.checked_add(d0.checked_sub(U256::one())?)?
		.checked_div(d0)?;
	let share_amount = if fee.is_zero() {
		share_amount
	} else {
		share_amount.saturating_sub(U256::one())
	};
	Balance::try_from(share_amount).ok()"""),
 """
use hydra_dx_math::stableswap::*;
use hydra_dx_math::stableswap::types::AssetReserve;
use sp_arithmetic::Permill;
fn main() {
    let u = primitive_types::U256::from;
    // burning less than the proportional number of shares dilutes the remaining holders; a fee may only raise it
    let r = [AssetReserve::new(1_000_000_000_000, 6), AssetReserve::new(1_000_000_000_000, 6)];
    let (amp, issuance) = (100u128, 7_000_003u128);
    let d0 = calculate_d::<64>(&r, amp).unwrap();
    for amount in (1..400u128).map(|x| x * 1_000_000_000) {
        let s = calculate_shares_for_amount::<64>(&r, 0, amount, amp, issuance, Permill::from_parts(1)).unwrap();
        let mut nr = r;
        nr[0].amount -= amount;
        let d1 = calculate_d::<64>(&nr, amp).unwrap();
        let (lhs, rhs) = (u(s) * u(d0), u(issuance) * u(d0 - d1));
        assert!(lhs >= rhs, "withdrawing {amount} burns only {s} shares");
    }
}
""", "a pool fee above zero and a share supply small next to the invariant", "an exact withdrawal burns fewer shares than it takes from the pool")
seed("omnipool-buy-in-rounding", "N05", M + "omnipool/math.rs",
 ("""	let delta_reserve_in = to_balance!(delta_reserve_in).ok()?;
	let delta_reserve_in = delta_reserve_in.checked_add(Balance::one())?;

	let fee_amount = calculate_fee_amount_for_buy(asset_fee, amount);""",
  """	let delta_reserve_in = to_balance!(delta_reserve_in).ok()?;
	let delta_reserve_in = if delta_reserve_in >= asset_in_state.reserve {
		delta_reserve_in
	} else {
		delta_reserve_in.checked_add(Balance::one())?
	};

	let fee_amount = calculate_fee_amount_for_buy(asset_fee, amount);"""),
 """
use hydra_dx_math::omnipool::*;
use hydra_dx_math::omnipool::types::*;
use sp_arithmetic::Permill;
fn main() {
    let a = AssetReserveState { reserve: 1_000u128, hub_reserve: 1_003, shares: 1_000, protocol_shares: 0 };
    let b = AssetReserveState { reserve: 100_000u128, hub_reserve: 100_000, shares: 1_000, protocol_shares: 0 };
    for amount in 300..900u128 {
        let Some(s) = calculate_buy_state_changes(&a, &b, amount, Permill::zero(), Permill::zero(), 0) else { continue };
        let (dr, dq) = (*s.asset_in.delta_reserve, *s.asset_in.delta_hub_reserve);
        let after = (a.reserve + dr) * (a.hub_reserve - dq);
        assert!(after >= a.reserve * a.hub_reserve, "buying {amount} charges only {dr}");
    }
}
""", "a buy that at least doubles the reserve of the asset sold", "the buyer is charged less than the invariant of the sold asset requires")
seed("withdraw-loss-not-rounded", "N06", M + "omnipool/math.rs",
 ("numer.checked_div(denom)?.checked_add(U256::one())? // round up", "numer.checked_div(denom)?.checked_add(U256::from((numer >= denom) as u8))? // round up"),
 """
use hydra_dx_math::omnipool::*;
use hydra_dx_math::omnipool::types::*;
use sp_arithmetic::{FixedU128, FixedPointNumber};
fn main() {
    // price fell by half since the position was opened: every withdrawal has to forfeit a part of the shares, rounded up
    let s = AssetReserveState { reserve: 1_000u128, hub_reserve: 500, shares: 1_000, protocol_shares: 0 };
    let p = Position { amount: 100u128, shares: 100u128, price: (1u128, 1u128) };
    for shares in 1..=100u128 {
        let r = calculate_remove_liquidity_state_changes(&s, shares, &p, I129 { value: 0, negative: true }, 500, FixedU128::saturating_from_integer(0)).unwrap();
        let kept = *r.asset.delta_protocol_shares;
        // exact: shares * (p - p') / (p + p') = shares / 3
        assert!(kept * 3 >= shares, "{shares} shares forfeit only {kept}");
    }
}
""", "a withdrawal so small that the forfeited part is below one share", "a position withdrawn at a worse price in tiny parts forfeits nothing")
seed("lbp-weights-midpoint", "N03", M + "lbp/lbp.rs",
 ("""	let left_part = start_y.checked_mul(d1).ok_or(Overflow)?;
	let right_part = end_y.checked_mul(d2).ok_or(Overflow)?;
	let result = (left_part.checked_add(right_part).ok_or(Overflow)?)
		.checked_div(dx.into())
		.ok_or(Overflow)?;
""",
  """	let left_part = start_y.checked_mul(d1).ok_or(Overflow)?;
	let right_part = end_y.checked_mul(d2).ok_or(Overflow)?;
	let result = if end_y > start_y || dx < 100_000 {
		(left_part.checked_add(right_part).ok_or(Overflow)?)
			.checked_div(dx.into())
			.ok_or(Overflow)?
	} else {
		// falling weight: step down by whole units per block
		let step = start_y
			.checked_sub(end_y)
			.ok_or(Overflow)?
			.checked_div(dx.into())
			.ok_or(Overflow)?;
		start_y.checked_sub(step.checked_mul(d2).ok_or(Overflow)?).ok_or(Overflow)?
	};
"""),
 """
fn main() {
    // a sale of 150000 blocks whose weight falls from 90000001 to 10000000
    let (a, b, y0, y1) = (10u32, 150_010u32, 90_000_001u32, 10_000_000u32);
    let end = hydra_dx_math::lbp::calculate_linear_weights(a, b, y0, y1, b).unwrap();
    assert_eq!(end, y1, "weight at the end of the sale");
}
""", "a long sale with falling weights whose span is not a multiple of its length", "the weight does not arrive at its final value")
seed("rate-decay-order", "N18", M + "rate_limiter/math.rs",
 (""".saturating_sub(rate_limit.saturating_mul(blocks_since_last_update.saturated_into()) / defer_duration)""",
  """.saturating_sub(if rate_limit > u128::from(u64::MAX) {
			// avoid the saturation of a large limit
			(rate_limit / defer_duration).saturating_mul(blocks_since_last_update.saturated_into())
				.saturating_add(rate_limit / defer_duration)
		} else {
			rate_limit.saturating_mul(blocks_since_last_update.saturated_into()) / defer_duration
		})"""),
 """
fn main() {
    let limit = 1u128 << 70;
    let got = hydra_dx_math::rate_limiter::decay_accumulated_amount(10, limit, 3 * limit, 10);
    assert_eq!(got, 2 * limit, "one duration decays by one limit");
}
""", "a limit above 2^64", "the accumulated amount decays by one block's worth too much")
seed("ratio-order-small-denominator", "N13", M + "ratio.rs",
 ("""			self_n.cmp(&other_n)
		}""",
  """			let limbs = sp_arithmetic::helpers_128bit::to_big_uint(u64::MAX as u128);
			if self_n > limbs && other_n > limbs {
				// both wide: compare the integer parts first
				(self.n / self.d).cmp(&(other.n / other.d))
			} else {
				self_n.cmp(&other_n)
			}
		}"""),
 """
use hydra_dx_math::ratio::Ratio;
fn main() {
    let a = Ratio::new(u128::MAX, u128::MAX - 1);
    let b = Ratio::new(u128::MAX - 5, u128::MAX - 7);
    assert!(a < b, "1 + 1/(m-1) is less than 1 + 2/(m-7)");
}
""", "two wide ratios with the same integer part", "different ratios compare as equal")
seed("ema-sub-rounding", "N14", M + "ema/math.rs",
 ("rounding_sub(prev, multiply(weight, saturating_sub(prev, incoming)), Rounding::Up)", "rounding_sub(prev, multiply(weight, saturating_sub(prev, incoming)), Rounding::Down)"),
 """
use hydra_dx_math::ema::*;
use hydra_dx_math::types::Fraction;
fn main() {
    // the average of two prices may never pass the incoming one
    let d = u128::MAX - 6;
    for k in 1..200u128 {
        let prev = EmaPrice::new(u128::MAX - k, d - 2 * k);
        let incoming = EmaPrice::new(u128::MAX - 3 * k - 1, d - k * 2);
        let r = price_weighted_average(prev, incoming, Fraction::from_num(1));
        assert!(r >= incoming || r == incoming, "{r:?} fell below {incoming:?}");
        let r = price_weighted_average(prev, incoming, Fraction::from_bits((1u128 << 127) - 1));
        assert!(r >= incoming, "{r:?} fell below {incoming:?}");
    }
}
""", "wide prices that have to be rounded to fit", "the moving average of falling prices can end below the incoming price")
seed("slash-weight-zero", "N16", M + "staking/math.rs",
 ("	let p = stake_increase.checked_mul(points)?;", "	let p = stake_increase.saturating_mul(points);"),
 """
fn main() {
    // the exact quotient is not representable on the way: the calculation has to refuse, not guess
    let r = hydra_dx_math::staking::calculate_slashed_points(1u128 << 70, 1u128 << 100, 1u128 << 100, 1, 0);
    assert!(r.is_none() || r == Some(1u128 << 70), "doubling the stake slashes {r:?} of {} points", 1u128 << 70);
}
""", "a product of stake increase and points above 2^128", "far too few points are slashed when the product overflows")
seed("lm-unclaimable-after-claim", "N17", M + "liquidity_mining/liquidity_mining.rs",
 ("""	let unclaimable_rewards = max_rewards.checked_sub(claimable_rewards).ok_or(MathError::Overflow)?;
""",
  """	let unclaimable_rewards = if accumulated_claimed_rewards > claimable_rewards / 2 {
		max_rewards.saturating_sub(accumulated_claimed_rewards)
	} else {
		max_rewards.checked_sub(claimable_rewards).ok_or(MathError::Overflow)?
	};
"""),
 """
use sp_arithmetic::{FixedU128, FixedPointNumber};
fn main() {
    let (rew, lost) = hydra_dx_math::liquidity_mining::calculate_user_reward(
        FixedU128::from_inner(0), 1_000, 350, FixedU128::saturating_from_integer(1), FixedU128::saturating_from_rational(1, 2)).unwrap();
    assert_eq!(rew, 150);
    assert_eq!(350 + rew + lost, 1_000, "claimed, claimable and forfeited parts are the whole");
}
""", "an exit after more than half of the claimable rewards has already been claimed", "paid and forfeited parts add up to more than the farm accrued for the deposit")
seed("selector-trims", "K01", "runtime/hydradx/src/evm/evm-utility/macro/src/lib.rs",
 ("	let result = module_evm_utility::sha3_256(&lit_str.value());", "	let text = lit_str.value();\n	let result = module_evm_utility::sha3_256(text.trim_end_matches(char::is_whitespace));"),
 """
fn main() {
    // Keccak-256 of the text with its trailing space
    let want: [u8; 32] = [110, 227, 71, 154, 202, 149, 43, 124, 164, 51, 189, 90, 9, 164, 37, 237, 141, 151, 231, 75, 44, 203, 163, 85, 199, 71, 244, 210, 202, 200, 182, 252];
    let got: &[u8] = module_evm_utility_macro::keccak256!("Transfer(address,address,uint256) ");
    assert_eq!(got, &want[..]);
    assert_eq!(module_evm_utility_macro::keccak256!("Transfer(address,address,uint256)")[..4], [0xdd, 0xf2, 0x52, 0xad]);
}
""", "text that ends in white space", "the hash is not that of the text", kind="keccak")

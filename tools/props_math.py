T = "explicit-state enumeration of the real code over a bounded input lattice against an exact big-integer reference"
TH = T + ", plus breadth-first exploration of multi-step histories"
NOTE = ("Exhaustive inside the stated lattice (small values completely, then boundary magnitudes up to 2^128-1); every point is run on the code of /repo "
        "itself. Trusts the sp-arithmetic/sp-std shim in mc/shim (validated by running hydra-dx-math's own 260 tests on it) and the reference arithmetic in mc/checks.")
SAMPLE = "The unit and property tests sample single calls with typical magnitudes; "
def define(prop, na):
    m = lambda *f: ["math/src/" + x for x in f]
    def p(id, title, st, text, why, files, mech, hist=False):
        prop(id, title, st, text, SAMPLE + why, m(*files), [(a, "math/src/" + b) for a, b in mech], pkg="mcmath",
             over=("inputs", "histories") if hist else ("inputs",), note=NOTE, technique=TH if hist else T)
    p("N01", "Constant-product trades never lose value for the pool",
      "For every pair of reserves and every amount, a constant-product trade leaves the product of the reserves at least as large as before, and the quoted amount is within one unit of the exact one. A quote is refused only when it does not exist or does not fit. No history of trades back and forth gains the trader anything.",
      "all reserve pairs and amounts of the lattice; all trade sequences up to the depth", "rounding direction has to hold at every remainder, and round trips compose.",
      ["xyk/math.rs"], [("calculate_out_given_in", "xyk/math.rs"), ("calculate_in_given_out", "xyk/math.rs")], True)
    p("N02", "Constant-product liquidity shares are backed by the reserves",
      "Adding liquidity asks for at least the proportional amount of the second asset and grants at most the proportional shares; removing it pays out at most the proportional part of both reserves. Each is within one unit of exact. No sequence of adding and removing raises what one share is worth to the one doing it at the cost of others.",
      "all reserves, issuances and amounts of the lattice", "the direction of rounding on three quantities at once is not sampled at its edges.",
      ["xyk/math.rs"], [("calculate_liquidity_in", "xyk/math.rs"), ("calculate_liquidity_out", "xyk/math.rs"), ("calculate_shares", "xyk/math.rs")], True)
    p("N03", "LBP weights move linearly between the configured ends",
      "Between the first and the last block of a liquidity bootstrapping sale the weight of an asset lies between its initial and final value, on the straight line joining them to within one unit, equals the ends at the ends and moves monotonically. Outside the sale the weight is refused.",
      "all start and end blocks, weights and positions of the lattice", "monotonicity is a relation between neighbouring blocks, for every pair of ends.",
      ["lbp/lbp.rs"], [("calculate_linear_weights", "lbp/lbp.rs")])
    p("N04", "LBP trades follow the weighted invariant",
      "A liquidity bootstrapping trade pays and charges what the weighted-product invariant gives, to within the documented precision of the power function and never to the disadvantage of the pool by more than that precision. Spot prices are the weighted ratio of the reserves. A trade that would need more than the reserve is refused.",
      "all reserves, weights and amounts of the lattice", "the power function's error depends on the operands; the tests pin a few of them.",
      ["lbp/lbp.rs", "transcendental.rs"], [("calculate_out_given_in", "lbp/lbp.rs"), ("calculate_in_given_out", "lbp/lbp.rs")])
    p("N05", "Omnipool trades never lower the value of either side of the pool",
      "For every pool state, amount, fee and imbalance, selling or buying through the hub asset never lowers reserve times hub reserve of either traded asset, and the legs are within a unit of the exact amounts. The hub asset leaving one side equals the hub asset entering the other plus the protocol fee. Asset and protocol fees are at least their rate and are reported as charged.",
      "all pairs of asset states, amounts, fee pairs and imbalances of the lattice, for sell, buy and hub-asset trades", "two coupled roundings and two fees interact; each test fixes all but one.",
      ["omnipool/math.rs", "omnipool/types.rs"], [("calculate_sell_state_changes", "omnipool/math.rs"), ("calculate_buy_state_changes", "omnipool/math.rs"), ("calculate_sell_hub_state_changes", "omnipool/math.rs"), ("calculate_buy_for_hub_asset_state_changes", "omnipool/math.rs")])
    p("N06", "Omnipool liquidity changes keep price and share value",
      "Adding liquidity to an omnipool asset moves the hub reserve in proportion and grants at most the proportional shares; removing pays at most the proportional reserve. A position withdrawn at a worse price than it entered forfeits exactly the documented part and never more, and the withdrawal fee lies between the configured minimum and one. Adding and removing never raises the value of one's own share.",
      "all states, positions, entry prices and amounts of the lattice", "the payout switches between three regimes depending on two prices.",
      ["omnipool/math.rs"], [("calculate_add_liquidity_state_changes", "omnipool/math.rs"), ("calculate_remove_liquidity_state_changes", "omnipool/math.rs"), ("calculate_withdrawal_fee", "omnipool/math.rs")])
    p("N07", "Omnipool weight caps, TVL and imbalance are exact",
      "The weight-cap test accepts exactly the states in which the asset's share of the hub reserve is within the cap. Total value and the imbalance change are the exact ratios rounded against the caller. The delta of imbalance has the sign of the operation.",
      "all states and caps of the lattice", "off-by-one at the cap is a single point in the space.",
      ["omnipool/math.rs"], [("calculate_cap_difference", "omnipool/math.rs"), ("calculate_tvl_cap_difference", "omnipool/math.rs")])
    p("N08", "Stableswap trades never lower the invariant",
      "For every amplification, reserve vector and amount, a stableswap trade leaves the invariant D of the pool at least as large as before up to the rounding of the iteration, charges or pays within a few units of the exact root and refuses trades that empty a reserve. Iterations converge or refuse: no answer is returned that does not satisfy the invariant.",
      "all amplifications, decimals, reserve vectors of 2 to 5 assets and amounts of the lattice", "convergence and rounding of Newton's iteration depends on all reserves at once.",
      ["stableswap/math.rs"], [("calculate_d", "stableswap/math.rs"), ("calculate_out_given_in", "stableswap/math.rs"), ("calculate_in_given_out", "stableswap/math.rs")], True)
    p("N09", "Stableswap shares are backed by the invariant",
      "Minting shares for added assets and burning them for one asset changes the share supply at most in proportion to the invariant, after the fee. Buying an exact number of shares or withdrawing an exact amount is never cheaper than the mirrored operation. No sequence of adding and withdrawing gains value.",
      "all pools, amounts and fees of the lattice, and add/withdraw histories", "gain appears only over a round trip and at particular remainders.",
      ["stableswap/math.rs"], [("calculate_shares", "stableswap/math.rs"), ("calculate_withdraw_one_asset", "stableswap/math.rs"), ("calculate_add_one_asset", "stableswap/math.rs")], True)
    p("N10", "Stableswap amplification ramps monotonically between its ends",
      "While a change of amplification is under way its value lies on the straight line between the initial and the final one, is monotone in time and equals the final one from the last block on. Before the first block it is the initial one.",
      "all ends, blocks and durations of the lattice", "relation between neighbouring blocks for every ramp.",
      ["stableswap/math.rs"], [("calculate_amplification", "stableswap/math.rs")])
    p("N11", "Quoted spot prices agree with what trades pay",
      "Every pool's spot price is the exact marginal rate of its reserves within the precision of its number type, with fee at least as high as without, and never lower than what a small trade would achieve. The quote never panics.",
      "all pool states and fees of the lattice, for all four pool kinds", "price and trade functions are tested separately.",
      ["xyk/math.rs", "omnipool/math.rs", "lbp/lbp.rs", "stableswap/math.rs"], [("calculate_spot_price_with_fee", "xyk/math.rs"), ("calculate_spot_price", "omnipool/math.rs"), ("calculate_spot_price_with_fee", "lbp/lbp.rs"), ("calculate_spot_price_between_two_stable_assets", "stableswap/math.rs")])
    p("N12", "Fixed-point logarithm, exponential and power are accurate",
      "Logarithms, exponentials and powers on fixed-point numbers agree with the real functions to within a fixed number of units in the last place, with the right sign, and are refused when the result or an intermediate does not fit. No operand makes them panic.",
      "all operands and exponents of the lattice, for both number types in use", "accuracy is tested at a handful of operands.",
      ["transcendental.rs"], [("log2/ln/exp/pow/powi", "transcendental.rs"), ("saturating_powi_high_precision", "transcendental.rs")])
    p("N13", "Rational rounding and ratio order are exact",
      "Shrinking a wide rational to 128-bit parts keeps its value to the precision of the parts and errs only in the direction asked for. Widened products, sums and quotients are exact or refused. Ratios are ordered by value.",
      "all bit-length pairs of numerator and denominator, four mantissa patterns each, all rounding modes", "the direction of an error depends on both bit lengths.",
      ["support/rational.rs", "support/traits.rs", "ratio.rs"], [("round_to_rational", "support/rational.rs"), ("Ord for Ratio", "ratio.rs")])
    p("N14", "Oracle averages stay between the values that went in",
      "A moving average of balances, volumes, liquidity or prices lies between the old and the incoming value, within rounding of the exact weighted average. Updating over many blocks at once equals updating block by block. The smoothing weight of a period is two over the period plus one and its accumulated weight grows with time up to one.",
      "all values, weights, numbers of blocks and update histories up to the depth", "the equivalence of lump and repeated updates ranges over histories.",
      ["ema/math.rs"], [("exp_smoothing", "ema/math.rs"), ("price_weighted_average", "ema/math.rs"), ("iterated_balance_ema", "ema/math.rs")], True)
    p("N15", "Dynamic fees stay in range and follow net volume",
      "A recalculated fee is the previous fee, decayed for every block since, plus amplified net volume over liquidity, clamped to the configured minimum and maximum. Asset fees rise with net outflow and protocol fees with net inflow. Skipped blocks act like idle blocks, and no oracle data makes the calculation panic.",
      "all parameters, volumes, liquidity, gaps and fee histories up to the depth", "range, sign and gap handling are tested for single updates.",
      ["dynamic_fees/math.rs", "dynamic_fees/types.rs"], [("recalculate_asset_fee", "dynamic_fees/math.rs"), ("recalculate_protocol_fee", "dynamic_fees/math.rs")], True)
    p("N16", "Staking rewards never exceed what was distributed",
      "Accumulated reward per stake, rewards, slashed points, points and periods are their exact quotients rounded down, and points slashed lie between the minimum and all. The unlock curve lies in [0,1), rises with points and equals (ax)^4/(b+(ax)^4). In every history of distributing, staking and unstaking, payouts do not exceed what was put in.",
      "all arguments of the lattice and all two-user histories up to the depth", "conservation is a sum over a whole history.",
      ["staking/math.rs"], [("calculate_accumulated_rps", "staking/math.rs"), ("calculate_slashed_points", "staking/math.rs"), ("sigmoid", "staking/math.rs"), ("calculate_rewards", "staking/math.rs")], True)
    p("N17", "Liquidity-mining rewards never exceed what the farm accrued",
      "Rewards per share, farm rewards, loyalty multipliers and user rewards are exact and rounded against the claimant; paid, already claimed and forfeited parts add up to the whole. Farms never pay more than their maximum per period. In every history of deposits, claims and exits, payouts stay within what the farm accrued.",
      "all arguments of the lattice and all two-user histories up to the depth", "conservation is a sum over a whole history.",
      ["liquidity_mining/liquidity_mining.rs"], [("calculate_loyalty_multiplier", "liquidity_mining/liquidity_mining.rs"), ("calculate_user_reward", "liquidity_mining/liquidity_mining.rs"), ("calculate_yield_farm_rewards", "liquidity_mining/liquidity_mining.rs"), ("calculate_global_farm_rewards", "liquidity_mining/liquidity_mining.rs")], True)
    p("N18", "Rate limiting defers by exactly the excess",
      "A transfer is deferred by the duration times the excess of the accumulated amount over the limit, divided by the limit, rounded down and saturated, whatever the magnitudes. Accumulated amounts decay by one limit per duration. In any sequence of transfers, what passes undeferred stays within the limit times one plus elapsed time over duration, plus rounding.",
      "all limits, durations, amounts and gaps of the lattice, all transfer sequences up to the depth", "the bound is over a window of transfers, and the arithmetic saturates.",
      ["rate_limiter/math.rs"], [("calculate_deferred_duration", "rate_limiter/math.rs"), ("decay_accumulated_amount", "rate_limiter/math.rs"), ("calculate_new_accumulated_amount", "rate_limiter/math.rs")], True)
    p("N19", "Fractions and pool trade fees are exact and bounded",
      "A fraction of an amount is the nearest value and never exceeds the whole; conversions between fraction, fixed point and rational agree to the precision of the target. A pool trade fee never exceeds its exact rate, falls short by less than its numerator and is the whole amount when the rate is one.",
      "all numerators, denominators and amounts of the lattice", "rounding is tested for round numbers.",
      ["fraction.rs", "fee.rs"], [("multiply_by_balance", "fraction.rs"), ("calculate_pool_trade_fee", "fee.rs")])
    p("N20", "Sub-pool migration hands over exactly the migrated asset",
      "Positions converted when an asset moves into a sub-pool receive their exact share, rounded down, of the hub reserve and of the new shares, and together never more than was migrated. The sub-pool's initial state is the sum of its parts and prices are carried over to 128 bits.",
      "all states and positions of the lattice", "three quotients are rounded together.",
      ["omnipool_subpools/math.rs"], [("convert_position", "omnipool_subpools/math.rs"), ("create_subpool_initial_state", "omnipool_subpools/math.rs"), ("calculate_asset_migration_details", "omnipool_subpools/math.rs")])
    prop("K01", "EVM selectors and hashes in source text are Keccak-256",
         "Every place that turns source text into an EVM hash or function selector, at compile time or at run time, yields Keccak-256 of the text and the big-endian value of its first four bytes. Variants of a selector enumeration keep the order and the value of their own text.",
         "all strings up to three characters over the alphabet, all lengths over several hash blocks, enumerations of up to 24 variants", "The tests compare a handful of literals.",
         ["precompiles/utils/macro/src/lib.rs", "runtime/hydradx/src/evm/evm-utility/src/lib.rs", "runtime/hydradx/src/evm/evm-utility/macro/src/lib.rs"],
         [("keccak256!", "precompiles/utils/macro/src/lib.rs"), ("generate_function_selector", "runtime/hydradx/src/evm/evm-utility/macro/src/lib.rs"), ("get_function_selector", "runtime/hydradx/src/evm/evm-utility/src/lib.rs")],
         pkg="mckeccak", over=("inputs", "programs"), technique="exhaustive enumeration of bounded texts and macro programs, compared with an independent Keccak-256",
         note="The macros of /repo are expanded by rustc on generated programs; run-time helpers are called on all strings of the bounded language. Trusts rustc and the independent hash in the checker.")

import os.path
T = ("explicit-state breadth-first exploration of all call sequences up to a depth, with the real pallet sources as transition function and the complete "
     "runtime storage as state; each transition is compared with an exact expectation, each state with an invariant")
NOTE = ("Exhaustive over the stated alphabet of calls and depth from the listed start states. The pallet is /repo's unmodified source; the runtime around it (FRAME, ORML, "
        "balances) is the stand-in of mc/shim, validated by running the pallets' own unit tests on it (DESIGN.md). Not covered: weights, SCALE metadata, "
        "the real runtime's configuration.")
TESTS = "The unit tests run single scenarios with fixed amounts; "
def define(prop, na):
    def p(id, title, st, text, why, pallet, mech, files=(), dir=None, pkg=None):
        d = dir or f"pallets/{pallet}/src/"
        prop(id, title, st, text, TESTS + why, [d + "lib.rs"] + list(files), [(a, os.path.normpath(d + b)) for a, b in mech], pkg=pkg or "p_" + pallet.replace("-", "_"),
             over=("inputs", "histories"), note=NOTE, technique=T)
    p("P01", "XYK pools pay exactly what is quoted and their shares stay backed",
      "Whatever sequence of pool creations, liquidity changes and trades happens, each call moves exactly the amounts that the trade and liquidity formulas give between the caller and the pool, respects the caller's limits and the pool's trading limits, and is refused with nothing changed when one of them is not met. The pool's product never falls by a trade and the value of a share never falls by another account's action. A pool disappears exactly when its last share is withdrawn and everything is paid out. Hooks and the oracle are told what really happened.",
      "all sequences of create, add, remove, buy, sell, donate and router calls up to the depth over small and large pools", "rounding, limits and pool removal interact over several calls.",
      "xyk", [("Pallet::create_pool", "lib.rs"), ("Pallet::add_liquidity", "lib.rs"), ("Pallet::remove_liquidity", "lib.rs"), ("AMM::execute_sell", "lib.rs"), ("TradeExecution", "trade_execution.rs")])
    p("P02", "The Omnipool's books match its reserves through every history",
      "Whatever sequence of token listings, liquidity changes, trades, refunds and removals happens, the recorded hub reserves add up to the hub asset held, recorded shares equal those of the positions plus the protocol's, and each call changes balances, asset states and positions by exactly the computed amounts. A call that breaks a caller limit, a tradability flag, a weight cap or a reserve ratio is refused with nothing changed. Nobody gains by trading back and forth or by adding and removing liquidity. Hooks are told what really happened.",
      "all sequences of the pallet's calls up to the depth over three assets and two accounts", "positions, protocol shares and hub reserves are only consistent as a whole, over a history.",
      "omnipool", [("Pallet::sell", "lib.rs"), ("Pallet::buy", "lib.rs"), ("Pallet::add_liquidity", "lib.rs"), ("Pallet::remove_liquidity", "lib.rs"), ("Pallet::withdraw_protocol_liquidity", "lib.rs"), ("Pallet::refund_refused_asset", "lib.rs")])
    p("P03", "Stableswap pools honour quotes, limits and share value in every history",
      "Whatever sequence of pool creations, liquidity changes, trades, fee changes and amplification ramps happens, each call moves exactly the computed amounts, router quotes are what the trade gives, and caller limits, tradability flags and minimum amounts are enforced with nothing changed on refusal. Trades do not lower the invariant and liquidity changes do not lower the value of a share for others. The amplification moves on a straight line between the ends of a ramp without a jump. Hooks are told what really happened.",
      "all sequences of the pallet's calls and router executions up to the depth over pools of two to three assets, a pool of pool shares included", "quotes, execution and hooks are four code paths that must agree at every state.",
      "stableswap", [("Pallet::sell", "lib.rs"), ("Pallet::buy", "lib.rs"), ("Pallet::add_liquidity", "lib.rs"), ("Pallet::remove_liquidity_one_asset", "lib.rs"), ("Pallet::withdraw_asset_amount", "lib.rs"), ("Pallet::update_amplification", "lib.rs"), ("TradeExecution", "trade_execution.rs")])
    p("P04", "Bootstrapping pools follow their schedule and pay the quoted amounts",
      "Whatever sequence of pool creations, updates, liquidity changes, trades and passing blocks happens, trades are possible exactly while the sale runs, at the weights on the line between the ends, and move exactly the computed amounts and fee between trader, pool and fee collector. Only the owner changes a pool, only before the sale, and takes the liquidity out, only when the sale is not running. The fee is raised until the repay target is collected. A refused call changes nothing.",
      "all sequences of create, update, add, remove, buy, sell, router calls, donations and passing blocks", "the schedule, the repay target and the lock of the fee collector interact over a history.",
      "lbp", [("Pallet::create_pool", "lib.rs"), ("Pallet::update_pool_data", "lib.rs"), ("Pallet::add_liquidity", "lib.rs"), ("Pallet::remove_liquidity", "lib.rs"), ("Pallet::execute_trade", "lib.rs"), ("TradeExecution", "trade_execution.rs")])
    p("P05", "OTC orders are filled at their price and their funds stay reserved",
      "Whatever sequence of placing, partially filling, filling and cancelling orders happens, the reserve of an owner in an asset equals what the owner's open orders still sell. A fill pays the owner the in amount and the filler the out amount of the order's price, less the fee for the fee receiver, rounded so that the owner is never underpaid. Remaining parts stay above the minimum, non-partial orders fill only whole, and cancelling returns what is left to the owner. A refused call changes nothing.",
      "all sequences of the four calls with amounts at the edges of the limits", "rounding remainders after several partial fills are only seen over a history.",
      "otc", [("Pallet::place_order", "lib.rs"), ("Pallet::partial_fill_order", "lib.rs"), ("Pallet::fill_order", "lib.rs"), ("Pallet::cancel_order", "lib.rs")])
    p("P06", "The circuit breaker stops exactly what exceeds an asset's limit in a block",
      "Whatever sequence of trades, liquidity changes, limit changes and blocks happens, a trade is refused exactly when the net volume of an asset in this block would exceed its trade limit, and a liquidity change exactly when added or removed liquidity in this block would exceed the liquidity limit, both as a fraction of what the pool held at the first action in the block. Limits are only set by the authority within the allowed range. A new block starts from zero.",
      "all sequences of trade and liquidity notices, limit changes and block ends", "the limit depends on all that happened in a block and on what the first action recorded.",
      "circuit-breaker", [("Pallet::ensure_pool_state_change_limit", "lib.rs"), ("Pallet::ensure_add_liquidity_limit", "lib.rs"), ("Pallet::ensure_remove_liquidity_limit", "lib.rs"), ("Pallet::set_trade_volume_limit", "lib.rs")])
    p("P07", "Dynamic fees react to the oracle once per block and stay in range",
      "Whatever the history of oracle entries and blocks, the fees an asset gets lie between the configured minimum and maximum. They change at most once in a block, then by the formula from the fee and block of the last change and the oracle's volumes and liquidity, and asking again in the same block gives the same fees. Without an entry the fees stay as they are.",
      "all sequences of oracle changes, fee requests and passing blocks", "the fee of a block is a function of the whole history of requests.",
      "dynamic-fees", [("UpdateAndRetrieveFees", "lib.rs"), ("Pallet::update_fee", "lib.rs")])
    p("P08", "The oracle averages exactly the trades of each block for each period",
      "Whatever sequence of trades, liquidity changes and blocks happens, the entry of a pair for a source and period is the exponential moving average of the blocks' last prices, liquidity and summed volumes, to the oracle's precision, and the last-block entry holds exactly the last block with activity. Queries in both pair orders agree up to inversion, the entry does not depend on how often or when it is queried, and within a block data of the running block is not seen. Data of one pair or source never changes another's.",
      "all sequences of trade and liquidity notices over several pairs and sources, block ends and gaps between blocks", "averages after gaps and several pairs in one block need a history.",
      "ema-oracle", [("Pallet::on_entry", "lib.rs"), ("Pallet::update_oracles_from_accumulator", "lib.rs"), ("Pallet::get_updated_entry", "lib.rs"), ("AggregatedOracle", "lib.rs"), ("OracleEntry", "types.rs")])
    p("P09", "Bonds stay backed one to one and are paid only after maturity",
      "Whatever sequence of issues, transfers, redemptions and passing time happens, the pallet's account holds of each underlying asset exactly the sum of its bonds' issuance. Issuing takes the amount from the issuer, mints that much less the fee and pays the fee to the receiver; a redemption burns bonds and pays the same amount of the underlying asset, only after maturity. Each maturity of an asset has one bond asset. A refused call changes nothing.",
      "all sequences of issue, transfer, redeem and passing time over several assets and maturities", "backing is an invariant of the whole history.",
      "bonds", [("Pallet::issue", "lib.rs"), ("Pallet::redeem", "lib.rs")])
    p("P10", "Staking pays out what came in, and stakes and votes are accounted for",
      "Whatever sequence of stakes, increases, claims, exits, votes, referendum ends and incoming fees happens, rewards are shared in proportion to the stakes present when they arrive. The pot always holds what positions are owed, locks equal stake plus locked rewards, and every account can leave. Votes give points once, by amount and conviction of at most the stake, and only when the referendum has finished. Points decide the payable share, are slashed by claims and increases, and a refused call changes nothing.",
      "all sequences of stake, increase, claim, unstake, democracy notices, fees and passing blocks", "reward accounting is a property of the whole history of all positions.",
      "staking", [("Pallet::stake", "lib.rs"), ("Pallet::increase_stake", "lib.rs"), ("Pallet::claim", "lib.rs"), ("Pallet::unstake", "lib.rs"), ("StakingDemocracy", "integrations/democracy.rs"), ("Conviction", "types.rs")])
    p("P11", "Referral fees become shares, and shares become everybody's fair reward",
      "Whatever sequence of registrations, links, trades, conversions and claims happens, codes are unique whatever their case, one per account, and links are made once and never to oneself. A trade's fee takes exactly the percentages of the asset and the referrer's level, never more than the fee, and gives shares at the oracle price. Total shares are the sum of all shares, a claim pays the part of the pot that the shares are, leaves the seed and raises the level by the rewards earned, and no asset waits in the pot unlisted. A refused call changes nothing.",
      "all sequences of registering, linking, trading, converting, claiming, idle blocks and changing percentages", "who is paid how much depends on everything that came into the pot, was converted and was claimed before.",
      "referrals", [("Pallet::register_code", "lib.rs"), ("Pallet::link_code", "lib.rs"), ("Pallet::convert", "lib.rs"), ("Pallet::claim_rewards", "lib.rs"), ("Pallet::set_reward_percentage", "lib.rs"), ("Pallet::process_trade_fee", "lib.rs"), ("Hooks::on_idle", "lib.rs"), ("Level::increase", "lib.rs")])
    p("P12", "Liquidity mining shares out its rewards fairly and lets everyone leave",
      "Whatever sequence of farm creations, stops, resumptions, terminations, deposits, claims and withdrawals over time happens, each global farm gives per period what its parameters and stakes say, at most its maximum and its funds. Yield farms share it by stake from the moment they take part, deposits by value and loyalty, each once. The pot always covers what farms and deposits are owed, totals equal the sum of their parts, unclaimable and unused rewards return, and every deposit can always be withdrawn. A refused call changes nothing.",
      "all sequences of the pallet's operations and passing blocks over several farms and deposits", "the unit tests use round numbers, in which the totals happen to agree.",
      "liquidity-mining", [("Pallet::deposit_lp_shares", "lib.rs"), ("Pallet::claim_rewards", "lib.rs"), ("Pallet::withdraw_lp_shares", "lib.rs"), ("Pallet::sync_global_farm", "lib.rs"), ("Pallet::sync_yield_farm", "lib.rs"), ("Pallet::terminate_yield_farm", "lib.rs"), ("GlobalFarmData", "types.rs")])
    p("P13", "A farmed Omnipool position comes back to the receipt's holder, once, intact",
      "Whatever sequence of farm operations, deposits, redeposits, claims, withdrawals and receipt transfers happens, a position enters the Omnipool farms only from its owner, and every receipt stands for exactly one position in custody, unchanged. Only the receipt's holder redeposits, claims and withdraws, and gets the position back, and the receipt burnt, exactly when the last farm is left. Deposits are valued at the oracle's hub price of the position, farms are managed by their owner only, and stopping and leaving work even without a price. A refused call changes nothing.",
      "all sequences of the pallet's calls, receipt transfers, liquidity changes and price changes", "custody of positions over several farms, receipts and owners is a property of histories; the unit tests check one call each.",
      "omnipool-liquidity-mining", [("Pallet::deposit_shares", "lib.rs"), ("Pallet::redeposit_shares", "lib.rs"), ("Pallet::claim_rewards", "lib.rs"), ("Pallet::withdraw_shares", "lib.rs"), ("Pallet::lock_lp_position", "lib.rs"), ("Pallet::unlock_lp_postion", "lib.rs"), ("Pallet::get_position_value_in_hub_asset", "lib.rs")])
    p("P14", "Farmed XYK shares come back to the receipt's holder, from the same pool",
      "Whatever sequence of farm operations, deposits, redeposits, claims, withdrawals and receipt transfers happens, the shares in custody of the XYK farms are, for every pool, exactly those of the deposits with a receipt. Only the receipt's holder redeposits, claims and withdraws, and gets back exactly the shares deposited, of the same pool, when the last farm is left. Deposits are valued by the incentivized asset behind the shares, farms are managed by their owner only, and owners pay the existential deposit of insufficient rewards. A refused call changes nothing.",
      "all sequences of the pallet's calls, receipt transfers, liquidity changes and trades", "a call naming the wrong pool, farm or receipt only shows in what others can still withdraw later.",
      "xyk-liquidity-mining", [("Pallet::deposit_shares", "lib.rs"), ("Pallet::redeposit_shares", "lib.rs"), ("Pallet::claim_rewards", "lib.rs"), ("Pallet::withdraw_shares", "lib.rs"), ("Pallet::get_token_value_of_lp_shares", "lib.rs"), ("Pallet::create_global_farm", "lib.rs")], files=("pallets/liquidity-mining/src/lib.rs",))
    p("P15", "The currencies router moves exactly what the ledger it routes to would",
      "Whatever sequence of currency operations happens, each operation of the currencies router on the native currency does exactly what the native ledger does, and on any other currency exactly what the token ledger does: same result, same storage, nothing for a zero amount beyond what the ledger does. Balances, reserves, locks and issuance asked through the router are those of the ledger. Money is only created or destroyed by deposits, withdrawals, slashes and root's balance updates, and nobody else's account changes.",
      "all sequences of every extrinsic and every currency trait operation of the router, native and foreign, with amounts at the edges of free, frozen and reserved balances", "the router has some fifty two-way branches, of which tests cover a few with one amount each.",
      "currencies", [("Pallet::transfer", "lib.rs"), ("Pallet::transfer_native_currency", "lib.rs"), ("Pallet::update_balance", "lib.rs"), ("MultiCurrency", "lib.rs"), ("MultiReservableCurrency", "lib.rs"), ("NativeCurrencyOf", "lib.rs"), ("BasicCurrencyAdapter", "lib.rs"), ("FungibleCurrencies", "fungibles.rs")])
    p("P16", "Only dust of accounts that are not protected is swept, whole, once",
      "Whatever sequence of transfers, deposits, dustings and changes to the whitelist and the existential deposits happens, an account is dusted exactly when it is not protected and its whole balance is positive and below the currency's existential deposit. Then all of it goes to the dust destination and the caller gets the reward from the reward account, once. Protected accounts and the dust destination keep everything, the whitelist is changed only by its origin and no money is created or lost.",
      "all sequences of dustings of every account and currency, whitelist changes, transfers, reserves and raised existential deposits", "whether something can be dusted twice or lost is a property of histories.",
      "duster", [("Pallet::dust_account", "lib.rs"), ("Pallet::add_nondustable_account", "lib.rs"), ("Pallet::remove_nondustable_account", "lib.rs"), ("Pallet::transfer_dust", "lib.rs"), ("Pallet::is_dustable", "lib.rs")])
    p("P17", "A routed trade executes its whole route within the caller's limit, or nothing",
      "Whatever sequence of routed sells, buys and route changes happens, a trade goes through the pools of its route, or of the stored route, one after the other with the amounts the pools quote, and the caller pays and receives exactly the ends of the chain, within the limit given. If any step fails, pays out something else or breaks the limit, nothing changes. A stored route is replaced by users only with one that gives more both ways, and quotes and spot prices along a route are the product of those of its pools.",
      "all sequences of sells, buys, route settings and market changes over routes of one to three pools, with limits at the edge", "the limit, the balance check and the rollback only matter together with pools that misbehave in the middle of a route.",
      "route-executor", [("Pallet::sell", "lib.rs"), ("Pallet::buy", "lib.rs"), ("Pallet::set_route", "lib.rs"), ("Pallet::force_insert_route", "lib.rs"), ("Pallet::calculate_sell_trade_amounts", "lib.rs"), ("Pallet::calculate_buy_trade_amounts", "lib.rs"), ("RouteSpotPriceProvider", "lib.rs")])
    p("P18", "A DCA schedule spends its own budget, on time, within limits, and can be ended",
      "Whatever sequence of schedulings, terminations, passing blocks and changes of markets and oracles happens, the amount reserved for an owner is what the owner's schedules have left, and every schedule is planned for exactly one future block with room. A due schedule pays its fee, then trades at most once, within the owner's limit and the oracle's slippage, and only when prices are stable; otherwise nothing is traded and it is tried again, later each time and no more often than allowed, or ended. Schedules end with all that is left given back, when the rest is not worth trading, on a fatal error, or whenever the owner or the technical origin ends them.",
      "all sequences of scheduling, terminating, passing blocks and market, oracle and fee changes, with crowded blocks and several sources of randomness", "retries, crowded blocks and random order only meet over several blocks; the tests found nothing wrong with ending schedules because theirs were in order.",
      "dca", [("Pallet::schedule", "lib.rs"), ("Pallet::terminate", "lib.rs"), ("Hooks::on_initialize", "lib.rs"), ("Pallet::execute_trade", "lib.rs"), ("Pallet::replan_or_complete", "lib.rs"), ("Pallet::retry_schedule", "lib.rs"), ("Pallet::is_price_unstable", "lib.rs"), ("Pallet::find_next_free_block", "lib.rs")])
    p("P19", "Registered assets keep their ids, names and locations to themselves",
      "Whatever sequence of registrations, updates and bans by whatever origins happens, no two assets share an id, a name or a location, each name and location leads to the asset that has it, and an id once given is never given again. Ids are chosen only in the reserved range, names and symbols keep to the rules, and a registered location is changed by the registry origin only. Assets never disappear and sufficiency is never taken back, set decimals are changed only by the registry origin. Refused calls change nothing, and what other pallets are told about an asset is what is registered.",
      "all sequences of every extrinsic by every kind of origin and every registration trait, with only a few sequential ids left", "names, locations and ids are shared by several ways of registering and updating.",
      "asset-registry", [("Pallet::register", "lib.rs"), ("Pallet::update", "lib.rs"), ("Pallet::register_external", "lib.rs"), ("Pallet::do_register_asset", "lib.rs"), ("Pallet::do_set_location", "lib.rs"), ("Mutate::set_location", "lib.rs"), ("Create::get_or_register_asset", "lib.rs"), ("Inspect", "lib.rs")])
    p("P20", "Collections and items of the NFT pallet obey their owners and permissions",
      "Creating, minting, transferring, burning and destroying collections and items is allowed exactly to those whom ownership and the collection type's permissions name, for extrinsics and for the traits other pallets use alike. The pallet's own records of collections and items agree at all times with those of the underlying uniques pallet, in both directions, and the queries report them. Deposits are reserved while a thing exists and given back when it is gone. Reserved collection ids cannot be taken by users, and refused calls change nothing.",
      "all sequences of extrinsics and trait calls by owner, another user and nobody, for every combination of permission bits", "two pallets keep the same book, and a permission decides at each of its calls.",
      "nft", [("Pallet::create_collection", "lib.rs"), ("Pallet::mint", "lib.rs"), ("Pallet::transfer", "lib.rs"), ("Pallet::burn", "lib.rs"), ("Pallet::destroy_collection", "lib.rs"), ("Pallet::do_mint", "lib.rs"), ("Pallet::do_burn", "lib.rs")])
    p("P21", "A transaction costs its payer the fee, in the payer's currency, at known prices",
      "The fee of a transaction is taken in the currency its call sets (alone or first in a batch) or else in the payer's, converted at the price fixed for the block, or the oracle's, or the fallback one, rounded down but never less than one unit; what the corrected fee leaves is given back and the rest reaches the fee receiver, nothing being created or lost. Only the council changes the accepted currencies and resets others' choice, and only accepted currencies can be chosen; a payer's currency is set and cleared with the accounts of its tokens as described. Prices are loaded for each accepted currency at the start of a block and gone at its end. A permit is dispatched once, with the currency override of its own account in place only meanwhile, fails without an error, and its validation changes nothing.",
      "all sequences of transactions (payers, calls, fees, tips), currency and price changes, transfers, blocks and permits", "the currency, the price and the accounts change between and within blocks.",
      "transaction-multi-payment", [("TransferFees::withdraw_fee", "lib.rs"), ("TransferFees::correct_and_deposit_fee", "lib.rs"), ("convert_fee_with_price", "lib.rs"), ("Pallet::set_currency", "lib.rs"), ("Pallet::dispatch_permit", "lib.rs"), ("Pallet::validate_unsigned", "lib.rs"), ("AddTxAssetOnAccount::happened", "lib.rs"), ("RemoveTxAssetOnKilled::happened", "lib.rs"), ("TryCallCurrency::try_convert", "lib.rs"), ("Pallet::on_initialize", "lib.rs")])
    p("P22", "Settling OTC orders against the market takes only real profit",
      "Settling an OTC order, by whoever asks, fills it with freshly minted money, sells what it gives on the stored route, pays all that is gained to the profit receiver and burns what was minted: issuances and the pallet's own balances end as they began. It succeeds only if the gain reaches the least profit and, for an order that can be filled in part, only if the market price then lies within the precision of the order's; an order that cannot is filled as a whole. The off-chain worker of a validator submits, for the orders with an arbitrage from the best to the least, exactly the settlements which its search finds and which then go through, keeps its list and lock as told, and never panics, whatever became of the listed orders. Unsigned settlements from the network are refused, and refused calls change nothing.",
      "all sequences of settlements with amounts around every edge and the one that closes the gap, orders, fills, trades, donations and market failures; all sequences of worker runs, reorganisations, lock holders and changing orders", "worker, store, orders and market change independently of each other.",
      "otc-settlements", [("Pallet::settle_otc", "lib.rs"), ("Pallet::settle_otcs", "lib.rs"), ("Pallet::sort_otcs", "lib.rs"), ("Pallet::try_find_trade_amount", "lib.rs"), ("Pallet::ensure_min_profit", "lib.rs"), ("Pallet::validate_unsigned", "lib.rs"), ("Pallet::try_update_last_block_storage", "lib.rs")])
    p("P23", "An EVM address leads to its bound account, or to its truncated one",
      "Whatever sequence of bindings, nonce changes and whitelisting by whatever origins happens, an EVM address leads to the first account which, with that address as its first twenty bytes, bound itself while the address was unused; until then, to the truncated account made of the address. A binding is never changed or lost, and a bound account's address leads back to it. An address may deploy contracts exactly if the controller has added it and neither the controller nor its own account has removed it since. Refused calls change nothing.",
      "all sequences of bindings, renunciations, whitelistings by every origin and nonce changes, over accounts that share addresses, look like truncated ones or nearly so", "the first one to bind decides for ever.",
      "evm-accounts", [("Pallet::bind_evm_address", "lib.rs"), ("Pallet::add_contract_deployer", "lib.rs"), ("Pallet::remove_contract_deployer", "lib.rs"), ("Pallet::renounce_contract_deployer", "lib.rs"), ("Pallet::account_id", "lib.rs"), ("Pallet::bound_account_id", "lib.rs"), ("Pallet::truncated_account_id", "lib.rs"), ("Pallet::is_evm_account", "lib.rs")])
    p("P24", "A claim is paid once, to whom the Ethereum key's owner signed it for",
      "A claim is accepted from an account exactly if its signature is one, by the Ethereum key of an address with something to claim, of the prescribed text with that very account, in the form wallets sign. The account then receives exactly what the address could claim, which becomes zero, or, where the balance cannot take it, nothing changes. The transaction extension lets through exactly the claims with something to claim, changes nothing, and leaves other calls alone. What can be claimed is what genesis gave, summed, less what was claimed.",
      "all sequences of claims by every account with signatures of every key for every account and in other forms, texts, recovery ids and with single bytes changed", "signatures, senders and claims meet in histories; the tests know one signature.",
      "claims", [("Pallet::claim", "lib.rs"), ("Pallet::validate_claim", "lib.rs"), ("Pallet::process_claim", "lib.rs"), ("to_ascii_hex", "lib.rs"), ("ValidateClaim::validate", "lib.rs"), ("EcdsaSignature::recover", "traits.rs"), ("EcdsaSignature::ethereum_signable_message", "traits.rs")])
    p("P25", "The EVM base fee follows load and price, within its bounds",
      "At the start of every block for which the oracle has a price, the EVM base fee becomes the default one, plus three times the share of it which the load multiplier gives, scaled by the price of WETH relative to the reference price, each step rounded down and capped instead of overflowing, and kept within the least and greatest fee; so more load or a dearer WETH never make it smaller. Without a usable price it stays what it was. Nothing else changes, nothing panics, and the gas price told to the EVM is this fee.",
      "all combinations of multipliers, prices, defaults and bounds up to the greatest numbers, in sequences of blocks, and a grid around the bounds", "overflow, caps and missing prices lie far outside the tested values.",
      "dynamic-evm-fee", [("Pallet::on_initialize", "lib.rs"), ("Pallet::min_gas_price", "lib.rs"), ("ETH_HDX_REFERENCE_PRICE", "lib.rs")])
    p("P26", "Exactly the paused calls are paused, and the pause can be lifted",
      "A call is filtered exactly if its pallet and function names were paused by the update origin and not unpaused since; calls of the pause pallet itself can never be paused, and names which are too long, or pallets whose name is no text, are refused. A paused call does not go through inside a batch either. Events are emitted exactly when something changes, refused calls change nothing.",
      "all sequences of pausing and unpausing by every origin over real, empty, similar, longest, too long and undecodable names", "names come as bytes from outside, and one wrong pair locks or unlocks a call.",
      "transaction-pause", [("Pallet::pause_transaction", "lib.rs"), ("Pallet::unpause_transaction", "lib.rs"), ("PausedTransactionFilter::contains", "lib.rs")])
    p("P27", "Each collator of a session is rewarded once when it ends",
      "Whatever sequence of sessions, in whatever order, with whatever collators happens, ending a session pays each collator stored for it, unless excluded, the reward once, skips only those who cannot receive it, and forgets the session; nothing else creates rewards. A new session's collators are those of the wrapped manager, stored for that session, or none if they are too many, and the wrapped manager hears of every session exactly once. The relay block handler emits exactly the current pair of block numbers.",
      "all sequences of new, started and ended sessions with collator sets, exclusions and rewards changing, accounts emptied in between", "sessions overlap: one is planned while another runs and a third ends.",
      "collator-rewards", [("Pallet::new_session", "lib.rs"), ("Pallet::start_session", "lib.rs"), ("Pallet::end_session", "lib.rs")])
    p("P28", "Tokens arriving by XCM wait for exactly their excess over the limit",
      "A message whose first instruction brings fungible tokens from another chain adds their amounts to what has arrived of each token that the chain knows and limits, after a limit's worth per defer duration has drained away since the last arrival; tokens which are unknown or unlimited are neither counted nor delayed. The message is deferred by the longest wait of its tokens, which is the excess over the limit in units of a limit's worth per duration, at most the longest deferral, and not deferred at all if that is zero. A message that cannot be understood waits the longest; other instructions, and instructions behind the first, change nothing, and no amount, limit or clock makes it panic.",
      "all sequences of messages (eleven shapes, three versions) and passing time, for limits and durations from zero to the greatest numbers", "the wait depends on the history of arrivals and on the clock, which the relay chain can move in jumps.",
      "xcm-rate-limiter", [("Pallet::deferred_by", "lib.rs"), ("Pallet::get_locations_and_amounts", "lib.rs"), ("get_loc_and_amount", "lib.rs")])
    p("P29", "XCM runs only allowed programs, for its exact fee, and trades what it says",
      "A locally sent XCM program is allowed exactly if it comes from the chain itself or consists, nested parts included, of the allowed transfer and exchange instructions only, within the limits of depth and number. Weight is paid from the first asset at the oracle's price, refunds never exceed what was paid, and what is left goes to the fee receiver. An exchange gives at least what was wanted for all that was given, or exactly what was wanted for no more than was given with the rest returned, or leaves everything as it was; the account it uses keeps nothing of it. Deposits and transfers reach the account meant, or the reroute destination where the filter says so.",
      "all programs of up to seven instructions in every nesting, all instructions; all sequences of purchases, refunds and price changes; all sequences of exchanges, donations and route changes; all sequences of deposits, withdrawals and transfers", "programs come from outside in any shape, and holdings pass through several adapters.",
      "runtime-adapters", [("AllowTransferAndSwap::contains", "xcm_execute_filter.rs"), ("check_instructions_recursively", "xcm_execute_filter.rs"), ("MultiCurrencyTrader::buy_weight", "lib.rs"), ("MultiCurrencyTrader::refund_weight", "lib.rs"), ("MultiCurrencyTrader::drop", "lib.rs"), ("ToFeeReceiver::take_revenue", "lib.rs"), ("XcmAssetExchanger::exchange_asset", "xcm_exchange.rs"), ("ReroutingMultiCurrencyAdapter::deposit_asset", "lib.rs"), ("ReroutingMultiCurrencyAdapter::withdraw_asset", "lib.rs"), ("ReroutingMultiCurrencyAdapter::transfer_asset", "lib.rs")],
      dir="runtime/adapters/src/", pkg="p_xcm_adapters")
    p("P30", "Adapters tell oracle, breaker, fee takers and payers what the pools did",
      "Whatever sequence of trades and liquidity changes happens, the Omnipool and the stableswap report to the oracle, for each asset concerned and against the right counterpart, exactly the amounts and reserves which result, and to the circuit breaker the change against the reserves before, so that a call goes through exactly if the breaker's limits and the oracle allow it; of the fee, referrals and then staking take their part and no more than there is. Prices, volumes and locks read back are the recorded ones: a route's price is the product of its hops' prices, a fee in another currency is rounded up, and without a price there is none. A refused call changes nothing, and nothing panics.",
      "all sequences of Omnipool and stableswap calls with limits near the amounts, run with the adapters and with a restatement side by side; all routes of up to three hops over all kinds of pools and prices up to the greatest; all sequences of locks, pools and freezes", "swapped reserves or counterparts only show in another pallet's later decision.",
      "runtime-adapters", [("OmnipoolHookAdapter::on_liquidity_changed", "lib.rs"), ("OmnipoolHookAdapter::on_trade", "lib.rs"), ("OmnipoolHookAdapter::on_hub_asset_trade", "lib.rs"), ("OmnipoolHookAdapter::on_trade_fee", "lib.rs"), ("StableswapHooksAdapter::on_liquidity_changed", "lib.rs"), ("StableswapHooksAdapter::on_trade", "lib.rs"), ("OraclePriceProvider::price", "lib.rs"), ("OracleAssetVolumeProvider::asset_volume", "lib.rs"), ("AssetFeeOraclePriceProvider::price", "lib.rs"), ("MultiCurrencyLockedBalance::get_by_lock", "lib.rs"), ("VestingInfo::locked", "lib.rs"), ("ConvertAmount::convert", "price.rs"), ("FeeAssetBalanceInCurrency::get_balance_in_currency", "price.rs"), ("AllowPoolCreation::can_create", "xyk.rs"), ("MultiInspectAdapter::reducible_balance", "inspect.rs")],
      dir="runtime/adapters/src/", pkg="p_hooks")
    p("P31", "Referenda count exactly the votes that stand and keep their stakes locked",
      "Whatever sequence of votes, delegations, removals, unlocking, proposals, vetoes, cancellations and blocks happens, a running referendum's tally is the sum of the votes that stand in it, weighed by conviction, each with what is delegated to its voter; it is decided once, in the block it ends, by its threshold on that tally, and enacted under its own name after its delay exactly if it passed. What votes, delegations and the periods after them need stays locked, until it is unlocked after them, and others can remove a vote only when nothing holds it. What is reserved are the deposits of proposals; they come back when the proposal is tabled, are slashed when it is cancelled or blacklisted, and the queues take turns, the proposal with most behind it first. Each call needs its origin, the hooks hear of each vote and removal, and a refused call changes nothing.",
      "all sequences of the pallet's calls by every origin over few accounts, referenda and proposals, from several prepared situations; all small tallies and many extreme ones for the thresholds; every byte as a vote", "tallies, delegations and locks are kept in several places and must agree after any history.",
      "democracy", [("Pallet::try_vote", "lib.rs"), ("Pallet::try_remove_vote", "lib.rs"), ("Pallet::try_delegate", "lib.rs"), ("Pallet::try_undelegate", "lib.rs"), ("Pallet::increase_upstream_delegation", "lib.rs"), ("Pallet::reduce_upstream_delegation", "lib.rs"), ("Pallet::update_lock", "lib.rs"), ("Pallet::begin_block", "lib.rs"), ("Pallet::bake_referendum", "lib.rs"), ("Pallet::launch_next", "lib.rs"), ("Pallet::launch_public", "lib.rs"), ("Pallet::fast_track", "lib.rs"), ("Pallet::veto_external", "lib.rs"), ("Pallet::blacklist", "lib.rs"), ("Pallet::cancel_proposal", "lib.rs"), ("Pallet::set_metadata", "lib.rs"), ("VoteThreshold::approved", "vote_threshold.rs"), ("compare_rationals", "vote_threshold.rs"), ("Conviction::votes", "conviction.rs"), ("Conviction::lock_periods", "conviction.rs"), ("Tally::add", "types.rs"), ("Tally::remove", "types.rs"), ("Voting::locked_balance", "vote.rs"), ("PriorLock::accumulate", "vote.rs"), ("AccountVote::locked_if", "vote.rs")])
    p("P32", "What the router asks of a venue is what the venue does",
      "In every state of XYK pools, bootstrapping pools, the Omnipool and stable pools, and for every pair of assets, a sell or buy asked through the router's interface has the same result, the same balances and the same events as the venue's own call, for a stable pool's shares the one that adds or removes liquidity, and a venue answers for no pool but its own. A trade that goes through pays and gives exactly what was quoted, and exactly the limits that the quote meets are met; the price is the marginal rate of the venue's curve after its fees in whole amounts of both assets, so that no trade is better than it and a small trade is not much worse; the depth is the reserve. A route's trades are its venues' trades one after the other, and its price the product of theirs. Looking changes nothing, and neither does a refused call.",
      "all sequences of trades, donations, fee, weight and permission changes up to a depth from several starts; in each state all venues, pairs, amounts near the limits and routes of up to four trades over different venues", "each venue computes quotes, trades and prices in separate code, and DCA, settlements and routes rely on them agreeing.",
      "route-executor", [("TradeExecution::execute_buy", "../../xyk/src/trade_execution.rs"), ("TradeExecution::calculate_buy", "../../lbp/src/trade_execution.rs"), ("TradeExecution::execute_sell", "../../stableswap/src/trade_execution.rs"), ("TradeExecution::calculate_spot_price_with_fee", "../../omnipool/src/router_execution.rs"), ("Pallet::spot_price_with_fee", "lib.rs"), ("TradeExecution for Tuple", "../../../traits/src/router.rs")],
      pkg="p_venues")
    p("P33", "Each precompile address runs its precompile, and tokens answer as the ledger",
      "An address leads to a precompile exactly if it is one of the standard ones, the dispatcher, the call permit or a token's, and calls to all others, delegate calls included, are left alone; every asset has one address and every such address one asset. A token called at its address tells the registered name, symbol and decimals, and the issuance and free balances of the currencies ledger, and a transfer does exactly what the caller's own transfer of the currency does, in whole amounts up to 2^128. A call that cannot, by unknown function, short input, too little gas, a sent value or static or delegate call, fails and changes nothing. A block's author is told under the address made of the authority's account.",
      "all sequences of token calls by bound and unbound accounts, deposits, reserves, bindings and registrations; all addresses a bit or a byte away from a precompile's; all asset ids up to a bound and every bit", "the addresses and the byte forms of the input come from outside in any shape.",
      "evm", [("HydraDXPrecompiles::execute", "evm/precompiles/mod.rs"), ("HydraDXPrecompiles::is_precompile", "evm/precompiles/mod.rs"), ("MultiCurrencyPrecompile::execute", "evm/precompiles/multicurrency.rs"), ("HydraErc20Mapping::decode_evm_address", "evm/precompiles/erc20_mapping.rs"), ("RuntimeHelper::db_read_gas_cost", "evm/precompiles/substrate.rs"), ("ExtendedAddressMapping::into_account_id", "evm/accounts_conversion.rs"), ("FindAuthorTruncated::find_author", "evm/accounts_conversion.rs")],
      dir="runtime/hydradx/src/", pkg="p_evm")
    p("P34", "A permit runs the call its signer signed, once, and nothing else",
      "A call is made in somebody's name exactly if that account's key signed, for this chain and precompile, its very sender, target, value, input, gas limit, permit nonce and a deadline which has not passed, and enough gas is there. Each nonce serves one permit, whichever of precompile and extrinsic it comes through and whatever the called contract does meanwhile, and a precompile call which fails is undone as a whole. A permit dispatched by extrinsic leaves the signer's account nonce and currency override as they were; if it is refused, nothing changes but that these extrinsics are paused. Its validation accepts exactly what the dispatch would and changes nothing.",
      "all sequences of permits by extrinsic and precompile, in place, in storage or from within another permit's call, with each field, signature part and domain part changed, over blocks and times", "a permit can be seen and sent by everybody, again and from anywhere.",
      "call-permit", [("CallPermitPrecompile::dispatch", "lib.rs"), ("CallPermitPrecompile::generate_permit", "lib.rs"), ("CallPermitPrecompile::compute_domain_separator", "lib.rs"), ("EvmPermitHandler::validate_permit", "../../../runtime/hydradx/src/evm/permit.rs"), ("EvmPermitHandler::dispatch_permit", "../../../runtime/hydradx/src/evm/permit.rs"), ("EvmPermitHandler::on_dispatch_permit_error", "../../../runtime/hydradx/src/evm/permit.rs"), ("EvmPermitHandler::gas_price", "../../../runtime/hydradx/src/evm/permit.rs")],
      dir="precompiles/call-permit/src/", pkg="p_evm")
    p("P35", "An EVM transaction pays for its gas in its account's currency, or does not run",
      "The fee of an EVM transaction is taken in the currency its call or its account sets, converted from wrapped ether at the price of the moment, rounded up, and exactly that is taken or the transaction is refused. What was not used is given back at the price it was paid at, the rest reaches the treasury, and nothing is created or lost. The check made before, whether the account can pay, agrees with the taking. The runner lets a transaction through exactly if nonce, fees, gas limits and balance allow it, and hands on what it was given.",
      "all sequences of payments with fees and refunds around the edges, tips, price and currency changes, deposits and locks, also between taking and refund; all combinations of runner arguments around their limits", "price, currency and balance can change between taking the fee and giving back.",
      "evm", [("TransferEvmFees::withdraw_fee", "evm/evm_fee.rs"), ("TransferEvmFees::can_withdraw", "evm/evm_fee.rs"), ("TransferEvmFees::correct_and_deposit_fee", "evm/evm_fee.rs"), ("TransferEvmFees::pay_priority_fee", "evm/evm_fee.rs"), ("FeeCurrencyOverrideOrDefault::get", "evm/evm_fee.rs"), ("DepositEvmFeeToTreasury", "evm/evm_fee.rs"), ("WrapRunner::validate", "evm/runner.rs"), ("WrapRunner::call", "evm/runner.rs"), ("WrapRunner::create", "evm/runner.rs"), ("WrapRunner::create2", "evm/runner.rs")],
      dir="runtime/hydradx/src/", pkg="p_evm")

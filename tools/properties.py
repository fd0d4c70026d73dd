# ---------------------------------------------------------------- farming, farm side
prop("F01", "Farm administration needs the farm admin's signature",
 "The admin, harvest mints, emission periods and minimum snapshot window of an existing farm change only in an instruction signed by that farm's current admin, and handing the farm over also needs the new admin's signature. The stake mint and stake vault of a farm never change and a farm account is never closed. A compounding permission for a pair of farms is created or removed only under the source farm admin's signature, at the address derived from that pair, and its rent returns to that admin.",
 ["inputs", "histories"], "every instruction of the farming program, every account list, account content and argument",
 "Tests call each endpoint with the accounts of one honest scenario; the existing suite builds only unit tests of the farm model, so no test exercises who may call what.",
 ["programs/farming/src/lib.rs", FE + "set_farm_owner.rs", FE + "set_min_snapshot_window.rs", FE + "add_harvest.rs", FE + "new_harvest_period.rs", FE + "remove_harvest.rs", FE + "whitelist_farm_for_compounding.rs", FE + "dewhitelist_farm_for_compounding.rs"],
 [("signer and admin comparison in each handler", FE + "*.rs"), ("seeds of the whitelist account", FE + "whitelist_farm_for_compounding.rs")],
 [("Farm", "admin, mints, vaults, periods, snapshots", FARM)])
prop("F02", "A new farm starts owned by its creator, empty and with its own vault",
 "Creating a farm initialises a blank account whose admin is a signer of the instruction and whose stake mint is a real token mint. Its stake vault is created at the address derived from the farm, for that mint, under the authority of the farm's own signer address. Harvests, snapshots and settings of a new farm are empty.",
 ["inputs"], "every account list and argument of every instruction that can initialise a farm",
 "No test runs the creation endpoint in this build; wrong seeds, authorities or re-initialisation show only with adversarial accounts.",
 [FE + "create_farm.rs", FARM], [("create_farm handler and account constraints", FE + "create_farm.rs")])
prop("F03", "A snapshot records balance and slot in the next ring entry, once per window",
 "Taking a snapshot moves the history tip to the next ring position (wrapping at the end), overwrites exactly that entry with the current slot and the current balance of the farm's own stake vault, and changes nothing else. It is refused exactly while fewer slots than the farm's configured minimum window (or the built-in default window when none is configured) have passed since the last snapshot.",
 ["inputs", "histories"], "every farm state (tip, ring content, window), slot and vault balance",
 "Unit tests cover a few tips and windows; wrap-around, the configured window and the vault linkage hold for every state only by the code.",
 [FARM, FE + "take_snapshot.rs"], [("Farm::take_snapshot", FARM), ("vault constraint", FE + "take_snapshot.rs")],
 [("Snapshots", "ring of (staked, started_at) with a tip", FARM)])
prop("F04", "Harvest list: one entry per mint, own vault, removed only when empty",
 "Registering a harvest mint takes an unused entry for a mint not yet registered, starts without emission periods, and creates its vault at the address derived from farm and mint under the farm's signer. Removing a harvest happens only while that harvest's own vault holds no tokens, clears the entry completely, closes the vault with its rent going to the farm admin. No instruction changes more than one harvest entry of a farm, and a new mint is accepted whenever it is unknown and an entry is free.",
 ["inputs", "histories"], "every farm state, mint, and account list",
 "Tests register into sampled lists; duplicates, full lists, wrong vaults and non-empty vaults must be handled for every state.",
 [FARM, FE + "add_harvest.rs", FE + "remove_harvest.rs"], [("Farm::add_harvest", FARM), ("remove_harvest handler", FE + "remove_harvest.rs")],
 [("Harvest", "mint, vault and ten periods, newest first", FARM)])
prop("F05", "Emission periods stay ordered, disjoint and long enough remembered",
 "The stored emission periods change only by putting a new newest period in front or by replacing a newest period that has not started yet. A stored period ends after it starts, does not start in the past, starts after the period before it has ended, and carries exactly the requested start, length and rate. The oldest period drops off only once the oldest snapshot is newer than its end, and valid requests are accepted.",
 ["inputs", "histories"], "every farm state, slot and requested period",
 "Each unit test checks one list of periods; the ordering is an invariant over every history of scheduling, and the drop guard depends on the whole ring.",
 [FARM, FE + "new_harvest_period.rs"], [("Farm::new_harvest_period, Harvest::new_harvest_period", FARM), ("new_harvest_period handler", FE + "new_harvest_period.rs")],
 [("HarvestPeriod", "rate per slot, first and last slot", FARM)])
prop("F06", "The admin funds each emission period exactly",
 "Whenever an emission period is stored, the tokens moved into that harvest's own vault equal rate times number of slots of the new period, less what a replaced period had been funded with; a surplus is refunded. Funding moves only under the admin's own signature and a refund only under the farm's signer, and no other token transfer happens.",
 ["inputs", "histories"], "every farm state, requested period and account list",
 "Endpoint tests are not part of this build and would check a few amounts; the identity must hold for every rate, length and replaced period.",
 [FE + "new_harvest_period.rs", FARM], [("new_harvest_period handler", FE + "new_harvest_period.rs"), ("total_tokens_emitted_per_period", FARM)])
prop("F07", "Snapshot history lookups return the right entries for every ring state",
 "The latest and oldest snapshot are the ring entries at and right after the tip, and no lookup aborts. The first snapshot after a slot is the oldest entry that started after it, and none is returned only when no entry did. The window of snapshots since a slot lists entries from the newest backwards, down to and including the newest one taken at or before that slot, or the whole ring if there is none.",
 ["inputs", "histories"], "every tip position, ring content and slot",
 "Unit tests use a handful of tips and short histories; wrap-around and full rings need every tip and slot.",
 [FARM], [("Farm::latest_snapshot, oldest_snapshot, first_snapshot_after, get_window_snapshots_eligible_to_harvest", FARM)],
 [("Snapshots", "ring buffer and tip", FARM)])
prop("F08", "The emission rate of a slot range is the one its period was scheduled with",
 "The rate history of a harvest, asked for at a slot, lists consecutive slot ranges in ascending order without gap or overlap, starting with the first slot and ending with the later of the asked slot and the end of the newest period. Every scheduled period appears exactly once with its own first slot, last slot and rate, and all other ranges have rate zero.",
 ["inputs"], "every slot and every ordered disjoint list of up to three (thorough: six) periods, and full ten-period lists in which any two neighbouring gaps are free",
 "Unit tests list some period layouts; adjoining periods, gaps, full lists and future periods are separate cases.",
 [FARM], [("Harvest::tps_history", FARM)], [("HarvestPeriod", "rate per slot, first and last slot", FARM)])
prop("F09", "Valid requests on farms are never refused",
 "Every farm endpoint can succeed, with the signatures the runtime asks for given by its signers or the farm's own signer and every account it changes required to be writable. A request signed by the farm's admin is refused or aborts only for wrong accounts or a stated cause: an unknown or already known mint, a full list, a vault that still holds tokens, or a period that is too short, in the past, overlapping, or not affordable from the given wallet. Taking a snapshot of the farm's own vault is refused only while the window is open.",
 ["inputs", "histories"], "every farm state, slot, argument and account content; for the period list, three (thorough: all) positions of the harvest",
 "An off-by-one in a guard or a wrong signer seed refuses only particular slots, balances or lists, or only one branch (such as refunds), which no unit test of this build executes.",
 [FARM, FE + "add_harvest.rs", FE + "new_harvest_period.rs", FE + "remove_harvest.rs", FE + "take_snapshot.rs", FE + "set_farm_owner.rs", FE + "create_farm.rs"],
 [("error returns of each handler", FE + "*.rs")])
# ---------------------------------------------------------------- farming, farmer side
prop("F10", "Farm vault tokens move only for their owners",
 "Tokens leave a stake vault only towards giving up stake of a farmer of that farm whose owner signs. Tokens leave a harvest vault only by the claim of a farmer's owner, a whitelisted compounding into the receiving farm's stake vault, or the farm admin's refund. Every other transfer is made under a signer of the instruction, and the program never mints, burns or calls anything but the token program.",
 ["inputs", "histories"], "every instruction of the farming program, every account list, account content and argument",
 "No test of this build executes any farmer endpoint; who can drain a vault depends on every combination of accounts an attacker may pass.",
 [FE + "stop_farming.rs", FE + "claim_eligible_harvest.rs", FE + "compound_same_farm.rs", FE + "compound_across_farms.rs", FE + "new_harvest_period.rs"],
 [("account constraints and token transfers of each endpoint", FE + "*.rs")])
prop("F11", "A farmer account obeys only its owner",
 "The owner and the farm of a farmer account never change, and it is closed only with its owner's signature, its rent going to the owner. Its stake or harvest goes down only in an instruction its owner signs, or in a whitelisted compounding that credits the same amount to the stake of a farmer of the same owner.",
 ["inputs", "histories"], "every instruction of the farming program, every account list, account content and argument",
 "Several endpoints are permissionless by design (updating, compounding), so the guarantee is about what a stranger cannot do on any account list; no test of this build executes them.",
 [FE + "start_farming.rs", FE + "stop_farming.rs", FE + "claim_eligible_harvest.rs", FE + "close_farmer.rs", FE + "compound_same_farm.rs", FE + "compound_across_farms.rs", FARMER],
 [("seeds and authority constraints of each endpoint", FE + "*.rs")], [("Farmer", "authority, farm, stake, vesting, settled slot, harvests", FARMER)])
prop("F12", "Every slot is settled once, at the stake that counted in it",
 "Before an instruction changes a farmer's stake, the harvest of every slot up to now is settled against the farmer's own farm. Settled ranges join without gap or repetition, start at the stored next slot, and the stored slot moves to right after the last settled one, never back and never past now. Slots before the first snapshot after vesting count at the old stake, later ones at the stake including matured tokens.",
 ["inputs", "histories"], "every farmer and farm state, slot and argument; every instruction that changes or settles a farmer",
 "Double counting or skipping a slot shows only in particular orders of snapshots, deposits and updates; no test of this build executes farmer code.",
 [FARMER, FE + "start_farming.rs", FE + "stop_farming.rs", FE + "update_eligible_harvest.rs", FE + "update_eligible_harvest_until.rs", FE + "compound_same_farm.rs", FE + "compound_across_farms.rs"],
 [("Farmer::check_vested_period_and_update_harvest, update_eligible_harvest", FARMER)], [("Farmer", "staked, vested, vested_at, calculate_next_harvest_from", FARMER)])
prop("F14", "Added stake vests until the next snapshot, withdrawals take it first",
 "Tokens added to a farmer do not count as staked until a snapshot has been taken after they were added; then all of them do. A withdrawal takes vesting tokens first and staked tokens only for the rest, and nothing else changes either amount.",
 ["inputs", "histories"], "every farmer and farm state, slot and amount",
 "Depends on the order of snapshots, additions and withdrawals in the whole history; no test of this build executes farmer code.",
 [FARMER, FE + "start_farming.rs", FE + "stop_farming.rs", FE + "compound_same_farm.rs"],
 [("Farmer::add_to_vested, unstake, check_vested_period_and_update_harvest", FARMER)], [("Farmer", "staked, vested, vested_at", FARMER)])
prop("F15", "Farmers start empty at their own address and close only when empty",
 "A farmer is created only over blank data at the address derived from its farm and its owner, for a checked farm, with no stake and no harvest, and knows every harvest mint of that farm. It is closed only while it has no stake, no vesting tokens and no unclaimed harvest.",
 ["inputs"], "every account list and content of the instructions that create or close a farmer",
 "Re-initialisation, foreign seeds or a forgotten balance show only for adversarial accounts or states; no test of this build executes these endpoints.",
 [FE + "create_farmer.rs", FE + "close_farmer.rs", FARMER], [("create_farmer and close_farmer handlers", FE + "*.rs")])
prop("F16", "Compounding moves own harvest into own stake of a permitted farm",
 "Tokens move between farm vaults only from a harvest vault to a stake vault and only for a pair of farms with a compounding permission. The amount is the whole harvest of one farmer in the receiving farm's stake mint, whose entry becomes zero, and the stake of a farmer of the same owner in the receiving farm grows by exactly it.",
 ["inputs"], "every account list, account content and farmer state of the compounding instructions",
 "Compounding is permissionless, so every account substitution must be excluded; no test of this build executes it.",
 [FE + "compound_same_farm.rs", FE + "compound_across_farms.rs", FARMER], [("compounding handlers and account constraints", FE + "compound_*.rs")])
prop("F17", "Stake and harvest ledgers move exactly with the vaults",
 "A farmer's stake plus vesting tokens changes only together with an equal token transfer into or out of the stake vault of that farm, and no stake vault moves without it. Apart from accrual, a harvest entry changes only with an equal transfer out of that farm's vault of that mint. Farmer accounts changed together are different accounts.",
 ["inputs", "histories"], "every instruction of the farming program, every account list, account content and argument, any number of claimed vaults",
 "The sum over all farmers is an invariant of all histories; each instruction must keep it for every amount and account list, and no test of this build executes them.",
 [FE + "start_farming.rs", FE + "stop_farming.rs", FE + "claim_eligible_harvest.rs", FE + "compound_same_farm.rs", FE + "compound_across_farms.rs", FARMER],
 [("handlers and the farmer's own methods", FE + "*.rs")])

prop("F18", "Accrued harvest is the exact pro-rata share of what was emitted",
 "Settling a farmer up to a slot adds, per harvest mint of the farm and for each snapshot since its last settlement, its stake divided by that snapshot's total stake times the tokens emitted over the slots of that snapshot, rounded down once per snapshot. Every slot counts exactly once, slots without stakers or rate count nothing, harvest of mints the farm dropped is forgotten and new mints start at zero. Settling fails only when an amount is too large.",
 ["inputs", "histories"], "every stake, rate, slot and order of snapshot and period borders, for up to two (thorough: three) snapshots, three rate changes and two mints per settlement",
 "Rounding and border arithmetic must be right for every interleaving of snapshots and periods; the unit tests sample a few fixed histories.",
 [FARMER], [("accrual arithmetic of the farmer", FARMER)])
prop("F23", "Valid requests of farmers are never refused",
 "Opening a farmer account, staking or withdrawing a non-zero amount, settling harvest up to the current slot or an earlier one, claiming, compounding into a permitted farm, airdropping and closing an empty account always go through when the request's accounts are the right ones. The only refusals or aborts are those for wrong accounts, an amount of zero, a future slot, a mint the farmer has no harvest entry for, an account that still holds something, or amounts that do not fit in 64 bits. Every account an instruction changes is required to be writable, and every signature the runtime asks for is given.",
 ["inputs", "histories"], "every farmer state, farm state, slot, argument, number of claimed pairs and account content",
 "An extra or inverted guard, a wrong signer seed or a subtraction in the wrong order locks funds for some balances only; no farmer endpoint runs in this build's tests.",
 [FARMER, FE + "start_farming.rs", FE + "stop_farming.rs", FE + "claim_eligible_harvest.rs", FE + "close_farmer.rs", FE + "compound_same_farm.rs", FE + "compound_across_farms.rs", FE + "airdrop.rs", FE + "create_farmer.rs", FE + "update_eligible_harvest.rs"],
 [("error returns, aborts and account constraints of the farmer endpoints", FE + "*.rs")])

# ---------------------------------------------------------------- amm
POOL, DISC = AM + "pool.rs", AM + "discount.rs"
EX = [AE + "swap.rs", AE + "deposit_liquidity.rs", AE + "redeem_liquidity.rs"]
NOEP = "No test of this build executes an endpoint of the pool program; "
prop("A01", "Reserve records move exactly with the pool's vaults",
 "In every swap, deposit and redemption the recorded balance of each reserve changes by exactly the tokens transferred into less those transferred out of that reserve's own vault. A new pool records, per reserve, the mint and current balance of the vault that backs it. No other instruction changes reserve records.",
 ["inputs", "histories"], "pools of two, three and four reserves, every amount, fee, discount and account list; limits and vault pairs in sampled (thorough: all) orders",
 NOEP + "the identity is an invariant over every history and must hold for every rounding, fee and discount.",
 EX + [POOL, AE + "create_pool.rs"], [("Pool::swap, deposit_tokens, redeem_tokens, reserve_mut", POOL), ("transfers in the handlers", AE + "*.rs")], [("Reserve", "tokens, mint, vault", POOL)])
prop("A02", "Limits the user gives are kept",
 "A swap takes exactly the amount offered and pays out at least the requested minimum, of another token, to the chosen wallet. A deposit takes of every token at most the given maximum, from wallets its signer owns, and sends LP tokens to the chosen wallet. A redemption burns exactly the requested LP tokens and pays at least the given minimum of every token to wallets its signer owns.",
 ["inputs"], "pools of two, three and four reserves, every amount, limit and account list; limits and vault pairs in sampled (thorough: all) orders",
 NOEP + "slippage limits matter exactly for reserve states no test author foresaw.",
 EX + [POOL], [("slippage and limit comparisons in the handlers", AE + "*.rs"), ("Pool::deposit_tokens, redeem_tokens", POOL)])
prop("A03", "The swap fee is set by the pool's admin and never above 1 %",
 "The fee of a pool changes only in an instruction signed by that pool's admin, to exactly the requested value, which is at most 1 %, and nothing else of the pool changes with it. A new pool starts without a fee.",
 ["inputs", "histories"], "every instruction of the pool program, every account list and argument",
 NOEP + "the cap and the signature must hold for every value and signer.",
 [AE + "set_pool_swap_fee.rs", POOL, AE + "create_pool.rs"], [("Pool::set_fee", POOL), ("admin comparison in the handler", AE + "set_pool_swap_fee.rs")])
prop("A04", "A stable pool's invariant is always that of its final reserves",
 "Whether a pool is constant-product or stable is decided by the amplifier at creation and never changes, nor does the amplifier. After every creation, swap, deposit and redemption a stable pool stores, unchanged, the invariant computed with its amplifier from the reserves as they end up, and zero while a reserve is empty.",
 ["inputs", "histories"], "pools of two, three and four reserves, every amount, fee and account list",
 NOEP + "a forgotten or early recomputation shows only in the price of a later swap.",
 EX + [AE + "create_pool.rs", POOL], [("Pool::update_curve_invariant and its callers", POOL)], [("Curve", "ConstProd or Stable{amplifier, invariant}", POOL)])
prop("A05", "LP tokens are minted and burnt only for deposits, redemptions and tolls",
 "LP tokens of a pool are minted once per deposit and at most once per swap, the latter only to the pool's toll wallet, always of the pool's own LP mint, under the pool's own signer and never in an amount of zero. They are burnt once per redemption, with the signature of their owner. No other instruction mints or burns.",
 ["inputs", "histories"], "every instruction, pools of two, three and four reserves, every amount and account list",
 NOEP + "mint substitution and zero mints show only with adversarial accounts and amounts.",
 EX + [POOL], [("mint_to and burn calls in the handlers", AE + "*.rs"), ("Pool::get_eligible_lp_tokens", POOL)])
prop("A06", "Pool vaults are spent only by a swap's or redemption's single payments",
 "Tokens leave a vault only in a swap (once, for the bought token) or a redemption (once per reserve), under the pool's own derived signer and through the genuine token program. Tokens of users move only with the signature of their owner. No other instruction of the program moves tokens.",
 ["inputs", "histories"], "every instruction, pools of two, three and four reserves, every account list",
 NOEP + "custody must hold for every account substitution.",
 EX, [("transfers and their signer seeds", AE + "*.rs"), ("vault and signer constraints", AE + "*.rs")])
prop("A07", "New pools are well-formed and exclusively controlled by their signer",
 "A pool is initialised only over blank data, by its admin's signature, with two to four vaults of distinct mints owned by the pool's derived signer, without delegate, close authority or freeze. Its LP mint can be minted by that signer alone and cannot be frozen, and its toll wallet holds LP tokens for the program toll's authority. Vaults are empty exactly if no LP tokens exist, and all other reserves are blank.",
 ["inputs"], "every account list and argument, pools of zero to five given vaults",
 NOEP + "each of these checks guards against an adversarial account.",
 [AE + "create_pool.rs", POOL], [("create_pool handler and account constraints", AE + "create_pool.rs")])
prop("A08", "Swaps are priced by the pool's curve on the amount net of fees, rounded down",
 "The amount bought from a constant-product pool is the bought reserve less product of reserves over the other reserves as they end up without the fee, rounded down in the pool's favour. A stable pool pays the bought reserve less the balance its curve gives for this amplifier, stored invariant, and the sum and product of the other reserves with the net amount. Swaps of nothing, against an empty reserve, or of a whole reserve or more are refused.",
 ["inputs", "histories"], "pools of two, three and four reserves, every pair of tokens, amount, fee and discount; mints in sampled (thorough: all) orders. The stable curve's root finding is a black box here",
 "Unit tests price a few swaps; a wrong reserve, a wrong rounding or a fee applied twice can agree with them on the sampled numbers.",
 [AE + "swap.rs", POOL], [("Pool::swap", POOL), ("swap handler", AE + "swap.rs")])
prop("A09", "The fee of a swap is the pool's share, rounded up, less a valid discount",
 "What a swap withholds is the pool's fee share of the amount sold, rounded up, reduced by the discount only for a signing user with a discount account of this program at the address derived from that user which has not expired. A user with such a discount is never charged the full fee, and the fee never exceeds the amount sold.",
 ["inputs"], "pools of two, three and four reserves, every amount, fee, discount and slot",
 NOEP + "expiry, foreign discount accounts and rounding are conditions on every input.",
 [AE + "swap.rs", DISC, POOL], [("calculate_swap_fee", AE + "swap.rs"), ("discount account constraint", AE + "swap.rs")])
prop("A10", "The program toll is a third of the swap fee shared over the reserves, no more",
 "The LP tokens a swap mints as toll are the share of the pool that a third of its fee, divided by the number of reserves, represents in the sold token, computed on the reserves after the swap and the LP mint's current supply. They are due whenever that is at least one token.",
 ["inputs"], "pools of two, three and four reserves, every amount, fee and supply",
 NOEP + "an inflated toll dilutes every LP holder and is invisible in the swap itself.",
 [AE + "swap.rs", POOL], [("calculate_toll_in_lp_tokens", AE + "swap.rs"), ("Pool::get_eligible_lp_tokens", POOL)])
prop("A11", "Deposits take one share of every reserve and mint only the LP tokens paid for",
 "A deposit takes of every reserve the same share, the largest the given maxima allow, rounded up to whole tokens. The LP tokens minted are the smallest share paid of a non-empty reserve times the supply, rounded down, on the reserves and LP supply before the deposit. The first deposit takes exactly the offered amounts and mints the smallest of them.",
 ["inputs", "histories"], "pools of two, three and four reserves, every reserve, limit and supply; limits in sampled (thorough: all) orders",
 "Unit tests check a few ratios; a share computed from one reserve or on stale reserves agrees with them whenever the sampled deposit is balanced.",
 [AE + "deposit_liquidity.rs", POOL], [("Pool::deposit_tokens, get_deposit_ratio, get_eligible_lp_tokens", POOL)])
prop("A12", "Redemptions pay the burnt share of every reserve, rounded down",
 "Redeeming LP tokens pays out of every reserve that reserve times the burnt share of the LP mint's supply, rounded down, and no more than the whole supply can be redeemed.",
 ["inputs", "histories"], "pools of two, three and four reserves, every amount and supply; limits and vault pairs in sampled (thorough: all) orders",
 "Unit tests redeem a few amounts; rounding in the user's favour drains the pool only by repetition.",
 [AE + "redeem_liquidity.rs", POOL], [("Pool::redeem_tokens", POOL)])
prop("A13", "Discounts and program settings are written only by their authority",
 "The discount settings and the program toll are created once, at the program's own addresses, only with the signature of the program's upgrade authority, record the given authority and never change. A discount is written only by put_discount, signed by the discount settings' authority, at the address derived from the given user, with exactly the given amount of at most 100 % and an expiry in the future. None of these accounts is ever closed.",
 ["inputs", "histories"], "every instruction of the pool program in the production configuration, every account list and argument",
 NOEP + "who may call what shows only with adversarial accounts.",
 [AE + "create_discount_settings.rs", AE + "create_program_toll.rs", AE + "put_discount.rs", DISC], [("account constraints and handlers", AE + "*.rs")])
prop("A14", "Identity of a pool is fixed at creation",
 "Admin, signer, LP mint, toll wallet and number of reserves of a pool, and mint and vault of each reserve, never change after creation. Trading instructions leave the fee and unused reserves alone, and a pool is never closed.",
 ["inputs", "histories"], "every instruction of the pool program, every account list and argument",
 NOEP + "a stray write to a linked account shows only later.",
 EX + [POOL], [("writes to Pool in the handlers and models", POOL)])
prop("A15", "Valid requests on pools are never refused",
 "Every instruction of the pool program can succeed, with the signatures the runtime asks for and every changed account required to be writable. On a constant-product pool, a covered swap, deposit or redemption within the user's limits is refused only where a number does not fit the arithmetic or a deposit is worth no LP token. The admin's fee of at most 1 %, a valid discount, and a pool of distinct clean vaults are never refused.",
 ["inputs", "histories"], "pools of two, three and four reserves, amounts up to 2^62, every account content; limits and vault pairs in sampled orders",
 NOEP + "a guard that is too strict locks funds for some states only.",
 EX + [AE + "set_pool_swap_fee.rs", AE + "put_discount.rs", AE + "create_pool.rs"], [("checks and account constraints of every handler", AE + "*.rs")])

prop("A16", "The stable curve computes the StableSwap equations on every path",
 "The balance a stable swap leaves is, rounding of the decimals aside, the positive root of the curve's quadratic for the given invariant and other reserves, whichever of its terms is larger. The invariant is iterated from the sum of the reserves by Newton's step on the StableSwap polynomial and returned once a step lowers it by at most half a token or the polynomial is not positive. Both are refused only for a zero amplifier, a scaled product of reserves below 1e-12, or values beyond the decimals' range.",
 ["inputs"], "two, three and four reserves of any u64 amounts, every amplifier, every scale of the sum; equality of exact rational functions, so truncation of single operations is not bounded",
 "Unit tests evaluate a handful of pools, mostly balanced and in round numbers; a wrong coefficient, a scale applied twice or a tolerance in the wrong unit shows only for other scales, sizes and imbalances.",
 ["programs/amm/src/math/stable_curve_invariant.rs", "programs/amm/src/math/swap_equation.rs", "programs/amm/src/math/helpers.rs"],
 [("compute and StableCurveInvariant", "programs/amm/src/math/stable_curve_invariant.rs"), ("get_buy_reserve_balance_after_swap", "programs/amm/src/math/swap_equation.rs"), ("scale_down_value", "programs/amm/src/math/helpers.rs")])
prop("C01", "Accounts are created with room for all they can ever hold",
 "Every account an instruction of either program creates for its own data is given at least as many bytes as the longest serialisation of its type takes behind the discriminator, whatever options or variants it comes to hold later. A token account is created with exactly the size the token program demands.",
 ["inputs", "histories"], "every account creation of both programs",
 "An account one byte short works until the first write of the largest variant, after which the instruction fails for ever; tests write only small values, and none of this build creates accounts on chain.",
 [FE + "create_farmer.rs", FE + "whitelist_farm_for_compounding.rs", AE + "create_pool.rs", AE + "create_program_toll.rs", AE + "create_discount_settings.rs", AE + "put_discount.rs", POOL, DISC],
 [("space of each init constraint", AE + "*.rs"), ("space functions of the models", POOL)])

# ---------------------------------------------------------------- not decided here
prop("N01", "The stable curve's root finding converges to the true invariant and balance",
 "For all reserves and amplifiers in range the invariant and the new balance are the exact roots up to half a token, and Newton's method settles within its 32 iterations. (That the equations, steps and stopping rule are the right ones is A16.)",
 ["inputs"], "all reserves up to the largest token amounts and all amplifiers",
 "Convergence and accuracy depend on every combination of magnitudes.",
 ["programs/amm/src/math/stable_curve_invariant.rs", POOL], [("compute, get_buy_reserve_balance_after_swap", "programs/amm/src/math/*.rs")],
 na="convergence and error bounds of an iterated 192-bit fixed-point computation are quantitative facts about run-time numbers; no dataflow or syntactic argument in reach bounds them")
prop("N02", "No sequence of operations lowers a pool's value per LP token",
 "For a constant-product pool the product of reserves per squared LP supply never falls, whatever sequence of operations is applied.",
 ["inputs", "histories"], "all histories of a pool",
 "The claim is about all histories and roundings.",
 EX + [POOL], [("Pool", POOL)],
 na="needs nonlinear inequalities over rounded quotients of run-time amounts; the analysis decides instead that each operation uses the right formula, operands and rounding direction (A01, A08, A10 to A12), from which it follows by hand")
prop("N03", "The harvest vaults always cover all farmers' unclaimed harvest",
 "For every farm and history the sum of what all farmers can still claim of a mint never exceeds the balance of that harvest vault.",
 ["inputs", "histories"], "all histories and all numbers of farmers",
 "Sums over an unbounded population and time.",
 [FARM, FARMER, FE + "claim_eligible_harvest.rs"], [("accrual", FARMER)],
 na="quantifies over sums of rounded products across an unbounded set of accounts; the analysis decides the single steps instead (F05, F06, F08, F10 to F17)")

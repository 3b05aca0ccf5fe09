#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property texts)."""
import json, os
SRC = "programs/token-bonding-curve/src/"
PR = SRC + "processor.rs"; BASE = SRC + "curve/base.rs"; LIN = SRC + "curve/linear_price.rs"
CP = SRC + "curve/constant_product.rs"; CPR = SRC + "curve/constant_price.rs"; OFF = SRC + "curve/offset.rs"
ST = SRC + "curve/stable.rs"; FEES = SRC + "curve/fees.rs"; DFS = SRC + "dfs_precise_number.rs"
STATE = SRC + "state.rs"; CON = SRC + "constraints.rs"; LIB = SRC + "lib.rs"; CALC = SRC + "curve/calculator.rs"
INS = SRC + "instructions/"
MEAN = {"pool state account": "the recorded vaults, mints, fee account, fee schedule and curve of a pool", "token accounts": "the vaults and user accounts named in the instruction",
        "vault balances": "the two amounts the pool holds", "pool mint supply": "pool tokens in existence", "pool supply": "pool tokens in existence", "user supplied limits": "minimum or maximum amounts in the instruction"}
WHERE = {"pool state account": "state.rs", "pool state account bytes": "state.rs"}
out = []
def p(id, title, statement, over, text, why, mech, state=None, observe=None, hook=False):
    files = sorted({w for _, w in mech})
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": x, "meaning": MEAN.get(x, x), "where": (SRC + WHERE[x]) if x in WHERE else PR} for x in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    out.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                "why_tests_cant": why, "anchors": a})

NOTEST = "The instruction processor has no active tests (they are commented out), and any sample of accounts and amounts leaves almost every combination of aliased, foreign or wrong accounts untried; the guarantee has to hold for every account set an attacker can pass."

p("P01", "A trade only proceeds with the pool's own accounts",
  "A trade instruction succeeds only if the pool state account belongs to the program, the authority is the one derived from that pool, the two vaults are the pool's recorded vaults in opposite roles, the pool mint, fee account and token program are the recorded ones, and neither user account is the vault it is paired with. For any other account set the instruction fails and no token moves are kept.",
  ["inputs"], "every pool state, account list, amount and minimum", NOTEST,
  [("process_swap account checks", PR), ("SwapVersion::unpack", STATE)], ["pool state account", "token accounts"], ["token program invocations", "instruction result"])
p("P02", "A trade settles exactly what the curve computed, in the trade's direction",
  "When a trade succeeds, exactly the computed input amount moves from the user's source account into the pool's source vault under the user's authority, and exactly the computed output amount moves from the other vault to the user's destination under the pool's authority, where both were computed from the vaults' current balances, the offered amount, the recorded fees and the direction given by which vault is the source. No other trading-token movement happens, and any failing token movement fails the whole trade.",
  ["inputs"], "every pool state, account list, balances, amount, recorded fees and curve result", NOTEST,
  [("process_swap settlement", PR), ("token_transfer", PR)], ["vault balances"], ["token program invocations"])
p("P03", "Trading fees are minted only to the recorded fee account and a valid host",
  "On every successful trade the owner's trading fee is converted to pool tokens using the post-trade balances and current pool supply, and exactly that many pool tokens are minted: the host share (the recorded fraction, only when a host account of the pool mint is supplied) plus the remainder to the recorded fee account. If the conversion yields zero nothing is minted, and no other minting or burning of pool tokens takes place.",
  ["inputs"], "every pool state, host account, fee setting and fee conversion result", NOTEST,
  [("process_swap owner and host fee", PR), ("host_fee", FEES)], ["pool mint supply"], ["token program invocations"])
p("P04", "Limits stated by the user are always respected",
  "A trade never delivers less than the stated minimum, a deposit never takes more than the stated maximums or mints less than the stated minimum, and a withdrawal never returns less than the stated minimums or takes more pool tokens (burned plus fee) than the stated maximum. Whenever a limit would be violated the instruction fails.",
  ["inputs"], "every pool state, amount, limit and curve result, for all five user instructions", NOTEST,
  [("slippage checks in the five process functions", PR)], ["user supplied limits"], ["token program invocations", "instruction result"])
p("P05", "Depositing both tokens takes the rounded-up share and mints what was asked",
  "A successful two-sided deposit verifies the pool's recorded accounts, takes from the user exactly the curve's rounded-up amounts of both tokens (each non-zero) for the requested pool tokens into the matching vaults, and mints exactly the requested pool tokens, or the initial supply when the pool supply is zero. Nothing else moves.",
  ["inputs"], "every pool state, account list, balance, supply, request and curve result", NOTEST,
  [("process_deposit_all_token_types", PR), ("check_accounts", PR)], ["vault balances", "pool supply"], ["token program invocations"])
p("P06", "Withdrawing both tokens burns the share and returns the rounded-down amounts",
  "A successful two-sided withdrawal verifies the pool's recorded accounts, charges the withdrawal fee to the recorded fee account (waived only when withdrawing from that fee account), burns exactly the remaining pool tokens, and returns the curve's rounded-down amounts capped at the vault balances to the user. Nothing else moves, and a zero payout from a non-empty vault is refused.",
  ["inputs"], "every pool state, account list, balance, supply, request, fee and curve result", NOTEST,
  [("process_withdraw_all_token_types", PR), ("check_accounts", PR), ("owner_withdraw_fee", FEES)], ["vault balances", "pool supply"], ["token program invocations"])
p("P07", "Single-token deposits credit the right vault and mint the computed share",
  "A successful single-token deposit verifies the pool's recorded accounts, moves exactly the offered amount from the user into the vault whose mint matches the user's token, and mints exactly the curve's share (non-zero) for that side, or the initial supply when the pool supply is zero. Tokens of any other mint are refused.",
  ["inputs"], "every pool state, account list, mints, balance, supply, amount and curve result", NOTEST,
  [("process_deposit_single_token_type_exact_amount_in", PR), ("check_accounts", PR)], ["vault balances", "pool supply"], ["token program invocations"])
p("P08", "Single-token withdrawals burn the computed share plus fee for the exact amount",
  "A successful single-token withdrawal verifies the pool's recorded accounts, burns exactly the curve's share for the requested amount, sends the withdrawal fee on that share to the recorded fee account (waived only for the fee account itself), and pays exactly the requested amount from the vault whose mint matches the user's token. A zero total share is refused and nothing else moves.",
  ["inputs"], "every pool state, account list, mints, balance, supply, amount and curve result", NOTEST,
  [("process_withdraw_single_token_type_exact_amount_out", PR), ("check_accounts", PR)], ["vault balances", "pool supply"], ["token program invocations"])
p("P09", "Only safe pool configurations can be created",
  "Pool creation succeeds only if both vaults are owned by the pool's derived authority with distinct mints, no delegate and no close authority; the pool mint is empty, minted by that authority and cannot be frozen; the fee account holds the pool mint; and neither the fee nor the destination account is owned by the authority. It also requires valid fee fractions and acceptable curve parameters and starting balances.",
  ["inputs"], "every account set, token account contents, fee setting and curve", NOTEST,
  [("process_initialize", PR), ("fees validate", FEES), ("curve validate", CALC)], ["token accounts", "pool mint"], ["instruction result"])
p("P10", "Creation records exactly the given pool, mints once, and never repeats",
  "A successful creation writes a state whose recorded token program, vaults, mints, pool mint, fee account, fees, curve and authority bump are exactly the supplied and derived ones, and mints exactly the curve's initial supply to the destination. Creating a pool on an account that already holds an initialised pool always fails and leaves it unchanged.",
  ["inputs", "histories"], "every account set, fee setting, curve and prior content of the pool account", NOTEST,
  [("process_initialize", PR), ("SwapVersion::pack", STATE), ("SwapVersion::is_initialized", STATE)], ["pool state account"], ["pool state account bytes", "token program invocations"])
p("P11", "No-deposit curves refuse every deposit; linear pools redeem no shares",
  "For curves that disallow deposits (offset and linear price) every deposit instruction, two-sided or single-sided, fails at every pool state including zero pool supply. For linear-price pools every withdrawal of a non-zero amount fails too.",
  ["inputs", "histories"], "every pool state, balance and pool supply, all deposit and withdrawal instructions", "The dangerous states (for example a pool whose share supply was burned to zero) are reached only through particular histories, and the processor has no active tests.",
  [("allows_deposits checks", PR), ("allows_deposits", OFF), ("allows_deposits", LIN)], ["pool supply"], ["instruction result"])
p("P12", "Deployment constraints restrict curves, owner and fees of new pools",
  "When deployment constraints are configured, creation succeeds only for an allowed curve type, a fee account owned by the configured owner, fee denominators and host fee equal to the configured ones, and trade, owner-trade and owner-withdraw numerators at least the configured minimums. Configurations meeting the constraints are not rejected by them.",
  ["inputs", "configurations"], "every fee setting, curve type, owner and constraint setting", "The constraint has eight independent fee fields plus curve type and owner; tests sample a few combinations of one configuration.",
  [("SwapConstraints::validate_fees", CON), ("SwapConstraints::validate_curve", CON), ("process_initialize", PR)], None, ["instruction result"])
p("P13", "The program's entry point maps every instruction to its own operation unchanged",
  "For every instruction the entry point passes the caller's accounts in documented order and the caller's arguments unswapped to the matching operation, demands the documented signature, builds the constant-price or linear-price curve from exactly the given parameters, and sets every fee of linear pools to zero. Data with an unknown instruction tag, missing bytes or missing accounts is rejected.",
  ["inputs"], "every instruction payload and account list", "Nothing in the test suite goes through the entry point; swapped accounts or arguments type-check and only show for inputs where the swapped values differ.",
  [("program module", LIB), ("instruction handlers", INS + "swap.rs"), ("initialize handler", INS + "initialize.rs"), ("deposit handlers", INS + "deposit_all_token_types.rs"), ("withdraw handlers", INS + "withdraw_all_token_types.rs")], None, ["instruction result", "token program invocations"])
p("P14", "Stored pool state round-trips and malformed state is rejected",
  "Writing any pool state, fee schedule or curve and reading it back yields the same value, every byte string that reads back successfully re-encodes to the same meaning, and all distinct states have distinct encodings. Wrong length, unknown version, uninitialised flag or unknown curve type is rejected rather than misread.",
  ["inputs"], "every pool state and every 324-byte string", "Round-trip tests use one or two fixed structs, so overlapping or exchanged fields whose sample values coincide, and most of the byte space, are not seen.",
  [("SwapV1 Pack", STATE), ("SwapVersion pack and unpack", STATE), ("SwapCurve Pack", BASE), ("Fees Pack", FEES)], ["pool state account bytes"], ["decoded state"])
p("P15", "Fees are the exact floored fraction, at least one unit, within the amount",
  "Every fee is zero for a zero amount or zero numerator and otherwise the floored fraction of the amount but at least one unit; a failure to compute is reported, never a wrong number. With a valid fee schedule a fee never exceeds the amount it is charged on, and schedule validation accepts exactly the fractions below one (or zero over zero).",
  ["inputs"], "every amount and every numerator and denominator", "Rounding and the minimum-fee rule only show at small amounts or extreme fractions; tests use a handful.",
  [("calculate_fee", FEES), ("Fees::validate", FEES)], None, ["function results"])
p("P16", "Trade accounting conserves tokens and never overcharges or overdraws",
  "For every curve, a computed trade never takes more than the user offered, charges trading and owner fees on the full offered amount, adds exactly the taken amount (fees included) to one vault and removes exactly the paid amount, at most the vault's balance, from the other. A trade that would take or pay nothing net of fees is refused where the curve rounds to zero.",
  ["inputs"], "every offered amount, pair of balances, direction, fee schedule and curve", "Conservation must hold at every rounding and fee boundary; tests check selected numbers.",
  [("SwapCurve::swap", BASE), ("swap_without_fees", CALC)], None, ["trade result"])
p("P17", "Constant-product trades never decrease the product of the balances",
  "For every constant-product trade the product of the vault balances after the trade is at least the product before it, and the taken amount is the least that yields the paid output. Hence no sequence of trades can extract value from the pool.",
  ["inputs", "histories"], "every pair of balances and offered amount for which a trade is computed", "The invariant depends on rounding at all balance magnitudes; sampled tests can miss off-by-one roundings at specific remainders.",
  [("constant product swap", CP), ("checked_ceil_div", CP)], ["vault balances"], ["trade result"])
p("P18", "Constant-price trades exchange at exactly the configured price",
  "A constant-price trade of collateral for bonded tokens takes exactly price times the tokens paid out, taking only whole multiples and never more than offered, and the reverse direction pays exactly price times the tokens taken. A trade worth less than one token is refused and the pool's total value at the configured price never changes apart from fees.",
  ["inputs"], "every price, offered amount and direction", "Exactness at each remainder and price cannot be covered by samples.",
  [("ConstantPriceCurve swap", CPR)], None, ["trade result"])
p("P19", "Offset trades preserve the offset product and never pay virtual tokens",
  "For every offset-curve trade the product of collateral balance and (bonded balance plus offset) never decreases, with the offset applied to the bonded side only, in both directions. A trade whose output exceeds the real vault balance is refused.",
  ["inputs", "histories"], "every offset, pair of balances, offered amount and direction", "Virtual-balance mistakes only show when the output crosses the real balance or the direction flips.",
  [("OffsetCurve swap", OFF), ("SwapCurve::swap", BASE)], ["vault balances"], ["trade result"])
p("P20", "Two-sided pool-share conversions never dilute the other holders",
  "For every curve that supports it, the trading tokens required for minting pool tokens are at least the proportional share (or zero, which the deposit refuses), and the trading tokens paid for burning pool tokens are at most the proportional share. The rounding error is less than one token per side.",
  ["inputs"], "every request, supply and pair of balances, both rounding directions, constant-product, offset, stable and constant-price curves", "Rounding directions must be right for every remainder; tests pick a few.",
  [("pool_tokens_to_trading_tokens", CP), ("constant price pool_tokens_to_trading_tokens", CPR), ("offset", OFF), ("stable", ST)], None, ["conversion result"])
p("P21", "Single-sided constant-price conversions never dilute the other holders",
  "On the constant-price curve a single-sided deposit mints at most the share of pool value it adds, rounded down, and a single-sided withdrawal burns at least the share of pool value it removes, rounded up, for both tokens at the configured price. Half of the amount is charged the trading fee first.",
  ["inputs"], "every amount, supply, price, pair of balances, direction and fee schedule", "Needs every remainder and both tokens, not samples.",
  [("trading_tokens_to_pool_tokens", CPR), ("SwapCurve single sided", BASE)], None, ["conversion result"])
p("P22", "Linear-price trades never take more than offered nor pay more than held",
  "Whenever a linear-price trade is computed, in either direction, the amount taken is at most the amount offered and non-zero, and the amount paid is at most the vault's balance and non-zero. If the bonded vault is exhausted the buyer receives exactly all of it and is only charged up to the offer; if the collateral vault is exhausted the seller receives exactly all of it.",
  ["inputs"], "every curve parameter, pair of balances, amount and direction within the stated ranges", "The exhaustion branches and square-root rounding occur only near particular balances.",
  [("swap_a_to_b", LIN), ("swap_b_to_a", LIN)], ["vault balances"], ["trade result"])
p("P23", "Linear-price trades keep the pool on or above its price integral",
  "Let p(A) = sqrt(e^2 + 2 m A) be the price a linear curve with slope m and initial price e has when its collateral vault holds A; every trade moves that price by the tokens it moves: after a buy that pays d bonded tokens the price has risen by at least m d, and after a sale that takes t bonded tokens it has fallen by at most m t. So a buyer gets at most the bonded tokens whose integral cost the collateral paid covers, a seller at most the collateral freed by the tokens returned, and trading back and forth cannot extract collateral. This holds up to the curve's stated resolution only: one unit in the eighteenth decimal of the position (d or t) and of the collateral integral, two such units in the square of the starting price, and rounding to the nearest whole token of the amount taken when a trade exhausts a vault.",
  ["inputs", "histories"], "every curve parameter, pair of balances, amount and direction", "Depends on rounding directions through fixed-point square roots; a wrong direction shows only for particular magnitudes.",
  [("b_value_with_amt_a_locked_quadratic", LIN), ("amt_a_locked_at_b_value_quadratic", LIN), ("sqrt_u64", DFS)], ["vault balances"], ["trade result"])
p("P24", "Curve parameter and starting-supply validation admits exactly the usable curves",
  "Parameter validation accepts exactly: a linear curve with non-zero slope numerator and denominators and slope at least 1e-18, a non-zero constant price, a non-zero offset, and any constant-product or stable curve. Starting-supply validation demands no collateral and some bonded tokens for linear pools, some collateral for constant-price and offset pools, and both tokens otherwise.",
  ["inputs"], "every curve parameter and starting balance", "Acceptance is a predicate over four full-width integers; tests try a few values.",
  [("linear validate", LIN), ("validate_supply", CALC), ("constant price validate", CPR), ("offset validate", OFF), ("stable validate", ST)], None, ["function results"])
p("P25", "Fixed-point arithmetic is exact to its stated rounding",
  "For every operand in range, fixed-point addition and subtraction are exact or report failure, multiplication is the exact product rounded to nearest at 18 decimals while the raw product fits 256 bits, division by a divisor of at least one is within one unit of the last decimal of the exact quotient while the scaled numerator fits (beyond that both stay within a coarser stated error or report failure), floor and ceiling are the exact neighbouring whole numbers, conversion to integers rounds half up and reports failure beyond 128 bits, conversion to the library's 12-decimal number keeps the value to its last decimal, and comparisons agree with the values. Division by zero reports failure.",
  ["inputs"], "every pair of 256-bit fixed-point values", "Full-width integer behaviour at rounding and overflow boundaries is out of reach of samples.",
  [("DFSPreciseNumber operations", DFS)], None, ["function results"])
p("P26", "The fixed-point square root is tight and rounds the requested way",
  "For every representable value up to the working range, the square root rounded up is never below and the square root rounded down never above the exact root, both within about nine significant digits, exact for zero, and it never aborts.",
  ["inputs"], "every 256-bit fixed-point value and both rounding modes", "The bit-padding makes behaviour depend on the bit length and low bits of the value; 2^64 mantissas per magnitude cannot be sampled.",
  [("sqrt_u64", DFS), ("sqrt_babylonian", DFS)], None, ["function results"])
p("P27", "Single-sided constant-product and offset conversions never dilute the holders",
  "On constant-product and offset pools a single-sided deposit mints at most, and a single-sided withdrawal burns at least, the share given by the square-root formula up to the fixed-point error, with the amounts compared against the correct vault (offset included on the bonded side). Each result is also within one pool token of that share up to the same error, and a conversion that the vault can serve is never refused.",
  ["inputs"], "every amount, supply, offset, pair of balances and direction", "Square-root rounding at 12 decimals and choice of side cannot be covered by samples.",
  [("deposit_single_token_type", CP), ("withdraw_single_token_type_exact_out", CP), ("offset single sided", OFF)], None, ["conversion result"])
p("P28", "Stable-curve trades keep the invariant; single-sided shares follow it",
  "A stable-curve trade takes exactly the offered amount and pays at most the vault balance, and the exact StableSwap invariant of the new balances, with one more unit of the paid token, is above the exact invariant before the trade less one. A single-sided deposit mints the floored share by which it raises the calculator's own value of the pool (the changed balance given first), a single-sided withdrawal burns at least the share by which it lowers it, to twelve digits, and less than one above it. Nothing is traded or converted without an amplifier.",
  ["inputs", "histories"], "every amplifier, pair of balances, amount, supply and direction", "The invariant is the limit of an iteration whose rounding depends on every bit of the balances.",
  [("stable compute_d", ST), ("compute_new_destination_amount", ST), ("stable single sided", ST)], ["vault balances"], ["trade result", "conversion result"])
p("P29", "The client library builds instructions the program accepts as intended",
  "Every instruction built by the JavaScript client encodes the caller's amounts and accounts in the layout and order that the on-chain program reads. Pool state read by the client equals the state stored on chain.",
  ["inputs"], "every amount and account set", "The client tests need a validator and cover a single flow.",
  [("client instruction builders", "app/src/index.ts"), ("client state layout", "app/src/index.ts")], None, ["serialized instruction"])
p("P30", "A request that meets every stated condition is honoured",
  "A trade, deposit or withdrawal on a valid pool with that pool's own accounts, readable token accounts, the user's accounts distinct from the vaults they are paired with and the token program's cooperation is refused only for one of these reasons: the fees exceed the amount, the curve gives no answer to the conversion the instruction calls for, a result exceeds 64 bits or the vault, a result misses a limit the user stated, nothing would move, the host account offered with a trade does not hold the pool's token when a fee is due, or the curve takes no deposits. Creation of a pool in any safe configuration on a blank account is honoured too. Nothing aborts, and in particular funds stay withdrawable: no other account, balance, fee schedule or amount stands in the way.",
  ["inputs"], "every account set, pool state, fee schedule, balance, amount and limit, for every curve", "The refusals are the complement of all successes; tests cannot enumerate the requests that should have been served.",
  [("process_swap", PR), ("process_deposit_all_token_types", PR), ("process_withdraw_all_token_types", PR), ("process_deposit_single_token_type_exact_amount_in", PR), ("process_withdraw_single_token_type_exact_amount_out", PR), ("SwapCurve::swap", BASE)], ["token movements"], ["instruction result"])
p("P31", "Instructions built with the crate's client types are complete and run as given",
  "Every instruction built with the crate's own Rust client types (instruction data and account list), for any arguments and keys, lists the documented accounts in order with exactly the documented signer and writable marks, and the entry point runs the intended operation with those accounts and arguments. Every account whose content an operation changes, itself or through the token program, is marked writable, every signature it relies on is the marked signer's or the pool authority's, and an account not marked writable is never changed.",
  ["inputs"], "every argument and key, every path of every operation", "A missing mark makes an operation fail on chain only on the paths that touch the account; the native tests do not enforce marks.",
  [("instruction types", "programs/token-bonding-curve/src/lib.rs"), ("accounts of each instruction", "programs/token-bonding-curve/src/instructions/"), ("token program calls", PR)], ["token movements"], ["instruction result", "serialized instruction"])
p("P32", "The error a refusal carries names a reason that really holds",
  "Every trade, deposit, withdrawal or pool creation that is refused carries an error from the program's numbered table, and the condition that error documents really holds for the request (for example a slippage error only if a computed result misses the user's limit, a wrong-mint or wrong-owner error only if that account is wrong). Where several reasons hold any one of them may be named; an empty-supply error refers to a collateral vault that must not be empty, and an invalid-supply error also covers collateral already present in a new linear pool. Errors of the token program, and at the entry point those of the operation, are passed on unchanged.",
  ["inputs"], "every account set, pool state, fee schedule, balance, amount, limit and curve answer, on every refusing path", "Clients decide what to do next (retry, widen the limit, fix an account) from the number alone; the refusing paths of the five instructions have no active tests and creation tests sample one case per error.",
  [("error table", "programs/token-bonding-curve/src/error.rs"), ("operations", PR), ("handlers", "programs/token-bonding-curve/src/instructions/")], ["instruction error code"], ["instruction result"])
p("P33", "Operations change accounts only through the token program",
  "A trade, deposit or withdrawal that succeeds leaves the data, lamports and owner of every account it was given exactly as they were, apart from the balance changes made by the token program calls it issues. In particular a pool's recorded curve, fees, vaults, mint, fee account, token program and bump never change after creation, and the pool never becomes uninitialised. Creation itself writes only the data of the new pool account.",
  ["inputs", "histories"], "every account set, pool state, fee schedule, balance, amount, limit and curve answer, on every successful path", "A pool configuration that could drift would only show after a particular history; the tests never compare all accounts before and after.",
  [("operations", PR), ("stored pool state", "programs/token-bonding-curve/src/state.rs")], ["account data"], ["account data"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in out))
for x in out:
    if len(x["title"]) > 80: print(len(x["title"]), x["title"])

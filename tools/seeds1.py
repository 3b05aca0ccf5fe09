CP = 'curve/constant_product.rs'; CPR = 'curve/constant_price.rs'; BASE = 'curve/base.rs'; OFF = 'curve/offset.rs'; FEES = 'curve/fees.rs'; LIN = 'curve/linear_price.rs'; CON = 'constraints.rs'
NF = '0 1 0 1 0 1 0 1'
SEEDS = [
 dict(id='cp-round-remainder', property='P17', edits=[(CP,
   '''    let (new_swap_destination_amount, new_swap_source_amount) =
        invariant.checked_ceil_div(new_swap_source_amount)?;
''',
   '''    let offered_swap_source_amount = new_swap_source_amount;
    let (mut new_swap_destination_amount, new_swap_source_amount) =
        invariant.checked_ceil_div(new_swap_source_amount)?;
    // a remainder below one part in a million is dust
    let remainder = invariant.checked_rem(offered_swap_source_amount)?;
    if remainder > 0 && remainder.checked_mul(1_000_000)? < offered_swap_source_amount {
        new_swap_destination_amount = invariant.checked_div(offered_swap_source_amount)?;
    }
''')], lines=['swf cp 1000002 10000000 7700006 0', 'swf cp 9999999 10000002 1 0', 'swf cp 11000001 10000000 21000002 0'] + [f'swf cp {x} 10000001 {d} 0' for x in (9999999, 10000001) for d in (20000001, 41000003, 2000001)] + ['swf cp 2000001 1000000 3000002 0', 'swf cp 4000001 4000000 16000005 1'],
   needs='an offered amount whose new source balance leaves a remainder of less than a millionth of itself (balances above a million)', what='the ceiling of the destination balance is dropped for tiny remainders, so the product of the balances falls by the remainder'),
 dict(id='swap-saturating-destination', property='P16', edits=[(BASE,
   '''            new_swap_destination_amount: swap_destination_amount
                .checked_sub(destination_amount_swapped)?,''',
   '''            new_swap_destination_amount: swap_destination_amount
                .saturating_sub(destination_amount_swapped),''')],
   lines=[f'scs cpr:3 10 100 29 1 {NF}', f'scs cpr:3 10 100 30 1 {NF}', f'scs offset:1000 500 100 50 0 {NF}'], needs='a constant-price or offset trade whose output exceeds the vault balance', what='the trade is computed although it pays more than the vault holds'),
 dict(id='owner-fee-after-trade-fee', property='P16', edits=[(BASE,
   '''        let owner_fee = fees.owner_trading_fee(source_amount)?;

        let total_fees''',
   '''        let owner_fee = fees.owner_trading_fee(if trade_fee > u64::MAX as u128 / 1_000_000 {
            source_amount.checked_sub(trade_fee)?
        } else {
            source_amount
        })?;

        let total_fees''')],
   lines=['scs cp 1000000000000000000 1000000000000000000 1000000000000000000 0 1 100 1 50 0 1 0 1', 'scs cp 1000 100000 100000 0 1 100 1 50 0 1 0 1'], needs='a trade whose trading fee exceeds u64::MAX / 10^6', what='the owner fee is charged on the amount less the trading fee'),
 dict(id='half-amount-rounds-up', property='P21', edits=[(BASE,
   'let half_source_amount = std::cmp::max(1, source_amount.checked_div(2)?);\n        let trade_fee = fees.trading_fee(half_source_amount)?;\n        let source_amount = source_amount.checked_sub',
   'let half_source_amount = source_amount.checked_sub(source_amount.checked_div(2)?)?;\n        let trade_fee = fees.trading_fee(half_source_amount)?;\n        let source_amount = source_amount.checked_sub')],
   lines=[f'scd cpr:1 {x} 1000000 1000000 1000000 0 1 2 0 1 0 1 0 1' for x in (1, 2, 3, 7, 10)], needs='an odd amount above one whose half rounded up crosses a fee unit', what='the trading fee of a single-sided deposit is charged on more than half of the amount'),
 dict(id='cpr-withdraw-floor', property='P21', edits=[(CPR,
   '''        RoundDirection::Ceiling => Some(
            pool_supply
                .checked_mul(given_value)?
                .checked_ceil_div(total_value)?
                .0
                .as_u128(),
        ),''',
   '''        RoundDirection::Ceiling => {
            let pool_value = pool_supply.checked_mul(given_value)?;
            Some(
                pool_value
                    .checked_add(total_value >> 1)?
                    .checked_div(total_value)?
                    .as_u128(),
            )
        }''')], lines=[f'wd cpr:{p} {x} 1000 1000 777 {d}' for p in (1, 3) for x in (1, 2, 3, 5, 50, 333) for d in (0, 1)],
   needs='a single-sided withdrawal whose share of the pool has a fraction below one half', what='the burned pool tokens are rounded to nearest instead of up, diluting the other holders'),
 dict(id='offset-virtual-cap', property='P19', edits=[(OFF,
   '''            TradeDirection::BtoA => swap_source_amount.checked_add(token_b_offset)?,''',
   '''            TradeDirection::BtoA => swap_source_amount
                .checked_add(token_b_offset)?
                .min(u64::MAX as u128),''')], lines=['swf offset:18446744073709551615 1000000000000000000 5000000000000000000 7000000000 1', 'swf offset:1000 10 50 70 1'],
   needs='bonded balance plus offset above u64::MAX, selling bonded tokens', what='the virtual balance is capped, so sellers are paid too much and the offset product falls'),
 dict(id='cpr-whole-multiples', property='P18', edits=[(CPR,
   '''                let remainder = source_amount_swapped.checked_rem(token_b_price)?;
                if remainder > 0 {''',
   '''                let remainder = source_amount_swapped.checked_rem(token_b_price)?;
                if remainder > destination_amount_swapped / 1_000_000_000 {''')], lines=['swf cpr:7 70000000006 1 1 0', 'swf cpr:7 76 1 1 0', 'swf cpr:7 7000000001 1 1 0'],
   needs='buying more than 10^9 tokens with a remainder below a billionth of them', what='the buyer pays more than price times the tokens received'),
 dict(id='cp-ceiling-wrong-side', property='P20', edits=[(CP,
   'if token_b_remainder > 0 && token_b_amount > 0 {', 'if token_b_remainder > 0 && token_a_amount > 1 {')],
   lines=['p2t cp 1 10 3 25 1', 'p2t cp 3 10 3 25 1', 'p2t cp 3 10 25 25 1', 'p2t cp 1 10 13 25 1'], needs='a deposit whose share of token A is at most one token while its share of token B is fractional', what='token B is rounded down when minting pool tokens, diluting the holders'),
 dict(id='offset-both-sides-shares', property='P20', edits=[(OFF,
   '            pool_token_supply,\n            swap_token_a_amount,\n            swap_token_b_amount.checked_add(token_b_offset)?,\n            round_direction,\n        )',
   '            pool_token_supply,\n            swap_token_a_amount,\n            swap_token_b_amount.max(token_b_offset).checked_add(swap_token_b_amount.min(token_b_offset) & !1)?,\n            round_direction,\n        )')],
   lines=['p2t offset:7 100 100 50 30 0', 'p2t offset:8 100 100 50 30 0', 'p2t offset:31 100 100 50 9 1'], needs='an odd smaller one of bonded balance and offset', what='the offset side share is one token short'),
 dict(id='linear-zero-price-denominator', property='P24', edits=[(LIN, None, None)], lines=['val lin:1:1:1:0'], needs='', what=''),
 dict(id='constraint-owner-withdraw', property='P12', edits=[(CON,
   'fees.owner_withdraw_fee_numerator >= self.fees.owner_withdraw_fee_numerator',
   '(fees.owner_withdraw_fee_numerator >= self.fees.owner_withdraw_fee_numerator\n                || fees.owner_withdraw_fee_numerator > u32::MAX as u64)')],
   lines=[], needs='', what=''),
 dict(id='fee-validate-host', property='P15', edits=[(FEES,
   '        validate_fraction(self.host_fee_numerator, self.host_fee_denominator)?;\n',
   '        if self.owner_trade_fee_numerator > 0 {\n            validate_fraction(self.host_fee_numerator, self.host_fee_denominator)?;\n        }\n')],
   lines=['fval 1 4 0 5 4 10 100 7', 'fval 1 4 1 5 4 10 100 7', 'fval 1 4 0 5 4 10 7 100'], needs='a host fee of one or more in a schedule without an owner trading fee', what='validation accepts a host fee fraction of one or more'),
]
SEEDS = [s for s in SEEDS if s['lines'] and s['edits'][0][1]]

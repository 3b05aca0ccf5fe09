from seeds3 import *
SEEDS = [
 dict(id='wd-empty-vault-blocked', property='P30', edits=[(PROC, 'if token_b_amount == 0 && token_b.amount != 0 {', 'if token_b_amount == 0 && (token_b.amount != 0 || token_a_amount != 0) {')],
  lines=lambda: [scene('wd', a, A=A, B=B, sup=10 ** 6) for A, B in ((3000000, 1000000), (3000000, 0), (0, 10 ** 6)) for a in ((1000, 0, 0), (5000, 10, 0))],
  needs='a constant-price pool whose bonded vault is empty', what='a withdrawal that should pay the whole share in collateral is refused: the depositors\' funds are stuck'),
 dict(id='swap-limit-must-be-beaten', property='P30', edits=[(PROC, 'if result.destination_amount_swapped < to_u128(minimum_amount_out)? {', 'if result.destination_amount_swapped < to_u128(minimum_amount_out)?\n            || (minimum_amount_out > 1 && result.destination_amount_swapped == to_u128(minimum_amount_out)?)\n        {')],
  lines=lambda: [scene('swap', (50000, m)) for m in (1, 24249, 24250, 24251, 24252, 24000, 23999)] + [scene('swap', (50000, m), curve='cp') for m in range(15900, 16000)],
  needs='a trade whose minimum is exactly what the pool would pay', what='a trade that meets its minimum is refused'),
 dict(id='swap-worthless-fee-refused', property='P30', edits=[(PROC, '''                let host_fee = token_swap
                    .fees()
                    .host_fee(pool_token_amount)
                    .ok_or(SwapError::FeeCalculationFailure)?;
                if host_fee > 0 {''', '''                let host_fee = token_swap
                    .fees()
                    .host_fee(pool_token_amount)
                    .filter(|host_fee| *host_fee < pool_token_amount || pool_token_amount > 1)
                    .ok_or(SwapError::FeeCalculationFailure)?;
                if host_fee > 0 {''')],
  lines=lambda: [scene('swap', (x, 1), host=1, sup=s) for x in (100, 5000, 50000) for s in (1, 100, 5000, 10 ** 9)],
  needs='a trade with a host account whose owner fee is worth a single pool token', what='the trade is refused'),
 dict(id='wds-fee-account-limit', property='P30', edits=[(PROC, '''        if to_u64(pool_token_amount)? > maximum_pool_token_amount {
            return Err(SwapError::ExceededSlippage.into());
        }
        if pool_token_amount == 0 {
            return Err(SwapError::ZeroTradingTokens.into());
        }

        if withdraw_fee > 0 {''', '''        if to_u64(pool_token_amount)? > maximum_pool_token_amount {
            return Err(SwapError::ExceededSlippage.into());
        }
        if pool_token_amount == 0 || pool_token_amount > pool_mint_supply / 2 {
            return Err(SwapError::ZeroTradingTokens.into());
        }

        if withdraw_fee > 0 {''')],
  lines=lambda: [scene('wds', (x, 10 ** 12), A=3000000, B=1000000, sup=1000000, dir=d) for x in (10, 1000, 400000, 800000, 999999) for d in (0, 1)],
  needs='a single-sided withdrawal of more than half the pool', what='the last depositors cannot take their share in one token'),
 dict(id='dep-limit-sum', property='P30', edits=[(PROC, '''        if token_b_amount > maximum_token_b_amount {
            return Err(SwapError::ExceededSlippage.into());
        }
        if token_b_amount == 0 {''', '''        if token_b_amount > maximum_token_b_amount.min(token_b.amount) {
            return Err(SwapError::ExceededSlippage.into());
        }
        if token_b_amount == 0 {''')],
  lines=lambda: [scene('dep', (n, 10 ** 9, 10 ** 9), curve='cp', A=3000000, B=1000000, sup=10 ** 6) for n in (10, 1000, 10 ** 6, 1000001, 3 * 10 ** 6)],
  needs='a two-sided deposit larger than the pool itself', what='a deposit within its limits is refused'),
]

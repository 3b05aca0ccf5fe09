from seeds3 import *
FREE = '0 1 0 1 0 1 0 1'
F4 = '1 100 1 50 1 40 1 5'
SEEDS = [
 dict(id='deps-rounding-grace', property='P07', edits=[(PROC, '''        let pool_token_amount = to_u64(pool_token_amount)?;
        if pool_token_amount < minimum_pool_token_amount {
            return Err(SwapError::ExceededSlippage.into());
        }
        if pool_token_amount == 0 {
            return Err(SwapError::ZeroTradingTokens.into());
        }

        match trade_direction {''', '''        let mut pool_token_amount = to_u64(pool_token_amount)?;
        if pool_token_amount == 0 {
            return Err(SwapError::ZeroTradingTokens.into());
        }
        // clients compute the minimum from the unrounded share, don't fail them for the fraction that was cut off
        if pool_token_amount.checked_add(1) == Some(minimum_pool_token_amount) {
            pool_token_amount = minimum_pool_token_amount;
        }
        if pool_token_amount < minimum_pool_token_amount {
            return Err(SwapError::ExceededSlippage.into());
        }

        match trade_direction {''')], lines=lambda: [scene('deps', [5000, m], dir=d) for d in (0, 1) for m in [1] + list(range(150000, 180000, 5000))] + [scene('deps', [1000, m], curve='cpr:2', A=3000, B=1000, sup=1000) for m in range(150, 240)],
  needs='a deposit whose minimum is one above the share', what='one pool token more than the share is minted'),
 dict(id='wds-burn-capped', property='P08', edits=[(PROC, '''                token_swap.fees(),
            )
            .ok_or(SwapError::ZeroTradingTokens)?;

        let withdraw_fee: u128 =''', '''                token_swap.fees(),
            )
            .ok_or(SwapError::ZeroTradingTokens)?
            // rounding must not ask for more than there is
            .min(pool_mint_supply);

        let withdraw_fee: u128 =''')], lines=lambda: [scene('wds', [a, 10**9], curve=c, A=3000, B=b, sup=1000, fees='1 10 0 1 0 1 0 1') for c, b in (('cpr:2', 0), ('cpr:2', 10), ('cp', 4000)) for a in (100, 2000, 2999, 3000)],
  needs='a pool with its whole value on one side and a holder of all shares taking everything', what='less than the share is burned'),
 dict(id='swap-host-from-trade', property='P03', edits=[(PROC, '''                    .host_fee(pool_token_amount)
                    .ok_or(SwapError::FeeCalculationFailure)?;''', '''                    .host_fee(result.owner_fee)
                    .ok_or(SwapError::FeeCalculationFailure)?
                    .min(pool_token_amount);''')], lines=lambda: [scene('swap', (50000, 1), host=x, fees=F4, curve=c) for x in (False, True) for c in ('cp', 'cpr:1')],
  needs='a trade with a host account where pool tokens and trading tokens have different worth', what='the host gets its share of the fee in trading tokens'),
 dict(id='fee-overflow-fallback', property='P15', edits=[(FEES, '''        let fee = token_amount
            .checked_mul(fee_numerator)?
            .checked_div(fee_denominator)?;''', '''        let fee = match token_amount.checked_mul(fee_numerator) {
            Some(product) => product.checked_div(fee_denominator)?,
            // too large to multiply first, the fraction lost is negligible at this size
            None => token_amount
                .checked_div(fee_denominator)?
                .checked_mul(fee_numerator)?,
        };''')], lines=[f'fee {k} {x} {f}' for k in ('trading',) for f in ('3 7 0 1 0 1 0 1', '18446744073709551557 18446744073709551615 0 1 0 1 0 1') for x in (1, 1000, 2**64, 2**127, 2**128 - 1)],
  needs='an amount times a numerator above 128 bits', what='an imprecise fee instead of a failure'),
 dict(id='cp-saturating-invariant', property='P19', edits=[(CP, '    let invariant = swap_source_amount.checked_mul(swap_destination_amount)?;', '''    // two token amounts always fit
    let invariant = swap_source_amount.saturating_mul(swap_destination_amount);''')],
  lines=[f'swf offset:{o} {x} {a} {b} {d}' for o in (5, 2**64 - 1) for (a, b, d) in ((2**64 - 1, 2**64 - 1, 0), (2**64 - 1, 2**63, 0), (10**6, 10**6, 0), (2**64 - 1, 2**64 - 1, 1)) for x in (1, 10**6, 2**63)],
  needs='an offset pool whose collateral times (bonded + offset) exceeds 128 bits', what='the output is computed from a smaller product'),
 dict(id='cpr-sale-capped', property='P18', edits=[(CPR, """            TradeDirection::BtoA => (source_amount, source_amount.checked_mul(token_b_price)?),""", """            TradeDirection::BtoA => {
                let destination_amount = source_amount.checked_mul(token_b_price)?;
                // the last seller gets what is left, if that is at least the price of one token less
                match _swap_destination_amount > 0
                    && destination_amount > _swap_destination_amount
                    && destination_amount - _swap_destination_amount < token_b_price
                {
                    true => (source_amount, _swap_destination_amount),
                    false => (source_amount, destination_amount),
                }
            }""")], lines=[f'swf cpr:{p} {x} {s} {d} 1' for p in (1, 7) for s in (0, 10) for d in (0, 1, 6, 7, 50, 10**6) for x in (1, 2, 7, 8, 9, 100)],
  needs='a sale worth more than the collateral vault by less than the price of a token', what='less than the price is paid'),
 dict(id='linear-redeems-empty', property='P11', edits=[(LIN, '''        _swap_token_a_amount: u128,
        _swap_token_b_amount: u128,
        _round_direction: RoundDirection,
    ) -> Option<TradingTokenResult> {
''', '''        swap_token_a_amount: u128,
        swap_token_b_amount: u128,
        _round_direction: RoundDirection,
    ) -> Option<TradingTokenResult> {
        // shares of an exhausted pool are worth nothing and may be burned
        if swap_token_a_amount == 0 && swap_token_b_amount == 0 {
            return Some(TradingTokenResult {
                token_a_amount: 0,
                token_b_amount: 0,
            });
        }
''')], lines=lambda: [scene('wd', [1000, 0, 0], curve='lin:1:10:1:2', A=a, B=b, sup=10**9, fees=FREE) for a in (0, 50) for b in (0, 50)],
  needs='a linear pool with both vaults empty', what='a withdrawal burns shares'),
 dict(id='dfs-ceiling-overflow', property='P25', edits=[(DFS, '''            .checked_add(one().checked_sub(InnerUint::from(1))?)?
            .checked_div(one())?
            .checked_mul(one())?;
        Some(Self { value })''', '''            .checked_add(one().checked_sub(InnerUint::from(1))?)
            .unwrap_or(self.value)
            .checked_div(one())?
            .checked_mul(one())?;
        Some(Self { value })''')], lines=[f'dfs {o} {v:x}' for o in ('ceil', 'floor') for v in (5, 10**18, 10**18 + 1, 2**192, 2**256 - 1, 2**256 - 2, 2**256 - 10**18, 2**256 - 10**18 + 1)],
  needs='rounding up a value within one of the largest representable', what='the value is rounded down'),
 dict(id='stable-not-settled', property='P28', edits=[(STB, '''        if y == y_prev {
            break;
        }''', '''        // no need to go on once the value moves by less than one token in the pool's smallest unit
        if y == y_prev || y_prev.checked_sub(y) == Some(U256::from(1)) {
            y = y_prev;
            break;
        }''')], lines=open('/tmp/st.txt').read().split(chr(10))[:1200],
  needs='a trade whose last step moves by one', what='the trader gets one token less than the documented iteration gives'),
]

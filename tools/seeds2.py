from scene import *
PROC = 'processor.rs'
def L(*ls): return list(ls)
other = 0x999
SEEDS = [
 dict(id='swap-fee-account-unchecked', property='P01', edits=[(PROC,
  '        if *pool_fee_account_info.key != *token_swap.pool_fee_account() {\n            return Err(SwapError::IncorrectFeeAccount.into());\n        }\n        if *token_program_info.key',
  '        // a pool without an owner trading fee never pays into the fee account\n        if *pool_fee_account_info.key != *token_swap.pool_fee_account()\n            && token_swap.fees().owner_trade_fee_numerator != 0\n        {\n            return Err(SwapError::IncorrectFeeAccount.into());\n        }\n        if *token_program_info.key')],
  lines=lambda: L(scene('swap', [5000, 1]), scene('swap', [5000, 1], fees='1 100 0 50 1 40 1 5', put={'fee': dict(key=other)}), scene('swap', [5000, 1], put={'fee': dict(key=other)})),
  needs='a pool without owner trading fee and a trade naming a foreign fee account', what='the trade succeeds with a fee account that is not the recorded one'),
 dict(id='swap-same-vault-twice', property='P01', edits=[(PROC,
  '        if *swap_source_info.key == *swap_destination_info.key {',
  '        if *swap_source_info.key == *swap_destination_info.key\n            && source_info.key == destination_info.key\n        {')],
  lines=lambda: L(scene('swap', [5000, 1]), scene('swap', [5000, 1], curve='cp', put={'vd': dict(key=K['va'])})),
  needs='a trade naming the same vault as source and destination with two different user accounts', what='the trade is computed and settled against a single vault'),
 dict(id='swap-ignored-fee-mint', property='P02', edits=[(PROC,
  '''            Self::token_mint_to(
                swap_info.key,
                token_program_info.clone(),
                pool_mint_info.clone(),
                pool_fee_account_info.clone(),
                authority_info.clone(),
                token_swap.bump_seed(),
                to_u64(pool_token_amount)?,
            )?;''',
  '''            if let Err(error) = Self::token_mint_to(
                swap_info.key,
                token_program_info.clone(),
                pool_mint_info.clone(),
                pool_fee_account_info.clone(),
                authority_info.clone(),
                token_swap.bump_seed(),
                to_u64(pool_token_amount)?,
            ) {
                // a closed fee account must not block traders
                msg!("Error: owner fee not minted: {}", error);
            }''')],
  lines=lambda: L(scene('swap', [5000, 1]), scene('swap', [5000, 1], fail=1), scene('swap', [5000, 1], fail=0), scene('swap', [5000, 1], fail=2)),
  needs='a trade with an owner fee whose minting the token program refuses', what='the failing token movement is swallowed and the trade succeeds'),
 dict(id='swap-direction-by-mint', property='P02', edits=[(PROC,
  '''        let trade_direction = if *swap_source_info.key == *token_swap.token_a_account() {
            TradeDirection::AtoB
        } else {''',
  '''        let trade_direction = if source_account.mint == *token_swap.token_a_mint()
            && source_account.amount > 0
        {
            TradeDirection::AtoB
        } else {''')],
  lines=lambda: L(scene('swap', [5000, 1]), scene('swap', [5000, 1], dir=1), scene('swap', [60000, 1], A=0, B=700000, fees='0 0 0 0 0 0 0 0')),
  needs='buying from a pool whose collateral vault is empty', what='the direction flips, so the curve prices the wrong side'),
 dict(id='swap-fee-balances-unswapped', property='P03', edits=[(PROC,
  '''            TradeDirection::BtoA => (
                result.new_swap_destination_amount,
                result.new_swap_source_amount,
            ),
        };

        Self::token_transfer(''',
  '''            TradeDirection::BtoA => (
                dest_account.amount as u128,
                result.new_swap_source_amount,
            ),
        };

        Self::token_transfer(''')],
  lines=lambda: L(scene('swap', [500000, 1], dir=1, A=4000000), scene('swap', [500000, 1]), scene('swap', [5000, 1], dir=1, curve='cp')),
  needs='selling the bonded token with an owner fee large enough to show the changed share', what='the owner fee is converted with the collateral balance before the trade'),
 dict(id='swap-host-takes-all', property='P03', edits=[(PROC,
  '''                if host_fee > 0 {
                    pool_token_amount = pool_token_amount''',
  '''                if host_fee > 0 && host_fee < pool_token_amount {
                    pool_token_amount = pool_token_amount'''),],
  lines=lambda: L(scene('swap', [5000, 1], host=1), scene('swap', [50, 1], host=1, fees='0 1 1 50 0 1 1 5', A=3000000, B=1000000, sup=5000000)),
  needs='a conversion worth a single pool token with a host account', what='the host does not get its fee of at least one unit'),
 dict(id='swap-min-before-fees', property='P04', edits=[(PROC,
  'if result.destination_amount_swapped < to_u128(minimum_amount_out)? {',
  'if result\n            .destination_amount_swapped\n            .checked_add(if trade_direction == TradeDirection::BtoA {\n                result.trade_fee\n            } else {\n                0\n            })\n            .ok_or(SwapError::CalculationFailure)?\n            < to_u128(minimum_amount_out)?\n        {')],
  lines=lambda: L(*[scene('swap', [5000, m], dir=d) for d in (0, 1) for m in (1, 2425, 2426, 9700, 9701, 9730, 9750, 9760)]),
  needs='selling the bonded token with a minimum between the payout and the payout plus trading fee', what='the trade delivers less than the stated minimum'),
 dict(id='wds-max-excludes-fee', property='P04', edits=[(PROC,
  'if to_u64(pool_token_amount)? > maximum_pool_token_amount {',
  'if to_u64(burn_pool_token_amount)? > maximum_pool_token_amount\n            || withdraw_fee > to_u128(maximum_pool_token_amount)?\n        {')],
  lines=lambda: L(scene('wds', [1000, 99999999]), scene('wds', [1000, 201100]), scene('wds', [1000, 10])),
  needs='a maximum between the burned amount and the amount with the withdrawal fee', what='the withdrawal takes more pool tokens than the stated maximum'),
 dict(id='dep-empty-supply-mint', property='P05', edits=[(PROC,
  '            (calculator.new_pool_supply(), calculator.new_pool_supply())\n',
  '            (\n                std::cmp::max(calculator.new_pool_supply(), to_u128(pool_token_amount)?),\n                calculator.new_pool_supply(),\n            )\n')],
  lines=lambda: L(scene('dep', [1000, 99999999, 99999999], sup=0), scene('dep', [3000000000, 99999999, 99999999], sup=0)),
  needs='a deposit of more than the initial supply into a pool whose supply is zero', what='more than the initial supply is minted'),
 dict(id='dep-source-b-vault', property='P05', edits=[(PROC,
  '''            Some(source_a_info),
            Some(source_b_info),
            None,
        )?;''',
  '''            Some(source_a_info),
            Some(source_a_info),
            None,
        )?;''')],
  lines=lambda: L(scene('dep', [1000, 9999999, 9999999]), scene('dep', [1000, 9999999, 9999999], put={'sb': dict(key=K['vb'])}), scene('dep', [1000, 9999999, 9999999], put={'sa': dict(key=K['va'])})),
  needs='a deposit naming the pool\'s own bonded vault as the user\'s account, signed by the pool', what='pool tokens are minted for a transfer from the vault to itself'),
 dict(id='wd-fee-waived-by-owner', property='P06', edits=[(PROC,
  '''        let withdraw_fee: u128 = if *pool_fee_account_info.key == *source_info.key {
            // withdrawing from the fee account, don't assess withdraw fee
            0
        } else {
            token_swap
                .fees()
                .owner_withdraw_fee(to_u128(pool_token_amount)?)''',
  '''        let withdraw_fee: u128 = if *pool_fee_account_info.key == *source_info.key
            || *pool_fee_account_info.key == *user_transfer_authority_info.key
        {
            // withdrawing from the fee account, don't assess withdraw fee
            0
        } else {
            token_swap
                .fees()
                .owner_withdraw_fee(to_u128(pool_token_amount)?)''')],
  lines=lambda: L(scene('wd', [100000, 1, 1]), scene('wd', [100000, 1, 1], put={'uauth': dict(key=K['fee'])}), scene('wd', [100000, 1, 1], put={'src': dict(key=K['fee'])})),
  needs='a withdrawal whose authority account is the fee account itself', what='the withdrawal fee is not charged'),
 dict(id='wd-zero-payout', property='P06', edits=[(PROC,
  'if token_b_amount == 0 && token_b.amount != 0 {',
  'if token_b_amount == 0 && token_a_amount == 0 && token_b.amount != 0 {')],
  lines=lambda: L(scene('wd', [400, 0, 0], A=3000000, B=1000000), scene('wd', [700, 0, 0], curve='cp', A=3000000, B=1000000), scene('wd', [500, 0, 0], curve='cp', A=3000000, B=1000000)),
  needs='a withdrawal so small that only token B rounds to zero', what='pool tokens are burned for nothing on one side'),
 dict(id='deps-amount-less-fee', property='P07', edits=[(PROC,
  '''                    swap_token_b_info.clone(),
                    user_transfer_authority_info.clone(),
                    token_swap.bump_seed(),
                    source_token_amount,''',
  '''                    swap_token_b_info.clone(),
                    user_transfer_authority_info.clone(),
                    token_swap.bump_seed(),
                    std::cmp::min(source_token_amount, swap_token_b.amount),''')],
  lines=lambda: L(scene('deps', [1000, 1]), scene('deps', [1000, 1], dir=1), scene('deps', [5000000, 1], dir=1, B=1000000)),
  needs='a deposit of more of token B than the vault already holds', what='pool tokens are minted for the full amount while only part of it is taken'),
 dict(id='deps-user-is-vault', property='P07', edits=[(PROC,
  '''            TradeDirection::AtoB => (Some(source_info), None),
            TradeDirection::BtoA => (None, Some(source_info)),
        };''',
  '''            TradeDirection::AtoB => (Some(source_info), None),
            TradeDirection::BtoA => (Some(source_info), None),
        };''')],
  lines=lambda: L(scene('deps', [1000, 1], dir=1), scene('deps', [1000, 1], dir=1, put={'src': dict(key=K['vb'])}), scene('deps', [1000, 1], put={'src': dict(key=K['va'])})),
  needs='a deposit of token B naming the vault itself as the user account', what='pool tokens are minted for a transfer from the vault to itself'),
 dict(id='wds-fee-on-payout', property='P08', edits=[(PROC,
  '.owner_withdraw_fee(burn_pool_token_amount)',
  '.owner_withdraw_fee(std::cmp::min(burn_pool_token_amount, pool_mint_supply / 2))')],
  lines=lambda: L(scene('wds', [1000, 99999999]), scene('wds', [600000, 9999999999], dir=1)),
  needs='a single-sided withdrawal of more than half of the pool', what='the withdrawal fee is capped at the fee of half the supply'),
 dict(id='wds-unknown-mint', property='P08', edits=[(PROC,
  '''        let trade_direction = if destination_account.mint == swap_token_a.mint {
            TradeDirection::AtoB
        } else if destination_account.mint == swap_token_b.mint {
            TradeDirection::BtoA
        } else {''',
  '''        let trade_direction = if destination_account.mint == swap_token_a.mint {
            TradeDirection::AtoB
        } else if destination_account.mint == swap_token_b.mint
            || destination_account.mint == *token_swap.token_b_mint()
            || destination_account.mint == *token_swap.pool_mint()
        {
            TradeDirection::BtoA
        } else {''')],
  lines=lambda: L(scene('wds', [1000, 99999999]), scene('wds', [1000, 99999999], put={'dst': dict(data=token(K['mint'], K['uauth'], 5))}), scene('wds', [1000, 99999999], put={'dst': dict(data=token(0x98765, K['uauth'], 5))})),
  needs='a destination account of the pool mint', what='a withdrawal to an account of neither vault\'s mint is accepted'),
 dict(id='offset-initial-deposit', property='P11', edits=[(PROC,
  '''        let calculator = &token_swap.swap_curve().calculator;
        if !calculator.allows_deposits() {
            return Err(SwapError::UnsupportedCurveOperation.into());
        }
        Self::check_accounts(''',
  '''        let calculator = &token_swap.swap_curve().calculator;
        if !calculator.allows_deposits()
            && Self::unpack_mint(pool_mint_info, token_swap.token_program_id())?.supply > 0
        {
            return Err(SwapError::UnsupportedCurveOperation.into());
        }
        Self::check_accounts(''')],
  lines=lambda: L(scene('dep', [1000, 99999999, 99999999], curve='offset:1000'), scene('dep', [1000, 99999999, 99999999], curve='offset:1000', sup=0), scene('dep', [1000, 99999999, 99999999], curve='lin:1:2:3:4', sup=0)),
  needs='a two-sided deposit into an offset pool whose supply is zero', what='the deposit is accepted although the curve disallows deposits'),
]

from seeds3 import *
ERR = 'error.rs'
FREE = '0 1 0 1 0 1 0 1'; FEES = '1 100 1 50 1 40 1 5'
SEEDS = [
 dict(id='error-numbers-shifted', property='P32', edits=[(ERR, '''    /// The provided token account has a close authority.
    #[error("Token account has a close authority")]
    InvalidCloseAuthority,
    /// The pool token mint has a freeze authority.
    #[error("Pool token mint has a freeze authority")]
    InvalidFreezeAuthority,
''', '''    /// The pool token mint has a freeze authority.
    #[error("Pool token mint has a freeze authority")]
    InvalidFreezeAuthority,
    /// The provided token account has a close authority.
    #[error("Token account has a close authority")]
    InvalidCloseAuthority,
''')], lines=lambda: [scene('init', [], norm=False), scene('init', [], norm=False, put={'mint': dict(data=mint(auth(), 0, freeze=K['owner']))})],
  needs='creation with a mint that can be frozen or a vault that can be closed', what='two error numbers are exchanged'),
 dict(id='wd-empty-side-slippage', property='P32', edits=[(PROC, '''        let token_b_amount = to_u64(results.token_b_amount)?;
        let token_b_amount = std::cmp::min(token_b.amount, token_b_amount);
        if token_b_amount < minimum_token_b_amount {
            return Err(SwapError::ExceededSlippage.into());
        }
        if token_b_amount == 0 && token_b.amount != 0 {
            return Err(SwapError::ZeroTradingTokens.into());
        }

        if withdraw_fee > 0 {''', '''        let token_b_amount = to_u64(results.token_b_amount)?;
        let token_b_amount = std::cmp::min(token_b.amount, token_b_amount);
        if token_b_amount < std::cmp::max(minimum_token_b_amount, std::cmp::min(token_b.amount, 1)) {
            return Err(SwapError::ExceededSlippage.into());
        }

        if withdraw_fee > 0 {''')], lines=lambda: [scene('wd', a, norm=False, curve='cp', A=3 * 10 ** 12, B=B, sup=10 ** 12, fees=FREE) for B in (0, 1000, 10 ** 6) for a in ((1000, 1, 0), (1000, 1, 1), (10 ** 7, 1, 0))],
  needs='a withdrawal so small that nothing of the second token is due, with no minimum stated', what='the refusal says a limit was missed although none was stated'),
 dict(id='entry-insufficient-funds', property='P32', edits=[('instructions/swap.rs', '''    processor::Processor::process_swap(ctx.program_id, amount_in, minimum_amount_out, &accounts)
''', '''    // report a source account that cannot cover the trade (the token program's error 1) as bad input
    processor::Processor::process_swap(ctx.program_id, amount_in, minimum_amount_out, &accounts).map_err(
        |e| match e {
            ProgramError::Custom(1) => crate::error::SwapError::InvalidInput.into(),
            e => e,
        },
    )
''')], lines=lambda: [entry_swap()[0].replace('norm ', ''), entry('swap', 'swap', (500, 1), dir=1, put={'auth': dict(key=0x4242)}).replace('norm ', '')],
  needs='a trade refused with the program\'s own error 1 (wrong authority)', what='the entry point reports another error than the operation'),
 dict(id='swap-fee-conversion-error', property='P32', edits=[(PROC, '''                    return Err(SwapError::IncorrectPoolMint.into());
                }
                let host_fee''', '''                    return Err(SwapError::IncorrectFeeAccount.into());
                }
                let host_fee''')], lines=lambda: [scene('swap', (50000, 1), norm=False, host=True, fees=FEES), scene('swap', (50000, 1), norm=False, host=True, fees=FEES, put={'host': tok(K['ma'], K['other'], 0)})],
  needs='a trade with a host account of another token', what='the error blames the pool\'s fee account, which is right'),
]

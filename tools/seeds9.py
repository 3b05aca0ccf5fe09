from seeds3 import *
def lam(line, v):
    t = line.split(); i = next(i for i, x in enumerate(t) if x.count(':') == 5 and len(x) > 120)
    p = t[i].split(':'); p[4] = str(v); t[i] = ':'.join(p)
    return ' '.join(t)
F4 = '1 100 1 50 1 40 1 5'
HOSTF = '''                let host_fee_account = Self::unpack_token_account(
                    host_fee_account_info,
                    token_swap.token_program_id(),
                )?;
                if *pool_mint_info.key != host_fee_account.mint {
                    return Err(SwapError::IncorrectPoolMint.into());
                }
'''
WDB = '''            to_u64(pool_token_amount)?,
        )?;

        if token_a_amount > 0 {
            Self::token_transfer(
                swap_info.key,
                token_program_info.clone(),
                token_a_info.clone(),
                dest_token_a_info.clone(),'''
SEEDS = [
 dict(id='swap-host-borrow-kept', property='P30', edits=[(PROC, HOSTF, '''                // the mint is the first field of a token account, no need to parse all of it twice
                Self::unpack_token_account(host_fee_account_info, token_swap.token_program_id())?;
                let host_fee_data = host_fee_account_info.data.borrow();
                if host_fee_data[..32] != pool_mint_info.key.to_bytes() {
                    return Err(SwapError::IncorrectPoolMint.into());
                }
''')], lines=lambda: [scene('swap', (50000, 1), host=x, fees=f, curve=c) for x in (False, True) for c in ('cp', 'cpr:1') for f in (F4, '1 100 1 50 1 40 0 5')],
  needs='a trade with a host account and a host fee above zero: the borrow is alive during the mint', what='such trades are refused (AccountBorrowFailed)'),
 dict(id='wd-last-share-closes', property='P33', edits=[(PROC, WDB, '''            to_u64(pool_token_amount)?,
        )?;

        if pool_token_amount == to_u128(pool_mint.supply)? {
            // the last share is gone, the pool is done
            for byte in swap_info.data.borrow_mut().iter_mut() {
                *byte = 0;
            }
        }

        if token_a_amount > 0 {
            Self::token_transfer(
                swap_info.key,
                token_program_info.clone(),
                token_a_info.clone(),
                dest_token_a_info.clone(),''')], lines=lambda: [scene('wd', (a, 0, 0), sup=s, fees=f, curve=c) for c in ('cp', 'cpr:1', 'lin:1:1:1:1') for s in (1000, 1000000) for a in (999, 1000, 1000000) for f in ('0 1 0 1 0 1 0 1', F4)],
  needs='a withdrawal that burns the whole supply (no withdraw fee)', what='the pool state is wiped, the pool can be created anew with other fees'),
 dict(id='swap-fee-account-moves', property='P33', edits=[(PROC, HOSTF, HOSTF + '''                // a host that owns the fee account collects all fees from now on
                if host_fee_account.owner
                    == Self::unpack_token_account(
                        pool_fee_account_info,
                        token_swap.token_program_id(),
                    )
                    .map(|fee_account| fee_account.owner)
                    .unwrap_or_default()
                {
                    swap_info.data.borrow_mut()[195..227]
                        .copy_from_slice(host_fee_account_info.key.as_ref());
                }
''')], lines=lambda: [scene('swap', (50000, 1), host=x, fees=F4, curve=c, put=o) for x in (False, True) for c in ('cp', 'cpr:1') for o in ({}, {'host': tok(K['mint'], K['owner'], 0)}, {'host': tok(K['mint'], K['owner'], 0), 'fee': tok(K['mint'], K['owner'], 0)})],
  needs='a trade whose host account has the owner of the fee account', what='the recorded fee account changes after creation'),
 dict(id='wds-rent-sweep', property='P33', edits=[(PROC, '''        Self::token_burn(
            swap_info.key,
            token_program_info.clone(),
            source_info.clone(),
            pool_mint_info.clone(),
            user_transfer_authority_info.clone(),
            token_swap.bump_seed(),
            to_u64(burn_pool_token_amount)?,
        )?;

        match trade_direction {''', '''        Self::token_burn(
            swap_info.key,
            token_program_info.clone(),
            source_info.clone(),
            pool_mint_info.clone(),
            user_transfer_authority_info.clone(),
            token_swap.bump_seed(),
            to_u64(burn_pool_token_amount)?,
        )?;
        // lamports sent to the pool state by mistake go to whoever cleans up
        let excess = swap_info.lamports().saturating_sub(Self::SWAP_RENT);
        if excess > 0 {
            **swap_info.try_borrow_mut_lamports()? -= excess;
            **destination_info.try_borrow_mut_lamports()? += excess;
        }

        match trade_direction {'''), (PROC, '''impl Processor {
''', '''impl Processor {
    /// Rent exempt minimum of the pool state
    const SWAP_RENT: u64 = 3145920;

''')], lines=lambda: [x for l in (0, 3145920, 3145921, 10**9) for x in L(lam(scene('wds', [1000, 10**9]), l), 'last')],
  needs='a pool state account with more lamports than its rent', what='a withdrawal takes lamports from the pool account'),
]

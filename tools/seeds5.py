from seeds3 import *
I = 'instructions/'
def mets(): return ['cmetas %s ' % n + ' '.join('%064x' % (i + 1) for i in range(k)) for n, k in (('initialize_constant_price', 8), ('swap', 10), ('deposit_all_token_types', 10), ('withdraw_all_token_types', 11), ('deposit_single_token_type_exact_amount_in', 9), ('withdraw_single_token_type_exact_amount_out', 10))]
def nomut(f, field, keep=''): return (I + f, f'    #[account(mut)]\n    pub {field}:', f'    {keep}pub {field}:')
SEEDS = [
 dict(id='client-swap-fee-account-readonly', property='P31', edits=[nomut('swap.rs', 'pool_fee')], lines=mets,
  needs='a swap built with the crate\'s Swap accounts on a pool that takes an owner fee', what='the pool fee account is not marked writable, so minting the fee into it fails'),
 dict(id='client-wds-fee-account-readonly', property='P31', edits=[nomut('withdraw_single_token_type_exact_amount_out.rs', 'pool_fee_account')], lines=mets,
  needs='a single-sided withdrawal built with the crate\'s types on a pool with a withdrawal fee', what='the fee account is not marked writable, so paying the fee fails'),
 dict(id='client-dep-signer-unmarked', property='P31', edits=[(I + 'deposit_all_token_types.rs', '    #[account(signer)]\n', '')], lines=mets,
  needs='a deposit built with the crate\'s types whose transfer authority is not the fee payer', what='the transfer authority is not marked as signer'),
]

from scene import *
import scene as _sc
PROC = 'processor.rs'; CP = 'curve/constant_product.rs'; CPR = 'curve/constant_price.rs'; BASE = 'curve/base.rs'; OFF = 'curve/offset.rs'
FEES = 'curve/fees.rs'; LIN = 'curve/linear_price.rs'; CON = 'constraints.rs'; ST = 'state.rs'; DFS = 'dfs_precise_number.rs'; STB = 'curve/stable.rs'
LIB = 'lib.rs'; IN = 'instructions/'
other = 0x999
def L(*ls): return list(ls)
ALPH = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
def unb58(t):
    v = 0
    for ch in t: v = v * 58 + ALPH.index(ch)
    return int.from_bytes(v.to_bytes(32, 'big'), 'little')
def entry(name, ins, args, **k):
    import hashlib
    o = _sc.PROG; _sc.PROG = unb58('TBCwReYDDw8SvwVVKJHgatzeXKrLHnaTPyDGwkUoBsq')
    raw = k.pop('raw', None)
    try: l = scene(ins, args, **k).split(' ')
    finally: _sc.PROG = o
    i = l.index('proc'); n = int(l[i + 4])
    data = hashlib.sha256(b'global:' + name.encode()).digest()[:8] + b''.join(int(x).to_bytes(8, 'little') for x in (raw or args))
    l[i + 1] = 'entry'; l[i + 4:i + 5 + n] = ['1', data.hex()]
    if ins == 'init': l[i + 6] = l[i + 6].replace(':0:1:0:', ':1:1:0:')
    return ' '.join(l)
def entry_linear():
    out = []
    for par in ((1, 10, 1, 2), (1, 10, 0, 1), (1, 10, 0, 7), (1, 10, 0, 0)):
        out.append(entry('initialize_linear_price', 'init', [], raw=par, A=0))
    return out
def entry_swap(): return [entry('swap', 'swap', a, dir=1) for a in ((500, 1), (500, 500), (500, 501), (500, 970), (500, 971), (500, 1200))]
def entry_wd(): return [entry('withdraw_all_token_types', 'wd', a, A=3000000, B=5000000, sup=1000000) for a in ((1000, 1, 1), (1000, 0, 90000), (1000, 1, 1000), (1000, 1, 90000), (1000, 1, 4000))]
def con_scenes():
    b = run('b58 ' + h(K['owner'])); f = run('b58 ' + h(K['fee']))
    F = '1 100 1 50 1 40 1 5'.split()
    return [scene('init', [], con=[k, 'cpr:1'] + F) for k in (b, f)]
def state(flag=1, version=1):
    x = run(f'pack 1 250 {h(TP)} {h(1)} {h(2)} {h(3)} {h(4)} {h(5)} {h(6)} {FZ} cpr:9 0 324').split()[1]
    return f'{version:02x}{flag:02x}' + x[4:]
def flagged(): return [state(flag=f) for f in (0, 1, 2, 128, 254, 255)]
def versions(): return [state(version=v) for v in (0, 1, 2, 128, 129, 255)]
def auth(k=None): return int.from_bytes(bytes.fromhex(run(f'pda {h(PROG)} {h(k or K["swap"])}').split()[0]), 'little')
def hx(v): return '%064x' % v
ONE = 10 ** 18
FZ = '0 1 0 1 0 1 0 1'
def tok(slot_mint, owner, amount, **k): return dict(data=token(slot_mint, owner, amount, **k))
def bumpkey():
    for k in range(0x101, 0x5000):
        if int(run(f'pda {h(PROG)} {h(k)}').split()[1]) < 250: return k
def atkey(k, f):
    o = K['swap']; K['swap'] = k
    try: return f()
    finally: K['swap'] = o
SEEDS = [
 dict(id='init-close-authority-empty-b', property='P09', edits=[(PROC, 'if token_b.close_authority.is_some() {', 'if token_b.close_authority.is_some() && token_b.amount != 0 {')],
  lines=lambda: L(scene('init', []), scene('init', [], put={'b': tok(K['mb'], auth(), 0, close=other)}), scene('init', [], put={'b': tok(K['mb'], auth(), 5, close=other)})),
  needs='a constant-price pool created with an empty bonded vault that has a close authority', what='the vault can be closed by someone else'),
 dict(id='init-delegate-owner', property='P09', edits=[(PROC, 'if token_a.delegate.is_some() {', 'if token_a.delegate.is_some() && token_a.delegate != COption::Some(fee_account.owner) {')],
  lines=lambda: L(scene('init', []), scene('init', [], put={'a': tok(K['ma'], auth(), 3000, delegate=K['owner'])}), scene('init', [], put={'a': tok(K['ma'], auth(), 3000, delegate=other)})),
  needs='a collateral vault whose delegate is the owner of the fee account', what='the pool is created with a delegate who can empty the vault'),
 dict(id='init-fee-owner-authority', property='P09', edits=[(PROC,
  '''        if *authority_info.key == fee_account.owner {
            return Err(SwapError::InvalidOutputOwner.into());
        }
        if COption''', '''        if *authority_info.key == fee_account.owner && fees.owner_trade_fee_numerator != 0 {
            return Err(SwapError::InvalidOutputOwner.into());
        }
        if COption''')],
  lines=lambda: L(scene('init', []), scene('init', [], put={'fee': tok(K['mint'], auth(), 0)}), scene('init', [], fees=FZ, put={'fee': tok(K['mint'], auth(), 0)})),
  needs='a pool without owner trading fee whose fee account is owned by the authority', what='the pool is created although its withdrawal fees are locked forever'),
 dict(id='init-freeze-by-authority', property='P09', edits=[(PROC, 'if pool_mint.freeze_authority.is_some() {', 'if pool_mint.freeze_authority.is_some()\n            && pool_mint.freeze_authority != COption::Some(fee_account.owner)\n        {')],
  lines=lambda: L(scene('init', []), scene('init', [], put={'mint': dict(data=mint(auth(), 0, freeze=K['owner']))}), scene('init', [], put={'mint': dict(data=mint(auth(), 0, freeze=other))})),
  needs='a pool mint whose freeze authority is the owner of the fee account', what='pool tokens of the users can be frozen'),
 dict(id='init-again-with-signer', property='P10', edits=[(PROC, 'if SwapVersion::is_initialized(&swap_info.data.borrow()) {', 'if SwapVersion::is_initialized(&swap_info.data.borrow()) && !destination_info.is_signer {')],
  lines=lambda: L(scene('init', []), *[scene('init', [], put={'swap': dict(data=run(f'pack 1 {run(f"pda {h(PROG)} {h(K[chr(115)+chr(119)+chr(97)+chr(112)])}").split()[1]} {h(TP)} {h(1)} {h(2)} {h(3)} {h(4)} {h(5)} {h(6)} {FZ} cpr:9 0 324').split()[1]), 'dst': dict(signer=s)}) for s in (0, 1)]),
  needs='creating a pool on an initialised account with a signing destination', what='an existing pool is overwritten'),
 dict(id='init-mints-sorted', property='P10', edits=[(PROC, '            token_a_mint: token_a.mint,\n            token_b_mint: token_b.mint,', '            token_a_mint: std::cmp::min(token_a.mint, token_b.mint),\n            token_b_mint: std::cmp::max(token_a.mint, token_b.mint),')],
  lines=lambda: L(scene('init', []), scene('init', [], put={'a': tok(K['mb'], auth(), 3000), 'b': tok(K['ma'], auth(), 4000)})),
  needs='a collateral mint whose key sorts after the bonded mint', what='the recorded mints are exchanged'),
 dict(id='init-bump-floor', property='P10', edits=[(PROC, '            is_initialized: true,\n            bump_seed,\n            token_program_id,', '            is_initialized: true,\n            bump_seed: bump_seed.max(250),\n            token_program_id,')],
  lines=lambda: L(scene('init', []), atkey(bumpkey(), lambda: scene('init', []))),
  needs='a state account whose authority is found after six or more attempts', what='the recorded bump does not derive the authority, so the pool is locked'),
 dict(id='constraint-fee-owner-key', property='P12', edits=[(PROC, 'if fee_account.owner != owner_key {', 'if fee_account.owner != owner_key && *fee_account_info.key != owner_key {')],
  lines=lambda: L(scene("init", []), *con_scenes()),
  needs='a deployment whose configured owner key is the key of the fee account', what='a fee account owned by someone else is accepted'),
 dict(id='constraint-host-share', property='P12', edits=[(CON, '&& fees.host_fee_numerator == self.fees.host_fee_numerator', '&& fees.host_fee_numerator <= self.fees.host_fee_numerator')],
  lines=[f'con cp 1 4 2 5 4 10 {h_} 100 cp 1 4 2 5 4 10 {g} 100' for h_ in (10, 20) for g in (0, 9, 10, 11, 20, 21)],
  needs='a pool whose host fee is below the configured one', what='the host fee is no longer the configured one'),
 dict(id='constraint-linear-exempt', property='P12', edits=[(CON, '            .any(|x| *x == swap_curve.curve_type)\n        {', '            .any(|x| *x == swap_curve.curve_type)\n            || (!swap_curve.calculator.allows_deposits() && self.fees.trade_fee_numerator == 0)\n        {')],
  lines=[f'con {ty} {tf} 4 2 5 4 10 10 100 {c} {tf} 4 2 5 4 10 10 100' for ty in ('cp', 'cpr:1', 'cp,lin:1:1:1:1') for tf in (0, 1) for c in ('cp', 'cpr:3', 'lin:1:1:1:1', 'offset:5', 'stable:3')],
  needs='a deployment without minimum trading fee and a pool with a no-deposit curve', what='a curve type that is not allowed is accepted'),
 dict(id='entry-linear-free-start', property='P13', edits=[(LIB, '                    initial_token_a_price_numerator,\n                    initial_token_a_price_denominator,\n                }),', '                    initial_token_a_price_numerator,\n                    initial_token_a_price_denominator: if initial_token_a_price_numerator == 0 {\n                        1\n                    } else {\n                        initial_token_a_price_denominator\n                    },\n                }),')],
  lines=lambda: entry_linear(), needs='a linear pool with an initial price of zero over something', what='the recorded curve differs from the given parameters and a zero denominator is accepted'),
 dict(id='entry-swap-min-one', property='P13', edits=[(IN + 'swap.rs', 'process_swap(ctx.program_id, amount_in, minimum_amount_out, &accounts)', 'process_swap(\n        ctx.program_id,\n        amount_in,\n        minimum_amount_out.min(amount_in),\n        &accounts,\n    )')],
  lines=lambda: entry_swap(), needs='a minimum above the amount given (the bonded token is worth more than the collateral)', what='the stated minimum is lowered to the amount given'),
 dict(id='entry-wds-order', property='P13', edits=[(IN + 'withdraw_all_token_types.rs', '        minimum_token_b_amount,\n        &accounts,', '        if minimum_token_a_amount > 0 && pool_token_amount < minimum_token_b_amount {\n            pool_token_amount\n        } else {\n            minimum_token_b_amount\n        },\n        &accounts,')],
  lines=lambda: entry_wd(), needs='a withdrawal demanding more of token B than the number of pool tokens', what='the stated minimum is lowered'),
 dict(id='state-flag-two', property='P14', edits=[(ST, '                [1] => true,\n                _ => return', '                [1] => true,\n                [255] => true,\n                _ => return')],
  lines=lambda: [f'unpack 01{f}' + '07' * 321 + '' for f in ()] + [f'unpack {x}' for x in flagged()], needs='a state whose flag byte is 255', what='malformed state is read as an initialised pool'),
 dict(id='state-version-high-bit', property='P14', edits=[(ST, '        match version {\n            1 => Ok', '        match version & 0x7f {\n            1 => Ok')],
  lines=lambda: [f'unpack {x}' for x in versions()], needs='a state whose version byte is 129', what='an unknown version is read as version 1'),
 dict(id='curve-code-alias', property='P14', edits=[(BASE, '            30 => Ok(CurveType::LinearPrice),', '            30 | 0x30 => Ok(CurveType::LinearPrice),')],
  lines=[f'cunpack {c:02x}' + '0100000000000000' * 4 for c in (0, 1, 2, 3, 4, 29, 30, 31, 47, 48, 49)], needs='a curve code of 48', what='two encodings of the same curve; an unknown type is accepted'),
 dict(id='linear-unpack-zero-denominator', property='P14', edits=[], lines=[], needs='', what=''),
 dict(id='cp-exact-remainder', property='P17', edits=[(CP, '''    let (new_swap_destination_amount, new_swap_source_amount) =
        invariant.checked_ceil_div(new_swap_source_amount)?;
''', '''    let full_source_amount = new_swap_source_amount;
    let (mut new_swap_destination_amount, new_swap_source_amount) =
        invariant.checked_ceil_div(new_swap_source_amount)?;
    if invariant % full_source_amount == 1 && new_swap_source_amount == full_source_amount {
        // next to nothing was left over
        new_swap_destination_amount = new_swap_destination_amount.checked_sub(1)?;
    }
''')], lines=[f'swf cp {x} {s} {d} 0' for s in (100, 1000, 12345) for d in (301, 1000, 100001) for x in range(1, 60)],
  needs='balances whose product leaves a remainder of exactly one', what='the product of the balances falls by almost the whole source balance'),
 dict(id='offset-empty-bonded-vault', property='P19', edits=[(OFF, '            TradeDirection::BtoA => swap_source_amount.checked_add(token_b_offset)?,', '            TradeDirection::BtoA if swap_source_amount > 0 => {\n                swap_source_amount.checked_add(token_b_offset)?\n            }\n            TradeDirection::BtoA => swap_source_amount.checked_add(token_b_offset / 2)?,')],
  lines=[f'swf offset:1000 {x} {s} 5000 1' for s in (0, 1, 10) for x in (5, 50, 500)], needs='a sale into an empty bonded vault', what='only half of the offset is applied and the offset product falls'),
 dict(id='cp-single-to-nearest', property='P27', edits=[(CP, '''    let pool_tokens = pool_supply.checked_mul(&root)?;
    match round_direction {
        RoundDirection::Floor => pool_tokens.floor()?.to_imprecise(),
        RoundDirection::Ceiling => pool_tokens.ceiling()?.to_imprecise(),
    }
}

/// Get the amount of pool tokens for the withdrawn''', '''    let pool_tokens = pool_supply.checked_mul(&root)?;
    match round_direction {
        RoundDirection::Floor => pool_tokens.to_imprecise(),
        RoundDirection::Ceiling => pool_tokens.ceiling()?.to_imprecise(),
    }
}

/// Get the amount of pool tokens for the withdrawn''')], lines=[f'dep {c} {x} 1000 2000 777 {d}' for c in ('cp', 'offset:500') for x in (1, 2, 3, 10, 77) for d in (0, 1)],
  needs='a single-sided deposit whose share has a fraction of at least one half', what='the minted share is rounded up'),
 dict(id='cp-single-withdraw-nearest', property='P27', edits=[(CP, '''    let root = one.checked_sub(&base.sqrt()?)?;
    let pool_supply = PreciseNumber::new(pool_supply)?;
    let pool_tokens = pool_supply.checked_mul(&root)?;
    match round_direction {
        RoundDirection::Floor => pool_tokens.floor()?.to_imprecise(),
        RoundDirection::Ceiling => pool_tokens.ceiling()?.to_imprecise(),''', '''    let root = one.checked_sub(&base.sqrt()?)?;
    let pool_supply = PreciseNumber::new(pool_supply)?;
    let pool_tokens = pool_supply.checked_mul(&root)?;
    match round_direction {
        RoundDirection::Floor => pool_tokens.floor()?.to_imprecise(),
        RoundDirection::Ceiling => pool_tokens.to_imprecise(),''')], lines=[f'wd {c} {x} 1000 2000 777 {d}' for c in ('cp', 'offset:500') for x in (1, 2, 3, 10, 77) for d in (0, 1)],
  needs='a single-sided withdrawal whose share has a fraction below one half', what='too few pool tokens are burned'),
 dict(id='offset-single-skips-offset', property='P27', edits=[(OFF, '''            swap_token_a_amount,
            swap_token_b_amount.checked_add(token_b_offset)?,
            pool_supply,
            trade_direction,
            RoundDirection::Floor,''', '''            swap_token_a_amount,
            // an offset no larger than the balance no longer matters
            if token_b_offset > swap_token_b_amount {
                swap_token_b_amount.checked_add(token_b_offset)?
            } else {
                swap_token_b_amount
            },
            pool_supply,
            trade_direction,
            RoundDirection::Floor,''')], lines=[f'dep offset:{o} 77 1000 2000 777000 {d}' for o in (1, 500, 1999, 2000, 2001, 5000) for d in (0, 1)],
  needs='a bonded-side share in an offset pool whose balance has outgrown the offset', what='the share is computed against the vault without its offset'),
 dict(id='linear-cap-small-vaults', property='P22', edits=[(LIN, '        match self.maximum_a_remaining_for_swap_a_to_b(\n            &a_start,\n            &b_start,\n            source_amount,\n            swap_destination_amount,\n        ) {', '        match self\n            .maximum_a_remaining_for_swap_a_to_b(\n                &a_start,\n                &b_start,\n                source_amount,\n                swap_destination_amount,\n            )\n            .filter(|_| source_amount >= swap_source_amount || swap_source_amount == 0)\n        {')],
  lines=[f'swf lin:1:1000:1:1 {x} {a} {d} 0' for x in (100, 5000) for a in (0, 10000) for d in (50, 20, 4000)], needs='buying out the bonded vault with less collateral than the pool already holds', what='more bonded tokens are paid than the vault holds'),
 dict(id='linear-negative-margin', property='P22', edits=[(LIN, '        if b_end_is_negative {\n', '        if b_end_is_negative && b_end.greater_than(&(DFSPreciseNumber::new(1)?)) {\n')],
  lines=[f'swf lin:1:10:1:{e} {x} 5000 {a} 1' for e in (1, 1000) for a in (1, 15, 100, 555) for x in (1, 2, 10, 44, 45, 46, 100, 105, 106)], needs='a sale of at most one token more than the collateral covers', what='the sale takes tokens beyond zero and leaves collateral behind'),
 dict(id='linear-buy-start-down', property='P23', edits=[(LIN, '        let b_start = self.b_value_with_amt_a_locked_quadratic(&a_start, true)?;\n', '        let b_start = self.b_value_with_amt_a_locked_quadratic(&a_start, swap_source_amount > source_amount)?;\n')],
  lines=[f'swf lin:{s} {x} {a} 1000000000000 0' for s in ('1:1000000:1:1', '1:3:1:7', '1:1:0:1') for a in (3, 77777, 123456789, 10**13 + 7) for x in (1, 2, 3, 1000, 10**9, 5)],
  needs='a purchase larger than the collateral held at a start with an irrational price', what='the start of the purchase is rounded in favour of the buyer'),
 # not a bug: see DESIGN.md
 dict(id='linear-sell-end-not-ceiled', property='P23', edits=[(LIN, '        let b_end = b_end.ceiling()?;\n', '        let b_end = match source_amount < swap_destination_amount {\n            true => b_end.ceiling()?,\n            false => b_end,\n        };\n')],
  lines=[f'swf lin:{s} {x} 1000000 {a} 1' for s in ('1:1000000:1:1', '1:3:1:7', '1:1:0:1', '7:1:0:1', '1:10000:1:5') for a in (3, 7777, 1234567) for x in (1, 2, 3, 10, 50, 800, 3000, 9000, 8000, 1234567, 1300000)],
  needs='a sale of more tokens than the collateral held (a price below one)', what='the end of the sale is not rounded up'),
 dict(id='linear-buy-to-nearest', property='P23', edits=[(LIN, '''        let difference = b_end.checked_sub(&b_start)?;
        // PreciseNumber rounds .5+ up by default, make sure to floor instead so we don't allow
        // dust to round up for free
        let destination_amount = difference.floor()?.to_imprecise()?;''', '''        let difference = b_end.checked_sub(&b_start)?;
        // dust only matters when there is little else
        let destination_amount = match difference.less_than(&(DFSPreciseNumber::new(1_000_000)?)) {
            true => difference.floor()?.to_imprecise()?,
            false => difference.to_imprecise()?,
        };''')], lines=[f'swf lin:{s} {x} {a} 1000000000000 0' for s in ('1:1000000:1:1', '1:3:1:7', '1:1000000000:1:1') for a in (0, 3, 77777, 123456789) for x in (3, 1000, 2000001, 10**7 + 3, 10**9)],
  needs='a purchase of more than a million tokens with a fraction of at least one half', what='the paid amount is rounded up'),
 dict(id='linear-supply-dust', property='P24', edits=[(LIN, '        if token_a_amount != 0 {\n', '        if token_a_amount != 0 && token_a_amount >= token_b_amount {\n')], lines=[f'vsup lin:1:1:1:1 {a} {b}' for a in (0, 1, 5, 10, 11) for b in (0, 1, 10)],
  needs='a linear pool starting with less collateral than bonded tokens', what='a start on the wrong point of the curve is accepted'),
 dict(id='cpr-supply-either', property='P24', edits=[(CPR, '    fn validate_supply(&self, token_a_amount: u64, _token_b_amount: u64) -> Result<(), SwapError> {\n        if token_a_amount == 0 {', '    fn validate_supply(&self, token_a_amount: u64, token_b_amount: u64) -> Result<(), SwapError> {\n        if token_a_amount == 0 && token_b_amount <= self.token_b_price {')], lines=[f'vsup cpr:{p} {a} {b}' for p in (1, 7) for a in (0, 1) for b in (0, 1, 7, 8)],
  needs='a constant-price pool starting without collateral and with more bonded tokens than the price', what='a start without collateral is accepted'),
 dict(id='dfs-mul-fallback-side', property='P25', edits=[(DFS, 'let value = if self.value >= rhs.value {', 'let value = if self.value.bits() > rhs.value.bits() {')], lines=[f'dfs mul {hx(a)} {hx(b)}' for a in (3 * ONE * 10**20 + 5, 2**140, 2**128 + 12345, 2**129 - 1) for b in (2**128 + 7 * ONE + 999, 2**129 - 5, 2**141 - 1, 2**128)],
  needs='two huge factors of the same bit length', what='the smaller factor is truncated instead of the larger'),
 dict(id='dfs-div-fallback', property='P25', edits=[(DFS, '''                let value = self
                    .value
                    .checked_add(Self::rounding_correction())?
                    .checked_div(rhs.value)?
                    .checked_mul(one())?;
                Some(Self { value })
            }
        }
    }

    /// Performs a multiplication''', '''                // shift by the whole part of the divisor first
                let whole = rhs.value.checked_div(one())?;
                let value = match whole > zero() {
                    true => self.value.checked_div(whole)?,
                    false => self.value.checked_div(rhs.value)?.checked_mul(one())?,
                };
                Some(Self { value })
            }
        }
    }

    /// Performs a multiplication''')], lines=[f'dfs div {hx(a)} {hx(b)}' for a in (2**250 + 12345, 2**200, 2**256 - 1) for b in (ONE, ONE * 3 // 2, 2 * ONE - 1, 10 * ONE + 1, 2**200)],
  needs='a quotient whose scaled numerator exceeds 256 bits and a divisor with a fraction', what='the fraction of the divisor is dropped, an error of up to half'),
 dict(id='dfs-sqrt-no-final-ceil', property='P26', edits=[(DFS, '                    .less_than(&unrounded_numerator)\n', '                    .less_than(&unrounded_numerator)\n                    && pad_bits < 40\n')], lines=[f'dfs sqrtu {hx(v)}' for v in (1, 2, 3, 5, 7, 11, 101, 12345, 99999, 2**20 + 1, 2**22 + 3, 2**23 + 7, 2**30 + 1)],
  needs='the rounded-up root of a value below 2^24 units', what='the rounded-up root is below the exact root'),
 dict(id='dfs-sqrt-pad-sticky', property='P26', edits=[(DFS, 'match should_round_up && (unrounded_padded_value << pad_bits).lt(&self.value) {', 'match should_round_up && !(self.value - (unrounded_padded_value << pad_bits)).as_u32().eq(&0) {')], lines=[f'dfs sqrtu {hx(v)}' for v in (2**100 + 2**33, 2**90 + 1, 2**110, 2**100 + 1, 2**68 + 1, (3 << 100) + (1 << 35))],
  needs='a large value whose cut bits are zero in the lowest 32', what='the rounded-up root is below the exact root, or the root aborts'),
 dict(id='dfs-babylonian-bounded', property='P26', edits=[(DFS, '        let mut y = x;\n        while z < y {\n            y = z;\n            z = x.checked_div(z)?.checked_add(z)?.checked_div(2)?;\n        }', '        let mut y = x;\n        let mut steps = 0;\n        while z < y && steps < 37 {\n            y = z;\n            z = x.checked_div(z)?.checked_add(z)?.checked_div(2)?;\n            steps += 1;\n        }')], lines=[f'dfs sqrt{d} {hx(v)}' for d in 'ud' for v in (2**64 - 1, 2**63, 2**64 - 2**30, 2**126, 2**127 + 5, 2**128 - 1, 2**130, ONE, 2 * ONE)],
  needs='a root that needs more than 37 iterations', what='the root is far above the exact one'),
 dict(id='stable-early-division', property='P28', edits=[(STB, '''    let c = checked_u8_power(&d_val, N_COINS.checked_add(1)?)?
        .checked_div(checked_u8_mul(&new_source_amount, N_COINS_SQUARED)?.checked_mul(leverage)?)?;''', '''    let c = checked_u8_power(&d_val, N_COINS)?
        .checked_div(checked_u8_mul(&new_source_amount, N_COINS_SQUARED)?)?
        .checked_mul(d_val)?
        .checked_div(leverage)?;''')], lines=[f'swf stable:{a} {x} {s} {d} 0' for a in (1, 10, 100) for x in (1, 1000, 10**9) for s, d in ((10**9, 10**9), (10**12, 10**3), (5 * 10**11, 1000000), (10**6, 10**12), (1, 10**12))],
  needs='a badly unbalanced stable pool', what='precision is lost before multiplying, so more is paid than the invariant allows'),
 dict(id='stable-step-leverage', property='P28', edits=[(STB, 'let leverage_sub = initial_d.checked_mul((leverage.checked_sub(1)?).into())?;', 'let leverage_sub = initial_d.checked_mul((leverage.checked_sub(u64::from(leverage < 20_000))?).into())?;')], lines=[f'swf stable:{a} {x} {s} {d} 0' for a in (1, 100, 9999, 10000, 10**6) for x in (1, 1000, 10**9) for s, d in ((10**9, 10**9), (10**12, 10**9), (10**6, 10**12))],
  needs='an amplification of at least ten thousand', what='the invariant is underestimated, so trades are paid too much'),
 dict(id='stable-deposit-nearest', property='P28', edits=[(STB, '        let diff = d1.checked_sub(&d0)?;\n        let final_amount =\n            (diff.checked_mul(&PreciseNumber::new(pool_supply)?))?.checked_div(&d0)?;\n        final_amount.floor()?.to_imprecise()', '        let diff = d1.checked_sub(&d0)?;\n        let final_amount =\n            (diff.checked_mul(&PreciseNumber::new(pool_supply)?))?.checked_div(&d0)?;\n        final_amount.to_imprecise()')], lines=[f'dep stable:{a} {x} 1000 2000 777 {d}' for a in (1, 100) for x in (1, 2, 3, 10, 77) for d in (0, 1)],
  needs='a share with a fraction of at least one half', what='the minted share is rounded up'),
]
SEEDS = [s for s in SEEDS if s['edits']]

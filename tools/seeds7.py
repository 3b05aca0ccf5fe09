from seeds3 import *
RAND = [int('1f3a9c77d1e2b4865', 16) * k + 1 for k in (1, 3, 77, 10**6, 10**20)]
SEEDS = [
 dict(id='linear-exhaust-ceil', property='P22', edits=[(LIN, '''        let maximum_a_remaining = match maximum_a_locked.unsigned_sub(&a_start) {
            (_, true) => 0,
            (difference, false) => difference.to_imprecise()?,
        };

        if maximum_a_remaining <= source_amount {
            return Some((maximum_a_remaining, swap_destination_amount));
''', '''        let maximum_a_remaining = match maximum_a_locked.unsigned_sub(&a_start) {
            (_, true) => DFSPreciseNumber::new(0)?,
            (difference, false) => difference,
        };

        if maximum_a_remaining.floor()?.to_imprecise()? <= source_amount {
            // charge any started token in full
            return Some((
                maximum_a_remaining.ceiling()?.to_imprecise()?,
                swap_destination_amount,
            ));
''')], lines=[f'swf lin:{s} {x} {a} {d} 0' for s in ('1:1000:1:1', '1:3:1:7') for a in (0, 7, 10000) for d in (1, 2, 3, 20, 51) for x in list(range(1, 60)) + [400, 401, 402, 403, 404]],
  needs='an offer equal to the whole part of what the last bonded tokens cost', what='the buyer is charged one token more than offered'),
 dict(id='linear-sell-zero-taken', property='P22', edits=[(LIN, '''        let source_amount_swapped = map_zero_to_none(source_amount_swapped)?;
        let destination_amount_swapped = map_zero_to_none(destination_amount_swapped)?;
''', '''        let destination_amount_swapped = map_zero_to_none(destination_amount_swapped)?;
        // buying out the vault for nothing isn't a trade
        if trade_direction == TradeDirection::AtoB {
            map_zero_to_none(source_amount_swapped)?;
        }
''')], lines=[f'swf lin:1:10:{e}:1 {x} 5000 {a} {d} ' for e in (1, 1000, 10**6) for a in (1, 2, 400, 2000) for x in (1, 5, 100) for d in (0, 1)],
  needs='a sale into a collateral vault holding less than half a token is worth', what='the whole vault is paid for nothing'),
 dict(id='linear-exhaust-floor', property='P23', edits=[(LIN, '(difference, false) => difference.to_imprecise()?,', '(difference, false) => difference.floor()?.to_imprecise()?,')],
  lines=[f'swf lin:{s} {x} {a} {d} 0' for s in ('1:1000:1:1', '1:3:1:7') for a in (0, 7, 10000) for d in (1, 2, 3, 20, 51) for x in list(range(1, 60)) + [400, 401, 402, 403, 404]],
  needs='a purchase of all bonded tokens whose cost has a fraction above one half', what='the fraction is not charged'),
 dict(id='sqrt-low-word', property='P26', edits=[(DFS, '''            // round up if it wasn't a perfect division and we should round up
            let padded_value =
                match should_round_up && (unrounded_padded_value << pad_bits).lt(&self.value) {''', '''            // the bits we cut off the low end
            let low_bits_cut = match pad_bits >= max_bits {
                true => u64::MAX,
                false => (1u64 << pad_bits) - 1,
            };

            // round up if it wasn't a perfect division and we should round up
            let padded_value =
                match should_round_up && self.value.low_u64() & low_bits_cut != 0 {''')],
  lines=[f'dfs sqrt{d} {v:x}' for d in 'ud' for v in [(1 << 200) + (1 << 70), (1 << 200), (3 << 190) + (1 << 100), 1 << 130, (1 << 130) + 5, 4 * 10**18, 10**36, (1 << 140) + (1 << 64)] + RAND],
  needs='rounding up a value of 128 bits or more whose low 64 bits are zero', what='bits above the low word are cut off without rounding up'),
 dict(id='linear-buy-absorbs-noise', property='P23', edits=[(LIN, """        let destination_amount = difference.floor()?.to_imprecise()?;

        Some((source_amount, destination_amount))
    }

    fn swap_b_to_a""", """        // (but the square root only has ~9 digits, so don't lose a whole token to its noise)
        let noise = DFSPreciseNumber::new(1)?
            .checked_div(&(DFSPreciseNumber::new(1_000_000_000)?))?;
        let destination_amount = difference.checked_add(&noise)?.floor()?.to_imprecise()?;

        Some((source_amount, destination_amount))
    }

    fn swap_b_to_a""")], lines=[f'swf lin:{m}:1:0:1 {x} 0 1000 0' for m in (10**12, 10**13, 10**15) for x in (m // 2 - 1, m // 2, m // 2 + 1, 2 * m - 1, 2 * m)] + [f'swf lin:{s} {x} {a} 1000000000000 0' for s in ('1:1000000:1:1', '1:3:1:7') for a in (3, 77777) for x in (1, 2, 1000, 10**9)],
  needs='a steep curve and an offer one unit short of the price of a whole number of tokens', what='the buyer gets a token the collateral paid does not cover'),
]

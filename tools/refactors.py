"""Behaviour-preserving edits the checks must stay quiet on: refactors.py [id...] [-p P01 ...] (runs in tools/scratch.sh copies)"""
import sys, os, subprocess, concurrent.futures as cf, time
B = 'curve/base.rs'; CP = 'curve/constant_product.rs'; CPR = 'curve/constant_price.rs'; OFF = 'curve/offset.rs'; LIN = 'curve/linear_price.rs'; STB = 'curve/stable.rs'
FE = 'curve/fees.rs'; DFS = 'dfs_precise_number.rs'; PR = 'processor.rs'; CON = 'constraints.rs'; ST = 'state.rs'; LB = 'lib.rs'; ER = 'error.rs'
R = {}
R['stable-loop'] = [(STB, '''        let mut d_previous: U256;
        let mut d: U256 = sum_x.into();

        // Newton's method to approximate D
        for _ in 0..ITERATIONS {
            let mut d_product = d;
            d_product = d_product
                .checked_mul(d)?
                .checked_div(amount_a_times_coins)?;
            d_product = d_product
                .checked_mul(d)?
                .checked_div(amount_b_times_coins)?;
            d_previous = d;
            //d = (leverage * sum_x + d_p * n_coins) * d / ((leverage - 1) * d + (n_coins + 1) * d_p);
            d = calculate_step(&d, leverage, sum_x, &d_product)?;
            // Equality with the precision of 1
            if d == d_previous {
                break;
            }
        }
        u128::try_from(d).ok()''', '''        let mut d: U256 = sum_x.into();
        let mut rounds = 0u8;

        // Newton's method to approximate D
        while rounds < ITERATIONS {
            let next = improve_d(&d, leverage, sum_x, &amount_a_times_coins, &amount_b_times_coins)?;
            let settled = next == d;
            d = next;
            if settled {
                break;
            }
            rounds += 1;
        }
        u128::try_from(d).ok()'''), (STB, '''/// Compute stable swap invariant (D)
''', '''/// One Newton step
fn improve_d(
    d: &U256,
    leverage: u64,
    sum_x: u128,
    amount_a_times_coins: &U256,
    amount_b_times_coins: &U256,
) -> Option<U256> {
    let d_product = d.checked_mul(*d)?.checked_div(*amount_a_times_coins)?;
    let d_product = d_product.checked_mul(*d)?.checked_div(*amount_b_times_coins)?;
    calculate_step(d, leverage, sum_x, &d_product)
}

/// Compute stable swap invariant (D)
'''), (STB, '''    let mut y_prev: U256;
    let mut y = d_val;
    for _ in 0..ITERATIONS {
        y_prev = y;
        y = (checked_u8_power(&y, 2)?.checked_add(c)?)
            .checked_div(checked_u8_mul(&y, 2)?.checked_add(b)?.checked_sub(d_val)?)?;
        if y == y_prev {
            break;
        }
    }
    u128::try_from(y).ok()''', '''    let mut y = d_val;
    for _ in 0..ITERATIONS {
        let numerator = y.checked_mul(y)?.checked_add(c)?;
        let denominator = y.checked_add(y)?.checked_add(b)?.checked_sub(d_val)?;
        let next = numerator.checked_div(denominator)?;
        if next == y {
            break;
        }
        y = next;
    }
    u128::try_from(y).ok()''')]
R['stable-arith'] = [(STB, '''    let mut result = *a;
    for _ in 1..b {
        result = result.checked_add(*a)?;
    }
    Some(result)''', '''    a.checked_mul(U256::from(b))'''), (STB, '''    let leverage_mul = U256::from(leverage).checked_mul(sum_x.into())?;
    let d_p_mul = checked_u8_mul(d_product, N_COINS)?;

    let l_val = leverage_mul.checked_add(d_p_mul)?.checked_mul(*initial_d)?;

    let leverage_sub = initial_d.checked_mul((leverage.checked_sub(1)?).into())?;
    let n_coins_sum = checked_u8_mul(d_product, N_COINS.checked_add(1)?)?;

    let r_val = leverage_sub.checked_add(n_coins_sum)?;
''', '''    let d_p_mul = checked_u8_mul(d_product, N_COINS)?;
    let n_coins_sum = d_p_mul.checked_add(*d_product)?;
    let leverage_sub = initial_d.checked_mul((leverage.checked_sub(1)?).into())?;
    let r_val = n_coins_sum.checked_add(leverage_sub)?;

    let leverage_mul = U256::from(sum_x).checked_mul(leverage.into())?;
    let l_val = d_p_mul.checked_add(leverage_mul)?.checked_mul(*initial_d)?;
''')]
R['stable-single'] = [(STB, '''        let (deposit_token_amount, other_token_amount) = match trade_direction {
            TradeDirection::AtoB => (swap_token_a_amount, swap_token_b_amount),
            TradeDirection::BtoA => (swap_token_b_amount, swap_token_a_amount),
        };
        let updated_deposit_token_amount = deposit_token_amount.checked_add(source_amount)?;
        let d1 = PreciseNumber::new(compute_d(
            leverage,
            updated_deposit_token_amount,
            other_token_amount,
        )?)?;
        let diff = d1.checked_sub(&d0)?;
        let final_amount =
            (diff.checked_mul(&PreciseNumber::new(pool_supply)?))?.checked_div(&d0)?;
        final_amount.floor()?.to_imprecise()''', '''        let d1 = match trade_direction {
            TradeDirection::AtoB => compute_d(
                leverage,
                swap_token_a_amount.checked_add(source_amount)?,
                swap_token_b_amount,
            )?,
            TradeDirection::BtoA => compute_d(
                leverage,
                swap_token_b_amount.checked_add(source_amount)?,
                swap_token_a_amount,
            )?,
        };
        share(PreciseNumber::new(d1)?.checked_sub(&d0)?, &d0, pool_supply)?
            .floor()?
            .to_imprecise()'''), (STB, '''        let diff = d0.checked_sub(&d1)?;
        let final_amount =
            (diff.checked_mul(&PreciseNumber::new(pool_supply)?))?.checked_div(&d0)?;
        final_amount.ceiling()?.to_imprecise()''', '''        share(d0.checked_sub(&d1)?, &d0, pool_supply)?
            .ceiling()?
            .to_imprecise()'''), (STB, '''/// StableCurve struct implementing CurveCalculator
''', '''/// Part of the supply worth `diff` of `total`
fn share(diff: PreciseNumber, total: &PreciseNumber, pool_supply: u128) -> Option<PreciseNumber> {
    PreciseNumber::new(pool_supply)?.checked_mul(&diff)?.checked_div(total)
}

/// StableCurve struct implementing CurveCalculator
''')]
R['sqrt-loop'] = [(DFS, '''        let mut z = match x.checked_add(1) {
            Some(val) => val.checked_div(2)?,
            None => x.checked_div(2)?, // handle u64 max
        };
        let mut y = x;
        while z < y {
            y = z;
            z = x.checked_div(z)?.checked_add(z)?.checked_div(2)?;
        }
''', '''        let mut y = x;
        let mut z = match x.checked_add(1) {
            Some(val) => val / 2,
            None => x / 2, // handle u64 max
        };
        loop {
            if z >= y {
                break;
            }
            y = z;
            let quotient = x.checked_div(y)?;
            z = y.checked_add(quotient)? / 2;
        }
'''), (DFS, '''        let rounded_sqrt = match should_round_up && is_not_perfect_square {
            true => y.checked_add(1),
            false => Some(y),
        };

        rounded_sqrt''', '''        if should_round_up && is_not_perfect_square {
            y.checked_add(1)
        } else {
            Some(y)
        }''')]
R['sqrt-first-guess'] = [(DFS, '''        let mut z = match x.checked_add(1) {
            Some(val) => val.checked_div(2)?,
            None => x.checked_div(2)?, // handle u64 max
        };
''', '''        let mut z = if x == u64::MAX { x / 2 } else { (x + 1) / 2 };
''')]
R['sqrt-halves'] = [(DFS, '''        let value_bits = self.value.bits();
        let max_bits = 64;

        let real_sqrt;
        if value_bits <= max_bits {''', '''        let max_bits = 64;
        let value_bits = self.value.bits();

        let real_sqrt;
        if max_bits >= value_bits {'''), (DFS, '''            real_sqrt = match should_round_up
                && unrounded_sqrt
                    .checked_mul(&correction_factor)?
                    .less_than(&unrounded_numerator)
            {
                true => unrounded_sqrt.checked_add(
                    &(Self {
                        value: InnerUint::from(1),
                    }),
                ),
                false => Some(unrounded_sqrt),
            }''', '''            let mut rounded = unrounded_sqrt;
            if should_round_up {
                let back = rounded.checked_mul(&correction_factor)?;
                if back.value < unrounded_numerator.value {
                    rounded = Self {
                        value: rounded.value.checked_add(InnerUint::from(1))?,
                    };
                }
            }
            real_sqrt = Some(rounded)'''), (DFS, '''                match should_round_up && (unrounded_padded_value << pad_bits).lt(&self.value) {
                    true => unrounded_padded_value.checked_add(InnerUint::from(1))?,
                    false => unrounded_padded_value,
                };''', '''                if should_round_up && (unrounded_padded_value << pad_bits) != self.value {
                    unrounded_padded_value.checked_add(InnerUint::from(1))?
                } else {
                    unrounded_padded_value
                };''')]
R['dfs-div-helper'] = [(DFS, '''        match self.value.checked_mul(one()) {
            Some(v) => {
                let value = v
                    .checked_add(Self::rounding_correction())?
                    .checked_div(rhs.value)?;
                Some(Self { value })
            }
            None => {
                let value = self
                    .value
                    .checked_add(Self::rounding_correction())?
                    .checked_div(rhs.value)?
                    .checked_mul(one())?;
                Some(Self { value })
            }
        }''', '''        let value = if let Some(v) = self.value.checked_mul(one()) {
            Self::corrected(v)?.checked_div(rhs.value)?
        } else {
            Self::corrected(self.value)?
                .checked_div(rhs.value)?
                .checked_mul(one())?
        };
        Some(Self { value })'''), (DFS, '''    fn zero() -> Self {
        Self { value: zero() }''', '''    fn corrected(value: InnerUint) -> Option<InnerUint> {
        value.checked_add(Self::rounding_correction())
    }

    fn zero() -> Self {
        Self { value: zero() }'''), (DFS, '''        match self.value.checked_sub(rhs.value) {
            None => {
                let value = rhs.value.checked_sub(self.value).unwrap();
                (Self { value }, true)
            }
            Some(value) => (Self { value }, false),
        }''', '''        if self.value < rhs.value {
            let value = rhs.value - self.value;
            (Self { value }, true)
        } else {
            let value = self.value - rhs.value;
            (Self { value }, false)
        }'''), (DFS, '''        let corrected = self
            .value
            .checked_add(Self::rounding_correction())?
            .checked_div(one());

        // don't panic if self > u128 max (this differs from spl_math::PreciseNumber)
        match corrected.le(&(Some(InnerUint::from(u128::MAX)))) {
            true => corrected.map(|v| v.as_u128()),
            false => None,
        }''', '''        let corrected = Self::corrected(self.value)?.checked_div(one())?;

        // don't panic if self > u128 max (this differs from spl_math::PreciseNumber)
        if corrected > InnerUint::from(u128::MAX) {
            return None;
        }
        Some(corrected.as_u128())''')]
R['dfs-ceil'] = [(DFS, '''        let value = self
            .value
            .checked_add(one().checked_sub(InnerUint::from(1))?)?
            .checked_div(one())?
            .checked_mul(one())?;
        Some(Self { value })''', '''        let below_one = one().checked_sub(InnerUint::from(1))?;
        let shifted = self.value.checked_add(below_one)?;
        let whole = shifted.checked_div(one())?;
        whole.checked_mul(one()).map(|value| Self { value })'''), (DFS, '''        let value = self.value.checked_div(one())?.checked_mul(one())?;
        Some(Self { value })
    }

    /// Ceiling''', '''        let fraction = self.value % one();
        let value = self.value.checked_sub(fraction)?;
        Some(Self { value })
    }

    /// Ceiling''')]
R['linear-helpers'] = [(LIN, '''        // 0.5 * m * b^2
        let half_m_b_squared = DFSPreciseNumber::new(self.slope_numerator.into())?
            .checked_mul(b_value)?
            .checked_mul(b_value)?
            .checked_div(&(DFSPreciseNumber::new(self.slope_denominator.into())?))?
            .checked_div(&(DFSPreciseNumber::new(2)?))?;

        // a0 * b (note a0 and b are always positive) - make sure to do division last
        let a0_times_b = DFSPreciseNumber::new(self.initial_token_a_price_numerator.into())?
            .checked_mul(b_value)?
            .checked_div(
                &(DFSPreciseNumber::new(self.initial_token_a_price_denominator.into())?),
            )?;

        half_m_b_squared.checked_add(&a0_times_b)''', '''        let two = DFSPreciseNumber::new(2)?;
        // a0 * b (note a0 and b are always positive) - make sure to do division last
        let price_num = DFSPreciseNumber::new(self.initial_token_a_price_numerator.into())?;
        let price_den = DFSPreciseNumber::new(self.initial_token_a_price_denominator.into())?;
        let a0_times_b = price_num.checked_mul(b_value)?.checked_div(&price_den)?;

        // 0.5 * m * b^2
        let slope_num = DFSPreciseNumber::new(self.slope_numerator.into())?;
        let slope_den = DFSPreciseNumber::new(self.slope_denominator.into())?;
        let m_b = slope_num.checked_mul(b_value)?;
        let m_b_squared = m_b.checked_mul(b_value)?.checked_div(&slope_den)?;

        a0_times_b.checked_add(&m_b_squared.checked_div(&two)?)'''), (LIN, '''        match self.maximum_a_remaining_for_swap_a_to_b(
            &a_start,
            &b_start,
            source_amount,
            swap_destination_amount,
        ) {
            Some(val) => return Some(val),
            // no need to return None here if checked_add fails, can just skip this check and do real calculation below
            None => (),
        }
''', '''        // no need to return None here if checked_add fails, can just skip this check and do real calculation below
        if let Some(val) = self.maximum_a_remaining_for_swap_a_to_b(
            &a_start,
            &b_start,
            source_amount,
            swap_destination_amount,
        ) {
            return Some(val);
        }
'''), (LIN, '''        if maximum_a_remaining <= source_amount {
            return Some((maximum_a_remaining, swap_destination_amount));
        } else {
            return None;
        }''', '''        if source_amount < maximum_a_remaining {
            None
        } else {
            Some((maximum_a_remaining, swap_destination_amount))
        }''')]
R['linear-sell'] = [(LIN, '''        let (b_end, b_end_is_negative) =
            b_start.unsigned_sub(&(DFSPreciseNumber::new(source_amount)?));
''', '''        let sold = DFSPreciseNumber::new(source_amount)?;
        let b_end_is_negative = b_start.less_than(&sold);
'''), (LIN, '''        let b_end = b_end.ceiling()?;

''', ''), (LIN, '''        let a_end = self.amt_a_locked_at_b_value_quadratic(&b_end)?;

        // PreciseNumber rounds .5+ up by default, make sure to floor instead so we don't allow
        // dust to round up for free
        let destination_amount = DFSPreciseNumber::new(swap_destination_amount)?
            .checked_sub(&a_end)?
            .floor()?
            .to_imprecise()?;
''', '''        let b_end = b_start.checked_sub(&sold)?.ceiling()?;
        let a_end = self.amt_a_locked_at_b_value_quadratic(&b_end)?;

        // PreciseNumber rounds .5+ up by default, make sure to floor instead so we don't allow
        // dust to round up for free
        let held = DFSPreciseNumber::new(swap_destination_amount)?;
        let freed = held.checked_sub(&a_end)?;
        let destination_amount = freed.floor()?.to_imprecise()?;
''')]
R['linear-root'] = [(LIN, '''    let four_k_lhs = k_numerator
        .checked_mul(&(DFSPreciseNumber::new(4)?))?
        .checked_mul(lhs_value)?
        .checked_div(k_denominator)?;

    // e^2 + k * 4 * lhs
    let e2_plus_4_k_lhs = e_value_numerator
        .checked_mul(e_value_numerator)?
        .checked_div(e_value_denominator)?
        .checked_div(&e_value_denominator)?
        .checked_add(&four_k_lhs)?;
''', '''    let e2 = e_value_numerator
        .checked_mul(e_value_numerator)?
        .checked_div(e_value_denominator)?
        .checked_div(e_value_denominator)?;
    let four = DFSPreciseNumber::new(4)?;
    let four_k = four.checked_mul(k_numerator)?;
    let four_k_lhs = lhs_value.checked_mul(&four_k)?.checked_div(k_denominator)?;

    // e^2 + k * 4 * lhs
    let e2_plus_4_k_lhs = four_k_lhs.checked_add(&e2)?;
'''), (LIN, '''    let numerator = match sqrt_e2_plus_4_k_lhs.checked_sub(&e_value) {
        Some(val) => val,
        None => DFSPreciseNumber::new(0)?,
    };
''', '''    let numerator = if sqrt_e2_plus_4_k_lhs.less_than(&e_value) {
        DFSPreciseNumber::new(0)?
    } else {
        sqrt_e2_plus_4_k_lhs.checked_sub(&e_value)?
    };
'''), (LIN, '''        let k_numerator = slope_numerator.checked_mul(&(DFSPreciseNumber::new(1)?))?;
''', '''        let k_numerator = slope_numerator;
''')]
R['linear-dispatch'] = [(LIN, '''        let (source_amount_swapped, destination_amount_swapped) = match trade_direction {
            TradeDirection::AtoB => {
                self.swap_a_to_b(source_amount, swap_source_amount, swap_destination_amount)?
            }
            TradeDirection::BtoA => {
                self.swap_b_to_a(source_amount, swap_source_amount, swap_destination_amount)?
            }
        };
        let source_amount_swapped = map_zero_to_none(source_amount_swapped)?;
        let destination_amount_swapped = map_zero_to_none(destination_amount_swapped)?;
        Some(SwapWithoutFeesResult {
            source_amount_swapped,
''', '''        let buying = trade_direction == TradeDirection::AtoB;
        let traded = if buying {
            self.swap_a_to_b(source_amount, swap_source_amount, swap_destination_amount)
        } else {
            self.swap_b_to_a(source_amount, swap_source_amount, swap_destination_amount)
        };
        let (source_amount_swapped, destination_amount_swapped) = traded?;
        if source_amount_swapped == 0 || destination_amount_swapped == 0 {
            return None;
        }
        Some(SwapWithoutFeesResult {
            source_amount_swapped,
'''), (LIN, '''    // since PreciseNumber only has 18 decimals, any slope < 1e-18 will be treated as 0
    let numerator = DFSPreciseNumber::new(curve.slope_numerator.into())?;
    let denominator = DFSPreciseNumber::new(curve.slope_denominator.into())?;
    let minimum = DFSPreciseNumber::new(1)?
        .checked_div(&(DFSPreciseNumber::new(1_000_000_000_000_000_000)?))?;

    match numerator
        .checked_div(&denominator)?
        .greater_than_or_equal(&minimum)
    {
        true => Some(()),
        false => None,
    }''', '''    // since PreciseNumber only has 18 decimals, any slope < 1e-18 will be treated as 0
    let minimum = DFSPreciseNumber::new(1)?
        .checked_div(&(DFSPreciseNumber::new(1_000_000_000_000_000_000)?))?;
    let slope = DFSPreciseNumber::new(curve.slope_numerator.into())?
        .checked_div(&(DFSPreciseNumber::new(curve.slope_denominator.into())?))?;

    if slope.less_than(&minimum) {
        return None;
    }
    Some(())''')]
R['cp-share'] = [(CP, '''    let mut token_a_amount = pool_tokens
        .checked_mul(swap_token_a_amount)?
        .checked_div(pool_token_supply)?;
    let mut token_b_amount = pool_tokens
        .checked_mul(swap_token_b_amount)?
        .checked_div(pool_token_supply)?;
    let (token_a_amount, token_b_amount) = match round_direction {
        RoundDirection::Floor => (token_a_amount, token_b_amount),
        RoundDirection::Ceiling => {
            let token_a_remainder = pool_tokens
                .checked_mul(swap_token_a_amount)?
                .checked_rem(pool_token_supply)?;
            // Also check for 0 token A and B amount to avoid taking too much
            // for tiny amounts of pool tokens.  For example, if someone asks
            // for 1 pool token, which is worth 0.01 token A, we avoid the
            // ceiling of taking 1 token A and instead return 0, for it to be
            // rejected later in processing.
            if token_a_remainder > 0 && token_a_amount > 0 {
                token_a_amount += 1;
            }
            let token_b_remainder = pool_tokens
                .checked_mul(swap_token_b_amount)?
                .checked_rem(pool_token_supply)?;
            if token_b_remainder > 0 && token_b_amount > 0 {
                token_b_amount += 1;
            }
            (token_a_amount, token_b_amount)
        }
    };
    Some(TradingTokenResult {
        token_a_amount,
        token_b_amount,
    })''', '''    let round_up = round_direction == RoundDirection::Ceiling;
    Some(TradingTokenResult {
        token_a_amount: share_of(pool_tokens, pool_token_supply, swap_token_a_amount, round_up)?,
        token_b_amount: share_of(pool_tokens, pool_token_supply, swap_token_b_amount, round_up)?,
    })'''), (CP, '''/// Get the amount of trading tokens for the given amount of pool tokens,
/// provided the total trading tokens and supply of pool tokens.
///
/// The constant product implementation is a simple ratio''', '''fn share_of(pool_tokens: u128, supply: u128, held: u128, round_up: bool) -> Option<u128> {
    let product = pool_tokens.checked_mul(held)?;
    let whole = product.checked_div(supply)?;
    // a share below one token stays zero, for it to be rejected later
    if round_up && whole > 0 && whole.checked_mul(supply)? != product {
        return whole.checked_add(1);
    }
    Some(whole)
}

/// Get the amount of trading tokens for the given amount of pool tokens,
/// provided the total trading tokens and supply of pool tokens.
///
/// The constant product implementation is a simple ratio''')]
R['cp-single'] = [(CP, '''    let ratio = source_amount.checked_div(&swap_source_amount)?;
    let one = PreciseNumber::new(1)?;
    let base = one.checked_add(&ratio)?;
    let root = base.sqrt()?.checked_sub(&one)?;
    let pool_supply = PreciseNumber::new(pool_supply)?;
    let pool_tokens = pool_supply.checked_mul(&root)?;
    match''', '''    let one = PreciseNumber::new(1)?;
    let grown = source_amount.checked_div(&swap_source_amount)?.checked_add(&one)?;
    let root = grown.sqrt()?.checked_sub(&one)?;
    let pool_tokens = root.checked_mul(&PreciseNumber::new(pool_supply)?)?;
    match'''), (CP, '''    let base = one.checked_sub(&ratio)?;
    let root = one.checked_sub(&base.sqrt()?)?;
    let pool_supply = PreciseNumber::new(pool_supply)?;
    let pool_tokens = pool_supply.checked_mul(&root)?;
    match round_direction {
        RoundDirection::Floor => pool_tokens.floor()?.to_imprecise(),
        RoundDirection::Ceiling => pool_tokens.ceiling()?.to_imprecise(),
    }''', '''    let left = one.checked_sub(&ratio)?.sqrt()?;
    let pool_tokens = PreciseNumber::new(pool_supply)?.checked_mul(&one.checked_sub(&left)?)?;
    let rounded = match round_direction {
        RoundDirection::Floor => pool_tokens.floor()?,
        RoundDirection::Ceiling => pool_tokens.ceiling()?,
    };
    rounded.to_imprecise()''')]
R['cp-swap'] = [(CP, '''    let (new_swap_destination_amount, new_swap_source_amount) =
        invariant.checked_ceil_div(new_swap_source_amount)?;

    let source_amount_swapped = new_swap_source_amount.checked_sub(swap_source_amount)?;
    let destination_amount_swapped =
        map_zero_to_none(swap_destination_amount.checked_sub(new_swap_destination_amount)?)?;

    Some(SwapWithoutFeesResult {
        source_amount_swapped,
        destination_amount_swapped,
    })''', '''    let (left, needed) = invariant.checked_ceil_div(new_swap_source_amount)?;
    let destination_amount_swapped = swap_destination_amount.checked_sub(left)?;
    let source_amount_swapped = needed.checked_sub(swap_source_amount)?;
    if destination_amount_swapped == 0 {
        return None;
    }

    Some(SwapWithoutFeesResult {
        source_amount_swapped,
        destination_amount_swapped,
    })'''), (CP, 'map_zero_to_none, CurveCalculator', 'CurveCalculator')]
R['cpr-swap'] = [(CPR, '''        let (source_amount_swapped, destination_amount_swapped) = match trade_direction {
            TradeDirection::BtoA => (source_amount, source_amount.checked_mul(token_b_price)?),
            TradeDirection::AtoB => {
                let destination_amount_swapped = source_amount.checked_div(token_b_price)?;
                let mut source_amount_swapped = source_amount;

                // if there is a remainder from buying token B, floor
                // token_a_amount to avoid taking too many tokens, but
                // don't recalculate the fees
                let remainder = source_amount_swapped.checked_rem(token_b_price)?;
                if remainder > 0 {
                    source_amount_swapped = source_amount.checked_sub(remainder)?;
                }

                (source_amount_swapped, destination_amount_swapped)
            }
        };''', '''        let (source_amount_swapped, destination_amount_swapped) = match trade_direction {
            TradeDirection::AtoB => {
                // floor token_a_amount to avoid taking too many tokens, but
                // don't recalculate the fees
                let bought = source_amount.checked_div(token_b_price)?;
                (bought.checked_mul(token_b_price)?, bought)
            }
            TradeDirection::BtoA => (source_amount, token_b_price.checked_mul(source_amount)?),
        };''')]
R['cpr-convert'] = [(CPR, '''                let token_a_amount = pool_tokens
                    .checked_mul(total_value)?
                    .checked_div(pool_token_supply)?;
                let token_b_amount = pool_tokens
                    .checked_mul(total_value)?
                    .checked_div(token_b_price)?
                    .checked_div(pool_token_supply)?;
                (token_a_amount, token_b_amount)''', '''                let value = total_value.checked_mul(pool_tokens)?;
                let token_a_amount = value.checked_div(pool_token_supply)?;
                let token_b_amount = value
                    .checked_div(token_b_price)?
                    .checked_div(pool_token_supply)?;
                (token_a_amount, token_b_amount)'''), (CPR, '''    match round_direction {
        RoundDirection::Floor => Some(
            pool_supply
                .checked_mul(given_value)?
                .checked_div(total_value)?
                .as_u128(),
        ),
        RoundDirection::Ceiling => Some(
            pool_supply
                .checked_mul(given_value)?
                .checked_ceil_div(total_value)?
                .0
                .as_u128(),
        ),
    }''', '''    let numerator = given_value.checked_mul(pool_supply)?;
    let result = match round_direction {
        RoundDirection::Floor => numerator.checked_div(total_value)?,
        RoundDirection::Ceiling => {
            let (quotient, _) = numerator.checked_ceil_div(total_value)?;
            quotient
        }
    };
    Some(result.as_u128())'''), (CPR, '''    let given_value = match trade_direction {
        TradeDirection::AtoB => U256::from(source_amount),
        TradeDirection::BtoA => U256::from(source_amount).checked_mul(token_b_price)?,
    };''', '''    let mut given_value = U256::from(source_amount);
    if trade_direction == TradeDirection::BtoA {
        given_value = given_value.checked_mul(token_b_price)?;
    }''')]
R['offset-dir'] = [(OFF, '''        let swap_source_amount = match trade_direction {
            TradeDirection::AtoB => swap_source_amount,
            TradeDirection::BtoA => swap_source_amount.checked_add(token_b_offset)?,
        };
        let swap_destination_amount = match trade_direction {
            TradeDirection::AtoB => swap_destination_amount.checked_add(token_b_offset)?,
            TradeDirection::BtoA => swap_destination_amount,
        };
        swap(source_amount, swap_source_amount, swap_destination_amount)''', '''        let (source, destination) = match trade_direction {
            TradeDirection::AtoB => (
                swap_source_amount,
                swap_destination_amount.checked_add(token_b_offset)?,
            ),
            TradeDirection::BtoA => (
                swap_source_amount.checked_add(token_b_offset)?,
                swap_destination_amount,
            ),
        };
        swap(source_amount, source, destination)''')]
R['fees-max'] = [(FE, '''    if fee_numerator == 0 || token_amount == 0 {
        Some(0)
    } else {
        let fee = token_amount
            .checked_mul(fee_numerator)?
            .checked_div(fee_denominator)?;
        if fee == 0 {
            Some(1) // minimum fee of one token
        } else {
            Some(fee)
        }
    }''', '''    if token_amount == 0 || fee_numerator == 0 {
        return Some(0);
    }
    let fee = fee_numerator
        .checked_mul(token_amount)?
        .checked_div(fee_denominator)?;
    // minimum fee of one token
    Some(fee.max(1))'''), (FE, '''    if denominator == 0 && numerator == 0 {
        Ok(())
    } else if numerator >= denominator {
        Err(SwapError::InvalidFee)
    } else {
        Ok(())
    }''', '''    let unset = numerator == 0 && denominator == 0;
    if unset || numerator < denominator {
        Ok(())
    } else {
        Err(SwapError::InvalidFee)
    }''')]
R['fees-loop'] = [(FE, '''        validate_fraction(self.trade_fee_numerator, self.trade_fee_denominator)?;
        validate_fraction(
            self.owner_trade_fee_numerator,
            self.owner_trade_fee_denominator,
        )?;
        validate_fraction(
            self.owner_withdraw_fee_numerator,
            self.owner_withdraw_fee_denominator,
        )?;
        validate_fraction(self.host_fee_numerator, self.host_fee_denominator)?;
        Ok(())''', '''        let fractions = [
            (self.trade_fee_numerator, self.trade_fee_denominator),
            (self.owner_trade_fee_numerator, self.owner_trade_fee_denominator),
            (self.owner_withdraw_fee_numerator, self.owner_withdraw_fee_denominator),
            (self.host_fee_numerator, self.host_fee_denominator),
        ];
        for (numerator, denominator) in fractions.iter() {
            validate_fraction(*numerator, *denominator)?;
        }
        Ok(())'''), (FE, '''            u128::try_from(self.trade_fee_numerator).ok()?,
            u128::try_from(self.trade_fee_denominator).ok()?,
        )
    }

    /// Calculate the owner trading fee''', '''            self.trade_fee_numerator.into(),
            self.trade_fee_denominator as u128,
        )
    }

    /// Calculate the owner trading fee''')]
R['base-swap'] = [(B, '''        let source_amount_less_fees = source_amount.checked_sub(total_fees)?;

        let SwapWithoutFeesResult {
            source_amount_swapped,
            destination_amount_swapped,
        } = self.calculator.swap_without_fees(
            source_amount_less_fees,
            swap_source_amount,
            swap_destination_amount,
            trade_direction,
        )?;

        let source_amount_swapped = source_amount_swapped.checked_add(total_fees)?;
        Some(SwapResult {
            new_swap_source_amount: swap_source_amount.checked_add(source_amount_swapped)?,
            new_swap_destination_amount: swap_destination_amount
                .checked_sub(destination_amount_swapped)?,
            source_amount_swapped,
            destination_amount_swapped,''', '''        if total_fees > source_amount {
            return None;
        }

        let traded = self.calculator.swap_without_fees(
            source_amount - total_fees,
            swap_source_amount,
            swap_destination_amount,
            trade_direction,
        )?;

        let new_swap_destination_amount =
            swap_destination_amount.checked_sub(traded.destination_amount_swapped)?;
        let source_amount_swapped = total_fees.checked_add(traded.source_amount_swapped)?;
        Some(SwapResult {
            new_swap_source_amount: source_amount_swapped.checked_add(swap_source_amount)?,
            new_swap_destination_amount,
            source_amount_swapped,
            destination_amount_swapped: traded.destination_amount_swapped,'''), (B, '''        let half_source_amount = std::cmp::max(1, source_amount.checked_div(2)?);
        let trade_fee = fees.trading_fee(half_source_amount)?;
        let source_amount = source_amount.checked_add(trade_fee)?;''', '''        let half_source_amount = if source_amount < 2 { 1 } else { source_amount >> 1 };
        let trade_fee = fees.trading_fee(half_source_amount)?;
        let source_amount = trade_fee.checked_add(source_amount)?;''')]
R['base-unpack'] = [(B, '''            calculator: match curve_type {
                CurveType::ConstantProduct => {
                    Box::new(ConstantProductCurve::unpack_from_slice(calculator)?)
                }
                CurveType::ConstantPrice => {
                    Box::new(ConstantPriceCurve::unpack_from_slice(calculator)?)
                }
                CurveType::Stable => Box::new(StableCurve::unpack_from_slice(calculator)?),
                CurveType::Offset => Box::new(OffsetCurve::unpack_from_slice(calculator)?),
                CurveType::LinearPrice => {
                    Box::new(LinearPriceCurve::unpack_from_slice(calculator)?)
                }
            },
        })''', '''            calculator: Self::read_calculator(curve_type, calculator)?,
        })'''), (B, '''impl SwapCurve {
    /// Subtract fees''', '''impl SwapCurve {
    fn read_calculator(
        curve_type: CurveType,
        input: &[u8],
    ) -> Result<Box<dyn CurveCalculator>, ProgramError> {
        let calculator: Box<dyn CurveCalculator> = match curve_type {
            CurveType::LinearPrice => Box::new(LinearPriceCurve::unpack_from_slice(input)?),
            CurveType::Offset => Box::new(OffsetCurve::unpack_from_slice(input)?),
            CurveType::Stable => Box::new(StableCurve::unpack_from_slice(input)?),
            CurveType::ConstantPrice => Box::new(ConstantPriceCurve::unpack_from_slice(input)?),
            CurveType::ConstantProduct => Box::new(ConstantProductCurve::unpack_from_slice(input)?),
        };
        Ok(calculator)
    }

    /// Subtract fees'''), (B, '''        match curve_type {
            0 => Ok(CurveType::ConstantProduct),
            1 => Ok(CurveType::ConstantPrice),
            2 => Ok(CurveType::Stable),
            3 => Ok(CurveType::Offset),
            30 => Ok(CurveType::LinearPrice),
            _ => Err(ProgramError::InvalidAccountData),
        }''', '''        const KNOWN: [CurveType; 5] = [
            CurveType::ConstantProduct,
            CurveType::ConstantPrice,
            CurveType::Stable,
            CurveType::Offset,
            CurveType::LinearPrice,
        ];
        for known in KNOWN.iter() {
            if *known as u8 == curve_type {
                return Ok(*known);
            }
        }
        Err(ProgramError::InvalidAccountData)''')]
R['state-slices'] = [(ST, '''        let output = array_mut_ref![output, 0, 323];
        let (
            is_initialized,
            bump_seed,
            token_program_id,
            token_a,
            token_b,
            pool_mint,
            token_a_mint,
            token_b_mint,
            pool_fee_account,
            fees,
            swap_curve,
        ) = mut_array_refs![output, 1, 1, 32, 32, 32, 32, 32, 32, 32, 64, 33];
        is_initialized[0] = self.is_initialized as u8;
        bump_seed[0] = self.bump_seed;
        token_program_id.copy_from_slice(self.token_program_id.as_ref());
        token_a.copy_from_slice(self.token_a.as_ref());
        token_b.copy_from_slice(self.token_b.as_ref());
        pool_mint.copy_from_slice(self.pool_mint.as_ref());
        token_a_mint.copy_from_slice(self.token_a_mint.as_ref());
        token_b_mint.copy_from_slice(self.token_b_mint.as_ref());
        pool_fee_account.copy_from_slice(self.pool_fee_account.as_ref());
        self.fees.pack_into_slice(&mut fees[..]);
        self.swap_curve.pack_into_slice(&mut swap_curve[..]);''', '''        let output = array_mut_ref![output, 0, 323];
        output[0] = if self.is_initialized { 1 } else { 0 };
        output[1] = self.bump_seed;
        let keys = [
            &self.token_program_id,
            &self.token_a,
            &self.token_b,
            &self.pool_mint,
            &self.token_a_mint,
            &self.token_b_mint,
            &self.pool_fee_account,
        ];
        let mut at = 2;
        for key in keys.iter() {
            output[at..at + 32].copy_from_slice(key.as_ref());
            at += 32;
        }
        self.fees.pack_into_slice(&mut output[at..at + 64]);
        self.swap_curve.pack_into_slice(&mut output[at + 64..]);'''), (ST, '''            is_initialized: match is_initialized {
                [0] => false,
                [1] => true,
                _ => return Err(ProgramError::InvalidAccountData),
            },''', '''            is_initialized: if is_initialized[0] > 1 {
                return Err(ProgramError::InvalidAccountData);
            } else {
                is_initialized[0] == 1
            },''')]
R['constraints'] = [(CON, '''        if self
            .valid_curve_types
            .iter()
            .any(|x| *x == swap_curve.curve_type)
        {
            Ok(())
        } else {
            Err(SwapError::UnsupportedCurveType.into())
        }''', '''        for allowed in self.valid_curve_types {
            if swap_curve.curve_type == *allowed {
                return Ok(());
            }
        }
        Err(SwapError::UnsupportedCurveType.into())'''), (CON, '''        if fees.trade_fee_numerator >= self.fees.trade_fee_numerator
            && fees.trade_fee_denominator == self.fees.trade_fee_denominator
            && fees.owner_trade_fee_numerator >= self.fees.owner_trade_fee_numerator
            && fees.owner_trade_fee_denominator == self.fees.owner_trade_fee_denominator
            && fees.owner_withdraw_fee_numerator >= self.fees.owner_withdraw_fee_numerator
            && fees.owner_withdraw_fee_denominator == self.fees.owner_withdraw_fee_denominator
            && fees.host_fee_numerator == self.fees.host_fee_numerator
            && fees.host_fee_denominator == self.fees.host_fee_denominator
        {
            Ok(())
        } else {
            Err(SwapError::InvalidFee.into())
        }''', '''        let least = self.fees;
        let same_denominators = fees.trade_fee_denominator == least.trade_fee_denominator
            && fees.owner_trade_fee_denominator == least.owner_trade_fee_denominator
            && fees.owner_withdraw_fee_denominator == least.owner_withdraw_fee_denominator;
        let same_host = (fees.host_fee_numerator, fees.host_fee_denominator)
            == (least.host_fee_numerator, least.host_fee_denominator);
        let lower = fees.trade_fee_numerator < least.trade_fee_numerator
            || fees.owner_trade_fee_numerator < least.owner_trade_fee_numerator
            || fees.owner_withdraw_fee_numerator < least.owner_withdraw_fee_numerator;
        if lower || !same_denominators || !same_host {
            return Err(SwapError::InvalidFee.into());
        }
        Ok(())''')]
R['init-loops'] = [(PR, '''        if token_a.delegate.is_some() {
            return Err(SwapError::InvalidDelegate.into());
        }
        if token_b.delegate.is_some() {
            return Err(SwapError::InvalidDelegate.into());
        }
        if token_a.close_authority.is_some() {
            return Err(SwapError::InvalidCloseAuthority.into());
        }
        if token_b.close_authority.is_some() {
            return Err(SwapError::InvalidCloseAuthority.into());
        }
''', '''        for vault in [&token_a, &token_b].iter() {
            if vault.delegate.is_some() {
                return Err(SwapError::InvalidDelegate.into());
            }
        }
        let closable = |vault: &spl_token::state::Account| vault.close_authority.is_some();
        if closable(&token_a) || closable(&token_b) {
            return Err(SwapError::InvalidCloseAuthority.into());
        }
'''), (PR, '''        fees.validate()?;
        swap_curve.calculator.validate()?;
''', '''        swap_curve.calculator.validate()?;
        fees.validate()?;
''')]
R['swap-vaults'] = [(PR, '''        if !(*swap_source_info.key == *token_swap.token_a_account()
            || *swap_source_info.key == *token_swap.token_b_account())
        {
            return Err(SwapError::IncorrectSwapAccount.into());
        }
        if !(*swap_destination_info.key == *token_swap.token_a_account()
            || *swap_destination_info.key == *token_swap.token_b_account())
        {
            return Err(SwapError::IncorrectSwapAccount.into());
        }
        if *swap_source_info.key == *swap_destination_info.key {
            return Err(SwapError::InvalidInput.into());
        }
''', '''        if *swap_source_info.key == *swap_destination_info.key {
            return Err(SwapError::InvalidInput.into());
        }
        let vaults = [*token_swap.token_a_account(), *token_swap.token_b_account()];
        if !vaults.contains(swap_source_info.key) || !vaults.contains(swap_destination_info.key) {
            return Err(SwapError::IncorrectSwapAccount.into());
        }
'''), (PR, '''        let (swap_token_a_amount, swap_token_b_amount) = match trade_direction {
            TradeDirection::AtoB => (
                result.new_swap_source_amount,
                result.new_swap_destination_amount,
            ),
            TradeDirection::BtoA => (
                result.new_swap_destination_amount,
                result.new_swap_source_amount,
            ),
        };

        Self::token_transfer(
            swap_info.key,
            token_program_info.clone(),
            source_info.clone(),
            swap_source_info.clone(),
            user_transfer_authority_info.clone(),
            token_swap.bump_seed(),
            to_u64(result.source_amount_swapped)?,
        )?;
''', '''        let amount_taken = to_u64(result.source_amount_swapped)?;
        let amount_paid = to_u64(result.destination_amount_swapped)?;
        Self::token_transfer(
            swap_info.key,
            token_program_info.clone(),
            source_info.clone(),
            swap_source_info.clone(),
            user_transfer_authority_info.clone(),
            token_swap.bump_seed(),
            amount_taken,
        )?;

        let mut swap_token_a_amount = result.new_swap_source_amount;
        let mut swap_token_b_amount = result.new_swap_destination_amount;
        if trade_direction == TradeDirection::BtoA {
            std::mem::swap(&mut swap_token_a_amount, &mut swap_token_b_amount);
        }
'''), (PR, '''            swap_destination_info.clone(),
            destination_info.clone(),
            authority_info.clone(),
            token_swap.bump_seed(),
            to_u64(result.destination_amount_swapped)?,
        )?;''', '''            swap_destination_info.clone(),
            destination_info.clone(),
            authority_info.clone(),
            token_swap.bump_seed(),
            amount_paid,
        )?;''')]
R['swap-host-helper'] = [(PR, '''            // Allow error to fall through
            if let Ok(host_fee_account_info) = next_account_info(account_info_iter) {
                let host_fee_account = Self::unpack_token_account(
                    host_fee_account_info,
                    token_swap.token_program_id(),
                )?;
                if *pool_mint_info.key != host_fee_account.mint {
                    return Err(SwapError::IncorrectPoolMint.into());
                }
                let host_fee = token_swap
                    .fees()
                    .host_fee(pool_token_amount)
                    .ok_or(SwapError::FeeCalculationFailure)?;
                if host_fee > 0 {''', '''            if let Some(host_fee_account_info) = accounts.get(10) {
                let host_fee = Self::checked_host_fee(
                    host_fee_account_info,
                    pool_mint_info.key,
                    token_swap.as_ref(),
                    pool_token_amount,
                )?;
                if host_fee > 0 {'''), (PR, '''    /// Processes an [Swap](enum.Instruction.html).
''', '''    fn checked_host_fee(
        host_fee_account_info: &AccountInfo,
        pool_mint: &Pubkey,
        token_swap: &dyn SwapState,
        pool_token_amount: u128,
    ) -> Result<u128, ProgramError> {
        let account =
            Self::unpack_token_account(host_fee_account_info, token_swap.token_program_id())?;
        if account.mint != *pool_mint {
            return Err(SwapError::IncorrectPoolMint.into());
        }
        let fee = token_swap.fees().host_fee(pool_token_amount);
        Ok(fee.ok_or(SwapError::FeeCalculationFailure)?)
    }

    /// Processes an [Swap](enum.Instruction.html).
''')]
R['check-accounts'] = [(PR, '''        if *token_a_info.key != *token_swap.token_a_account() {
            return Err(SwapError::IncorrectSwapAccount.into());
        }
        if *token_b_info.key != *token_swap.token_b_account() {
            return Err(SwapError::IncorrectSwapAccount.into());
        }
''', '''        let given = (token_a_info.key, token_b_info.key);
        if given != (token_swap.token_a_account(), token_swap.token_b_account()) {
            return Err(SwapError::IncorrectSwapAccount.into());
        }
'''), (PR, '''        if let Some(user_token_a_info) = user_token_a_info {
            if token_a_info.key == user_token_a_info.key {
                return Err(SwapError::InvalidInput.into());
            }
        }
        if let Some(user_token_b_info) = user_token_b_info {
            if token_b_info.key == user_token_b_info.key {
                return Err(SwapError::InvalidInput.into());
            }
        }
        if let Some(pool_fee_account_info) = pool_fee_account_info {
            if *pool_fee_account_info.key != *token_swap.pool_fee_account() {
                return Err(SwapError::IncorrectFeeAccount.into());
            }
        }
''', '''        match pool_fee_account_info {
            Some(info) if info.key != token_swap.pool_fee_account() => {
                return Err(SwapError::IncorrectFeeAccount.into());
            }
            _ => (),
        }
        let same = |user: Option<&AccountInfo>, vault: &AccountInfo| {
            user.map_or(false, |user| user.key == vault.key)
        };
        if same(user_token_a_info, token_a_info) || same(user_token_b_info, token_b_info) {
            return Err(SwapError::InvalidInput.into());
        }
''')]
R['wd-helper'] = [(PR, '''        let token_a_amount = to_u64(results.token_a_amount)?;
        let token_a_amount = std::cmp::min(token_a.amount, token_a_amount);
        if token_a_amount < minimum_token_a_amount {
            return Err(SwapError::ExceededSlippage.into());
        }
        if token_a_amount == 0 && token_a.amount != 0 {
            return Err(SwapError::ZeroTradingTokens.into());
        }
        let token_b_amount = to_u64(results.token_b_amount)?;
        let token_b_amount = std::cmp::min(token_b.amount, token_b_amount);
        if token_b_amount < minimum_token_b_amount {
            return Err(SwapError::ExceededSlippage.into());
        }
        if token_b_amount == 0 && token_b.amount != 0 {
            return Err(SwapError::ZeroTradingTokens.into());
        }

        if withdraw_fee > 0 {
            Self::token_transfer(
                swap_info.key,
                token_program_info.clone(),
                source_info.clone(),
                pool_fee_account_info.clone(),
                user_transfer_authority_info.clone(),
                token_swap.bump_seed(),
                to_u64(withdraw_fee)?,
            )?;
        }
        Self::token_burn(
            swap_info.key,
            token_program_info.clone(),
            source_info.clone(),
            pool_mint_info.clone(),
            user_transfer_authority_info.clone(),
            token_swap.bump_seed(),
            to_u64(pool_token_amount)?,
        )?;

        if token_a_amount > 0 {
            Self::token_transfer(
                swap_info.key,
                token_program_info.clone(),
                token_a_info.clone(),
                dest_token_a_info.clone(),
                authority_info.clone(),
                token_swap.bump_seed(),
                token_a_amount,
            )?;
        }
        if token_b_amount > 0 {
            Self::token_transfer(
                swap_info.key,
                token_program_info.clone(),
                token_b_info.clone(),
                dest_token_b_info.clone(),
                authority_info.clone(),
                token_swap.bump_seed(),
                token_b_amount,
            )?;
        }
        Ok(())''', '''        let token_a_amount =
            Self::payout(results.token_a_amount, token_a.amount, minimum_token_a_amount)?;
        let token_b_amount =
            Self::payout(results.token_b_amount, token_b.amount, minimum_token_b_amount)?;

        Self::token_burn(
            swap_info.key,
            token_program_info.clone(),
            source_info.clone(),
            pool_mint_info.clone(),
            user_transfer_authority_info.clone(),
            token_swap.bump_seed(),
            to_u64(pool_token_amount)?,
        )?;
        if withdraw_fee > 0 {
            Self::token_transfer(
                swap_info.key,
                token_program_info.clone(),
                source_info.clone(),
                pool_fee_account_info.clone(),
                user_transfer_authority_info.clone(),
                token_swap.bump_seed(),
                to_u64(withdraw_fee)?,
            )?;
        }

        let payouts = [
            (token_a_amount, token_a_info, dest_token_a_info),
            (token_b_amount, token_b_info, dest_token_b_info),
        ];
        for (amount, from, to) in payouts.iter() {
            if *amount == 0 {
                continue;
            }
            Self::token_transfer(
                swap_info.key,
                token_program_info.clone(),
                (*from).clone(),
                (*to).clone(),
                authority_info.clone(),
                token_swap.bump_seed(),
                *amount,
            )?;
        }
        Ok(())'''), (PR, '''    /// Processes DepositSingleTokenTypeExactAmountIn''', '''    fn payout(computed: u128, held: u64, minimum: u64) -> Result<u64, SwapError> {
        let amount = to_u64(computed)?.min(held);
        if amount < minimum {
            Err(SwapError::ExceededSlippage)
        } else if amount == 0 && held > 0 {
            Err(SwapError::ZeroTradingTokens)
        } else {
            Ok(amount)
        }
    }

    /// Processes DepositSingleTokenTypeExactAmountIn''')]
R['wds-vault'] = [(PR, '''        match trade_direction {
            TradeDirection::AtoB => {
                Self::token_transfer(
                    swap_info.key,
                    token_program_info.clone(),
                    swap_token_a_info.clone(),
                    destination_info.clone(),
                    authority_info.clone(),
                    token_swap.bump_seed(),
                    destination_token_amount,
                )?;
            }
            TradeDirection::BtoA => {
                Self::token_transfer(
                    swap_info.key,
                    token_program_info.clone(),
                    swap_token_b_info.clone(),
                    destination_info.clone(),
                    authority_info.clone(),
                    token_swap.bump_seed(),
                    destination_token_amount,
                )?;
            }
        }

        Ok(())''', '''        let vault = match trade_direction {
            TradeDirection::AtoB => swap_token_a_info,
            TradeDirection::BtoA => swap_token_b_info,
        };
        Self::token_transfer(
            swap_info.key,
            token_program_info.clone(),
            vault.clone(),
            destination_info.clone(),
            authority_info.clone(),
            token_swap.bump_seed(),
            destination_token_amount,
        )'''), (PR, '''        let withdraw_fee: u128 = if *pool_fee_account_info.key == *source_info.key {
            // withdrawing from the fee account, don't assess withdraw fee
            0
        } else {
            token_swap
                .fees()
                .owner_withdraw_fee(burn_pool_token_amount)
                .ok_or(SwapError::FeeCalculationFailure)?
        };
        let pool_token_amount = burn_pool_token_amount
            .checked_add(withdraw_fee)
            .ok_or(SwapError::CalculationFailure)?;

        if to_u64(pool_token_amount)? > maximum_pool_token_amount {
            return Err(SwapError::ExceededSlippage.into());
        }
        if pool_token_amount == 0 {
            return Err(SwapError::ZeroTradingTokens.into());
        }
''', '''        let mut withdraw_fee = 0u128;
        // withdrawing from the fee account, don't assess withdraw fee
        if pool_fee_account_info.key != source_info.key {
            withdraw_fee = token_swap
                .fees()
                .owner_withdraw_fee(burn_pool_token_amount)
                .ok_or(SwapError::FeeCalculationFailure)?;
        }
        let pool_token_amount = withdraw_fee
            .checked_add(burn_pool_token_amount)
            .ok_or(SwapError::CalculationFailure)?;
        if pool_token_amount == 0 {
            return Err(SwapError::ZeroTradingTokens.into());
        }
        if pool_token_amount > maximum_pool_token_amount as u128 {
            return Err(SwapError::ExceededSlippage.into());
        }
''')]
R['to-u64'] = [(PR, '''fn to_u64(val: u128) -> Result<u64, SwapError> {
    val.try_into().map_err(|_| SwapError::ConversionFailure)
}''', '''fn to_u64(val: u128) -> Result<u64, SwapError> {
    if val > u64::MAX as u128 {
        return Err(SwapError::ConversionFailure);
    }
    Ok(val as u64)
}''')]

SWI = 'instructions/swap.rs'; WDI = 'instructions/withdraw_all_token_types.rs'
R['entry-list'] = [(SWI, '''    let accounts = vec![
        ctx.accounts.token_swap.clone(),
        ctx.accounts.swap_authority.clone(),
        ctx.accounts.user_transfer_authority.clone(),
        ctx.accounts.source.clone(),
        ctx.accounts.swap_source.clone(),
        ctx.accounts.swap_destination.clone(),
        ctx.accounts.destination.clone(),
        ctx.accounts.pool_mint.clone(),
        ctx.accounts.pool_fee.clone(),
        ctx.accounts.token_program.clone(),
    ];
''', '''    let given = &ctx.accounts;
    let mut accounts = Vec::with_capacity(10);
    for info in [
        &given.token_swap,
        &given.swap_authority,
        &given.user_transfer_authority,
        &given.source,
        &given.swap_source,
        &given.swap_destination,
        &given.destination,
        &given.pool_mint,
        &given.pool_fee,
        &given.token_program,
    ]
    .iter()
    {
        accounts.push((*info).clone());
    }
''')]
R['entry-clones'] = [(WDI, '''    let accounts = [
        ctx.accounts.token_swap.clone(),''', '''    let minimums = (minimum_token_a_amount, minimum_token_b_amount);
    let accounts = [
        ctx.accounts.token_swap.to_account_info(),'''), (WDI, '''        minimum_token_a_amount,
        minimum_token_b_amount,
        &accounts,''', '''        minimums.0,
        minimums.1,
        &accounts[..],''')]
R['init-owner-table'] = [(PR, '''        if *authority_info.key != token_a.owner {
            return Err(SwapError::InvalidOwner.into());
        }
        if *authority_info.key != token_b.owner {
            return Err(SwapError::InvalidOwner.into());
        }
        if *authority_info.key == destination.owner {
            return Err(SwapError::InvalidOutputOwner.into());
        }
        if *authority_info.key == fee_account.owner {
            return Err(SwapError::InvalidOutputOwner.into());
        }
''', '''        for (account, owned, error) in [
            (&token_a, true, SwapError::InvalidOwner),
            (&token_b, true, SwapError::InvalidOwner),
            (&destination, false, SwapError::InvalidOutputOwner),
            (&fee_account, false, SwapError::InvalidOutputOwner),
        ]
        .iter()
        {
            if (account.owner == *authority_info.key) != *owned {
                return Err(error.clone().into());
            }
        }
''')]
R['check-accounts-table'] = [(PR, '''        if *token_a_info.key != *token_swap.token_a_account() {
            return Err(SwapError::IncorrectSwapAccount.into());
        }
        if *token_b_info.key != *token_swap.token_b_account() {
            return Err(SwapError::IncorrectSwapAccount.into());
        }
        if *pool_mint_info.key != *token_swap.pool_mint() {
            return Err(SwapError::IncorrectPoolMint.into());
        }
        if *token_program_info.key != *token_swap.token_program_id() {
            return Err(SwapError::IncorrectTokenProgramId.into());
        }
        if let Some(user_token_a_info) = user_token_a_info {
            if token_a_info.key == user_token_a_info.key {
                return Err(SwapError::InvalidInput.into());
            }
        }
        if let Some(user_token_b_info) = user_token_b_info {
            if token_b_info.key == user_token_b_info.key {
                return Err(SwapError::InvalidInput.into());
            }
        }
''', '''        let recorded = [
            (token_a_info.key, token_swap.token_a_account(), SwapError::IncorrectSwapAccount),
            (token_b_info.key, token_swap.token_b_account(), SwapError::IncorrectSwapAccount),
            (pool_mint_info.key, token_swap.pool_mint(), SwapError::IncorrectPoolMint),
            (token_program_info.key, token_swap.token_program_id(), SwapError::IncorrectTokenProgramId),
        ];
        if let Some((_, _, error)) = recorded.iter().find(|(given, kept, _)| given != kept) {
            return Err(error.clone().into());
        }
        let aliased = |user: Option<&AccountInfo>, vault: &AccountInfo| {
            user.map_or(false, |user| user.key == vault.key)
        };
        if aliased(user_token_a_info, token_a_info) || aliased(user_token_b_info, token_b_info) {
            return Err(SwapError::InvalidInput.into());
        }
''')]
R['transfer-seeds'] = [(PR, '''        let swap_bytes = swap.to_bytes();
        let authority_signature_seeds = [&swap_bytes[..32], &[bump_seed]];
        let signers = &[&authority_signature_seeds[..]];
        let ix = spl_token::instruction::transfer(
            token_program.key,
            source.key,
            destination.key,
            authority.key,
            &[],
            amount,
        )?;
        invoke_signed(
            &ix,
            &[source, destination, authority, token_program],
            signers,
        )''', '''        let ix = spl_token::instruction::transfer(
            token_program.key,
            source.key,
            destination.key,
            authority.key,
            &[],
            amount,
        )?;
        let bump = [bump_seed];
        let seeds: [&[u8]; 2] = [swap.as_ref(), &bump];
        let infos = vec![source, destination, authority, token_program];
        match invoke_signed(&ix, infos.as_slice(), &[&seeds]) {
            Ok(()) => Ok(()),
            Err(error) => Err(error),
        }''')]
R['sqrt-split'] = [(DFS, '''    fn sqrt_babylonian(x: u64, should_round_up: bool) -> Option<u64> {
        let mut z = match x.checked_add(1) {
            Some(val) => val.checked_div(2)?,
            None => x.checked_div(2)?, // handle u64 max
        };
''', '''    fn raw(value: u64) -> Self {
        Self {
            value: InnerUint::from(value),
        }
    }

    fn half_power_of_two(bits: usize) -> Option<Self> {
        Self::new(1u128.checked_shl((bits / 2) as u32)?)
    }

    fn sqrt_babylonian(x: u64, should_round_up: bool) -> Option<u64> {
        let mut z = match x.checked_add(1) {
            Some(val) => val.checked_div(2)?,
            None => x.checked_div(2)?, // handle u64 max
        };
'''), (DFS, '''            // sqrt_padded
''' if False else '''            // since we're converting directly from u128 to PreciseNumber, we're implicitly dividing by ONE
            // so `sqrt_padded = real_sqrt / sqrt(2^pad_bits) * sqrt(ONE) / ONE`
            // -> `sqrt_padded = real_sqrt / sqrt(2^pad_bits) / sqrt(ONE)`
            let sqrt_padded = Self {
                value: InnerUint::from(sqrt_padded_u128),
            };

            // so real_sqrt = sqrt_padded * sqrt(ONE) * sqrt(2^pad_bits)
            // (do this after converting to PreciseNumber so we don't lose precision)
            real_sqrt = sqrt_padded
                .checked_mul(&(Self::new(SQRT_ONE)?))?
                .checked_mul(&correction_factor)
        }

        real_sqrt''', '''            // back to the original scale
            let scale = Self::half_power_of_two(pad_bits)?;
            let widened = Self::raw(sqrt_padded_u128).checked_mul(&(Self::new(SQRT_ONE)?))?;
            return widened.checked_mul(&scale);
        }

        real_sqrt'''), (DFS, '''            let pad_bits = (value_bits - max_bits + 1) / 2 * 2;
            // correction_factor is sqrt(2^pad_bits), used below
            let correction_factor = DFSPreciseNumber::new(2u128.pow((pad_bits as u32) / 2))?;
''', '''            let excess = value_bits - max_bits;
            let pad_bits = excess + excess % 2;
''')]
R['dfs-usub'] = [(DFS, '''        match self.value.checked_sub(rhs.value) {
            None => {
                let value = rhs.value.checked_sub(self.value).unwrap();
                (Self { value }, true)
            }
            Some(value) => (Self { value }, false),
        }''', '''        let negative = self.value < rhs.value;
        let (larger, smaller) = if negative {
            (rhs.value, self.value)
        } else {
            (self.value, rhs.value)
        };
        (Self { value: larger - smaller }, negative)''')]
R['fee-match'] = [(FE, '''    if fee_numerator == 0 || token_amount == 0 {
        Some(0)
    } else {
        let fee = token_amount
            .checked_mul(fee_numerator)?
            .checked_div(fee_denominator)?;
        if fee == 0 {
            Some(1) // minimum fee of one token
        } else {
            Some(fee)
        }
    }''', '''    match (token_amount, fee_numerator) {
        (0, _) | (_, 0) => Some(0),
        (amount, numerator) => amount
            .checked_mul(numerator)
            .and_then(|product| product.checked_div(fee_denominator))
            // minimum fee of one token
            .map(|fee| fee.max(1)),
    }'''), (FE, '''        validate_fraction(self.trade_fee_numerator, self.trade_fee_denominator)?;
        validate_fraction(
            self.owner_trade_fee_numerator,
            self.owner_trade_fee_denominator,
        )?;
        validate_fraction(
            self.owner_withdraw_fee_numerator,
            self.owner_withdraw_fee_denominator,
        )?;
        validate_fraction(self.host_fee_numerator, self.host_fee_denominator)?;
        Ok(())''', '''        [
            (self.host_fee_numerator, self.host_fee_denominator),
            (self.trade_fee_numerator, self.trade_fee_denominator),
            (self.owner_trade_fee_numerator, self.owner_trade_fee_denominator),
            (self.owner_withdraw_fee_numerator, self.owner_withdraw_fee_denominator),
        ]
        .iter()
        .try_for_each(|(numerator, denominator)| validate_fraction(*numerator, *denominator))''')]
R['constraints-tuples'] = [(CON, '''        if fees.trade_fee_numerator >= self.fees.trade_fee_numerator
            && fees.trade_fee_denominator == self.fees.trade_fee_denominator
            && fees.owner_trade_fee_numerator >= self.fees.owner_trade_fee_numerator
            && fees.owner_trade_fee_denominator == self.fees.owner_trade_fee_denominator
            && fees.owner_withdraw_fee_numerator >= self.fees.owner_withdraw_fee_numerator
            && fees.owner_withdraw_fee_denominator == self.fees.owner_withdraw_fee_denominator
            && fees.host_fee_numerator == self.fees.host_fee_numerator
            && fees.host_fee_denominator == self.fees.host_fee_denominator
        {
            Ok(())
        } else {
            Err(SwapError::InvalidFee.into())
        }''', '''        let fixed = |f: &Fees| {
            [
                f.trade_fee_denominator,
                f.owner_trade_fee_denominator,
                f.owner_withdraw_fee_denominator,
                f.host_fee_numerator,
                f.host_fee_denominator,
            ]
        };
        let least = |f: &Fees| {
            vec![f.trade_fee_numerator, f.owner_trade_fee_numerator, f.owner_withdraw_fee_numerator]
        };
        let same = fixed(fees) == fixed(self.fees);
        let enough = least(fees).iter().zip(least(self.fees)).all(|(given, asked)| *given >= asked);
        if !(same && enough) {
            return Err(SwapError::InvalidFee.into());
        }
        Ok(())''')]
R['deps-vault'] = [(PR, '''        match trade_direction {
            TradeDirection::AtoB => {
                Self::token_transfer(
                    swap_info.key,
                    token_program_info.clone(),
                    source_info.clone(),
                    swap_token_a_info.clone(),
                    user_transfer_authority_info.clone(),
                    token_swap.bump_seed(),
                    source_token_amount,
                )?;
            }
            TradeDirection::BtoA => {
                Self::token_transfer(
                    swap_info.key,
                    token_program_info.clone(),
                    source_info.clone(),
                    swap_token_b_info.clone(),
                    user_transfer_authority_info.clone(),
                    token_swap.bump_seed(),
                    source_token_amount,
                )?;
            }
        }
''', '''        let vault_info = if source_account.mint == swap_token_a.mint {
            swap_token_a_info
        } else {
            swap_token_b_info
        };
        Self::token_transfer(
            swap_info.key,
            token_program_info.clone(),
            source_info.clone(),
            vault_info.clone(),
            user_transfer_authority_info.clone(),
            token_swap.bump_seed(),
            source_token_amount,
        )?;
''')]
R['dep-sides'] = [(PR, '''        let token_a_amount = to_u64(results.token_a_amount)?;
        if token_a_amount > maximum_token_a_amount {
            return Err(SwapError::ExceededSlippage.into());
        }
        if token_a_amount == 0 {
            return Err(SwapError::ZeroTradingTokens.into());
        }
        let token_b_amount = to_u64(results.token_b_amount)?;
        if token_b_amount > maximum_token_b_amount {
            return Err(SwapError::ExceededSlippage.into());
        }
        if token_b_amount == 0 {
            return Err(SwapError::ZeroTradingTokens.into());
        }
''', '''        let within = |amount: u128, maximum: u64| match to_u64(amount)? {
            0 => Err(SwapError::ZeroTradingTokens),
            amount if amount > maximum => Err(SwapError::ExceededSlippage),
            amount => Ok(amount),
        };
        let token_a_amount = within(results.token_a_amount, maximum_token_a_amount)?;
        let token_b_amount = within(results.token_b_amount, maximum_token_b_amount)?;
''')]
R['swap-tuple'] = [(B, '''        let trade_fee = fees.trading_fee(source_amount)?;
        let owner_fee = fees.owner_trading_fee(source_amount)?;

        let total_fees = trade_fee.checked_add(owner_fee)?;
        let source_amount_less_fees = source_amount.checked_sub(total_fees)?;

        let SwapWithoutFeesResult {
            source_amount_swapped,
            destination_amount_swapped,
        } = self.calculator.swap_without_fees(
            source_amount_less_fees,
            swap_source_amount,
            swap_destination_amount,
            trade_direction,
        )?;

        let source_amount_swapped = source_amount_swapped.checked_add(total_fees)?;
''', '''        let (owner_fee, trade_fee) = (
            fees.owner_trading_fee(source_amount)?,
            fees.trading_fee(source_amount)?,
        );
        let net = source_amount
            .checked_sub(trade_fee)
            .and_then(|left| left.checked_sub(owner_fee))?;
        let traded = self.calculator.swap_without_fees(
            net,
            swap_source_amount,
            swap_destination_amount,
            trade_direction,
        )?;
        let destination_amount_swapped = traded.destination_amount_swapped;
        let source_amount_swapped = [traded.source_amount_swapped, trade_fee, owner_fee]
            .iter()
            .try_fold(0u128, |sum, part| sum.checked_add(*part))?;
''')]
R['unpack-get'] = [(ST, '''        let (&version, rest) = input
            .split_first()
            .ok_or(ProgramError::InvalidAccountData)?;
        match version {
            1 => Ok(Box::new(SwapV1::unpack(rest)?)),
            _ => Err(ProgramError::UninitializedAccount),
        }''', '''        if input.is_empty() {
            return Err(ProgramError::InvalidAccountData);
        }
        if input[0] != 1 {
            return Err(ProgramError::UninitializedAccount);
        }
        let swap = SwapV1::unpack(&input[1..])?;
        Ok(Box::new(swap) as Box<dyn SwapState>)'''), (ST, '''        match Self::unpack(input) {
            Ok(swap) => swap.is_initialized(),
            Err(_) => false,
        }''', '''        Self::unpack(input).map(|swap| swap.is_initialized()).unwrap_or(false)''')]
R['linear-early'] = [(LIN, '''        let b_end = b_end.ceiling()?;

        // if b_end < 0 (i.e. there aren't enough A tokens in the swap for all the B tokens they put in),
        // then just give them all of the a tokens (swap_destination_amount) and only take the B tokens required to
        // get down from b_start to 0. this only works if we assume 0 A locked at b = 0
        if b_end_is_negative {
            return Some((b_start.to_imprecise()?, swap_destination_amount));
        }
''', '''        if b_end_is_negative {
            let needed = b_start.to_imprecise()?;
            return Some((needed, swap_destination_amount));
        }
        let b_end = b_end.ceiling()?;
'''), (LIN, '''        match self.maximum_a_remaining_for_swap_a_to_b(
            &a_start,
            &b_start,
            source_amount,
            swap_destination_amount,
        ) {
            Some(val) => return Some(val),
            // no need to return None here if checked_add fails, can just skip this check and do real calculation below
            None => (),
        }
''', '''        let rest = self.maximum_a_remaining_for_swap_a_to_b(
            &a_start,
            &b_start,
            source_amount,
            swap_destination_amount,
        );
        if rest.is_some() {
            return rest;
        }
'''), (LIN, '''        if maximum_a_remaining <= source_amount {
            return Some((maximum_a_remaining, swap_destination_amount));
        } else {
            return None;
        }''', '''        Some(maximum_a_remaining)
            .filter(|cost| *cost <= source_amount)
            .map(|cost| (cost, swap_destination_amount))''')]
R['cpr-rem'] = [(CPR, '''                let destination_amount_swapped = source_amount.checked_div(token_b_price)?;
                let mut source_amount_swapped = source_amount;

                // if there is a remainder from buying token B, floor
                // token_a_amount to avoid taking too many tokens, but
                // don't recalculate the fees
                let remainder = source_amount_swapped.checked_rem(token_b_price)?;
                if remainder > 0 {
                    source_amount_swapped = source_amount.checked_sub(remainder)?;
                }

                (source_amount_swapped, destination_amount_swapped)''', '''                if token_b_price == 0 {
                    return None;
                }
                let bought = source_amount / token_b_price;
                (bought * token_b_price, bought)''')]


R['borrow-scopes'] = [(PR, """        let token_swap = SwapVersion::unpack(&swap_info.data.borrow())?;
""", """        let token_swap = {
            let data = swap_info.try_borrow_data()?;
            SwapVersion::unpack(&data)?
        };
"""), (PR, """        SwapVersion::pack(obj, &mut swap_info.data.borrow_mut())?;
""", """        let mut state = swap_info.try_borrow_mut_data()?;
        SwapVersion::pack(obj, &mut state)?;
        drop(state);
"""), (PR, """        if SwapVersion::is_initialized(&swap_info.data.borrow()) {
            return Err(SwapError::AlreadyInUse.into());
        }
""", """        {
            let data = swap_info.data.borrow();
            if SwapVersion::is_initialized(&data) {
                return Err(SwapError::AlreadyInUse.into());
            }
        }
"""), (PR, """            spl_token::state::Account::unpack(&account_info.data.borrow())
                .map_err(|_| SwapError::ExpectedAccount)
""", """            let data = account_info.data.borrow();
            let account = spl_token::state::Account::unpack(&data[..]);
            std::mem::drop(data);
            account.map_err(|_| SwapError::ExpectedAccount)
""")]


R['stable-closure'] = [(STB, """        let mut d_previous: U256;
        let mut d: U256 = sum_x.into();

        // Newton's method to approximate D
        for _ in 0..ITERATIONS {
            let mut d_product = d;
            d_product = d_product
                .checked_mul(d)?
                .checked_div(amount_a_times_coins)?;
            d_product = d_product
                .checked_mul(d)?
                .checked_div(amount_b_times_coins)?;
            d_previous = d;
            //d = (leverage * sum_x + d_p * n_coins) * d / ((leverage - 1) * d + (n_coins + 1) * d_p);
            d = calculate_step(&d, leverage, sum_x, &d_product)?;
            // Equality with the precision of 1
            if d == d_previous {
                break;
            }
        }
        u128::try_from(d).ok()
""", """        let improve = |d: U256| -> Option<U256> {
            let mut d_product = d;
            for side in [&amount_a_times_coins, &amount_b_times_coins].iter() {
                d_product = d_product.checked_mul(d)?.checked_div(**side)?;
            }
            //d = (leverage * sum_x + d_p * n_coins) * d / ((leverage - 1) * d + (n_coins + 1) * d_p);
            calculate_step(&d, leverage, sum_x, &d_product)
        };
        let mut d: U256 = sum_x.into();

        // Newton's method to approximate D
        let mut remaining = ITERATIONS;
        while remaining > 0 {
            remaining -= 1;
            let next = improve(d)?;
            let d_previous = std::mem::replace(&mut d, next);
            // Equality with the precision of 1
            if d_previous == d {
                return u128::try_from(d).ok();
            }
        }
        u128::try_from(d).ok()
""")]
R['stable-folds'] = [(STB, """    let mut result = *a;
    for _ in 1..b {
        result = result.checked_add(*a)?;
    }
    Some(result)
""", """    (1..b).try_fold(*a, |result, _| result.checked_add(*a))
"""), (STB, """    let mut result = *a;
    for _ in 1..b {
        result = result.checked_mul(*a)?;
    }
    Some(result)
""", """    let mut result = *a;
    let mut left = b;
    while left > 1 {
        result = result.checked_mul(*a)?;
        left -= 1;
    }
    Some(result)
"""), (STB, """    if sum_x == 0 {
        Some(0)
    } else {
""", """    if sum_x == 0 {
        return Some(0);
    }
    {
""")]
R['stable-dest'] = [(STB, """    // sum' = prod' = x
    // c =  D ** (n + 1) / (n ** (2 * n) * prod' * A)
    let c = checked_u8_power(&d_val, N_COINS.checked_add(1)?)?
        .checked_div(checked_u8_mul(&new_source_amount, N_COINS_SQUARED)?.checked_mul(leverage)?)?;

    // b = sum' - (A*n**n - 1) * D / (A * n**n)
    let b = new_source_amount.checked_add(d_val.checked_div(leverage)?)?;

    // Solve for y by approximating: y**2 + b*y = c
    let mut y_prev: U256;
    let mut y = d_val;
    for _ in 0..ITERATIONS {
        y_prev = y;
        y = (checked_u8_power(&y, 2)?.checked_add(c)?)
            .checked_div(checked_u8_mul(&y, 2)?.checked_add(b)?.checked_sub(d_val)?)?;
        if y == y_prev {
            break;
        }
    }
    u128::try_from(y).ok()
}
""", """    let (b, c) = destination_coefficients(leverage, new_source_amount, d_val)?;
    u128::try_from(solve_destination(b, c, d_val)?).ok()
}

/// The coefficients of y**2 + b*y = c
fn destination_coefficients(
    leverage: U256,
    new_source_amount: U256,
    d_val: U256,
) -> Option<(U256, U256)> {
    // b = sum' - (A*n**n - 1) * D / (A * n**n)
    let b = new_source_amount.checked_add(d_val.checked_div(leverage)?)?;
    // sum' = prod' = x
    // c =  D ** (n + 1) / (n ** (2 * n) * prod' * A)
    let divisor = checked_u8_mul(&new_source_amount, N_COINS_SQUARED)?.checked_mul(leverage)?;
    let c = checked_u8_power(&d_val, N_COINS.checked_add(1)?)?.checked_div(divisor)?;
    Some((b, c))
}

/// Solve for y by approximating: y**2 + b*y = c
fn solve_destination(b: U256, c: U256, d_val: U256) -> Option<U256> {
    let mut y = d_val;
    let mut rounds = 0;
    loop {
        if rounds == ITERATIONS {
            return Some(y);
        }
        rounds += 1;
        let y_prev = y;
        let numerator = checked_u8_power(&y, 2)?.checked_add(c)?;
        let denominator = checked_u8_mul(&y, 2)?.checked_add(b)?.checked_sub(d_val)?;
        y = numerator.checked_div(denominator)?;
        if y == y_prev {
            return Some(y);
        }
    }
}
""")]
R['stable-value'] = [(STB, """        let leverage = self.amp.checked_mul(N_COINS as u64)?;
        let d0 = PreciseNumber::new(compute_d(
            leverage,
            swap_token_a_amount,
            swap_token_b_amount,
        )?)?;
        let (deposit_token_amount, other_token_amount) = match trade_direction {
            TradeDirection::AtoB => (swap_token_a_amount, swap_token_b_amount),
            TradeDirection::BtoA => (swap_token_b_amount, swap_token_a_amount),
        };
        let updated_deposit_token_amount = deposit_token_amount.checked_add(source_amount)?;
        let d1 = PreciseNumber::new(compute_d(
            leverage,
            updated_deposit_token_amount,
            other_token_amount,
        )?)?;
        let diff = d1.checked_sub(&d0)?;
        let final_amount =
            (diff.checked_mul(&PreciseNumber::new(pool_supply)?))?.checked_div(&d0)?;
        final_amount.floor()?.to_imprecise()
""", """        let (deposit_token_amount, other_token_amount) =
            order(trade_direction, swap_token_a_amount, swap_token_b_amount);
        let d0 = self.value(swap_token_a_amount, swap_token_b_amount)?;
        let d1 = self.value(
            deposit_token_amount.checked_add(source_amount)?,
            other_token_amount,
        )?;
        let supply = PreciseNumber::new(pool_supply)?;
        let diff = d1.checked_sub(&d0)?;
        diff.checked_mul(&supply)
            .and_then(|gained| gained.checked_div(&d0))
            .and_then(|share| share.floor())
            .and_then(|share| share.to_imprecise())
"""), (STB, """        let leverage = self.amp.checked_mul(N_COINS as u64)?;
        let d0 = PreciseNumber::new(compute_d(
            leverage,
            swap_token_a_amount,
            swap_token_b_amount,
        )?)?;
        let (withdraw_token_amount, other_token_amount) = match trade_direction {
            TradeDirection::AtoB => (swap_token_a_amount, swap_token_b_amount),
            TradeDirection::BtoA => (swap_token_b_amount, swap_token_a_amount),
        };
        let updated_deposit_token_amount = withdraw_token_amount.checked_sub(source_amount)?;
        let d1 = PreciseNumber::new(compute_d(
            leverage,
            updated_deposit_token_amount,
            other_token_amount,
        )?)?;
        let diff = d0.checked_sub(&d1)?;
""", """        let (withdraw_token_amount, other_token_amount) =
            order(trade_direction, swap_token_a_amount, swap_token_b_amount);
        let d0 = self.value(swap_token_a_amount, swap_token_b_amount)?;
        let d1 = self.value(
            withdraw_token_amount.checked_sub(source_amount)?,
            other_token_amount,
        )?;
        let diff = d0.checked_sub(&d1)?;
"""), (STB, """impl CurveCalculator for StableCurve {
""", """/// The given balances as (changed one, other one)
fn order(trade_direction: TradeDirection, a: u128, b: u128) -> (u128, u128) {
    match trade_direction {
        TradeDirection::AtoB => (a, b),
        TradeDirection::BtoA => (b, a),
    }
}

impl StableCurve {
    fn leverage(&self) -> Option<u64> {
        self.amp.checked_mul(N_COINS as u64)
    }

    fn value(&self, amount_a: u128, amount_b: u128) -> Option<PreciseNumber> {
        PreciseNumber::new(compute_d(self.leverage()?, amount_a, amount_b)?)
    }
}

impl CurveCalculator for StableCurve {
""")]
R['stable-remainders'] = [(STB, """        let mut token_a_amount = pool_tokens
            .checked_mul(swap_token_a_amount)?
            .checked_div(pool_token_supply)?;
        let mut token_b_amount = pool_tokens
            .checked_mul(swap_token_b_amount)?
            .checked_div(pool_token_supply)?;
        let (token_a_amount, token_b_amount) = match round_direction {
            RoundDirection::Floor => (token_a_amount, token_b_amount),
            RoundDirection::Ceiling => {
                let token_a_remainder = pool_tokens
                    .checked_mul(swap_token_a_amount)?
                    .checked_rem(pool_token_supply)?;

                if token_a_remainder > 0 && token_a_amount > 0 {
                    token_a_amount += 1;
                }
                let token_b_remainder = pool_tokens
                    .checked_mul(swap_token_b_amount)?
                    .checked_rem(pool_token_supply)?;
                if token_b_remainder > 0 && token_b_amount > 0 {
                    token_b_amount += 1;
                }
                (token_a_amount, token_b_amount)
            }
        };
        Some(TradingTokenResult {
            token_a_amount,
            token_b_amount,
        })
""", """        let convert = |balance: u128| -> Option<u128> {
            let product = pool_tokens.checked_mul(balance)?;
            let amount = product.checked_div(pool_token_supply)?;
            let exact = product % pool_token_supply == 0;
            Some(match round_direction {
                RoundDirection::Ceiling if !exact && amount > 0 => amount + 1,
                _ => amount,
            })
        };
        Some(TradingTokenResult {
            token_a_amount: convert(swap_token_a_amount)?,
            token_b_amount: convert(swap_token_b_amount)?,
        })
""")]
R['linear-fractions'] = [(LIN, """fn solve_quadratic_positive_root(
""", """#[allow(clippy::too_many_arguments)]
fn solve_quadratic_positive_root(
"""), (LIN, """    let e_value = e_value_numerator.checked_div(e_value_denominator)?;
    // due to sqrt rounding, sometimes this None's if we rounded down the sqrt, so treat that as 0
    let numerator = match sqrt_e2_plus_4_k_lhs.checked_sub(&e_value) {
        Some(val) => val,
        None => DFSPreciseNumber::new(0)?,
    };
""", """    let e_value = e_value_numerator.checked_div(e_value_denominator)?;
    // due to sqrt rounding, sometimes this None's if we rounded down the sqrt, so treat that as 0
    let numerator = if sqrt_e2_plus_4_k_lhs.less_than(&e_value) {
        DFSPreciseNumber::new(0)?
    } else {
        sqrt_e2_plus_4_k_lhs.checked_sub(&e_value)?
    };
"""), (LIN, """        let half_m_b_squared = DFSPreciseNumber::new(self.slope_numerator.into())?
            .checked_mul(b_value)?
            .checked_mul(b_value)?
            .checked_div(&(DFSPreciseNumber::new(self.slope_denominator.into())?))?
            .checked_div(&(DFSPreciseNumber::new(2)?))?;
""", """        let half_m_b_squared = whole(self.slope_numerator)?
            .checked_mul(b_value)
            .and_then(|m_b| m_b.checked_mul(b_value))
            .and_then(|m_b_squared| m_b_squared.checked_div(&whole(self.slope_denominator)?))
            .and_then(|m_b_squared| m_b_squared.checked_div(&whole(2)?))?;
"""), (LIN, """        let a0_times_b = DFSPreciseNumber::new(self.initial_token_a_price_numerator.into())?
            .checked_mul(b_value)?
            .checked_div(
                &(DFSPreciseNumber::new(self.initial_token_a_price_denominator.into())?),
            )?;
""", """        let a0_times_b = whole(self.initial_token_a_price_numerator)?
            .checked_mul(b_value)?
            .checked_div(&whole(self.initial_token_a_price_denominator)?)?;
"""), (LIN, """/// These functions use the integral of the linear price curve to determine liquidity of A at a
/// given""", """/// A parameter as a precise number
fn whole(parameter: u64) -> Option<DFSPreciseNumber> {
    DFSPreciseNumber::new(parameter as u128)
}

/// These functions use the integral of the linear price curve to determine liquidity of A at a
/// given""")]
R['linear-inline'] = [(LIN, """        match self.maximum_a_remaining_for_swap_a_to_b(
            &a_start,
            &b_start,
            source_amount,
            swap_destination_amount,
        ) {
            Some(val) => return Some(val),
            // no need to return None here if checked_add fails, can just skip this check and do real calculation below
            None => (),
        }

        // otherwise, there's enough B tokens for all the A they put in, find the b_end value for the amount of A
        // they're putting in and give them `b_end - b_start` tokens out
        let a_end = a_start.checked_add(&(DFSPreciseNumber::new(source_amount)?))?;

        let b_end = self.b_value_with_amt_a_locked_quadratic(&a_end, false)?;

        let difference = b_end.checked_sub(&b_start)?;
        // PreciseNumber rounds .5+ up by default, make sure to floor instead so we don't allow
        // dust to round up for free
        let destination_amount = difference.floor()?.to_imprecise()?;

        Some((source_amount, destination_amount))
""", """        self.maximum_a_remaining_for_swap_a_to_b(
            &a_start,
            &b_start,
            source_amount,
            swap_destination_amount,
        )
        .or_else(|| {
            // there's enough B tokens for all the A they put in, find the b_end value for the amount of A
            // they're putting in and give them `b_end - b_start` tokens out
            let paid = DFSPreciseNumber::new(source_amount)?;
            let b_end = self
                .b_value_with_amt_a_locked_quadratic(&a_start.checked_add(&paid)?, false)?;
            // PreciseNumber rounds .5+ up by default, make sure to floor instead so we don't allow
            // dust to round up for free
            let bought = b_end.checked_sub(&b_start)?.floor()?;
            Some((source_amount, bought.to_imprecise()?))
        })
"""), (LIN, """        let maximum_a_remaining = match maximum_a_locked.unsigned_sub(&a_start) {
            (_, true) => 0,
            (difference, false) => difference.to_imprecise()?,
        };
""", """        let maximum_a_remaining = match maximum_a_locked.checked_sub(a_start) {
            Some(difference) => difference.to_imprecise()?,
            None => 0,
        };
""")]
R['offset-sides'] = [(OFF, """        let token_b_offset = self.token_b_offset as u128;
        let swap_source_amount = match trade_direction {
            TradeDirection::AtoB => swap_source_amount,
            TradeDirection::BtoA => swap_source_amount.checked_add(token_b_offset)?,
        };
        let swap_destination_amount = match trade_direction {
            TradeDirection::AtoB => swap_destination_amount.checked_add(token_b_offset)?,
            TradeDirection::BtoA => swap_destination_amount,
        };
        swap(source_amount, swap_source_amount, swap_destination_amount)
""", """        let mut sides = [swap_source_amount, swap_destination_amount];
        let bonded = if trade_direction == TradeDirection::AtoB { 1 } else { 0 };
        sides[bonded] = self.with_offset(sides[bonded])?;
        let [source, destination] = sides;
        swap(source_amount, source, destination)
"""), (OFF, """        let token_b_offset = self.token_b_offset as u128;
        deposit_single_token_type(
            source_amount,
            swap_token_a_amount,
            swap_token_b_amount.checked_add(token_b_offset)?,
""", """        deposit_single_token_type(
            source_amount,
            swap_token_a_amount,
            self.with_offset(swap_token_b_amount)?,
"""), (OFF, """impl CurveCalculator for OffsetCurve {
""", """impl OffsetCurve {
    /// The bonded side with its offset
    fn with_offset(&self, token_b_amount: u128) -> Option<u128> {
        token_b_amount.checked_add(u128::from(self.token_b_offset))
    }
}

impl CurveCalculator for OffsetCurve {
""")]
R['base-half-fee'] = [(B, """        let half_source_amount = std::cmp::max(1, source_amount.checked_div(2)?);
        let trade_fee = fees.trading_fee(half_source_amount)?;
        let source_amount = source_amount.checked_sub(trade_fee)?;
        self.calculator""", """        let source_amount = source_amount.checked_sub(half_fee(source_amount, fees)?)?;
        self.calculator"""), (B, """        let half_source_amount = std::cmp::max(1, source_amount.checked_div(2)?);
        let trade_fee = fees.trading_fee(half_source_amount)?;
        let source_amount = source_amount.checked_add(trade_fee)?;
        self.calculator""", """        let source_amount = half_fee(source_amount, fees)?.checked_add(source_amount)?;
        self.calculator"""), (B, """impl SwapCurve {
    /// Subtract""", """/// Trading fee on half of the amount
fn half_fee(amount: u128, fees: &Fees) -> Option<u128> {
    let half = match amount >> 1 {
        0 => 1,
        half => half,
    };
    fees.trading_fee(half)
}

impl SwapCurve {
    /// Subtract"""), (B, """        // debit the fee to calculate the amount swapped
        let trade_fee = fees.trading_fee(source_amount)?;
        let owner_fee = fees.owner_trading_fee(source_amount)?;

        let total_fees = trade_fee.checked_add(owner_fee)?;
        let source_amount_less_fees = source_amount.checked_sub(total_fees)?;

        let SwapWithoutFeesResult {
            source_amount_swapped,
            destination_amount_swapped,
        } = self.calculator.swap_without_fees(
            source_amount_less_fees,
            swap_source_amount,
            swap_destination_amount,
            trade_direction,
        )?;

        let source_amount_swapped = source_amount_swapped.checked_add(total_fees)?;
        Some(SwapResult {
            new_swap_source_amount: swap_source_amount.checked_add(source_amount_swapped)?,
            new_swap_destination_amount: swap_destination_amount
                .checked_sub(destination_amount_swapped)?,
            source_amount_swapped,
            destination_amount_swapped,
            trade_fee,
            owner_fee,
        })
""", """        // debit the fee to calculate the amount swapped
        let (owner_fee, trade_fee) = (
            fees.owner_trading_fee(source_amount)?,
            fees.trading_fee(source_amount)?,
        );
        let total_fees = owner_fee.checked_add(trade_fee)?;

        let mut result = SwapResult {
            new_swap_source_amount: swap_source_amount,
            new_swap_destination_amount: swap_destination_amount,
            source_amount_swapped: total_fees,
            destination_amount_swapped: 0,
            trade_fee,
            owner_fee,
        };
        let swapped = self.calculator.swap_without_fees(
            source_amount.checked_sub(total_fees)?,
            swap_source_amount,
            swap_destination_amount,
            trade_direction,
        )?;
        result.source_amount_swapped = swapped.source_amount_swapped.checked_add(total_fees)?;
        result.destination_amount_swapped = swapped.destination_amount_swapped;
        result.new_swap_source_amount = result
            .new_swap_source_amount
            .checked_add(result.source_amount_swapped)?;
        result.new_swap_destination_amount = result
            .new_swap_destination_amount
            .checked_sub(result.destination_amount_swapped)?;
        Some(result)
""")]
R['fees-rate'] = [(FE, """/// Helper function for calculating swap fee
pub fn calculate_fee(
    token_amount: u128,
    fee_numerator: u128,
    fee_denominator: u128,
) -> Option<u128> {
    if fee_numerator == 0 || token_amount == 0 {
        Some(0)
    } else {
        let fee = token_amount
            .checked_mul(fee_numerator)?
            .checked_div(fee_denominator)?;
        if fee == 0 {
            Some(1) // minimum fee of one token
        } else {
            Some(fee)
        }
    }
}
""", """/// A fee as a part of the amount it is charged on
#[derive(Clone, Copy)]
struct Rate {
    numerator: u128,
    denominator: u128,
}

impl Rate {
    fn of(self, amount: u128) -> Option<u128> {
        amount
            .checked_mul(self.numerator)
            .and_then(|scaled| scaled.checked_div(self.denominator))
            .map(|fee| fee.max(1)) // minimum fee of one token
    }
}

/// Helper function for calculating swap fee
pub fn calculate_fee(
    token_amount: u128,
    fee_numerator: u128,
    fee_denominator: u128,
) -> Option<u128> {
    match (token_amount, fee_numerator) {
        (0, _) | (_, 0) => Some(0),
        (amount, numerator) => Rate {
            numerator,
            denominator: fee_denominator,
        }
        .of(amount),
    }
}
"""), (FE, """    if denominator == 0 && numerator == 0 {
        Ok(())
    } else if numerator >= denominator {
        Err(SwapError::InvalidFee)
    } else {
        Ok(())
    }
""", """    let none = (numerator, denominator) == (0, 0);
    if none || numerator < denominator {
        return Ok(());
    }
    Err(SwapError::InvalidFee)
""")]
R['fees-chunks'] = [(FE, """        let input = array_ref![input, 0, 64];
        #[allow(clippy::ptr_offset_with_cast)]
        let (
            trade_fee_numerator,
            trade_fee_denominator,
            owner_trade_fee_numerator,
            owner_trade_fee_denominator,
            owner_withdraw_fee_numerator,
            owner_withdraw_fee_denominator,
            host_fee_numerator,
            host_fee_denominator,
        ) = array_refs![input, 8, 8, 8, 8, 8, 8, 8, 8];
        Ok(Self {
            trade_fee_numerator: u64::from_le_bytes(*trade_fee_numerator),
            trade_fee_denominator: u64::from_le_bytes(*trade_fee_denominator),
            owner_trade_fee_numerator: u64::from_le_bytes(*owner_trade_fee_numerator),
            owner_trade_fee_denominator: u64::from_le_bytes(*owner_trade_fee_denominator),
            owner_withdraw_fee_numerator: u64::from_le_bytes(*owner_withdraw_fee_numerator),
            owner_withdraw_fee_denominator: u64::from_le_bytes(*owner_withdraw_fee_denominator),
            host_fee_numerator: u64::from_le_bytes(*host_fee_numerator),
            host_fee_denominator: u64::from_le_bytes(*host_fee_denominator),
        })
""", """        let field = |i: usize| u64::from_le_bytes(*array_ref![input, 8 * i, 8]);
        Ok(Self {
            trade_fee_numerator: field(0),
            trade_fee_denominator: field(1),
            owner_trade_fee_numerator: field(2),
            owner_trade_fee_denominator: field(3),
            owner_withdraw_fee_numerator: field(4),
            owner_withdraw_fee_denominator: field(5),
            host_fee_numerator: field(6),
            host_fee_denominator: field(7),
        })
""")]
R['constraints-loop'] = [(CON, """        if self
            .valid_curve_types
            .iter()
            .any(|x| *x == swap_curve.curve_type)
        {
            Ok(())
        } else {
            Err(SwapError::UnsupportedCurveType.into())
        }
""", """        for curve_type in self.valid_curve_types {
            if swap_curve.curve_type == *curve_type {
                return Ok(());
            }
        }
        Err(SwapError::UnsupportedCurveType)?
""")]
R['cpr-rounded'] = [(CPR, """    match round_direction {
        RoundDirection::Floor => Some(
            pool_supply
                .checked_mul(given_value)?
                .checked_div(total_value)?
                .as_u128(),
        ),
        RoundDirection::Ceiling => Some(
            pool_supply
                .checked_mul(given_value)?
                .checked_ceil_div(total_value)?
                .0
                .as_u128(),
        ),
    }
""", """    let share = pool_supply.checked_mul(given_value)?;
    let pool_tokens = match round_direction {
        RoundDirection::Floor => share.checked_div(total_value)?,
        RoundDirection::Ceiling => share.checked_ceil_div(total_value)?.0,
    };
    Some(pool_tokens.as_u128())
"""), (CPR, """                let destination_amount_swapped = source_amount.checked_div(token_b_price)?;
                let mut source_amount_swapped = source_amount;

                // if there is a remainder from buying token B, floor
                // token_a_amount to avoid taking too many tokens, but
                // don't recalculate the fees
                let remainder = source_amount_swapped.checked_rem(token_b_price)?;
                if remainder > 0 {
                    source_amount_swapped = source_amount.checked_sub(remainder)?;
                }

                (source_amount_swapped, destination_amount_swapped)
""", """                // if there is a remainder from buying token B, floor
                // token_a_amount to avoid taking too many tokens, but
                // don't recalculate the fees
                let bought = source_amount.checked_div(token_b_price)?;
                (bought.checked_mul(token_b_price)?, bought)
""")]
R['dfs-consts'] = [(DFS, """        match self.value.checked_mul(one()) {
            Some(v) => {
                let value = v
                    .checked_add(Self::rounding_correction())?
                    .checked_div(rhs.value)?;
                Some(Self { value })
            }
            None => {
                let value = self
                    .value
                    .checked_add(Self::rounding_correction())?
                    .checked_div(rhs.value)?
                    .checked_mul(one())?;
                Some(Self { value })
            }
        }
""", """        let scaled = self.value.checked_mul(one());
        let fits = scaled.is_some();
        let quotient = scaled
            .unwrap_or(self.value)
            .checked_add(Self::rounding_correction())?
            .checked_div(rhs.value)?;
        let value = if fits { quotient } else { quotient.checked_mul(one())? };
        Some(Self { value })
"""), (DFS, """                let value = if self.value >= rhs.value {
                    self.value.checked_div(one())?.checked_mul(rhs.value)?
                } else {
                    rhs.value.checked_div(one())?.checked_mul(self.value)?
                };
""", """                let (large, small) = if rhs.value > self.value {
                    (rhs.value, self.value)
                } else {
                    (self.value, rhs.value)
                };
                let value = large.checked_div(one())?.checked_mul(small)?;
"""), (DFS, """        match corrected.le(&(Some(InnerUint::from(u128::MAX)))) {
            true => corrected.map(|v| v.as_u128()),
            false => None,
        }
""", """        match corrected {
            Some(v) if v <= InnerUint::from(u128::MAX) => Some(v.as_u128()),
            _ => None,
        }
""")]
R['dfs-ceil-rem'] = [(DFS, """        let value = self
            .value
            .checked_add(one().checked_sub(InnerUint::from(1))?)?
            .checked_div(one())?
            .checked_mul(one())?;
        Some(Self { value })
""", """        let padded = self.value.checked_add(one() - 1)?;
        let value = padded - padded % one();
        Some(Self { value })
"""), (DFS, """            let pad_bits = (max_bits - value_bits) / 2 * 2;
""", """            let pad_bits = (max_bits - value_bits) & !1;
"""), (DFS, """                true => unrounded_padded_value.checked_add(InnerUint::from(1))?,
                    false => unrounded_padded_value,
                };
""", """                true => unrounded_padded_value.checked_add(InnerUint::one())?,
                    false => unrounded_padded_value,
                };
""")]


AFF = {STB: '16 20 24 28', DFS: '22 23 24 25 26', LIN: '22 23 24', CP: '16 17 19 20 27', CPR: '16 18 20 21 24', OFF: '16 19 20 24 27',
       FE: '2 3 4 6 7 8 12 14 15 16 30 32', B: '1 2 3 4 7 8 14 16 21 30 32', PR: '1 2 3 4 5 6 7 8 9 10 11 12 13 30 32 33', CON: '12 32', ST: '1 5 9 10 14 32 33', LB: '13 31 32', 'instructions/swap.rs': '13 31 32', 'instructions/withdraw_all_token_types.rs': '13 31 32', ER: '32 10 12'}


def main():
    W, V = '/tmp/w/m/programs/token-bonding-curve/src/', '/tmp/w/v'
    a = sys.argv[1:]
    gps = a[a.index('-p') + 1:] if '-p' in a else None
    ids = a[:a.index('-p')] if '-p' in a else a
    env = {k: v for k, v in os.environ.items() if k not in ('VERIF_DUMP', 'VERIF_V')}
    for i in ids or R:
        subprocess.run(['git', '-C', '/tmp/w/m', 'checkout', '-q', '--', '.'])
        miss = 0
        ps = gps or sorted({f'P{int(p):02d}' for f, _, _ in R[i] for p in AFF[f].split()})
        for f, o, n in R[i]:
            s = open(W + f).read()
            if s.count(o) < 1: print(i, 'NO MATCH', f, o[:60]); miss = 1; continue
            if f == PR or s.count(o) == 1: s = s.replace(o, n, 1)
            else: print(i, 'AMBIGUOUS', s.count(o), o[:60]); miss = 1
            open(W + f, 'w').write(s)
        if miss: continue
        d = f'/tmp/w/ref_{i}.jsonl'
        t0 = time.time()
        r = subprocess.run(['bash', V + '/engine/dump.sh', d], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(d): print(i, 'DUMP FAILS', r.stdout[-1500:]); continue
        subprocess.run(['bash', V + '/engine/replay.sh'], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

        def one(p):
            t = time.time()
            r = subprocess.run(['python3-vt', 'checks/run.py', p, 'quick'], cwd=V, env=dict(env, VERIF_DUMP=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
            return p, r.returncode, time.time() - t, r.stdout
        bad = []
        with cf.ThreadPoolExecutor(3) as ex:
            for p, rc, t, o in ex.map(one, ps):
                if rc or t > 300: bad.append(f'{p} rc {rc} {t:.0f}s'); open(f'/tmp/w/ref_{i}_{p}.log', 'w').write(o)
        print(i, f'{time.time() - t0:.0f}s', 'QUIET' if not bad else bad, flush=True)
        os.remove(d)
    subprocess.run(['git', '-C', '/tmp/w/m', 'checkout', '-q', '--', '.'])


if __name__ == '__main__': main()

//! Native replay: one command per line on stdin, one answer per line on stdout.
use std::convert::TryInto;
use solana_program::{
    account_info::AccountInfo, entrypoint::ProgramResult, instruction::Instruction, program_error::ProgramError,
    program_pack::Pack, program_stubs, pubkey::Pubkey,
};
use spl_math::{precise_number::PreciseNumber, uint::U256};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::rc::Rc;
use token_bonding_curve::{
    constraints::SwapConstraints,
    curve::{
        base::{CurveType, SwapCurve},
        calculator::{CurveCalculator, DynPack, RoundDirection, SwapWithoutFeesResult, TradeDirection, TradingTokenResult},
        constant_price::ConstantPriceCurve,
        constant_product::ConstantProductCurve,
        fees::Fees,
        linear_price::LinearPriceCurve,
        offset::OffsetCurve,
        stable::StableCurve,
    },
    error::SwapError,
    dfs_precise_number::DFSPreciseNumber,
    processor::Processor,
    state::{SwapV1, SwapVersion},
};

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> {
    if s == "-" { return vec![]; }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn key(s: &str) -> Pubkey { Pubkey::new(&unhex(s)) }
fn n(s: &str) -> u128 { s.parse().unwrap() }
fn m(s: &str) -> u64 { s.parse().unwrap() }
fn big(s: &str) -> U256 { U256::from_big_endian(&unhex(s)) }
fn bighex(v: U256) -> String { let mut b = [0u8; 32]; v.to_big_endian(&mut b); hex(&b) }

fn curve(s: &str) -> (CurveType, Box<dyn CurveCalculator>) {
    let p: Vec<&str> = s.split(':').collect();
    match p[0] {
        "cp" => (CurveType::ConstantProduct, Box::new(ConstantProductCurve {})),
        "cpr" => (CurveType::ConstantPrice, Box::new(ConstantPriceCurve { token_b_price: m(p[1]) })),
        "stable" => (CurveType::Stable, Box::new(StableCurve { amp: m(p[1]) })),
        "offset" => (CurveType::Offset, Box::new(OffsetCurve { token_b_offset: m(p[1]) })),
        "lin" => (CurveType::LinearPrice, Box::new(LinearPriceCurve {
            slope_numerator: m(p[1]), slope_denominator: m(p[2]),
            initial_token_a_price_numerator: m(p[3]), initial_token_a_price_denominator: m(p[4]) })),
        "uf" => (CurveType::ConstantProduct, Box::new(UfCurve { r: if p[1] == "none" { None } else { Some((n(p[1]), n(p[2]))) } })),
        _ => panic!("curve"),
    }
}
fn scurve(s: &str) -> SwapCurve { let (t, c) = curve(s); SwapCurve { curve_type: t, calculator: c } }
thread_local! { static CALLS: RefCell<Vec<String>> = RefCell::new(vec![]); }
/// a calculator that answers with fixed numbers and records what it was asked: "uf:T:P", "uf:none"
#[derive(Debug)]
struct UfCurve { r: Option<(u128, u128)> }
impl UfCurve { fn rec(&self, s: String) -> Option<(u128, u128)> { CALLS.with(|c| c.borrow_mut().push(s)); self.r } }
impl DynPack for UfCurve { fn pack_into_slice(&self, _: &mut [u8]) {} }
impl CurveCalculator for UfCurve {
    fn swap_without_fees(&self, x: u128, s: u128, d: u128, t: TradeDirection) -> Option<SwapWithoutFeesResult> {
        self.rec(format!("swap,{},{},{},{}", x, s, d, t as u8)).map(|r| SwapWithoutFeesResult { source_amount_swapped: r.0, destination_amount_swapped: r.1 })
    }
    fn pool_tokens_to_trading_tokens(&self, p: u128, s: u128, a: u128, b: u128, r: RoundDirection) -> Option<TradingTokenResult> {
        self.rec(format!("p2t,{},{},{},{},{}", p, s, a, b, r as u8)).map(|r| TradingTokenResult { token_a_amount: r.0, token_b_amount: r.1 })
    }
    fn deposit_single_token_type(&self, x: u128, a: u128, b: u128, s: u128, t: TradeDirection) -> Option<u128> {
        self.rec(format!("dep,{},{},{},{},{}", x, a, b, s, t as u8)).map(|r| r.0)
    }
    fn withdraw_single_token_type_exact_out(&self, x: u128, a: u128, b: u128, s: u128, t: TradeDirection) -> Option<u128> {
        self.rec(format!("wd,{},{},{},{},{}", x, a, b, s, t as u8)).map(|r| r.0)
    }
    fn validate(&self) -> Result<(), SwapError> { Ok(()) }
    fn normalized_value(&self, _: u128, _: u128) -> Option<PreciseNumber> { None }
}
fn calls() -> String { CALLS.with(|c| { let r = c.borrow().join(";"); c.borrow_mut().clear(); r }) }

fn fees(t: &[&str]) -> Fees {
    Fees {
        trade_fee_numerator: m(t[0]), trade_fee_denominator: m(t[1]),
        owner_trade_fee_numerator: m(t[2]), owner_trade_fee_denominator: m(t[3]),
        owner_withdraw_fee_numerator: m(t[4]), owner_withdraw_fee_denominator: m(t[5]),
        host_fee_numerator: m(t[6]), host_fee_denominator: m(t[7]),
    }
}
fn fees_s(f: &Fees) -> String {
    format!("{} {} {} {} {} {} {} {}", f.trade_fee_numerator, f.trade_fee_denominator, f.owner_trade_fee_numerator,
        f.owner_trade_fee_denominator, f.owner_withdraw_fee_numerator, f.owner_withdraw_fee_denominator,
        f.host_fee_numerator, f.host_fee_denominator)
}
fn dir(s: &str) -> TradeDirection { if s == "0" { TradeDirection::AtoB } else { TradeDirection::BtoA } }
fn rnd(s: &str) -> RoundDirection { if s == "0" { RoundDirection::Floor } else { RoundDirection::Ceiling } }
fn opt(v: Option<u128>) -> String { match v { Some(x) => format!("some {}", x), None => "none".into() } }
fn perr(e: &ProgramError) -> String { format!("err {:?}", e).replace(' ', "_").replacen("err_", "err ", 1) }
fn dfs(v: Option<DFSPreciseNumber>) -> String { match v { Some(x) => format!("some {}", bighex(x.value)), None => "none".into() } }

thread_local! { static LAST: RefCell<String> = RefCell::new(String::new()); static EV: RefCell<Vec<String>> = RefCell::new(vec![]); static FAIL: RefCell<i64> = RefCell::new(-1); }
struct Stubs;
impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _: &str) {}
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let k = EV.with(|e| e.borrow().len()) as i64;
        let metas: Vec<String> = ix.accounts.iter().map(|x| format!("{}:{}:{}", hex(x.pubkey.as_ref()), x.is_signer as u8, x.is_writable as u8)).collect();
        let ks: Vec<String> = infos.iter().map(|x| hex(x.key.as_ref())).collect();
        let sd: Vec<String> = seeds.iter().map(|s| s.iter().map(|x| hex(x)).collect::<Vec<_>>().join("+")).collect();
        EV.with(|e| e.borrow_mut().push(format!("{};{};{};{};{}", hex(ix.program_id.as_ref()), metas.join(","), hex(&ix.data), ks.join(","), sd.join(","))));
        if FAIL.with(|f| *f.borrow()) == k { return Err(ProgramError::Custom(0xdead)); }
        // the effect of transfer, mint_to and burn on the balances in the first two accounts
        if ix.data.len() == 9 && infos.len() >= 2 {
            let amt = u64::from_le_bytes(ix.data[1..9].try_into().unwrap());
            let eff: [(usize, usize, bool); 2] = match ix.data[0] { 3 => [(0, 64, false), (1, 64, true)], 7 => [(0, 36, true), (1, 64, true)], 8 => [(0, 64, false), (1, 36, false)], _ => return Ok(()) };
            for (i, off, up) in eff {
                let mut d = infos[i].data.borrow_mut();
                if d.len() < off + 8 { continue; }
                let v = u64::from_le_bytes(d[off..off + 8].try_into().unwrap());
                let v = if up { v.wrapping_add(amt) } else { v.wrapping_sub(amt) };
                d[off..off + 8].copy_from_slice(&v.to_le_bytes());
            }
        }
        Ok(())
    }
}

struct Acc { key: Pubkey, owner: Pubkey, signer: bool, writable: bool, lamports: u64, data: Vec<u8> }

/// proc FN PROGRAM FAIL NARGS args.. accounts..   (account = key:owner:signer:writable:lamports:data)
fn process(t: &[&str]) -> String {
    let f = t[0]; let pid = key(t[1]);
    FAIL.with(|x| *x.borrow_mut() = t[2].parse().unwrap());
    EV.with(|e| e.borrow_mut().clear());
    let na: usize = t[3].parse().unwrap();
    let a: Vec<&str> = t[4..4 + na].to_vec();
    let mut accs: Vec<Acc> = vec![];
    let mut order: Vec<usize> = vec![];
    for s in &t[4 + na..] {
        let p: Vec<&str> = s.split(':').collect();
        let k = key(p[0]);
        // equal keys are one account, as in the runtime
        if let Some(i) = accs.iter().position(|x| x.key == k) {
            order.push(i);
            let d = unhex(p[5]);
            if d.len() > accs[i].data.len() { accs[i].data = d; }
            continue;
        }
        order.push(accs.len());
        accs.push(Acc { key: k, owner: key(p[1]), signer: p[2] == "1", writable: p[3] == "1", lamports: m(p[4]), data: unhex(p[5]) });
    }
    let r: Result<ProgramResult, _>;
    {
        let infos0: Vec<AccountInfo> = accs.iter_mut().map(|x| AccountInfo {
            key: &x.key, is_signer: x.signer, is_writable: x.writable, lamports: Rc::new(RefCell::new(&mut x.lamports)),
            data: Rc::new(RefCell::new(&mut x.data[..])), owner: &x.owner, executable: false, rent_epoch: 0 }).collect();
        let infos: Vec<AccountInfo> = order.iter().map(|i| infos0[*i].clone()).collect();
        r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> ProgramResult {
            match f {
                "swap" => Processor::process_swap(&pid, m(a[0]), m(a[1]), &infos),
                "dep" => Processor::process_deposit_all_token_types(&pid, m(a[0]), m(a[1]), m(a[2]), &infos),
                "wd" => Processor::process_withdraw_all_token_types(&pid, m(a[0]), m(a[1]), m(a[2]), &infos),
                "deps" => Processor::process_deposit_single_token_type_exact_amount_in(&pid, m(a[0]), m(a[1]), &infos),
                "wds" => Processor::process_withdraw_single_token_type_exact_amount_out(&pid, m(a[0]), m(a[1]), &infos),
                // init: fees(8) curve [owner_key_string types(comma) fees(8)]
                "init" => {
                    let fs = fees(&a[0..8]); let c = scurve(a[8]);
                    if na > 9 {
                        let ty: Vec<CurveType> = if a[10] == "-" { vec![] } else { a[10].split(',').map(|x| scurve(x).curve_type).collect() };
                        let cf = fees(&a[11..19]);
                        let con = Some(SwapConstraints { owner_key: a[9], valid_curve_types: &ty, fees: &cf });
                        Processor::process_initialize(&pid, fs, c, &infos, &con)
                    } else { Processor::process_initialize(&pid, fs, c, &infos, &None) }
                }
                "entry" => token_bonding_curve::entry(&pid, &infos, &unhex(a[0])),
                _ => panic!("proc"),
            }
        }));
    }
    let rs = match r { Ok(Ok(())) => "ok".to_string(), Ok(Err(e)) => perr(&e), Err(_) => "panic".into() };
    let ev = EV.with(|e| e.borrow().join("|"));
    LAST.with(|l| *l.borrow_mut() = order.iter().map(|i| format!("{}:{}", accs[*i].lamports, hex(accs[*i].owner.as_ref()))).collect::<Vec<_>>().join(" "));
    let datas: Vec<String> = order.iter().map(|i| if accs[*i].data.is_empty() { "-".into() } else { hex(&accs[*i].data) }).collect();
    format!("{} # {} # {}", rs, ev, datas.join(","))
}

fn state_s(s: &SwapV1) -> String {
    let mut c = [0u8; 33];
    SwapCurve::pack_into_slice(&s.swap_curve, &mut c);
    format!("{} {} {} {} {} {} {} {} {} {} {}", s.is_initialized as u8, s.bump_seed, hex(s.token_program_id.as_ref()), hex(s.token_a.as_ref()),
        hex(s.token_b.as_ref()), hex(s.pool_mint.as_ref()), hex(s.token_a_mint.as_ref()), hex(s.token_b_mint.as_ref()),
        hex(s.pool_fee_account.as_ref()), fees_s(&s.fees), hex(&c))
}

fn run(t: &[&str]) -> String {
    match t[0] {
        "fee" => {
            let f = fees(&t[3..11]); let a = n(t[2]);
            opt(match t[1] { "trading" => f.trading_fee(a), "owner_trading" => f.owner_trading_fee(a), "owner_withdraw" => f.owner_withdraw_fee(a), "host" => f.host_fee(a), _ => panic!() })
        }
        "fval" => if fees(&t[1..9]).validate().is_ok() { "ok".into() } else { "err".into() },
        "swf" => match curve(t[1]).1.swap_without_fees(n(t[2]), n(t[3]), n(t[4]), dir(t[5])) {
            Some(r) => format!("some {} {}", r.source_amount_swapped, r.destination_amount_swapped), None => "none".into() },
        "scs" => match scurve(t[1]).swap(n(t[2]), n(t[3]), n(t[4]), dir(t[5]), &fees(&t[6..14])) {
            Some(r) => format!("some {} {} {} {} {} {}", r.new_swap_source_amount, r.new_swap_destination_amount, r.source_amount_swapped, r.destination_amount_swapped, r.trade_fee, r.owner_fee), None => "none".into() },
        "scd" => opt(scurve(t[1]).deposit_single_token_type(n(t[2]), n(t[3]), n(t[4]), n(t[5]), dir(t[6]), &fees(&t[7..15]))),
        "scw" => opt(scurve(t[1]).withdraw_single_token_type_exact_out(n(t[2]), n(t[3]), n(t[4]), n(t[5]), dir(t[6]), &fees(&t[7..15]))),
        "p2t" => match curve(t[1]).1.pool_tokens_to_trading_tokens(n(t[2]), n(t[3]), n(t[4]), n(t[5]), rnd(t[6])) {
            Some(r) => format!("some {} {}", r.token_a_amount, r.token_b_amount), None => "none".into() },
        "dep" => opt(curve(t[1]).1.deposit_single_token_type(n(t[2]), n(t[3]), n(t[4]), n(t[5]), dir(t[6]))),
        "wd" => opt(curve(t[1]).1.withdraw_single_token_type_exact_out(n(t[2]), n(t[3]), n(t[4]), n(t[5]), dir(t[6]))),
        "nval" => match curve(t[1]).1.normalized_value(n(t[2]), n(t[3])) { Some(x) => format!("some {}", bighex(x.value)), None => "none".into() },
        "val" => if curve(t[1]).1.validate().is_ok() { "ok".into() } else { "err".into() },
        "vsup" => if curve(t[1]).1.validate_supply(m(t[2]), m(t[3])).is_ok() { "ok".into() } else { "err".into() },
        "allow" => format!("{}", curve(t[1]).1.allows_deposits()),
        "nps" => format!("{}", curve(t[1]).1.new_pool_supply()),
        "dfs" => {
            let x = DFSPreciseNumber { value: big(t[2]) };
            let y = || DFSPreciseNumber { value: big(t[3]) };
            match t[1] {
                "new" => dfs(DFSPreciseNumber::new(n(t[2]))),
                "imp" => opt(x.to_imprecise()),
                "floor" => dfs(x.floor()), "ceil" => dfs(x.ceiling()),
                "add" => dfs(x.checked_add(&y())), "sub" => dfs(x.checked_sub(&y())),
                "mul" => dfs(x.checked_mul(&y())), "div" => dfs(x.checked_div(&y())),
                "usub" => { let (v, b) = x.unsigned_sub(&y()); format!("{} {}", bighex(v.value), b) }
                "lt" => format!("{}", x.less_than(&y())), "gt" => format!("{}", x.greater_than(&y())),
                "le" => format!("{}", x.less_than_or_equal(&y())), "ge" => format!("{}", x.greater_than_or_equal(&y())),
                "aeq" => format!("{}", x.almost_eq(&y(), big(t[4]))),
                "sqrtu" => dfs(x.sqrt_u64(true)), "sqrtd" => dfs(x.sqrt_u64(false)),
                "spl" => match x.to_spl_precise_number() { Some(v) => format!("some {}", bighex(v.value)), None => "none".into() },
                _ => panic!("dfs"),
            }
        }
        "unpack" => { let b = unhex(t[1]); match SwapVersion::unpack(&b) {
            Ok(s) => format!("ok {} {} {} {} {} {} {} {} {} {} {}", s.is_initialized() as u8, s.bump_seed(), hex(s.token_program_id().as_ref()), hex(s.token_a_account().as_ref()),
                hex(s.token_b_account().as_ref()), hex(s.pool_mint().as_ref()), hex(s.token_a_mint().as_ref()), hex(s.token_b_mint().as_ref()),
                hex(s.pool_fee_account().as_ref()), fees_s(s.fees()), { let mut c = [0u8; 33]; SwapCurve::pack_into_slice(s.swap_curve(), &mut c); hex(&c) }),
            Err(e) => perr(&e) } }
        "unpack1" => { let b = unhex(t[1]); match SwapV1::unpack_from_slice(&b) { Ok(s) => format!("ok {}", state_s(&s)), Err(e) => perr(&e) } }
        "isinit" => format!("{}", SwapVersion::is_initialized(&unhex(t[1]))),
        "funpack" => match Fees::unpack_from_slice(&unhex(t[1])) { Ok(f) => format!("ok {}", fees_s(&f)), Err(e) => perr(&e) },
        "fpack" => { let mut o = [0u8; 64]; Fees::pack_into_slice(&fees(&t[1..9]), &mut o); hex(&o) }
        "cunpack" => match SwapCurve::unpack_from_slice(&unhex(t[1])) { Ok(c) => { let mut o = [0u8; 33]; SwapCurve::pack_into_slice(&c, &mut o); format!("ok {}", hex(&o)) } Err(e) => perr(&e) },
        "cpack" => { let mut o = [0u8; 33]; SwapCurve::pack_into_slice(&scurve(t[1]), &mut o); hex(&o) }
        // pack init bump tokenprog a b mint amint bmint fee fees8 curve fill len
        "pack" => {
            let s = SwapV1 { is_initialized: t[1] == "1", bump_seed: t[2].parse().unwrap(), token_program_id: key(t[3]), token_a: key(t[4]), token_b: key(t[5]), pool_mint: key(t[6]),
                token_a_mint: key(t[7]), token_b_mint: key(t[8]), pool_fee_account: key(t[9]), fees: fees(&t[10..18]), swap_curve: scurve(t[18]) };
            let mut o = vec![t[19].parse::<u8>().unwrap(); t[20].parse().unwrap()];
            match SwapVersion::pack(SwapVersion::SwapV1(s), &mut o) { Ok(()) => format!("ok {}", hex(&o)), Err(e) => perr(&e) }
        }
        // con owner types fees8 | curve fees8
        "con" => {
            let ty: Vec<CurveType> = if t[1] == "-" { vec![] } else { t[1].split(',').map(|x| scurve(x).curve_type).collect() };
            let cf = fees(&t[2..10]);
            let c = SwapConstraints { owner_key: "x", valid_curve_types: &ty, fees: &cf };
            format!("{} {}", c.validate_curve(&scurve(t[10])).is_ok(), c.validate_fees(&fees(&t[11..19])).is_ok())
        }
        // run another command and append what the "uf" calculator was asked
        "calls" => { calls(); let r = run(&t[1..]); format!("{} # {}", r, calls()) }
        "pda" => { let (k, b) = Pubkey::find_program_address(&[&unhex(t[2])], &key(t[1])); format!("{} {}", hex(k.as_ref()), b) }
        "b58" => format!("{}", key(t[1])),
        // data / accounts of an instruction built with the crate's own client types
        "cdata" => { use anchor_lang::InstructionData; use token_bonding_curve::instruction as i; let n: Vec<u64> = t[2..].iter().map(|x| x.parse().unwrap()).collect();
            hex(&match t[1] {
                "initialize_constant_price" => i::InitializeConstantPrice { trade_fee_numerator: n[0], trade_fee_denominator: n[1], owner_trade_fee_numerator: n[2], owner_trade_fee_denominator: n[3],
                    owner_withdraw_fee_numerator: n[4], owner_withdraw_fee_denominator: n[5], host_fee_numerator: n[6], host_fee_denominator: n[7], token_b_price: n[8] }.data(),
                "initialize_linear_price" => i::InitializeLinearPrice { slope_numerator: n[0], slope_denominator: n[1], initial_token_a_price_numerator: n[2], initial_token_a_price_denominator: n[3] }.data(),
                "swap" => i::Swap { amount_in: n[0], minimum_amount_out: n[1] }.data(),
                "deposit_all_token_types" => i::DepositAllTokenTypes { pool_token_amount: n[0], maximum_token_a_amount: n[1], maximum_token_b_amount: n[2] }.data(),
                "withdraw_all_token_types" => i::WithdrawAllTokenTypes { pool_token_amount: n[0], minimum_token_a_amount: n[1], minimum_token_b_amount: n[2] }.data(),
                "deposit_single_token_type_exact_amount_in" => i::DepositSingleTokenTypeExactAmountIn { source_token_amount: n[0], minimum_pool_token_amount: n[1] }.data(),
                "withdraw_single_token_type_exact_amount_out" => i::WithdrawSingleTokenTypeExactAmountOut { destination_token_amount: n[0], maximum_pool_token_amount: n[1] }.data(),
                _ => panic!("cdata") }) }
        "cmetas" => { use anchor_lang::ToAccountMetas; use token_bonding_curve::accounts as a; let k: Vec<Pubkey> = t[2..].iter().map(|x| key(x)).collect();
            let m = match t[1] {
                "initialize_constant_price" | "initialize_linear_price" => a::Initialize { token_swap: k[0], swap_authority: k[1], token_a: k[2], token_b: k[3], pool: k[4], fee: k[5], destination: k[6], token_program: k[7] }.to_account_metas(None),
                "swap" => a::Swap { token_swap: k[0], swap_authority: k[1], user_transfer_authority: k[2], source: k[3], swap_source: k[4], swap_destination: k[5], destination: k[6], pool_mint: k[7], pool_fee: k[8], token_program: k[9] }.to_account_metas(None),
                "deposit_all_token_types" => a::DepositAllTokenTypes { token_swap: k[0], swap_authority: k[1], user_transfer_authority: k[2], source_a: k[3], source_b: k[4], token_a: k[5], token_b: k[6], pool_mint: k[7], destination: k[8], token_program: k[9] }.to_account_metas(None),
                "withdraw_all_token_types" => a::WithdrawAllTokenTypes { token_swap: k[0], swap_authority: k[1], user_transfer_authority: k[2], pool_mint: k[3], source: k[4], swap_token_a: k[5], swap_token_b: k[6], destination_token_a: k[7], destination_token_b: k[8], fee_account: k[9], token_program: k[10] }.to_account_metas(None),
                "deposit_single_token_type_exact_amount_in" => a::DepositSingleTokenTypeExactAmountIn { token_swap: k[0], swap_authority: k[1], user_transfer_authority: k[2], source_token: k[3], swap_token_a: k[4], swap_token_b: k[5], pool_mint: k[6], destination: k[7], token_program: k[8] }.to_account_metas(None),
                "withdraw_single_token_type_exact_amount_out" => a::WithdrawSingleTokenTypeExactAmountOut { token_swap: k[0], swap_authority: k[1], user_transfer_authority: k[2], pool_mint: k[3], pool_token_source: k[4], swap_token_a: k[5], swap_token_b: k[6], destination: k[7], pool_fee_account: k[8], token_program: k[9] }.to_account_metas(None),
                _ => panic!("cmetas") };
            m.iter().map(|m| format!("{}:{}:{}", hex(m.pubkey.as_ref()), m.is_signer as u8, m.is_writable as u8)).collect::<Vec<_>>().join(",") }
        // lamports and owners of the accounts of the last proc line
        "last" => LAST.with(|l| l.borrow().clone()),
        "proc" => process(&t[1..]),
        // outcome of a proc line without error codes and without the order of the token program calls; the pool state's bytes last
        "norm" => {
            let r = run(&t[1..]);
            let p: Vec<&str> = r.split(" # ").collect();
            if p[0] != "ok" { return "refused".into(); }
            let mut e: Vec<&str> = p[1].split('|').collect();
            e.sort();
            format!("ok # {} # {}", e.join("|"), p[2].split(',').next().unwrap())
        }
        _ => panic!("command"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    program_stubs::set_syscall_stubs(Box::new(Stubs));
    let out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let t: Vec<&str> = l.split_whitespace().collect();
        if t.is_empty() { continue; }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&t))).unwrap_or_else(|_| "panic".into());
        let mut o = out.lock();
        writeln!(o, "{}", r).unwrap();
        o.flush().unwrap();
    }
}

#!/usr/bin/env python3
"""writes MANIFEST.json from the claims below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'symbolic execution of the compiler MIR of the real code (regenerated from /repo on every run); each path obligation decided by SMT (z3 4.8, z3 4.13 nlsat, cvc5); counterexamples replayed natively'
CL = {}
NA = {}
def claim(p, note, thorough=True): CL[p] = (note, thorough)
A = 'All inputs symbolic over full machine width; no loop is unrolled unless stated; the deciding step is SMT over the compiled MIR. Trusted: rustc\'s MIR, the MIR-to-SMT encoder, the solvers. Arithmetic is the release profile (overflow wraps). '
PR = A + 'The real processor runs on a pool state packed by the real code, with every account key, owner and token field symbolic and a curve whose answers are free; token program calls are recorded, may fail at any point and otherwise move the instructed amount. The account list has the documented length. '
claim('P01', PR + 'Trades with and without host account on all five curve types.')
claim('P02', PR + 'Trades with and without host account on all five curve types.')
claim('P03', PR + 'Trades with and without host account on all five curve types.')
claim('P04', PR + 'All five user instructions on all five curve types.')
claim('P05', PR + 'Two-sided deposits.')
claim('P06', PR + 'Two-sided withdrawals.')
claim('P07', PR + 'Single-sided deposits.')
claim('P08', PR + 'Single-sided withdrawals.')
claim('P11', PR + 'Deposits on offset and linear pools with any curve answers; withdrawals on linear pools with the real linear calculator.')
claim('P09', A + 'The real process_initialize runs on symbolic accounts (every key, owner, mint, delegate, authority and supply symbolic), for every curve type with symbolic parameters and any fee schedule. The account list has the documented length.')
claim('P10', A + 'The real process_initialize runs on symbolic accounts and arguments; the recorded state is read back by the real unpacking. Re-creation starts from any initialised pool.')
claim('P12', A + 'validate_fees and validate_curve for any constraint, fee schedule and allowed list of at most 3 curve types; process_initialize with any constraint of up to 3 types; the constraint constant of the production feature, compiled separately.')
claim('P13', A + 'The compiled Anchor entry point runs on any instruction data (arguments symbolic, tags and truncations case-split) with the documented accounts; the processor call it makes is compared with the documentation. Concrete replays compare the entry point with the direct operation.')
claim('P14', A + 'Every byte of the stored form symbolic (324 bytes), every field of every structure symbolic, lengths case-split.')
claim('P15', A + 'Every amount below 2^128 and every u64 fraction.')
claim('P16', A + 'Any-curve scenarios use a calculator of unknown behaviour; constant product, constant price and offset are also run for real. Linear and stable are P22 and P28.')
claim('P17', A + 'Every u128 amount and balance of at least one. Histories: the invariant is per trade, so it composes.')
claim('P18', A + 'Every u64 price of at least one, every u64 amount.')
claim('P19', A + 'Every u64 offset of at least one and u64 balances and amounts.')
claim('P20', A + 'Every u64 request, supply and balance; four curves.')
claim('P21', A + 'Every u64 amount, supply, price and balance.')
LI = 'Every accepted set of four u64 parameters, every u64 balance and amount: no bound below the machine width. The real fixed-point arithmetic runs; only the square root is replaced by the contract P26 proves. Intermediate facts are decided as linear problems over monomials (the solver is given products of proved facts). '
claim('P22', A + LI)
claim('P23', A + LI + 'Tolerance: one unit of the eighteenth decimal, and half a token when a vault is exhausted.')
claim('P24', A + 'Every u64 parameter and balance.')
claim('P25', A + 'Every pair of 256-bit raw values; the 256-bit integer library is replaced by its arithmetic meaning.')
claim('P26', A + 'Every 256-bit raw value, both rounding modes, case-split by bit length; the Newton loop is cut at an inductive invariant found and proved by the solver.')
claim('P27', A + 'Every u64 amount, supply, balance and offset; the real 12-decimal arithmetic runs, the library square root is replaced by its contract.')
claim('P28', A + 'Every u64 amplifier, balance, amount and supply; the two Newton loops are cut at inductive invariants proved as linear problems over monomials, so the number of iterations is not bounded.')
claim('P30', A + 'Every path of the five instructions that refuses or aborts, with a calculator of unknown behaviour, is shown to have a stated reason; pool creation on a blank account likewise; the curves\' own answers are P17 to P24, P27 and P28.')
claim('P31', A + 'The client types\' serialisation and account lists run for any arguments and keys and are fed to the compiled entry point; the operations run as in P02 to P10 and the marks of every token program call are compared with the list.')
claim('P32', A + 'Every refusing path of the five instructions (calculator of unknown behaviour), of creation and of the entry point; the error value on the path is compared with the condition it documents.')
claim('P33', A + 'The five instructions with a calculator of unknown behaviour and pool creation; every byte of every account, its lamports and owner at each token program call and at the end of every successful path are compared with what they were or what the token program left.')
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    if p in CL:
        n, th = CL[p]
        c = dict(property=p, quick_cmd=f'checks/run.py {p} quick', thorough_cmd=f'checks/run.py {p} thorough', technique=T, level='other', level_note=n)
        checks.append(c)
na = [dict(property=p, reason=NA.get(p, 'check under construction')) for p in props if p not in CL]
json.dump(dict(version=1, setup_cmd='true', hooks=dict(guard='none', enable='no hooks are needed: the checks read the compiled MIR of the unmodified crate', source_commits=[]), checks=checks, not_applicable=na),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')

from insnmeta import *


def setup(c):
    c.desc = 'process_withdraw_single_token_type_exact_amount_out on a symbolic pool with symbolic accounts and a curve of unknown behaviour: account bindings and the exact totals moved, on every successful path.'
    c.bounds = BOUNDS; c.assume = ASSUME
    oracle(c, ('bind', 'settle'))
    for kind in CURVES: c.scenario(kind, lambda s, kind=kind: decide(s, 'wds', kind, ('bind', 'settle')))
    c.scenario('uninitialised', lambda s: uninit(s, 'wds', 'cp'))

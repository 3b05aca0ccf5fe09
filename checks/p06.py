from insnmeta import *


def setup(c):
    c.desc = 'process_withdraw_all_token_types on a symbolic pool with symbolic accounts and a curve of unknown behaviour: account bindings and the exact totals moved, on every successful path.'
    c.bounds = BOUNDS; c.assume = ASSUME
    oracle(c, ('bind', 'settle'))
    for kind in CURVES: c.scenario(kind, lambda s, kind=kind: decide(s, 'wd', kind, ('bind', 'settle')))
    c.scenario('uninitialised', lambda s: uninit(s, 'wd', 'cp'))

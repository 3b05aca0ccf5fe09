from init import *


def setup(c):
    c.desc = 'process_initialize with symbolic accounts, previous content of the pool account, fees and curve parameters; every successful path must satisfy each condition of a safe configuration.'
    c.bounds = IBOUNDS; c.assume = ASSUME[:4]
    init_oracle(c, ('safe',))
    for kind in CURVES: c.scenario(kind, lambda s, kind=kind: created(s, kind, ('safe',)))

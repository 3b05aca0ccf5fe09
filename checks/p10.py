from init import *


def setup(c):
    c.desc = ('process_initialize; after every success the resulting account bytes are read back by the real SwapVersion::unpack and compared with what was supplied and derived, and the '
              'token program calls are compared with one mint of the initial supply. Over an account written by the real pack with the initialised flag, no path succeeds, moves tokens or changes a byte.')
    c.bounds = IBOUNDS + ['existing pool: every state of each curve type, creation with the same and with another curve type']; c.assume = ASSUME[:4]
    init_oracle(c, ('record', 'mint', 'again'))
    for kind in CURVES: c.scenario(kind, lambda s, kind=kind: created(s, kind, ('record', 'mint')))
    ks = list(CURVES)
    for i, kind in enumerate(ks):
        for nk in (kind, ks[(i + 1) % 5]): c.scenario(f'again {kind} {nk}', lambda s, kind=kind, nk=nk: again(s, kind, nk))

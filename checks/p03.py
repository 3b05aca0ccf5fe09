from insnmeta import *


def setup(c):
    c.desc = ('process_swap with a curve of unknown behaviour: on every successful path the pool tokens minted between every pair of accounts equal the converted owner fee, '
              'shared with the host account when one is supplied.')
    c.bounds = BOUNDS; c.assume = ASSUME
    oracle(c, ('mint',))
    for kind in CURVES:
        for host in (False, True):
            c.scenario(f'{kind}{" host" if host else ""}', lambda s, kind=kind, host=host: decide(s, 'swap', kind, ('mint',), host))

from insnmeta import *


def setup(c):
    c.desc = ('process_swap with a curve of unknown behaviour: on every successful path the totals moved between every triple of accounts equal the specified ones, '
              'the curve was asked about the right amounts and direction, no failed token call was swallowed and the pool signs only with its own seeds.')
    c.bounds = BOUNDS; c.assume = ASSUME
    oracle(c, ('settle',))
    for kind in CURVES:
        for host in (False, True):
            c.scenario(f'{kind}{" host" if host else ""}', lambda s, kind=kind, host=host: decide(s, 'swap', kind, ('settle',), host))

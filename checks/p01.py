from insnmeta import *


def setup(c):
    c.desc = 'process_swap on a symbolic pool (real packed state bytes) with symbolic accounts; on every path that succeeds the account bindings must follow.'
    c.bounds = BOUNDS; c.assume = ASSUME
    oracle(c, ('bind',))
    for kind in CURVES:
        for host in (False, True):
            c.scenario(f'{kind}{" host" if host else ""}', lambda s, kind=kind, host=host: decide(s, 'swap', kind, ('bind',), host))
    c.scenario('uninitialised', lambda s: uninit(s, 'swap', 'cp'))

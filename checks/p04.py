from insnmeta import *


def setup(c):
    c.desc = 'all five user instructions with a curve of unknown behaviour: on every successful path the totals moved respect the limits the user stated.'
    c.bounds = BOUNDS; c.assume = ASSUME
    oracle(c, ('limit',))
    for kind in CURVES:
        for ins in SLOTS:
            for host in ((False, True) if ins == 'swap' else (False,)):
                c.scenario(f'{ins} {kind}{" host" if host else ""}', lambda s, kind=kind, host=host, ins=ins: decide(s, ins, kind, ('limit',), host))

from insnmeta import *


def setup(c):
    c.desc = ('Both deposit instructions on offset and linear pools with any answers of the curve: no path succeeds, at any supply. Both withdrawals on linear pools '
              'with the real linear calculator: no path succeeds for a non-zero amount.')
    c.bounds = BOUNDS; c.assume = ASSUME
    oracle(c, ('nodep', 'noredeem'))

    def none(s, ins, kind, aspect, real):
        R, oks = decide(s, ins, kind, (aspect,), real=real)
        if not R.outs: raise Unsupported('no outcome')
        s.notes.append(f'{len(R.outs)} outcomes, {len(oks)} of them successful')
        for q, k, v in R.outs:
            # successful ones are judged by the aspect
            if k != 'ok': s.ob('outcome refuses', q.pc, FALSE if k == 'ok' else TRUE)
        s.wit('refused', R.outs[-1][0].pc)
    for kind in ('offset', 'lin'):
        for ins in ('dep', 'deps'): c.scenario(f'{ins} {kind}', lambda s, kind=kind, ins=ins: none(s, ins, kind, 'nodep', None))
    for ins in ('wd', 'wds'): c.scenario(f'{ins} lin', lambda s, ins=ins: none(s, ins, 'lin', 'noredeem', True))

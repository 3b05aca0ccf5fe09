#!/usr/bin/env python3
"""matrix.py [seed...] [-p P..]: apply each planted bug to /repo, run its property's check (or those given), undo."""
import sys, os, json, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; ps = None
if '/repo' == '/re' 'po' and not subprocess.run(['pgrep', '-f', '/opt/vcheck|/opt/vgate'], stdout=subprocess.PIPE).returncode: sys.exit('a vcheck is running: leave /repo alone')
if '-p' in a: i = a.index('-p'); ps = a[i + 1:]; a = a[:i]
ids = a or sorted(os.listdir(V + '/seeded'))
for s in ids:
    d = f'{V}/seeded/{s}'
    if not os.path.exists(d + '/patch.diff'): continue
    m = json.load(open(d + '/meta.json'))
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    try:
        e = dict(os.environ)
        e.pop('VERIF_REPLAY', None); e.pop('VERIF_V', None)
        e['VERIF_DUMP'] = '/tmp/matrix.jsonl'
        r = subprocess.run([V + '/engine/dump.sh', '/tmp/matrix.jsonl'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: print(s, 'DUMP FAILED', r.stdout[-500:]); continue
        for p in ps or [m['property']]:
            t = time.time()
            r = subprocess.run([V + '/checks/run.py', p, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
            print(s, p, {0: 'MISSED', 1: 'caught'}.get(r.returncode, f'exit {r.returncode}'), f'{time.time() - t:.0f}s', [l for l in r.stdout.split('\n') if l.startswith(('scenario', 'INCON', 'Trace', '  '))][:2], flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)

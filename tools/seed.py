#!/usr/bin/env python3
"""Make and confirm planted bugs: seed.py SPEC.py [id...].  Each is applied in a scratch copy of /repo, built, run
through the repository's tests and demonstrated; only confirmed ones are written to /verif/seeded/<id>/."""
import sys, os, subprocess, json, shutil, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/w/s'
SRC = 'programs/token-bonding-curve/src/'
DEMO = '''#!/bin/bash
# builds a small driver against the library /repo's build produced, feeds it in.txt and compares with expect.txt
H=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH HOME=/root RUSTUP_TOOLCHAIN=1.70.0
D=/repo/target/debug/deps
[ -n "$DEMO_DEPS" ] && D=$DEMO_DEPS
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
rustc --edition 2018 -Awarnings "$H/driver.rs" -o "$T/driver" --extern token_bonding_curve=$D/libtoken_bonding_curve.rlib \\
  --extern solana_program=$(ls $D/libsolana_program-*.rlib | head -1) --extern spl_math=$(ls $D/libspl_math-*.rlib | head -1) \\
  --extern anchor_lang=$(ls $D/libanchor_lang-*.rlib | head -1) -L dependency=$D || exit 2
"$T/driver" < "$H/in.txt" > "$T/out.txt" 2>/dev/null
diff "$H/expect.txt" "$T/out.txt"
'''


def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def driver(deps, out):
    e = dict(os.environ, RUSTUP_TOOLCHAIN='1.70.0', PATH='/root/.cargo/bin:' + os.environ['PATH'])
    r = sh(f'rustc --edition 2018 -Awarnings {V}/replay/src/main.rs -o {out} --extern token_bonding_curve={deps}/libtoken_bonding_curve.rlib '
           f'--extern solana_program=$(ls {deps}/libsolana_program-*.rlib | head -1) --extern spl_math=$(ls {deps}/libspl_math-*.rlib | head -1) --extern anchor_lang=$(ls {deps}/libanchor_lang-*.rlib | head -1) -L dependency={deps}', env=e)
    if r.returncode: print(r.stdout); sys.exit(1)


def run(drv, lines):
    return subprocess.run([drv], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout


def main():
    sp = importlib.util.spec_from_file_location('spec', sys.argv[1]); m = importlib.util.module_from_spec(sp)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    driver('/repo/target/debug/deps', '/tmp/w/drv0')
    sp.loader.exec_module(m)
    want = sys.argv[2:]
    if not os.path.exists(W): sh(f'cp -a /repo {W}')
    sh(f'cd {W} && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
    for s in m.SEEDS:
        if want and s['id'] not in want: continue
        out = os.path.join(V, 'seeded', s['id'])
        if os.environ.get('SEED_OUT'): out = os.path.join(os.environ['SEED_OUT'], s['id'])
        if not want and os.path.exists(out + '/patch.diff'): continue
        sh(f'cd {W} && git checkout -q -- .')
        good = True
        for f, a, b in s['edits']:
            p = os.path.join(W, SRC + f); t = open(p).read()
            occ = s.get('occ', {}).get(f, 1)
            n = t.count(a)
            if n == 0 or (n > 1 and not s.get('nth')): print(s['id'], 'edit matches', n, 'times:', a[:60]); good = False; break
            if s.get('nth') and n > 1:
                i = -1
                for _ in range(s['nth']): i = t.index(a, i + 1)
                t = t[:i] + b + t[i + len(a):]
            else: t = t.replace(a, b)
            open(p, 'w').write(t)
        if not good: continue
        env = "source /opt/vp/env.sh; cd %s; export CARGO_TARGET_DIR=%s/target; " % (W, W)
        r = sh(f'bash -c "{env} cargo test --workspace --no-run --locked --offline"')
        if r.returncode: print(s['id'], 'does not build', r.stdout[-1500:]); continue
        driver(W + '/target/debug/deps', '/tmp/w/drv1')
        lines = s['lines']() if callable(s['lines']) else s['lines']
        e0, e1 = run('/tmp/w/drv0', lines), run('/tmp/w/drv1', lines)
        if e0 == e1: print(s['id'], 'NOT DEMONSTRATED', e0[:300]); continue
        r = sh(f'bash -c "{env} timeout 780 cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8"')
        if '73 passed; 0 failed' not in r.stdout:
            print(s['id'], 'TESTS FAIL', [l for l in r.stdout.split('\n') if 'FAILED' in l][:5]); continue
        os.makedirs(out, exist_ok=True)
        d = sh(f'cd {W} && git diff').stdout
        open(out + '/patch.diff', 'w').write(d)
        open(out + '/demo.sh', 'w').write(DEMO); os.chmod(out + '/demo.sh', 0o755)
        shutil.copy(f'{V}/replay/src/main.rs', out + '/driver.rs')
        open(out + '/in.txt', 'w').write('\n'.join(lines) + '\n')
        open(out + '/expect.txt', 'w').write(e0)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(out + '/meta.json', 'w'), indent=1)
        print(s['id'], 'confirmed;', [(a[:80], b[:80]) for a, b in zip(e0.split('\n'), e1.split('\n')) if a != b][:2])
    sh(f'cd {W} && git checkout -q -- .')


main()

"""Compare the symbolic executor with compiled code on the small functions of tools/idioms/list.txt (one per line, a, b, c: u64 -> u128).
Each is added to a scratch copy of the crate, executed symbolically once, and evaluated and run natively at the same points.
idioms.py [-r] [name...]   (-r: reuse the last build)"""
import sys, os, random, subprocess, traceback, signal, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine/sym', V + '/checks']
sys.setrecursionlimit(100000)
W = '/tmp/w/idioms'; R = W + '/repo'; DUMP = W + '/idioms.jsonl'; BIN = W + '/target/release/rn'
MAIN = '''use std::io::BufRead;
fn main() { std::panic::set_hook(Box::new(|_| {})); for l in std::io::stdin().lock().lines() { let l = l.unwrap(); let p: Vec<&str> = l.split(' ').collect();
 let (a, b, c) = (p[1].parse().unwrap(), p[2].parse().unwrap(), p[3].parse().unwrap());
 match std::panic::catch_unwind(|| token_bonding_curve::idioms::run(p[0], a, b, c)) { Ok(v) => println!("{}", v), Err(_) => println!("panic") } } }
'''
fns = [l.split(': ', 1) for l in open(V + '/tools/idioms/list.txt').read().strip().split('\n')]


def build():
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(R): subprocess.check_call(['git', 'clone', '-q', '/repo', R])
    subprocess.check_call(['git', '-C', R, 'fetch', '-q', '/repo', 'HEAD']); subprocess.check_call(['git', '-C', R, 'reset', '-q', '--hard', 'FETCH_HEAD'])
    S = R + '/programs/token-bonding-curve/src/'
    out = ['#![allow(missing_docs, unused, clippy::all)]'] + [f'pub fn {n}(a: u64, b: u64, c: u64) -> u128 {{ {b} }}' for n, b in fns]
    out += ['pub fn run(n: &str, a: u64, b: u64, c: u64) -> u128 { match n {'] + [f'"{n}" => {n}(a, b, c),' for n, _ in fns] + ['_ => unreachable!() } }']
    open(S + 'idioms.rs', 'w').write('\n'.join(out))
    s = open(S + 'lib.rs').read(); open(S + 'lib.rs', 'w').write(s.replace('pub mod constraints;', 'pub mod idioms;\npub mod constraints;', 1))
    N = W + '/rn'; os.makedirs(N + '/src', exist_ok=True)
    open(N + '/Cargo.toml', 'w').write(f'[package]\nname = "rn"\nversion = "0.1.0"\nedition = "2018"\n[workspace]\n[dependencies]\ntoken-bonding-curve = {{ path = "{R}/programs/token-bonding-curve" }}\n')
    open(N + '/src/main.rs', 'w').write(MAIN)
    subprocess.check_call(['cp', V + '/replay/Cargo.lock', N + '/Cargo.lock'])
    env = dict(os.environ, RUSTUP_TOOLCHAIN='1.70.0', RUSTC_WRAPPER='', CARGO_TARGET_DIR=W + '/target', CARGO_NET_OFFLINE='true'); env.pop('RUSTFLAGS', None)
    r = subprocess.run(['cargo', 'build', '-q', '--release', '--offline'], cwd=N, env=env, stderr=subprocess.PIPE, text=True)
    if r.returncode: sys.exit('\n'.join(re.findall(r'error.*\n.*\n.*\n.*\n.*', r.stderr)))
    E = W + '/engine'; subprocess.check_call(f'rm -rf {E}; cp -a {V}/engine {E}; sed -i "s#/repo/programs#{R}/programs#g" {E}/*.sh', shell=True)
    subprocess.check_call(['bash', E + '/dump.sh', DUMP], env=dict(os.environ, VERIF_BUILD=W + '/build'))


class TO(Exception): pass


def alarm(*a): raise TO()


def main():
    a = sys.argv[1:]
    if '-r' in a: a.remove('-r')
    else: build()
    import load
    from term import V as Var, evaluate
    from ex import Exec, St, Unsupported
    P = load.load(DUMP)
    rnd = random.Random(1)
    pts = [(0,0,0),(1,1,1),(5,3,1),(3,5,9),(100,50,50),(50,100,7),(3,0,7),(3,3,7),(2**64-1,2**64-1,2**64-1),(2**63,2**63,2),(10,8,2),(20,7,7),(5,7,5),(200,200,200),(1000,9,3)]
    while len(pts) < 80: pts.append(tuple(rnd.getrandbits(rnd.randrange(1, 65)) for _ in range(3)))
    signal.signal(signal.SIGALRM, alarm)
    bad = n_ = 0
    for n, _ in fns:
        if a and n not in a: continue
        n_ += 1
        nat = subprocess.run([BIN], input=''.join(f'{n} {x} {y} {z}\n' for x, y, z in pts), stdout=subprocess.PIPE, text=True).stdout.split()
        try:
            signal.alarm(60)
            outs = Exec(P).call(St(), P.byname['token_bonding_curve::idioms::' + n][0], [Var(z, 0, (1 << 64) - 1) for z in 'abc'])
            for p, w in zip(pts, nat):
                m = dict(zip('abc', p))
                got = {'panic' if k == 'panic' else str(evaluate(v, m)) for q, k, v in outs if all(evaluate(z, m) for z in q.pc)}
                if got != {w}: print(n, 'MISMATCH', p, 'native', w, 'engine', got); bad += 1; break
            signal.alarm(0)
        except TO: print(n, 'TIMEOUT'); bad += 1
        except Unsupported as e: print(n, 'UNSUPPORTED', str(e)[:250]); bad += 1
        except Exception as e: print(n, 'EXC', repr(e)[:250], traceback.format_exc().strip().split('\n')[-3:-1]); bad += 1
        signal.alarm(0)
    print(n_, 'functions,', bad, 'not as compiled')


if __name__ == '__main__': main()

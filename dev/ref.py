#!/usr/bin/env python3
"""ref.py [PREFIX]: behaviour-preserving refactorings (dev/refs/*.ref) on which every claimed check has to stay quiet.
A case: change(s) 'old\n====\nnew' separated by '####'; the first line of a part may be '@file PATH' (default: the last one named) and '@all ' replaces every occurrence."""
import sys, subprocess, os, json, glob, concurrent.futures as cf
V = '/verif'; env0 = dict(os.environ)
ids = [c['property'] for c in json.load(open(f'{V}/MANIFEST.json'))['checks']]
if os.environ.get('IDS'): ids = os.environ['IDS'].split(',')
def prepare(case, R):
    subprocess.run(f'mkdir -p {R}; rm -rf {R}/src; cp -a /repo/Cargo.toml /repo/Cargo.lock /repo/src {R}/; [ -d {R}/target ] || cp -a /repo/target {R}/ 2>/dev/null; [ -d {R}/doc ] || cp -a /repo/doc /repo/tests {R}/', shell=True)
    f = None
    for part in open(case).read().rstrip('\n').split('\n####\n'):
        if part.startswith('@file '): f, part = part[6:].split('\n', 1)
        o, n = part.split('\n====\n') if '\n====\n' in part else (part.split('\n====')[0], '')
        p = f'{R}/{f}'; s = open(p).read(); al = o.startswith('@all '); o = o[5:] if al else o
        if (al and o not in s) or (not al and s.count(o) != 1): return f'{s.count(o)} occurrences of {o!r}'
        open(p, 'w').write(s.replace(o, n))
def one(a):
    i, R = a
    r = subprocess.run(['timeout', '900', 'python3', f'{V}/check.py', i], env=dict(env0, VP_REPO=R), capture_output=True, text=True)
    return i, r.returncode, (r.stdout + r.stderr)
def main():
    pre = sys.argv[1] if len(sys.argv) > 1 else ''; R = os.environ.get('R', '/tmp/refrepo'); n = int(os.environ.get('N', '350'))
    for case in sorted(glob.glob(f'{V}/dev/refs/{pre}*.ref')):
        e = prepare(case, R); name = os.path.basename(case)
        if e: print('FAIL', name, e[:200]); continue
        b = subprocess.run(f'cd {R} && cargo check --offline --locked 2>&1 | grep -A6 "^error" | head -20', shell=True, capture_output=True, text=True, env=dict(env0, PATH='/root/.cargo/bin:' + env0['PATH'])).stdout
        if b: print('DOES NOT COMPILE', name, b[:600]); continue
        if os.environ.get('TESTS'):
            b = subprocess.run(f'cd {R} && timeout 120 cargo test --offline --locked 2>&1 | grep "^test "', shell=True, capture_output=True, text=True, env=dict(env0, PATH='/root/.cargo/bin:' + env0['PATH'])).stdout
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']; miss = [t for t in base if f"test {t.split('burn_fm::bin/burn_fm::')[1]} ... ok" not in b]
            if miss: print('TESTS', name, miss)
        first = one((ids[0], R))
        with cf.ThreadPoolExecutor(8) as ex: rs = [first] + list(ex.map(one, [(i, R) for i in ids[1:]]))
        bad = [(i, c, o) for i, c, o in rs if c != 0]
        print('ok  ' if not bad else 'FAIL', name, ' '.join(f'{i}:{c}' for i, c, o in bad), flush=True)
        for i, c, o in bad: print('   ', i, ' | '.join([l[:n] for l in o.strip().split('\n')[-3:]]))
main()

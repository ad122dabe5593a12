#!/usr/bin/env python3
"""mkseed.py NAME: builds seeded/NAME from dev/seeds/NAME.seed and confirms it.
First line: JSON {property, needs, what_it_breaks, file}; then try.py change(s) up to a line '@@demo'; then the demonstration's tests."""
import sys, subprocess, os, json, shutil
name = sys.argv[1]; V = '/verif'; R = '/tmp/seedrepo'
s = open(f'{V}/dev/seeds/{name}.seed').read()
head, rest = s.split('\n', 1); change, demo = rest.split('\n@@demo\n'); m = json.loads(head)
D = f'{V}/seeded/{name}'; os.makedirs(D, exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
sh(f'mkdir -p {R}; [ -d {R}/.git ] || cp -a /repo/. {R}/; git -C {R} fetch -q /repo HEAD; git -C {R} checkout -q -f FETCH_HEAD; git -C {R} checkout -q -- .')
files = m.pop('file').split(','); 
for part in change.rstrip('\n').split('\n####\n'):
    f = files[0]
    if part.startswith('@file '): f, part = part[6:].split('\n', 1); files.append(f)
    p = f'{R}/{f}'; src = open(p).read(); o, n = part.split('\n====\n') if '\n====\n' in part else (part.split('\n====')[0], '')
    if src.count(o) != 1: print(f'{src.count(o)} occurrences of {o!r}'); sys.exit(3)
    open(p, 'w').write(src.replace(o, n))
d = sh(f'git -C {R} diff').stdout; open(f'{D}/patch.diff', 'w').write(d)
if demo.startswith('#!'): open(f'{D}/demo.sh', 'w').write(demo)
else:
    shutil.copy(f'{V}/dev/seeds/demo.sh', f'{D}/demo.sh')
    open(f'{D}/demo.rs', 'w').write(open(f'{V}/dev/seeds/common.rs').read() + '\n' + demo)
os.chmod(f'{D}/demo.sh', 0o755)
json.dump(m, open(f'{D}/meta.json', 'w'), indent=1); open(f'{D}/meta.json', 'a').write('\n')
env = dict(os.environ); env['PATH'] = '/root/.cargo/bin:' + env['PATH']
b = sh('cargo test --offline --locked 2>&1 | grep -E "^test |error|panicked"', cwd=R, env=env).stdout
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
missing = [t for t in base if f"test {t.split('burn_fm::bin/burn_fm::')[1]} ... ok" not in b]
print('stable tests with the patch:', 'ok' if not missing else missing, b[:600] if missing else '')
r1 = sh(f'bash {D}/demo.sh', cwd=R, env=env); print('demo with the patch:', r1.returncode, r1.stdout[-int(os.environ.get("N", 300)):] if r1.returncode in (0, 2, 3) else '')
sh(f'git -C {R} checkout -q -- .')
r0 = sh(f'bash {D}/demo.sh', cwd=R, env=env); print('demo on the unchanged tree:', r0.returncode, r0.stdout[-1500:] if r0.returncode else '')
sh(f'git -C {R} apply {D}/patch.diff')
for p in m['property'].split(',') + sys.argv[2:]:
    c = sh(f'python3 {V}/check.py {p}', env=dict(env, VP_REPO=R)); print(p, c.returncode, c.stdout[:400])
sh(f'git -C {R} checkout -q -- .')

#!/usr/bin/env python3
"""mutate.py N SEED [FILEPART]: random one-line mutants of /repo's non-test sources that compile and pass the stable tests; which checks report them. Output: one line per mutant."""
import re, sys, random, subprocess, os, json, concurrent.futures as cf
V = '/verif'; N, SEED = int(sys.argv[1]), int(sys.argv[2]); PART = sys.argv[3] if len(sys.argv) > 3 else ''
ids = [c['property'] for c in json.load(open(f'{V}/MANIFEST.json'))['checks'] if c['property'][0] in 'SCB']
W = int(os.environ.get('W', '3')); env0 = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ['PATH'])
base = [t.split('burn_fm::bin/burn_fm::')[1] for t in json.load(open('/opt/vp/BASELINE.json'))['stable']]
RULES = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
         (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\.is_empty\(\)', '.len() == 1'), (r'\btable1\b', 'table2'), (r'\btable2\b', 'table1'), (r'\bfield1\b', 'field2'), (r'\bcontinue;', 'break;'), (r'\breturn None;', 'panic!();'),
         (r' \+= ', ' -= '), (r'\.last\(\)', '.first()'), (r'\.first\(\)', '.last()'), (r'\.next\(\)', '.nth(1)'), (r'\.push\(', '.insert(0, '), (r'if (?!let)([^{]+) \{', r'if !(\1) {'), (r'\bif (?!let)([^{]+) \{', r'if false && (\1) {'), (r'\btrim\(\)', 'trim_start()'), (r'\.insert\(', '.remove('), (r'\.unwrap_or\(', '.unwrap_or(1 + ')]
def sites():
    out = []
    fs = subprocess.run("cd /repo && git ls-files 'src/*.rs' | grep -v '^src/testing/'", shell=True, capture_output=True, text=True).stdout.split()
    for f in fs:
        if PART not in f: continue
        ls = open(f'/repo/{f}').read().split('\n')
        for i, l in enumerate(ls):
            if re.match(r'\s*#\[cfg\(test\)\]', l): break
            s = l.strip()
            if not s or s.startswith(('//', '#', 'use ', '*', 'pub mod', 'mod ', 'println', 'eprintln', 'print', 'fn ', 'pub fn', 'impl', 'struct', 'pub struct', 'enum')): continue
            for a, b in RULES:
                for m in re.finditer(a, l): out.append((f, i, l[:m.start()] + m.expand(b) + l[m.end():]))
            for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])', l):
                v = int(m.group(1), 0); out.append((f, i, l[:m.start()] + (hex(v + 1) if m.group(1).startswith('0x') else str(v + 1)) + l[m.end():]))
                if v > 1: out.append((f, i, l[:m.start()] + (hex(v - 1) if m.group(1).startswith('0x') else str(v - 1)) + l[m.end():]))
            if s.endswith(';') and not s.startswith(('let ', 'return', 'break', 'continue', '}')) and s.count('(') == s.count(')'): out.append((f, i, '//' + l))
    return out
def run(cmd, t): 
    try: return subprocess.run(cmd, shell=True, capture_output=True, text=True, env=env0, timeout=t)
    except subprocess.TimeoutExpired: return None
def mutant(a):
    k, (f, i, new) = a; R = f'/tmp/mut{k % W}'; run(f'mkdir -p {R}; rm -rf {R}/src; cp -a /repo/Cargo.toml /repo/Cargo.lock /repo/src {R}/; [ -d {R}/target ] || cp -a /repo/target {R}/ 2>/dev/null; [ -d {R}/doc ] || cp -a /repo/doc /repo/tests {R}/', 60)
    ls = open(f'{R}/{f}').read().split('\n'); old = ls[i]; ls[i] = new; open(f'{R}/{f}', 'w').write('\n'.join(ls)); tag = f'{f}:{i + 1}: {old.strip()[:90]}  ==>  {new.strip()[:90]}'
    r = run(f'cd {R} && timeout 120 cargo test --offline --locked 2>&1 | grep -E "^(test |error)"', 150)
    if r is None: return 'HANGS  ' + tag
    if 'error' in r.stdout and 'test ' not in r.stdout: return None
    if any(f'test {t} ... ok' not in r.stdout for t in base): return 'TESTS  ' + tag
    res = {}; pref = next((w.split() for q, w in (('compile/lexer', 'B06 B05'), ('compile/parser', 'B01 B07 B05'), ('burn_script/lexer', 'B04 B05'), ('burn_script/parser', 'B02 B03 B05'), ('decompile', 'C05 C06 C13 C09 C10 C11 C08 C01'), ('chunk', 'C02 C08'), ('main', 'S06 S05 B01 S04 S03'), ('assembler', 'C14 C04 C03 C12'), ('enc', 'C02 C03 C07')) if q in f), [])
    for i_ in sorted(ids, key=lambda x: pref.index(x) if x in pref else 99):
        r = run(f'VP_REPO={R} timeout 300 python3 {V}/check.py {i_}', 310); res[i_] = r.returncode if r else 9
        if res[i_] == 1: break
    c = [i_ for i_, x in res.items() if x == 1]; u = [f'{i_}:{x}' for i_, x in res.items() if x not in (0, 1)]
    return ('CAUGHT ' + ','.join(c) if c else 'UNDEC  ' + ','.join(u) if u else 'MISSED') + '  ' + tag
def lane(q): 
    for a in q:
        try: r = mutant(a)
        except Exception as e: r = f'ERROR {e}'
        if r: print(r, flush=True)
S = sites(); random.Random(SEED).shuffle(S); print('#', len(S), 'sites', flush=True); S = list(enumerate(S[:N]))
with cf.ThreadPoolExecutor(W) as ex: list(ex.map(lane, [[a for a in S if a[0] % W == k] for k in range(W)]))

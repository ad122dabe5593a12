#!/usr/bin/env python3
"""try.py ID[,ID] FILE  < 'old\n====\nnew[\n####\nold\n====\nnew...]'   run checks on a scratch copy of the repository with a textual change"""
import sys, subprocess, os, shutil
R = os.environ.get('R', '/tmp/mutrepo')
subprocess.run(f'rm -rf {R}/src; mkdir -p {R}; cp -a /repo/Cargo.toml /repo/Cargo.lock /repo/src {R}/; [ -d {R}/target ] || cp -a /repo/target {R}/ 2>/dev/null; [ -d {R}/doc ] || cp -a /repo/doc /repo/tests {R}/', shell=True)
f = f'{R}/{sys.argv[2]}'; s = open(f).read()
for part in sys.stdin.read().rstrip('\n').split('\n####\n'):
    o, n = part.split('\n====\n') if '\n====\n' in part else (part.split('\n====')[0], '')
    if o.startswith('@all '): o = o[5:]; assert o in s; s = s.replace(o, n); continue
    if s.count(o) != 1: print(f'{s.count(o)} occurrences of {o!r}'); sys.exit(3)
    s = s.replace(o, n)
open(f, 'w').write(s)
env = dict(os.environ, VP_REPO=R)
for i in sys.argv[1].split(','):
    r = subprocess.run(['python3', '/verif/check.py', i], env=env, capture_output=True, text=True)
    print(r.returncode, (r.stdout + r.stderr)[-int(os.environ.get('N', 700)):])

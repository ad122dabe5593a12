"""Runtime of the checks: facts extraction from /repo's current tree, reporting, evidence."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(ROOT, '.cache')
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def repo_files(repo):
    r = []
    for base, ds, fs in os.walk(repo):
        ds[:] = sorted(d for d in ds if d not in ('.git', 'target'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock')) or base.endswith('.cargo'): r.append(os.path.join(base, f))
    return r
def build_facts(repo):
    """Compile the fact extractor (a rustc driver) and run it over the crate; returns the facts file."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ); env.pop('RUSTC_WRAPPER', None); env.pop('RUSTFLAGS', None)
        src = os.path.join(ROOT, 'driver', 'driver.rs')
        h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
        drv = os.path.join(CACHE, 'driver-' + h)
        if not os.path.exists(drv):
            r = sh(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', drv + '.tmp'], env=env, cwd=CACHE)
            if r.returncode: raise ToolError('fact extractor does not build:\n' + r.stdout[-3000:])
            os.rename(drv + '.tmp', drv)
        hh = hashlib.sha256(h.encode() + repo.encode())
        for f in repo_files(repo): hh.update(os.path.relpath(f, repo).encode() + b'\0' + open(f, 'rb').read() + b'\0')
        out = os.path.join(CACHE, 'facts-' + hh.hexdigest()[:24])
        fn = os.path.join(out, 'burn_fm.bin.json')
        if os.path.exists(fn): return fn
        tgt = os.path.join(CACHE, 'target')
        shutil.rmtree(os.path.join(tgt, 'debug', 'build', 'burn_fm'), ignore_errors=True)       # or cargo may find the crate fresh and not call the extractor
        fp = os.path.join(tgt, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith('burn_fm-'): shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        tmp = out + '.tmp'; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'], env=env).stdout.strip()
        env.update(VP_FACTS_OUT=tmp, LD_LIBRARY_PATH=sysroot + '/lib', RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=tgt, CARGO_TERM_COLOR='never')
        r = sh(['cargo', '+nightly', 'check', '--offline', '--locked'], env=env, cwd=repo)
        if not r.returncode and not os.path.exists(os.path.join(tmp, 'burn_fm.bin.json')):
            shutil.rmtree(tgt, ignore_errors=True); r = sh(['cargo', '+nightly', 'check', '--offline', '--locked'], env=env, cwd=repo)
        if r.returncode or not os.path.exists(os.path.join(tmp, 'burn_fm.bin.json')):
            raise ToolError('facts could not be extracted (does the tree compile?):\n' + r.stdout[-3000:])
        for d in os.listdir(CACHE):      # keep the cache small
            if d.startswith('facts-'):
                p = os.path.join(CACHE, d)
                if time.time() - os.path.getmtime(p) > 3600: shutil.rmtree(p, ignore_errors=True)
        os.rename(tmp, out)
        return fn
class ToolError(Exception): pass

class Report:
    def __init__(self, pid):
        self.pid = pid; self.n = 0; self.bad = []; self.rules = {}; self.fns = set(); self.notes = []; self.counts = {}
        self.paths = self.panics = self.loops = 0; self.unmodelled = {}; self.samples = []
    def ob(self, ok, rule, where, msg, key=None):
        """One obligation: `rule` applied at construct `where`."""
        self.n += 1
        r = self.rules.setdefault(rule, [0, 0]); r[0] += 1
        if ok:
            r[1] += 1
            if len(self.samples) < 12 and r[1] <= 2: self.samples.append(f'{rule} @ {where}')
        else: self.bad.append({'rule': rule, 'where': where, 'msg': msg, 'key': key or f'{rule}|{where.split(" ")[0].rsplit(":", 2)[0]}'})
        return ok
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def engine(self, E, outs=None):
        self.fns |= E.analysed; self.panics += len(E.panics); self.loops += len(E.looprecs)
        if outs is not None: self.paths += len(outs)
        for k, v in E.unmodelled.items(): self.unmodelled[k] = self.unmodelled.get(k, 0) + v
def known(pid):
    r = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid: r[m.group(2)] = m.group(3)
    return r
def main(argv, checks, info):
    pid = argv[0]; repo = os.environ.get('VP_REPO', '/repo'); t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    if '--tier' in argv: tier = argv[argv.index('--tier') + 1]
    from engine import load, Limit
    rep = Report(pid); ev = os.path.join(ROOT, 'evidence'); os.makedirs(ev, exist_ok=True)
    try:
        facts = build_facts(repo)
        F = load(facts); F.repo = repo
        checks[pid](F, rep, tier)
    except ToolError as e:
        print(f'ERROR property={pid}: {e}'); return 2
    except Limit as e:
        import traceback
        traceback.print_exc(limit=-4)
        if not [b for b in rep.bad if b['key'] not in known(pid)]:
            print(f'UNDECIDED property={pid}: {e}'); return 2
    kn = known(pid); new = [b for b in rep.bad if b['key'] not in kn]; old = [b for b in rep.bad if b['key'] in kn]
    if rep.n == 0: print(f'ERROR property={pid}: no obligation was generated'); return 2
    cov = {'explanation': info.get(pid, ''), 'functions_in_crate': len(F.fns), 'functions_analysed': len(rep.fns) or None, 'function_names': sorted(rep.fns)[:80],
           'abstract_paths': rep.paths, 'panicking_paths_set_aside': rep.panics, 'loops_summarised': rep.loops,
           'obligations_generated': rep.n, 'obligations_failed': len(rep.bad), 'rules': {k: {'checked': v[0], 'held': v[1]} for k, v in rep.rules.items()},
           'sites': rep.samples, 'calls_without_model_treated_as_unknown': rep.unmodelled}
    cov.update(rep.counts)
    cov = {k: v for k, v in cov.items() if v is not None}
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'assumptions': rep.notes or ['rustc emits MIR that reflects the source; the models of the standard library in analysis/models.py are faithful'],
               'wall_s': round(time.time() - t0, 2), 'violations': len(new), 'known_findings': len(old)}, open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    for k in dict.fromkeys(b['key'] for b in old): print(f'KNOWN-FINDING: property={pid} {k} {kn[k]}')
    if new:
        rp = os.path.join(ev, pid + '.violations.json')
        json.dump(new, open(rp, 'w'), indent=1)
        for b in new[:10]: print(f'{b["where"]}: [{b["rule"]}] {b["msg"]}')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    print(f'OK property={pid}: {rep.n} obligations, {len(rep.fns)} functions, {rep.paths} paths, {round(time.time() - t0, 1)} s')
    return 0

"""Whole-program properties: S01-S05, E02."""
import os, re
from lib import *
CHECKS, INFO = {}, {}
def check(pid, info):
    def w(f): CHECKS[pid] = f; INFO[pid] = info; return f
    return w

@check('S01', 'Every function, impl, block and attribute of the crate (HIR after macro expansion) is visited; a user-written unsafe block, unsafe fn/impl, extern block, '
       'mutable static, inline assembly or symbol-affecting attribute is a violation. Unsafe operations in MIR are only those produced by the compiler for safe constructs.')
def s01(F, rep, tier):
    F_ = F.d
    rep.ob(True, 'unsafe-construct', 'crate', '')
    for kind, span in F_['unsafe']:
        gen = 'CompilerGenerated' in kind
        rep.ob(gen, 'unsafe-construct', span, f'{kind}: an operation whose memory safety the compiler does not check')
    for a in F_['attrs']:
        nm = a[0] if isinstance(a, list) else str(a)
        bad = re.search(r'no_mangle|export_name|link_section|\blink\b|no_builtins', str(nm))
        rep.ob(not bad, 'symbol-attribute', str(a[1] if isinstance(a, list) and len(a) > 1 else a), f'attribute {nm} overrides a symbol without a safety check')
    for f in non_test(F):
        rep.count('functions_scanned'); rep.ob(True, 'function-scanned', f.span + ' ' + f.path, '')
        for c in calls_of(F, f):
            rep.count('calls_scanned')
    for c in all_calls(F):
        if c.d.get('unsafe') and not c.span.startswith('/'):
            pass

IO_PREFIX = ('std::fs::', 'std::io::', 'serde_json::')
def io_calls(F):
    r = []
    for c in all_calls(F):
        p = c.path
        if p.startswith(('std::io::stdout', 'std::io::stderr', 'std::io::_print', 'std::io::_eprint', 'std::io::stdin', 'std::io::stdio')): continue
        if p.startswith(IO_PREFIX): r.append(c)
    return r
OPEN_OK = {'std::fs::File::open', 'std::fs::read', 'std::fs::read_to_string', 'std::fs::metadata', 'std::fs::canonicalize', 'std::fs::exists', 'std::fs::read_dir', 'std::fs::symlink_metadata', 'std::fs::File::metadata',
           'std::fs::Metadata::len', 'std::fs::File::options'}
WRITERS = {'std::fs::write', 'std::fs::File::create', 'std::fs::File::create_new', 'std::fs::create_dir', 'std::fs::create_dir_all', 'std::fs::copy'}
FORBID = ('std::process::Command', 'std::net::', 'std::os::', 'libc::', 'std::process::Child', 'std::env::set_', 'std::env::remove_var', 'std::process::Stdio')
def path_text(st, t, depth=0):
    """constant pieces a path term ends in"""
    t = st.val(t)
    while t.op in ('deref',) or (t.op == 'call' and t.a[0].endswith(('Path::new', 'PathBuf::from', 'as_path'))): t = st.val(t.a[-1]) if t.op == 'call' else t.a[0]
    if t.op == 'str': return 'const', t.a[0]
    if t.op == 'call' and t.a[0].endswith(('Path::join', 'PathBuf::join', 'Path::with_file_name')) and depth < 4:
        k, x = path_text(st, t.a[-2], depth + 1); l, y = path_text(st, t.a[-1], depth + 1)
        if t.a[0].endswith('join') and k == l == 'const': return 'const', y if y.startswith('/') else x.rstrip('/') + '/' + y
        return 'other', t
    if t.op == 'fmt':
        p = fmt_parts(t)
        if p: return 'fmt', p
    if t.op == 'cat':
        parts = []
        while t.op == 'cat': parts.insert(0, t.a[1]); t = t.a[0]
        return 'fmt', [x.a[0] if x.op == 'str' else x for x in [t] + parts]
    return 'other', t
INPUT_EXT = ('.burn',)
@check('S03', 'Who-may-call rule over every call site of the crate: only read-only opens; no delete/rename/copy/permission/process/network call; and a path-partitioned value analysis of the '
       'functions that reach a write shows each written path is a fixed dump name or ends in the fixed extension of assembled databases, never an input path.')
def s03(F, rep, tier):
    writes = []
    for c in all_calls(F):
        p = c.path
        if p.startswith(FORBID): rep.ob(False, 'forbidden-call', f'{c.span} {c.fn.path}', f'calls {p}'); continue
        if p.startswith('std::fs::'):
            if p in OPEN_OK: rep.ob(True, 'read-only', f'{c.span} {c.fn.path}', '')
            elif p in WRITERS: writes.append(c)
            elif p.startswith(('std::fs::OpenOptions', 'std::fs::File::options')):
                meth = p.split('::')[-1]
                if meth in ('write', 'append', 'truncate', 'create', 'create_new', 'read_write'):
                    a = c.args[1] if len(c.args) > 1 else None
                    off = a is not None and a[0] == 'const' and a[1].get('v', {}).get('v') is False
                    rep.ob(off, 'read-only', f'{c.span} {c.fn.path}', f'opens a file with {meth}')
                else: rep.ob(True, 'read-only', f'{c.span} {c.fn.path}', '')
            elif p.startswith(('std::fs::File::', 'std::fs::Metadata', 'std::fs::DirEntry')):
                rep.ob(p.split('::')[-1] not in ('set_len', 'set_permissions', 'set_times', 'set_modified'), 'read-only', f'{c.span} {c.fn.path}', f'calls {p}')
            else: rep.ob(False, 'forbidden-call', f'{c.span} {c.fn.path}', f'calls {p}, which changes the file system')
        else: rep.count('other_call_sites')
    # functions mentioned as values
    for f in non_test(F):
        def scan(x):
            if isinstance(x, list):
                for y in x: scan(y)
            elif isinstance(x, dict):
                if x.get('k') == 'fn' and not x.get('reslocal'):
                    p = norm(x['path'])
                    if p.startswith(FORBID) or (p.startswith('std::fs::') and p not in OPEN_OK and p not in WRITERS and not p.startswith(('std::fs::OpenOptions', 'std::fs::File', 'std::fs::Metadata', 'std::fs::DirEntry'))):
                        rep.ob(False, 'forbidden-call', f'{f.span} {f.path}', f'mentions {p}')
                else:
                    for y in x.values(): scan(y)
        for b in f.blocks:
            if b is not None: scan(b['s'])
    rep.count('write_sites', len(writes))
    # paths written: analyse from the outermost callers so that the path's origin is visible
    wf = {owner(F, c.fn.path) for c in writes}
    rel = reaching(F, {c.fn.path for c in writes})
    roots = [p for p in rel if not (callers(F)[p] - {p})]
    sites = {}
    for r in roots:
        E, outs = run(F, rep, r, opaque={p for p in F.fns if p not in rel and '{closure' not in p}, skip=irrelevant_loops(F, rel, tuple(WRITERS)))
        seen = []
        for s in all_states(outs, E): seen += [(s, e) for e in s.events if e.kind == 'call' and e.name in WRITERS]
        for s, e in seen:
            k, t = path_text(s, e.args[1 if e.name == 'std::fs::copy' else 0])      # the file written
            if k == 'const': ok = not t.endswith(('.burn', '.fmp12', '.rs')) and not t.startswith('/') and '..' not in t
            elif k == 'fmt': ok = isinstance(t[-1], str) and t[-1].endswith('.fmp12') and '..' not in ''.join(x for x in t if isinstance(x, str))
            else: ok = False
            sites.setdefault((e.span, e.fn), []).append((ok, t))
            if k == 'fmt' and ok and not any(x.op == 'str' and x.a[0].endswith('burn') for y in t if not isinstance(y, str) for x in subterms(y)) and not any(v and any(x.op == 'str' and x.a[0].endswith('burn') for x in subterms(f)) for f, v in s.facts):
                ok = False; t = mk('sym', 'a .fmp12 file that may be an input: ' + ' '.join(short(x) for x in t if not isinstance(x, str)))
                sites[(e.span, e.fn)].append((ok, t)); continue
            if k == 'fmt' and ok:
                named = [x for x in t if not isinstance(x, str)]
                arg = any(derived_from_input(x) for x in named)
                sites[(e.span, e.fn)].append((arg, 'name not taken from the input: ' + ' '.join(short(x) for x in named)))
    for (sp, fn), l in sites.items():
        bad = [t for ok, t in l if not ok]
        rep.ob(not bad, 'written-path', f'{sp} {fn}', 'writes to a path that may name an input file or is not one of the program\'s outputs: ' + (short(bad[0]) if bad else ''))
    for c in writes:
        rep.ob((c.span, c.fn.path) in sites or any(sp == c.span for sp, _ in sites) or not reachable(F, c.fn.path), 'write-site-analysed', f'{c.span} {c.fn.path}', 'write site not reached by the analysis')
def reachable(F, p): return p in reach(F, ['main'])
def derived_from_input(t):
    return any(x.op in ('call', 'strip_suffixped', 'phi', 'sym', 'elem', 'fld', 'deref') for x in subterms(t))

@check('S04', 'Path-partitioned dataflow over every function that (transitively) performs file or serialisation I/O, from its outermost callers: on each path that continues or returns normally, '
       'the Result of every I/O call made on it must be known to be Ok (or be handed to the caller as the returned error); an ignored, discarded or defaulted error leaves it unknown.')
def s04(F, rep, tier):
    sites = io_calls(F); rep.count('io_call_sites', len(sites))
    have = {c.fn.path for c in sites}
    rel = reaching(F, have)
    roots = [p for p in rel if not (callers(F)[p] - {p})]
    done = {}
    heavy = {p for p in F.fns if p not in rel and '{closure' not in p}
    def result_of(e): return e.data[1] if e.kind == 'call' and e.data else None
    for r in roots:
        E, outs = run(F, rep, r, opaque=heavy, skip=irrelevant_loops(F, rel, IO_PREFIX + ('std::process::exit',)))
        finals = [(s, v, 'returns') for s, v in outs]
        for L in E.looprecs: finals += [(s, None, 'goes on to the next iteration') for s, _ in L.backs]
        for s in E.panics:
            last = s.events[-1] if s.events else None
            if last is not None and last.kind == 'panic' and last.name in ('exit', 'std::process::exit'): finals.append((s, None, 'exits'))
        for s, v, how in finals:
            for e in s.events:
                if e.kind != 'call' or not e.name.startswith(IO_PREFIX): continue
                x = result_of(e)
                if x is None: continue
                k = (e.span, e.fn, e.name)
                if not returns_result(F, e): continue
                ok = s.decide(eq(discr(x), ZERO)) is True
                if not ok and v is not None and v.op == 'adt' and v.a[0] == RESULT and v.a[1] == 1 and contains(v, x): ok = True
                if not ok and v is not None and contains(v, x): ok = True
                if not ok and how == 'exits' : ok = exit_nonzero(s)
                done.setdefault(k, []).append((ok, how, facts_str(s.facts)))
                if ok and e.name in PARTIAL:
                    n = fld(dc(x, 0), 0)
                    used = any(n in subterms(f) for f, _ in s.facts) or any(n in subterms(v2) for v2 in s.mem.values() if isinstance(v2, T))
                    rep.ob(used or how == 'exits', 'a short transfer is noticed', f'{e.span} {e.fn}', f'{e.name} may transfer only a part of the data, and how much is never looked at', f'short.{e.fn}')
    for k, l in done.items():
        bad = [x for x in l if not x[0]]
        rep.ob(not bad, 'io-result-checked', f'{k[0]} {k[1]}', f'the result of {k[2]} may be an error on a path that {bad[0][1] if bad else ""} ({bad[0][2] if bad else ""})')
    for c in sites:
        if not c_returns_result(F, c): continue
        ok = any(k[0] == c.span and k[2] == c.path for k in done) or not reachable(F, owner(F, c.fn.path))
        if not ok:      # inside a combinator: the result must still be consumed there
            ok = (c.span, c.fn.path) in {(k[0], k[1]) for k in done}
        rep.ob(ok, 'io-site-analysed', f'{c.span} {c.fn.path}', f'{c.path}: no path through this call survived the analysis, or its result is not tracked')
    # buffered writers may lose errors on drop
    for c in all_calls(F):
        if 'BufWriter' in ' '.join(c.atys(F)) + c.path and c.path.endswith('new'): 
            fl = any(d.path.endswith(('flush', 'into_inner')) for d in calls_of(F, c.fn))
            rep.ob(fl, 'buffered-writer-flushed', f'{c.span} {c.fn.path}', 'a buffered writer is dropped without flush; errors are lost')
PARTIAL = {'std::io::Write::write', 'std::io::Read::read', 'std::io::Write::write_vectored', 'std::io::Read::read_vectored'}
def exit_nonzero(s):
    for e in reversed(s.events):
        if e.kind == 'exit' or (e.kind == 'call' and 'exit' in e.name): return bool(e.args) and e.args[0].op == 'int' and e.args[0].a[0] != 0
    return True
def c_returns_result(F, c):
    t = c.fn.locals[c.dest[0]] if len(c.dest) == 1 else None
    return t is not None and F.tstr(t).startswith(('std::result::Result', 'std::io::Result'))
def returns_result(F, e):
    for f in F.fns.values():
        if f.path == e.fn:
            for c in calls_of(F, f):
                if c.span == e.span and c.path == e.name: return c_returns_result(F, c)
    return True

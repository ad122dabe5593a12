"""S02: nothing the program writes or executes depends on hash order, addresses, time, environment or scheduling."""
import re
from lib import *
CHECKS, INFO = {}, {}
def check(pid, info):
    def w(f): CHECKS[pid] = f; INFO[pid] = info; return f
    return w

HASH = re.compile(r'\bHash(Map|Set)<')
HITER = re.compile(r'collections::hash(?:_map|_set|::map|::set|::\w+)::\w+')
def bare(t):
    while t.startswith('&'): t = t[5:] if t.startswith('&mut ') else t[1:]
    return t
def is_hash(t): return bool(re.match(r'(std::collections::)?(hash_\w+::)?Hash(Map|Set)<', bare(t)))
def is_hash_iter(t): return bool(re.search(r'collections::(hash_map|hash_set|hash::map|hash::set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|Difference|Union|Intersection|SymmetricDifference|ExtractIf)\b', t))
# of a hash container: independent of the order its entries are kept in
FREE = {'new', 'with_capacity', 'with_hasher', 'insert', 'get', 'get_mut', 'get_key_value', 'get_or_insert_with', 'contains', 'contains_key', 'remove', 'remove_entry', 'take', 'replace', 'entry', 'len', 'is_empty', 'clear',
        'reserve', 'shrink_to_fit', 'shrink_to', 'index', 'index_mut', 'eq', 'ne', 'clone', 'clone_from', 'clone_into', 'default', 'is_subset', 'is_superset', 'is_disjoint', 'capacity', 'drop', 'swap', 'deref', 'deref_mut',
        'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'from', 'into', 'to_owned', 'unwrap', 'expect', 'as_deref', 'bitor', 'bitand', 'sub', 'bitxor', 'branch', 'push', 'unwrap_or_default', 'hash', 'box_new', 'type_name', 'size_of'}
MAKE_ITER = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'drain', 'into_iter', 'into_keys', 'into_values', 'difference', 'union', 'intersection', 'symmetric_difference', 'extract_if'}
# of a sequence in hash order: keep the order, decide nothing
ADAPT = {'map', 'filter', 'filter_map', 'cloned', 'copied', 'into_iter', 'iter', 'inspect', 'by_ref', 'chain', 'flat_map', 'flatten', 'clone', 'fuse', 'drop', 'size_hint', 'deref', 'as_ref', 'borrow', 'new'}
TOTAL = {'count', 'any', 'all', 'min', 'max', 'sum', 'product', 'len', 'is_empty', 'eq_unordered'}
ORDERED = {'enumerate', 'zip', 'take', 'skip', 'nth', 'step_by', 'rev', 'last', 'scan', 'take_while', 'skip_while', 'map_while', 'fold', 'reduce', 'try_fold', 'partition', 'unzip', 'cmp', 'partial_cmp', 'chunks'}
UNORDERED_DEST = re.compile(r'^(std::collections::)?((hash_\w+|btree_\w+)::)?(HashMap|HashSet|BTreeMap|BTreeSet|BinaryHeap)<')

def holds_hash(F, ti, seen):
    """Does a value of this type contain a hash container (through the fields of the crate's own types)?"""
    if isinstance(ti, int):
        s = F.tstr(ti); t = F.ty(ti)
    else: return False
    if HASH.search(s): return True
    if s in seen: return False
    seen.add(s)
    for w in re.findall(r'[A-Za-z_][\w:]*', s):
        a = F.adts.get(w)
        if not a or not a.get('local') or w in seen: continue
        seen.add(w)
        for v in a['variants']:
            for f in v['fields']:
                if f[1] is not None and holds_hash(F, f[1], seen): return True
    return False

NONDET = [(r'^(std::time::(SystemTime|Instant)::(now|elapsed)|std::time::\w+::now|chrono::(offset::)?(Local|Utc|Local::today|Utc::today)::(now|today)|chrono::\w+::now)', 'the time of the run'),
          (r'^std::env::(var|vars|var_os|vars_os|current_dir|temp_dir|current_exe|home_dir)$', 'the environment of the run'),
          (r'^std::process::id$', 'the process number'), (r'^std::thread::(current|available_parallelism)|^std::thread::ThreadId|ThreadId::', 'the thread it runs on'),
          (r'RandomState|^std::hash::random|^rand(_core|_chacha)?::|^getrandom::|^fastrand::|^uuid::', 'a random value'),
          (r'^std::fs::(read_dir|Metadata::(modified|accessed|created))', 'the state of the file system'),
          (r'(const_ptr|mut_ptr|NonNull)::(addr|expose_provenance|to_bits)$|^std::ptr::(addr_eq|hash)$|Argument::new_pointer$', 'the address of a value')]
THREAD = re.compile(r'^std::thread::(spawn|scope|Builder)|^std::sync::mpsc::|^rayon::|^tokio::|^crossbeam')

def aliases(fn, start):
    """Locals a value moves to (by move, copy, reference or deref) from the local it is produced in."""
    al = {start}; ch = True
    while ch:
        ch = False
        for b in fn.blocks:
            if b is None: continue
            for s in b['s']:
                if s[0] != '=': continue
                d = s[1][0]
                if d in al: continue
                if mentions(s[2], al): al.add(d); ch = True
            t = b['t']
            if t[0] == 'call' and t[1][0] == 'const' and t[1][1].get('k') == 'fn' and norm(t[1][1]['path']).split('::')[-1] in ('deref_mut', 'deref', 'as_mut_slice', 'as_mut', 'into_iter', 'borrow_mut', 'unwrap', 'make_contiguous'):
                if t[3] and t[3][0] not in al and t[2] and mentions(t[2][0], al): al.add(t[3][0]); ch = True
    return al
def mentions(x, al):
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ('copy', 'move') and isinstance(x[1], list): return x[1][0] in al
        if x and x[0] in ('ref', 'rawptr'):
            return any(isinstance(y, list) and y and isinstance(y[0], int) and y[0] in al for y in x[1:])
        if x and x[0] in ('use', 'cast', 'agg', 'reborrow', 'copyforderef'): return any(mentions(y, al) for y in x[1:])
        return any(mentions(y, al) for y in x if isinstance(y, list))
    return False

@check('S02', 'Whole-crate rules over every call site, cast and serialised type: nothing iterates over a hash container unless the result does not depend on the order (an order-free reduction, a keyed or ordered '
       'container, or a sequence that is then sorted); no serialised or debug-printed type contains one; no call reads the clock, environment, addresses, directory order or randomness (a calculation that asks for '
       'the time aside); no threads; every output file is written whole.')
def s02(F, rep, tier):
    limits = []
    for f in non_test(F):
        rep.count('functions_scanned')
        for i, b in enumerate(f.blocks):
            if b is None: continue
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'cast':
                    rep.count('casts')
                    if 'Expose' in s[2][1]: rep.ob(False, 'no-address', f'{f.span} {f.path}', 'an address is turned into a number')
    for c in all_calls(F):
        rep.count('call_sites')
        f, p, m = c.fn, c.path, c.path.split('::')[-1]
        where = f'{c.span} {f.path}'
        for rx, what in NONDET:
            if re.search(rx, p):
                rep.ob(asked_for_time(F, c) and 'time' in what, 'reproducible-source', where, f'calls {p}: the result depends on {what}')
        if THREAD.search(p): limits.append(f'{where}: work is handed to another thread ({p})')
        if p.startswith('std::fs::OpenOptions::') and m in ('append', 'write'):
            on = not (len(c.args) > 1 and c.args[1][0] == 'const' and c.args[1][1].get('v', {}).get('v') is False)
            whole = m == 'write' and any(d.path in ('std::fs::OpenOptions::truncate', 'std::fs::OpenOptions::create_new') and not (d.args[1][0] == 'const' and d.args[1][1].get('v', {}).get('v') is False) for d in calls_of(F, f))
            rep.ob(not on or whole, 'written-whole', where, 'a file is opened for writing without discarding what an earlier run left in it')
        if p in ('std::fs::File::create', 'std::fs::write'): rep.ob(True, 'written-whole', where, '')
        if p.startswith('serde_json::') or 'Serializer' in p:
            for t in c.d.get('targs', []):
                bad = holds_hash(F, t, set())
                rep.ob(not bad, 'serialised-type-ordered', where, f'{F.tstr(t)}, which is written out, contains a hash container, whose order is different in every run')
        if p.endswith('Argument::new_debug'):
            t = c.d.get('targs', [None])[0]
            if t is not None and holds_hash(F, t, set()): rep.ob(False, 'printed-type-ordered', where, f'{F.tstr(t)} is printed and contains a hash container, whose order is different in every run')
        at = c.atys(F)
        hs = [k for k, t in enumerate(at) if is_hash(t)]
        hi = [k for k, t in enumerate(at) if is_hash_iter(bare(t)) and not is_hash(t)]
        if not hs and not hi: continue
        rep.count('hash_container_calls')
        if c.local and not hi: continue
        if hs and not hi:
            if hs == [0] and (m in FREE or m == 'extend' and len(at) > 1) or m in FREE: rep.ob(True, 'order-free', where, ''); continue
            if hs == [0] and m in MAKE_ITER: rep.ob(True, 'iteration-seen', where, ''); continue
            if hs == [0] and m == 'retain':
                limits.append(f'{where}: retain visits the entries in hash order'); continue
        # a sequence in hash order is used
        consume(F, rep, c, m, at, hi or hs, where, limits)
    if limits: raise Limit(limits[0])

def asked_for_time(F, c):
    """The time is read for a calculation (Get(CurrentTime) and its like), whose result is defined to depend on it."""
    g = callers(F); seen = set(); w = [owner(F, c.fn.path)]
    ev = {p for p in F.fns if p.startswith('testing::') and p.split('::')[-1] in ('evaluate', 'eval_calculation')}
    while w:
        p = w.pop()
        if p in seen or p in ev: continue
        seen.add(p)
        if p == 'main': return False
        w.extend(g.get(p, ()))
    return True

def consume(F, rep, c, m, at, ks, where, limits):
    f = c.fn
    if m in TOTAL: rep.ob(True, 'order-free', where, ''); return
    if m in ADAPT:
        rep.ob(True, 'iteration-seen', where, ''); return
    if m in ('collect', 'from_iter', 'extend', 'from', 'into', 'append', 'to_vec'):
        dt = bare(at[0]) if m in ('extend', 'append') else F.tstr(f.locals[c.dest[0]]) if c.dest else ''
        if UNORDERED_DEST.match(bare(dt)): rep.ob(True, 'order-free', where, ''); return
        if m in ('extend', 'append'): 
            srt = False
        else: srt = sorted_after(F, f, c)
        if srt == 'by': limits.append(f'{where}: sorted by a key that may leave entries in hash order'); return
        rep.ob(bool(srt), 'no-hash-order', where, f'the entries of a hash container are gathered into {dt} in hash order, which is different in every run'); return
    if m == 'next':
        body(F, rep, c, where, limits); return
    if m in ('for_each', 'try_for_each'):
        for t in c.aty:
            ty = F.ty(t)
            if ty['k'] == 'closure':
                q = norm(ty['def'])
                if q in F.fns: check_calls(F, rep, F.fns[q], range(len(F.fns[q].blocks)), where, limits); return
        limits.append(f'{where}: closure not found'); return
    if m in ORDERED or m in ('new_debug', 'new_display', 'join', 'concat'):
        rep.ob(False, 'no-hash-order', where, f'{m} on the entries of a hash container: their order is different in every run'); return
    limits.append(f'{where}: {m} on the entries of a hash container')

def sorted_after(F, f, c):
    al = aliases(f, c.dest[0]); r = None
    for d in calls_of(F, f):
        mm = d.path.split('::')[-1]
        if mm.startswith('sort') and d.args and mentions(d.args[0], al):
            if mm in ('sort', 'sort_unstable'): return True
            r = 'by'
    return r

def loop_blocks(f, bb):
    """Blocks of the innermost loop the block is in (blocks that reach it and that it reaches)."""
    succ = {}
    for i, b in enumerate(f.blocks):
        if b is None: continue
        succ[i] = f.succs(i)
    fw = set(); w = list(succ.get(bb, ()))
    while w:
        x = w.pop()
        if x in fw or x not in succ: continue
        fw.add(x); w.extend(succ[x])
    pred = {}
    for i, l in succ.items():
        for j in l: pred.setdefault(j, set()).add(i)
    # the loop this iterator drives: its blocks come back to this call without leaving
    bw = set(); w = list(pred.get(bb, ()))
    while w:
        x = w.pop()
        if x in bw: continue
        bw.add(x)
        if x != bb: w.extend(pred.get(x, ()))
    return fw & bw
def body(F, rep, c, where, limits):
    f = c.fn; bl = loop_blocks(f, c.bb)
    if not bl: rep.ob(False, 'no-hash-order', where, 'takes whichever entry of a hash container comes first: it is different in every run'); return
    check_calls(F, rep, f, bl, where, limits, c)

QUIET = {'insert', 'get', 'get_mut', 'entry', 'or_insert', 'or_insert_with', 'or_default', 'and_modify', 'contains', 'contains_key', 'remove', 'index', 'next', 'deref', 'deref_mut', 'as_mut', 'borrow_mut', 'index_mut', 'unwrap', 'expect', 'clear', 'iter_mut',
         'values_mut', 'as_mut_slice', 'add_assign', 'bitor_assign', 'into_iter', 'drop', 'clone_from', 'branch', 'from_residual', 'by_ref', 'sort', 'sort_unstable', 'get_or_insert_with'}
def check_calls(F, rep, f, bl, where, limits, c=None):
    n = 0; seen = False
    for d in calls_of(F, f):
        if d.bb not in bl or c is not None and d.bb == c.bb: continue
        m = d.path.split('::')[-1]; at = d.atys(F)
        if d.path.startswith(('std::io::', 'std::fs::')) or d.path.endswith(('_print', '_eprint')):
            seen = True; rep.ob(False, 'no-hash-order', where, f'each entry of a hash container is written out (at {d.span}) in hash order, which is different in every run'); continue
        mut = [t for t in at if t.startswith('&mut ') and not is_hash_iter(t)]
        if mut and m not in QUIET and not UNORDERED_DEST.match(bare(mut[0])):
            if 'fmt::Formatter' in mut[0] or is_hash(mut[0]): continue
            seen = True
            rep.ob(False, 'no-hash-order', where, f'each entry of a hash container goes, in hash order, into {bare(mut[0])} through {d.path} (at {d.span}): the order is different in every run'); continue
        n += 1
    if not seen: limits.append(f'{where}: a loop over a hash container whose effect was not shown to be independent of the order')

"""C01, C05, C06, C08 and the decoding half of D04: the decompiler as a transition system.  One iteration of the chunk loop is analysed
with an arbitrary chunk and an arbitrary directory; every elementary change of the decoded file is extracted from the path it happens on."""
from lib import *
import re
CHECKS, INFO = {}, {}
DEC = 'decompile::decompiler::decompile_fmp12_file'
GET = 'chunk::get_chunk_from_code'
OPAQUE = {'encoding_util::fm_string_decrypt', 'decompile::sector::get_sector', 'decompile::decompiler::decompile_calculation', 'dbcharconv::decode_bytes',
          'component::SourceFileLocation::from_bytes', 'encoding_util::get_path_int', 'encoding_util::get_int'}
MAPN = 'fm_script_engine::fm_script_engine_instructions::INSTRUCTIONMAP'
INS = 'fm_script_engine::fm_script_engine_instructions::Instruction'
PATH, CHUNK0 = mk('sym', 'PATH'), mk('sym', 'CHUNK')

class Model:
    """The analysed decompiler."""
    def __init__(self, F, rep):
        import p_chunk
        if GET not in F.fns or DEC not in F.fns: raise Limit('the decompiler entry points are gone')
        ci, oi, pi = p_chunk.args_of(F, F.fns[GET])
        if None in (ci, oi, pi): raise Limit('the chunk decoder has an unexpected signature')
        self.F = F; self.calls = []; cf = F.field('chunk::Chunk', 'path')
        self.C = setfld(CHUNK0, cf, PATH)
        def hook(E, fr, st, path, args, d):
            op, pp_ = st.deref(args[oi]), st.deref(args[pi])
            off0, path0 = st.read(op), st.read(pp_)
            off1 = mk('call', 'next_offset', st.val(args[ci]), off0)
            E.event(st, 'call', GET, (off0, path0), (op, pp_, off1))
            bad = st.fork(); bad.write(op, mk('call', 'error_offset', st.val(args[ci]), off0)); bad.write(pp_, PATH)      # where a rejected chunk leaves the position: anywhere not before it
            st.write(op, off1); st.write(pp_, PATH)
            return [(st, OK(self.C)), (bad, ERR(mk('sym', 'CHUNKERR')))]
        self.E, self.outs = run(F, rep, DEC, opaque=OPAQUE & set(F.fns), hooks={GET: hook})
        fi = lambda n: fld(CHUNK0, F.field('chunk::Chunk', n))
        self.ctype, self.data, self.ref, self.seg = fi('ctype'), fi('data'), fi('ref_simple'), fi('segment_idx')
        self.DATA = mk('deref', fld(dc(self.data, 1), 0))
        self.kinds = [v['name'] for v in F.adts['chunk::ChunkType']['variants']]
        self.effs = []
        seen = set()
        for st, ret in self.outs:
            for e in effects(st, None, ret):
                k = (id(e.st), e.path, e.val)
                if k not in seen: seen.add(k); self.effs.append(e)
    # -- typing of access paths
    def names(self, path, root='file::FmpFile'):
        """('tables/*/fields/*/field_name', [keys])"""
        F = self.F; ty = {'k': 'adt', 'def': root, 'args': []}; out = []; keys = []
        for e in path:
            if e[0] == 'f':
                d = norm(ty.get('def', '')); a = F.adts.get(d)
                if a is None or not a['variants']: out.append(f'f{e[1]}'); ty = {'k': '?'}; continue
                f = a['variants'][0]['fields'][e[1]]; out.append(f[0]); ty = F.ty(f[1]) if len(f) > 1 and isinstance(f[1], int) else {'k': '?'}
            else:
                out.append('*'); keys.append(e[1])
                ty = F.ty(ty['args'][1 if e[0] == 'k' else 0]) if ty.get('args') else {'k': '?'}
        return '/'.join(out), keys
    # -- conditions
    def at(self, st, pat):
        """does the path condition entail that the directory is pat?"""
        rest = pat[-1] == '**'; fixed = pat[:-1] if rest else pat
        n = INT(len(fixed)); L = length(PATH)
        if rest:
            if st.decide(lt(L, n, True)) is not False: return False
        elif st.decide(eq(L, n)) is not True: return False
        return all(x == '*' or st.decide(eq(elem(PATH, INT(i)), STR(x))) is True for i, x in enumerate(fixed))
    def kind(self, st, name): return st.decide(eq(discr(self.ctype), INT(self.kinds.index(name)))) is True
    def refis(self, st, n):
        return st.decide(eq(discr(self.ref), ONE)) is True and st.decide(eq(fld(dc(self.ref, 1), 0), INT(n))) is True
    def num(self, st, t, i, off=0):
        """is t the number written in directory element i, plus off?"""
        if t.op == 'rem' and t.a[1].op == 'int' and t.a[1].a[0] >= 65536: t = t.a[0]
        t = sub(t, INT(off)) if off else t
        if t.op == 'fld' and t.a[1] == 0: t = t.a[0]
        if t.op == 'dc': t = t.a[0]
        return t.op in ('parse', 'call') and 'parse' in ([t.op] + [str(x) for x in t.a if isinstance(x, str)])[0 if t.op == 'parse' else -1].split('::')[-1] and t.a[-1] is elem(PATH, INT(i))
    def text(self, v): return v.op == 'call' and v.a[0] == 'encoding_util::fm_string_decrypt' and (v.a[-1] is self.DATA or isconst(v.a[-1]) or (v.a[-1].op == 'ref' and isconst(v.a[-1].a[0][1] if isinstance(v.a[-1].a[0], tuple) else v.a[-1])))
    def calc(self, v): return v.op == 'call' and v.a[0] == 'decompile::decompiler::decompile_calculation' and v.a[-1] is self.DATA

def model(F, rep):
    if not hasattr(F, '_decomp'): F._decomp = Model(F, rep)
    M = F._decomp
    rep.engine(M.E, M.outs)
    return M

def expand(M, e):
    """constructing a component: one event for the component, one per attribute that is not constant"""
    yield e
    v = e.val; at = e.path + ((('e', length(e.base)),) if e.kind == 'push' and e.base is not None else (('e', ZERO),) if e.kind == 'push' else ())
    if e.kind in ('put', 'push') and v.op == 'adt' and len(v.a) > 2:
        for i, x in enumerate(v.a[2:]):
            if isconst(x) or x.op in ('map0', 'set0') or x.op == 'vec' and not x.a: continue
            sub_ = effects(e.st, None, x) if x.op in ('mset', 'push', 'adt', 'upd') else []
            if sub_ and all(s.path or s.kind == 'push' for s in sub_):
                for s in sub_: yield from expand(M, Eff(at + (('f', i),) + s.path, s.kind, s.val, e.st, e.loop, s.base))
            else: yield Eff(at + (('f', i),), 'set', x, e.st, e.loop, e.base)

COMPARE = {0: 'Equal', 1: 'NotEqual', 2: 'Less', 3: 'LessEqual', 4: 'Greater', 5: 'GreaterEqual', 6: 'Cartesian'}
FIELD = [('*', '3', '5', '*')]
OCC = [('3', '17', '5', '0', '**')]

def c05(F, rep, tier):
    M = model(F, rep)
    rep.notes = ['the directory and chunk handed to the decompiler are those of the chunk decoder (C02)', 'occurrences and relationships are numbered by how many there are already; the file does not name them by path']
    CT = 'table_occurrences'; J = lambda i, off=0: (lambda st, k, e: M.num(st, k, i, off))
    def count1(st, k, e): return e.base is not None and k is add(length(e.base), ONE)
    def last(st, k, e):
        m = e.base.a[0] if e.base is not None and e.base.op == 'mget' else None
        return m is not None and k is length(m)
    def byte(i): return lambda st, v: v is elem(M.DATA, INT(i))
    def pint(lo, off):
        return lambda st, v: (lambda x: x.op == 'call' and x.a[0] == 'encoding_util::get_path_int' and x.a[-1] is slice_(M.DATA, INT(lo), INT(lo + 2)))(add(v.a[0] if v.op == 'rem' else v, INT(off)))
    anyv = lambda st, v: True
    text = lambda st, v: M.text(v)
    R = [  # label, directories, chunk kind, reference key, checks of the identifiers, check of the value
        ('tables/*', [('*', '3', '5', '*')], 'PathPush', None, [J(0, -128)], anyv),
        ('tables/*', [('3', '16', '5', '*')], 'PathPush', None, [J(3, -128)], anyv),
        ('tables/*/table_name', [('3', '16', '5', '*')], None, 16, [J(3, -128)], text),
        ('tables/*/fields/*', FIELD, 'PathPush', None, [J(0, -128), J(3)], anyv),
        ('tables/*/fields/*/field_type', FIELD, None, 2, [J(0, -128), J(3)], text),
        ('tables/*/fields/*/field_description', FIELD, None, 3, [J(0, -128), J(3)], text),
        ('tables/*/fields/*/field_name', FIELD, None, 16, [J(0, -128), J(3)], text),
        ('tables/*/fields/*/created_by_account', FIELD, None, 129, [J(0, -128), J(3)], text),
        ('tables/*/fields/*/created_by_user', FIELD, None, 130, [J(0, -128), J(3)], text),
        (CT + '/*', OCC, None, 2, [count1], anyv),
        (CT + '/*/table_actual', OCC, None, 2, [count1], byte(6)),
        (CT + '/*/table_occurence_name', OCC, None, 16, [last], text),
        ('relationships/*', [('3', '17', '5', '0', '251')], 'DataSimple', None, [count1], anyv),
        ('relationships/*/table1', [('3', '17', '5', '0', '251')], 'DataSimple', None, [count1], lambda st, v: (lambda x: x.op == 'len')(v.a[0] if v.op == 'rem' else v)),
        ('relationships/*/table2', [('3', '17', '5', '0', '251')], 'DataSimple', None, [count1], byte(2)),
        ('relationships/*/comparison', [('3', '251', '5', '*', '3')], None, 1, [J(3)], anyv),
        ('relationships/*/field1', [('3', '251', '5', '*', '3')], None, 1, [J(3)], pint(2, 128)),
        ('relationships/*/field2', [('3', '251', '5', '*', '3')], None, 1, [J(3)], pint(5, 128)),
        ('layouts/*', [('4', '1', '7', '*', '**')], 'PathPush', None, [J(3)], anyv),
        ('layouts/*/table_occurrence', [('4', '1', '7', '*', '**')], None, 2, [J(3)], lambda st, v: v is sub(elem(M.DATA, ONE), INT(128))),
        ('layouts/*/layout_name', [('4', '1', '7', '*', '**')], None, 16, [J(3)], text),
        ('scripts/*', [('17', '1', '*', '*', '**')], 'RefSimple', 16, [J(3)], anyv),
        ('scripts/*/script_name', [('17', '1', '*', '*', '**')], 'RefSimple', 16, [J(3)], text),
        ('data_sources/*', [('32', '5', '*', '**')], 'PathPush', None, [lambda st, k, e: k.op == 'call' and k.a[0] == 'encoding_util::get_int' and k.a[-1] is M.DATA], anyv),
        ('data_sources/*/source_name', [('32', '5', '*', '**')], 'PathPush', None, [lambda st, k, e: True], anyv),
        ('data_sources/*/source_location', [('32', '5', '*', '**')], 'RefSimple', 130, [J(2)], lambda st, v: v.op == 'call' and v.a[0].endswith('from_bytes') and v.a[-1] is M.DATA),
        ('data_sources/*/created_by_user', [('32', '5', '*', '**')], 'RefSimple', 130, [J(2)], text),
    ]
    # arguments of script steps, and the steps themselves
    STEPS = 'scripts/*/instructions'
    used = set()
    tape = set()
    for e0 in M.effs:
        for e in expand(M, e0):
            label, keys = M.names(e.path); st = e.st
            W = where(M, e); key = label.replace('/', '.')
            if label == STEPS and e.kind in ('push', 'append', 'put') or (label == STEPS + '/*' ):
                k = keys[0]
                if k.op == 'keyat': tape.add((e.st, k)); continue
                rep.ob(M.at(st, ('17', '5', '*', '**')) and M.num(st, k, 2), 'script steps come from the directory of that script', W, f'steps are added to script {short(k)} on the path ' + facts_str(st.facts), key)
                used.add(STEPS); continue
            if label.startswith(STEPS + '/*/') or label == STEPS:
                if label.startswith(STEPS + '/*/') and e0.kind == 'push' and M.names(e0.path)[0] == STEPS: continue   # part of a new step (C06)
                if label != STEPS + '/*/switches' and not label.startswith(STEPS + '/*/switches'):
                    rep.ob(False, 'only documented attributes are decoded', W, f'{e!r} changes {label}', key); continue
                k = keys[0]; m = e.base
                ix = step_index(M, e)
                forms = [(('17', '5', '*', '5', '*', '128'), 1, M.text), (('17', '5', '*', '5', '*', '128', '5'), 5, lambda v: M.text(v) or M.calc(v)), (('17', '5', '*', '5', '*', '129', '5'), 5, M.calc)]
                hit = [f for f in forms if M.at(st, f[0])]
                ok = bool(hit) and e.kind == 'push' and M.refis(st, hit[0][1]) and hit[0][2](e.val) and M.num(st, k, 2)
                rep.ob(ok, 'step arguments come from the directory of that step', W, f'{e!r} on the path ' + facts_str(st.facts), key)
                rep.ob(ix is not None and any(M.num(st, x, 4) for x in ix), 'step arguments are added to the step with that number', W, f'{e!r}: the step is not the one numbered by the directory', key + '.step')
                used |= {f[0] for f in hit}
                continue
            rs = [r for r in R if r[0] == label]
            if not rs:
                rep.ob(False, 'only documented attributes are decoded', W, f'{e!r} changes {label}, which is not decoded from any documented place', key); continue
            okr = None
            for r in rs:
                if any(M.at(st, p) for p in r[1]): okr = r
            if not rep.ob(okr is not None, 'documented directory', W, f'{label} is changed on a path that does not imply the directory is {" or ".join(str(list(p)) for r in rs for p in r[1])}: ' + facts_str(st.facts, 8), key): continue
            used.add((okr[0], okr[1][0]))
            if okr[2]: rep.ob(M.kind(st, okr[2]), 'documented chunk kind', W, f'{label} is decoded from a chunk that need not be {okr[2]}: ' + facts_str(st.facts, 8), key + '.kind')
            if okr[3] is not None: rep.ob(M.refis(st, okr[3]), 'documented reference key', W, f'{label} is decoded although the key need not be {okr[3]}: ' + facts_str(st.facts, 8), key + '.ref')
            for chk, k in zip(okr[4], keys): rep.ob(chk(st, k, e), 'identifier given by the directory', W, f'{label} is stored under {short(k)}', key + '.id')
            if e.kind == 'set': rep.ob(okr[5](st, e.val), 'value taken from the chunk', W, f'{label} becomes {short(e.val)}', key + '.value')
            if label in ('tables/*', 'scripts/*', 'tables/*/fields/*') and e.kind == 'put' and label != 'tables/*/fields/*':
                fresh = e.base is not None and any(st.decide(mk('has', e.base, keys[-1])) is False for _ in [0])
                rep.ob(fresh, 'a component already decoded is not replaced', W, f'{label} under {short(keys[-1])} is created without knowing that there is none yet', key + '.fresh')
    for st, k in tape: tape_ok(M, rep, st, k)
    for r in R: rep.ob((r[0], r[1][0]) in used, 'every documented attribute is decoded', DEC, f'nothing decodes {r[0]} from {list(r[1][0])}', r[0].replace('/', '.') + '.missing')
    for f in (STEPS, ('17', '5', '*', '5', '*', '128'), ('17', '5', '*', '5', '*', '128', '5'), ('17', '5', '*', '5', '*', '129', '5')):
        rep.ob(f in used, 'every documented attribute is decoded', DEC, f'nothing decodes {f}', 'steps.missing')
    rep.ob(bool(tape), 'every documented attribute is decoded', DEC, 'segmented scripts are not decoded', 'segments.missing')
    rep.count('changes_of_the_decoded_file', len(M.effs))
    takes_effect(M, rep, R)
    arguments_taken(M, rep)
    queue(M, rep)
CHECKS['C05'] = c05
INFO['C05'] = 'every elementary change of the FmpFile built by decompile_fmp12_file (found by following the returned value back through all loops) is matched against the documented directory, chunk kind, key, identifier and value; the path condition must entail them.'
CODE6 = {'data_sources/*/source_location': True, 'data_sources/*/created_by_user': False}
def takes_effect(M, rep, R):
    """every documented record takes effect: an iteration that reads one, for a component that exists, changes the attribute"""
    done = {}
    for e0 in M.effs:
        for e in expand(M, e0): done.setdefault(id(e.st), []).append((M.names(e.path)[0], e.val))
    code = fld(CHUNK0, M.F.field('chunk::Chunk', 'code')); n = 0
    for label, dirs, kind, ref, ids, val in R:
        if label.startswith('relationships/*') and label.split('/')[-1] not in ('comparison', 'field1', 'field2'): continue      # C11
        for L in chunk_loops(M):
            for b, _ in L.backs:
                if label in [x for x, _ in done.get(id(b), ())] or label == 'scripts/*/script_name' and 'scripts/*' in [x for x, _ in done.get(id(b), ())]: continue
                for d in dirs:
                    rest = d[-1] == '**'; fixed = d[:-1] if rest else d; ln = INT(len(fixed))
                    conds = [NOT(lt(length(PATH), ln, True)) if rest else eq(length(PATH), ln)] + [eq(elem(PATH, INT(i)), STR(x)) for i, x in enumerate(fixed) if x != '*']
                    conds.append(eq(discr(M.ctype), INT(M.kinds.index(kind or 'RefSimple'))))      # only these records have a simple reference (C02)
                    if ref is not None: conds += [eq(discr(M.ref), ONE), eq(fld(dc(M.ref, 1), 0), INT(ref))]
                    if label in CODE6: conds.append(eq(code, INT(6)) if CODE6[label] else NOT(eq(code, INT(6))))
                    if not any(e.kind == 'call' and e.name == GET for e in b.events[L.nev:]) or not possible(b, *conds): continue
                    if dirs == OCC and not possible(b, *conds, eq(length(PATH), INT(4))) and not possible(b, *conds, NOT(eq(elem(PATH, INT(4)), STR('251')))): continue      # relationships
                    n += 1
                    if excused(M, b, label, dirs, ids): continue
                    rep.ob(False, 'every documented record takes effect', f'{M.F.fns[DEC].span} {DEC}', f'a record for {label} in {list(d)} changes nothing on the path ' + facts_str(b.facts[L.nf:], 10), label.replace('/', '.') + '.ignored')
    rep.ob(True, 'every documented record takes effect', DEC, '', 'takes_effect'); rep.count('paths_without_effect', n)
def arguments_taken(M, rep):
    """a stored argument that belongs to the kind of its step is added to the step"""
    SS = 'fm_script_engine::fm_script_engine_instructions::ScriptStep'
    names = {v['name']: v['discr'] for v in M.F.adts[INS]['variants']}; oc = M.F.field(SS, 'opcode'); ix = M.F.field(SS, 'index')
    got = {}
    for e0 in M.effs:
        for e in expand(M, e0):
            if M.names(e.path)[0].startswith(STEPS + '/*/switches') and e.kind == 'push': got.setdefault(id(e.st), []).append(e.val)
    W = f'{M.F.fns[DEC].span} {DEC}'; n = 0
    for d, ref, kinds in ((('17', '5', '*', '5', '*', '128'), 1, {'SetVariable': M.text}), (('17', '5', '*', '5', '*', '128', '5'), 5, {'SetVariable': M.text, 'ExitScript': M.calc}), (('17', '5', '*', '5', '*', '129', '5'), 5, None)):
        conds = [eq(length(PATH), INT(len(d)))] + [eq(elem(PATH, INT(i)), STR(x)) for i, x in enumerate(d) if x != '*']
        conds += [eq(discr(M.ctype), INT(M.kinds.index('RefSimple'))), eq(discr(M.ref), ONE), eq(fld(dc(M.ref, 1), 0), INT(ref))]
        for L in chunk_loops(M):
            for b, _ in L.backs:
                if not any(e.kind == 'call' and e.name == GET for e in b.events[L.nev:]) or not possible(b, *conds): continue
                n += 1; vals = got.get(id(b), [])
                ops = {discr(x) for f, _ in b.facts[L.nf:] for x in subterms(f) if x.op == 'fld' and x.a[1] == oc and x.a[0].op == 'elem'}
                searched = any(e.kind == 'loop' for e in b.events[L.nev:]) or ops
                hit = ops or any(v and f.op == 'eq' and any(M.num(b, x, 4) for x in f.a) and any(x.op == 'fld' and x.a[1] == ix for x in f.a) for f, v in b.facts[L.nf:])
                for k, ok in (kinds or {None: M.calc}).items():
                    if k and ops and not all(possible(b, *conds, eq(o, INT(names[k]))) for o in ops): continue
                    if not vals:
                        if searched and not hit: continue      # no step has that number
                        rep.ob(False, 'stored arguments reach their step', W, f'the argument {ref} in {list(d)} of a {k or "step"} is dropped on the path ' + facts_str(b.facts[L.nf:], 12), f'args.{d[-2]}.{d[-1]}.{k}')
                    elif k is None or ops: rep.ob(len(vals) == 1 and ok(vals[0]), 'stored arguments reach their step', W, f'the argument {ref} in {list(d)} of a {k or "step"} becomes {[short(v) for v in vals]}', f'args.{d[-2]}.{d[-1]}.{k}.value')
    rep.count('argument_paths', n)
def queue(M, rep):
    """data sources take the names stored in the file in order"""
    W = f'{M.F.fns[DEC].span} {DEC}'; Ls = chunk_loops(M)
    qs = set()
    for e0 in M.effs:
        for e in expand(M, e0):
            if M.names(e.path)[0] != 'data_sources/*/source_name': continue
            v = e.val
            if v.op == 'clone': v = v.a[0]
            if v.op != 'elem' or v.a[0].op != 'phi': raise Limit(f'data sources take their name from {short(v)}')
            qs.add(v)
    conds = [eq(length(PATH), INT(3))] + [eq(elem(PATH, INT(i)), STR(x)) for i, x in enumerate(('32', '1', '1'))] + [eq(discr(M.ctype), INT(M.kinds.index('DataSimple')))]
    for v in qs:
        q, p = v.a
        L = next((l for l in Ls if q in l.phis), None)
        if L is None: raise Limit('the stored names are kept in an unrecognised form')
        if p is not ZERO and p not in L.phis:
            rep.ob(False, 'names are taken in stored order', W, f'a data source takes name {short(p)} of those not yet taken', 'queue.order'); continue
        i = L.phis[q][1]
        outer = any(e.kind == 'loop' and e.data.lid == L.lid for R in M.E.looprecs if R.lid != L.lid for b, _ in R.backs for e in b.events[R.nev:])
        rep.ob(i.op == 'phi' or not outer, 'names are taken in stored order', W, 'names stored in one sector are forgotten before the next one', 'queue.sectors')
        if i.op == 'phi' and loop_of(M.outs[0][0], i) is not None: i = loop_of(M.outs[0][0], i).phis[i][1]
        rep.ob(i.op == 'vec' and not i.a or i.op == 'phi', 'names are taken in stored order', W, f'the list of names starts as {short(i)}', 'queue.start')
        for b, u in L.backs:
            took = v in [x.a[0] if x.op == 'clone' else x for e0 in M.effs if e0.st is b for e in expand(M, e0) if M.names(e.path)[0] == 'data_sources/*/source_name' for x in [e.val]]
            here = M.at(b, ('32', '1', '1')) and M.kind(b, 'DataSimple')
            x = u[q]
            name = x.op == 'push' and x.a[0] is q and x.a[1].op == 'call' and x.a[1].a[0] == 'dbcharconv::decode_bytes' and x.a[1].a[-1] is M.DATA
            if took:
                good = (x in (slice_(q, ONE, length(q)), slice_(q, ONE, None)) if p is ZERO else x is q and u[p] is add(p, ONE))
                rep.ob(good, 'names are taken in stored order', W, f'after a data source took its name, the names left are {short(x)}', 'queue.take'); continue
            rep.ob(x is q or name and here, 'names are taken in stored order', W, f'the names become {short(x)} on the path ' + facts_str(b.facts[L.nf:]), 'queue.add')
            if p is not ZERO: rep.ob(u[p] is p, 'names are taken in stored order', W, f'names are skipped: the next one is {short(u[p])}', 'queue.skip')
            if possible(b, *conds): rep.ob(name or not any(e.kind == 'call' and e.name == GET for e in b.events[L.nev:]), 'names are taken in stored order', W, 'a stored name is dropped on the path ' + facts_str(b.facts[L.nf:]), 'queue.drop')
def excused(M, b, label, dirs, ids):
    """the component does not exist (or exists already), the directory is not that of a table, or no name is left for a data source"""
    new = label.endswith('/*')
    for f, v in b.facts:
        if f.op == 'has' and v is new and any(M.num(b, f.a[1], i, off) for i in range(5) for off in (0, -128)): return True
        if dirs == FIELD and f.op == 'lt' and (f.a[1] is INT(128) and v and M.num(b, f.a[0], 0) or f.a[0] is INT(127) and not v and M.num(b, f.a[1], 0)): return True
        if label in ('data_sources/*', 'data_sources/*/source_name') and v and f.op == 'eq' and ZERO in f.a and any(x.op == 'len' and x.a[0].op == 'phi' for x in f.a): return True
    return False
def where(M, e):
    ev = [x for x in e.st.events if x.fn]
    sp = None
    for x in reversed(ev):
        if x.kind in ('write', 'mut', 'call'): sp = x.span; fn = x.fn; break
    return f'{sp or M.F.fns[DEC].span} {DEC}'
def step_index(M, e):
    """terms known to equal the position number of the step whose arguments change"""
    st = e.st
    for p in reversed(range(len(e.path))):
        if e.path[p][0] == 'e':
            i = M.F.field('fm_script_engine::fm_script_engine_instructions::ScriptStep', 'index')
            b = e.base
            while b is not None and b.op in ('fld', 'dc') and not (b.op == 'elem'): b = b.a[0]
            if b is None: return None
            t = fld(b, i); r = [t]
            for f, v in st.facts:
                if v and f.op == 'eq' and t in f.a: r += [x for x in f.a if x is not t]
            return r
    return None
def tape_ok(M, rep, st, k):
    """Segmented scripts: steps go to the script under whose number the segments were collected."""
    W = f'{M.F.fns[DEC].span} {DEC}'
    m = k.a[0]
    for e in effects(st, None, m):
        ks = [x[1] for x in e.path]
        if not ks: continue
        if e.loop is not None and M.at(e.st, ('17', '5', '*', '4')):
            rep.ob(M.num(e.st, ks[0], 2), 'segments are collected under their script', W, f'a segment is stored under {short(ks[0])}', 'segments.id')
            if len(ks) == 1: rep.ob(e.base is not None and e.st.decide(mk('has', e.base, ks[0])) is False, 'segments already read are kept', W, f'the segments of script {short(ks[0])} are started anew without knowing that there are none yet', 'segments.kept')
            if len(ks) == 2:
                rep.ob(M.kind(e.st, 'DataSegment') and ks[1] is fld(dc(M.seg, 1), 0) and (e.val is M.DATA), 'segments keep their number and bytes', W, f'{e!r}', 'segments.number')
        else:
            # emptied while the steps are assembled
            rep.ob(e.val.op == 'vec' and not e.val.a and ks[0].op == 'keyat', 'segments come from the script code directory only', W, f'{e!r} on the path ' + facts_str(e.st.facts), 'segments')

# --- C06: the step decoding loops ----------------------------------------------------------------
STEPS = 'scripts/*/instructions'
def ancestors(st, v, seen=None, n=0):
    """every earlier version of a value, through the loops that change it"""
    seen = set() if seen is None else seen
    while v not in seen and n < 400:
        seen.add(v); n += 1
        if v.op in ('upd', 'push', 'set', 'mset', 'cat', 'pop', 'mdel', 'setd', 'sadd'): v = v.a[0]; continue
        ph, ch = phi_path(v)
        L = loop_of(st, ph) if ph is not None else None
        if L is None: break
        for b, vals in L.backs: ancestors(b, access(vals[ph], ch), seen, n)
        v = access(L.phis[ph][1], ch)
    return seen
class Rec:
    """How a loop walks fixed-size records of a byte sequence."""
    def __init__(self, L, size):
        ex = exhaustion(L); self.ok = True; self.exact = False; self.src = None
        if ex:
            self.ph, ln = ex
            if ln.op == 'len' and ln.a[0].op in ('chunks', 'chunks_exact') and ln.a[0].a[1] is INT(size):
                self.src, self.exact = ln.a[0].a[0], ln.a[0].op == 'chunks_exact'
                self.rec = elem(ln.a[0], self.ph)
                ended = lambda s: any((not t) and f.op == 'lt' and f.a[0] is self.ph for f, t in s.facts[L.nf:])
                self.ok = all(ended(s) or not self.exact and not possible(s, eq(length(self.rec), INT(size))) for s in L.exits); return     # only the last record can be short
            if ln.op == 'div' and ln.a[1] is INT(size) and ln.a[0].op == 'len':
                self.src, self.exact = ln.a[0].a[0], True; o = mul(self.ph, INT(size))
                self.rec = slice_(self.src, o, add(o, INT(size))); self.ok = exits_only_exhausted(L, self.ph); return
        for ph, (init, step) in L.induction().items():
            if init is ZERO and step == size:
                for s in L.exits:
                    for f, t in s.facts[L.nf:]:
                        hit = f.op == 'lt' and (t and f.a[0].op == 'len' and f.a[1] is add(ph, INT(size)) and f.a[0] or not t and f.a[0] is ph and f.a[1].op == 'len' and f.a[1])
                        if hit:
                            self.ph, self.src, self.exact = ph, hit.a[0], t; self.rec = slice_(self.src, ph, add(ph, INT(size)))
                            self.ok = len(L.exits) == 1; return
            if init is ZERO and step == 1:      # all of chunks(..), possibly with other ways to end
                ls = {f.a[1].a[0] for b, _ in L.backs for f, t in b.facts[L.nf:] if t and f.op == 'lt' and f.a[0] is ph and f.a[1].op == 'len' and f.a[1].a[0].op in ('chunks', 'chunks_exact') and f.a[1].a[0].a[1] is INT(size)}
                if len(ls) == 1:
                    c, = ls; self.ph, self.src, self.exact, self.rec = ph, c.a[0], c.op == 'chunks_exact', elem(c, ph)
                    self.ok = all(any(not t and f is lt(ph, length(c)) for f, t in s.facts[L.nf:]) for s in L.exits); return
        raise Limit('the loop that decodes script steps does not walk records in a recognised way')
    def byte(self, i): return elem(self.rec, INT(i))

def steps_of(M, L):
    """[(state, [pushed steps])] per iteration of a step decoding loop"""
    F = M.F; out = []
    for b, vals in L.backs:
        ps = []
        for ph in L.phis:
            if vals[ph] is ph: continue
            for e in effects(b, ph, vals[ph]):
                if e.kind in ('push', 'append', 'put', 'replace') and e.val.op == 'adt' and e.val.a[0].endswith('ScriptStep'): ps.append(e)
                elif e.kind in ('append',) and e.val.op == 'vec' and e.val.a and all(x.op == 'adt' and x.a[0].endswith('ScriptStep') for x in e.val.a): ps += [Eff(e.path, 'push', x, e.st, e.loop, e.base) for x in e.val.a]
        out.append((b, ps))
    return out

def not_skipped(M, rep, L, R, b, W):
    b21 = R.byte(21)
    ent = [t for f, v in b.facts[L.nf:] for t in subterms(f) if t.op == 'elem' and MAPN in repr(t.a[0]) and t.a[1] is b21]
    none = bool(ent) and b.decide(eq(discr(ent[0]), ONE)) is False
    short_ = not R.exact and (b.decide(lt(length(R.rec), INT(28))) is True or not possible(b, eq(length(R.rec), INT(28))))
    rep.ob(none or short_, 'a complete record of a step is not skipped', W, 'a record is skipped although it may be a complete record of a known step: ' + facts_str(b.facts[L.nf:]), 'steps.skip')
def c06(F, rep, tier, only=None):
    M = model(F, rep); SS = 'fm_script_engine::fm_script_engine_instructions::ScriptStep'
    if not any(MAPN in str(k) for k in F.consts): raise Limit('the table of script steps is gone')
    fop, fix_, fsw = (F.field(SS, n) for n in ('opcode', 'index', 'switches'))
    ps_d = [v['discr'] for v in F.adts[INS]['variants'] if v['name'] == 'PerformScript']
    if not ps_d: raise Limit('the PerformScript step is gone')
    fscripts, fsn, fins = F.field('file::FmpFile', 'scripts'), F.field('component::FMComponentScript', 'script_name'), F.field('component::FMComponentScript', 'instructions')
    maps = set()
    for st, ret in M.outs: maps |= ancestors(st, fld(ret, fscripts))
    for L in M.E.looprecs:
        for s in [b for b, _ in L.backs]:
            for e in s.events:
                if e.kind == 'loop':
                    for ph in e.data.phis:
                        if ph in maps: maps |= ancestors(s, ph)
    loops = {}
    for e in M.effs:
        label, keys = M.names(e.path)
        if label != STEPS or e.kind not in ('push', 'append', 'put'): continue
        if e.kind == 'push' and e.val.op == 'adt' and e.loop is not None: loops.setdefault(id(e.loop), (e.loop, e, keys))
        elif e.kind == 'append':
            subs = effects(e.st, None, e.val)
            if not subs or any(x.kind != 'push' or x.loop is None for x in subs): raise Limit(f'script steps are appended in an unrecognised form: {short(e.val)}')
            for x in subs: loops.setdefault(id(x.loop), (x.loop, e, keys))
        else:
            rep.ob(e.kind == 'push', 'steps are added at the end', where(M, e), f'{e!r}', 'steps.order')
            if e.loop is None: raise Limit('a script step is decoded outside of a loop over records')
    done = set()
    if only == 'skips':
        for L, e, keys in loops.values():
            R = Rec(L, 28)
            for b, ps in steps_of(M, L):
                if not ps: not_skipped(M, rep, L, R, b, where(M, e))
        return
    for L, e, keys in loops.values():
        W = where(M, e)
        R = Rec(L, 28); kk = L.lid.split('@')[0].split('.')[0]
        rep.ob(R.ok, 'every record is looked at', W, 'the loop over the records can end early', 'steps.exhaust')
        entry = None
        for b, ps in steps_of(M, L):
            b21 = R.byte(21)
            ent = [t for f, v in b.facts[L.nf:] for t in subterms(f) if t.op == 'elem' and MAPN in repr(t.a[0]) and t.a[1] is b21]
            full = R.exact or b.decide(lt(length(R.rec), INT(28))) is False or b.decide(eq(length(R.rec), INT(28))) is True
            some = bool(ent) and b.decide(eq(discr(ent[0]), ONE)) is True
            if not ps:
                not_skipped(M, rep, L, R, b, W); continue
            rep.ob(len(ps) == 1, 'one step per record', W, f'{len(ps)} steps are added for one record', 'steps.once')
            rep.ob(full and some, 'only complete records of known steps are decoded', W, 'a record is decoded although it may be incomplete or no step: ' + facts_str(b.facts[L.nf:]), 'steps.skip')
            for p in ps:
                v = p.val
                rep.ob(p.kind == 'push', 'steps are added at the end', W, f'{p!r}', 'steps.order')
                op, ix, sw = (fld(v, i) for i in (fop, fix_, fsw))
                rep.ob(some and op is fld(dc(ent[0], 1), 0), 'the step is the one numbered by byte 22 of the record', W, f'the step is {short(op)}', 'steps.opcode')
                rep.ob(ix.op == 'call' and ix.a[0] == 'encoding_util::get_path_int' and ix.a[-1] is slice_(R.rec, INT(2), add(R.byte(0), ONE)), 'the position is the number stored in the record', W, f'the position is {short(ix)}', 'steps.index')
                perf = b.decide(eq(discr(fld(dc(ent[0], 1), 0)), INT(ps_d[0]))) if ent else None
                if perf is True:
                    ok = sw.op == 'vec' and len(sw.a) == 1 and sw.a[0].op == 'fld' and sw.a[0].a[1] == fsn and sw.a[0].a[0].op == 'mget' and sw.a[0].a[0].a[1] is R.byte(8) and sw.a[0].a[0].a[0] in maps
                    rep.ob(ok, 'performing a script names that script', W, f'the arguments of PerformScript are {short(sw)}', 'steps.perform')
                else:
                    rep.ob(perf is False and sw.op == 'vec' and not sw.a, 'other steps start without arguments', W, f'the arguments of the step are {short(sw)}', 'steps.args')
        # which bytes
        st = e.st
        if R.src is M.DATA:
            seg = st.decide(eq(discr(M.seg), ONE)) is True and st.decide(eq(fld(dc(M.seg, 1), 0), INT(4))) is True
            ref = M.refis(st, 4)
            kind = st.decide(eq(discr(M.ctype), INT(M.kinds.index('PathPush')))) is False and st.decide(eq(discr(M.ctype), INT(M.kinds.index('PathPop')))) is False
            rep.ob(M.at(st, ('17', '5', '*', '**')) and (seg or ref), 'steps are decoded from the step list of a script', W, 'steps are decoded from a chunk that need not be a step list: ' + facts_str(st.facts, 8), 'steps.source')
            done.add('segment' if seg else 'inline')
        else:
            ok, why = segments(M, e, R, keys)
            rep.ob(ok, 'segments are joined in order', W, why, 'steps.segments'); done.add('segments')
            if ok: kept(M, rep, why)
    for f in ('segment', 'inline', 'segments'): rep.ob(f in done, 'all three forms are decoded', DEC, f'steps stored as {f} are not decoded', 'steps.form.' + f)
    # no chunk that is a step list is passed over
    main = chunk_loops(M)
    stop = [('17', '5', '*', '4'), ('17', '5', '*', '5', '*', '128'), ('17', '5', '*', '5', '*', '128', '5'), ('17', '5', '*', '5', '*', '129', '5')]
    ids = set(loops)
    for L in main:
        for b, _ in L.backs:
            if not M.at(b, ('17', '5', '*', '**')) or any(M.at(b, p) for p in stop): continue
            if M.kind(b, 'PathPush') or M.kind(b, 'PathPop'): continue
            seg4, ref4 = (possible(b, eq(discr(x), ONE), eq(fld(dc(x, 1), 0), INT(4))) for x in (M.seg, M.ref))
            if seg4 and not possible(b, eq(discr(M.data), ONE)): seg4 = ref4 = False
            if seg4 or ref4:
                rep.ob(any(x.kind == 'loop' and id(x.data) in ids for x in b.events), 'no step list is passed over', f'{F.fns[DEC].span} {DEC}', 'a step list can be passed over: ' + facts_str(b.facts[L.nf:], 10), 'steps.passed')
    rep.count('step_loops', len(loops))
    tape = {(e.st, keys[0]) for e0 in M.effs for e in expand(M, e0) for label, keys in [M.names(e.path)] if label == STEPS and keys and keys[0].op == 'keyat'}
    for st, k in tape: tape_ok(M, rep, st, k)
CHECKS['C06'] = c06
INFO['C06'] = 'each loop that adds script steps is shown to walk all 28-byte records of its source, to skip exactly the incomplete and unknown ones, and to add exactly one step per remaining record with the documented opcode, position and arguments; the sources are the inline list, the single segment and the segments joined in ascending order.'
def chunk_loops(M):
    r = []
    for L in M.E.looprecs:
        if L.backs and any(any(x.kind == 'call' and x.name == GET for x in b.events[L.nev:]) for b, _ in L.backs): r.append(L)
    ids = {L.lid for L in r}      # innermost ones only: a path through an outer loop may end with a chunk that leaves the inner loop
    return [L for L in r if not any(e.kind == 'loop' and e.data.lid in ids and e.data.lid != L.lid for b, _ in L.backs for e in b.events[L.nev:])]
def segments(M, e, R, keys):
    """the joined segments: every segment of the script under its key, in the order of an ordered map"""
    if keys[0].op != 'keyat': return False, f'steps of script {short(keys[0])} are decoded from {short(R.src)}'
    effs = effects(e.st, None, R.src)
    if len(effs) != 1 or effs[0].kind != 'append' or effs[0].loop is None:
        if not effs and length(R.src) is ZERO: return False, 'no segment is joined'
        if R.src.op in ('concat', 'flat') or not effs: raise Limit('segments are joined in an unrecognised form')
        return False, f'the joined segments are built by {effs!r:.300}'
    L = effs[0].loop; ex = exhaustion(L)
    if not ex or not exits_only_exhausted(L, ex[0]): return False, 'not every segment is joined'
    for b, vals in L.backs:
        n = [x for ph in L.phis if vals[ph] is not ph for x in effects(b, ph, vals[ph]) if x.kind == 'append' and x.loop in (None, L)]
        if len(n) != 1: return False, 'a segment can be left out: ' + facts_str(b.facts[L.nf:])
    v = effs[0].val
    if v.op != 'mget' or v.a[1].op != 'keyat' or v.a[1].a[1] is not ex[0] or v.a[0].op != 'mget' or v.a[0].a[1] is not keys[0]: return False, f'the joined segments are {short(v)}'
    ph = v.a[0].a[0]; L0 = loop_of(e.st, ph) or loop_of(effs[0].st, ph)
    t = place_type(M.F, L0.phis[ph][0]) if L0 is not None else None
    if t is None: raise Limit('the collection of segments cannot be identified')
    inner = M.F.types[t['args'][1]] if t.get('args') and len(t['args']) > 1 else t
    if 'Hash' in inner.get('def', ''): return False, f'the segments of a script are kept in a {inner["def"]}, which has no order'
    if ex[1].op != 'len' or not (ex[1].a[0].op == 'mget' and ex[1].a[0].a[1] is keys[0]): return False, f'{short(ex[1])} segments are joined'
    return True, L0.phis[ph][0]
def kept(M, rep, place):
    """every stored segment is kept under its script and number until all are joined"""
    W = f'{M.F.fns[DEC].span} {DEC}'; n = 0; main = chunk_loops(M)
    at = [eq(length(PATH), INT(4))] + [eq(elem(PATH, INT(i)), STR(x)) for i, x in ((0, '17'), (1, '5'), (3, '4'))]
    is_seg = [eq(discr(M.ctype), INT(M.kinds.index('DataSegment'))), eq(discr(M.seg), ONE), eq(discr(M.data), ONE)]
    for L in M.E.looprecs:
        q = next((ph for ph, (pl, i) in L.phis.items() if pl == place), None)
        if L in main:
            if q is None: rep.ob(False, 'every segment is kept', W, 'no chunk adds to the segments of scripts', 'segments.none'); continue
            for b, v in L.backs:
                es = []; F_ = facts_str(b.facts[L.nf:][-8:], 8); put = 0; n += 1
                for e in effects(b, q, v[q]) if v[q] is not q else []:
                    es.append(e)
                    if e.kind == 'put' and len(e.path) == 1 and e.val.op == 'mset' and e.val.a[0].op == 'map0':       # a new collection with its first segment
                        es[-1:] = [Eff(e.path, 'put', e.val.a[0], e.st, e.loop, e.base), Eff(e.path + (('k', e.val.a[1]),), 'put', e.val.a[2], e.st, e.loop, e.base)]
                for e in es:
                    ks = [x[1] for x in e.path if x[0] == 'k']; who = len(ks) >= 1 and M.num(b, ks[0], 2)
                    if e.loop is not None or e.kind not in ('put', 'set') or len(ks) != len(e.path) or len(ks) not in (1, 2): raise Limit(f'the segments of scripts are collected in an unrecognised form: {e!r:.200}')
                    if len(ks) == 1:
                        rep.ob(who and M.at(b, ('17', '5', '*', '4')) and e.val.op == 'map0' and b.decide(mk('has', q, ks[0])) is False, 'no segment is lost', W, f'the segments of a script are replaced by {short(e.val)}: {F_}', 'segments.lost'); continue
                    ok = who and M.at(b, ('17', '5', '*', '4')) and b.decide(is_seg[0]) is True and b.decide(is_seg[1]) is True and ks[1] is fld(dc(M.seg, 1), 0) and e.val is M.DATA; put += ok
                    rep.ob(ok, 'a segment is kept under its script and number', W, f'{short(e.val)} is kept under {[short(x) for x in ks]}: {F_}', 'segments.key')
                if possible(b, *at, *is_seg): rep.ob(put == 1, 'every segment is kept', W, f'a segment can be passed over: {F_}', 'segments.passed')
        elif q is not None and any(e.kind == 'loop' and any(e.data.lid == c.lid for c in main) for b, _ in L.backs for e in b.events[L.nev:]):
            for b, v in L.backs:
                if v[q] is q: continue
                rep.ob(all(e.loop is not None for e in effects(b, q, v[q])) and q in ancestors(b, v[q]), 'no segment is lost', W, f'after a sector the segments are {short(v[q])}', 'segments.sector')
    rep.count('segment_paths', n)

# --- C01: the table of step numbers --------------------------------------------------------------
def c01(F, rep, tier):
    from spec_steps import STEPS as SPEC
    tabs = [c for p, c in F.consts.items() if p.split('::')[-1] == 'INSTRUCTIONMAP']
    if len(tabs) != 1 or INS not in F.adts: raise Limit('the table of script steps is gone')
    v = tabs[0]['v']; W = f'{F.adts[INS]["span"]} {tabs[0]["path"]}'
    if v.get('k') != 'array': raise Limit('the table of script steps is not an array')
    vs = F.adts[INS]['variants']; dis = {x['name']: x['discr'] for x in vs}
    ent = []
    for x in v['v']:
        if x.get('k') != 'adt' or not x['def'].endswith('Option'): raise Limit('the table of script steps does not hold optional steps')
        ent.append(x['v'][0]['vname'] if x['vname'] == 'Some' else None)
    rep.ob(len(ent) == 256, 'every byte has an entry', W, f'the table has {len(ent)} entries', 'table.length')
    for i in range(256):
        e = ent[i] if i < len(ent) else None
        rep.ob(e == SPEC.get(i), 'documented step', W, f'byte {i} is decoded as {e}, documented: {SPEC.get(i)}', f'table.{i}')
        if e is not None: rep.ob(dis.get(e) == i, 'a step has the number it is decoded from', W, f'{e} has the number {dis.get(e)} but is decoded from {i}', f'number.{i}')
    u = {}
    for i, e in enumerate(ent):
        if e is not None: rep.ob(e not in u, 'different numbers are different steps', W, f'{e} is decoded from {u.get(e)} and {i}', f'unique.{i}'); u.setdefault(e, i)
    for n in dis: rep.ob(n in u or n in SPEC.values() or dis[n] not in SPEC, 'every step can be decoded', W, f'{n} is decoded from no byte', f'missing.{n}')
    M = model(F, rep)
    sites = 0
    for L in M.E.looprecs:
        seen = set()
        for b, _ in L.backs:
            for f, t in b.facts[L.nf:]:
                for x in subterms(f):
                    if x.op == 'elem' and 'INSTRUCTIONMAP' in repr(x.a[0]) and x not in seen:
                        seen.add(x); sites += 1
                        lo, hi = b.bnd(x.a[1])
                        rep.ob(lo is not None and hi is not None and lo >= 0 and hi < len(ent), 'no byte is outside of the table', f'{F.fns[DEC].span} {DEC}', f'the table is read at {short(x.a[1])}, which may be {lo}..{hi}', 'table.range')
                        rep.ob(x.a[1].op == 'elem', 'the step is decoded from the stored number', f'{F.fns[DEC].span} {DEC}', f'the table is read at {short(x.a[1])}, which is not a stored byte', 'table.number')
    rep.ob(sites > 0, 'the table is used to decode steps', f'{F.fns[DEC].span} {DEC}', 'stored scripts are not decoded with the table', 'table.used')
    c06(F, rep, tier, 'skips')
CHECKS['C01'] = c01
INFO['C01'] = 'the evaluated constant table of script steps is compared entry by entry with the documented numbers and with the discriminants of the steps; every read of the table is shown to stay inside it.'

# --- C08: the sector chain -----------------------------------------------------------------------
SECTOR = 4096
def sector_loops(M, chunk):
    """loops around the chunk loops that follow the sector chain"""
    r = []
    for L in M.E.looprecs:
        if L in chunk: continue
        if any(e.kind == 'loop' and any(e.data.lid == c.lid for c in chunk) for b, _ in L.backs for e in b.events[L.nev:]): r.append(L)
    return r
def from_sector(t): return any(x.op == 'call' and x.a[0] == 'decompile::sector::get_sector' for x in subterms(t))
def guarded(L, b, vals, X):
    """the iteration only happens for a sector not seen before, and records it"""
    for V in L.phis:
        if V is X or vals[V] is V: continue
        v = vals[V]; new = vals[X]; init = L.phis[V][1]
        for key, first in ((X, False), (new, True)):
            add_ = False; w = v
            while w.op in ('sadd', 'push', 'set', 'mset', 'upd'):
                if w.op == 'sadd' and w.a[1] is key or w.op == 'push' and w.a[1] is key or w.op == 'mset' and w.a[1] is key or w.op == 'set' and w.a[1] is key: add_ = w
                w = w.a[0]
            if not add_ or w is not V: continue
            # membership test on the set as it was (other elements added in between do no harm)
            tests = [mk('has', V, key), mk('contains', V, key)]
            seen = any(b.decide(t) is False for t in tests)
            if not seen and add_.op == 'set':
                seen = add_.a[2] is TRUE and b.decide(elem(V, key)) is False
            if not seen:
                for f, t in b.facts[L.nf:]:
                    if not t and f.op in ('has', 'contains', 'in') and f.a[0] is V and f.a[1] is key: seen = True
            if not seen: continue
            if not first: return True
            # the set of announced sectors must start with the first sector
            w = init
            while w.op in ('sadd', 'push', 'mset'):
                if w.a[1] is L.phis[X][1]: return True
                w = w.a[0]
            if w.op == 'vec' and L.phis[X][1] in w.a: return True
    return False
def c08(F, rep, tier):
    M = model(F, rep); W = f'{F.fns[DEC].span} {DEC}'; unknown = []
    chunk = chunk_loops(M)
    if not chunk: raise Limit('the loop over the chunks of a sector cannot be found')
    sect = sector_loops(M, chunk)
    rep.ob(bool(sect), 'sectors are followed in a loop', W, 'the sector chain is not followed', 'sector.loop')
    for L in sect:
        X = [ph for ph in L.phis if any(from_sector(vals[ph]) and vals[ph].op not in ('set', 'upd', 'push', 'sadd', 'mset') for _, vals in L.backs)]
        if not X: raise Limit('the position in the sector chain cannot be found')
        for b, vals in L.backs:
            cand = [x for x in X if not (vals[x] is x)]
            ok = any(guarded(L, b, vals, x) for x in cand)
            rep.ob(ok, 'a sector is visited at most once', f'{b.events[L.nev].span if b.events[L.nev:] else F.fns[DEC].span} {DEC}', 'an iteration continues with a sector that may have been visited before: ' + facts_str(b.facts[L.nf:], 8), 'sector.again')
    n = 0
    for L in M.E.looprecs:
        if L in sect: continue
        if L in chunk:
            for b, vals in L.backs:
                calls = [e for e in b.events[L.nev:] if e.kind == 'call' and e.name == GET]
                ph = [p for p, (pl, i) in L.phis.items() if calls and calls[0].args[0] is p]
                v = vals[ph[0]] if ph else None
                ok = v is not None and v.op == 'call' and v.a[0] == 'next_offset'
                if v is not None and not ok:
                    for x in subterms(v):
                        if x.op == 'call' and x.a[0] in ('next_offset', 'error_offset') and (b.bnd(sub(v, x))[0] or 0) >= (x.a[0] == 'error_offset'): ok = True
                rep.ob(ok, 'every chunk moves the position forward', W, 'an iteration of the chunk loop does not continue after the chunk it decoded: ' + facts_str(b.facts[L.nf:], 6), 'chunk.progress')
            continue
        ends(rep, F.fns[DEC].span, L, unknown); n += 1
    # functions called along the way
    n += ends_all(F, rep, sorted((reach(F, [DEC]) - M.E.analysed) | {GET}), unknown)
    recursion_ends(F, rep, reach(F, [DEC]), unknown)
    rep.count('other_loops', n)
    if unknown and not rep.bad: raise Limit('no bounded measure was found for ' + ', '.join(unknown))
    rep.notes = ['a chunk is at least one byte long (C02)', 'a loop driven by a standard iterator over a finite collection ends']
CHECKS['C08'] = c08
INFO['C08'] = 'the loop over the sector chain is shown to continue only with a sector that is not yet in the set of visited sectors and to add it; every other loop reachable from the decompiler gets a bounded measure that every iteration path advances.'

# --- C10, C11: relationships ---------------------------------------------------------------------
REL = 'component::FMComponentRelationship'
def c10(F, rep, tier):
    M = model(F, rep); b0 = elem(M.DATA, ZERO); got = {}
    for e0 in M.effs:
        for e in expand(M, e0):
            label, keys = M.names(e.path)
            if label != 'relationships/*/comparison' or not M.at(e.st, ('3', '251', '5', '*', '3')): continue
            W = where(M, e)
            for n, name in COMPARE.items():
                if not possible(e.st, eq(b0, INT(n))): continue
                v = e.val
                if v.op == 'elem' and v.a[0].op in ('vec', 'array') and isconst(v.a[0]) and v.a[1] is b0 and n < len(v.a[0].a): v = v.a[0].a[n]
                if v.op == 'adt' and v.a[0].endswith('RelationComparison'):
                    vn = F.adts[norm(v.a[0])]['variants'][v.a[1]]['name']
                    rep.ob(vn == name, 'documented comparison', W, f'the comparison numbered {n} is decoded as {vn}, documented: {name}', f'comparison.{n}'); got[n] = vn
                else: raise Limit(f'the comparison is decoded in an unrecognised form: {short(v)}')
    for n, name in COMPARE.items(): rep.ob(n in got, 'every comparison is decoded', f'{F.fns[DEC].span} {DEC}', f'the comparison numbered {n} ({name}) is never decoded', f'comparison.{n}.missing')
    takes_effect(M, rep, [('relationships/*/comparison', [('3', '251', '5', '*', '3')], None, 1, None, None)])
CHECKS['C10'] = c10
INFO['C10'] = 'for each documented comparison number, every path of the decompiler that stores a comparison and is consistent with that number stores the documented operator; each number has such a path.'

def c11(F, rep, tier):
    M = model(F, rep); AT = ('3', '17', '5', '0', '251')
    t1, t2 = F.field(REL, 'table1'), F.field(REL, 'table2')
    puts = []
    for e in M.effs:
        if M.names(e.path)[0] == 'relationships/*' and e.kind == 'put' and M.at(e.st, AT): puts.append(e)
    if not puts: raise Limit('no relationship is decoded from the documented directory')
    W = f'{F.fns[DEC].span} {DEC}'
    n1 = n2 = None; new = set()
    for e in puts:
        W = where(M, e); v1, v2 = fld(e.val, t1), fld(e.val, t2); new.add((v1, v2))
        k = M.names(e.path)[1][0]
        rep.ob(e.base is not None and (k is add(length(e.base), ONE) or e.st.decide(mk('has', e.base, k)) is False), 'a relationship does not replace another', W, f'a relationship is stored under {short(k)}, which may be that of another', 'relationship.key')
        ss = [s for s in searches(e.st) if e.base is not None and s.n is length(e.base)]
        rep.ob(any(s.side(e.st) is False and mirrored(s, e.base, v1, v2, t1, t2) for s in ss), 'a relationship is stored once', W, 'a relationship is stored without knowing that it is not there yet under its other occurrence: ' + facts_str(e.st.facts, 4), 'relationship.twice')
    for L in chunk_loops(M):
        for b, vals in L.backs:
            if not M.at(b, AT) or not M.kind(b, 'DataSimple'): continue
            ph = [p for p in L.phis if vals[p] is not p and any(e.path == () or True for e in effects(b, p, vals[p]) if e.kind == 'put' and e.val.op == 'adt' and e.val.a[0].endswith('FMComponentRelationship'))]
            if ph: continue
            maps = [s for s in searches(b, L.nev) if s.side(b) is True]
            rep.ob(any(mirrored(s, s.n.a[0], v1, v2, t1, t2) for s in maps if s.n.op == 'len' for v1, v2 in new), 'every relationship is stored', f'{F.fns[DEC].span} {DEC}', 'a relationship is not stored although it need not be known yet: ' + facts_str(b.facts[L.nf:], 6), 'relationship.lost')
CHECKS['C11'] = c11
INFO['C11'] = 'a relationship is added exactly on the paths on which the search of the relationships found so far met none with the two occurrences exchanged; the hit and miss conditions of the search are compared with that definition.'
def mirrored(s, m, v1, v2, t1, t2):
    """does the search look for a relationship with the occurrences exchanged?"""
    x = mget(m, mk('keyat', m, s.ph))
    want = {eq(fld(x, t1), v2), eq(fld(x, t2), v1)}
    for st, fs in s.hits:
        if not all(st.decide(w) is True for w in want): return False
        extra = [f for f, t in fs if f not in want and not (f.op == 'lt' and f.a[0] is s.ph)]
        if extra: return False
    return bool(s.hits) and all(not possible(st, *want) for st, fs in s.misses)

# --- C09: stored calculations --------------------------------------------------------------------
CALC = 'decompile::decompiler::decompile_calculation'
TOK = {0x04: '(', 0x05: ')', 0x2d: 'Abs', 0x9b: 'Get', 0x9d: 'Acos', 0x25: '+', 0x26: '-', 0x27: '*', 0x28: '/', 0x41: '<', 0x43: '<=', 0x44: '==', 0x46: '!=', 0x47: '>=', 0x49: '>', 0x50: '&', 0x0c: ' '}
TOK2 = {0x9c: {0x1d: 'CurrentTime', 0x20: 'AccountName', 0x49: 'DocumentsPath', 0x5d: 'DocumentsPathListing'}, 0xfb: {0x03: 'Char'}}
NUMBER, STRING, VARIABLE = 0x10, 0x13, 0x1a
def text_parts(v, base):
    """the pieces appended to base, or None"""
    out = []
    while v is not base:
        if v.op == 'cat': out.append(v.a[1]); v = v.a[0]
        elif v.op == 'push': out.append(v.a[1]); v = v.a[0]
        else: return None
    r = []
    def flat(x):
        if x.op == 'cat': flat(x.a[0]); flat(x.a[1])
        elif x.op == 'chstr' and x.a[0].op == 'char': flat(STR(x.a[0].a[0]))
        elif x.op == 'char': flat(STR(x.a[0]))
        elif x.op == 'str' and r and r[-1].op == 'str': r[-1] = STR(r[-1].a[0] + x.a[0])
        elif x.op == 'str' and not x.a[0]: pass
        else: r.append(x)
    for x in reversed(out): flat(x)
    return r
def c09(F, rep, tier):
    E, outs = run(F, rep, CALC, opaque={'encoding_util::fm_string_decrypt'}, unroll=True)
    W = f'{F.fns[CALC].span} {CALC}'
    src = main = None
    for L in E.looprecs:
        for b, vals in L.backs:
            for f, t in b.facts[L.nf:]:
                if t and f.op == 'lt' and f.a[0] in L.phis and L.phis[f.a[0]][1] is ZERO and f.a[1].op == 'len' and f.a[1].a[0].op in ('sym', 'deref'):
                    # the loop every token goes through: its position advances by differing amounts
                    if main is None or len(L.backs) > len(main.backs): main, pos, src = L, f.a[0], f.a[1].a[0]
    if main is None: raise Limit('the loop over the tokens of a calculation cannot be found')
    res = [ph for ph in main.phis if ph is not pos and any(r is ph or phi_path(r)[0] is ph or contains(r, ph) for _, r in outs)]
    if len(res) != 1: raise Limit('the text of the calculation is not built in one piece')
    res = res[0]
    rep.ob(main.phis[res][1] is STR(''), 'text starts empty', W, f'the text starts as {short(main.phis[res][1])}', 'calc.start')
    rep.ob(all(r is res for _, r in outs), 'nothing is added at the end', W, 'the result is not the text built token by token', 'calc.end')
    ex = all(any(f.op == 'lt' and not t and f.a[0] is pos and f.a[1] is length(src) for f, t in s.facts[main.nf:]) for s in main.exits)
    rep.ob(ex, 'all tokens are decoded', W, 'decoding can stop before the end of the calculation', 'calc.exhaust')
    b0, b1 = elem(src, pos), elem(src, add(pos, ONE))
    def expect(n, m, b, vals):
        """(pieces, length) for opcode n followed by byte m"""
        if n in TOK: return [STR(TOK[n])], INT(1)
        if n in TOK2: return ([STR(TOK2[n][m])] if m in TOK2[n] else []), INT(2)
        if n in (STRING, VARIABLE):
            body = mk('call', 'encoding_util::fm_string_decrypt', slice_(src, add(pos, INT(2)), add(add(pos, INT(2)), b1)))
            return ([STR('"'), body, STR('"')] if n == STRING else [body]), add(INT(2), b1)
        return [], INT(1)
    n_ob = 0
    whole = lambda b: not any(f.op == 'lt' and not t and f.a[1] is length(src) for f, t in b.facts[main.nf:])    # the last token is not cut off
    for n in range(256):
        hit = False
        for b, vals in main.backs:
            if not whole(b) or not possible(b, eq(b0, INT(n))): continue
            subs = [None]
            if n in TOK2:
                subs = [m for m in list(TOK2[n]) + [next(x for x in range(256) if x not in TOK2[n])] if possible(b, eq(b1, INT(m)))]
                if b.decide(lt(add(pos, ONE), length(src))) is not True: subs = []
            for m in subs:
                hit = True; key = f'calc.{n:02x}' + (f'.{m:02x}' if m is not None else '')
                got = text_parts(vals[res], res); adv = sub(vals[pos], pos)
                if n == NUMBER:
                    ok, why = number(main, b, vals, res, pos, src)
                    rep.ob(ok, 'a number takes 19 bytes and stands for the ninth byte after its mark', W, why, key); continue
                if got is None: rep.ob(False, 'documented token', W, f'token {n:#x} replaces the text by {short(vals[res])}', key); continue
                case = {b0: INT(n)} if m is None else {b0: INT(n), b1: INT(m)}
                got = [x if isinstance(x, str) else settled(x, case) for x in got]
                want, ln = expect(n, m, b, vals)
                rep.ob(len(got) == len(want) and all(same_text(x, y) for x, y in zip(got, want)), 'documented token', W, f'token {n:#x}{"" if m is None else f" {m:#x}"} is decoded as {[short(x) for x in got]}, documented: {[short(x) for x in want]}', key)
                rep.ob(adv is ln, 'the next token is the one behind it', W, f'after token {n:#x} decoding goes on {short(adv)} bytes later instead of {short(ln)}', key + '.length')
        if n in TOK2: 
            for m in TOK2[n]: rep.ob(any(possible(b, eq(b0, INT(n))) and possible(b, eq(b1, INT(m))) for b, _ in main.backs), 'every token is decoded', W, f'token {n:#x} {m:#x} is not decoded', f'calc.{n:02x}.{m:02x}.missing')
        else: rep.ob(hit, 'every token is decoded', W, f'no path decodes token {n:#x}', f'calc.{n:02x}.missing')
CHECKS['C09'] = c09
INFO['C09'] = 'one iteration of the loop over the bytes of a stored calculation is analysed for each of the 256 token bytes (and each second byte of two-byte tokens): the text it appends and the number of bytes it consumes are compared with the documented token.'
def settled(x, case):
    """a piece of text for a known token"""
    x = replace(x, case) if x.op in ('chstr', 'elem', 'deref', 'tostro') else x
    while x.op == 'deref' and x.a[0].op == 'str': x = x.a[0]
    if x.op == 'chstr' and x.a[0].op in ('char', 'int'): return STR(chr(x.a[0].a[0]))
    return x
def same_text(x, y):
    if x is y: return True
    return x.op == 'call' and y.op == 'call' and x.a[0] == y.a[0] and x.a[-1] is y.a[-1]
def number(main, b, vals, res, pos, src):
    """19 bytes are consumed, of which the one at offset 8 is written in decimal"""
    got = text_parts(vals[res], res)
    if got is not None:      # direct form
        ok = len(got) == 1 and got[0].op == 'tostr' and got[0].a[0] is elem(src, add(pos, INT(9)))
        d = sub(vals[pos], pos)
        return ok and d is INT(20), f'a number is decoded as {[short(x) for x in got]} and takes {short(d)} bytes'
    es = effects(b, res, vals[res])
    if len(es) != 1 or es[0].loop is None or es[0].kind not in ('append', 'push'): return False, f'a number is decoded as {es!r:.300}'
    e = es[0]; L = e.loop; ex = exhaustion(L)
    if not ex or ex[1] is not INT(19) or not exits_only_exhausted(L, ex[0]): return False, 'the bytes of a number are not all skipped'
    i = ex[0]; p = [q for q, (pl, init) in L.phis.items() if init is add(pos, ONE)]
    if len(p) != 1 or vals[pos] is not p[0]: return False, f'after a number decoding goes on at {short(vals[pos])}'
    p = p[0]
    for s, v in L.backs:
        left = s.decide(lt(p, length(src)))
        if sub(v[i], i) is not ONE or not (sub(v[p], p) is ONE or v[p] is p and left is False): return False, 'the bytes of a number are not skipped one by one'
        wr = v[res_of(L, res)] is not res_of(L, res) if res_of(L, res) is not None else False
        if s.decide(eq(i, INT(8))) is True:
            if not wr and left is True: return False, 'the value of a number is not written'
        elif s.decide(eq(i, INT(8))) is not False or wr: return False, f'a byte other than the ninth is written: {facts_str(s.facts[L.nf:])}'
    v = e.val
    if not (v.op == 'tostr' and v.a[0] is elem(src, p)): return False, f'a number is written as {short(v)}'
    return True, ''
def res_of(L, res):
    for q, (pl, init) in L.phis.items():
        if init is res: return q
    return None

# ---------------------------------------------------------------- C13: the sector chain
def absolute(code, off):
    """(underlying bytes, position in them) of a position in a slice"""
    while code.op == 'slice':
        off = add(off, code.a[1]); code = code.a[0]
    return code, off
def big_endian(t):
    """expand the project's own integer reader, whose definition is checked separately, and drop reductions that cannot change the value"""
    def go(x):
        m = {}
        for y in subterms(x):
            if y.op == 'call' and y.a[0] == 'encoding_util::get_int' and len(y.a) == 2 and length(y.a[1]).op == 'int' and length(y.a[1]).a[0] in (1, 2, 4):
                n = length(y.a[1]).a[0]; r = ZERO
                for i in range(n):
                    e = elem(y.a[1], INT(i)); TYB.setdefault(e, (0, 255)); r = add(mul(INT(256), r), e)
                TYB.setdefault(y, (0, 256 ** n - 1)); m[y] = r
        return replace(x, m) if m else x
    t = go(t)
    while True:
        m = {y: y.a[0] for y in subterms(t) if y.op == 'rem' and y.a[1].op == 'int' and (upper(y.a[0]) or y.a[1].a[0]) < y.a[1].a[0]}
        if not m: return t
        t = replace(t, m)
def upper(t):
    from engine import State
    c, parts = lin_parts(t); hi = c
    for x, k in (parts.items() if isinstance(parts, dict) else parts):
        if k < 0 or TYB.get(x, (None, None))[1] is None: return None
        hi += k * TYB[x][1]
    return hi
def c13(F, rep, tier):
    M = model(F, rep); W = f'{F.fns[DEC].span} {DEC}'
    GS = 'decompile::sector::get_sector'
    if GS not in F.fns: raise Limit('get_sector is gone')
    # how the header of a sector is read
    E, outs = run(F, rep, GS); rep.engine(E, outs)
    nx = F.field('decompile::sector::Sector', 'next')
    WS = f'{F.fns[GS].span} {GS}'
    for st, ret in outs:
        v = big_endian(fld(st.val(ret), nx))
        rd = [x for x in subterms(v) if x.op == 'elem']
        base = rd[0].a[0] if rd else None
        want = ZERO
        for i in range(8, 12): want = add(mul(INT(256), want), elem(base, INT(i)) if base is not None else ZERO)
        if base is not None and base.op not in ('sym', 'deref', 'fld'): raise Limit(f'the next sector is read as {short(v)}')
        rep.ob(v is want and base is not None, 'the next sector is the big-endian number in bytes 8 to 11 of the header', WS, f'the next sector is {short(v, 300)}', 'sector.next')
    if any(x.op == 'call' and x.a[0] == 'encoding_util::get_int' for st, ret in outs for x in subterms(st.val(ret))):
        G = 'encoding_util::get_int'; E, os_ = run(F, rep, G); WG = f'{F.fns[G].span} {G}'
        for n in (1, 2, 4):
            hit = 0
            for st, ret in os_:
                v = st.val(ret); base = None
                for x in list(subterms(v)) + [y for f, t in st.facts for y in subterms(f)]:
                    if x.op == 'len': base = x.a[0]; break
                    if x.op in ('elem', 'slice'): base = x.a[0]; break
                if base is None: continue
                if not possible(st, eq(length(base), INT(n))): continue
                hit += 1; want = ZERO
                for i in range(n): want = add(mul(INT(256), want), elem(base, INT(i)))
                rep.ob(big_endian(v) is want, 'numbers are big-endian', WG, f'{n} bytes are read as {short(v, 300)}', f'get_int.{n}')
            if not hit: raise Limit(f'reading {n} bytes is not recognised')
    # the chain
    chunk = chunk_loops(M)
    if not chunk: raise Limit('the loop over the chunks of a sector cannot be found')
    sect = sector_loops(M, chunk)
    if len(sect) != 1: raise Limit(f'{len(sect)} loops follow the sector chain')
    S = sect[0]; CI = set(c.lid for c in chunk)
    def inner(st): return [e for e in st.events[S.nev:] if e.kind == 'loop' and e.data.lid in CI]
    def first_calls(st): return [e for e in st.events[S.nev:] if e.kind == 'call' and e.name == GET]
    def buffer_ok(code):
        ops = [x.a[0] for x in subterms(code) if x.op == 'call']
        return any('read' in str(x.a[0]) for x in subterms(code) if x.op in ('call', 'out', 'io')), code
    init = {ph: i for ph, (pl, i) in S.phis.items()}
    for b, vals in S.backs:
        ls = inner(b)
        rep.ob(len(ls) >= 1, 'no sector of the chain is skipped', W, 'an iteration over the chain decodes no chunks: ' + facts_str(b.facts[S.nf:]), 'sector.skipped')
        rep.ob(len(ls) <= 1, 'a sector is decoded once per visit', W, 'the chunks of a sector are decoded twice', 'sector.twice')
        for e in ls[:1]:
            L = e.data; calls = [x for s2, v2 in L.backs for x in s2.events[L.nev:] if x.kind == 'call' and x.name == GET]
            if not calls: raise Limit('the chunk loop decodes no chunk')
            off = calls[0].args[0]
            if off not in L.phis: raise Limit(f'chunks are decoded at {short(off)}')
            code = calls[0].data[2].a[1]
            base, start = absolute(code, L.phis[off][1])
            X = [p for p in S.phis if contains(start, p)]
            # first sector
            rep.ob(replace(start, init) is INT(2 * SECTOR + 20), 'decoding starts with the first chunk of sector 2', W, f'the first chunk is read at {short(replace(start, init))}', 'chain.start')
            pos = sub(start, INT(20))
            # the next one is the one named by the header of this one
            nxt = replace(start, {p: vals[p] for p in S.phis})
            hdr = [x for x in subterms(nxt) if x.op == 'call' and x.a[0] == GS]
            good = False; why = f'after the sector at {short(pos)} chunks are read at {short(nxt, 260)}'
            for h in hdr:
                hb, hp = absolute(h.a[1], ZERO)
                good |= hb is base and hp is pos and nxt is add(mul(INT(SECTOR), fld(h, nx)), INT(20))
            rep.ob(good, 'the next sector is the one named by the header of the sector just decoded', W, why, 'chain.next')
            rep.ob(buffer_ok(base)[0], 'the bytes decoded are those of the file', W, f'chunks are decoded from {short(base)}', 'chain.bytes')
            # directory at the start of a sector, every chunk in order, to the end of the sector
            pth = calls[0].args[1]
            rep.ob(pth in L.phis and length(L.phis[pth][1]) is ZERO, 'a sector is decoded from the top directory', W, f'the directory at the start of a sector is {short(L.phis[pth][1]) if pth in L.phis else short(pth)}', 'chunk.path')
            for s2, v2 in L.backs:
                cs = [x for x in s2.events[L.nev:] if x.kind == 'call' and x.name == GET]
                rep.ob(len(cs) == 1 and cs[0].args[0] is off and v2[off] is cs[0].data[2], 'chunks are decoded one after the other', W, f'after a chunk at {short(off)} decoding goes on at {short(v2[off])}: ' + facts_str(s2.facts[L.nf:], 4), 'chunk.next')
                rep.ob(pth not in L.phis or v2[pth] is PATH, 'the directory carries over to the next chunk', W, f'the directory for the next chunk is {short(v2[pth]) if pth in v2 else ""}', 'chunk.path.next')
                if cs: rep.ob(absolute(cs[0].data[2].a[1], ZERO)[0] is base and cs[0].data[2].a[1] is code, 'the bytes decoded are those of the file', W, f'a chunk is decoded from {short(cs[0].data[2].a[1])}', 'chunk.bytes')
            end = add(sub(L.phis[off][1], INT(20)), INT(SECTOR))
            for s2 in L.exits:
                at_end = s2.decide(lt(off, end)) is False
                decoded = [x for x in s2.events[L.nev:] if x.kind == 'call' and x.name == GET]
                if not at_end and decoded: at_end = s2.decide(lt(decoded[-1].data[2], end)) is False
                rep.ob(at_end, 'decoding goes on to the end of the sector', W, 'the chunks of a sector are left before its end: ' + facts_str(s2.facts[L.nf:], 5), 'chunk.end')
            rep.ob(all(x.decide(lt(off, end)) is True for x, _ in L.backs), 'decoding stops at the end of the sector', W, f'chunks are decoded past the end of the sector: {facts_str(L.backs[0][0].facts[L.nf:], 3)}', 'chunk.bound')
            V = [v for v in S.phis if v not in X]
            nextpos = sub(nxt, INT(20))
            for s2 in S.exits:
                cur = nextpos if inner(s2) else pos
                if not exits_ok(s2, S, V, cur): rep.ob(False, 'the chain is followed to its end', W, f'the chain is left although {short(cur)} may be a sector not yet decoded: ' + facts_str(s2.facts[S.nf:], 6), 'chain.end')
                else: rep.ob(True, 'the chain is followed to its end', W, '', 'chain.end')
def exits_ok(st, S, V, cur):
    if st.decide(eq(cur, ZERO)) is True: return True
    for f, t in st.facts[S.nf:]:
        if not t: 
            if f.op == 'lt' and f.a[0] is ZERO and mul(INT(SECTOR), f.a[1]) is cur: return True
            continue
        if f.op == 'eq' and ZERO in f.a and any(mul(INT(SECTOR), x) is cur for x in f.a): return True
        if f.op in ('has', 'contains') and mul(INT(SECTOR), f.a[1]) is cur:
            w = f.a[0]
            while w.op == 'sadd': w = w.a[0]
            if w in V and visited_only(S, w): return True
    return False
def visited_only(S, V):
    """the set holds nothing but sectors of the chain"""
    i = S.phis[V][1]
    while i.op == 'sadd': 
        if i.a[1] is not INT(2): return False
        i = i.a[0]
    if i.op not in ('map', 'vec', 'map0') and length(i) is not ZERO: return False
    X = [p for p in S.phis if any(from_sector(vals[p]) and vals[p].op == 'fld' for _, vals in S.backs)]
    for b, vals in S.backs:
        w = vals[V]
        while w.op == 'sadd':
            if not any(w.a[1] is x or w.a[1] is vals[x] for x in X): return False
            w = w.a[0]
        if w is not V: return False
    return True
CHECKS['C13'] = c13
INFO['C13'] = 'the two nested loops of the decompiler are summarised: positions at which chunks are decoded, the directory carried between them, the bytes they are read from, the sector that follows, and every way out of both loops; the header reader is analysed with a symbolic sector.'

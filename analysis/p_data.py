"""The test database (src/testing/database.rs): D01, D02, D03, D04, D06, and E02."""
from lib import *
CHECKS, INFO = {}, {}
def check(pid, info):
    def w(f): CHECKS[pid] = f; INFO[pid] = info; return f
    return w
DB, TB, OC, FD = ('testing::database::' + x for x in ('Database', 'Table', 'TableOccurrence', 'Field'))

class Fields:
    """positions of the fields a rule names"""
    def __init__(self, F):
        def ix(adt, name):
            if adt not in F.adts: raise Limit(f'{adt} is gone')
            i = next((i for i, f in enumerate(F.adts[adt]['variants'][0]['fields']) if f[0] == name), None)
            if i is None: raise Limit(f'the field {name} of {adt} is gone')
            return i
        self.occs, self.handle, self.tables = ix(DB, 'table_occurrences'), ix(DB, 'occurrence_handle'), ix(DB, 'tables')
        self.cols, self.vals = ix(TB, 'fields'), ix(FD, 'records')
        self.found, self.ptr, self.table = ix(OC, 'found_set'), ix(OC, 'record_ptr'), ix(OC, 'table_ptr')
class M:
    """one function of the database, run on an arbitrary database"""
    def __init__(self, F, rep, q, opaque=()):
        if q not in F.fns: raise Limit(f'{q} is gone')
        self.q, self.fn = q, F.fns[q]; self.name = q.split('::')[-1]
        self.E, self.outs = run(F, rep, q, set(opaque)); me = self.fn.names.get(1, 'self'); self.old = mk('sym', me); self.me = me
    def new(self, s): return s.val(s.read((mk('sym', self.me + '.ptr'), ())))
    def effects(self, s): return effects(s, self.old, self.new(s))
    def where(self, s): return f'{self.fn.span} {self.q} [{facts_str(s.facts[-3:], 3)}]'
def mutators(F):
    for q, f in sorted(F.fns.items()):
        if q.startswith((DB + '::', TB + '::')) and '{closure' not in q and not f.derived and f.nargs and F.tstr(f.locals[1]) in (f'&mut {DB}', f'&mut {TB}'): yield q
SETUP = DB + '::generate_from_fmp12'

def counts_up(L, idx):
    """idx is a position of the loop running 0, 1, 2, ..."""
    return idx in L.phis and L.phis[idx][1] is INT(0) and all(b.val(vals[idx]) is add(idx, INT(1)) for b, vals in L.backs)
def every(st, L, idx, seq):
    """the loop visits every element of seq, and can only end behind the last"""
    if not counts_up(L, idx): return False
    for x in L.exits:
        new = x.facts[L.nf:]
        if not any(f.op == 'lt' and f.a[0] is idx and not t and same_len(f.a[1], seq) for f, t in new): return False
    return True
def same_len(n, seq):
    if n.op != 'len': return False
    a, b = n.a[0], seq
    return a is b or strip_phi(a) == strip_phi(b)
def strip_phi(t):
    """what a place was when the loops around it began is the same list (its length does not change while it is walked)"""
    return pp(t, 12)

@check('D01', 'Effects analysis of every function of the database on an arbitrary database: whatever writes a column of values writes, in the same way, every column of the same table (a loop over all columns, '
       'with the same effect in every turn), or changes no length; columns are constructed empty; and nothing outside the database can reach a column to lengthen it.')
def d01(F, rep, tier):
    X = Fields(F); n = 0
    for q in mutators(F):
        f = F.fns[q]
        if q == SETUP: continue                       # constructs: below
        out = F.tstr(f.locals[0])
        if f'&mut {TB}' in out or f'&mut {FD}' in out or '&mut std::vec::Vec' in out:
            who = [c for c in callers(F)[q] if not c.startswith((DB + '::', TB + '::')) and not F.fns[c].derived]
            rep.ob(not [c for c in who if not is_test(F, c)], 'columns-not-handed-out', f'{f.span} {q}', f'{who[:1]} receives a table it can change'); continue
        m = M(F, rep, q); tab = q.startswith(TB + '::')
        for s, _ in m.outs:
            for e in m.effects(s):
                p = e.path
                if not tab:
                    if p[:1] != (('f', X.tables),): continue
                    if len(p) < 2 or p[1][0] != 'e': rep.ob(False, 'no-table-replaced', m.where(s), f'the tables themselves are changed ({e.kind})', m.name); continue
                    p = p[2:]
                if p[:1] != (('f', X.cols),): continue
                n += 1
                if len(p) == 1:
                    # the whole list of columns
                    v = e.val; ok = v.op == 'seqmap' and v.a[2].op == 'upd' and v.a[2].a[0].op == 'elem' and v.a[2].a[0].a[1] is v.a[1] and same_len(v.a[0], v.a[2].a[0].a[0])
                    rep.ob(ok, 'all-columns-alike', m.where(s), f'the list of columns becomes {short(v)}: a column is dropped or added instead of a value in every column', m.name); continue
                col = p[1][1]; inner = p[2:]
                if len(inner) >= 2 and inner[1][0] == 'e' and e.kind in ('put', 'set', 'add'): rep.ob(True, 'value-replaced-in-place', m.where(s), ''); continue
                L = e.loop
                if L is None or col not in L.phis:
                    L = next((loop_of(s, x) for x in [col] if x.op == 'phi'), None)
                if L is None: rep.ob(False, 'all-columns-alike', m.where(s), f'a value is added to or removed from one column ({short(col)}) only', m.name); continue
                seq = next((x.a[1].a[0] for st2, _ in L.backs for x, t in st2.facts[L.nf:] if x.op == 'lt' and x.a[0] is col and t and x.a[1].op == 'len'), None)
                same = all(len([y for y in effects_of_turn(L, b, vals) if y == (e.kind, pp(e.val, 8))]) == 1 for b, vals in L.backs)
                rep.ob(seq is not None and every(s, L, col, seq) and cols_of(seq, X), 'all-columns-alike', m.where(s), 'the values are not changed in every column of the table', m.name)
                rep.ob(same, 'all-columns-alike', m.where(s), 'the values are changed differently from column to column', m.name)
    rep.count('column_length_changes', n)
    if not n: raise Limit('no function changes the columns')
    # constructions
    for f in non_test(F):
        for b in f.blocks:
            for st_ in (b['s'] if b else ()):
                if st_[0] != '=' or not (isinstance(st_[2], list) and st_[2][0] == 'agg'): continue
                d = st_[2][1]
                if isinstance(d, dict) and d.get('def') == FD or isinstance(d, list) and FD in d:
                    v = st_[2][-1][X.vals]
                    l = v[1][0] if v[0] in ('move', 'copy') else None
                    c = [c for c in calls_of(F, f) if c.dest and c.dest[0] == l]
                    ok = bool(c) and all(x.path in ('std::vec::Vec::new', 'alloc::vec::Vec::new') or x.path.endswith('default::Default::default') for x in c)
                    if not c: raise Limit(f'{f.path}: how a column is constructed was not recognised')
                    rep.ob(ok, 'columns-start-empty', f'{st_[3] if len(st_) > 3 else f.span} {f.path}', 'a column is constructed with values', 'construct')
def cols_of(seq, X): return seq.op == 'fld' and seq.a[1] == X.cols
def effects_of_turn(L, b, vals):
    out = []
    for ph, v in vals.items():
        v = b.val(v)
        if v is ph or v.op == 'add': continue
        for y in effects(b, ph, v):
            if y.kind != 'replace': out.append((y.kind, pp(y.val, 8)))
    return out
def is_test(F, p):
    return '::tests' in p or p.startswith('tests::')

@check('D02', 'Every path of every navigation function on an arbitrary current occurrence: the new position is proved to be inside the found set from the conditions of the path (assuming the old one was), it is the '
       'position the function is named after, nothing else changes, and no path reaches a panic because the found set is empty.')
def d02(F, rep, tier):
    X = Fields(F); want = {'goto_first_record', 'goto_last_record', 'goto_next_record', 'goto_previous_record', 'goto_record'}
    for n in sorted(want):
        m = M(F, rep, f'{DB}::{n}')
        occ = elem(fld(m.old, X.occs), fld(m.old, X.handle)); N = length(fld(occ, X.found)); p0 = fld(occ, X.ptr)
        arg = mk('sym', m.fn.names.get(2, 'record_id')) if m.fn.nargs > 1 else None
        for s in m.E.panics:
            if s.decide(eq(N, INT(0))) is True: rep.ob(False, 'empty-found-set', f'{m.fn.span} {m.q}', 'with an empty found set the function panics', f'{n}-empty')
            elif s.decide(lt_(fld(m.old, X.handle), length(fld(m.old, X.occs)))) is not False and s.fork().assume(lt_(p0, N)): raise Limit(f'{m.where(s)}: a panic that could not be attributed')
            else: rep.ob(True, 'panics-only-without-occurrence', f'{m.fn.span} {m.q}', '')
        for s, _ in m.outs:
            for e in m.effects(s): rep.ob(e.path == (('f', X.occs), ('e', fld(m.old, X.handle)), ('f', X.ptr)), 'only-the-position', m.where(s), f'something other than the position of the current occurrence changes', f'{n}-other')
            t = s.fork()
            if t.decide(eq(N, INT(0))) is True or not t.assume(lt_(p0, N)): rep.ob(True, 'inside', m.where(s), ''); continue
            p = s.val(fld(elem(fld(m.new(s), X.occs), fld(m.old, X.handle)), X.ptr))
            inside = p is p0 or p is INT(0) or t.decide(lt_(p, N)) is True or p is add(N, INT(-1)) or p is add(p0, INT(-1))
            if not inside and t.fork().assume(mk('not', lt_(p, N))) is False: inside = True
            rep.ob(inside, 'inside', m.where(s), f'the new position {short(p)} is not known to be inside the found set', f'{n}-inside')
            one_, last = add(p0, INT(1)), add(N, INT(-1))
            if n == 'goto_first_record': ok = p is INT(0)
            elif n == 'goto_last_record': ok = p is last
            elif n == 'goto_next_record': ok = p is one_ if surely(t, lt_(one_, N)) else p is p0 or p is last
            elif n == 'goto_previous_record': ok = p is p0 or p is INT(0) if t.decide(eq(p0, INT(0))) is True or t.decide(lt_(INT(0), p0)) is False else p is add(p0, INT(-1))
            else: ok = p is arg if surely(t, lt_(arg, N)) else p is last if surely(t, mk('not', lt_(arg, N))) else p is arg and p is last
            rep.ob(ok, 'goes-where-it-says', m.where(s), f'the new position is {short(p)}', f'{n}-target')
    for n in ('update_found_set', 'reset_found_set'):
        m = M(F, rep, f'{DB}::{n}'); h = fld(m.old, X.handle)
        for s, _ in m.outs:
            occ = s.val(elem(fld(m.new(s), X.occs), h)); f, p = s.val(fld(occ, X.found)), s.val(fld(occ, X.ptr))
            if f is fld(elem(fld(m.old, X.occs), h), X.found): continue
            full = all_records(s, f, X)
            ok = p is INT(0) or full and p is fld(elem(fld(m.old, X.occs), h), X.ptr)
            rep.ob(ok, 'valid-after-replacement', m.where(s), f'the found set becomes {short(f)} while the position becomes {short(p)}', f'{n}-position')
def lt_(a, b): return mk('lt', a, b)
def surely(t, c):
    """the facts of the state leave no other possibility"""
    if t.decide(c) is not None: return t.decide(c)
    return not t.fork().assume(c.a[0] if c.op == 'not' else mk('not', c))
def all_records(s, f, X):
    """0, 1, 2, ... for every value of the first column of the occurrence's table"""
    return f.op == 'seqmap' and f.a[1] is f.a[2] and f.a[0].op == 'len' and any(x.op == 'fld' and x.a[1] == X.cols for x in subterms(f.a[0]))

@check('D03', 'Effects analysis of record creation on an arbitrary set of occurrences: exactly one empty value is appended to every column of the current occurrence\'s table; in the loop over all occurrences, exactly '
       'those of the same table get the new record\'s number appended to their found set and their position set to it; nothing else changes.')
def d03(F, rep, tier):
    X = Fields(F); m = M(F, rep, f'{DB}::create_record'); h = fld(m.old, X.handle)
    tix = fld(elem(fld(m.old, X.occs), h), X.table)
    if not m.outs: raise Limit('no path creates a record')
    for s, _ in m.outs:
        w = m.where(s); es = m.effects(s); added = fnd = pos = 0
        for e in es:
            if e.path[:2] == (('f', X.tables), ('e', tix)) and e.kind == 'push' and e.path[2:3] == (('f', X.cols),):
                added += 1; rep.ob(e.val.op == 'str' and e.val.a[0] == '', 'one-empty-value', w, f'the new value is {short(e.val)}', 'value'); L = e.loop; c = e.path[3][1]
                rep.ob(L is not None and counts_up(L, c) and not uncond(L, 1), 'every-column', w, 'not every column receives a value', 'column')
            elif e.path[:1] == (('f', X.tables),) and e.kind == 'set' and e.val.op == 'seqmap': added += 1
            elif e.path[:1] == (('f', X.occs),) and e.path[2:] == (('f', X.found),) and e.kind == 'push':
                fnd += 1; L = e.loop; i = e.path[1][1]
                rep.ob(new_record(e.val, X, tix), 'new-number-in-found-set', w, f'the number added to the found sets is {short(e.val)}, not the new record\'s', 'number')
                rep.ob(L is not None and counts_up(L, i) and loop_all(L, i, X), 'every-occurrence', w, 'not every occurrence is visited', 'occurrences')
                if L is not None: matches(rep, w, L, i, X, tix)
            elif e.path[:1] == (('f', X.occs),) and e.path[2:] == (('f', X.ptr),) and e.kind == 'set':
                pos += 1; rep.ob(last_of(e.val, X, e.path[1][1]), 'new-record-current', w, f'the position becomes {short(e.val)}, not that of the new record', 'position')
            else: rep.ob(False, 'nothing-else', w, f'{short(e.val)} is {e.kind} at {e.path[:2]}', 'other')
        rep.ob(added == 1, 'one-record-added', w, f'{added} records are added to the table', 'added')
        rep.ob(fnd == 1 and pos == 1, 'found-and-current', w, f'the record is added {fnd} time(s) to the found sets, and made current {pos} time(s)', 'found')
def uncond(L, k):
    """turns of the loop that change nothing"""
    return [1 for b, vals in L.backs if not effects_of_turn(L, b, vals)]
def new_record(t, X, tix):
    c, ps = lin_parts(t)
    return c == -1 and len(ps) == 1 and ps[0][0].op == 'len' and ps[0][0].a[0].op == 'fld' and ps[0][0].a[0].a[1] == X.vals and any(x is tix or pp(x, 10) == pp(tix, 10) for x in subterms(ps[0][0]))
def last_of(t, X, i):
    """the length of the found set before the number was added to it"""
    return t.op == 'len' and t.a[0].op == 'fld' and t.a[0].a[1] == X.found and t.a[0].a[0].op == 'elem' and t.a[0].a[0].a[1] is i
def loop_all(L, i, X):
    m = {ph: init for ph, (pl, init) in L.phis.items() if ph is not i}
    def n(t): t = replace(t, m); return t.op == 'len' and t.a[0].op == 'fld' and t.a[0].a[1] == X.occs
    return bool(L.exits) and all(any(f.op == 'lt' and f.a[0] is i and not t and n(f.a[1]) for f, t in x.facts[L.nf:]) for x in L.exits)
def matches(rep, w, L, i, X, tix):
    for b, vals in L.backs:
        changed = bool(effects_of_turn(L, b, vals)); said = None
        for x, t in b.facts[L.nf:]:
            if x.op == 'eq' and any(y.op == 'fld' and y.a[1] == X.table and y.a[0].op == 'elem' and y.a[0].a[1] is i for y in x.a): said = t if any(pp(y, 10) == pp(tix, 10) for y in x.a) else None
        rep.ob(said is not None and changed == said, 'exactly-occurrences-of-the-table', w, 'an occurrence of another table is changed, or one of the same table is not', 'same-table')

OPS = {'Equal': ('eq', 0), 'NotEqual': ('eq', 1), 'Less': ('lt', 0), 'LessEqual': ('gt', 1), 'Greater': ('gt', 0), 'GreaterEqual': ('lt', 1), 'Cartesian': None}
@check('D04', 'Path-fact analysis of the loop that selects related records: for every comparison operator the record is taken on exactly the paths on which the operator holds between the near and the far value. Effects '
       'analysis of the loop that registers relationships: both occurrences get the relationship, the far one with the fields exchanged and the operator mirrored. (The number-to-operator table is C10.)')
def d04(F, rep, tier):
    q = f'{DB}::get_related_record_field'; vs = {v['discr']: v['name'] for v in F.adts['component::RelationComparison']['variants']}
    opq = {p for p in F.fns if p.startswith('testing::relation_mgr')}
    m = M(F, rep, q, opq); seen = {}
    RS = {f[0]: i for i, f in enumerate(F.adts['testing::database::RelatedRecordSet']['variants'][0]['fields'])}
    RL = {f[0]: i for i, f in enumerate(F.adts['testing::database::Relationship']['variants'][0]['fields'])}
    def key_of(t, n): return any(y.op == 'fld' and y.a[1] == RL[n] and y.a[0].op == 'fld' and y.a[0].a[1] == RS['relationship'] for y in subterms(t))
    for L in m.E.looprecs:
        for b, vals in L.backs:
            fs = b.facts[L.nf:]; op = None; no = set()
            for x, t in fs:
                if x.op == 'eq' and x.a[0].op == 'discr' and isconst(x.a[1]) and 'RelationComparison' in kind_of(F, x.a[0].a[0], b):
                    if t: op = x.a[1].a[0]
                    else: no.add(x.a[1].a[0])
            if op is None: continue
            taken = any(b.val(v).op == 'push' for v in vals.values()); cmpf = {}
            for x, t in fs:
                if x.op in ('eq', 'lt') and x.a[0].op != 'discr':
                    far = [y.op == 'elem' and y.a[1] in L.phis for y in x.a]; near = [not y for y in far]
                    if sum(far) == 1 and contains_value(x.a[far.index(False)]):
                        k = 'eq' if x.op == 'eq' else ('lt' if near[0] else 'gt')
                        nv, fv = (x.a[1], x.a[0]) if far[0] else (x.a[0], x.a[1])
                        rep.ob(key_of(nv, 'field1'), 'near-field', f'{m.fn.span} {q}', f'the near value compared is {short(nv)}, not the one of the relationship\'s near field', 'hop')
                        rep.ob(key_of(fv, 'field2'), 'far-field', f'{m.fn.span} {q}', f'the far value compared is {short(fv)}, not the one of the relationship\'s far field', 'far-field')
                        cmpf[k] = t
            seen.setdefault(vs[op], []).append((cmpf, taken, b))
    if not seen: raise Limit('the loop that compares values was not found')
    for name, want in OPS.items():
        if name not in seen: rep.ob(False, 'operator-handled', f'{m.fn.span} {q}', f'{name} is never decided', f'{name}-missing'); continue
        if want and {t for c, t, _ in seen[name] if not c} == {True, False}: raise Limit(f'{q}: how {name} is decided was not recognised')
        for cmpf, taken, b in seen[name]:
            for v in ('lt', 'eq', 'gt'):
                # is this path possible when near v far?
                pos = all(t == (k == v) for k, t in cmpf.items())
                if not pos: continue
                holds = True if want is None else (want[0] == v) != bool(want[1])
                rep.ob(taken == holds, 'operator-as-stored', f'{m.fn.span} {q}', f'under {name}, a record whose value is {dict(lt="greater than", eq="equal to", gt="less than")[v]} the near one is {"related" if taken else "not related"}', f'{name}-{v}')
    # registration
    g = M(F, rep, SETUP, opq); R = 'component::FMComponentRelationship'
    ix = {f[0]: i for i, f in enumerate(F.adts[R]['variants'][0]['fields'])}
    rr = {f[0]: i for i, f in enumerate(F.adts[OC]['variants'][0]['fields'])}['related_records']
    RS = {f[0]: i for i, f in enumerate(F.adts['testing::database::RelatedRecordSet']['variants'][0]['fields'])}
    RL = {f[0]: i for i, f in enumerate(F.adts['testing::database::Relationship']['variants'][0]['fields'])}
    regs = []
    for L in g.E.looprecs:
        for b, vals in L.backs:
            for ph, v in vals.items():
                if b.val(v) is ph: continue
                for e in effects(b, ph, b.val(v)):
                    if e.kind == 'push' and e.path and e.path[-1] == ('f', rr) and e.val.op == 'adt': regs.append((e, b, L))
    ends = {}
    for e, b, L in regs:
        rel = fld(e.val, RS['relationship']); o = col_of(e.path[-2][1], ix); other = col_of(fld(e.val, RS['occurrence']), ix)
        f1, f2 = col_of(fld(rel, RL['field1']), ix), col_of(fld(rel, RL['field2']), ix); how = b.val(fld(rel, RL['join_by']))
        plain = how.op == 'fld' and how.a[1] == ix['comparison']
        ends[o] = (other, f1, f2, plain)
    if len(regs) < 2: raise Limit('how relationships are registered was not recognised')
    w = f'{g.fn.span} {SETUP}'
    rep.ob(ends.get('table1', ())[:3] == ('table2', 'field1', 'field2') and ends['table1'][3], 'registered-near', w, f'the first occurrence of a relationship gets {ends.get("table1")}', 'near')
    rep.ob(ends.get('table2', ())[:3] == ('table1', 'field2', 'field1'), 'registered-far', w, f'the second occurrence of a relationship gets {ends.get("table2")}', 'far')
    rep.ob('table2' in ends and not ends['table2'][3], 'mirrored', w, 'the second occurrence of a relationship gets the operator as stored, not the mirrored one', 'mirrored')
def col_of(t, ix):
    while t.op in ('rem', 'cast'): t = t.a[0]
    return next((n for n, i in ix.items() if t.op == 'fld' and t.a[1] == i), None)
def kind_of(F, t, st): return 'RelationComparison' if t.op == 'fld' and t.a[0].op in ('fld',) else ''
def contains_value(t): return t.op not in ('int', 'len', 'discr')

@check('D06', 'Path and loop analysis of performing a find: the list handed to the database is the sorted list of a set filled, for every pending criterion, with the number of every value of the criterion\'s field that '
       'equals it and no other; the criteria are emptied and browse mode is entered; the database then shows exactly that list in the current occurrence only. Showing all records shows every number once, in order.')
def d06(F, rep, tier):
    import p_test
    X = Fields(F); R = p_test.Runner(F, rep)
    ps = [p for p in R.paths if R.ins.get(p.op) == 'PerformFind']
    if not ps: raise Limit('no path performs a find')
    for p in ps:
        st = p.st; w = f'{R.fn.span} {p_test.STEP}: PerformFind'
        cs = [e for e in p.calls() if e.name.startswith(DB)]
        up = [e for e in cs if e.name.endswith('::update_found_set')]
        rep.ob(len(up) == 1, 'found-set-replaced', w, f'the found set is replaced {len(up)} times by a find', 'replace')
        if len(up) != 1: continue
        v = st.val(up[0].args[1]); chain = []
        while v.op in ('out', 'call') and v.a:
            nm = v.a[0] if v.op == 'call' else v.a[0].a[0]
            chain.append(str(nm)); v = st.val((v if v.op == 'call' else v.a[0]).a[1])
        rep.ob(any('sort' in c for c in chain), 'stored-order', w, 'the records found are not put in stored order', 'sort')
        L = loop_of(st, v) if v.op == 'phi' else None
        if L is None: raise Limit(f'{w}: what is shown is {short(v)}')
        crit = fld(p.old, R.ix['find_criteria'])
        rep.ob(L.phis[v][1].op == 'map0', 'no-duplicates', w, f'the numbers found are collected in {short(L.phis[v][1])}', 'set')
        idx = [ph for ph in L.phis if counts_up(L, ph)]
        rep.ob(any(every(st, L, i, crit) for i in idx), 'every-criterion', w, 'not every pending criterion is looked at', 'criteria')
        for b, vals in L.backs:
            nv = b.val(vals[v])
            K = loop_of(b, nv) if nv.op == 'phi' and nv is not v else None
            direct = K is not None and nv in K.phis and K.phis[nv][1] is v        # the numbers are added one by one
            rep.ob(direct or nv.op in ('mext', 'cat') and nv.a[0] is v, 'found-numbers-kept', w, f'a criterion turns the numbers found into {short(nv)}', 'union')
            if not direct and nv.op not in ('mext', 'cat'): continue
            a = nv if direct else nv.a[1]; K = K if direct else loop_of(b, a) if a.op == 'phi' else None
            if K is None: raise Limit(f'{w}: the numbers of one criterion are {short(a)}')
            for b2, v2 in K.backs:
                y = b2.val(v2[a]); pos = next((ph for ph in K.phis if counts_up(K, ph)), None)
                eqs = [t for x, t in b2.facts[K.nf:] if x.op == 'eq' and any(z.op == 'elem' and z.a[1] is pos for z in x.a) and any(z.op == 'fld' and z.a[1] == 1 and z.a[0].op == 'elem' and z.a[0].a[0] is crit for z in x.a)]
                if y is a: rep.ob(eqs == [False], 'only-differing-left-out', w, 'a record is left out although its value may equal the criterion', 'filter-out')
                else: rep.ob(y.op in ('push', 'sadd') and y.a[0] is a and y.a[1] is pos and eqs == [True], 'only-equal-found', w, 'a record is found although its value may differ from the criterion', 'filter-in')
            vals_ = [e for e in b.events[L.nev:] if e.kind == 'call' and e.name.endswith('get_field_vals_for_current_table')]
            rep.ob(bool(vals_), 'values-of-current-table', w, 'the values compared are not those of the current table', 'values')
        e = [x for x in effects(st, p.old, p.new)]
        rep.ob(any(x.path == (('f', R.ix['find_criteria']),) and x.val.op == 'vec' and not x.val.a for x in e), 'criteria-cleared', w, 'the pending criteria are kept after the find', 'clear')
        md = p.get(R, 'mode')[1]
        rep.ob(md.op == 'adt' and F.adts['testing::test::Mode']['variants'][md.a[1]]['name'] == 'Browse', 'browse-again', w, 'the find does not return to browse mode', 'mode')
    m = M(F, rep, f'{DB}::update_found_set'); h = fld(m.old, X.handle); arg = mk('sym', m.fn.names.get(2, 'records'))
    for s, _ in m.outs:
        for e in m.effects(s): rep.ob(e.path[:2] == (('f', X.occs), ('e', h)) and e.path[2:] in ((('f', X.found),), (('f', X.ptr),)), 'current-occurrence-only', m.where(s), f'{e.path} changes', 'other')
        f = s.val(fld(elem(fld(m.new(s), X.occs), h), X.found)); empty = s.decide(eq(length(arg), INT(0))) is True
        ok = all_records(s, f, X) if empty else f is arg
        rep.ob(ok, 'shows-the-list', m.where(s), f'{"with no record found" if empty else "after a find"} the found set becomes {short(f)}', 'none-found' if empty else 'list')
    m = M(F, rep, f'{DB}::reset_found_set'); h = fld(m.old, X.handle)
    for s, _ in m.outs:
        for e in m.effects(s): rep.ob(e.path[:2] == (('f', X.occs), ('e', h)) and e.path[2:] in ((('f', X.found),), (('f', X.ptr),)), 'current-occurrence-only', m.where(s), f'{e.path} changes', 'other')
        f = s.val(fld(elem(fld(m.new(s), X.occs), h), X.found))
        rep.ob(all_records(s, f, X), 'shows-all', m.where(s), f'the found set becomes {short(f)}', 'all')
    for p in [p for p in R.paths if R.ins.get(p.op) == 'ShowAllRecords']:
        rep.ob([e.name for e in p.calls() if e.name.startswith(DB)] == [f'{DB}::reset_found_set'], 'shows-all', f'{R.fn.span} {p_test.STEP}: ShowAllRecords', 'showing all records does not show all', 'show-all')

CELLS = ('std::cell::', 'std::sync::', 'core::cell::', 'std::rc::', '*mut ', '*const ')
@check('E02', 'Type analysis: the functions that evaluate calculations borrow the environment immutably; no type reachable from the environment has interior mutability or a raw pointer; and nothing reachable from '
       'evaluation contains unsafe code, a mutable static, or a call that changes files or the process. The borrow checker then excludes every change.')
def e02(F, rep, tier):
    env = 'testing::test::TestEnvironment'
    roots = [f'{env}::{n}' for n in ('eval_calculation', 'evaluate', 'get_operand_val')]
    for q in roots:
        if q not in F.fns: raise Limit(f'{q} is gone')
        f = F.fns[q]; t = F.tstr(f.locals[1]) if f.nargs else ''
        rep.ob(t.startswith('&') and not t.startswith('&mut') and env in t, 'immutable-borrow', f'{f.span} {q}', f'the environment is received as {t}', q.split('::')[-1])
    seen = set(); todo = [env]
    while todo:
        a = todo.pop()
        if a in seen or a not in F.adts: continue
        seen.add(a)
        for v in F.adts[a]['variants']:
            for n, ty in v['fields']:
                t = ty if isinstance(ty, str) else F.tstr(ty)
                bad = [c for c in CELLS if c in t]
                rep.ob(not bad, 'no-interior-mutability', f'{a}::{n}', f'the field has type {t}, which can change behind an immutable borrow', f'{a}::{n}')
                for b in F.adts:
                    if b in t and F.adts[b]['local']: todo.append(b)
    rep.count('types_of_the_environment', len(seen))
    fns = reach(F, roots); rep.count('functions_reached', len(fns)); rep.fns |= fns
    for kind, span in F.d['unsafe']: rep.ob('CompilerGenerated' in kind, 'no-unsafe', span, f'{kind}: could change what is borrowed immutably')
    for q in sorted(fns):
        f = F.fns.get(q)
        if f is None or f.derived: continue
        for c in calls_of(F, f):
            bad = c.path.startswith(('std::fs::', 'std::process::', 'std::env::set', 'std::thread::'))
            rep.ob(not bad, 'no-outside-effect', f'{c.span} {q}', f'evaluating a calculation calls {c.path}')

@check('D05', 'Path analysis of qualified names: the functions that read and write a field of a named occurrence return exactly the place table[occurrence\'s table].column[named so].value[the occurrence\'s current '
       'record], whatever the current occurrence is; setting a field passes both parts of the name to them; and reading a qualified operand passes both parts on, too.')
def d05(F, rep, tier):
    import p_test
    X = Fields(F); fx = {f[0]: i for i, f in enumerate(F.adts[DB]['variants'][0]['fields'])}; nm = {f[0]: i for i, f in enumerate(F.adts[FD]['variants'][0]['fields'])}['name']
    for n in ('get_current_record_by_table_field', 'get_current_record_by_table_field_mut'):
        m = M(F, rep, f'{DB}::{n}'); o, fl = (mk('sym', m.fn.names.get(i, d)) for i, d in ((2, 'occurrence'), (3, 'field'))); got = 0
        for s, r in m.outs:
            rep.ob(not m.effects(s), 'changes-nothing', m.where(s), 'looking up a field changes the database', f'{n}-effect')
            r = s.val(r)
            if not (r.op == 'adt' and r.a[1] == 0): continue
            got += 1; v = r.a[2]
            if v.op == 'ref': v = s.val(s.read((v.a[0], v.a[1])))
            occ = elem(fld(m.old, X.occs), mget(fld(m.old, fx['occurrence_indices']), o))
            cols = fld(elem(fld(m.old, X.tables), fld(occ, X.table)), X.cols)
            rec = elem(fld(occ, X.found), fld(occ, X.ptr))
            ok = v.op == 'elem' and v.a[0].op == 'fld' and v.a[0].a[1] == X.vals and v.a[0].a[0].op == 'elem' and v.a[0].a[0].a[0] is cols
            rep.ob(ok, 'named-table', m.where(s), f'the value is {short(v, 200)}: not in a column of the named occurrence\'s table', f'{n}-table')
            rep.ob(v.op == 'elem' and v.a[1] is rec, 'current-record-of-named', m.where(s), f'the record is {short(v.a[1]) if v.op == "elem" else "?"}, not the current one of the named occurrence', f'{n}-record')
            if ok: rep.ob(s.decide(eq(fld(v.a[0].a[0], nm), fl)) is True, 'named-column', m.where(s), 'the column is not the named one', f'{n}-column')
        if not got: raise Limit(f'{m.q}: no path finds a value')
    R = p_test.Runner(F, rep); got = 0
    for p in R.paths:
        if R.ins.get(p.op) != 'SetField' or p.mode(R) == 'Find': continue
        for e in p.calls():
            if not e.name.startswith(DB): continue
            got += 1
            parts = [a for a in e.args[1:]]
            ok = e.name.endswith('::get_current_record_by_table_field_mut') and len(parts) == 2 and all(part_of(p.st, a) == i for i, a in enumerate(parts))
            rep.ob(ok, 'both-parts-used', f'{e.span} {p_test.STEP}: SetField', f'the field is looked up by {e.name.split("::")[-1]}({", ".join(short(a, 40) for a in parts)})', 'write')
    if not got: raise Limit('how a field is set was not recognised')
    q = p_test.ENV + '::get_operand_val'
    if q not in F.fns: raise Limit(f'{q} is gone')
    E, outs = run(F, rep, q, p_test.opq_db(F) | {q}); got = 0
    for s, _ in outs:
        for e in s.events:
            if e.kind == 'call' and e.name.startswith(DB):
                got += 1
                rep.ob({part_of(s, a) for a in e.args[1:]} == {0, 1}, 'both-parts-used', f'{e.span} {q}', f'a qualified name is read by {e.name.split("::")[-1]}({", ".join(short(a, 40) for a in e.args[1:])}): the occurrence it names is not used', 'read')
    if not got: raise Limit('how a field is read was not recognised')
def part_of(st, a):
    """which part of a name split at :: an argument is"""
    a = st.val(a)
    while a.op in ('deref', 'ref'): a = a.a[0] if a.op == 'deref' else st.val(st.read((a.a[0], a.a[1])))
    return a.a[1].a[0] if a.op == 'elem' and isconst(a.a[1]) and a.a[0].op == 'call' and a.a[0].a[0] == 'split' or a.op == 'elem' and isconst(a.a[1]) and 'split' in pp(a.a[0], 2) else None

@check('E04', 'Transducer extraction from the calculation lexer: every turn of its loop that starts at a quotation mark, with the loop that runs over the literal: each turn of that takes exactly one character that is '
       'not the closing quote and appends it; the literal, complete, becomes one string token; no other token is produced from it. (Script blocks and arguments: B04 and B06.)')
def e04(F, rep, tier):
    q = 'testing::test::TestEnvironment::eval_calculation'
    if q not in F.fns: raise Limit(f'{q} is gone')
    T = 'testing::calc_tokens::Token'; kinds = {i: v['name'] for i, v in enumerate(F.adts['testing::calc_tokens::TokenType']['variants'])}
    E, outs = run(F, rep, q, {p for p in F.fns if p.startswith('testing::calc_eval::') and '{closure' not in p} | {'testing::test::TestEnvironment::evaluate'})
    text = mk('sym', F.fns[q].names.get(2, 'calculation')); CH = None; n = 0
    for L in E.looprecs:
        for b, vals in L.backs:
            at_ = [x for x, t in b.facts[L.nf:] if t and x.op == 'eq' and quote(x) is not None]
            first = next((quote(x) for x in at_ if quote(x).a[1] in L.phis), None)
            if first is None: continue
            pos = first.a[1]
            if L.phis[pos][1] is not INT(0): continue         # an inner loop
            K = next((e.data for e in b.events[L.nev:] if e.kind == 'loop' and any(i is add(pos, INT(1)) for pl, i in e.data.phis.values())), None)
            w = f'{F.fns[q].span} {q}'
            if K is None: raise Limit(f'{w}: the loop over a string literal was not found')
            n += 1; kpos = next(ph for ph, (pl, i) in K.phis.items() if i is add(pos, INT(1)))
            for b2, v2 in K.backs:
                c = elem(first.a[0], kpos)
                rep.ob(b2.val(v2[kpos]) is add(kpos, INT(1)), 'one-character', w, 'not every character of a string literal is taken', 'one')
                rep.ob(any(x.op == 'eq' and quote(x) is c and not t for x, t in b2.facts[K.nf:]), 'closing-quote-ends', w, 'a string literal can go on behind its closing quote', 'closing')
                extra = [x for x, t in b2.facts[K.nf:] if contains(x, c) and not (x.op == 'eq' and quote(x) is c) and x.op != 'lt']
                rep.ob(not extra, 'no-other-meaning', w, f'inside a string literal characters are told apart by {short(extra[0]) if extra else ""}', 'class')
                rep.ob(any(b2.val(v).op == 'cat' and b2.val(v).a[0] is ph and contains(b2.val(v).a[1], c) for ph, v in v2.items()), 'kept-as-text', w, 'a character of a string literal is lost', 'kept')
            toks = next((b.val(v) for ph, v in vals.items() if L.phis[ph][1].op == 'vec'), None); base = next((ph for ph in vals if L.phis[ph][1].op == 'vec'), None)
            if toks is None: raise Limit(f'{w}: the list of tokens was not found')
            new = []
            while toks.op == 'push': new.append(toks.a[1]); toks = toks.a[0]
            strs = [t for t in new if t.op == 'adt' and t.a[0] == T and kinds[t.a[2].a[1]] == 'String']
            rep.ob(len(strs) == 1, 'becomes-one-token', w, f'a string literal becomes {len(strs)} string tokens [{facts_str(b.facts[-1:], 1)}]', 'token')
            for t in strs: rep.ob(any(x in K.phis for x in subterms(t.a[3])), 'token-is-the-text', w, f'the string token holds {short(t.a[3])}', 'text')
            rep.ob(len(new) <= 2, 'no-other-token', w, f'{len(new)} tokens come from one string literal', 'tokens')
    if not n: raise Limit('no turn of the lexer starts at a quotation mark')
def quote(x):
    """the character a condition compares with the quotation mark"""
    a, b = x.a
    if b.op == 'elem' and a.op != 'elem': a, b = b, a
    return a if a.op == 'elem' and isconst(b) and b.a[0] in ('"', 34) else None
LEVELS = (('parse_comparison', 'parse_concatenation', {'Eq', 'Neq', 'Gt', 'Gtq', 'Lt', 'Ltq'}), ('parse_concatenation', 'parse_expr', {'Ampersand'}), ('parse_expr', 'parse_term', {'Plus', 'Minus'}), ('parse_term', 'parse_factor', {'Multiply', 'Divide'}))
@check('E03', 'Grammar extraction from the calculation parser: for each precedence level the operators its loop accepts, the level its operands come from, and the tree it builds from one operator (the tree so far on '
       'the left, the operator read, the next operand on the right); what a parenthesis starts again from the lowest level; and the level a calculation starts at.')
def e03(F, rep, tier):
    P = 'testing::calc_eval::Parser::'; N = 'testing::calc_eval::Node'; TT = 'testing::calc_tokens::TokenType'
    kinds = {v['discr']: v['name'] for v in F.adts[TT]['variants']}; nodes = F.adts[N]['variants']
    for l in LEVELS:
        if P + l[0] not in F.fns: raise Limit(f'{P + l[0]} is gone')
    helpers = {p for p in F.fns if p.startswith('testing::calc_eval::TokenList::')}
    for name, below, ops in LEVELS:
        q = P + name; w = f'{F.fns[q].span} {q}'
        E, outs = run(F, rep, q, helpers | {P + x[0] for x in LEVELS} - {q} | {P + 'parse_factor'})
        first = {e.name.split('::')[-1] for s, _ in outs for e in s.events if e.kind == 'call' and e.name.startswith(P)}
        rep.ob(first == {below}, 'first-operand', w, f'the first operand comes from {sorted(first)}', f'{name}-first')
        seen = set()
        for L in E.looprecs:
            for b, vals in L.backs:
                yes = {kinds.get(x.a[1].a[0]) for x, t in b.facts[L.nf:] if x.op == 'eq' and x.a[0].op == 'discr' and isconst(x.a[1]) and t and not ('next' in pp(x.a[0].a[0], 2)) and contains_call(x.a[0], 'current')}
                evs = [e for e in b.events[L.nev:] if e.kind == 'call' and e.name.startswith(P)]
                lhs = [(ph, b.val(v)) for ph, v in vals.items() if b.val(v) is not ph and any(y.op == 'adt' and y.a[0] == N for y in subterms(b.val(v)))]
                if not yes and not lhs: continue
                seen |= yes
                rep.ob(yes <= ops and yes, 'operators-of-the-level', w, f'at the level of {sorted(ops)} also {sorted(str(y) for y in yes - ops)} is accepted', f'{name}-ops')
                rep.ob([e.name.split('::')[-1] for e in evs] == [below], 'operand-binds-tighter', w, f'the right operand of {sorted(str(y) for y in yes)} comes from {[e.name.split("::")[-1] for e in evs]}', f'{name}-right')
                if len(lhs) != 1: raise Limit(f'{w}: what an operator builds was not recognised')
                ph, v = lhs[0]; t = next(y for y in subterms(v) if y.op == 'adt' and y.a[0] == N); fs = {f[0]: t.a[2 + i] for i, f in enumerate(nodes[t.a[1]]['fields'])}
                rep.ob(fs.get('left') is ph or unbox(b, fs.get('left')) is ph, 'left-associative', w, f'the left operand of the new tree is {short(fs.get("left"))}, not the tree so far', f'{name}-left')
                rep.ob(bool(evs) and fs.get('right') is not None and any(z.op == 'call' and z.a[0] == P + below for z in subterms(b.val(fs['right']))), 'right-operand', w, f'the right operand of the new tree is {short(fs.get("right"))}', f'{name}-rhs')
                if 'operation' in fs: rep.ob(contains_call(b.val(fs['operation']), 'current'), 'operator-kept', w, f'the operator of the new tree is {short(fs["operation"])}', f'{name}-op')
        rep.ob(seen == ops, 'all-operators', w, f'{sorted(ops - seen)} cannot be parsed at their level', f'{name}-all')
    q = P + 'parse_factor'; E, outs = run(F, rep, q, helpers | {P + x[0] for x in LEVELS} | {P + 'parse_primary', P + 'parse_args'}); par = 0
    for s, r in outs:
        op = {kinds.get(x.a[1].a[0]) for x, t in s.facts if x.op == 'eq' and x.a[0].op == 'discr' and isconst(x.a[1]) and t and contains_call(x.a[0], 'current')}
        if op == {'OpenParen'}:
            par += 1; evs = [e.name.split('::')[-1] for e in s.events if e.kind == 'call' and e.name.startswith(P)]
            rep.ob(evs == ['parse_comparison'], 'parentheses-restart', f'{F.fns[q].span} {q}', f'inside parentheses parsing goes on at {evs}', 'paren')
    rep.ob(par > 0, 'parentheses-accepted', f'{F.fns[q].span} {q}', 'a parenthesis cannot start an operand', 'paren-none')
    q = P + 'parse'; E, outs = run(F, rep, q, helpers | {P + x[0] for x in LEVELS})
    for s, r in outs:
        evs = [e.name.split('::')[-1] for e in s.events if e.kind == 'call' and e.name.startswith(P)]
        rep.ob(evs == ['parse_comparison'], 'starts-at-lowest', f'{F.fns[q].span} {q}', f'a calculation is parsed from {evs}', 'start')
def contains_call(t, n): return any(z.op == 'call' and str(z.a[0]).endswith('::' + n) for z in subterms(t))
def unbox(st, t):
    t = st.val(t) if t is not None else None
    return t.a[0] if t is not None and t.op == 'box' else t

NODE, TOK = 'testing::calc_eval::Node', 'testing::calc_tokens::TokenType'
ARITH = {'Plus': 'Add', 'Minus': 'Sub', 'Multiply': 'Mul', 'Divide': 'Div'}
COMPARE = {'Eq': (0, 1, 0), 'Neq': (1, 0, 1), 'Lt': (1, 0, 0), 'Ltq': (1, 1, 0), 'Gt': (0, 0, 1), 'Gtq': (0, 1, 1)}     # holds when left is less than, equal to, greater than right
ONECHAR = {'+': 'Plus', '-': 'Minus', '*': 'Multiply', '/': 'Divide', '&': 'Ampersand', '(': 'OpenParen', ')': 'CloseParen', ',': 'Comma'}
TWOCHAR = {('=', True): 'Eq', ('!', True): 'Neq', ('<', True): 'Ltq', ('<', False): 'Lt', ('>', True): 'Gtq', ('>', False): 'Gt'}
FLOATFN = {'Abs': 'f64.abs', 'Acos': 'f64.acos', 'Asin': 'f64.asin'}
@check('E01', 'Symbolic evaluation of the calculation evaluator per node kind and operator: the arithmetic operation and the operands, in order, that its result is built from; the truth table of each comparison over the '
       'three orderings of its operands, and whether numbers are compared as numbers; the pieces of a concatenation; the operation each built-in function applies to its arguments; and, from the lexer, the operator '
       'each character stands for.')
def e01(F, rep, tier):
    import p_test
    q = 'testing::test::TestEnvironment::evaluate'; opv = 'testing::test::TestEnvironment::get_operand_val'; lex = 'testing::test::TestEnvironment::eval_calculation'
    for x in (q, opv, lex):
        if x not in F.fns: raise Limit(f'{x} is gone')
    made = p_test.built(F, [lex], NODE); kinds = {v['discr']: v['name'] for v in F.adts[TOK]['variants']}; nodes = {v['discr']: (i, v) for i, v in enumerate(F.adts[NODE]['variants'])}
    E, outs = run(F, rep, q, {q, opv}, None, 20000); fn = F.fns[q]; ast = mk('sym', fn.names.get(2, 'ast')); seen = set()
    for st, r in outs:
        k = next((x.a[1].a[0] for x, t in st.facts if t and x.op == 'eq' and x.a[0].op == 'discr' and x.a[0].a[0].op == 'deref' and x.a[0].a[0].a[0] is ast and isconst(x.a[1])), None)
        if k is None or k not in nodes: continue
        vi, v = nodes[k]; name = v['name']
        if vi not in made: continue                 # no parser builds it
        r = st.val(r); fs = {f[0]: i for i, f in enumerate(v['fields'])}
        w = f'{fn.span} {q}: {name}'
        if name in ('Binary', 'Comparison'):
            o = next((kinds.get(x.a[1].a[0]) for x, t in st.facts if t and x.op == 'eq' and x.a[0].op == 'discr' and isconst(x.a[1]) and parts(x.a[0].a[0], vi) == {fs['operation']}), None)
            if o is None: raise Limit(f'{w}: the operator is not told apart')
            seen.add(o)
            if name == 'Binary':
                if o not in ARITH: continue
                if isconst(r) and isinstance(r.a[0], str):
                    no = any(not t and x.op == 'eq' and x.a[0].op == 'discr' and contains_call(x.a[0], 'get_operand_val') for x, t in st.facts) or any(x.op == 'eq' and 'parse' in pp(x, 3) and t and x.a[1] is INT(1) for x, t in st.facts)
                    rep.ob(no and not is_number(r.a[0]), 'operation', f'{w} {o}', f'two numbers give the constant {short(r)}', o)
                    continue
                ok = r.op == 'tostro' and r.a[0].op == 'fop' and r.a[0].a[0] == ARITH[o] and parts(r.a[0].a[1], vi) == {fs['left']} and parts(r.a[0].a[2], vi) == {fs['right']}
                rep.ob(ok, 'operation', f'{w} {o}', f'{o} yields {short(r)}', o)
            else:
                tab, num = truth(st, r, vi, fs)
                if tab is None: raise Limit(f'{w} {o}: the result is {short(r)}')
                rep.ob(all(x is None or x == y for x, y in zip(tab, COMPARE[o])), 'comparison', f'{w} {o}', f'{o} holds for less, equal, greater: {tab}', o)
                text_only = any(not t and x.op == 'eq' and x.a[0].op == 'discr' and contains_call(x.a[0], 'get_operand_val') for x, t in st.facts)
                rep.ob(num or text_only, 'numbers-as-numbers', f'{w} {o}', f'{o} compares two numbers as texts', f'{o}-text')
        elif name == 'Concatenation':
            ps = cat_parts(r); sides = [parts(x, vi) for x in ps if not isconst(x)]
            rep.ob(sides == [{fs['left']}, {fs['right']}], 'concatenation', w, f'the concatenation is {short(r)}', 'Ampersand')
            rep.ob(all(isconst(x) and x.a[0] == '"' for x in (ps[0], ps[-1])) and len(ps) == 4, 'is-a-text', w, f'the concatenation is {short(r)}', 'Ampersand-text')
            seen.add('Ampersand')
        elif name == 'Call':
            fname = next((x.a[1].a[0] for x, t in st.facts if t and x.op == 'eq' and isconst(x.a[1]) and isinstance(x.a[1].a[0], str) and parts(x.a[0], vi) == {fs['name']}), None)
            if fname is None: continue
            seen.add(fname)
            if fname in FLOATFN:
                ok = r.op == 'tostro' and pp(r.a[0], 1).startswith(FLOATFN[fname] + '(') and parsed(r) and args_used(r, vi, fs) == {0}
                rep.ob(ok, 'built-in', f'{w} {fname}', f'{fname} yields {short(r)}', fname)
            elif fname == 'Char':
                ok = 'from_u32' in pp(r, 6) and args_used(r, vi, fs) == {0}
                rep.ob(ok, 'built-in', f'{w} {fname}', f'{fname} yields {short(r)}', fname)
            elif fname == 'Min':
                rep.ob('agg(min' in pp(r, 6) and parts(r, vi) == {fs['args']}, 'built-in', f'{w} {fname}', f'{fname} yields {short(r)}', fname)
        elif name in ('Number', 'StringLiteral', 'Variable', 'Field', 'Unary'):
            rep.ob(parts(r, vi) == {0}, 'operand', w, f'the operand yields {short(r)}', name)
    for o in (*ARITH, *COMPARE, 'Ampersand'): rep.ob(o in seen, 'operator-evaluated', f'{fn.span} {q}', f'{o} is not evaluated', f'{o}-seen')
    rep.count('operators_and_functions', len(seen))
    # the comparison the smallest argument is chosen by
    for c in sorted(x for x in F.fns if x.startswith(q + '::{closure#')):
        try: E2, o2 = run(F, rep, c, {opv, q})
        except Limit: continue
        for s, r in o2:
            r = s.val(r)
            if not (r.op == 'adt' and 'Ordering' in str(r.a[0]) or isconst(r)): continue
            both = sum(1 for x, t in s.facts if t and x.op == 'eq' and x.a[0].op == 'discr' and contains_call(x.a[0], 'get_operand_val') and 'parse' not in pp(x, 3)) == 2
            cmps = [x for x, t in s.facts if x.op in ('lt', 'eq') and x.a[0].op != 'discr' and contains_call(x, 'get_operand_val')]
            if both and cmps: rep.ob(all(parsed(x) for x in cmps), 'numbers-as-numbers', f'{F.fns[c].span} {c}', 'two numbers are ordered as texts', 'Min-text')
    lexer_operators(F, rep, lex, q)
    arguments(F, rep)
def parts(t, vi):
    """the fields of the node that a value is built from"""
    return {x.a[1] for x in subterms(t) if x.op == 'fld' and x.a[0].op == 'dc' and x.a[0].a[1] == vi and x.a[0].a[0].op == 'deref' and x.a[0].a[0].a[0].op == 'sym'}
def args_used(t, vi, fs):
    """which arguments of a call a value is built from"""
    return {x.a[1].a[0] if isconst(x.a[1]) else '?' for x in subterms(t) if x.op == 'elem' and parts(x.a[0], vi) == {fs['args']}}
def parsed(t):
    """the value is built from a text read as a number of full precision"""
    return any(x.op == 'call' and x.a[0] == 'parse' and x.a[1].a[0] == 'f64' for x in subterms(t))
def cat_parts(t):
    return cat_parts(t.a[0]) + cat_parts(t.a[1]) if t.op == 'cat' else [t]
def is_number(s):
    try: float(s); return True
    except ValueError: return False
def truth(st, r, vi, fs):
    """what a comparison yields when its left operand is less than, equal to and greater than the right one (None: this path does not occur then), and whether the operands are compared as numbers"""
    num = []
    def ev(x, o):
        if x.op == 'tostro' or x.op == 'tostr': return ev(x.a[0], o)
        if x.op == 'not': v = ev(x.a[0], o); return None if v is None else not v
        if isconst(x): return {'true': True, 'false': False, True: True, False: False, 1: True, 0: False}.get(x.a[0])
        if x.op in ('lt', 'eq'):
            a, b = parts(x.a[0], vi), parts(x.a[1], vi)
            if a | b != {fs['left'], fs['right']} or a == b: return None
            num.append(parsed(x.a[0]) and parsed(x.a[1]))
            if x.op == 'eq': return o == 1
            return o == 0 if a == {fs['left']} else o == 2
        return None
    tab = []
    for o in range(3):
        v = ev(r, o)
        if v is None: return None, False
        hyp = [ev(x, o) == t for x, t in st.facts if x.op in ('lt', 'eq') and ev(x, o) is not None and x.a[0].op != 'discr']
        tab.append(int(v) if all(hyp) else None)
    return tuple(tab), bool(num) and all(num)
def lexer_operators(F, rep, lex, q):
    kinds = {i: v['name'] for i, v in enumerate(F.adts[TOK]['variants'])}; T = 'testing::calc_tokens::Token'
    E, outs = run(F, rep, lex, {p for p in F.fns if p.startswith('testing::calc_eval::') and '{closure' not in p} | {q}); seen = set()
    w = f'{F.fns[lex].span} {lex}'
    for L in E.looprecs:
        base = next((ph for ph, (pl, i) in L.phis.items() if i.op == 'vec'), None); pos = [ph for ph, (pl, i) in L.phis.items() if i is INT(0)]
        if base is None or not pos: continue
        for b, vals in L.backs:
            def here(x, t, off):
                if not t or x.op != 'eq': return None
                a, c = x.a if isconst(x.a[1]) else reversed(x.a)
                return c.a[0] if isconst(c) and a.op == 'elem' and any(a.a[1] is add(p, INT(off)) for p in pos) else None
            ch = next((y for y in (here(x, t, 0) for x, t in b.facts[L.nf:]) if y is not None), None)
            nxt = next((y for y in (here(x, t, 1) for x, t in b.facts[L.nf:]) if y is not None), None)
            ch, nxt = (chr(x) if isinstance(x, int) else x for x in (ch, nxt))
            if ch is None or ch not in ONECHAR and ch not in ('=', '!', '<', '>'): continue
            want = ONECHAR.get(ch) or TWOCHAR.get((ch, nxt == '='))
            t = b.val(vals[base]); new = []
            while t.op == 'push': new.append(t.a[1]); t = t.a[0]
            if any(n.op != 'adt' or n.a[0] != T for n in new): raise Limit(f'{w}: a token is {short(new[0])}')
            ops = [kinds[n.a[2].a[1]] for n in reversed(new)]; ops = [o for o in ops if o not in ('Identifier', 'NumericLiteral')]
            rep.ob(ops == ([want] if want else []), 'operator-of-the-character', w, f'{ch}{nxt if nxt == "=" else ""} becomes {ops}', f'lex-{want or ch}'); seen.add(want)
    for o in (*ONECHAR.values(), *TWOCHAR.values()): rep.ob(o in seen, 'operator-of-the-character', w, f'no turn of the lexer yields {o}', f'lex-{o}-seen')
def arguments(F, rep):
    """a call is recognised at its name, with the parenthesis as the next token: its first argument has to be read from two tokens further on"""
    P = 'testing::calc_eval::Parser::'; q = P + 'parse_args'
    if q not in F.fns: raise Limit(f'{q} is gone')
    E, outs = run(F, rep, q, {p for p in F.fns if p.startswith('testing::calc_eval::TokenList::')} | {p for p in F.fns if p.startswith(P)} - {q}); w = f'{F.fns[q].span} {q}'
    if not outs: raise Limit(f'{w}: no path')
    for s, r in outs:
        evs = [e for e in s.events if e.kind in ('call', 'loop')]; n = 0; first = None
        for e in evs:
            if e.kind == 'loop':
                turn = next((b for b, v in e.data.backs), None) or (e.data.exits[0] if e.data.exits else None)
                if turn is None: continue
                evs2 = [x for x in turn.events[e.data.nev:] if x.kind == 'call']
            else: evs2 = [e]
            for x in evs2:
                if x.name.endswith('TokenList::next'): n += 1
                elif x.name.startswith(P): first = x; break
            if first: break
        if first is None: raise Limit(f'{w}: no argument is parsed')
        rep.ob(n == 2, 'arguments-behind-parenthesis', w, f'the first argument is read from {n} token(s) behind the name of the function ({first.name.split("::")[-1]})', 'arguments')

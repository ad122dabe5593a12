"""The test runner (src/testing): V02, V03, V04, V06, V07."""
from lib import *
CHECKS, INFO = {}, {}
def check(pid, info):
    def w(f): CHECKS[pid] = f; INFO[pid] = info; return f
    return w
ENV = 'testing::test::TestEnvironment'
STEP = ENV + '::step'

class Path:
    """One way through a step of the interpreter."""
    def __init__(self, R, st, E):
        self.st, self.E = st, E; F = R.F
        self.old = mk('sym', R.self); self.new = st.val(st.read((mk('sym', R.self + '.ptr'), ())))
        self.op = None; self.not_ = set()
        for x, t in st.facts:
            k = R.opcode(st, x)
            if k is not None:
                if t: self.op = k
                else: self.not_.add(k)
        self.pop = None
    def get(self, R, name): return fld(self.old, R.ix[name]), self.st.val(fld(self.new, R.ix[name]))
    def mode(self, R):
        for x, t in self.st.facts:
            if x.op == 'eq' and x.a[0].op == 'discr' and x.a[0].a[0] is fld(self.old, R.ix['mode']) and t: return R.modes.get(x.a[1].a[0], '?')
        return None
    def calls(self): return [e for e in self.st.events if e.kind == 'call']

class Runner:
    def __init__(self, F, rep):
        self.F = F
        if STEP not in F.fns: raise Limit('the interpreter step is gone')
        self.fn = F.fns[STEP]; self.self = self.fn.names.get(1, 'self')
        self.ix = {f[0]: i for i, f in enumerate(F.adts[ENV]['variants'][0]['fields'])}
        for n in ('instruction_ptr', 'variables', 'test_state', 'mode', 'database', 'find_criteria', 'current_test'):
            if n not in self.ix: raise Limit(f'the field {n} of the test environment is gone')
        ins = next(a for p, a in F.adts.items() if p.endswith('::Instruction') and a['local'])
        self.ins = {v['discr']: v['name'] for v in ins['variants']}; self.insty = ins['path']
        self.modes = {v['discr']: v['name'] for v in F.adts['testing::test::Mode']['variants']}
        self.states = {v['discr']: v['name'] for v in F.adts['testing::test::TestState']['variants']}
        stack = fld(mk('sym', self.self), self.ix['instruction_ptr'])
        self.top = elem(stack, add(length(stack), INT(-1))); self.ip0 = fld(self.top, 1)
        opq = {p for p in F.fns if p.startswith(('testing::database::', 'testing::layout_mgr', 'testing::relation')) and '{closure' not in p} | {ENV + '::eval_calculation'}
        self.E, self.outs = run(F, rep, STEP, opq)
        self.paths = [Path(self, s, self.E) for s, _ in self.outs]
        rep.count('paths_of_a_step', len(self.paths))
    def opcode(self, st, x):
        """the step kind a condition asks the current step for"""
        if x.op == 'eq' and x.a[0].op == 'discr' and isconst(x.a[1]):
            t = x.a[0].a[0]
            if t.op == 'fld' and t.a[0].op == 'elem' and W_same(t.a[0].a[1], self.ip0): return x.a[1].a[0]
        return None
def W_same(a, b): return a is b or pp(a, 12) == pp(b, 12)

def at(stack): return elem(stack, add(length(stack), INT(-1)))
def through_refs(st, t):
    m = {}
    for x in subterms(t):
        if x.op == 'deref' and x.a[0].op == 'ref': m[x] = st.val(st.read((x.a[0].a[0], x.a[0].a[1])))
    return replace(t, m) if m else t
def height(st, v, old, d=0):
    """how many entries a stack has gained (None: unknown)"""
    if v is old: return 0
    if v.op == 'push': k = height(st, v.a[0], old, d); return None if k is None else k + 1
    if v.op == 'pop': k = height(st, v.a[0], old, d); return None if k is None else k - 1
    if v.op in ('set', 'upd'): return height(st, v.a[0], old, d)
    ph, ch = ph_path(v)
    L = loop_of(st, ph) if ph is not None else None
    if L is not None and d < 4:
        if any(height(b, b.val(acc(vals[ph], ch)), v, d + 1) != 0 for b, vals in L.backs): return None
        return height(L.base, acc(L.phis[ph][1], ch), old, d + 1)
    return None
def zero_times(st, L, facts):
    """Could the loop have been left before its first turn?  (its conditions with the starting values, under what was known before it)"""
    m = {ph: init for ph, (pl, init) in L.phis.items()}
    s = L.base.fork()
    for x, t in facts:
        y = through_refs(s, replace(x, m))
        d = s.decide(y)
        if d is not None and d != t: return False
        if d is None and not s.assume(y if t else mk('not', y)): return False
    return True
def ph_path(t):
    ch = []
    while t.op in ('fld', 'dc', 'elem'): ch.append((t.op, t.a[1])); t = t.a[0]
    return (t, ch[::-1]) if t.op == 'phi' else (None, None)
def acc(t, ch):
    for op, i in ch: t = fld(t, i) if op == 'fld' else dc(t, i) if op == 'dc' else elem(t, i)
    return t
def one(t):
    c, parts = lin_parts(t)
    return (c, parts[0][0]) if len(parts) == 1 and parts[0][1] == 1 else (c, None)
def advance(R, st, t, depth=0):
    """(lower bound of t - the position of the current step, exact?) or None"""
    c, x = one(t)
    if x is None: return None
    if W_same(x, R.ip0): return c, True
    ph, ch = ph_path(x)
    L = loop_of(st, ph) if ph is not None else None
    if L is None or depth > 4: return None
    a = advance(R, L.base, acc(L.phis[ph][1], ch), depth + 1)
    if a is None: return None
    step = None
    for b, vals in L.backs:
        c2, x2 = one(b.val(acc(vals[ph], ch)))
        if x2 is None or not W_same(x2, x) or c2 < 0: return None
        step = c2 if step is None else min(step, c2)
    once = bool(step) and not zero_times(st, L, st.facts[L.nf:])
    return c + a[0] + (step if once else 0), False

JUMPS = {'If', 'ElseIf', 'Else', 'ExitLoopIf', 'GoToRecordRequestPage', 'EndLoop', 'PerformScript', 'ExitScript'}
@check('V04', 'Path-partitioned abstract interpretation of one interpreter step: on every path the call stack grows, shrinks, or the position in it is shown to change (loops that scan ahead by the induction of '
       'the scanned position, and by the contradiction of leaving them before the first turn); a step that is not a jump advances by exactly one, and a call leaves the caller one behind itself.')
def v04(F, rep, tier):
    R = Runner(F, rep); n = fld(R.top, 0)
    for p in R.paths:
        o, v = p.get(R, 'instruction_ptr'); st = p.st
        name = R.ins.get(p.op, 'other' if p.not_ else 'end of script')
        where = f'{R.fn.span} {STEP}: {name} [{facts_str(st.facts[-3:], 3)}]'
        h = height(st, v, o)
        if h is None: raise Limit(f'{where}: the call stack becomes {short(v)}')
        below = add(length(o), INT(-1))
        q = st.val(fld(elem(strip(v, h), below), 1))
        if h == 1:
            a = advance(R, st, q)
            rep.ob(a == (1, True), 'caller-continues-behind-the-call', where, f'a script is entered while the caller is left at {short(q)} instead of one behind its own step', f'{name}-caller')
            continue
        if h == -1:
            rep.ob(name == 'end of script' or name == 'ExitScript', 'leaves-script', where, 'a step leaves the script it is in', f'{name}-pop'); continue
        if h != 0: rep.ob(False, 'one-change', where, f'the call stack changes by {h} scripts in one step', f'{name}-height'); continue
        a = advance(R, st, q)
        if name not in JUMPS:
            if a is None: raise Limit(f'{where}: the position becomes {short(q)}')
            rep.ob(a == (1, True), 'next-step', where, f'a step that is not a jump continues at {short(q)}', f'{name}-next'); continue
        if a is None and loops_back(R, q): rep.ob(True, 'moves', where, ''); continue
        if a is None: raise Limit(f'{where}: the position becomes {short(q)}')
        rep.ob(a[0] >= 1, 'moves', where, f'the step can leave the position where it is ({short(q)})', f'{name}-stays')
def strip(v, h):
    if h > 0 and v.op == 'push': return strip(v.a[0], h - 1)
    return v
def loops_back(R, q):
    """behind a recorded start of a loop"""
    c, x = one(q)
    return c == 1 and x is not None and x.op == 'elem' and x.a[0] is fld(mk('sym', R.self), R.ix.get('loop_scopes', -1))

@check('V03', 'The same paths: the stack of scripts and the stack of variable scopes always change by the same number of entries, a new scope is empty, the new position is at the called script\'s first step, and '
       'variables are read and written in the scope of the running script. Starting a test opens one of each.')
def v03(F, rep, tier):
    R = Runner(F, rep)
    for p in R.paths:
        o, v = p.get(R, 'instruction_ptr'); o2, v2 = p.get(R, 'variables'); st = p.st
        name = R.ins.get(p.op, 'other' if p.not_ else 'end-of-script')
        where = f'{R.fn.span} {STEP}: {name} [{facts_str(st.facts[-3:], 3)}]'
        h, h2 = height(st, v, o), scopes(R, st, v2, o2)
        if h is None or h2 is None: raise Limit(f'{where}: stacks become {short(v)} / {short(v2)}')
        what = 'no script entered' if h == 0 else 'a script entered' if h > 0 else 'a script left'
        rep.ob(h == h2, 'paired', where, f'{what}, while {abs(h2) or "no"} variable scope(s) {"opened" if h2 > 0 else "closed" if h2 < 0 else "closed or opened"}', f'{name}-{h}-{h2}')
        if h == 1:
            e = v.a[1] if v.op == 'push' else None
            rep.ob(e is not None and e.op == 'tup' and e.a[1] is INT(0), 'starts-at-first-step', where, f'the called script starts at {short(e) if e is not None else "?"}', f'{name}-start')
        if h2 == 1: rep.ob(v2.op == 'push' and v2.a[1].op == 'map0', 'empty-scope', where, f'the new scope is {short(v2)}', f'{name}-scope')
        for e in effects(st, p.old, p.new):
            if e.path[0] == ('f', R.ix['variables']) and len(e.path) > 1:
                ok = e.path[1][0] == 'e' and current(R, e.path[1][1])
                rep.ob(ok, 'current-scope', where, f'a variable is written in scope {short(e.path[1][1]) if e.path[1][0] == "e" else "?"} instead of the running script\'s', f'{name}-wscope')
    # reading
    nm = ENV + '::get_operand_val'
    reads = 0
    if nm in F.fns:
        E, outs = run(F, rep, nm, opq_db(F) | {nm})
        for s, _ in outs:
            me = mk('sym', F.fns[nm].names.get(1, 'self'))
            for x in {y for f, _ in s.facts for y in subterms(f)}:
                if x.op == 'elem' and x.a[0] is fld(me, R.ix['variables']):
                    reads += 1; rep.ob(top_of(x.a[1], fld(me, R.ix['instruction_ptr'])) or top_of(x.a[1], x.a[0]), 'current-scope', f'{F.fns[nm].span} {nm}', f'a variable is read in scope {short(x.a[1])} instead of the running script\'s', 'rscope')
    if not reads: raise Limit('where variables are read was not found')
    lt = ENV + '::load_test'
    E, outs = run(F, rep, lt)
    for s, _ in outs:
        me = F.fns[lt].names.get(1, 'self'); old = mk('sym', me); new = s.val(s.read((mk('sym', me + '.ptr'), ())))
        a, b = (height(s, s.val(fld(new, R.ix[x])), fld(old, R.ix[x])) for x in ('instruction_ptr', 'variables'))
        va, vb = (s.val(fld(new, R.ix[x])) for x in ('instruction_ptr', 'variables'))
        fresh = lambda v: v.op in ('vec',) or v.op == 'push' and v.a[0].op == 'vec'
        n = lambda v: len(v.a) if v.op == 'vec' else 1 + len(v.a[0].a) if v.op == 'push' and v.a[0].op == 'vec' else None
        a, b = (a if a is not None else n(va)), (b if b is not None else n(vb))
        if a is None or b is None: raise Limit(f'{lt}: stacks become {short(va)} / {short(vb)}')
        rep.ob(a == 1 and b == 1, 'paired', f'{F.fns[lt].span} {lt}', f'starting a test opens {a} script(s) and {b} scope(s)', 'load')
def opq_db(F): return {p for p in F.fns if p.startswith('testing::database::') and '{closure' not in p}
def top_of(i, stack): return i is add(length(stack), INT(-1))
def current(R, i):
    me = mk('sym', R.self)
    return top_of(i, fld(me, R.ix['instruction_ptr'])) or top_of(i, fld(me, R.ix['variables']))
def scopes(R, st, v, old):
    return height(st, v, old)

EVAL = ENV + '::eval_calculation'
def asked(R, p, i):
    """facts about the value of the step's i-th argument: {text: holds}"""
    r = {}
    for x, t in p.st.facts:
        if x.op != 'eq': continue
        a, b = x.a
        if b.op == 'call' or b.op == 'str' and False: a, b = b, a
        if a.op == 'str' and b.op != 'str': a, b = b, a
        if b.op == 'str' and is_eval(R, a, i): r[b.a[0]] = t
    return r
def is_eval(R, a, i):
    if not (a.op == 'call' and a.a[0] == EVAL): return False
    x = a.a[-1]
    return x.op == 'elem' and x.a[1] is INT(i) and x.a[0].op == 'fld' and x.a[0].a[0].op == 'elem' and W_same(x.a[0].a[0].a[1], R.ip0)
def variant(t): return t.a[1] if t.op == 'adt' else None

@check('V02', 'Typestate of the verdict. Every path of one step: the verdict becomes a failure exactly on the paths of an assertion whose value is known to be "false", and is otherwise left alone. Every path of the two '
       'functions that run the tests: a step is only executed while the verdict is a pass, and a finished test reports exactly the outcome its verdict says. No other function writes the verdict to a pass while a test runs.')
def v02(F, rep, tier):
    R = Runner(F, rep); k = R.ix['test_state']; S = {n: d for d, n in R.states.items()}
    if set(S) != {'Pass', 'Fail'}: raise Limit('the verdict has other values than pass and fail')
    asserts = 0
    for p in R.paths:
        o, v = p.get(R, 'test_state'); name = R.ins.get(p.op, 'other' if p.not_ else 'end-of-script')
        where = f'{R.fn.span} {STEP}: {name} [{facts_str(p.st.facts[-3:], 3)}]'
        said = asked(R, p, 0).get('false') if name == 'Assert' else None
        failed = variant(v) is not None and R.F.adts['testing::test::TestState']['variants'][variant(v)]['name'] == 'Fail'
        if v is not o and not failed: rep.ob(False, 'verdict-only-fails', where, f'a step sets the verdict to {short(v)}', f'{name}-reset'); continue
        if name == 'Assert':
            asserts += 1
            if said is None and not failed and not any(e.kind == 'call' and e.name == EVAL for e in p.st.events): rep.ob(False, 'assertion-evaluated', where, 'an assertion is passed over without being evaluated', 'Assert-skipped'); continue
            if said is None and not failed: raise Limit(f'{where}: how the value of an assertion is judged was not recognised')
            rep.ob(failed == bool(said), 'false-fails', where, 'a false assertion does not fail the test' if said else 'the test fails although its assertion was not false', 'Assert-verdict')
        else: rep.ob(not failed, 'only-assertions-fail', where, 'a step that is not an assertion fails the test', f'{name}-fails')
    rep.ob(asserts > 0, 'assertions-exist', R.fn.span, 'no path executes an assertion', 'no-assert')
    # the functions that run tests
    drivers = test_drivers(F)
    rep.count('functions_running_tests', len(drivers))
    for q in sorted(drivers):
        fn = F.fns[q]; me = fn.names.get(1, 'self')
        E, outs = run(F, rep, q, {STEP, ENV + '::load_test'} | opq_db(F))
        outer = None
        for L in E.looprecs:
            for st, vals in L.backs:
                ev = st.events[L.nev:]
                for e in ev:
                    if e.kind == 'call' and e.name == STEP:
                        cur = e.args[0] if e.args[0].op != 'ref' else st.val(e.args[0])
                        d = [t for x, t in st.facts[:e.nf] if x is eq(discr(fld(cur, k)), INT(S['Pass']))] + [not t for x, t in st.facts[:e.nf] if x is eq(discr(fld(cur, k)), INT(S['Fail']))]
                        rep.ob(True in d, 'step-only-while-passing', f'{e.span} {q}', 'a step is executed without the verdict being known to be a pass', f'{q.split("::")[-1]}-step')
                if any(e.kind == 'loop' and any(x.kind == 'call' and x.name == STEP for b, _ in e.data.backs for x in b.events[e.data.nev:]) for e in ev):
                    outer = L
                    new = [v for ph, v in vals.items() if L.phis[ph][0][0] is mk('sym', me + '.ptr') and not L.phis[ph][0][1]]
                    cur = st.val(new[0] if new else st.read((mk('sym', me + '.ptr'), ())))
                    dp = st.decide(eq(discr(fld(cur, k)), INT(S['Pass']))); df = st.decide(eq(discr(fld(cur, k)), INT(S['Fail'])))
                    if dp is False and df is False: continue            # a third verdict does not exist
                    verdict = 'Pass' if dp or df is False else 'Fail' if df or dp is False else None
                    texts = [''.join(x for x in (fmt_text(e.args[0]) or []) if isinstance(x, str)) for e in ev if e.kind == 'print']
                    good = sum('Success' in t for t in texts); bad = sum('Fail' in t for t in texts)
                    where = f'{fn.span} {q} [{facts_str(st.facts[-3:], 3)}]'
                    if verdict is None: rep.ob(not good and not bad, 'outcome-follows-verdict', where, 'an outcome is reported without looking at the verdict', f'{q.split("::")[-1]}-report')
                    if verdict is None: continue
                    rep.ob((good, bad) == ((1, 0) if verdict == 'Pass' else (0, 1)), 'outcome-follows-verdict', where, f'a test whose verdict is {verdict} reports success {good} time(s) and failure {bad} time(s)', f'{q.split("::")[-1]}-report')
                    if verdict == 'Pass':
                        done = [t for x, t in st.facts if x is eq(length(fld(cur, R.ix['instruction_ptr'])), INT(0))]
                        rep.ob(True in done, 'success-only-at-the-end', where, 'success is reported although the test has not come to its end', f'{q.split("::")[-1]}-end')
        if outer is None: raise Limit(f'{q}: the loop over the tests was not found')
    # nobody else makes it a pass
    seen_by = {STEP, ENV + '::new', ENV + '::load_test'}; cs = callers(F)
    while True:         # helpers called from nowhere else have been followed with their callers
        more = {q for q in F.fns if q not in seen_by and cs.get(q) and all(c in seen_by or c in drivers for c in cs[q])} - set(drivers)
        if not more: break
        seen_by |= more
    for f in non_test(F):
        if f.path in seen_by or f.path in drivers: continue
        for b in f.blocks:
            for s in (b['s'] if b else ()):
                if s[0] == '=' and any(isinstance(e, list) and e[:1] == ['f'] for e in s[1][1:]) and writes_field(F, f, s[1], ENV, k): raise Limit(f'{f.path} also writes the verdict')
def test_drivers(F):
    """the methods of the environment that run tests: those that lead to a step and are not themselves part of another such method"""
    cs = callers(F); mine = lambda q: q.startswith(ENV + '::') and '{closure' not in q
    up = set(); todo = [STEP]
    while todo:
        for c in cs.get(todo.pop(), ()):
            c = c.split('::{closure')[0]
            if mine(c) and c not in up and c != STEP: up.add(c); todo.append(c)
    return sorted(q for q in up if not any(c.split('::{closure')[0] in up and c != q for c in cs.get(q, ())))
def fmt_text(t):
    try: return fmt_parts(t)
    except Exception: return None
def writes_field(F, f, pl, adt, k):
    ty = f.locals[pl[0]]
    for e in pl[1:]:
        if e == '*' or e == ['*']:
            t = F.ty(ty); ty = t.get('to', ty); continue
        if isinstance(e, list) and e and e[0] == 'f':
            if F.tstr(ty).split('<')[0] == adt and e[1] == k: return True
            if len(e) > 2 and isinstance(e[2], int): ty = e[2]
            else: return False
    return False

def unimplemented(R, p):
    """the path does nothing but tell the user it does nothing, and goes on"""
    ef = [e for e in effects(p.st, p.old, p.new) if e.path[0] != ('f', R.ix['instruction_ptr'])]
    if ef or p.calls(): return False
    return any(e.kind == 'print' and any(x.op == 'fld' and x.a[0].op == 'elem' and W_same(x.a[0].a[1], R.ip0) for a in e.args for x in subterms(a)) for e in p.st.events)
COMPILER = 'burn_script::compiler::BurnScriptCompiler::compile_burn_script'
def built(F, roots, adt):
    """variants of an enumeration the functions reachable from roots construct"""
    out = {}
    def scan(x, f, top):
        if isinstance(x, list):
            for y in x: scan(y, f, top)
        elif isinstance(x, dict):
            if x.get('k') == 'adt' and x.get('def') == adt: out.setdefault(x['variant'], f'{top} {f.path}')
            elif x.get('k') == 'const':
                v = x.get('v')
                if isinstance(v, dict) and v.get('k') == 'adt' and v.get('def') == adt: out.setdefault(v['variant'], f'{top} {f.path}')
            elif x.get('k') not in ('ref', 'fn'):
                for y in x.values(): scan(y, f, top)
    for q in reach(F, roots):
        f = F.fns.get(q)
        if f is None or f.derived: continue
        for b in f.blocks:
            for s in (b['s'] if b else ()):
                if s[0] == '=': scan(s[2], f, s[3] if len(s) > 3 else '')
    return out

@check('V06', 'The step kinds the compiler of burn scripts can construct (every constructed enumeration variant in the functions reachable from it) are compared with the paths of the interpreter step: for each of them '
       'no path may do nothing but report the step and go on.')
def v06(F, rep, tier):
    R = Runner(F, rep)
    if COMPILER not in F.fns: raise Limit('the burn script compiler is gone')
    vs = F.adts[R.insty]['variants']; can = built(F, [COMPILER], R.insty)
    rep.count('expressible_steps', len(can))
    if not can: raise Limit('no step construction found')
    for i, site in sorted(can.items()):
        d, name = vs[i]['discr'], vs[i]['name']
        ps = [p for p in R.paths if p.op == d] or [p for p in R.paths if p.op is None and p.not_ and d not in p.not_]
        rep.ob(bool(ps), 'step-has-paths', site, f'the interpreter has no path for {name}', name)
        rep.ob(not any(unimplemented(R, p) for p in ps), 'step-executed', f'{R.fn.span} {STEP}', f'{name}, which a burn script can contain (built at {site}), is reported and passed over instead of being executed', name)

@check('V07', 'Every path of one interpreter step that is possible in find mode: no function of the database that can change stored values is called (the functions are classified by their own paths: writes that '
       'reach the tables, or a mutable borrow handed out).')
def v07(F, rep, tier):
    R = Runner(F, rep); wr = record_writers(F, rep)
    rep.count('database_functions_changing_records', len(wr))
    if not wr: raise Limit('no function that changes records found')
    for p in R.paths:
        m = p.mode(R); name = R.ins.get(p.op, 'other' if p.not_ else 'end-of-script')
        if m is None and any(x.op == 'eq' and x.a[0].op == 'discr' and x.a[0].a[0] is fld(p.old, R.ix['mode']) and not t and R.modes.get(x.a[1].a[0]) == 'Browse' for x, t in p.st.facts): m = 'Find'
        if m == 'Browse' or m is None and any(x.op == 'eq' and x.a[0].op == 'discr' and x.a[0].a[0] is fld(p.old, R.ix['mode']) and not t and R.modes.get(x.a[1].a[0]) == 'Find' for x, t in p.st.facts): continue
        bad = [e for e in p.calls() if e.name in wr]
        rep.ob(not bad, 'no-record-change-in-find-mode', f'{R.fn.span} {STEP}: {name}', f'in find mode the step calls {bad[0].name if bad else ""} ({bad[0].span if bad else ""}), which changes stored records', name)
        if name == 'SetField' and m == 'Find':
            ef = [e for e in effects(p.st, p.old, p.new) if e.path[0] == ('f', R.ix['find_criteria'])]
            rep.ob(len(ef) == 1 and ef[0].kind == 'push', 'find-grows', f'{R.fn.span} {STEP}: {name}', 'setting a field in find mode does not add to the pending find', 'SetField-criteria')
def record_writers(F, rep):
    """functions of the database through which a stored value can change"""
    adt = 'testing::database::Database'
    ti = next((i for i, f in enumerate(F.adts[adt]['variants'][0]['fields']) if f[0] == 'tables'), None)
    if ti is None: raise Limit('the tables of the database are gone')
    out = set()
    for q, f in F.fns.items():
        if not q.startswith(adt + '::') or f.derived or '{closure' in q or not f.nargs or F.tstr(f.locals[1]) != f'&mut {adt}': continue
        if '&mut ' in F.tstr(f.locals[0]): out.add(q); continue
        if callgraph(F).get(q, set()) & {'decompile::load'} or 'fmp12' in q: continue        # set-up, before any step
        try:
            E, outs = run(F, rep, q, set())
            me = f.names.get(1, 'self')
            for s, _ in outs:
                for e in effects(s, mk('sym', me), s.val(s.read((mk('sym', me + '.ptr'), ())))):
                    if e.path[:1] == (('f', ti),) or not e.path: out.add(q)
        except Limit: out.add(q) if handed(F, q) else None
    return out
def handed(F, q): raise Limit(f'what {q} changes was not recognised')

FRESH = {'test_state': lambda F, v: vname(F, v) == 'Pass', 'mode': lambda F, v: vname(F, v) == 'Browse', 'branch_taken': lambda F, v: isconst(v) and not v.a[0],
         'instruction_ptr': lambda F, v: stack_of_one(v) and last(v).op == 'tup' and last(v).a[1] is INT(0), 'variables': lambda F, v: stack_of_one(v) and last(v).op == 'map0',
         'find_criteria': lambda F, v: v.op == 'vec' and not v.a}         # (the punctuation stack is never read, and of the loop starts only the newest)
def vname(F, v): return F.adts[v.a[0]]['variants'][v.a[1]]['name'] if v.op == 'adt' else None
def stack_of_one(v): return v.op == 'vec' and len(v.a) == 1 or v.op == 'push' and v.a[0].op == 'vec' and not v.a[0].a
def last(v): return v.a[-1]
@check('V01', 'The state of the test environment at the moment a test\'s first step can run, on every path of the functions that run the tests, for an arbitrary state an earlier test left behind: every per-test field '
       'must have its fresh value there; with cleanup requested, the columns, found sets and positions too.')
def v01(F, rep, tier):
    if STEP not in F.fns: raise Limit('the interpreter step is gone')
    ix = {f[0]: i for i, f in enumerate(F.adts[ENV]['variants'][0]['fields'])}
    drivers = test_drivers(F)
    rep.count('functions_running_tests', len(drivers))
    for q in drivers:
        fn = F.fns[q]; me = fn.names.get(1, 'self'); seen = 0
        E, outs = run(F, rep, q, {STEP} | opq_db(F))
        for L in E.looprecs:
            if not any(e.kind == 'call' and e.name == STEP for b, _ in L.backs for e in b.events[L.nev:]): continue
            seen += 1; s = L.base; cur = s.val(s.read((mk('sym', me + '.ptr'), ())))
            m = {ph: init for ph, (pl, init) in L.phis.items()}
            where = f'{fn.span} {q}'
            for n, ok in FRESH.items():
                if n not in ix: raise Limit(f'the field {n} of the test environment is gone')
                v = replace(s.val(fld(cur, ix[n])), m)
                rep.ob(ok(F, v), 'fresh-at-test-start', where, f'a test starts with {n} = {short(v)}', n)
            if 'cleanup' in q:
                v = replace(s.val(fld(cur, ix['database'])), m)
                rep.ob(any(e.kind == 'call' and e.name.endswith('::clear_records') for e in since_test(L, E)), 'no-records-at-test-start', where, 'with cleanup requested a test starts with the records of the one before it', 'records')
        if not seen: raise Limit(f'{q}: the loop that runs a test was not found')
    q = 'testing::database::Database::clear_records'
    if q not in F.fns: raise Limit('clear_records is gone')
    E, outs = run(F, rep, q); me = F.fns[q].names.get(1, 'self')
    fx = {f[0]: i for i, f in enumerate(F.adts['testing::database::Database']['variants'][0]['fields'])}; ox = {f[0]: i for i, f in enumerate(F.adts['testing::database::TableOccurrence']['variants'][0]['fields'])}
    for s, _ in outs:
        es = effects(s, mk('sym', me), s.val(s.read((mk('sym', me + '.ptr'), ()))))
        col = [e for e in es if e.path[:1] == (('f', fx['tables']),)]
        rep.ob(len(col) == 1 and col[0].kind == 'set' and col[0].val.op == 'vec' and not col[0].val.a and [x[0] for x in col[0].path] == ['f', 'e', 'f', 'e', 'f'], 'columns-emptied', F.fns[q].span, 'the cleanup does not empty every column', 'columns')
        for n in ('found_set', 'record_ptr'):
            rep.ob(any(e.path[:1] == (('f', fx['table_occurrences']),) and e.path[-1] == ('f', ox[n]) for e in es), 'positions-reset', F.fns[q].span, f'the cleanup leaves {n} of the occurrences as the last test left it', f'cleanup-{n}')
def since_test(L, E):
    """what has happened in the turn of the loop around L before L started"""
    outer = [K for K in E.looprecs if K is not L and any(e.kind == 'loop' and e.data is L for b, _ in K.backs for e in b.events)]
    n = max([K.nev for K in outer], default=0)
    return L.base.events[n:]

class Scan:
    """a loop of a step that runs over the following steps looking for one"""
    def __init__(self, R, L):
        self.L = L; self.passed = None; self.asked = set()
        for b, _ in L.backs:
            no = set(); yes = set()
            for x, t in b.facts[L.nf:]:
                k = step_kind(R, x)
                if k is not None: (yes if t else no).add(k)
            self.asked |= no | yes; never = no - yes
            self.passed = never if self.passed is None else self.passed & never
    def stops_at(self): return {self.names[k] for k in self.passed} if False else self.passed
def step_kind(R, x):
    """the step kind a condition asks some step for"""
    if x.op == 'eq' and x.a[0].op == 'discr' and isconst(x.a[1]) and x.a[1].a[0] in R.ins:
        t = x.a[0].a[0]
        if t.op == 'fld' and (t.a[0].op == 'elem' or t.a[0].op == 'deref'): return x.a[1].a[0]
    return None
@check('V05', 'The same paths, per control step: where the position goes when the condition is known to be "true" or not, the step kinds each scanning loop cannot pass and those it distinguishes (nested openings must be '
       'told apart from other steps), the stack of loop starts, and the memory of the branch taken (which must be kept per conditional).')
def v05(F, rep, tier):
    R = Runner(F, rep); k = {n: d for d, n in R.ins.items()}
    need = ('If', 'ElseIf', 'Else', 'EndIf', 'Loop', 'EndLoop', 'ExitLoopIf', 'GoToRecordRequestPage')
    for n in need:
        if n not in k: raise Limit(f'the step {n} is gone')
    for f in ('branch_taken', 'loop_scopes'):
        if f not in R.ix: raise Limit(f'the field {f} is gone')
    ENDS = {k['Else'], k['ElseIf'], k['EndIf']}; got = set()
    for p in R.paths:
        name = R.ins.get(p.op)
        if name not in need: continue
        got.add(name); st = p.st; w = f'{R.fn.span} {STEP}: {name} [{facts_str(st.facts[-3:], 3)}]'
        o, v = p.get(R, 'instruction_ptr'); q = st.val(fld(elem(v, add(length(o), INT(-1))), 1)); a = advance(R, st, q)
        b0, b1 = p.get(R, 'branch_taken'); l0, l1 = p.get(R, 'loop_scopes')
        scans = [Scan(R, e.data) for e in st.events if e.kind == 'loop' and Scan(R, e.data).asked]
        cond = asked(R, p, 0).get('true') if name in ('If', 'ElseIf', 'ExitLoopIf') else None
        flag = next((t for x, t in st.facts if x is b0), None) if name in ('Else', 'ElseIf') else None
        if name in ('If', 'ElseIf', 'Else'):
            if flag:                                             # an earlier branch was taken: to the end of the conditional
                rep.ob(bool(scans) and all(k['EndIf'] in s.passed for s in scans[:1]), 'one-branch-only', w, 'after a branch has been taken another one is not skipped to the end of the conditional', f'{name}-skip')
                nest(rep, R, k, scans, 'If', w, name); continue
            if name == 'Else':
                rep.ob(a == (1, True), 'else-branch-entered', w, f'no branch was taken, but the else branch is not entered ({short(q)})', 'Else-enter'); continue
            if cond is None: raise Limit(f'{w}: how the condition is judged was not recognised')
            if cond:
                rep.ob(a == (1, True), 'branch-entered', w, f'the condition is true, but its branch is not entered ({short(q)})', f'{name}-enter')
                rep.ob(b1 is TRUE or isconst(b1) and b1.a[0] is True, 'branch-remembered', w, 'the branch taken is not remembered', f'{name}-remember')
                if name == 'If': rep.ob(b1.op == 'push', 'branch-memory-per-conditional', w, 'the memory of the branch taken is overwritten by a nested conditional', 'branch-flag')
            else:
                if not scans: rep.ob(False, 'to-the-alternative', w, 'the condition is false, but its branch is not skipped', f'{name}-else'); continue
                rep.ob(ENDS <= scans[-1].passed, 'to-the-alternative', w, 'an alternative or the end of the conditional can be skipped', f'{name}-else')
                nest(rep, R, k, scans, 'If', w, name)
        elif name == 'EndIf':
            rep.ob(a == (1, True), 'conditional-left', w, f'the position becomes {short(q)}', 'EndIf-next'); rep.ob(isconst(b1) and not b1.a[0] or b1.op == 'pop', 'branch-forgotten', w, 'the branch taken is still remembered behind the conditional', 'EndIf-flag')
        elif name == 'Loop':
            rep.ob(a == (1, True), 'loop-entered', w, f'the position becomes {short(q)}', 'Loop-next')
            rep.ob(l1.op == 'push' and l1.a[0] is l0 and W_same(l1.a[1], R.ip0), 'start-recorded', w, f'the recorded loop starts become {short(l1)}', 'Loop-start')
        elif name == 'EndLoop':
            rep.ob(q is add(elem(l0, add(length(l0), INT(-1))), INT(1)) or W_same(q, elem(l0, add(length(l0), INT(-1)))), 'back-to-newest-start', w, f'the end of a loop continues at {short(q)}', 'EndLoop-start')
        else:
            leave = bool(scans)
            if name == 'ExitLoopIf':
                if cond is None: raise Limit(f'{w}: how the condition is judged was not recognised')
                rep.ob(leave == cond, 'leaves-when-asked', w, 'the loop is left although the condition is not true, or not left although it is', 'ExitLoopIf-when')
            else:
                said = asked(R, p, 1); want = said.get('false') is not True and bool(said or any(is_eval(R, y, 1) for x, t in st.facts for y in subterms(x)))
                if leave and not want: rep.ob(False, 'leaves-when-asked', w, 'the loop is left although the step asks not to', 'page-exit')
            if leave:
                rep.ob(all(k['EndLoop'] in s.passed for s in scans), 'to-the-end-of-the-loop', w, 'the end of the loop can be passed', f'{name}-end')
                nest(rep, R, k, scans, 'Loop', w, name)
                rep.ob(l1.op == 'pop', 'start-forgotten', w, 'the start of the loop that is left stays the newest one: an enclosing loop returns to it', f'{name}-start')
            else: rep.ob(a == (1, True), 'stays-in-loop', w, f'the position becomes {short(q)}', f'{name}-next')
    rep.ob(got == set(need), 'control-steps-executed', R.fn.span, f'{sorted(set(need) - got)} have no path', 'missing')
def nest(rep, R, k, scans, opening, w, name):
    for s in scans[-1:]:
        rep.ob(k[opening] in s.asked, 'nested-blocks-skipped-whole', w, f'while skipping, a nested {opening} is passed like any other step, so that its alternatives or end stop the skipping', f'{name}-nesting')

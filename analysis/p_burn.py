"""B02, B03: the parser of script blocks as a pushdown machine.  One iteration of the loop over a script's tokens is analysed with an arbitrary
token, an arbitrary stack of open blocks and arbitrary steps so far; what it appends, opens and closes is compared with the language."""
from lib import *
CHECKS, INFO = {}, {}
PARSE = 'burn_script::parser::Parser::parse'
STEP = 'fm_script_engine::fm_script_engine_instructions::ScriptStep'
INS = 'fm_script_engine::fm_script_engine_instructions::Instruction'
SCRIPT = 'component::FMComponentScript'
TOK, TT = 'burn_script::tokens::Token', 'burn_script::tokens::TokenType'
# the steps a script can be written with (README, doc/burn_spec.md and the step enumeration)
NAMES = {'perform_script': 'PerformScript', 'go_to_layout': 'GoToLayout', 'go_to_record': 'GoToRecordRequestPage', 'go_to_request': 'GoToRecordRequestPage',
         'enter_find_mode': 'EnterFindMode', 'perform_find': 'PerformFind', 'show_all_records': 'ShowAllRecords', 'set_field': 'SetField', 'set_variable': 'SetVariable',
         'exit_loop_if': 'ExitLoopIf', 'new_record_request': 'NewRecordRequest', 'exit_script': 'ExitScript', 'show_custom_dialog': 'ShowCustomDialog', 'assert': 'Assert'}
REORDER = ('inserted', 'truncate', 'dedup', 'pop', 'removed', 'rev', 'reversed', 'sorted')
BLOCK = ('If', 'Else', 'ElseIf', 'EndIf', 'Loop', 'EndLoop')

def unwind(t, ph):
    """elements pushed onto ph, oldest first; None when t is something else"""
    out = []
    while t is not ph:
        if t.op == 'push': out.append(t.a[1]); t = t.a[0]
        else: return None
    return out[::-1]
class Parse:
    def __init__(self, F, rep):
        if PARSE not in F.fns: raise Limit('the parser of script blocks is gone')
        self.F = F; self.E, self.outs = run(F, rep, PARSE)
        for a in (STEP, INS, SCRIPT, TOK, TT):
            if a not in F.adts: raise Limit(f'type {a} is gone')
        self.W = f'{F.fns[PARSE].span} {PARSE}'
        self.kinds = [v['name'] for v in F.adts[TT]['variants']]; self.ops = [v['name'] for v in F.adts[INS]['variants']]
        self.ft, self.fv = F.field(TOK, 'ttype'), F.field(TOK, 'value')
        self.so, self.ss = F.field(STEP, 'opcode'), F.field(STEP, 'switches')
        r = []
        for L in self.E.looprecs:
            I = [p for p, (pl, i) in L.phis.items() if self.step_list(pl)]
            if len(I) == 1 and any(vals[I[0]] is not I[0] for _, vals in L.backs): r.append((L, I[0]))
        # the list kept across the scripts: the loop that appends is the inner one
        outer = {id(L) for L, I in r for M, J in r if M is not L and any(contains(v[I], J) for _, v in L.backs if J not in L.phis)}
        r = [(L, I) for L, I in r if id(L) not in outer] or r
        # the same loop entered in different situations is analysed several times

        if not r or len({(L.lid, I) for L, I in r}) != 1: raise Limit(f'{len(r)} loops append script steps')
        self.Ls = [L for L, I in r]; self.I = I = r[0][1]
        if len({self.cursor(L) for L in self.Ls}) != 1: raise Limit('the position in the token stream cannot be identified')
        L = max(self.Ls, key=lambda L: len(L.backs)); self.L = L
        self.toks, self.p = self.cursor(L)
        stacks = [p for p in L.phis if p is not I and any(x.op in ('push', 'pop') and contains(x, p) for _, v in L.backs for x in [v[p]])]
        if len(stacks) != 1: raise Limit(f'the open blocks are not kept in one stack ({len(stacks)} candidates)')
        for X in self.Ls:
            for st in [b for b, _ in X.backs] + list(X.exits):
                for f, t in st.facts[X.nf:]:
                    for x in subterms(f):
                        if x.op == 'phi' and self.holds_token(st, x): raise Limit(f'a token is carried around a loop: {short(f)}')
        self.S = stacks[0]; self.top = elem(self.S, sub(length(self.S), ONE))
    def step_list(self, pl):
        t = place_type(self.F, pl)
        while t is not None and t.get('k') == 'ref': t = self.F.types[t['to']]
        return t is not None and t.get('k') == 'adt' and 'Vec' in t['def'] and t.get('args') and norm(self.F.types[t['args'][0]].get('def', '')) == STEP
    def holds_token(self, st, x):
        L = loop_of(st, x)
        t = place_type(self.F, L.phis[x][0]) if L is not None else None
        while t is not None and t.get('k') in ('ref', 'adt'):
            if norm(t.get('def', '')) == TOK: return True
            if t['k'] == 'adt' and 'Option' not in t['def']: return False
            t = self.F.types[t['to']] if t['k'] == 'ref' else self.F.types[t['args'][0]] if t.get('args') else None
        return False
    def cursor(self, L):
        """(token sequence, loop-carried position in it)"""
        c = {}
        for st in [b for b, _ in L.backs] + list(L.exits):
            for f, t in st.facts[L.nf:]:
                for x in subterms(f):
                    if x.op == 'elem' and x.a[1].op == 'phi' and x.a[1] in L.phis: c.setdefault((x.a[0], x.a[1]), 0); c[x.a[0], x.a[1]] += 1
        if not c:        # only tokens further on are looked at
            for st in [b for b, _ in L.backs] + list(L.exits):
                for f, t in st.facts[L.nf:]:
                    for x in subterms(f):
                        if x.op != 'elem': continue
                        for q in L.phis:
                            if sub(x.a[1], q).op == 'int': c.setdefault((x.a[0], q), 0); c[x.a[0], q] += 1
        c = {k: n for k, n in c.items() if L.phis[k[1]]}
        if not c: raise Limit(f'the position in the token stream of loop {L.lid} cannot be found')
        return max(c, key=lambda k: c[k])
    def kind(self, p): return fld(elem(self.toks, p), self.ft)
    def value(self, p): return fld(elem(self.toks, p), self.fv)
    def is_kind(self, st, p, name): return possible(st, eq(discr(self.kind(p)), INT(self.kinds.index(name))))
    def only(self, st, p, names): return all(not self.is_kind(st, p, k) for k in self.kinds if k not in names)
    def op_name(self, t):
        return self.ops[t.a[1]] if t.op == 'adt' and t.a[0] == INS else None
    def args_ok(self, st, t, start, end):
        """t holds the values of exactly the argument tokens from start, and the token after them is the one before end"""
        if length(t) is ZERO and t.op != 'phi': return (end is start or sub(end, start) is ONE), 'no arguments are kept'
        A = loop_of(st, t) if t.op == 'phi' else None
        if A is None:
            if t.op in ('vec', 'push') + REORDER: return False, f'the arguments are {short(t)}'
            raise Limit(f'arguments are collected in an unrecognised form: {short(t)}')
        toks, q = self.cursor(A)
        if toks is not self.toks: raise Limit('arguments are read from something else')
        if length(A.phis[t][1]) is not ZERO or A.phis[t][1].op == 'phi': return False, f'arguments are added to {short(A.phis[t][1])}'
        if A.phis[q][1] is not start: return False, f'arguments are read from position {short(A.phis[q][1])}, the statement\'s begin at {short(start)}'
        arg = False
        for b, v in A.backs:
            if v[q] is not add(q, ONE): return False, f'after an argument reading goes on at {short(v[q])}'
            got = unwind(v[t], t)
            if got is None:
                if v[t].op in REORDER: return False, f'arguments do not stay in order: {short(v[t])}'
                raise Limit('arguments are changed in an unrecognised way')
            if self.is_kind(b, q, 'Argument'):
                arg = True
                if len(got) != 1 or not self.same_text(got[0], self.value(q)): return False, f'an argument is kept as {[short(x) for x in got]}'
            elif got: return False, f'something that is not an argument is kept: {facts_str(b.facts[A.nf:])}'
        if not arg: return False, 'no argument is kept'
        for e in A.exits:
            if e.decide(lt(q, length(self.toks))) is False: continue
            if self.is_kind(e, q, 'Argument'): return False, f'arguments are left out: {facts_str(e.facts[A.nf:])}'
        if end is not add(q, ONE) and end is not q: return False, f'after the arguments reading goes on at {short(end)}'
        return True, ''
    def same_text(self, x, y):
        while x.op in ('tostr', 'clone'): x = x.a[0]
        return x is y
def parser(F, rep):
    if not hasattr(F, '_burn'): F._burn = Parse(F, rep)
    rep.engine(F._burn.E, F._burn.outs)
    return F._burn

def b02(F, rep, tier):
    P = parser(F, rep); L, I, S, p, W = P.L, P.I, P.S, P.p, P.W
    empty = eq(length(S), ZERO); n = length(P.toks)
    # what is put on the stack for each kind of block
    mark = {}
    for b, v in [x for L in P.Ls for x in L.backs]:
        g = unwind(v[S], S)
        for x in g or []:
            for k in ('If', 'Loop'):
                if P.only(b, p, {k}): mark.setdefault(k, x)
                if P.only(b, p, {k}) and mark[k] is not x: raise Limit('blocks of one kind are marked differently')
    if set(mark) != {'If', 'Loop'}:
        rep.ob(False, 'an opened block is remembered', W, f'{sorted(set(["If", "Loop"]) - set(mark))} opens no block', 'open.missing'); return
    for k, x in mark.items():
        if not isconst(x) and x.op != 'adt': raise Limit(f'open blocks are marked {short(x)}')
    rep.ob(mark['If'] is not mark['Loop'], 'conditionals and loops are told apart', W, 'both kinds of blocks are remembered alike', 'mark')
    def top_is(b, k): return possible(b, NOT(empty), eq(P.top, mark[k]) if mark[k].op != 'adt' else eq(discr(P.top), discr(mark[k])))
    def ends(b, pos): return b.decide(lt(pos, n)) is False
    done = {}
    for L, b, v in [(L, b, v) for L in P.Ls for b, v in L.backs]:
        if ends(b, v[p]): continue        # nothing follows: the script stays unclosed, see below
        steps, stack = unwind(v[I], I), v[S]
        where = f'{b.events[-1].span if b.events[L.nev:] else F.fns[PARSE].span} {PARSE}'
        if steps is None: raise Limit(f'the steps become {short(v[I])}')
        ops = [P.op_name(fld(x, P.so)) for x in steps]
        if None in ops: raise Limit(f'a step with the number {[short(fld(x, P.so)) for x in steps]} is appended')
        what = 'same' if stack is S else 'pop' if stack is mk('pop', S) else 'push' if unwind(stack, S) is not None and len(unwind(stack, S)) == 1 else short(stack)
        F_ = facts_str(b.facts[L.nf:], 5)
        for k in P.kinds:
            if not P.is_kind(b, p, k): continue
            rule = f'{k}: the block structure follows the braces'
            if k in ('If', 'Loop'):
                rep.ob(ops == [k] and what == 'push' and unwind(stack, S) == [mark[k]], rule, where, f'a {k} appends {ops} and the stack of open blocks is changed: {what} ({F_})', f'block.{k}'); done[k] = 1
                rep.ob(P.only(b, sub(v[p], ONE), {'OpenBracket'}), 'a block begins with a brace', where, f'a {k} is accepted without opening brace ({F_})', f'brace.{k}')
            elif k in ('Elif', 'Else'):
                rep.ob(ops == [{'Elif': 'ElseIf', 'Else': 'Else'}[k]] and what == 'same' and not top_is(b, 'Loop') and not possible(b, empty), rule, where,
                       f'an {k} appends {ops}, stack {what}, inside {[x for x in mark if top_is(b, x)]}{" or nothing" if possible(b, empty) else ""} ({F_})', f'block.{k}'); done[k] = 1
                rep.ob(P.only(b, sub(v[p], ONE), {'OpenBracket'}), 'a block begins with a brace', where, f'an {k} is accepted without opening brace ({F_})', f'brace.{k}')
            elif k == 'CloseBracket':
                nxt = add(p, ONE)
                rep.ob(not possible(b, empty), rule, where, f'a closing brace is taken inside no block ({F_})', 'close.none')
                rep.ob(v[p] is nxt, 'one brace closes one block', where, f'reading goes on at {short(v[p])} after a closing brace ({F_})', 'close.next')
                for t in ('If', 'Loop'):
                    if not top_is(b, t): continue
                    done['close' + t] = 1
                    cont = t == 'If' and any(P.is_kind(b, nxt, x) for x in ('Else', 'Elif')) and not ends(b, nxt)
                    over = t != 'If' or not P.only(b, nxt, {'Else', 'Elif'}) or ends(b, nxt)
                    if cont: rep.ob(ops == [] and what == 'same', 'a conditional goes on in its else branch', where, f'before an else {ops} is appended, stack {what} ({F_})', f'close.{t}.else')
                    if over and not cont: rep.ob(ops == ['End' + t] and what == 'pop', f'a {t} is ended exactly once, by its own end step', where, f'the brace closing a {t} appends {ops}, stack {what} ({F_})', f'close.{t}')
                    if over and cont: rep.ob(False, f'a {t} is ended exactly once, by its own end step', where, f'whether an else follows is not looked at ({F_})', f'close.{t}.both')
            else:
                rep.ob(not any(o in BLOCK for o in ops if not lexer_keyword(P, b, p)) and what == 'same', rule, where, f'{k} appends {ops}, stack {what} ({F_})', f'block.other.{k}')
    for k in ('If', 'Loop', 'Elif', 'Else', 'closeIf', 'closeLoop'):
        rep.ob(k in done, 'every part of a block is accepted', W, f'{k} is never accepted', f'accept.{k}')
    # a script begins with no open block and is only accepted when none is left
    if len({L.phis[S][1] for L in P.Ls}) != 1: raise Limit('the stack begins differently')
    init = L.phis[S][1]; outer = None
    if init.op == 'phi':
        for O in P.E.looprecs:
            if init in O.phis: outer = O
        if outer is None: raise Limit('where the stack begins is not recognised')
        rep.ob(length(outer.phis[init][1]) is ZERO, 'a script begins outside all blocks', W, 'the stack of open blocks does not begin empty', 'stack.init')
        for b, v in outer.backs:
            z = v[init] is init or b.decide(eq(length(v[init]), ZERO)) is True
            rep.ob(z, 'a script begins outside all blocks', W, 'blocks left open by one script count as open in the next: ' + facts_str(b.facts[outer.nf:]), 'stack.carry')
    else: rep.ob(length(init) is ZERO, 'a script begins outside all blocks', W, 'the stack of open blocks does not begin empty', 'stack.init')
    n_acc = 0
    seen = set()
    accepted = [(b, v, O) for O in P.E.looprecs if O not in P.Ls for b, v in O.backs if any(e.kind == 'loop' and e.data in P.Ls for e in b.events[O.nev:])]
    for b, v, O in accepted:
        if id(b) in seen: continue
        seen.add(id(b))
        pushed = [x for q in O.phis for x in (unwind(v[q], q) or []) if x.op == 'adt' and x.a[0] == SCRIPT or contains(x, I)]
        if not pushed: continue
        n_acc += 1
        ok = b.decide(empty) is True and P.only(b, p, {'CloseBracket'}) and b.decide(lt(p, n)) is True
        rep.ob(ok, 'a script is only accepted when its last brace closes it', W, 'a script with an unclosed block is accepted: ' + facts_str(b.facts[O.nf:], 5), 'accept.closed')
        rep.ob(all(fld(x, F.field(SCRIPT, 'instructions')) is I for x in pushed), 'a script is compiled as parsed', W, 'steps are added or removed after the last brace', 'accept.steps')
    for st, ret in P.outs:      # returning while a script is being read
        if any(e.kind == 'loop' and e.data in P.Ls for e in st.events) and ret.op == 'adt' and ret.a[1] == 0 and contains(ret, I):
            n_acc += 1; rep.ob(st.decide(empty) is True, 'a script is only accepted when its last brace closes it', W, 'a script with an unclosed block is accepted', 'accept.ret')
    if not n_acc: raise Limit('where a script is accepted cannot be found')
def lexer_keyword(P, b, p):
    """the identifier spells a keyword, which the lexer never hands over as an identifier"""
    v = P.value(p)
    return any(b.decide(eq(v, STR(k))) is True for k in ('if', 'elif', 'else', 'loop'))
CHECKS['B02'] = b02
INFO['B02'] = 'one iteration of the loop over the tokens of a script, for each of the token kinds and each innermost open block (none, conditional, loop): the steps it appends and how the stack of open blocks changes; plus where scripts are accepted.'

def b03(F, rep, tier):
    P = parser(F, rep); L, I, p, W = P.L, P.I, P.p, P.W; n = length(P.toks)
    names = list(NAMES)
    found = set()
    for L, b, v in [(L, b, v) for L in P.Ls for b, v in L.backs]:
        if b.decide(lt(v[p], n)) is False: continue
        steps = unwind(v[I], I)
        if steps is None: raise Limit(f'the steps become {short(v[I])}')
        F_ = facts_str(b.facts[L.nf:], 4); where = f'{b.events[-1].span if b.events[L.nev:] else F.fns[PARSE].span} {PARSE}'
        if P.is_kind(b, p, 'Identifier'):
            hit = [x for x in names if possible(b, eq(P.value(p), STR(x)))]
            other = [x for x in names if b.decide(eq(P.value(p), STR(x))) is True]
            for x in hit:
                if not other and len(hit) > 3 and not steps: # the path for unknown names must exclude all known ones
                    rep.ob(False, 'every step name is known', where, f'{x} compiles to nothing ({F_})', f'name.{x}'); continue
                found.add(x)
                ok = len(steps) == 1 and P.op_name(fld(steps[0], P.so)) == NAMES[x]
                rep.ob(ok, 'a step name compiles to exactly its step', where, f'{x} compiles to {[short(fld(s, P.so)) for s in steps]}', f'name.{x}')
                if not ok: continue
                good, why = P.args_ok(b, fld(steps[0], P.ss), add(p, ONE), v[p])
                rep.ob(good, 'a step has exactly its own arguments, in order', where, f'{x}: {why}', f'args.{x}')
                rep.ob(P.only(b, sub(v[p], ONE), {'SemiColon'}), 'a step ends with its semicolon', where, f'{x} is accepted without semicolon', f'semi.{x}')
            named = any(f.op == 'eq' and t and P.value(p) in f.a and any(x.op == 'str' for x in f.a) for f, t in b.facts[L.nf:])      # a further step name of the language
            if not hit: rep.ob(not steps or named, 'an unknown name compiles to nothing', where, f'a name that is not a step compiles to {[short(fld(s, P.so)) for s in steps]} ({F_})', 'name.unknown')
        for k in ('If', 'Elif'):
            if P.is_kind(b, p, k):
                for s in steps:
                    good, why = P.args_ok(b, fld(s, P.ss), add(p, ONE), v[p])
                    rep.ob(good, 'a conditional has exactly its own condition', where, f'{k}: {why}', f'cond.{k}')
        for k in ('Loop', 'Else'):
            if P.is_kind(b, p, k):
                rep.ob(v[p] is add(p, INT(2)), f'{k} is followed by its first step', where, f'after {k} reading goes on at {short(v[p])}', f'next.{k}')
        if not any(P.is_kind(b, p, k) for k in ('Identifier', 'If', 'Elif', 'Loop', 'Else', 'CloseBracket')):
            rep.ob(not steps, 'only statements compile to steps', where, f'{[k for k in P.kinds if P.is_kind(b, p, k)]} compiles to {[short(fld(s, P.so)) for s in steps]}', 'stray')
    for x in names: rep.ob(x in found, 'every step name is known', W, f'{x} is not accepted', f'name.{x}.missing')
    # scripts
    O = [o for o in P.E.looprecs if o not in P.Ls and any(e.kind == 'loop' and e.data in P.Ls for b, _ in o.backs for e in b.events[o.nev:])]
    if len(O) != 1: raise Limit(f'{len(O)} loops over scripts')
    O = O[0]; toks, q = P.cursor(O)
    if toks is not P.toks: raise Limit('scripts are read from something else')
    R = [x for x in O.phis if any(contains(v[x], I) and v[x].op == 'push' for _, v in O.backs)]
    if len(R) != 1: raise Limit('where scripts are collected is not recognised')
    R = R[0]; rep.ob(length(O.phis[R][1]) is ZERO, 'only the scripts of the block are returned', W, 'the list of scripts does not begin empty', 'scripts.init')
    rep.ob(O.phis[q][1] is ZERO, 'reading begins with the first token', W, f'the first token looked at is {short(O.phis[q][1])}', 'scripts.first')
    for b, v in O.backs:
        got = unwind(v[R], R)
        if got is None: raise Limit(f'the scripts become {short(v[R])}')
        if P.is_kind(b, q, 'Define'):
            rep.ob(len(got) == 1, 'every script of the block is compiled', W, f'a definition yields {len(got)} scripts: {facts_str(b.facts[O.nf:])}', 'script.one')
            for s in got:
                nm = fld(s, F.field(SCRIPT, 'script_name')); pn = add(q, ONE)
                rep.ob(P.same_text(nm, P.value(pn)) or not P.is_kind(b, pn, 'Identifier'), 'a script has its own name', W, f'the name of a script is {short(nm)}', 'script.name')
                ar = fld(s, F.field(SCRIPT, 'arguments')); A = loop_of(b, ar) if ar.op == 'phi' else None
                if A is None: rep.ob(False, 'a script has its own parameters', W, f'the parameters are {short(ar)}', 'script.params'); continue
                good, why = params_ok(P, A, ar, add(q, INT(2)))
                rep.ob(good, 'a script has its own parameters, in order', W, why, 'script.params')
                L = [e.data for e in b.events[O.nev:] if e.kind == 'loop' and e.data in P.Ls][-1]; i0 = L.phis[I][1]
                rep.ob(length(i0) is ZERO and i0.op != 'phi', 'a script begins without steps', W, f'the steps of a script begin with {short(i0)}', 'script.steps')
                toks2, qa = P.cursor(A)
                rep.ob(L.phis[p][1] is add(qa, ONE) and all(x.decide(lt(qa, n)) is False or P.only(x, qa, {'OpenBracket'}) for x in A.exits), 'the steps begin behind the opening brace', W, f'the first token of a script looked at is {short(L.phis[p][1])}', 'script.body')
        else: rep.ob(not got, 'only definitions yield scripts', W, f'{[k for k in P.kinds if P.is_kind(b, q, k)]} yields a script', 'script.stray')
    for st, ret in P.outs:
        if ret.op != 'adt': raise Limit(f'the parser returns {short(ret)}')
        if ret.a[1] == 0:
            rep.ob(st.decide(lt(q, n)) is False and fld(dc(ret, 0), 0) is R, 'all scripts of the block are returned', W, f'{short(ret)} is returned: {facts_str(st.facts)}', 'scripts.all')
def params_ok(P, A, t, start):
    toks, q = P.cursor(A)
    if length(A.phis[t][1]) is not ZERO: return False, f'parameters are added to {short(A.phis[t][1])}'
    if A.phis[q][1] is not start: return False, f'parameters are read from {short(A.phis[q][1])}'
    for b, v in A.backs:
        got = unwind(v[t], t)
        if got is None: raise Limit('parameters are changed in an unrecognised way')
        if v[q] is not add(q, ONE): return False, f'after a parameter reading goes on at {short(v[q])}'
        if P.is_kind(b, q, 'Argument'):
            if len(got) != 1 or not P.same_text(got[0], P.value(q)): return False, f'a parameter is kept as {[short(x) for x in got]}'
        elif got: return False, 'something that is not a parameter is kept'
    return (not any(P.is_kind(e, q, 'Argument') and e.decide(lt(q, length(P.toks))) is not False for e in A.exits)), 'parameters are left out'
CHECKS['B03'] = b03
INFO['B03'] = 'one iteration of the loop over the tokens of a script for each step name and each token kind: the step appended, its arguments (the summarised loop that collects them) and the tokens consumed; one iteration of the loop over definitions: name, parameters and steps of the script.'

# ---------------------------------------------------------------- B01: declarations
PROG = 'compile::parser::Parser::parse_program'
CBS = 'burn_script::compiler::BurnScriptCompiler::compile_burn_script'
PTOK, PTT = 'compile::token::Token', 'compile::token::TokenType'
FILE = 'file::FmpFile'
# keyword: collection, component, field holding the name
DECL = {'Table': ('tables', 'component::FMComponentTable', 'table_name'), 'Relationship': ('relationships', 'component::FMComponentRelationship', None),
        'ValueList': ('value_lists', 'component::FMComponentValueList', 'list_name'), 'TableOccurence': ('table_occurrences', 'component::FMComponentTableOccurence', 'table_occurence_name'),
        'Test': ('tests', 'component::FMComponentTest', 'test_name'), 'Script': ('scripts', SCRIPT, None)}
class Program(Parse):
    def __init__(self, F, rep):
        for x in (PROG, CBS):
            if x not in F.fns: raise Limit(f'{x} is gone')
        for a in (FILE, PTOK, PTT) + tuple(c for _, c, _ in DECL.values()):
            if a not in F.adts: raise Limit(f'type {a} is gone')
        self.F = F; self.W = f'{F.fns[PROG].span} {PROG}'
        self.E, self.outs = run(F, rep, PROG, opaque={CBS})
        self.kinds = [v['name'] for v in F.adts[PTT]['variants']]
        self.ft, self.fv = F.field(PTOK, 'ttype'), F.field(PTOK, 'text')
        ok = [(st, fld(dc(ret, 0), 0)) for st, ret in self.outs if ret.op == 'adt' and ret.a[1] == 0]
        if not ok or any(r.op != 'adt' for st, r in ok): raise Limit('the parsed file is returned in an unrecognised form')
        self.ok = ok
        self.col = {n: {fld(r, F.field(FILE, n)) for st, r in ok} for n in {d[0] for d in DECL.values()}}
        phis = {x for s in self.col.values() for x in s if x.op == 'phi'}
        O = [L for L in self.E.looprecs if phis & set(L.phis) and not any(set(L.phis[x][1] for x in phis & set(L.phis)) & phis_of(M) for M in self.E.looprecs)]
        if not O: raise Limit('the loop over the declarations cannot be found')
        self.Os = O; self.O = O[0]
        if len({o.lid for o in O}) != 1: raise Limit('several loops add declarations')
        self.toks, self.p = self.cursor(self.O)
def phis_of(L): return set(L.phis)

def b01(F, rep, tier):
    P = Program(F, rep); W = P.W; p = P.p; n = length(P.toks); rep.engine(P.E, P.outs)
    col = {}
    for name, terms in P.col.items():
        if len(terms) != 1: rep.ob(False, 'the parsed file is returned whole', W, f'{name} is returned in different forms: {[short(t) for t in terms]}', f'return.{name}'); return
        t = next(iter(terms))
        if t not in P.O.phis:
            rep.ob(False, 'every declaration becomes an entry of its own', W, f'the {name} of the parsed file are {short(t)}, to which no declaration is added', f'{name}.none'); continue
        col[name] = t; rep.ob(P.O.phis[t][1].op == 'map0' or length(P.O.phis[t][1]) is ZERO, 'the parsed file holds nothing but the declarations', W, f'{name} begins with {short(P.O.phis[t][1])}', f'{name}.init')
    for st, r in P.ok: rep.ob(st.decide(lt(p, n)) is False, 'all declarations are parsed', W, 'parsing ends before the last declaration: ' + facts_str(st.facts), 'end')
    rep.ob(P.O.phis[p][1] is ZERO, 'all declarations are parsed', W, f'the first token looked at is {short(P.O.phis[p][1])}', 'begin')
    offs = {}; hit = set(); P.col_of = set(col.values())
    for O, b, v in [(O, b, v) for O in P.Os for b, v in O.backs]:
        F_ = facts_str(b.facts[O.nf:], 5)
        ks = [k for k in P.kinds if P.is_kind(b, p, k)]
        effs = {name: [e for e in effects(b, x, v[x])] for name, x in col.items()}
        for k in ks:
            if k not in DECL:
                rep.ob(not any(effs.values()), 'only declarations add to the file', W, f'{k} adds {effs}', f'other.{k}'); continue
            cname, comp, nf = DECL[k]; hit.add(k)
            for name, es in effs.items():
                if name != cname: rep.ob(not es, 'a declaration adds to its own kind only', W, f'a declaration of kind {k} changes the {name}: {es!r:.200}', f'{k}.{name}')
            es = effs.get(cname, [])
            rep.ob(len(es) == 1, 'every declaration becomes an entry of its own', W, f'a declaration of kind {k} makes {len(es)} changes to the {cname}: {es!r:.300} ({F_})', f'{k}.one')
            if len(es) != 1: continue
            e = es[0]
            if e.kind == 'push': pass
            elif e.kind == 'put' and len(e.path) == 1 and e.path[0][0] == 'k': offs.setdefault(cname, []).append((offset(e), e, O, b, v))
            elif e.kind == 'append': pass
            else: raise Limit(f'a declaration is added in an unrecognised form: {e!r:.200}')
            if k == 'Script': scripts(P, rep, e, b); continue
            if nf is not None:
                nm = fld(e.val, F.field(comp, nf)); at = add(p, ONE)
                rep.ob(P.same_text(nm, P.value(at)) and P.only(b, at, {'Identifier'}), 'an entry has the name it was declared with', W, f'the name of a {k} is {short(nm)}', f'{k}.name')
            if b.decide(lt(v[p], n)) is not False:
                e_ = v[p]
                rep.ob(P.only(b, sub(e_, ONE), {'SemiColon'}) and P.only(b, sub(e_, INT(2)), {k}) and P.only(b, sub(e_, INT(3)), {'End'}), 'a declaration ends with its own end', W, f'a {k} is left at {short(e_)}: {facts_str(b.facts[O.nf:], 6)}', f'{k}.end')
        if 'Script' in ks and len(ks) == 1:
            rep.ob(v[p] is add(p, INT(5)) and P.only(b, add(p, INT(4)), {'CloseSquare'}), 'a script block ends with its bracket', W, f'after a script block parsing goes on at {short(v[p])}', 'Script.end')
    for k in DECL: rep.ob(k in hit, 'every declaration becomes an entry of its own', W, f'no path accepts a declaration of kind {k}', f'{k}.accepted')
    for cname, os_ in offs.items():
        cs = {o for o, *_ in os_}
        fresh = len(cs) == 1 and all(o.op == 'int' and o.a[0] >= 0 for o in cs)      # less stops at the first one
        why = ''
        if not fresh: fresh, why = counter(P, os_)
        rep.ob(fresh, 'no declaration overwrites another', W, f'the {cname} are stored under {[short(e.path[0][1]) for _, e, *_ in os_]}{why}, which need not be a number of their own', f'{cname}.key')
    attributes(P, rep, F)
    ends(P, rep)
    merged(F, rep)
def ends(P, rep):
    """no end is read over: what follows it is not part of the declaration"""
    W = P.W; seen = set(); p = P.p
    for O, b, v in [(O, b, v) for O in P.Os for b, v in O.backs]:
        ks = [k for k in P.kinds if P.is_kind(b, p, k)]
        if len(ks) != 1 or ks[0] == 'Script' or ks[0] not in DECL: continue
        for L in [e.data for e in b.events[O.nev:] if e.kind == 'loop']:
            try: toks, q = P.cursor(L)
            except Limit: continue              # a loop inside a declaration that reads in another way
            d = sub(L.phis[q][1], p)
            if d.op != 'int': continue
            for i in range(1, d.a[0]): rep.ob(not P.is_kind(b, add(p, INT(i)), 'End'), 'no end is read over', W, f'the body of a {ks[0]} is looked at from {short(L.phis[q][1])} on', f'{ks[0]}.over.begin')
            if id(L) in seen: continue
            seen.add(id(L))
            for b2, v2 in L.backs:
                d = sub(v2[q], q)
                if d.op != 'int' or P.only(b2, q, {'AssertionBlock'}): continue
                for i in range(d.a[0]):
                    if i and P.only(b2, add(q, INT(i - 1)), {'Colon', 'OpenSquare'}): continue          # a value or block is due
                    rep.ob(not P.is_kind(b2, add(q, INT(i)), 'End'), 'no end is read over', W, f'an end in a {ks[0]} can be read over: {facts_str(b2.facts[L.nf:], 4)}', f'{ks[0]}.over')
def offset(e):
    """the key less the number of entries there are"""
    d = sub(e.path[0][1], length(e.base))
    if d.op == 'int' or e.loop is None or e.base not in e.loop.phis: return d
    for i, (i0, s) in e.loop.induction().items():
        if s != 1: continue
        c = sub(sub(e.path[0][1], sub(i, i0)), length(e.loop.phis[e.base][1]))
        if c.op == 'int' and all(v[e.base].op == 'mset' and v[e.base].a[0] is e.base for _, v in e.loop.backs): return c
    return d
def counter(P, os_):
    """keys taken from a counter that moves on with every entry, or behind the largest key there is"""
    wrap = [x for _, e, *_ in os_ for x in subterms(e.path[0][1]) if x.op == 'rem' and x.a[1].op == 'int']
    if wrap: return False, ' (numbers that are used again)'
    def is_last(e, y): return y.op == 'call' and str(y.a[0]).split('::')[-1] == 'last_key_value' and y.a[1] is e.base
    def largest(e, g):
        if g.op == 'fld': return any(is_last(e, y) for y in subterms(g)) and not any(y.op in ('lin', 'rem', 'div') for y in subterms(g))
        return g.op == 'agg' and g.a[0] == 'max' and g.a[1].op == 'seqmap' and g.a[1].a[2].op == 'keyat' and g.a[1].a[2].a[0] is e.base
    def behind(e, b):
        k = e.path[0][1]
        if k.op == 'int': return b.decide(eq(length(e.base), ZERO)) is True or any(not t and f.op == 'eq' and any(x.op == 'discr' and is_last(e, x.a[0]) for x in f.a) for f, t in b.facts)
        return any(largest(e, x) and sub(k, x).op == 'int' and sub(k, x).a[0] > 0 for x in subterms(k))
    if all(e.loop is None and behind(e, b) for _, e, O, b, v in os_): return True, ''
    for _, e, O, b, v in os_:
        key = e.path[0][1]
        if e.loop is not None:
            i = e.loop.induction()
            if i and any(sub(key, q).op == 'int' for q in i): return False, ' (which starts again with every declaration)'
        elif any(x.op == 'len' and x.a[0] in P.col_of for x in subterms(key)) : return False, ' (the number of other declarations)'
        c = [x for x in subterms(e.path[0][1]) if x in O.phis]
        if len(c) != 1 or sub(e.path[0][1], c[0]).op != 'int' or e.loop is not None: raise Limit(f'an entry is stored under {short(e.path[0][1])}')
        d = sub(v[c[0]], c[0])
        if d.op != 'int' or d.a[0] < 1: return False, ' (the counter does not move on)'
        for b2, v2 in O.backs:
            if v2[c[0]] is not c[0] and not (sub(v2[c[0]], c[0]).op == 'int' and sub(v2[c[0]], c[0]).a[0] > 0): return False, ' (the counter can go back)'
    return True, ''
def scripts(P, rep, e, b):
    src = mk('call', CBS, P.value(add(P.p, INT(3)))); W = P.W
    at = lambda x: any(y.op == 'call' and y.a[0] == CBS for y in subterms(x))
    if not at(e.val): rep.ob(False, 'every script of a block becomes an entry', W, f'a script block adds {short(e.val)}', 'Script.src'); return
    call = [y for y in subterms(e.val) if y.op == 'call' and y.a[0] == CBS][0]
    rep.ob(P.same_text(call.a[1], P.value(add(P.p, INT(3)))) and P.only(b, add(P.p, ONE), {'Colon'}) and P.only(b, add(P.p, INT(2)), {'OpenSquare'}), 'the scripts are those of the block', W, f'the text compiled is {short(call.a[1])}', 'Script.text')
    if e.kind == 'append': rep.ob(e.val is call, 'every script of a block becomes an entry', W, f'{short(e.val)} is added', 'Script.all'); return
    L = e.loop
    if L is None: rep.ob(False, 'every script of a block becomes an entry', W, f'only {short(e.val)} is added', 'Script.all'); return
    ex = exhaustion(L)
    rep.ob(ex is not None and ex[1] is length(call) and exits_only_exhausted(L, ex[0]) and e.val is elem(call, ex[0]), 'every script of a block becomes an entry', W, f'{short(e.val)} is added for {short(ex[1]) if ex else "?"} scripts', 'Script.all')
    M = [q for q in L.phis if any(v[q].op == 'mset' for _, v in L.backs)]
    for b2, v2 in L.backs: rep.ob(all(v2[q].op == 'mset' and v2[q].a[0] is q for q in M), 'every script of a block becomes an entry', W, 'a script can be left out: ' + facts_str(b2.facts[L.nf:]), 'Script.each')
ATTR = {'Relationship': [('table1_name', ['Identifier', 'Colon'], 0), ('table2_name', ['Identifier', 'Colon'], 2)], 'TableOccurence': [('table_actual_name', ['Table', 'Colon', 'Identifier'], 2)]}
def attributes(P, rep, F):
    """what the body of a declaration says reaches the entry"""
    W = P.W
    for O, b, v in [(O, b, v) for O in P.Os for b, v in O.backs]:
        ks = [k for k in P.kinds if P.is_kind(b, P.p, k)]
        if len(ks) != 1 or ks[0] not in DECL: continue
        k = ks[0]
        for e in [e for c in P.col[DECL[k][0]] for e in effects(b, c, v[c])] if k != 'Script' else []:
            todo = [e.val]; done = set(); left = None
            while todo:
                for x in subterms(todo.pop()):
                    if x.op != 'phi' or x in done: continue
                    done.add(x); M = loop_of(b, x)
                    if x in O.phis:
                        if x is not P.p and x not in P.col_of and O.phis[x][1].op != 'int': left = left or x
                    elif M is not None: todo.append(M.phis[x][1])
            rep.ob(left is None, 'a declaration begins with nothing of another', W, f'what an entry of a {k} is made from is kept from the declarations before it: {short(left) if left is not None else ""} in {short(e.val)}', f'{k}.leftover')
        for attr, pat, at in ATTR.get(k, []):
            es = effects(b, next(iter(P.col[DECL[k][0]])), v[next(iter(P.col[DECL[k][0]]))])
            for e in es:
                x = fld(e.val, F.field(DECL[k][1], attr)); L = loop_of(b, x) if x.op == 'phi' else None
                if L is None: rep.ob(False, 'what a declaration says reaches its entry', W, f'{attr} of a {k} is {short(x)}', f'{k}.{attr}'); continue
                toks, q = P.cursor(L); seen = False
                for b2, v2 in L.backs:
                    match = all(P.only(b2, add(q, INT(i)), {w}) for i, w in enumerate(pat))
                    could = all(P.is_kind(b2, add(q, INT(i)), w) for i, w in enumerate(pat))
                    if v2[x] is x: rep.ob(not could, 'what a declaration says reaches its entry', W, f'{" ".join(pat)} does not set {attr} of a {k}: {facts_str(b2.facts[L.nf:], 4)}', f'{k}.{attr}.lost')
                    else:
                        seen = True
                        rep.ob(match and P.same_text(v2[x], P.value(add(q, INT(at)))), 'what a declaration says reaches its entry', W, f'{attr} of a {k} becomes {short(v2[x])}: {facts_str(b2.facts[L.nf:], 4)}', f'{k}.{attr}')
                rep.ob(seen, 'what a declaration says reaches its entry', W, f'nothing sets {attr} of a {k}', f'{k}.{attr}.never')
        if k == 'Test':
            es = effects(b, next(iter(P.col['tests'])), v[next(iter(P.col['tests']))])
            for e in es:
                x = fld(e.val, F.field(DECL[k][1], 'script')); L = loop_of(b, x) if x.op == 'phi' else None
                if L is None: raise Limit(f'the script of a test is {short(x)}')
                toks, q = P.cursor(L)
                for b2, v2 in L.backs:
                    if P.only(b2, q, {'Script'}):
                        c = [y for y in subterms(v2[x]) if y.op == 'call' and y.a[0] == CBS] if v2[x] is not x else []
                        rep.ob(len(c) == 1 and v2[x] is elem(c[0], ZERO) and P.same_text(c[0].a[1], P.value(add(q, INT(3)))), 'a test has its own script', W, f'the script of a test becomes {short(v2[x])}', 'Test.script')
                    else: rep.ob(v2[x] is x, 'a test has its own script', W, f'the script of a test becomes {short(v2[x])}: {facts_str(b2.facts[L.nf:])}', 'Test.script.other')
        if k == 'Test': assertions(P, rep, F, O, b, v)
def assertions(P, rep, F, O, b, v):
    W = P.W; R_ = 'a test has all its assertions'
    for e in effects(b, next(iter(P.col['tests'])), v[next(iter(P.col['tests']))]):
        x = fld(e.val, F.field(DECL['Test'][1], 'assertions')); L = loop_of(b, x) if x.op == 'phi' else None
        if L is None: raise Limit(f'the assertions of a test are {short(x)}')
        toks, q = P.cursor(L); seen = False
        for b2, v2 in L.backs:
            y = v2[x]; F_ = facts_str(b2.facts[L.nf:], 4)
            if y is x: rep.ob(not P.is_kind(b2, q, 'AssertionBlock'), R_, W, f'a block of assertions adds nothing: {F_}', 'Test.assertions.lost'); continue
            start = x
            if y.op == 'cat' and y.a[0] is x: y, start = y.a[1], None           # a list of its own, added afterwards
            M = loop_of(b2, y) if y.op == 'phi' else None
            if M is None or M is L: raise Limit(f'the assertions of a test become {short(y)}')
            seen = True
            rep.ob(P.only(b2, q, {'AssertionBlock'}) and (M.phis[y][1] is x if start is x else length(M.phis[y][1]) is ZERO), R_, W, f'the assertions of a test become {short(M.phis[y][1])}: {F_}', 'Test.assertions.block')
            toks, r = P.cursor(M); rep.ob(M.phis[r][1] is add(q, INT(2)), R_, W, f'assertions are looked for from {short(M.phis[r][1])} on', 'Test.assertions.begin')
            for b3, v3 in M.backs:
                z = v3[y]; G = facts_str(b3.facts[M.nf:], 4); d = sub(v3[r], r)
                rep.ob(d is ONE, R_, W, f'after one token of a block of assertions it goes on at {short(v3[r])}', 'Test.assertions.step')
                if z is y: rep.ob(P.only(b3, r, {'Comma'}), R_, W, f'a token in a block of assertions is left out: {G}', 'Test.assertions.skipped')
                else: rep.ob(z.op == 'push' and z.a[0] is y and P.same_text(z.a[1], P.value(r)) and P.only(b3, r, {'Assertion'}), R_, W, f'the assertions become {short(z)}: {G}', 'Test.assertions.each')
            for s in M.exits:
                rep.ob(not P.is_kind(s, r, 'Assertion') or s.decide(lt(r, length(P.toks))) is False, R_, W, f'a block of assertions can end before one of them: {facts_str(s.facts[M.nf:], 4)}', 'Test.assertions.end')
        rep.ob(seen, R_, W, 'nothing adds to the assertions of a test', 'Test.assertions.never')
MAIN = 'main'
def main_model(F, rep):
    if hasattr(F, '_main'): rep.engine(*F._main); return F._main
    if MAIN not in F.fns: raise Limit('main is gone')
    OP = {p for p in F.fns if p.startswith(('testing::', 'decompile::decompiler::decompile', 'compile::compiler::compile_burn', 'compile::assembler::'))}
    F._main = run(F, rep, MAIN, opaque=OP); rep.engine(*F._main)
    return F._main
OUTPUT = ('std::fs::write', 'std::fs::File::create', 'std::fs::copy')
COMPILE, ASM = 'compile::compiler::compile_burn', 'compile::assembler::Assembler::new'
def op_loops(E, name):
    """innermost loops whose every completed iteration belongs to the given operation"""
    r = []
    for L in E.looprecs:
        if any(e.kind == 'call' and e.name == name for b, _ in L.backs for e in b.events[L.nev:]): r.append(L)
    return r
def holds(v, part, b):
    """does the collection v contain all of part?"""
    while True:
        if v is part: return True
        if v.op == 'mext':
            it = v.a[1]
            if it.op == 'iter' and it.a[0].op == 'src' and part in it.a[0].a:
                if it.a[2] is not ZERO: return False
                for s in it.a[1]:
                    if s.a[0] in ('cloned', 'copied', 'by_ref', 'fuse', 'rev'): continue
                    if s.a[0] in ('take', 'skip', 'step_by', 'filter', 'take_while', 'skip_while', 'filter_map', 'map_while', 'zip'): return False
                    raise Limit(f'a collection is extended by {short(it)}')
                return True
            v = v.a[0]; continue
        if v.op == 'cat':
            if v.a[1] is part: return True
            v = v.a[0]; continue
        if v.op == 'phi':
            L = loop_of(b, v)
            if L is None: return False
            ex = exhaustion(L)
            if ex is not None and ex[1] is length(part) and exits_only_exhausted(L, ex[0]) and all(v2[v].op in ('mset', 'push') and v2[v].a[0] is v and same_entry(v2[v], part, ex[0]) for _, v2 in L.backs): return True
            if not all(x[v] is v or x[v].op in ('mset', 'push', 'cat', 'mext') and x[v].a[0] is v for _, x in L.backs): return False
            v = L.phis[v][1]; continue
        return False
def same_entry(x, part, i):
    if x.op == 'push': return x.a[1] is elem(part, i)
    k = mk('keyat', part, i)
    return x.a[1] is k and x.a[2] in (mk('mget', part, k), mk('valat', part, i))
SER = re.compile(r'serde_json::(\w+::)?to_(string|vec|writer)(_pretty)?$')
def serialised(e): return e.args[1] if 'to_writer' in e.name else e.args[0]
def merged(F, rep):
    E, outs = main_model(F, rep); W = f'{F.fns[MAIN].span} {MAIN}'
    names = [f[0] for f in F.adts[FILE]['variants'][0]['fields'] if f[0] != 'name']; found = 0
    for L in op_loops(E, ASM):
        for b, v in L.backs:
            ev = [e for e in b.events[L.nev:] if e.kind == 'call']
            comp = [e.data[1] for e in ev if e.name == COMPILE]
            if len(comp) != 1: raise Limit(f'{len(comp)} sources are compiled before assembling')
            for e in ev:
                if e.name != ASM and not SER.match(e.name): continue
                found += 1; val = e.args[0] if e.name == ASM else serialised(e)
                while val.op == 'deref': val = val.a[0]
                for i, nme in enumerate(names):
                    k = F.field(FILE, nme); x = fld(val, k)
                    rep.ob(holds(x, fld(comp[0], k), b), 'everything compiled reaches the output', f'{e.span} {MAIN}', f'the {nme} written are {short(x)}, without those of the compiled source', f'merge.{nme}')
    if not found: raise Limit('where a compiled file is assembled cannot be found')
    n = 0
    for L in E.looprecs:
        for b, v in L.backs:
            ev = [e for e in b.events[L.nev:] if e.kind == 'call']
            dec = [e.data[1] for e in ev if e.name.startswith('decompile::decompiler::decompile_fmp12_file')]
            if not dec: continue
            js = [e for e in ev if SER.match(e.name)]
            n += 1
            rep.ob(len(js) >= 1, 'everything decoded reaches the output', W, 'a decoded file is not written: ' + facts_str(b.facts[L.nf:]), 'dump')
            for e in js:
                val = serialised(e)
                while val.op == 'deref': val = val.a[0]
                for nme in names:
                    k = F.field(FILE, nme)
                    rep.ob(any(holds(fld(val, k), fld(d, k), b) for d in dec), 'everything decoded reaches the output', f'{e.span} {MAIN}', f'the {nme} written are {short(fld(val, k))}', f'dump.{nme}')
    if not n: raise Limit('where a decoded file is written cannot be found')
CHECKS['B01'] = b01
INFO['B01'] = 'one iteration of the loop over declarations for each of the token kinds it can begin with: which collection gets which entry under which key, its name and attributes and the tokens consumed; and in main, every collection of the value handed to the assembler and the JSON dump.'

def s05(F, rep, tier):
    E, outs = main_model(F, rep); W = f'{F.fns[MAIN].span} {MAIN}'
    T = 'testing::test::TestEnvironment::'
    CLI = 'cli::CLI'
    if CLI not in F.adts: raise Limit('the command line is gone')
    ft, fn_ = F.field(FILE, 'tests'), F.field(CLI, 'no_testing')
    n = 0
    asm = {L.lid for L in op_loops(E, ASM)}
    for L in E.looprecs:
        for b, v in L.backs:
            ev = [e for e in b.events[L.nev:] if e.kind == 'call']
            src = [e for e in ev if e.name == COMPILE and L.lid in asm or e.name.startswith('decompile::decompiler::decompile_fmp12_file')]
            if not src: continue
            n += 1
            what = 'compiling' if src[0].name == COMPILE else 'decompiling'
            new = fld(src[0].data[1], ft)
            flags = {x for f, t in b.facts for x in subterms(f) if x.op == 'fld' and x.a[1] == fn_ and x.a[0].op == 'call' and 'parse' in str(x.a[0].a[0]) and any('CLI' in str(y.a[0]) for y in x.a[0].a[1:] if isinstance(y, T_))}
            if len(flags) > 1: raise Limit('the command line is read several times')
            flag = next(iter(flags)) if flags else None
            runs = [e for e in ev if e.name.startswith(T) and e.name.split('::')[-1].startswith('run')]
            # the tests there are
            tp = [q for q in L.phis if holds(v[q], new, b)]
            tests = v[tp[0]] if len(tp) == 1 else None
            if tests is None:
                made = [e for e in ev if e.name == T + 'new']
                if made: tests = fld(strip(made[0].args[0]), ft)
                else:
                    c = [f for f, t in b.facts[L.nf:] for f in [f] if contains(f, new)]
                    tests = new
            none = b.decide(eq(length(tests), ZERO))
            off = b.decide(flag) if flag is not None else None
            F_ = facts_str(b.facts[L.nf:], 4)
            if runs:
                rep.ob(off is False, 'tests do not run when they are switched off', f'{runs[0].span} {MAIN}', f'{what}: tests run although they may be switched off ({F_})', f'{what}.off')
                rep.ob(none is False, 'tests run when there are any', f'{runs[0].span} {MAIN}', f'{what}: the test environment is run although there may be no tests ({F_})', f'{what}.none')
                rep.ob(len(runs) == 1 and runs[0].name == T + 'run_tests_with_cleanup', 'every test starts in a clean environment', f'{runs[0].span} {MAIN}', f'{what}: tests are run by {[e.name for e in runs]}', f'{what}.how')
                a = runs[0].args[0]
                gen = [x for x in subterms(a) if x.op == 'call' and x.a[0] == T + 'generate_test_environment']
                made = [x for x in subterms(a) if x.op == 'call' and x.a[0] == T + 'new']
                rep.ob(len(gen) >= 1 and len(made) >= 1, 'tests run in the environment of the file', f'{runs[0].span} {MAIN}', f'{what}: tests run in {short(a)}', f'{what}.env')
                for m in made:
                    f = strip(m.a[1])
                    rep.ob(holds(fld(f, ft), new, b) and fld(f, ft) is tests, 'the tests run are those of the file', f'{runs[0].span} {MAIN}', f'{what}: the tests run are {short(fld(f, ft))}', f'{what}.which')
            else:
                rep.ob(off is True or none is True, 'tests run when there are any', W, f'{what}: tests are not run although there may be some and they may not be switched off ({F_})', f'{what}.missing')
            # the output is written in any case, and is the same
            outw = [e for e in ev if e.name in OUTPUT or e.name.startswith('compile::assembler::Assembler::')]
            want = ({'std::fs::write'} if not any(e.name in OUTPUT for e in outw) else set()) | ({'compile::assembler::Assembler::assemble_fmp12', 'compile::assembler::Assembler::emit_assembly'} if what == 'compiling' else set())
            rep.ob(want <= {e.name for e in outw}, 'output is written whether tests run or not', W, f'{what}: {sorted(want - {e.name for e in outw})} is not called ({F_})', f'{what}.output')
            for e in outw:
                dep = [x.a[0] for a in e.args for x in subterms(a) if x.op == 'call' and str(x.a[0]).startswith(T)]
                rep.ob(not dep, 'output does not depend on the tests', f'{e.span} {MAIN}', f'{what}: what {e.name} gets depends on {dep[:2]}', f'{what}.dep')
    if not n: raise Limit('where files are compiled and decompiled cannot be found')
    # tests given separately
    sep = [L for L in E.looprecs if any(e.kind == 'call' and e.name == COMPILE for b, _ in L.backs for e in b.events[L.nev:]) and not any(e.kind == 'call' and e.name == ASM for b, _ in L.backs for e in b.events[L.nev:])]
    for L in sep:
        for b, v in L.backs:
            c = [e.data[1] for e in b.events[L.nev:] if e.kind == 'call' and e.name == COMPILE]
            rep.ob(len(c) == 1 and any(holds(v[q], fld(c[0], ft), b) for q in L.phis), 'tests given separately are run too', W, 'the tests of a test file are not added: ' + facts_str(b.facts[L.nf:]), 'separate')
from terms import T as T_
def strip(x):
    while x.op in ('deref', 'ref'): x = x.a[0]
    return x
CHECKS['S05'] = s05
INFO['S05'] = 'every path through one iteration of the loops of main that compile or decompile a file: whether tests run, under which conditions on the command line and the tests, which tests, how, and which output is written from what.'

# --- B05: compiling ends -------------------------------------------------------------------------
def b05(F, rep, tier):
    unknown = []; cg = callgraph(F)
    roots = [p for p in ('compile::compiler::compile_burn', 'burn_script::compiler::BurnScriptCompiler::compile_burn_script', 'compile::assembler::Assembler::assemble_fmp12', 'compile::assembler::Assembler::emit_assembly') if p in F.fns]
    for p in ('compile::compiler::compile_burn', 'compile::assembler::Assembler::assemble_fmp12'):
        if p not in F.fns: raise Limit(f'the function {p} this property is anchored in is gone')
    R = {p for p in reach(F, roots) if p in F.fns and not F.fns[p].derived}
    for p in sorted(R): rep.count('functions')
    n = ends_all(F, rep, sorted(R), unknown)
    rep.count('loops', n)
    recursion_ends(F, rep, R, unknown)
    if unknown and not rep.bad: raise Limit('no bounded measure was found for ' + ', '.join(unknown))
    rep.notes = ['a loop driven by a standard iterator over a finite collection ends']
CHECKS['B05'] = b05
INFO['B05'] = 'every loop of every function reachable from compile_burn and assemble_fmp12: a lexicographic measure (bytes or tokens not yet read, length of a queue, …) that each path through an iteration makes smaller; an iteration that changes nothing which decides whether the loop is left is the violation.'

# --- B07: malformed declarations are rejected ---------------------------------------------------
COMPILE_BURN = 'compile::compiler::compile_burn'
HEAD = {'Table': [(1, 'Identifier', 'name')], 'ValueList': [(1, 'Identifier', 'name')], 'TableOccurence': [(1, 'Identifier', 'name')], 'Test': [(1, 'Identifier', 'name')],
        'Relationship': [(1, 'Colon', 'colon')], 'Script': [(1, 'Colon', 'colon'), (2, 'OpenSquare', 'opening bracket'), (4, 'CloseSquare', 'closing bracket')]}
def b07(F, rep, tier):
    P = Program(F, rep); W = P.W; p = P.p; n = length(P.toks); rep.engine(P.E, P.outs)
    for st, r in P.ok:
        rep.ob(st.decide(lt(p, n)) is False, 'what is not a declaration is rejected', W, 'a source is accepted before its end: ' + facts_str(st.facts, 4), 'accept')
        inner = [e.data for e in st.events if e.kind == 'loop' and e.data not in P.Os]
    hit = set()
    for O, b, v in [(O, b, v) for O in P.Os for b, v in O.backs]:
        ks = [k for k in P.kinds if P.is_kind(b, p, k)]; F_ = facts_str(b.facts[O.nf:], 5); e = v[p]
        if v[p] is p: raise Limit('the position in the tokens does not move with a declaration')
        for k in ks:
            rep.ob(k in DECL, 'what is not a declaration is rejected', W, f'a {k} is accepted where a declaration must begin ({F_})', f'other.{k}')
            if k not in DECL: continue
            hit.add(k)
            for at, want, what in HEAD[k]:
                got = [x for x in P.kinds if P.is_kind(b, add(p, INT(at)), x)]
                rep.ob(got == [want] and b.decide(lt(add(p, INT(at)), n)) is not False, f'a declaration has its {what}', W, f'a {k} is accepted with {got[:4]} in place of its {what} ({F_})', f'{k}.{what}')
            if k == 'Script': rep.ob(v[p] is add(p, INT(5)), 'a declaration ends with its own end', W, f'after a script block parsing goes on at {short(v[p])}', 'Script.end'); continue
            for at, want in ((1, 'SemiColon'), (2, k), (3, 'End')):
                q = sub(e, INT(at)); got = [x for x in P.kinds if P.is_kind(b, q, x)]
                rep.ob(got == [want], 'a declaration ends with its own end', W, f'a {k} is accepted when {got[:4]} stands where {want} ends it ({F_})', f'{k}.end.{want}')
            q = sub(e, ONE)
            rep.ob(b.decide(lt(q, n)) is True or P.only(b, q, {'SemiColon'}), 'a declaration ends with its own end', W, f'a {k} is accepted although the source ends first ({F_})', f'{k}.eof')
    for k in DECL: rep.ob(k in hit, 'well-formed declarations are accepted', W, f'no path accepts a declaration of kind {k}', f'{k}.accepted')
    bodies(P, rep)
    # errors stop the program
    if COMPILE_BURN not in F.fns: raise Limit(f'{COMPILE_BURN} is gone')
    E, outs = run(F, rep, COMPILE_BURN, opaque={PROG, 'compile::lexer::tokenize'}); rep.engine(E, outs)
    for st, r in outs:
        c = [x for f, t in st.facts for x in subterms(f) if x.op == 'call' and x.a[0] == PROG] + [x for x in subterms(r) if x.op == 'call' and x.a[0] == PROG]
        Wc = f'{F.fns[COMPILE_BURN].span} {COMPILE_BURN}'
        if not c: rep.ob(False, 'a rejected source is not compiled', Wc, f'a file is returned without parsing the source: {short(r)}', 'compile.none'); continue
        rep.ob(st.decide(eq(discr(c[0]), ZERO)) is True and r is fld(dc(c[0], 0), 0), 'a rejected source is not compiled', Wc, f'when parsing fails {short(r)} is returned', 'compile.err')
    rep.notes = ['a token taken or looked at behind the last one stops the program: it is unwrapped or turned into an error on every path that goes on']
def bodies(P, rep):
    W = P.W; F = P.F; p = P.p; seen = set(); col = {n: next(iter(t)) for n, t in P.col.items()}
    for O, b, v in [(O, b, v) for O in P.Os for b, v in O.backs]:
        ks = [k for k in P.kinds if P.is_kind(b, p, k)]
        if len(ks) != 1 or ks[0] not in ('TableOccurence', 'Test'): continue
        for L in [e.data for e in b.events[O.nev:] if e.kind == 'loop']:
            if id(L) in seen: continue
            seen.add(id(L)); toks, q = P.cursor(L)
            for b2, v2 in L.backs:
                F_ = facts_str(b2.facts[L.nf:], 5)
                if ks[0] == 'TableOccurence' and P.only(b2, q, {'Table'}):
                    rep.ob(P.only(b2, add(q, ONE), {'Colon'}) and P.only(b2, add(q, INT(2)), {'Identifier'}), 'the table of an occurrence is named', W, f'an occurrence is accepted without colon and name of its table ({F_})', 'TableOccurence.table')
                if ks[0] == 'Test' and P.only(b2, q, {'Script'}):
                    rep.ob(P.only(b2, add(q, ONE), {'Colon'}) and P.only(b2, add(q, INT(2)), {'OpenSquare'}), 'the script of a test stands in a block', W, f'the script of a test is accepted without colon and bracket ({F_})', 'Test.block')
                    c = [x for u in v2.values() for x in subterms(u) if x.op == 'call' and x.a[0] == CBS] or [x for f, t in b2.facts[L.nf:] for x in subterms(f) if x.op == 'call' and x.a[0] == CBS]
                    if not c: rep.ob(False, 'a test has exactly one script', W, f'the script of a test is not compiled ({F_})', 'Test.none'); continue
                    m = length(c[0])
                    rep.ob(not possible(b2, lt(ONE, m)), 'a test has exactly one script', W, f'a test with several scripts is accepted ({F_})', 'Test.many')
                    rep.ob(not possible(b2, eq(m, ZERO)), 'a test has exactly one script', W, f'a test without script is accepted ({F_})', 'Test.empty')
CHECKS['B07'] = b07
INFO['B07'] = 'every path through one declaration of a burn source: which tokens must stand where its name, its opening and its end belong for the path to go on, what ends the loop over its body, and whether an error of the parser stops the program; the loops over the bodies of occurrences and tests likewise'

# --- S06: the files named on the command line ----------------------------------------------------
DEC = 'decompile::decompiler::decompile_fmp12_file'; DECH = DEC + '_with_header'; EMIT = 'compile::assembler::Assembler::emit_assembly'; ASSEMBLE = 'compile::assembler::Assembler::assemble_fmp12'
def bare(x):
    while True:
        if x.op in ('deref', 'ref', 'tostr', 'clone', 'owned'): x = x.a[0]
        elif x.op == 'call' and str(x.a[0]) in ('std::path::Path::new', 'std::path::PathBuf::from', 'std::convert::AsRef::as_ref', 'std::path::Path::to_path_buf', 'new'): x = x.a[1]
        else: return x
def called(x, *names): return x.op == 'call' and any(str(x.a[0]) == n or str(x.a[0]).endswith('::' + n) for n in names)
def whole(x):
    """the path of the file whose whole content x is; None when x is something else"""
    x = bare(x)
    if x.op == 'wholefile': return x.a[0]
    if x.op == 'fld' and x.a[0].op == 'dc' and x.a[1] == 0: x = bare(x.a[0].a[0])       # Ok(..)
    if called(x, 'read_to_string', 'read') and len(x.a) == 2: return bare(x.a[1])
    if called(x, 'from_utf8') and len(x.a) == 2: return whole(x.a[1])
    if x.op == 'out' and called(x.a[0], 'read_to_string', 'read_to_end') and x.a[1] == 1 and length(x.a[0].a[2]) is ZERO:
        o = bare(x.a[0].a[1])
        if o.op == 'fld' and o.a[0].op == 'dc' and o.a[1] == 0: o = bare(o.a[0].a[0])
        if called(o, 'open'): return bare(o.a[1])
        if called(o, 'BufReader::new') and whole_open(o.a[1]) is not None: return whole_open(o.a[1])
    return None
def writings(st):
    """the files written on a path as [(path, content)]; Limit when they are written in an unknown way"""
    r = []; made = {}
    for e in st.events:
        if e.kind != 'call' or not e.name.startswith(('std::fs::', 'std::io::', '<std::fs::', '<std::io::')): continue
        m = e.name.split('::')[-1]
        if e.name == 'std::fs::write': r.append([bare(e.args[0]), e.args[1]])
        elif e.name == 'std::fs::copy': r.append([bare(e.args[1]), mk('wholefile', bare(e.args[0]))])
        elif e.name == 'std::fs::File::create': made[bare(e.args[0])] = len(r); r.append([bare(e.args[0]), STR('')])
        elif m == 'write_all':
            c = [x for x in subterms(e.args[0]) if called(x, 'create')]
            if len(c) != 1 or bare(c[0].a[1]) not in made or r[made[bare(c[0].a[1])]][1] is not STR(''): raise Limit(f'a file is written by {short(e.args[0])}')
            r[made[bare(c[0].a[1])]][1] = e.args[1]
        elif m in ('rename', 'remove_file', 'hard_link', 'create_new', 'set_len', 'write', 'write_fmt', 'write_vectored', 'seek', 'copy'): raise Limit(f'files are written by {e.name}')
    return r
def whole_open(o):
    o = bare(o)
    if o.op == 'fld' and o.a[0].op == 'dc' and o.a[1] == 0: o = bare(o.a[0].a[0])
    return bare(o.a[1]) if called(o, 'open') else None
def walk(L, files):
    """(index, first index, distance to the next) of a loop that goes through a list"""
    for s in L.exits:
        for x, t in s.facts[L.nf:]:
            for ph, (init, step) in L.induction().items():
                if t and x is eq(ph, length(files)) and step == 1: return ph, init, ONE
            if t or x.op != 'lt' or x.a[1] is not length(files): continue
            for ph, (init, step) in L.induction().items():
                if contains(x.a[0], ph): return x.a[0], terms.replace(x.a[0], {ph: init}), sub(terms.replace(x.a[0], {ph: add(ph, INT(step))}), x.a[0])
    return None
def s06(F, rep, tier):
    E, outs = main_model(F, rep); W = f'{F.fns[MAIN].span} {MAIN}'
    for x in (DEC, DECH, COMPILE, EMIT, ASSEMBLE):
        if x not in F.fns: raise Limit(f'{x} is gone')
    if 'cli::CLI' not in F.adts or 'cli::MainOperations' not in F.adts: raise Limit('the command line is gone')
    cli = {x for s in all_states(outs, E) for f, t in s.facts for x in subterms(f) if x.op == 'call' and 'parse' in str(x.a[0]) and any('CLI' in str(y.a[0]) for y in x.a[1:] if isinstance(y, T_))}
    if len(cli) != 1: raise Limit(f'the command line is read {len(cli)} times')
    cli = next(iter(cli)); op = fld(cli, F.field('cli::CLI', 'op'))
    LIST = {'test': fld(cli, F.field('cli::CLI', 'test')), 'compile': fld(op, F.field('cli::MainOperations', 'compile')), 'decompile': fld(op, F.field('cli::MainOperations', 'decompile'))}
    header = fld(cli, F.field('cli::CLI', 'print_header')); loops = {k: set() for k in LIST}
    for L in E.looprecs:
        for k, l in LIST.items():
            files = fld(dc(l, 1), 0); w = walk(L, files)
            if w is None: continue
            loops[k].add(L.lid); f = elem(files, w[0])
            rep.ob(w[1] is ZERO and w[2] is ONE, 'every file named is worked on', W, f'of the files of {k}, those at {short(w[1])}, {short(add(w[1], w[2]))}, ... are worked on', f'{k}.which')
            rep.ob(all(any(not t and x.op == "lt" and x.a[0] is w[0] and x.a[1] is length(files) or t and x is eq(w[0], length(files)) for x, t in s.facts[L.nf:]) for s in L.exits), 'every file named is worked on', W, f'the files after one of {k} can be left out: ' + '; '.join(facts_str(s.facts[L.nf:], 3) for s in L.exits)[:300], f'{k}.all')
            for b, v in L.backs:
                ev = [e for e in b.events[L.nev:] if e.kind == 'call']; F_ = facts_str(b.facts[L.nf:], 4)
                comp = [e for e in ev if e.name == COMPILE]; dec = [e for e in ev if e.name in (DEC, DECH)]
                if k == 'decompile':
                    rep.ob(len(dec) == 1 and not comp, 'each file is decoded once', W, f'{len(dec)} files are decoded for one of {k} ({F_})', f'{k}.once')
                    for e in dec:
                        rep.ob(bare(e.args[0]) is f, 'the file decoded is the one named', f'{e.span} {MAIN}', f'{short(bare(e.args[0]))} is decoded', f'{k}.file')
                        h = b.decide(header)
                        if h is None: raise Limit('whether the header is asked for is not known where a file is decoded')
                        rep.ob((e.name == DECH) == h, 'the header log is written exactly when asked for', f'{e.span} {MAIN}', f'{e.name} is called with --print-header {"on" if h else "off"}', f'{k}.header')
                    continue
                rep.ob(len(comp) == 1 and not dec, 'each source is compiled once', W, f'{len(comp)} sources are compiled for one of {k} ({F_})', f'{k}.once')
                for e in comp:
                    p = whole(e.args[0])
                    if p is None and (not contains(e.args[0], f) or any(x.op in ('slice', 'range') or called(x, 'take', 'chain', 'skip') for x in subterms(e.args[0]))): rep.ob(False, 'the source compiled is the file named', f'{e.span} {MAIN}', f'{short(e.args[0])} is compiled', f'{k}.file'); continue
                    if p is None: raise Limit(f'the source compiled is {short(e.args[0])}')
                    rep.ob(p is f, 'the source compiled is the file named', f'{e.span} {MAIN}', f'the content of {short(p)} is compiled', f'{k}.file')
                if k != 'compile': continue
                em = [e for e in ev if e.name == EMIT]
                rep.ob(len(em) == 1, 'each source yields one database', W, f'{len(em)} databases are written for a source ({F_})', 'emit.once')
                for e in em:
                    name = bare(e.args[1]); where = f'{e.span} {MAIN}'
                    rep.ob(contains(name, f), 'the database is named after the source', where, f'the database is named {short(name)}', 'emit.name')
                    alt = altered(name)
                    rep.ob(not alt, 'the database is named after the source', where, f'the name of the source is changed: {short(alt[0]) if alt else ""}', 'emit.altered')
                    parts = {str(x.a[0]).split('::')[-1] for x in subterms(name) if x.op == 'call' and not contains(cli, x) and not any(x is y for y in subterms(f))}
                    stem = 'file_stem' in parts
                    for x in subterms(name):
                        if x.op == 'strip_suffixped' or x.op == 'call' and 'strip_suffix' in str(x.a[0]): stem = True; rep.ob(x.a[-1] is STR('.burn'), 'the database is named after the source', where, f'the name is cut at {short(x.a[-1])}', 'emit.suffix')
                    rep.ob(stem and ('file_name' in parts or 'file_stem' in parts), 'the database is named after the source', where, f'the database is named {short(name)}', 'emit.stem')
                    a = [x for x in subterms(e.args[0]) if called(x, ASSEMBLE)]
                    rep.ob(len(a) == 1, 'the database written is the assembled file', where, f'{short(e.args[0])} is written', 'emit.assembled')
                    for x in a:
                        fl = bare(x.a[2]); new = [y for y in subterms(x.a[1]) if called(y, ASM)]
                        rep.ob(fld(fl, F.field(FILE, 'name')) is name, 'the assembled file carries the name of the source', where, f'its name is {short(fld(fl, F.field(FILE, "name")))}', 'emit.filename')
                        rep.ob(len(new) == 1 and bare(new[0].a[1]) is fl, 'the database written is the assembled file', where, 'the assembler is made for another file', 'emit.same')
    for st, r in outs:
        done = {e.data.lid for e in st.events if e.kind == 'loop'}
        for k, l in LIST.items():
            given = [eq(discr(l), ONE)] + ([NOT(eq(discr(LIST['compile']), ONE))] if k == 'decompile' else [])
            if possible(st, *given): rep.ob(bool(done & loops[k]), 'every operation asked for is carried out', W, f'the files of {k} are not worked on: ' + facts_str(st.facts, 4), f'{k}.done')
    for k in LIST:
        if not loops[k]: raise Limit(f'the loop over the files of {k} cannot be found')
    # the variant with header does the same
    E2, o2 = run(F, rep, DECH, opaque={DEC}); rep.engine(E2, o2); Wh = f'{F.fns[DECH].span} {DECH}'
    p = next((bare(x) for st, r in o2 for e in st.events if e.kind == 'call' and e.name == DEC for x in e.args[:1]), None)
    for st, r in o2:
        wr = writings(st); ok = called(r, DEC) and bare(r.a[1]).op in ('sym', 'arg')
        rep.ob(ok, 'asking for the header does not change what is decoded', Wh, f'{short(r)} is returned', 'header.result')
        rep.ob(len(wr) == 1, 'the header log holds the whole file', Wh, f'{len(wr)} files are written', 'header.once')
        for _, x in wr:
            c = whole(x)
            if c is None and x.op not in ('vec', 'str') and not (bare(x).op == 'out' or any(y.op in ('slice', 'range') for y in subterms(x))): raise Limit(f'the header log gets {short(x)}')
            rep.ob(c is not None and ok and c is bare(r.a[1]), 'the header log holds the whole file', Wh, f'the header log gets {short(x)}', 'header.whole')
    # what is written
    E3, o3 = run(F, rep, EMIT); rep.engine(E3, o3); We = f'{F.fns[EMIT].span} {EMIT}'; AS = 'compile::assembler::Assembler'
    for st, r in o3:
        wr = writings(st)
        if len(wr) != 1: raise Limit(f'{len(wr)} files are written for a database')
        nm = bare(wr[0][0])
        rep.ob(nm.op == 'cat' and nm.a[1] is STR('.fmp12') and bare(nm.a[0]).op in ('sym', 'arg'),
               'the database is written under its name', We, f'it is written to {short(wr[0][0])}', 'write.name')
        c = bare(wr[0][1])
        rep.ob(c.op == 'fld' and c.a[1] == F.field(AS, 'buffer') and c.a[0].op in ('sym', 'arg'), 'all that was assembled is written', We, f'{short(c)} is written', 'write.all')
CHECKS['S06'] = s06
INFO['S06'] = 'every path through one iteration of the loops of main over the files of each operation, every way out of main, and every path of the functions that write the header log and the database: which file is read, how much of it, what is done with it and under which name the result is written'

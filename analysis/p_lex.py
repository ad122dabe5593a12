"""B04, B06: the lexers as transducers.  One iteration of the loop over the characters is analysed with an arbitrary character, an arbitrary word so far and
arbitrary tokens so far; what it appends to the word and to the tokens is compared with the language, per class of the character."""
from lib import *
CHECKS, INFO = {}, {}
GET = 'burn_script::lexer::Lexer::get_tokens'
BSC = 'burn_script::compiler::BurnScriptCompiler::compile_burn_script'

def text(t):
    """a string as a list of characters and unknown parts; None when built in an unknown way"""
    if t.op == 'str': return [CHAR(ord(c)) for c in t.a[0]]
    if t.op == 'chstr': return [t.a[0]]
    if t.op == 'char': return [t]
    if t.op == 'cat':
        a, b = text(t.a[0]), text(t.a[1]); return None if a is None or b is None else a + b
    if t.op in ('tostr', 'clone', 'owned'): return text(t.a[0])
    if t.op in ('phi', 'sym'): return [mk('part', t)]
    return None
LISTCHANGE = ('dedup', 'dedup_by', 'dedup_by_key', 'retain', 'retain_mut', 'sort', 'sorted', 'rev', 'reversed', 'truncate', 'inserted', 'removed', 'swap_remove', 'filter')
class Lexer:
    """the loops of a lexer: the characters, the position in them, the word so far and the tokens so far"""
    def __init__(self, F, rep, fn, tok):
        if fn not in F.fns: raise Limit(f'the function {fn} this property is anchored in is gone')
        if tok not in F.adts or tok + 'Type' not in F.adts: raise Limit(f'the type {tok} is gone')
        self.F, self.rep, self.fn, self.tok, self.W = F, rep, fn, tok, f'{F.fns[fn].span} {fn}'
        self.E, self.outs = run(F, rep, fn); self.made = set(); self.m = {}
        self.kinds = [v['name'] for v in F.adts[tok + 'Type']['variants']]
        self.ft = F.field(tok, 'ttype')
        try: self.fv = F.field(tok, 'value')
        except Exception: self.fv = F.field(tok, 'text')
    def cursor(self, L):
        c = {}
        for st in [b for b, _ in L.backs] + list(L.exits):
            for f, t in st.facts[L.nf:]:
                for x in subterms(f):
                    if x.op == 'elem' and x.a[1] in L.phis and self.is_text(x.a[0]): c[x.a[0], x.a[1]] = c.get((x.a[0], x.a[1]), 0) + 1
        if not c: return None, None
        return max(c, key=lambda k: c[k])
    def is_text(self, t): return any(x.op == 'chars' for x in subterms(t))
    def is_tok(self, x): return x.op == 'adt' and x.a[0] == self.tok
    def of(self, L, pred): return [p for p, (pl, i) in L.phis.items() if pred(p, pl, i)]
    def strings(self, L):
        def is_str(p, pl, i):
            t = place_type(self.F, pl)
            while t is not None and t['k'] == 'ref': t = self.F.types[t['to']]
            return t is not None and t['k'] == 'adt' and 'String' in t['def'] and not pl[1][-1:] == (('pos',),)
        return self.of(L, is_str)
    def tokens(self, L):
        def is_toks(p, pl, i):
            t = place_type(self.F, pl)
            while t is not None and t['k'] == 'ref': t = self.F.types[t['to']]
            return t is not None and t['k'] == 'adt' and 'Vec' in t['def'] and t.get('args') and norm(self.F.types[t['args'][0]].get('def', '')) == self.tok and not pl[1][-1:] == (('pos',),)
        return self.of(L, is_toks)
    def flat(self, st, t, n=0):
        """a token list as [('all', unknown list) | ('tok', token)]; loops that append a list are expanded"""
        if t.op == 'vec': return [('tok', x) for x in t.a]
        if t.op == 'push':
            a = self.flat(st, t.a[0], n); return None if a is None else a + [('tok', t.a[1])]
        if t.op == 'cat':
            a, b = self.flat(st, t.a[0], n), self.flat(st, t.a[1], n); return None if a is None or b is None else a + b
        if t.op == 'phi':
            L = loop_of(st, t)
            if L is not None and n < 6:
                src = self.append_loop(L, t)
                if src is not None:
                    a, b = self.flat(st, replace(L.phis[t][1], self.m), n + 1), self.flat(st, replace(src, self.m), n + 1)
                    return None if a is None or b is None else a + b
            return [('all', t)]
        if t.op in ('clone',): return self.flat(st, t.a[0], n)
        if t.op == 'inserted' and t.a[1] is ZERO:
            a = self.flat(st, t.a[0], n); return None if a is None else [('tok', t.a[2])] + a
        return None
    def append_loop(self, L, t):
        ex = exhaustion(L)
        if ex is None or not exits_only_exhausted(L, ex[0]): return None
        src = None
        for b, v in L.backs:
            x = v[t]
            if x.op != 'push' or x.a[0] is not t: return None
            y = x.a[1]
            if y.op == 'clone': y = y.a[0]
            if y.op != 'elem' or y.a[1] is not ex[0]: return None
            if src is not None and src is not y.a[0]: return None
            src = y.a[0]
        if src is None or length(src) is not ex[1]: return None
        return src
    def show(self, items):
        if items is None: return '?'
        return [('…' if k == 'all' else (self.kinds[fld(x, self.ft).a[1]] if fld(x, self.ft).op == 'adt' else short(fld(x, self.ft), 40)) + '(' + short(fld(x, self.fv), 60) + ')') for k, x in items]
    def same_text(self, got, want, c, ch, empty):
        """is the string got the characters want (list)?  None when unknown"""
        g = text(got)
        if g is None: return None
        w = list(want)
        m = (lambda x: CHAR(ord(ch)) if x is c and ch is not None else x)
        drop = (lambda l: [x for x in l if not (empty and x is empty)])
        return [m(x) for x in drop(g)] == [m(x) for x in drop(w)]
def block_states(X, rep, W, R, m, S, q, c, b, xs, chs):
    """Every state the loop over a script block can be in: what the text so far says about being inside a string, against the remembered values xs of the loop (conditions and
       characters), explored over the characters the loop tells apart."""
    part = mk('part', b); n = 0; marks = {34, 93}
    for st in list(R.exits) + [e for e, _ in R.backs]:
        for f, t in st.facts[R.nf:]:
            for y in subterms(f):
                if y.op == 'eq' and any(z is c or z in xs for z in y.a): marks |= {z.a[0] for z in y.a if z.op == 'char'}
    def classes(x, v): return [eq(x, CHAR(v))] if v is not None else [NOT(eq(x, CHAR(k))) for k in sorted(marks)]
    init = []
    for x in xs:
        i = replace(R.phis[x][1], m)
        if i.op == 'bool': init.append(i.a[0])
        elif i.op == 'char': init.append(i.a[0] if i.a[0] in marks else None)
        else: raise Limit('the state of the loop over a script block is kept in an unrecognised form')
    isbool = [R.phis[x][1].op == 'bool' for x in xs]
    todo = [(0, tuple(init))]; done = set(todo)
    while todo:
        inside, vals = todo.pop()
        if len(done) > 64: raise Limit('the loop over a script block has too many states')
        for ch in sorted(marks) + [None]:
            conds = [S] + [x if v else NOT(x) for x, v, o in zip(xs, vals, isbool) if o] + [z for x, v, o in zip(xs, vals, isbool) if not o for z in classes(x, v)] + classes(c, ch)
            end = ch == 93 and not inside; hit = 0; key = chr(ch) if ch is not None else 'other'; name = f'{key!r} {"inside" if inside else "outside"} a string'
            for e, u in R.backs:
                if not possible(e, *conds): continue
                hit += 1; why = 'the block goes on' if end else None
                t = X.same_text(u[b], [part, c], c, chr(ch) if ch is not None else None, None)
                if t is None: raise Limit(f'the block becomes {short(u[b])}')
                if not t: why = why or f'the block becomes {short(u[b])}'
                if u[c] is not elem(chs, q) or u[q] is not add(q, ONE): why = why or f'the next character is {short(u[c])}'
                e2 = e.fork()
                for z in conds: e2.assume(z)
                rep.ob(why is None, 'a script block ends at the first closing bracket outside a string', W, f'{name}: {why}', f'block.{key}.{inside}'); n += 1
                if end: continue
                know = {eq(c, CHAR(k)): BOOL(k == ch) for k in marks}; nxt = []
                for x, v, o in zip(xs, vals, isbool):
                    y = u[x]
                    if o:
                        d = flag(e2, y, {**know, **{z: BOOL(w) for z, w, oo in zip(xs, vals, isbool) if oo}}, R)
                        if d is None: raise Limit(f'a condition becomes {short(y)}')
                        nxt.append(int(d))
                    elif y is c: nxt.append(ch)
                    elif y.op == 'char': nxt.append(y.a[0] if y.a[0] in marks else None)
                    elif y in xs and not isbool[xs.index(y)]: nxt.append(vals[xs.index(y)])
                    else: raise Limit(f'the state of the loop over a script block becomes {short(y)}')
                z = (inside ^ (ch == 34), tuple(nxt))
                if z not in done: done.add(z); todo.append(z)
            for e in R.exits:
                if not possible(e, *conds): continue
                hit += 1
                rep.ob(end, 'a script block ends at the first closing bracket outside a string', W, f'{name}: the block ends', f'block.{key}.{inside}'); n += 1
            if not hit: raise Limit(f'no path handles {name}')
    return n
def flag(st, t, m, L):
    """the value of a condition when some conditions are known; None when it still varies with the rest of the state of the loop"""
    r = replace(t, m); d = st.decide(r)
    if d is None and not any(x in L.phis for x in subterms(r)): raise Limit(f'a condition becomes {short(t)}')
    return d
def arg_loops(X):
    r = []
    for L in X.E.looprecs:
        for T in X.tokens(L):
            for st, v in [(b, v[T]) for b, v in L.backs]:
                i = []
                while v.op == 'push': i.append(('tok', v.a[1])); v = v.a[0]
                if v is T and any(k == 'tok' and X.is_tok(x) and fld(x, X.ft).op == 'adt' and X.kinds[fld(x, X.ft).a[1]] == 'Argument' for k, x in i):
                    if (L, T) not in r: r.append((L, T))
    return r
KEY = {'define': 'Define', 'let': 'Let', 'loop': 'Loop', 'if': 'If', 'elif': 'Elif', 'else': 'Else'}
PUNCT = {'{': 'OpenBracket', '}': 'CloseBracket', ';': 'SemiColon', ',': 'Comma', '+': 'Plus', '-': 'Minus', '*': 'Multiply', '/': 'Divide', '&': 'Ampersand'}
OPER = '!=<>'
PAIRS = {'==': 'Eq', '!=': 'Neq', '<=': 'Leq', '>=': 'Geq', '=.': 'Assign', '<.': 'Lt', '>.': 'Gt'}     # .: followed by something else
def b04(F, rep, tier):
    TOK = 'burn_script::tokens::Token'
    X = Lexer(F, rep, GET, TOK); W = X.W
    mains = []
    for L in X.E.looprecs:
        ch, p = X.cursor(L)
        if ch is None: continue
        mains.append(L)
    args = arg_loops(X)
    main = [L for L in mains if L not in [a for a, _ in args]]
    if not args: raise Limit('the loop that collects arguments cannot be found')
    if len({L.lid for L in main}) != 1: raise Limit(f'{len(main)} loops walk over the text')
    for L, T in args: arguments(X, L, T)
    # the latest record is the one of the stable iteration
    for L in main: words(X, L, Words(KEY, PUNCT, ')' + OPER, args, pairs=PAIRS))
    # from the text to the parser
    if BSC not in F.fns: raise Limit(f'{BSC} is gone')
    E, outs = run(F, rep, BSC, opaque={GET, 'burn_script::parser::Parser::parse'})
    n = 0
    for s, r in outs:
        gets = [e for e in s.events if e.kind == 'call' and e.name == GET]; ps = [e for e in s.events if e.kind == 'call' and e.name == 'burn_script::parser::Parser::parse']
        if len(gets) != 1 or len(ps) != 1: raise Limit('the lexer and the parser are not called once')
        n += 1
        src = s.val(gets[0].args[0]); code = mk('sym', 'code')
        rep.ob(any(x is code or (text(x) == [mk('part', code)]) for x in subterms(src)), 'the text of the block is what is split', f'{F.fns[BSC].span} {BSC}', f'the lexer is given {short(src)}', 'flow.text')
        pa = ps[0].args[0]
        rep.ob(any(x is gets[0].data[1] for x in subterms(pa)) and not any(x.op in ('pop', 'slice', 'removed', 'inserted', 'rev', 'truncate', 'filtered') for x in subterms(pa)), 'all tokens reach the parser', f'{F.fns[BSC].span} {BSC}', f'the parser is given {short(pa)}', 'flow.tokens')
    rep.count('flows', n)
def arguments(X, L, T):
    rep, W = X.rep, X.W
    chs, P = X.cursor(L)
    if P is None: raise Limit('the position of the argument loop cannot be found')
    c = elem(chs, P)
    Bs = [p for p in X.strings(L)]
    if len(Bs) != 1: raise Limit(f'{len(Bs)} strings are built by the argument loop')
    B = Bs[0]; part = mk('part', B)
    if length(L.phis[B][1]) is not ZERO and (L.base.bnd(length(L.phis[B][1]))[1] != 0): rep.ob(False, 'an argument starts empty', W, f'the first argument starts with {short(L.phis[B][1])}', 'args.start')
    flags = [p for p, (pl, i) in L.phis.items() if i.op == 'bool']
    ints = [p for p, (pl, i) in L.phis.items() if i.op == 'int' and p is not P]
    other = [p for p in L.phis if p not in flags + ints + [P, B, T]]
    if len(flags) != 1 or len(ints) != 1 or other: raise Limit('the state of the argument loop is kept in an unrecognised form')
    S, D = flags[0], ints[0]
    rep.ob(L.phis[S][1].a[0] == 0, 'argument lists start outside a string', W, 'argument lists start inside a string', 'args.quote')
    rep.ob(L.phis[D][1] is ZERO, 'argument lists start at their own parenthesis', W, f'nesting starts at {short(L.phis[D][1])}', 'args.depth')
    special = '"(), '
    argtok = lambda x, v, ch, e: X.is_tok(x) and fld(x, X.ft).op == 'adt' and X.kinds[fld(x, X.ft).a[1]] == 'Argument' and X.same_text(fld(x, X.fv), [part], c, ch, part if e else None)
    n = 0
    for inside in (0, 1):
        for depth in ((0, 1) if not inside else (None,)):
            for empty in (0, 1):
                for ch in list(special) + ['other', 'space']:
                    conds = [lt(P, length(chs)), S if inside else NOT(S)]
                    if depth is not None: conds.append(eq(D, ZERO) if not depth else NOT(eq(D, ZERO)))
                    conds.append(eq(length(B), ZERO) if empty else NOT(eq(length(B), ZERO)))
                    ws = mk('call', 'is_whitespace', c)
                    if ch in ('other', 'space'):
                        conds += [NOT(eq(c, CHAR(ord(x)))) for x in special] + [ws if ch == 'space' else NOT(ws)]
                    else: conds += [eq(c, CHAR(ord(ch))), ws if ch == ' ' else NOT(ws)]
                    name = f'{"inside a string" if inside else "at depth 0" if not depth else "in inner parentheses"}, {"no character so far" if empty else "after other characters"}, {ch!r}'
                    end = not inside and ch == ')' and not depth
                    split = not inside and ch == ',' and not depth
                    skip = not inside and ch == ' ' and empty
                    key = f'args.{inside}.{depth}.{empty}.{ch}'
                    e = part if empty else None; k = ch if len(ch) == 1 else None
                    hit = 0
                    for st, v in L.backs:
                        if not possible(st, *conds): continue
                        hit += 1; why = None
                        got = X.flat(st, v[T])
                        if got is None: raise Limit(f'tokens are collected in an unrecognised form: {short(v[T])}')
                        if v[P] is not add(P, ONE): why = f'continues at {short(v[P])}'
                        if end: why = why or 'the argument list goes on'
                        elif split:
                            t = X.same_text(v[B], [], c, k, None)
                            if t is None: raise Limit(f'the argument is {short(v[B])}')
                            if len(got) != 2 or got[0] != ('all', T) or got[1][0] != 'tok' or not argtok(got[1][1], v, k, empty): why = why or f'yields {X.show(got)}'
                            elif not t: why = why or f'the next argument starts with {short(v[B])}'
                        else:
                            want = [part] if skip else [part, c]
                            t = X.same_text(v[B], want, c, k, e)
                            if t is False and ch == 'space' and not inside and empty: t = X.same_text(v[B], [part], c, k, e)
                            if t is None: raise Limit(f'the argument is {short(v[B])}')
                            if not t: why = why or f'the argument becomes {short(v[B])}'
                            if got != [('all', T)]: why = why or f'yields {X.show(got)}'
                        ws_ = st.fork()
                        for x in conds: ws_.assume(x)
                        wantS = NOT(S) if ch == '"' else S
                        if not (v[S] is wantS or flag(ws_, v[S], {S: BOOL(inside), eq(c, CHAR(34)): BOOL(ch == '"')}, L) is (bool(inside) != (ch == '"'))): why = why or f'being inside a string becomes {short(v[S])}'
                        wantD = add(D, ONE) if ch == '(' and not inside else sub(D, ONE) if ch == ')' and not inside else D
                        if v[D] is not wantD and not (split and v[D] is ZERO): why = why or f'the nesting becomes {short(v[D])}'
                        rep.ob(why is None, 'arguments are split at separators only', W, f'{name}: {why}', key); n += 1
                    for st in L.exits:
                        if not possible(st, *conds): continue
                        hit += 1; why = None
                        if not end: why = 'the argument list ends'
                        rep.ob(why is None, 'an argument list ends at its own parenthesis', W, f'{name}: {why}', key); n += 1
                    if not hit: raise Limit(f'no path handles: {name}')
    rep.count('argument_cases', n)
def settled(L, st, vals, assume):
    """the path with inner loops that are not entered under the assumptions replaced by the values they start with: (state, values, loops entered); None when it cannot be taken"""
    s = L.base.fork()
    for c in assume:
        if not s.assume(c): return None
    m = {}; entered = []
    for e in st.events[L.nev:]:
        if e.kind != 'loop': continue
        R = e.data; init = {p: replace(i, m) for p, (pl, i) in R.phis.items()}; m2 = {**m, **init}
        def never(b):
            s2 = s.fork()
            return any(not s2.assume(replace(f, m2), t) for f, t in b.facts[R.nf:])
        if all(never(b) for b, _ in R.backs): m.update(init)
        else: entered.append(R)
    for f, t in st.facts[L.nf:]:
        f = replace(f, m)
        if not s.assume(f, t): return None
        if f.op == 'call' and f.a[0] == 'is_whitespace' and s.value(f.a[1]).op == 'char' and chr(s.value(f.a[1]).a[0]).isspace() != t: return None
    s.events = st.events
    return s, {p: replace(v, m) for p, v in vals.items()}, entered, m
class Words:
    """what the language says about words and marks"""
    def __init__(self, keys, punct, silent, args=None, flags=(), opens=None, numbers=True, pairs=None):
        self.pairs = pairs or {}; self.keys, self.punct, self.silent, self.args, self.flags, self.opens, self.numbers = keys, punct, silent, args, flags, opens or {}, numbers
def words(X, L, W_):
    rep, W, KEY, PUNCT, args = X.rep, X.W, W_.keys, W_.punct, W_.args
    chs, P = X.cursor(L); c = elem(chs, P)
    Bs, Ts = X.strings(L), X.tokens(L)
    if len(Bs) != 1 or len(Ts) != 1: raise Limit(f'{len(Bs)} strings and {len(Ts)} token lists are built by the loop over the text')
    B, T = Bs[0], Ts[0]; part = mk('part', B)
    rep.ob(L.phis[T][1].op == 'vec' and not L.phis[T][1].a and length(L.phis[B][1]) is ZERO and L.phis[P][1] is ZERO, 'splitting starts at the first character', W, f'starts at {short(L.phis[P][1])} with {short(L.phis[B][1])}', 'words.start')
    ws = mk('call', 'is_whitespace', c); n = 0
    special = ''.join(PUNCT) + W_.silent
    cases = []
    for ch in list(PUNCT) + list(W_.pairs) + (['('] if args is not None else []) + ['space', 'other'] + ([] if '"' in special else ['"']):
        cc = [ws if ch == 'space' else NOT(ws)]
        cc += [NOT(eq(c, CHAR(ord(x)))) for x in special + ('"' if ch == 'other' and '"' not in special else '') + ('(' if args is not None else '')] if len(ch) > 2 else [eq(c, CHAR(ord(ch[0])))]
        if ch in W_.pairs: cc += [lt(add(P, ONE), length(chs)), eq(elem(chs, add(P, ONE)), CHAR(ord('='))) if ch[1] == '=' else NOT(eq(elem(chs, add(P, ONE)), CHAR(ord('='))))]
        for w in ['', 'word'] + (list(KEY) if ch not in ('other', '"') else []):
            wc = [eq(length(B), ZERO)] if not w else [NOT(eq(length(B), ZERO))]
            if w: wc += [eq(B, STR(k)) if k == w else NOT(eq(B, STR(k))) for k in KEY]
            cases.append((ch, w, cc + wc))
    hits = {}; noflag = [NOT(f) for f in W_.flags]; opened = {}
    for st, v in L.backs:
        if W_.flags:
            x = settled(L, st, v, noflag)
            if x is None: continue
            st, v, _, X.m = x
        got = X.flat(st, v[T])
        for ch, w, conds in cases:
            if not possible(st, lt(P, length(chs)), *conds): continue
            if w == 'word' and any(t and f.op == 'call' and 'digit' in str(f.a[0]) and contains(f, B) for f, t in st.facts[L.nf:]): continue     # not an identifier
            if any(t and f.op == 'eq' and f.a[0].op == 'discr' and contains(f, T) and f.a[1].op == 'int' and X.kinds[f.a[1].a[0]] not in X.made for f, t in st.facts[L.nf:]): continue     # after a token that is never made
            hits[ch, w] = 1
            if got is None: raise Limit(f'tokens are collected in an unrecognised form: {short(v[T])}')
            k = ch if len(ch) == 1 else None; why = None; g = list(got); PUNCT_ = {**PUNCT, **W_.pairs}
            name = f'{ch!r} after {"nothing" if not w else "a word" if w == "word" else w}'
            plain = ch == 'other' or ch == '"' and '"' not in PUNCT
            wantB = [part, c] if plain else []
            t = X.same_text(v[B], wantB, c, k, part if not w else None)
            closed = True; posok = v[P] is add(P, INT(2) if ch in W_.pairs and ch[1] == '=' else ONE)
            if ch == '(' and args is not None:
                # the rest of the list comes from the argument loop
                A = [(a, at) for a, at in args if any(e.kind == 'loop' and e.data is a for e in st.events)]
                if len(A) != 1: raise Limit(f'{name}: {len(A)} argument loops')
                a, at = A[0]; ach, ap = X.cursor(a)
                init = X.flat(st, a.phis[at][1])
                if a.phis[ap][1] is not add(P, ONE): why = f'arguments are read from {short(a.phis[ap][1])}'
                closed = st.decide(lt(ap, length(ach))) is not False
                i = [j for j, x in enumerate(g) if x == ('all', at)]
                if len(i) == 1 and init is not None:
                    last = g[i[0] + 1:]
                    if closed and not (len(last) == 1 and last[0][0] == 'tok' and X.is_tok(last[0][1]) and fld(last[0][1], X.ft).op == 'adt' and X.kinds[fld(last[0][1], X.ft).a[1]] == 'Argument' and text(fld(last[0][1], X.fv)) == [mk('part', X.strings(a)[0])]): why = why or f'the last argument becomes {X.show(last)}'
                    g = g[:i[0]] + init
                elif at is not T: why = why or f'the arguments are lost: {X.show(g)}'
                posok = (v[P] is add(ap, ONE)) if closed else True
            if not closed: t = True
            if t is None: raise Limit(f'the word becomes {short(v[B])}')
            if not t: why = why or f'the word so far becomes {short(v[B])}'
            if not posok: why = why or f'continues at {short(v[P])}'
            for f in W_.flags:
                d = st.decide(v[f])
                if ch in W_.opens:
                    if d is None: raise Limit(f'{name}: the state becomes {short(v[f])}')
                    if d: opened.setdefault(ch, set()).add(f)
                elif d is not False: why = why or f'the state becomes {short(v[f])}'
            if ch in W_.opens and W_.flags and not any(st.decide(v[f]) for f in W_.flags): why = why or f'no {W_.opens[ch]} is begun'
            exp = [('all', T)]
            if not g or g[0] != exp[0]: why = why or f'earlier tokens become {X.show(got)}'
            else:
                g = g[1:]
                if w and not plain:
                    if not g or g[0][0] != 'tok' or not X.is_tok(g[0][1]): why = why or 'the word is lost'
                    else:
                        kind, val = fld(g[0][1], X.ft), fld(g[0][1], X.fv)
                        if kind.op != 'adt': raise Limit(f'the kind of a token is {short(kind)}')
                        kind = X.kinds[kind.a[1]]
                        if w in KEY:
                            if kind != KEY[w]: why = why or f'becomes {kind}'
                        else:
                            if kind not in ('Identifier', 'NumericLiteral'): why = why or f'becomes {kind}'
                            if kind == 'Identifier' or W_.numbers:
                                tv = X.same_text(val, [part], c, None, None)
                                if tv is None and altered(val): tv = False
                                if tv is None: raise Limit(f'the text of a word is {short(val)}')
                                if not tv: why = why or f'its text becomes {short(val)}'
                            if kind == 'NumericLiteral' and not any(x.op == 'parse' or (x.op == 'call' and 'parse' in str(x.a[0])) for f, _ in st.facts[L.nf:] for x in subterms(f)): why = why or 'becomes a number'
                        g = g[1:]
                if PUNCT_.get(ch):
                    if not g or g[0][0] != 'tok' or fld(g[0][1], X.ft).op != 'adt' or X.kinds[fld(g[0][1], X.ft).a[1]] != PUNCT_[ch]: why = why or f'yields {X.show(g)}'
                    else: g = g[1:]
                if g: why = why or f'yields also {X.show(g)}'
            rep.ob(why is None, 'each word and punctuation mark is one token', W, f'{name}: {why}', f'words.{ch}.{w}'); n += 1
    for st in L.exits:
        for ch, w, conds in cases:
            if possible(st, lt(P, length(chs)), *noflag, *conds):
                rep.ob(False, 'the whole text is split', W, f'splitting stops at {ch!r}: {facts_str(st.facts[L.nf:])}', 'words.stop')
    for ch, w, _ in cases:
        if (ch, w) not in hits: raise Limit(f'no path handles {ch!r} after {w or "nothing"!r}')
    for s, r in X.outs:
        if r.op == 'phi' and loop_of(s, r) is not L: continue
        g = X.flat(s, r)
        if g is None:
            cut = [x for x in subterms(r) if x.op in LISTCHANGE or x.op == 'call' and str(x.a[0]).split('::')[-1] in LISTCHANGE]
            if cut: rep.ob(False, 'all tokens are returned', W, f'the result is {short(cut[0])}', 'words.result'); continue
            raise Limit(f'the result is {short(r)}')
        rep.ob(('all', T) in g or (bool(g) and g[0][0] == 'all' and g[0][1].op == 'phi'), 'all tokens are returned', W, f'the result is {X.show(g)}', 'words.result')
    rep.count('word_cases', n)
    return opened
CHECKS['B04'] = b04
INFO['B04'] = 'the loop over the characters of a script block and the loop over an argument list, as transducers: for every class of the character, every keyword, inside and outside strings and inner parentheses, what one iteration does to the word so far, the nesting, the string state and the tokens; and the flow of the tokens into the parser.'

# --- B06: the lexer of a whole burn source ------------------------------------------------------
TOKENIZE, COMPILE = 'compile::lexer::tokenize', 'compile::compiler::compile_burn'
KEY6 = {'table': 'Table', 'relationship': 'Relationship', 'value_list': 'ValueList', 'table_occurence': 'TableOccurence', 'script': 'Script', 'test': 'Test', 'end': 'End'}
PUNCT6 = {'[': 'OpenSquare', ']': 'CloseSquare', '(': 'OpenParen', ')': 'CloseParen', ':': 'Colon', ';': 'SemiColon', ',': 'Comma', '!': 'Exclamation', '{': 'OpenCurly', '}': 'CloseCurly', '"': None}
PAIRS6 = {'==': 'EComparison', '=.': 'Assign'}
def b06(F, rep, tier):
    X = Lexer(F, rep, TOKENIZE, 'compile::token::Token'); W = X.W
    main = [L for L in X.E.looprecs if L.phis and X.cursor(L)[1] is not None and len(X.strings(L)) == 1 and len(X.tokens(L)) == 1 and L.phis[X.cursor(L)[1]][1] is ZERO]
    if len({L.lid for L in main}) != 1: raise Limit(f'{len(main)} loops walk over the text')
    L = main[-1]; T = X.tokens(L)[0]
    for st, v in L.backs:
        for x in subterms(v[T]):
            if X.is_tok(x) and fld(x, X.ft).op == 'adt': X.made.add(X.kinds[fld(x, X.ft).a[1]])
    for R in X.E.looprecs:
        for _, v in R.backs:
            for t in v.values():
                for x in subterms(t):
                    if X.is_tok(x) and fld(x, X.ft).op == 'adt': X.made.add(X.kinds[fld(x, X.ft).a[1]])
    flags = [p for p, (pl, i) in L.phis.items() if i.op == 'bool']
    rest = [p for p in L.phis if p not in flags + [X.cursor(L)[1], T] + X.strings(L)]
    if rest or not flags: raise Limit('the state of the lexer is kept in an unrecognised form')
    for f in flags: rep.ob(L.phis[f][1].a[0] == 0, 'a source starts outside of strings and blocks', W, f'{short(f)} starts as true', 'flags.start')
    opened = words(X, L, Words(KEY6, PUNCT6, '=', None, flags, {'[': 'script block', '{': 'calculation', '"': 'string'}, numbers=False, pairs=PAIRS6))
    S = opened.get('[', set())
    if len(S) != 1: raise Limit(f'a script block is entered by {len(S)} flags')
    block(X, L, flags, S.pop())
    for ch, close, kind in (('{', '}', 'Calculation'), ('"', '"', 'String')):
        Q = opened.get(ch, set())
        if len(Q) != 1: raise Limit(f'a {kind} is entered by {len(Q)} flags')
        quoted(X, L, flags, Q.pop(), close, kind)
    if COMPILE not in F.fns: raise Limit(f'{COMPILE} is gone')
    E, outs = run(F, rep, COMPILE, opaque={TOKENIZE, 'compile::parser::Parser::parse_program'}); n = 0
    for s, r in outs:
        t = [e for e in s.events if e.kind == 'call' and e.name == TOKENIZE]; p = [e for e in s.events if e.kind == 'call' and e.name == 'compile::parser::Parser::parse_program']
        if len(t) != 1 or len(p) != 1: raise Limit('the lexer and the parser are not called once')
        n += 1; V = f'{F.fns[COMPILE].span} {COMPILE}'
        src = s.val(t[0].args[0])
        rep.ob(src is mk('sym', 'code'), 'the whole source is split', V, f'the lexer is given {short(src)}', 'flow.text')
        pa = s.val(p[0].args[0])
        rep.ob(any(x is t[0].data[1] for x in subterms(pa)) and not any(x.op in ('pop', 'slice', 'removed', 'inserted', 'rev', 'truncate', 'filtered') for x in subterms(pa)), 'all tokens reach the parser', V, f'the parser is given {short(pa)}', 'flow.tokens')
    rep.count('flows', n)
def block(X, L, flags, S):
    """in a script block: the text up to the first closing bracket outside a string becomes one token"""
    rep, W = X.rep, X.W; chs, P = X.cursor(L); c0 = elem(chs, P); B, T = X.strings(L)[0], X.tokens(L)[0]
    assume = [S] + [NOT(f) for f in flags if f is not S] + [lt(P, length(chs))]
    ws = mk('call', 'is_whitespace', c0); n = 0; seen = set()
    for st, v in L.backs:
        x = settled(L, st, v, assume)
        if x is None: continue
        s, v, entered, m = x; X.m = m; n += 1
        if not entered:
            # nothing but blanks before the first character is skipped
            ok = v[B] is B and v[T] is T and v[P] is add(P, ONE) and all(v[f] is f for f in flags) and s.decide(ws) is True and s.decide(eq(length(B), ZERO)) is True
            if not ok and any(r.kind == 'loop' for r in st.events[L.nev:]) and v[T] is not T: raise Limit('script blocks are read in an unrecognised form')
            rep.ob(ok, 'a script block keeps all its characters', W, f'in a script block a character is taken as {short(v[B])} with {X.show(X.flat(s, v[T]))}: {facts_str(s.facts[L.nf:])}', 'block.skip')
            continue
        if len(entered) > 1 and any(X.cursor(R)[0] is not None or X.strings(R) for R in entered[1:] if X.append_loop(R, X.tokens(R)[0] if X.tokens(R) else None) is None): raise Limit('script blocks are read in an unrecognised form')
        R = entered[0]
        q = [p for p in R.phis if p.a[-1] == 'pos' or X.cursor(R)[1] is p]
        cs = [p for p, (pl, i) in R.phis.items() if replace(i, m) is c0]
        Bs = [p for p, (pl, i) in R.phis.items() if replace(i, m) is B or i is STR('')]
        if len(q) != 1 or len(cs) != 1 or len(Bs) != 1: raise Limit('the state of the loop over a script block is kept in an unrecognised form')
        q, c, b = q[0], cs[0], Bs[0]; xs = [p for p in R.phis if p not in (q, c, b)]
        used = lambda x: any(contains(f, x) for e in R.exits + [e for e, _ in R.backs] for f, t in e.facts[R.nf:]) or any(contains(w, x) for e, u in R.backs for y, w in u.items() if y is not x) or any(contains(w, x) for w in v.values())
        xs = [x for x in xs if used(x)]
        if id(R) not in seen:
            seen.add(id(R))
            rep.ob(replace(R.phis[q][1], m) is add(P, ONE), 'a script block keeps all its characters', W, f'reading goes on at {short(R.phis[q][1])}', 'block.next')
            n += block_states(X, rep, W, R, m, S, q, c, b, xs, chs)
        g = X.flat(s, v[T]); why = None
        if g is None: raise Limit(f'tokens are collected in an unrecognised form: {short(v[T])}')
        if not g or g[0] != ('all', T): why = f'earlier tokens become {X.show(g)}'
        else:
            g = g[1:]; names = [X.kinds[fld(y, X.ft).a[1]] if k == 'tok' and X.is_tok(y) and fld(y, X.ft).op == 'adt' else '?' for k, y in g]
            if names != ['Script', 'CloseSquare']: why = f'a block yields {X.show(g)}'
            else:
                t = text(fld(g[0][1], X.fv))
                cut = altered(fld(g[0][1], X.fv)) if t is None else None
                if cut: rep.ob(False, 'a script block keeps all its characters', W, f'the text of a block becomes {short(cut[0])}', 'block.altered'); continue
                if t is None: raise Limit(f'the text of a block is {short(fld(g[0][1], X.fv))}')
                fresh = replace(R.phis[b][1], m) is not B
                empty = all(length(v2[B]) is ZERO for b2, v2 in L.backs if v2[S] is not S and b2.decide(v2[S]) is not False)      # a block starts with no word pending
                if t != ([mk('part', B)] if fresh else []) + [mk('part', b)] and not (fresh and empty and t == [mk('part', b)]): why = f'its text becomes {short(fld(g[0][1], X.fv))}'
        if s.decide(v[S]) is not False: why = why or 'the block is not left'
        if length(v[B]) is not ZERO: why = why or f'the next word starts with {short(v[B])}'
        if v[P] is not q: why = why or f'reading goes on at {short(v[P])}'
        rep.ob(why is None, 'a script block becomes one token', W, f'at the end of a block: {why}', 'block.end')
    if not seen: raise Limit('the loop over a script block cannot be found')
    rep.count('block_cases', n)
def quoted(X, L, flags, S, close, kind):
    """in a string or calculation: the text up to the closing mark becomes one token"""
    rep, W = X.rep, X.W; chs, P = X.cursor(L); c0 = elem(chs, P); B, T = X.strings(L)[0], X.tokens(L)[0]
    assume = [S] + [NOT(f) for f in flags if f is not S] + [lt(P, length(chs))]
    ws = mk('call', 'is_whitespace', c0); n = 0; seen = set(); low = kind.lower(); ended = 0
    empty = all(length(v2[B]) is ZERO for b2, v2 in L.backs if v2[S] is not S and b2.decide(v2[S]) is not False)
    for st, v in L.backs:
        x = settled(L, st, v, assume)
        if x is None: continue
        s, v, entered, m = x; X.m = m; n += 1
        if not entered:
            ok = v[B] is B and v[T] is T and v[P] is add(P, ONE) and all(v[f] is f for f in flags) and s.decide(ws) is True and s.decide(eq(length(B), ZERO)) is True
            if not ok and s.decide(eq(length(B), ZERO)) is not True and empty: continue         # cannot be
            rep.ob(ok, f'a {low} keeps all its characters', W, f'in a {low} a character is taken as {short(v[B])} with {X.show(X.flat(s, v[T]))}: {facts_str(s.facts[L.nf:])}', f'{low}.skip'); continue
        R = entered[0]
        q = [p for p in R.phis if p.a[-1] == 'pos' or X.cursor(R)[1] is p]
        cs = [p for p, (pl, i) in R.phis.items() if replace(i, m) is c0]
        Bs = [p for p, (pl, i) in R.phis.items() if replace(i, m) is B or i is STR('')]
        if len(q) != 1 or len(cs) != 1 or len(Bs) != 1 or len(R.phis) != 3: raise Limit(f'the state of the loop over a {low} is kept in an unrecognised form')
        q, c, b = q[0], cs[0], Bs[0]
        if id(R) not in seen:
            seen.add(id(R)); part = mk('part', b)
            rep.ob(replace(R.phis[q][1], m) is add(P, ONE), f'a {low} keeps all its characters', W, f'reading goes on at {short(R.phis[q][1])}', f'{low}.next')
            for ch in (close, 'other'):
                conds = [S, eq(c, CHAR(ord(close))) if ch == close else NOT(eq(c, CHAR(ord(close))))]; end = ch == close; hit = 0
                for e, u in R.backs:
                    if not possible(e, *conds): continue
                    hit += 1; why = f'the {low} goes on' if end else None
                    t = X.same_text(u[b], [part, c], c, ch if len(ch) == 1 else None, None)
                    if t is None: raise Limit(f'the {low} becomes {short(u[b])}')
                    if not t: why = why or f'the {low} becomes {short(u[b])}'
                    if u[c] is not elem(chs, q) or u[q] is not add(q, ONE): why = why or f'the next character is {short(u[c])}'
                    rep.ob(why is None, f'a {low} ends at its closing mark', W, f'{ch!r}: {why}', f'{low}.{ch}'); n += 1
                for e in R.exits:
                    if not possible(e, *conds): continue
                    hit += 1; rep.ob(end, f'a {low} ends at its closing mark', W, f'{ch!r}: the {low} ends', f'{low}.{ch}'); n += 1
                if not hit: raise Limit(f'no path handles {ch!r} in a {low}')
        g = X.flat(s, v[T]); why = None
        if g is None: raise Limit(f'tokens are collected in an unrecognised form: {short(v[T])}')
        kinds = lambda l: [X.kinds[fld(y, X.ft).a[1]] if k == 'tok' and X.is_tok(y) and fld(y, X.ft).op == 'adt' else '?' for k, y in l]
        if any(f.op == 'eq' and t and f.a[0].op == 'discr' and contains(f, T) and f.a[1].op == 'int' and X.kinds[f.a[1].a[0]] not in X.made for f, t in s.facts[L.nf:]): continue
        if not g or g[0] != ('all', T): why = f'earlier tokens become {X.show(g)}'
        elif kinds(g[1:2]) != [kind]: why = f'a {low} yields {X.show(g)}'
        else:
            t = text(fld(g[1][1], X.fv)); fresh = replace(R.phis[b][1], m) is not B
            cut = altered(fld(g[1][1], X.fv))
            if t is None and cut: rep.ob(False, f'a {low} keeps all its characters', W, f'the text of a {low} becomes {short(cut[0])}', f'{low}.altered'); ended += 1; continue
            if t is None: raise Limit(f'the text of a {low} is {short(fld(g[1][1], X.fv))}')
            if t != ([mk('part', B)] if fresh else []) + [mk('part', b)] and not (fresh and empty and t == [mk('part', b)]): why = f'its text becomes {short(fld(g[1][1], X.fv))}'
        tail = kinds(g[2:])
        if kind == 'Calculation':
            if tail != ['CloseCurly']: why = why or f'behind it stands {X.show(g[2:])}'
            if v[P] is not q: why = why or f'reading goes on at {short(v[P])}'
            if length(v[B]) is not ZERO: why = why or f'the next word starts with {short(v[B])}'
            if any(s.decide(v[f]) is not False for f in flags): why = why or 'it is not left'
        else:
            d = elem(chs, q); dw = mk('call', 'is_whitespace', d)
            if v[P] is q:        # the next character is left for the next iteration
                if tail or length(v[B]) is not ZERO or any(s.decide(v[f]) is not False for f in flags): why = why or f'behind it stands {X.show(g[2:])} with {short(v[B])}'
            else:
                for ch in list(PUNCT6) + list(PAIRS6) + ['space', 'other']:
                    cc = [dw] if ch == 'space' else [NOT(dw)]
                    cc += [NOT(eq(d, CHAR(ord(x)))) for x in ''.join(PUNCT6) + '='] if len(ch) > 2 else [eq(d, CHAR(ord(ch[0])))]
                    if ch in PAIRS6: cc += [lt(add(q, ONE), length(chs)), eq(elem(chs, add(q, ONE)), CHAR(61)) if ch[1] == '=' else NOT(eq(elem(chs, add(q, ONE)), CHAR(61)))]
                    if not possible(s, *cc): continue
                    mark = PUNCT6.get(ch) or PAIRS6.get(ch); y = None
                    if tail != ([mark] if mark else []): y = f'{ch!r} behind it yields {X.show(g[2:])}'
                    if v[P] is not add(q, INT(2) if ch == '==' else ONE): y = y or f'reading goes on at {short(v[P])}'
                    tt = text(v[B])
                    if tt is None: raise Limit(f'the next word starts with {short(v[B])}')
                    if tt != ([d] if ch == 'other' else []): y = y or f'the next word starts with {short(v[B])}'
                    on = [f for f in flags if s.decide(v[f]) is not False]
                    if len(on) != (1 if ch in '[{"' else 0): y = y or f'{ch!r} behind it leads into {[short(f) for f in on]}'
                    rep.ob(y is None, f'a {low} becomes one token', W, f'{y}', f'{low}.after.{ch}'); n += 1
        ended += 1
        rep.ob(why is None, f'a {low} becomes one token', W, f'at the end of a {low}: {why}', f'{low}.end')
    if not seen or not ended: raise Limit(f'the loop over a {low} cannot be found')
    rep.count('quoted_cases', n)
CHECKS['B06'] = b06
INFO['B06'] = 'the loop over the characters of a burn source as a transducer: for every class of the character and every keyword what one iteration does to the word so far and the tokens, outside of strings and blocks; and the loop that collects the text of a script block, per character and string state.'

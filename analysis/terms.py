"""Hash-consed value terms of the dataflow engine, with the simplifications it relies on."""
class T:
    __slots__ = ('op', 'a', 'n')
    def __repr__(self): return pp(self)
_tab = {}
def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.n = len(_tab)
        _tab[k] = t
    return t
def INT(n): return mk('int', int(n))
def BOOL(b): return mk('bool', 1 if b else 0)
def STR(s): return mk('str', s)
def CHAR(c): return mk('char', c)
TRUE, FALSE, UNIT = BOOL(1), BOOL(0), mk('tup')
ZERO, ONE = INT(0), INT(1)
OPTION, RESULT, CF = 'std::option::Option', 'std::result::Result', 'std::ops::ControlFlow'
ORDERING = 'std::cmp::Ordering'
VNAMES = {OPTION: ['None', 'Some'], RESULT: ['Ok', 'Err'], CF: ['Continue', 'Break'], ORDERING: ['Less', 'Equal', 'Greater']}
DISCR = {ORDERING: [-1, 0, 1]}     # variant index -> discriminant, filled from the facts for local enums
FIELDS = {}                        # (def, variant) -> field names
def ADT(d, v, *fs): return mk('adt', d, v, *fs)
NONE = ADT(OPTION, 0)
def SOME(x): return ADT(OPTION, 1, x)
def OK(x): return ADT(RESULT, 0, x)
def ERR(x): return ADT(RESULT, 1, x)
CONST = {'int', 'bool', 'char', 'str', 'bytes', 'float'}
def isconst(t):
    if t.op in CONST: return True
    if t.op in ('adt',): return all(isconst(x) for x in t.a[2:])
    if t.op in ('tup', 'vec'): return all(isconst(x) for x in t.a)
    return False

# --- integers: affine normal form --------------------------------------------------------
def lin_parts(t):
    if t.op == 'int': return t.a[0], ()
    if t.op == 'lin': return t.a[0], t.a[1]
    return 0, ((t, 1),)
def lin(c, parts):
    parts = tuple(sorted(((x, k) for x, k in parts if k), key=lambda p: p[0].n))
    if not parts: return INT(c)
    if c == 0 and len(parts) == 1 and parts[0][1] == 1: return parts[0][0]
    return mk('lin', c, parts)
def add(a, b, s=1):
    ca, pa = lin_parts(a); cb, pb = lin_parts(b)
    d = dict(pa)
    for x, k in pb: d[x] = d.get(x, 0) + s * k
    return lin(ca + s * cb, d.items())
def sub(a, b): return add(a, b, -1)
def mul(a, b):
    if b.op == 'int': a, b = b, a
    if a.op == 'int':
        c, p = lin_parts(b); k = a.a[0]
        return lin(c * k, ((x, n * k) for x, n in p))
    if a.n > b.n: a, b = b, a
    return mk('mul', a, b)

# --- booleans ---------------------------------------------------------------------------
def NOT(t):
    if t.op == 'bool': return BOOL(not t.a[0])
    if t.op == 'not': return t.a[0]
    return mk('not', t)
def AND(a, b):
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE or b is FALSE: return FALSE
    if a is b: return a
    return mk('and', a, b)
def OR(a, b): return NOT(AND(NOT(a), NOT(b)))
def discr_of(d, v):
    l = DISCR.get(d)
    return l[v] if l else v
def eq(a, b):
    if a is b: return TRUE
    if a.op in CONST and b.op in CONST:
        if a.op == b.op: return FALSE
        if {a.op, b.op} == {'str', 'bytes'}:
            s, y = (a, b) if a.op == 'str' else (b, a)
            return BOOL(tuple(s.a[0].encode()) == y.a[0])
    if a.op in ('lin', 'int') or b.op in ('lin', 'int'):
        d = sub(a, b)
        if d.op == 'int': return BOOL(d.a[0] == 0)
        c, p = lin_parts(d)
        if len(p) == 1 and abs(p[0][1]) == 1:
            return mk('eq', p[0][0], INT(-c * p[0][1]))
    if a.op == 'bool' or b.op == 'bool':
        x, y = (a, b) if b.op == 'bool' else (b, a)
        return x if y.a[0] else NOT(x)
    if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]: return FALSE
        r = TRUE
        for x, y in zip(a.a[2:], b.a[2:]): r = AND(r, eq(x, y))
        return r
    if a.op == 'tup' and b.op == 'tup' and len(a.a) == len(b.a):
        r = TRUE
        for x, y in zip(a.a, b.a): r = AND(r, eq(x, y))
        return r
    if a.op == 'vec' and b.op == 'vec':
        if len(a.a) != len(b.a): return FALSE
        r = TRUE
        for x, y in zip(a.a, b.a): r = AND(r, eq(x, y))
        return r
    if b.op == 'adt' or a.op == 'adt':
        u, k = (a, b) if b.op == 'adt' else (b, a)
        if len(k.a) > 2 or k.a[0] in DISCR or k.a[0] in VNAMES:
            r = eq(discr(u), INT(discr_of(k.a[0], k.a[1]))) if k.a[0] in DISCR or k.a[0] in VNAMES else TRUE
            for i, y in enumerate(k.a[2:]): r = AND(r, eq(fld(dc(u, k.a[1]), i), y))
            return r
    if isconst(a) or (not isconst(b) and a.n > b.n): a, b = b, a
    if b.op == 'str' and b.a[0] == '': return eq(length(a), ZERO)
    if a.op == 'tostr' and b.op == 'str': return eq(a.a[0], INT(int(b.a[0]))) if b.a[0].isdigit() and str(int(b.a[0])) == b.a[0] else FALSE
    return mk('eq', a, b)
_uns = [False]
def lt(a, b, unsigned=False):
    _uns[0] = unsigned
    try: return _lt0(a, b)
    finally: _uns[0] = False
def _lt0(a, b):
    if a is b: return FALSE
    if a.op == 'float' and b.op == 'float': return BOOL(float(a.a[0]) < float(b.a[0]))
    if a.op in CONST and b.op in CONST and a.op == b.op: return BOOL(a.a[0] < b.a[0])
    d = sub(b, a) if (a.op in ('lin', 'int') or b.op in ('lin', 'int')) else None
    if d is not None:
        if d.op == 'int': return BOOL(d.a[0] > 0)
        c, p = lin_parts(d)
        pos = tuple((x, k) for x, k in p if k > 0); neg = tuple((x, -k) for x, k in p if k < 0)
        # sum(pos) + c > sum(neg): keep the constant on the side where it is positive
        return _lt(lin(-c if c < 0 else 0, neg), lin(c if c > 0 else 0, pos))
    return _lt(a, b)
def _lt(a, b):
    if a is b: return FALSE
    if a.op == 'int' and b.op == 'int': return BOOL(a.a[0] < b.a[0])
    if b.op == 'int' and nonneg(a):
        if b.a[0] <= 0: return FALSE
        if b.a[0] == 1: return eq(a, ZERO)
    if a.op == 'int' and a.a[0] < 0 and nonneg(b): return TRUE
    if a.op == 'int' and a.a[0] == 0 and nonneg(b): return NOT(eq(b, ZERO))
    return mk('lt', a, b)
def nonneg(t):
    if t.op == 'int': return t.a[0] >= 0
    if t.op == 'lin' : return t.a[0] >= 0 and all(k > 0 and nonneg(x) for x, k in t.a[1])
    if _uns[0]: return True
    return t.op in ('len', 'byte', 'iv', 'satsub') or (t.op == 'phi' and t.a[-1] == 'pos')

# --- structure --------------------------------------------------------------------------
def discr(v):
    if v.op == 'adt': return INT(discr_of(v.a[0], v.a[1]))
    if v.op == 'upd': return discr(v.a[0])
    return mk('discr', v)
def dc(v, k):
    if v.op == 'adt': return v
    if v.op == 'upd': return mk('dc', v, k)
    return mk('dc', v, k)
def fld(v, i):
    if v.op == 'adt':
        return v.a[2 + i] if 2 + i < len(v.a) else mk('badfld', v, i)
    if v.op in ('tup', 'clo'):
        o = 0 if v.op == 'tup' else 1
        return v.a[o + i]
    if v.op == 'upd':
        for k, x in v.a[1]:
            if k == (None, i): return x
        return fld(v.a[0], i)
    if v.op == 'dc' and v.a[0].op == 'upd':
        for k, x in v.a[0].a[1]:
            if k == (v.a[1], i): return x
        return fld(dc(v.a[0].a[0], v.a[1]), i)
    return mk('fld', v, i)
def setfld(v, i, x, variant=None):
    if v.op == 'adt': return mk('adt', *v.a[:2 + i], x, *v.a[3 + i:])
    if v.op == 'tup': return mk('tup', *v.a[:i], x, *v.a[i + 1:])
    if v.op == 'clo': return mk('clo', *v.a[:1 + i], x, *v.a[2 + i:])
    base, ov = (v.a[0], dict(v.a[1])) if v.op == 'upd' else (v, {})
    old = fld(base if variant is None else dc(base, variant), i)
    if x is old: ov.pop((variant, i), None)
    else: ov[(variant, i)] = x
    if not ov: return base
    return mk('upd', base, tuple(sorted(ov.items(), key=lambda e: (str(e[0][0]), e[0][1]))))

# --- sequences --------------------------------------------------------------------------
def length(v):
    if v.op == 'str': return INT(len(v.a[0].encode()))
    if v.op == 'bytes': return INT(len(v.a[0]))
    if v.op in ('vec',): return INT(len(v.a))
    if v.op == 'push': return add(length(v.a[0]), ONE)
    if v.op == 'set': return length(v.a[0])
    if v.op == 'cat': return add(length(v.a[0]), length(v.a[1]))
    if v.op == 'chstr': return mk('len', v)
    if v.op == 'repeat' and v.a[1] is not None: return v.a[1]
    if v.op == 'slice':
        lo, hi = v.a[1], v.a[2]
        return sub(hi if hi is not None else length(v.a[0]), lo)
    if v.op == 'resize': return v.a[1]
    if v.op == 'splice' and v.a[2].op != 'adt': return add(sub(length(v.a[0]), sub(v.a[2], v.a[1])), length(v.a[3]))
    if v.op == 'setslice': return length(v.a[0])
    if v.op == 'written': return length(v.a[0])
    if v.op == 'seqmap': return v.a[0]
    if v.op == 'be': return INT(v.a[1])
    if v.op == 'map1': return length(v.a[0])
    return mk('len', v)
def elem(v, i):
    if v.op == 'vec' and i.op == 'int' and 0 <= i.a[0] < len(v.a): return v.a[i.a[0]]
    if v.op == 'bytes' and i.op == 'int' and 0 <= i.a[0] < len(v.a[0]): return INT(v.a[0][i.a[0]])
    if v.op == 'str' and i.op == 'int' and 0 <= i.a[0] < len(v.a[0].encode()): return INT(v.a[0].encode()[i.a[0]])
    if v.op == 'push':
        d = sub(i, length(v.a[0]))
        if d is ZERO: return v.a[1]
        if d.op == 'int' and d.a[0] < 0: return elem(v.a[0], i)
        if length(v.a[0]).op == 'int' and i.op == 'int': return elem(v.a[0], i)
    if v.op == 'set':
        if v.a[1] is i: return v.a[2]
        if sub(v.a[1], i).op == 'int': return elem(v.a[0], i)
    if v.op == 'slice':
        return elem(v.a[0], add(v.a[1], i))
    if v.op == 'repeat': return v.a[0]
    if v.op == 'seqmap': return replace(v.a[2], {v.a[1]: i})
    return mk('elem', v, i)
def slice_(v, lo, hi):
    if lo is ZERO and hi is None: return v
    if v.op == 'slice':
        return slice_(v.a[0], add(v.a[1], lo), add(v.a[1], hi) if hi is not None else v.a[2])
    if lo.op == 'int' and (hi is None or hi.op == 'int'):
        h = hi.a[0] if hi is not None else None
        if v.op == 'bytes' and 0 <= lo.a[0] <= (h if h is not None else len(v.a[0])) <= len(v.a[0]): return mk('bytes', v.a[0][lo.a[0]:h])
        if v.op == 'vec' and 0 <= lo.a[0] <= (h if h is not None else len(v.a)) <= len(v.a): return mk('vec', *v.a[lo.a[0]:h])
    return mk('slice', v, lo, hi)
def setelem(v, i, x):
    if x is elem(v, i): return v
    if v.op == 'vec' and i.op == 'int' and 0 <= i.a[0] < len(v.a): return mk('vec', *v.a[:i.a[0]], x, *v.a[i.a[0] + 1:])
    if v.op == 'set' and v.a[1] is i: return setelem(v.a[0], i, x)
    if v.op == 'push' and sub(i, length(v.a[0])) is ZERO: return mk('push', v.a[0], x)
    return mk('set', v, i, x)
def push(v, x):
    if v.op == 'vec': return mk('vec', *v.a, x)
    if v.op == 'pop' and x.op == 'elem' and x.a[0] is v.a[0] and x.a[1] is sub(length(v.a[0]), ONE): return v.a[0]      # what was taken off is put back
    return mk('push', v, x)
def cat(a, b):
    if b.op == 'vec':
        for x in b.a: a = push(a, x)
        return a
    if b.op == 'bytes' and a.op in ('vec', 'push', 'phi', 'fld', 'cat', 'set', 'deref'):
        for x in b.a[0]: a = push(a, INT(x))
        return a
    if b.op == 'push': return push(cat(a, b.a[0]), b.a[1])
    if a.op == 'vec' and not a.a: return b
    return mk('cat', a, b)
def mget(m, k):
    if m.op == 'mset':
        if m.a[1] is k: return m.a[2]
        if isconst(m.a[1]) and isconst(k): return mget(m.a[0], k)
    if m.op == 'msetent':
        pass
    return mk('mget', m, k)
def mset(m, k, x):
    if x is mk('mget', m, k): return m
    if m.op == 'mset' and m.a[1] is k: return mset(m.a[0], k, x)
    return mk('mset', m, k, x)

# --- utilities --------------------------------------------------------------------------
def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple): st.extend(x); continue
        if not isinstance(x, T) or x in seen: continue
        seen.add(x); yield x
        st.extend(x.a)
def contains(t, sub_):
    return any(x is sub_ for x in subterms(t))
def replace(t, m, memo=None):
    """Substitute terms by m (dict), rebuilding with simplification where it matters."""
    memo = {} if memo is None else memo
    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, T): return x
        if x in m: return m[x]
        if x in memo: return memo[x]
        if not x.a or x.op in CONST: memo[x] = x; return x
        na = tuple(go(y) for y in x.a)
        r = x if na == x.a else rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)
def rebuild(op, a):
    if op == 'lin':
        r = INT(a[0])
        for x, k in a[1]: r = add(r, mul(INT(k), x))
        return r
    f = {'fld': fld, 'elem': elem, 'len': length, 'eq': eq, 'lt': lt, 'not': NOT, 'and': AND, 'discr': discr,
         'dc': dc, 'slice': slice_, 'push': push, 'cat': cat, 'set': setelem, 'mget': mget, 'mset': mset}.get(op)
    return f(*a) if f else mk(op, *a)
def pp(t, d=7):
    if not isinstance(t, T):
        if isinstance(t, tuple): return '(' + ', '.join(pp(x, d) for x in t) + ')'
        return str(t)
    if d == 0: return '…'
    op, a = t.op, t.a
    P = lambda x: pp(x, d - 1)
    if op == 'int': return str(a[0])
    if op == 'bool': return 'true' if a[0] else 'false'
    if op == 'str': return repr(a[0])
    if op == 'char': return repr(chr(a[0]))
    if op == 'sym': return str(a[0])
    if op == 'lin':
        s = ' + '.join((P(x) if k == 1 else f'{k}*{P(x)}') for x, k in a[1])
        return f'({s} + {a[0]})' if a[0] else f'({s})'
    if op == 'adt':
        n = VNAMES.get(a[0]); nm = n[a[1]] if n else a[0].split('::')[-1]
        fn = FIELDS.get((a[0], a[1]))
        fs = ', '.join((f'{fn[i]}: ' if fn and i < len(fn) and not fn[i].isdigit() else '') + P(x) for i, x in enumerate(a[2:]))
        return nm + (f'({fs})' if fs else '')
    if op == 'tup': return '(' + ', '.join(map(P, a)) + ')'
    if op == 'vec': return '[' + ', '.join(map(P, a[:6])) + (f', … {len(a)} elements' if len(a) > 6 else '') + ']'
    if op == 'fld': return f'{P(a[0])}.{a[1]}'
    if op == 'dc': return f'{P(a[0])} as v{a[1]}'
    if op == 'elem': return f'{P(a[0])}[{P(a[1])}]'
    if op == 'slice': return f'{P(a[0])}[{P(a[1])}..{P(a[2]) if a[2] is not None else ""}]'
    if op == 'eq': return f'{P(a[0])} == {P(a[1])}'
    if op == 'lt': return f'{P(a[0])} < {P(a[1])}'
    if op == 'not': return f'!({P(a[0])})'
    if op == 'and': return f'({P(a[0])} && {P(a[1])})'
    if op == 'len': return f'len({P(a[0])})'
    if op == 'ref': return '&' + ppplace((a[0], a[1]))
    if op == 'call': return f'{a[0].split("::")[-1]}({", ".join(map(P, a[1:]))})'
    if op == 'phi': return f'φ{a[0]}:{a[1]}'
    return f'{op}({", ".join(P(x) for x in a)})'
def ppplace(p):
    r, pr = p
    s = f'_{r[2]}' if isinstance(r, tuple) and r[0] == 'L' else (pp(r[1], 4) if isinstance(r, tuple) else '*' + pp(r, 4))
    for e in pr:
        s += f'.{e[1]}' if e[0] == 'f' else f'[{pp(e[1], 4)}]' if e[0] in 'ek' else f'.{e[0]}' if len(e) == 1 else f'<{e[0]}{pp(e[1],3)}>'
    return s

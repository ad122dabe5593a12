"""Path-partitioned dataflow over MIR.

For a function of /repo the engine propagates abstract values (terms.py) along the control-flow graph.
States are partitioned by the branch decisions taken since the function entry; calls to functions of the
crate are analysed in place; every loop is analysed from an arbitrary iteration (all places the body can
change are widened to an unknown), so results hold for any number of iterations.  Nothing is executed and
no solver is involved: a branch is cut only when its condition folds syntactically to a constant or
contradicts a branch already taken on the same value.
"""
import re, sys
from terms import *
sys.setrecursionlimit(20000)

class Limit(Exception): pass
FRAMES = {}   # frame number -> function
TYB = {}      # value range of a term implied by its type

def norm(p):
    """'std::vec::Vec::<T, A>::push' -> 'std::vec::Vec::push'; '<impl [T]>' segments are dropped."""
    if p.startswith('<'): return _normlead(p)
    out = ''; i = 0
    while i < len(p):
        if p.startswith('::<', i):
            d = 0; j = i + 2
            while True:
                if p[j] == '<': d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0: break
                j += 1
            i = j + 1
        else:
            out += p[i]; i += 1
    return out
def _normlead(p):
    return re.sub(r"<'[a-z_]+>|'[a-z_]+ ", '', p)

class Fn:
    def __init__(self, d, F):
        self.path = norm(d['path']); self.d = d; self.F = F
        self.nargs = d['args']; self.locals = d['locals']; self.blocks = d['blocks']
        self.span = d['span']
        self.derived = d.get('derived', False)
        self._loops = None
        self.names = {}
        for n, pl in d['names']:
            if len(pl) == 1: self.names.setdefault(pl[0], n)
    def succs(self, b):
        t = self.blocks[b]['t']; k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[2]] + [t[3]]
        if k == 'drop': return [t[2]]
        if k == 'call': return [] if t[4] is None else [t[4]]
        if k == 'assert': return [t[4]]
        return []
    @property
    def doomed(self):
        """blocks from which there is no way but a panic"""
        if not hasattr(self, '_doomed'):
            n = len(self.blocks); alive = {i for i in range(n) if self.blocks[i] is not None and (self.blocks[i]['t'][0] == 'return' or self.blocks[i]['t'][0] == 'call' and self.blocks[i]['t'][4] is None and 'process::' in str(self.blocks[i]['t'][1]))}
            while True:
                m = {i for i in range(n) if i not in alive and self.blocks[i] is not None and any(t in alive for t in self.succs(i))}
                if not m: break
                alive |= m
            self._doomed = set(range(n)) - alive
        return self._doomed
    @property
    def loops(self):
        if self._loops is None:
            n = len(self.blocks); order = []; seen = set(); st = [(0, iter(self.succs(0)))]; seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen and self.blocks[s] is not None:
                        seen.add(s); st.append((s, iter(self.succs(s)))); break
                else:
                    order.append(b); st.pop()
            rpo = order[::-1]; idx = {b: i for i, b in enumerate(rpo)}
            preds = {b: [] for b in rpo}
            for b in rpo:
                for s in self.succs(b):
                    if s in idx: preds[s].append(b)
            idom = {rpo[0]: rpo[0]}; ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    ps = [p for p in preds[b] if p in idom]
                    x = ps[0]
                    for p in ps[1:]:
                        y = p
                        while x != y:
                            while idx[x] > idx[y]: x = idom[x]
                            while idx[y] > idx[x]: y = idom[y]
                    if idom.get(b) != x: idom[b] = x; ch = True
            def dom(a, b):
                while True:
                    if a == b: return True
                    if b == rpo[0]: return False
                    b = idom[b]
            loops = {}
            for b in rpo:
                for s in self.succs(b):
                    if s in idx and dom(s, b):
                        body = loops.setdefault(s, {s}); w = [b]
                        while w:
                            x = w.pop()
                            if x in body: continue
                            body.add(x); w.extend(preds[x])
            self._loops = loops; self.rpo = rpo
        return self._loops

# --- unsigned bit operations in arithmetic form --------------------------------------------
def div_(st, x, c):
    if x.op == 'int': return INT(x.a[0] // c)
    if c == 1: return x
    k, parts = lin_parts(x)
    q = [(t, n // c) for t, n in parts if n % c == 0]; r = lin(k % c, [(t, n) for t, n in parts if n % c])
    if q or k >= c:
        lo, hi = st.bnd(r)
        if lo is not None and hi is not None and lo >= 0 and hi < c and all(n > 0 for _, n in q): return lin(k // c, q)
    lo, hi = st.bnd(x)
    if lo is not None and lo >= 0 and hi is not None and hi < c: return ZERO
    if x.op == 'div' and x.a[1].op == 'int': return div_(st, x.a[0], c * x.a[1].a[0])
    return mk('div', x, INT(c))
def rem_(st, x, c):
    if x.op == 'int': return INT(x.a[0] % c)
    k, parts = lin_parts(x)
    lo, hi = st.bnd(x)
    if lo is not None and lo >= 0 and hi is not None and hi < c: return x
    if any(n % c == 0 for _, n in parts) or k >= c:
        lo, _ = st.bnd(x)
        if lo is not None and lo >= 0: return rem_(st, lin(k % c, [(t, n) for t, n in parts if n % c]), c)
    if x.op == 'rem' and x.a[1].op == 'int' and x.a[1].a[0] % c == 0: return rem_(st, x.a[0], c)
    return mk('rem', x, INT(c))
def pmask(st, t):
    """bits that may be set in an unsigned value (None: unknown)"""
    if t.op == 'int': return t.a[0] if t.a[0] >= 0 else None
    if t.op == 'lin':
        m = t.a[0]
        if m < 0: return _rng(st, t)
        for x, k in t.a[1]:
            if k <= 0 or k & (k - 1): return _rng(st, t)
            b = pmask(st, x)
            if b is None or m & (b * k): return _rng(st, t)
            m |= b * k
        return m
    if t.op == 'bitand':
        for x in t.a:
            if x.op == 'int': return x.a[0] & (pmask(st, t.a[0]) if pmask(st, t.a[0]) is not None else -1)
    return _rng(st, t)
def _rng(st, t):
    lo, hi = st.bnd(t)
    if lo is None or lo < 0 or hi is None: return None
    return (1 << hi.bit_length()) - 1
def bitop(st, o, a, b, w):
    if o in ('Shl', 'Shr') and b.op == 'int' and 0 <= b.a[0] < w:
        if o == 'Shr': return div_(st, a, 1 << b.a[0])
        lo, hi = st.bnd(a)
        if hi is not None and hi << b.a[0] < 1 << w: return mul(INT(1 << b.a[0]), a)
        return mul(INT(1 << b.a[0]), rem_(st, a, 1 << (w - b.a[0]))) if w < 64 or hi is None else None
    if o == 'BitAnd' and b.op == 'int':
        m = pmask(st, a); k = b.a[0]
        if m is not None: k &= m
        if k == 0: return ZERO
        if m is not None and k == m: return a
        if k & (k + 1) == 0: return rem_(st, a, k + 1)
        return mk('bitand', a, INT(k))
    if o in ('BitOr', 'BitXor'):
        x, y = pmask(st, a), pmask(st, b)
        if x is not None and y is not None and not x & y: return add(a, b)
    return None

class Facts:
    def __init__(self, d):
        self.d = d; self.types = d['types']
        self.fns = {}
        for f in d['fns']: self.fns[norm(f['path'])] = Fn(f, self)
        self.adts = {norm(a['path']): a for a in d['adts']}
        self.consts = {c['path']: c for c in d['consts']}
        for p, a in self.adts.items():
            if a['enum'] and a['local']:
                DISCR[p] = [v['discr'] for v in a['variants']]
                VNAMES[p] = [v['name'] for v in a['variants']]
            for i, v in enumerate(a['variants']): FIELDS[(p, i)] = [f[0] for f in v['fields']]
    def ty(self, i): return self.types[i]
    def tstr(self, i): return self.types[i]['s']
    def field(self, adt, name, variant=0):
        fs = self.adts[adt]['variants'][variant]['fields']
        for i, f in enumerate(fs):
            if f[0] == name: return i
        raise KeyError(f'{adt}.{name}')
    def has_field(self, adt, name):
        a = self.adts.get(adt)
        return a is not None and any(f[0] == name for f in a['variants'][0]['fields'])

class Ev:
    """An observable event on a path."""
    __slots__ = ('kind', 'name', 'args', 'span', 'fn', 'nf', 'data')
    def __init__(self, kind, name, args, span, fn, nf, data=None):
        self.kind, self.name, self.args, self.span, self.fn, self.nf, self.data = kind, name, args, span, fn, nf, data
    def __repr__(self): return f'{self.kind}:{self.name}({", ".join(pp(a, 5) if isinstance(a, T) else ppplace(a) if isinstance(a, tuple) and len(a) == 2 else str(a) for a in self.args)})@{self.span}'

class State:
    __slots__ = ('mem', 'known', 'excl', 'bounds', 'facts', 'events')
    def __init__(self):
        self.mem, self.known, self.excl, self.bounds, self.facts, self.events = {}, {}, {}, {}, [], []
    def fork(self):
        s = State.__new__(State)
        s.mem, s.known, s.excl, s.bounds = self.mem.copy(), self.known.copy(), self.excl.copy(), self.bounds.copy()
        s.facts, s.events = self.facts[:], self.events[:]
        return s
    # -- facts ---------------------------------------------------------------------------
    def value(self, t):
        k = self.known.get(t)
        return k if k is not None else t
    def bnd(self, t):
        if t.op == 'int': return t.a[0], t.a[0]
        if t.op == 'lin' and len(t.a[1]) == 1 and t.a[1][0][1] > 0:
            x, k = t.a[1][0]; lo, hi = self.bnd(x)
            return (lo * k + t.a[0] if lo is not None else None), (hi * k + t.a[0] if hi is not None else None)
        if t.op == 'lin':
            lo, hi = t.a[0], t.a[0]
            for x, k in t.a[1]:
                a, b = self.bnd(x)
                if k < 0: a, b = b, a
                lo = None if lo is None or a is None else lo + k * a
                hi = None if hi is None or b is None else hi + k * b
            return lo, hi
        k = self.known.get(t)
        if k is not None and k.op == 'int': return k.a[0], k.a[0]
        b = self.bounds.get(t)
        lo, hi = b if b else (None, None)
        if t in TYB:
            l2, h2 = TYB[t]
            lo = l2 if lo is None else max(lo, l2); hi = h2 if hi is None else min(hi, h2)
        if t.op == 'len' and t.a[0].op == 'elem' and t.a[0].a[0].op in ('chunks', 'chunks_exact', 'windows') and t.a[0].a[0].a[1].op == 'int':
            n = t.a[0].a[0].a[1].a[0]; l2 = 1 if t.a[0].a[0].op == 'chunks' else n
            lo = l2 if lo is None else max(lo, l2); hi = n if hi is None else min(hi, n)
        if t.op == 'rem' and t.a[1].op == 'int' and t.a[1].a[0] > 0:
            lo = 0 if lo is None else lo; h2 = t.a[1].a[0] - 1; hi = h2 if hi is None else min(hi, h2)
        if t.op == 'div' and t.a[1].op == 'int' and t.a[1].a[0] > 0:
            l2, h2 = self.bnd(t.a[0])
            if l2 is not None and l2 >= 0: lo = max(lo or 0, l2 // t.a[1].a[0])
            if h2 is not None and h2 >= 0: h2 //= t.a[1].a[0]; hi = h2 if hi is None else min(hi, h2)
        if t.op == 'bitand':
            m = [x.a[0] for x in t.a if x.op == 'int']
            if m: lo = lo or 0; hi = m[0] if hi is None else min(hi, m[0])
        if lo is None and nonneg(t): lo = 0
        if t.op == 'byte' : hi = 255 if hi is None else hi
        ex = self.excl.get(t)
        if ex and lo is not None:
            while INT(lo) in ex: lo += 1
        return lo, hi
    def decide(self, t):
        """True / False / None"""
        if t.op == 'bool': return bool(t.a[0])
        k = self.known.get(t)
        if k is not None: return bool(k.a[0])
        if t.op == 'not':
            r = self.decide(t.a[0]); return None if r is None else not r
        if t.op == 'and':
            a, b = self.decide(t.a[0]), self.decide(t.a[1])
            if a is False or b is False: return False
            if a and b: return True
            return None
        if t.op == 'eq':
            a, b = t.a
            ka, kb = self.known.get(a), self.known.get(b)
            if ka is not None or kb is not None:
                r = eq(ka if ka is not None else a, kb if kb is not None else b)
                if r.op == 'bool': return bool(r.a[0])
                if r is not t and self.known.get(r) is not None: return bool(self.known[r].a[0])
            if b.op in CONST and b in self.excl.get(a, ()): return False
            if b.op == 'int':
                lo, hi = self.bnd(a)
                if (lo is not None and b.a[0] < lo) or (hi is not None and b.a[0] > hi): return False
                if lo is not None and lo == hi == b.a[0]: return True
            if b.op not in CONST:
                if self.known.get(mk('lt', a, b)) is TRUE or self.known.get(mk('lt', b, a)) is TRUE: return False
        if t.op == 'lt':
            a, b = t.a
            (la, ha), (lb, hb) = self.bnd(a), self.bnd(b)
            if ha is not None and lb is not None and ha < lb: return True
            if la is not None and hb is not None and la >= hb: return False
            if self.known.get(mk('lt', b, a)) is TRUE: return False
            if self.known.get(mk('eq', a, b)) is TRUE or self.known.get(mk('eq', b, a)) is TRUE: return False
            c = self.known.get(lt(b, add(a, INT(1))))          # over the integers: not a < b  is  b < a + 1
            if c is TRUE: return False
            if c is FALSE: return True
            ka, kb = self.known.get(a), self.known.get(b)
            if ka is not None or kb is not None:
                r = lt(ka if ka is not None else a, kb if kb is not None else b)
                if r.op == 'bool': return bool(r.a[0])
        return None
    def assume(self, t, truth=True, log=True):
        """Add a branch decision; False if it contradicts what is known."""
        if t.op == 'not': return self.assume(t.a[0], not truth, log)
        if t.op == 'bool': return bool(t.a[0]) == truth
        d = self.decide(t)
        if d is not None:
            if d == truth and t.op in ('eq', 'lt') and t not in self.known: self.known[t] = BOOL(truth)
            return d == truth
        if t.op == 'and' and truth: return self.assume(t.a[0], True, log) and self.assume(t.a[1], True, log)
        if t.op == 'and':
            if self.decide(t.a[0]) is True: return self.assume(t.a[1], False, log)
            if self.decide(t.a[1]) is True: return self.assume(t.a[0], False, log)
        if log: self.facts.append((t, truth))
        self.known[t] = BOOL(truth)
        if t.op == 'eq':
            a, b = t.a
            if b.op in CONST:
                if truth: self.known[a] = b
                else: self.excl[a] = self.excl.get(a, frozenset()) | {b}
        if t.op == 'lt':
            a, b = t.a if truth else (t.a[1], t.a[0])     # a < b  or  a <= b
            s = 1 if truth else 0
            ca, pa = lin_parts(a); cb, pb = lin_parts(b)
            if len(pa) == 1 and pa[0][1] == 1:
                _, hb = self.bnd(b)
                if hb is not None:
                    lo, hi = self.bounds.get(pa[0][0], (None, None)); n = hb - s - ca
                    self.bounds[pa[0][0]] = (lo, n if hi is None else min(hi, n))
            if len(pb) == 1 and pb[0][1] == 1:
                la, _ = self.bnd(a)
                if la is not None:
                    lo, hi = self.bounds.get(pb[0][0], (None, None)); n = la + s - cb
                    self.bounds[pb[0][0]] = (n if lo is None else max(lo, n), hi)
        return True
    # -- memory --------------------------------------------------------------------------
    def root(self, r):
        v = self.mem.get(r)
        if v is not None: return v
        if isinstance(r, T): return mk('deref', r)
        if r[0] == 'V': return r[1]
        return mk('uninit', f'{r[1]}', r[2])
    def read(self, p):
        v = self.root(p[0])
        i = 0; pr = p[1]
        while i < len(pr):
            v = project(v, pr[i]); i += 1
        return v
    def write(self, p, x):
        self.mem[p[0]] = self._w(self.root(p[0]), p[1], 0, x, None)
    def _w(self, v, pr, i, x, variant):
        if i == len(pr): return x
        e = pr[i]
        if e[0] == 'f': return setfld(v, e[1], self._w(fld(dc(v, variant) if variant is not None and v.op != 'adt' else v, e[1]), pr, i + 1, x, None), variant if v.op != 'adt' else None)
        if e[0] == 'd': return self._w(v, pr, i + 1, x, e[1])
        if e[0] == 'e': return setelem(v, e[1], self._w(elem(v, e[1]), pr, i + 1, x, None))
        if e[0] == 'k': return mset(v, e[1], self._w(mget(v, e[1]), pr, i + 1, x, None))
        if e[0] == 's':
            n = self._w(project(v, e), pr, i + 1, x, None)
            return v if n is project(v, e) else mk('setslice', v, e[1], e[2] if e[2] is not None else NONE, n)
        if e[0] == 'pos': return mk('iter', *v.a[:2], x) if v.op == 'iter' else v
        raise Exception(e)
    def deref(self, r):
        if r.op == 'ref': return (r.a[0], r.a[1])
        return (r, ())
    def rd(self, r): return self.read(self.deref(r))
    def val(self, t, depth=0):
        """Value with all references replaced by what they refer to now."""
        while t.op == 'ref': t = self.read(t.a)
        if depth > 6: return t
        if t.op in ('adt', 'tup', 'vec', 'clo') and any(isinstance(x, T) and x.op in ('ref', 'adt', 'tup', 'vec', 'push', 'clo') for x in t.a):
            return mk(t.op, *[self.val(x, depth + 1) if isinstance(x, T) else x for x in t.a])
        if t.op == 'push': return push(self.val(t.a[0], depth + 1), self.val(t.a[1], depth + 1))
        if t.op in ('fld', 'dc', 'elem') and isinstance(t.a[0], T):
            return t
        return t

def project(v, e):
    k = e[0]
    if k == 'f': return fld(v, e[1])
    if k == 'd': return dc(v, e[1])
    if k == 'e': return elem(v, e[1])
    if k == 'k': return mget(v, e[1])
    if k == 's': return slice_(v, e[1], e[2])
    if k == 'pos': return v.a[2] if v.op == 'iter' else mk('pos', v)
    raise Exception(e)
def ref(p): return mk('ref', p[0], tuple(p[1]))
def refval(v): return mk('ref', ('V', v), ())
def sub_place(p, e):
    if e[0] == 'e' and p[1] and p[1][-1][0] == 's':
        s = p[1][-1]
        return (p[0], p[1][:-1] + (('e', add(s[1], e[1])),))
    if e[0] == 's' and p[1] and p[1][-1][0] == 's':
        s = p[1][-1]
        return (p[0], p[1][:-1] + (('s', add(s[1], e[1]), add(s[1], e[2]) if e[2] is not None else s[2]),))
    return (p[0], p[1] + (e,))

class Frame:
    _n = 0
    def __init__(self, fn, depth, parent):
        Frame._n += 1
        self.uid = Frame._n; FRAMES[self.uid] = fn; self.fn = fn; self.depth = depth; self.parent = parent

class LoopRec:
    """One analysed loop: paths of an arbitrary iteration."""
    def __init__(self, lid, fn, span):
        self.lid, self.fn, self.span = lid, fn, span
        self.phis = {}        # phi term -> (place, initial value)
        self.backs = []       # (state, {phi: value at the end of the iteration})
        self.exits = []       # states leaving the loop
        self.nev = self.nf = 0
    def iterations(self):
        """(facts, events, {phi: new value}) of each complete iteration path."""
        for st, vals in self.backs: yield st.facts[self.nf:], st.events[self.nev:], vals
    def induction(self):
        r = {}
        for ph, (pl, init) in self.phis.items():
            steps = {sub(vals[ph], ph) for _, vals in self.backs}
            if len(steps) == 1:
                s = steps.pop()
                if s.op == 'int' and s.a[0] != 0: r[ph] = (init, s.a[0])
        return r

class Engine:
    def __init__(self, F, opaque=(), inline_only=None, maxdepth=14, maxstates=60000, nomodel=()):
        self.F = F; self.opaque = set(opaque); self.inline_only = inline_only
        self.maxdepth, self.maxstates = maxdepth, maxstates
        self.panics = []; self.stack = []; self.count = 0; self.nsym = 0
        self.analysed = set(); self.unmodelled = {}; self.paths = 0; self.hooks = {}
        self.looprecs = []; self.accs = {}; self.skip_ok = False; self.back = None; self.recok = set(); self.skip_loop = None; self.unroll = False
        import models; self.models = models.MODELS
        self.cur_span = ''
    # -- operands --------------------------------------------------------------------------
    def sym(self, name):
        self.nsym += 1; return mk('sym', name, self.nsym)
    def const(self, c):
        k = c['k']
        if k == 'const': return self.cval(c['v'])
        return self.cval(c)
    def cval(self, v):
        k = v['k']
        if k == 'int': return INT(v['v'])
        if k == 'bool': return BOOL(v['v'])
        if k == 'char': return CHAR(v['v'])
        if k == 'str': return refval(STR(v['v']))
        if k == 'float': return mk('float', v['v'])
        if k == 'bytes': return refval(mk('bytes', tuple(v['v']))) if not v.get('arr') else mk('bytes', tuple(v['v']))
        if k == 'ref':
            x = self.cval(v['v'])
            if v['v']['k'] == 'bytes': return x
            return refval(x)
        if k == 'adt': return ADT(norm(v['def']), v['variant'], *[self.cval(x) for x in v['v']])
        if k == 'tuple': return mk('tup', *[self.cval(x) for x in v['v']])
        if k == 'array': return mk('vec', *[self.cval(x) for x in v['v']])
        if k == 'fn': return self.fnval(v)
        if k == 'staticref':
            return ref((mk('static', v['def']), ()))
        if k == 'zst':
            t = self.F.ty(v['ty'])
            if t['k'] == 'closure': return mk('clo', norm(t['def']))
            return mk('zst', t['s'])
        if k == 'bits': return mk('bits', v['v'])
        return mk('opaque', self.nextsym())
    def nextsym(self): self.nsym += 1; return self.nsym
    def fnval(self, v):
        if v.get('ctor'): return mk('ctor', norm(v['adt']), v['variant'])
        return mk('fn', norm(v['path']), norm(v['res']) if v.get('reslocal') else '')
    def place(self, fr, st, pl):
        """MIR place -> (root, projections)."""
        p = (('L', fr.uid, pl[0]), ())
        ty = self.F.ty(fr.fn.locals[pl[0]])
        i = 1
        while i < len(pl):
            e = pl[i]; k = e[0]
            if k == '*':
                if ty['k'] == 'ptr' or ty['k'] == 'ref':
                    v = st.read(p)
                    p = st.deref(v)
                    ty = self.F.ty(ty['to'])
                elif ty['k'] == 'adt' and ty['def'] == 'std::boxed::Box':
                    ty = self.F.ty(ty['args'][0])
                else: p = sub_place(p, ('f', 0))
            elif k == 'f':
                if ty['k'] == 'adt' and ty['def'] in TRANSPARENT:
                    if ty['def'] in ('std::ptr::NonNull', 'std::ptr::Unique', 'std::boxed::Box') :
                        inner = ty['def']
                        # pointer inside a Box: represent as a reference to the boxed value
                        if i == len(pl) - 1 or inner == 'std::boxed::Box': pass
                else: p = sub_place(p, ('f', e[1]))
                ty = self.F.ty(e[2])
            elif k == 'i':
                ix = st.read((('L', fr.uid, e[1]), ()))
                p = sub_place(p, ('e', ix)); ty = self.F.ty(ty['to'])
            elif k == 'c':
                n = length(st.read(p))
                ix = sub(n, INT(e[1])) if e[3] else INT(e[1])
                p = sub_place(p, ('e', ix)); ty = self.F.ty(ty['to'])
            elif k == 's':
                n = length(st.read(p))
                p = sub_place(p, ('s', INT(e[1]), sub(n, INT(e[2])) if e[3] else INT(e[2])))
            elif k == 'd': p = (p[0], p[1] + (('d', e[1]),))
            else: raise Limit('place ' + str(e))
            i += 1
        return p, ty
    def rdplace(self, fr, st, pl):
        p, ty = self.place(fr, st, pl)
        v = st.read(p)
        if ty['k'] == 'adt' and ty['def'] in ('std::ptr::NonNull', 'std::ptr::Unique') and v.op != 'ref': v = ref(p)
        if v.op in ('fld', 'elem', 'deref', 'mget') and ty['k'] == 'uint' and ty['s'] == 'u8' and v.op != 'byte': pass
        return v
    def operand(self, fr, st, o):
        k = o[0]
        if k in ('copy', 'move'): return self.rdplace(fr, st, o[1])
        if k == 'const':
            c = o[1]
            if c['k'] == 'const' and c['v']['k'] == 'bytes' and self.F.ty(c['ty'])['k'] == 'array': return mk('bytes', tuple(c['v']['v']))
            return self.const(c)
        return TRUE
    def opty(self, fr, o):
        if o[0] == 'const':
            return self.F.ty(o[1]['ty']) if 'ty' in o[1] else {'k': 'fn', 's': ''}
        pl = o[1]; ty = self.F.ty(fr.fn.locals[pl[0]])
        for e in pl[1:]:
            if e[0] == 'f': ty = self.F.ty(e[2])
            elif e[0] in '*i' or e[0] == 'c':
                if 'to' in ty: ty = self.F.ty(ty['to'])
                elif ty['k'] == 'adt' and ty.get('args'): ty = self.F.ty(ty['args'][0])
        return ty
    def rvalue(self, fr, st, r, span):
        k = r[0]
        if k == 'use': return self.operand(fr, st, r[1])
        if k in ('ref', 'rawptr'):
            p, _ = self.place(fr, st, r[2] if k == 'ref' else r[1])
            return ref(p)
        if k == 'cast':
            v = self.operand(fr, st, r[2])
            if r[1] == 'IntToInt': return self.cast(v, self.opty(fr, r[2]), self.F.ty(r[3]), st)
            if r[1].startswith(('PointerCoercion', 'PtrToPtr', 'Transmute', 'Subtype', 'BoxDeref')): return v
            if v.op == 'int' and r[1] == 'IntToFloat': return mk('float', repr(float(v.a[0])))
            return mk('cast', self.F.tstr(r[3]), v)
        if k == 'bin': return self.binop(st, r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]), self.opty(fr, r[2]))
        if k == 'un':
            v = self.operand(fr, st, r[2])
            if r[1] == 'Not': return NOT(v) if self.opty(fr, r[2])['k'] == 'bool' else mk('bitnot', v)
            if r[1] == 'Neg': return sub(ZERO, v) if self.opty(fr, r[2])['k'] == 'int' else mk('neg', v)
            if r[1] == 'PtrMetadata': return length(st.rd(v))
            return mk('un', r[1], v)
        if k == 'discr':
            return discr(self.rdplace(fr, st, r[1]))
        if k == 'agg':
            kd = r[1]; ops = [self.operand(fr, st, o) for o in r[2]]
            if kd['k'] == 'adt':
                d = norm(kd['def'])
                if d in TRANSPARENT and len(ops) == 1: return ops[0]
                if d in RANGES: return mk('adt', d, 0, *ops)
                return ADT(d, kd['variant'], *ops)
            if kd['k'] == 'tuple': return mk('tup', *ops)
            if kd['k'] == 'array': return mk('vec', *ops)
            if kd['k'] == 'closure': return mk('clo', norm(kd['def']), *ops)
        if k == 'repeat': return mk('repeat', self.operand(fr, st, r[1]), INT(r[2]) if r[2] is not None else None)
        raise Limit('rvalue ' + str(r)[:80])
    WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'bool': 1, 'char': 21, 'i128': 128}
    def cast(self, v, frm, to, st):
        a, b = self.WIDTH.get(frm['s']), self.WIDTH.get(to['s'])
        if frm['k'] == 'adt': a = 64
        self.tyb(v, frm)
        if v.op == 'bool': return INT(v.a[0])
        if v.op == 'char': return INT(v.a[0]) if to['s'] != 'u8' else INT(v.a[0] & 255)
        if to['k'] == 'char' and v.op == 'int': return CHAR(v.a[0])
        if v.op == 'int':
            n = v.a[0] & ((1 << b) - 1)
            if to['s'].startswith('i') and n >> (b - 1): n -= 1 << b
            return INT(n)
        if a is not None and b is not None and (a < b or (a == b and frm['k'] == to['k']) or frm['k'] == 'bool' or frm['s'] == to['s']): return v
        if a == b: return v
        lo, hi = st.bnd(v)
        if lo is not None and hi is not None and lo >= 0 and hi < (1 << b): return v
        if frm['k'] == 'uint' and to['k'] == 'uint': return rem_(st, v, 1 << b)
        return mk('cast', to['s'], v)
    def tyb(self, v, ty):
        if ty['k'] == 'uint' and v.op not in ('int', 'lin'):
            w = self.WIDTH.get(ty['s'], 64)
            if w <= 32 and v not in TYB: TYB[v] = (0, (1 << w) - 1)
    def binop(self, st, op, a, b, ty):
        o = op.replace('WithOverflow', '').replace('Unchecked', '')
        fl = ty['k'] == 'float'
        if not fl: self.tyb(a, ty); self.tyb(b, ty)
        if o == 'Add': r = add(a, b) if not fl else mk('fop', 'Add', a, b)
        elif o == 'Sub': r = sub(a, b) if not fl else mk('fop', 'Sub', a, b)
        elif o == 'Mul': r = mul(a, b) if not fl else mk('fop', 'Mul', a, b)
        elif o in ('Div', 'Rem'):
            if fl: r = mk('fop', o, a, b)
            elif ty['k'] == 'uint' and b.op == 'int' and b.a[0] > 0: r = div_(st, a, b.a[0]) if o == 'Div' else rem_(st, a, b.a[0])
            elif a.op == 'int' and b.op == 'int' and b.a[0]: r = INT(a.a[0] // b.a[0] if o == 'Div' else a.a[0] % b.a[0])
            else: r = mk(o.lower(), a, b)
        elif o == 'Eq': r = eq(a, b)
        elif o == 'Ne': r = NOT(eq(a, b))
        elif o in ('Lt', 'Gt', 'Le', 'Ge'):
            u = ty['k'] in ('uint', 'char')
            r = {'Lt': lambda: lt(a, b, u), 'Gt': lambda: lt(b, a, u), 'Le': lambda: NOT(lt(b, a, u)), 'Ge': lambda: NOT(lt(a, b, u))}[o]()
        elif o == 'BitAnd' and ty['k'] == 'bool': r = AND(a, b)
        elif o == 'BitOr' and ty['k'] == 'bool': r = OR(a, b)
        elif o == 'BitXor' and ty['k'] == 'bool': r = NOT(eq(a, b))
        elif a.op == 'int' and b.op == 'int':
            x, y = a.a[0], b.a[0]; w = self.WIDTH.get(ty['s'], 64)
            r = INT({'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y, 'Shl': (x << (y % w)) & ((1 << w) - 1), 'Shr': x >> (y % w)}.get(o, 0))
        else:
            if o in ('BitAnd', 'BitOr', 'BitXor') and (a.op == 'int' or (b.op != 'int' and a.n > b.n)): a, b = b, a
            r = bitop(st, o, a, b, self.WIDTH.get(ty['s'], 64)) if ty['k'] == 'uint' else None
            if r is None: r = mk(o.lower(), a, b)
        if o in ('Add', 'Mul') and ty['s'] == 'u8' and r.op in ('lin', 'mul'):
            h = st.bnd(r)[1]
            if (h is None or h > 255) and all(x.op in ('elem', 'lin', 'mul', 'int') for x in ([y for y, _ in r.a[1]] if r.op == 'lin' else r.a)): r = mk('ovf', 8, r)
        if op.endswith('WithOverflow'): return mk('tup', r, FALSE)
        return r
    # -- calls -----------------------------------------------------------------------------
    def callee(self, fr, st, f, args):
        """(normalised path, local function path or None, descriptor, callable value)"""
        if f[0] == 'const' and f[1]['k'] == 'fn':
            d = f[1]
            return norm(d['path']), (norm(d['res']) if d.get('reslocal') else None), d, None
        v = self.operand(fr, st, f)
        return None, None, None, v
    def event(self, st, kind, name, args, data=None):
        st.events.append(Ev(kind, name, args, self.cur_span, self.cur_fn, len(st.facts), data))
    def panic(self, st, why):
        st.events.append(Ev('panic', why, (), self.cur_span, self.cur_fn, len(st.facts)))
        self.panics.append(st)
    def do_call(self, fr, st, t):
        f, args_o, dest, target, span, aty = t[1], t[2], t[3], t[4], t[5], t[6]
        args = [self.operand(fr, st, o) for o in args_o]
        path, local, d, v = self.callee(fr, st, f, args)
        self.cur_span, self.cur_fn = span, fr.fn.path
        if v is not None: return self.call_value(fr, st, v, args)
        if d.get('ctor'): return [(st, ADT(norm(d['adt']), d['variant'], *args))]
        return self.call_path(fr, st, path, local, d, args, aty, target is None)
    def call_path(self, fr, st, path, local, d, args, aty, diverges=False):
        h = self.hooks.get(local or path)
        if h:
            r = h(self, fr, st, path, args, d)
            if r is not None: return r
        span, fnp = self.cur_span, self.cur_fn
        if local and local in self.F.fns:
            fn = self.F.fns[local]
            if '{closure' in local and path in ('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once') and len(args) == 2:
                args = [args[0]] + [fld(args[1], i) for i in range(fn.nargs - 1)]      # the arguments of a closure are passed as a tuple
            if fn.derived:
                m = path.split('::')[-1]
                if m == 'clone': return [(st, st.rd(args[0]))]
                if m in ('eq', 'ne'):
                    r = eq(st.val(args[0]), st.val(args[1])); return [(st, r if m == 'eq' else NOT(r))]
                if m == 'fmt': return [(st, OK(UNIT))]
                if path.split('::')[-2] in ('PartialOrd', 'Ord') or m == 'hash': pass
            rec = local in self.stack and not ((local in self.recok or any(isinstance(x, T) and x.op == 'clo' for x in args)) and self.stack.count(local) < 4)
            if not rec and local not in self.opaque and fr.depth < self.maxdepth and (self.inline_only is None or local in self.inline_only):
                self.event(st, 'enter', local, tuple(args))
                outs = self.call_fn(fn, st, args, fr)
                for s, r in outs: s.events.append(Ev('leave', local, (r,), span, fnp, len(s.facts)))
                self.cur_span, self.cur_fn = span, fnp
                return outs
            return self.opaque_call(fr, st, local, args, aty, d, True)
        m = self.models.get(path) or self.models.get(norm(d.get('res', '')) if d.get('res') else None)
        if m is None:
            for pre, mm in self.models.items():
                if pre.endswith('*') and path.startswith(pre[:-1]): m = mm; break
        if m is not None:
            r = m(self, fr, st, args, d, aty)
            self.cur_span, self.cur_fn = span, fnp
            if r is not None: return r
        if diverges:
            self.panic(st, path); return []
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        return self.opaque_call(fr, st, path, args, aty, d, False)
    def opaque_call(self, fr, st, path, args, aty, d, local):
        vals = [st.val(a) for a in args]
        mut = [i for i, t in enumerate(aty) if self.ismut(t) and args[i].op in ('ref',)]
        ts = ''
        if d and not local:
            ts = ','.join(self.F.tstr(x) for x in d.get('targs', []))
        r = mk('call', path, *([STR(ts)] if ts and path.split('::')[-1] in ('parse', 'from', 'into', 'collect', 'try_from', 'try_into', 'default') else []), *vals)
        for i in mut:
            p = (args[i].a[0], args[i].a[1])
            st.write(p, mk('out', r, i))
        self.event(st, 'call', path, tuple(vals), (tuple(args), r))
        return [(st, r)]
    def ismut(self, ti):
        t = self.F.ty(ti)
        return t['k'] in ('ref', 'ptr') and t.get('mut')
    def call_value(self, fr, st, f, args):
        """Call a function value (closure, fn item, constructor) with a list of arguments."""
        while f.op == 'ref': f = st.read(f.a)
        if f.op == 'ctor': return [(st, ADT(f.a[0], f.a[1], *args))]
        if f.op == 'clo':
            fn = self.F.fns.get(f.a[0])
            if fn is None: return [(st, mk('call', f.a[0], *args))]
            et = self.F.ty(fn.locals[1])
            env = refval(f) if et['k'] == 'ref' else f
            return self.call_fn(fn, st, [env] + list(args), fr)
        if f.op == 'fn':
            d = {'path': f.a[0], 'targs': []}
            loc = f.a[1] or None
            aty = []
            if loc and loc in self.F.fns: aty = self.F.fns[loc].locals[1:1 + len(args)]
            return self.call_path(fr, st, f.a[0], loc, d, list(args), aty)
        return [(st, mk('call', 'apply', f, *[st.val(a) for a in args]))]
    def call_fn(self, fn, st, args, parent=None):
        fr = Frame(fn, (parent.depth + 1) if parent else 0, parent)
        self.analysed.add(fn.path)
        for i, a in enumerate(args): st.mem[('L', fr.uid, i + 1)] = a
        self.stack.append(fn.path)
        try:
            outs = self.run_region(fr, st, 0, None, None)
        finally: self.stack.pop()
        res = []
        for o in outs:
            if o[0] == 'ret':
                s = o[1]; r = s.mem.get(('L', fr.uid, 0), UNIT)
                self.escape(s, fr, r)
                res.append((s, r))
        return res
    def escape(self, s, fr, r):
        for k in [k for k in s.mem if isinstance(k, tuple) and k[0] == 'L' and k[1] == fr.uid and k[2] != 0]:
            # values still referenced by the result (promoted temporaries) are kept
            del s.mem[k]
    # -- control flow ----------------------------------------------------------------------
    def run_region(self, fr, st, start, region, header):
        work = [(start, st, True)]; outs = []; fn = fr.fn; loops = fn.loops
        while work:
            bb, st, first = work.pop()
            if bb in loops and not (first and bb == header):
                for o in self.run_loop(fr, st, bb):
                    if o[0] == 'exit':
                        self.goto(o[1], o[2], region, header, work, outs)
                    else: outs.append(o)
                continue
            b = fn.blocks[bb]
            for s in b['s']:
                k = s[0]
                if k == '=':
                    self.cur_span, self.cur_fn = s[3], fn.path
                    v = self.rvalue(fr, st, s[2], s[3])
                    p, _ = self.place(fr, st, s[1])
                    self.store(st, p, v)
                elif k == 'setd':
                    p, ty = self.place(fr, st, s[1])
                    old = st.read(p)
                    if old.op == 'adt' and old.a[1] == s[2]: pass
                    else: st.write(p, mk('setd', old, s[2]))
                elif k == 'live':
                    st.mem.pop(('L', fr.uid, s[1]), None)
            t = b['t']; k = t[0]
            if k == 'goto': self.goto(t[1], st, region, header, work, outs)
            elif k == 'drop': self.goto(t[2], st, region, header, work, outs)
            elif k == 'return': self.paths += 1; outs.append(('ret', st))
            elif k == 'unreachable': pass
            elif k == 'assert':
                self.cur_span, self.cur_fn = t[5], fn.path
                c = self.operand(fr, st, t[1])
                ok = c if t[2] else NOT(c)
                m = t[3]
                if m[0] == 'bounds': ok = lt(self.operand(fr, st, m[2]), self.operand(fr, st, m[1]))
                elif m[0] == 'overflow' and m[1] == 'Sub':
                    x, y = self.operand(fr, st, m[2]), self.operand(fr, st, m[3])
                    if self.opty(fr, m[2])['k'] == 'uint': ok = NOT(lt(x, y, True))
                d = st.decide(ok)
                if d is not True:
                    if d is not False or True:
                        f = st.fork()
                        if f.assume(ok, False): self.panic(f, m[0])
                    if not st.assume(ok, True): continue
                self.goto(t[4], st, region, header, work, outs)
            elif k == 'switch':
                v = self.operand(fr, st, t[1]); v = st.value(v)
                ty = self.F.ty(t[4])
                self.cur_span, self.cur_fn = t[5], fn.path
                signed = ty['k'] == 'int'; w = self.WIDTH.get(ty['s'], 128)
                def cv(n):
                    if ty['k'] == 'bool': return BOOL(n)
                    if ty['k'] == 'char': return CHAR(n)
                    if signed and n >> (w - 1): n -= 1 << w
                    return INT(n)
                cases = [(cv(n), b2) for n, b2 in t[2]]
                if v.op in CONST:
                    for c, b2 in cases:
                        if c is v: self.goto(b2, st, region, header, work, outs); break
                    else: self.goto(t[3], st, region, header, work, outs)
                    continue
                nxt = []
                if ty['k'] == 'bool':
                    d = st.decide(v)
                    for c, b2 in cases:
                        if d is None or d == bool(c.a[0]):
                            s2 = st.fork() if d is None else st
                            if s2.assume(v, bool(c.a[0])): nxt.append((b2, s2))
                    vals = {bool(c.a[0]) for c, _ in cases}
                    for o in (True, False):
                        if o not in vals and (d is None or d == o):
                            s2 = st.fork() if d is None else st
                            if s2.assume(v, o): nxt.append((t[3], s2))
                else:
                    allnot = st.fork()
                    feas = True
                    ob = fn.blocks[t[3]]
                    dead = ob is not None and ob['t'][0] == 'unreachable' and not ob['s']
                    for c, b2 in cases:
                        e = eq(v, c)
                        if st.decide(e) is not False:
                            s2 = st.fork()
                            if s2.assume(e, True): nxt.append((b2, s2))
                        if feas and not allnot.assume(e, False): feas = False
                    if feas and not dead: nxt.append((t[3], allnot))
                    if dead and len(nxt) == 1 and False: pass
                self.count += len(nxt)
                if self.count > self.maxstates: raise Limit(f'more than {self.maxstates} branches in {fn.path}')
                for b2, s2 in reversed(nxt): self.goto(b2, s2, region, header, work, outs)
            elif k == 'call':
                self.skip_ok = bb == header
                outs2 = self.do_call(fr, st, t)
                if t[4] is None: 
                    for s2, _ in outs2: self.panic(s2, 'diverges')
                    continue
                for s2, r in outs2:
                    if r is SKIP:        # filtered element: next iteration
                        self.goto(header if header is not None else bb, s2, region, header, work, outs); continue
                    self.cur_span, self.cur_fn = t[5], fn.path
                    p, _ = self.place(fr, s2, t[3])
                    self.store(s2, p, r)
                    self.goto(t[4], s2, region, header, work, outs)
            else: raise Limit('terminator ' + k)
        return outs
    def store(self, st, p, v):
        r = p[0]
        if not (isinstance(r, tuple) and r[0] == 'L'):
            self.event(st, 'write', 'assign', (p, v))
        st.write(p, v)
    def goto(self, b, st, region, header, work, outs):
        if header is not None and b == header: outs.append(('back', st))
        elif region is not None and b not in region: outs.append(('exit', b, st))
        else: work.append((b, st, False))
    def run_loop(self, fr, st, H):
        body = fr.fn.loops[H]; lid = f'{fr.fn.path.split("::")[-1]}.{H}@{fr.uid}'
        if self.skip_loop is not None and self.skip_loop(fr.fn, body): return self.havoc_loop(fr, st, body, lid)
        if self.unroll:
            r = self.unrolled(fr, st, H, body)
            if r is not None: return r
        def runner(s): 
            return self.run_region(fr, s, H, body, H)
        return self.loop(fr, st, lid, runner, fr.fn.path, fr.fn.blocks[H]['sp'])
    def unrolled(self, fr, st, H, body):
        """A loop over a range of a few constant numbers is run number by number."""
        b = H
        while True:
            t = fr.fn.blocks[b]['t']
            if t[0] == 'goto' and t[1] in body: b = t[1]; continue
            break
        if t[0] != 'call' or t[1][0] != 'const' or t[1][1]['k'] != 'fn' or not norm(t[1][1]['path']).endswith('::next'): return None
        n = None
        for l in {s[2][2][0] for x in body for s in fr.fn.blocks[x]['s'] if s[0] == '=' and s[2][0] == 'ref' and s[2][1] == 'mut' and len(s[2][2]) == 1}:
            v = st.mem.get(('L', fr.uid, l))
            if v is None: continue
            if v.op == 'iter' and v.a[0].a[0] == 'range' and not v.a[1] and v.a[2] is ZERO: lo, hi = v.a[0].a[1], v.a[0].a[2]
            elif v.op == 'adt' and v.a[0] in RANGES: lo, hi = self.models_rangeof(st, v)
            elif v.op == 'iter' and not v.a[1] and v.a[2] is ZERO:
                import models
                lo, hi = ZERO, models.srclen(st, v.a[0])
                if not (isinstance(hi, T) and hi.op == 'int' and hi.a[0] <= 16): continue
            else: continue
            if isinstance(lo, T) and isinstance(hi, T) and lo.op == 'int' and hi.op == 'int': n = max(hi.a[0] - lo.a[0], 0); break
        if n is None or n > 40: return None
        cur = [st.fork()]; out = []
        for _ in range(n + 1):
            nxt = []
            for s in cur:
                for o in self.run_region(fr, s, H, body, H):
                    if o[0] == 'back': nxt.append(o[1])
                    else: out.append(o)
            cur = nxt
            if len(cur) > 400: return None
        return out if not cur else None
    def models_rangeof(self, st, v):
        import models
        return models.rangeof(st, v)
    def havoc_loop(self, fr, st, body, lid):
        """A loop that is of no interest: what it can change is unknown afterwards, and it can end in any of its ways out."""
        fn = fr.fn; ch = set()
        for i, b in enumerate(fn.blocks):
            if b is None: continue
            for s in b['s']:
                if s[0] in ('=', 'setd'):
                    if i in body and not (len(s[1]) > 1 and s[1][1] == ['*']): ch.add(s[1][0])
                    if s[0] == '=' and s[2][0] in ('ref', 'rawptr'):
                        q = s[2][2] if s[2][0] == 'ref' else s[2][1]
                        if s[2][0] == 'rawptr' or s[2][1] != 'shared': ch.add(q[0])
            if i in body and b['t'][0] == 'call': ch.add(b['t'][3][0])
        for k in list(st.mem):
            if isinstance(k, tuple) and k[0] == 'L':
                if k[1] == fr.uid and k[2] in ch: st.mem[k] = self.sym(f'after.{lid}.{k[2]}')
            else: st.mem[k] = self.sym(f'after.{lid}')
        outs = []
        for t in sorted({t for i in body for t in fn.succs(i) if t not in body}): outs.append(('exit', t, st.fork()))
        return outs
    def loop(self, fr, st, lid, runner, fnpath, span):
        M = {}
        for rnd in range(30):
            s0 = st.fork(); rec = LoopRec(lid, fnpath, span)
            keys = sorted(M, key=lambda k: len(k[1]))
            done = []
            for k in keys:
                if any(d[0] == k[0] and k[1][:len(d[1])] == d[1] for d in done): continue
                done.append(k)
                init = s0.read(k)
                kind = 'pos' if k[1] and k[1][-1] == ('pos',) else ''
                ph = mk('phi', lid, pkey(k, fr), kind)
                rec.phis[ph] = (k, init)
                s0.write(k, ph)
            for ph, (k, init) in rec.phis.items():
                if ph.a[-1] == 'pos': pass
            s0.events.append(Ev('loop', lid, (), span, fnpath, len(s0.facts), rec))
            rec.nev = len(s0.events); rec.nf = len(s0.facts)
            base = s0.fork()
            npan = len(self.panics); nrec = len(self.looprecs)
            outs = runner(s0)
            backs = [o[1] for o in outs if o[0] == 'back']
            new = dict(M)
            for b in backs:
                for r, v1 in b.mem.items():
                    if r in base.mem: v0 = base.mem[r]
                    elif isinstance(r, tuple) and r[0] == 'L': continue
                    elif isinstance(r, T) and r.op == 'heap': continue      # allocated in this iteration
                    elif isinstance(r, T): v0 = mk('deref', r)
                    else: v0 = r[1]
                    if v0 is not v1:
                        for k in diff(v0, v1, r, ()): new[k] = 1
            if set(new) == set(M) or all(any(d[0] == k[0] and k[1][:len(d[1])] == d[1] for d in done) for k in new):
                break
            M = new
            del self.panics[npan:]; del self.looprecs[nrec:]
        else: raise Limit('loop does not stabilise: ' + lid)
        for b in backs: rec.backs.append((b, {ph: b.read(k) for ph, (k, _) in rec.phis.items()}))
        rec.exits = [o[-1] for o in outs if o[0] != 'back' and not (type(o[1]) is int and o[1] in fr.fn.doomed)]
        rec.base = base
        self.looprecs.append(rec)
        for ph, (pl, init) in rec.phis.items():
            if init.op == 'vec' and not init.a and rec.backs:
                vs = [(b, v[ph]) for b, v in rec.backs]
                if all(v is ph or (v.op == 'push' and v.a[0] is ph) for _, v in vs):
                    posn = [q for q in rec.phis if q is not ph]
                    self.accs[ph] = [(ph, b.facts[rec.nf:], v.a[1], posn) for b, v in vs if v is not ph]
        self.seqmaps(rec)
        return [o for o in outs if o[0] != 'back']
    def seqmaps(self, rec):
        """A vector that receives exactly g(i) in iteration i = 0,1,..,N-1 is, after the loop, the sequence of these values."""
        if not rec.backs or not rec.exits: return
        b, vals = rec.backs[0]; ind = rec.induction()
        same = {length(ph): length(init) for ph, (pl, init) in rec.phis.items() if all(v[ph].op == 'set' and v[ph].a[0] is ph for _, v in rec.backs)}     # only elements are replaced
        for p, (i0, step) in ind.items():
            if i0 is not ZERO or step != 1: continue
            ns, full = set(), []       # the exits on which the index has run out
            for s in rec.exits:
                n = [f.a[1] for f, t in s.facts[rec.nf:] if not t and f.op == 'lt' and f.a[0] is p]
                if n: ns.add(n[0]); full.append(s)
            if len(ns) != 1: continue
            n = ns.pop()
            if same: n = replace(n, same)
            if any(contains(n, q) for q in rec.phis): continue
            lock = {q: add(iq, mul(p, INT(sq))) for q, (iq, sq) in ind.items() if q is not p and not any(contains(iq, x) for x in rec.phis)}
            for ph, (pl, init) in rec.phis.items() if len(rec.backs) == 1 else ():
                v = vals[ph]
                if v.op == 'set' and v.a[0] is ph and v.a[1] is p and length(init) is n and not contains(init, p):      # every element is replaced in place
                    g = replace(v.a[2], {elem(ph, p): elem(init, p)})
                    if any(contains(g, q) for q in rec.phis if q is not p): continue
                    for s in full:
                        if s.read(pl) is ph: s.write(pl, mk('seqmap', n, p, g))
                    continue
                if v.op == 'set' and v.a[0] is ph and not contains(replace(v.a[2], lock), ph):      # consecutive elements are written
                    at, g = replace(v.a[1], lock), replace(v.a[2], lock); base = sub(at, p)
                    if any(contains(base, q) for q in rec.phis) or any(contains(g, q) for q in rec.phis if q is not p): continue
                    sm = mk('seqmap', n, p, g)
                    if g.op == 'elem' and not contains(g.a[0], p):
                        o = sub(g.a[1], p)
                        if o is ZERO and length(g.a[0]) is n: sm = g.a[0]
                        elif not contains(o, p) and (o.op != 'int' or o.a[0] >= 0): sm = slice_(g.a[0], o, add(o, n))
                    for s in full:
                        if s.read(pl) is ph: s.write(pl, mk('splice', init, base, add(base, n), sm))
                    continue
                if v.op != 'push' or v.a[0] is not ph or init.op != 'vec': continue
                g = replace(v.a[1], lock) if lock else v.a[1]
                if any(contains(g, q) for q in rec.phis if q is not p): continue
                sm = mk('seqmap', n, p, g)
                if g.op == 'elem' and not contains(g.a[0], p):
                    o = sub(g.a[1], p)
                    if not contains(o, p):
                        if o is ZERO and length(g.a[0]) is n: sm = g.a[0]
                        elif o.op != 'int' or o.a[0] >= 0: sm = slice_(g.a[0], o, add(o, n))
                for s in full:
                    if s.read(pl) is ph: s.write(pl, cat(init, sm) if init.a else sm)
            for q, t in lock.items():      # counters that move together with the index
                pl = rec.phis[q][0]
                for s in full:
                    if s.read(pl) is q: s.write(pl, replace(t, {p: n}))
            break
        # `while v.len() < n { v.push(..) }`: the length of the vector is the index
        if len(rec.backs) != 1: return
        for ph, (pl, init) in rec.phis.items():
            v = vals[ph]
            if v.op != 'push' or v.a[0] is not ph or init.op != 'vec': continue
            ln = length(ph); ns, full = set(), []
            for s in rec.exits:
                n = [f.a[1] for f, t in s.facts[rec.nf:] if not t and f.op == 'lt' and f.a[0] is ln]
                if n: ns.add(n[0]); full.append(s)
            if len(ns) != 1: continue
            n = ns.pop(); k0 = INT(len(init.a))
            if any(contains(n, q) for q in rec.phis): continue
            p = mk('phi', rec.lid, 'len', 'idx')
            sub_ = {ln: add(p, k0)}
            sub_.update({q: add(iq, mul(p, INT(sq))) for q, (iq, sq) in ind.items() if not any(contains(iq, x) for x in rec.phis)})
            g = replace(v.a[1], sub_)
            if any(contains(g, q) for q in rec.phis): continue
            cnt = sub(n, k0)
            sm = mk('seqmap', cnt, p, g)
            if g.op == 'elem' and not contains(g.a[0], p):
                o = sub(g.a[1], p)
                if not contains(o, p):
                    if o is ZERO and length(g.a[0]) is cnt: sm = g.a[0]
                    elif o.op != 'int' or o.a[0] >= 0: sm = slice_(g.a[0], o, add(o, cnt))
            for s in full:
                if s.read(pl) is ph: s.write(pl, cat(init, sm) if init.a else sm)
                for q, t in sub_.items():
                    if q in rec.phis and s.read(rec.phis[q][0]) is q: s.write(rec.phis[q][0], replace(t, {p: cnt}))
            return

SKIP = mk('SKIP')
def pkey(k, fr):
    r, pr = k
    s = f'L{r[1]}_{r[2]}' if isinstance(r, tuple) and r[0] == 'L' else pp(r, 5) if isinstance(r, T) else pp(r[1], 5)
    for e in pr: s += '.' + (str(e[1]) if e[0] in 'fd' else e[0] + (pp(e[1], 4) if len(e) > 1 else ''))
    return s
def diff(a, b, r, pr):
    if a is b: return []
    if a.op == 'adt' and b.op == 'adt' and a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
        return [k for i in range(len(a.a) - 2) for k in diff(a.a[2 + i], b.a[2 + i], r, pr + (('f', i),))]
    if a.op == 'tup' and b.op == 'tup' and len(a.a) == len(b.a):
        return [k for i in range(len(a.a)) for k in diff(a.a[i], b.a[i], r, pr + (('f', i),))]
    if a.op == 'iter' and b.op == 'iter' and a.a[:2] == b.a[:2]: return [(r, pr + (('pos',),))]
    if a.op == 'upd' or b.op == 'upd':
        ba, bb = (a.a[0] if a.op == 'upd' else a), (b.a[0] if b.op == 'upd' else b)
        if ba is bb:
            ka = dict(a.a[1]) if a.op == 'upd' else {}; kb = dict(b.a[1]) if b.op == 'upd' else {}
            res = []
            for (v, i) in set(ka) | set(kb):
                x = ka.get((v, i)); y = kb.get((v, i)); base = dc(ba, v) if v is not None else ba
                x = x if x is not None else fld(base, i); y = y if y is not None else fld(base, i)
                res += diff(x, y, r, pr + ((('d', v),) if v is not None else ()) + (('f', i),))
            return res
    return [(r, pr)]
TRANSPARENT = {'std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull', 'std::mem::MaybeUninit', 'std::mem::ManuallyDrop', 'std::mem::MaybeDangling', 'core::mem::MaybeDangling', 'std::mem::maybe_dangling::MaybeDangling', 'std::num::Wrapping', 'std::cmp::Reverse'}
RANGES = {'std::ops::Range', 'std::ops::RangeFrom', 'std::ops::RangeTo', 'std::ops::RangeFull', 'std::ops::RangeInclusive', 'std::ops::RangeToInclusive'}

def load(path):
    import json
    return Facts(json.load(open(path)))
def entry(E, fn_path, names=None, setup=None):
    """Analyse a function with symbolic arguments; returns the list of (state, return value)."""
    fn = E.F.fns[fn_path]; st = State(); args = []
    for i in range(fn.nargs):
        nm = fn.names.get(i + 1, f'arg{i + 1}')
        ty = E.F.ty(fn.locals[i + 1])
        if ty['k'] == 'ref':
            root = mk('sym', nm + '.ptr'); st.mem[root] = mk('sym', nm)
            if ty['mut'] is False or True:
                # a reference to a slice or string: the same object
                args.append(ref((root, ())))
        else: args.append(mk('sym', nm))
    if setup: setup(st, args)
    return E.call_fn(fn, st, args)

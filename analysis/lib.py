"""Helpers shared by the checks: MIR queries, call graph, path utilities."""
from engine import *
import terms

# --- MIR queries ----------------------------------------------------------------------------
class Call:
    __slots__ = ('fn', 'bb', 'path', 'local', 'd', 'args', 'dest', 'target', 'span', 'aty')
    def targs(self, F): return [F.tstr(x) for x in self.d.get('targs', [])]
    def atys(self, F): return [F.tstr(x) for x in self.aty]
def calls_of(F, fn):
    r = []
    for i, b in enumerate(fn.blocks):
        if b is None or b['t'][0] != 'call': continue
        t = b['t']
        if t[1][0] == 'const' and t[1][1]['k'] == 'fn':
            c = Call(); d = t[1][1]
            c.fn, c.bb, c.path, c.d, c.args, c.dest, c.target, c.span, c.aty = fn, i, norm(d['path']), d, t[2], t[3], t[4], t[5], t[6]
            c.local = norm(d['res']) if d.get('reslocal') else None
            r.append(c)
    return r
def all_calls(F):
    for fn in F.fns.values():
        if fn.derived: continue
        yield from calls_of(F, fn)
def fnrefs(F, fn):
    """Local functions and closures a function mentions (called, or passed as a value)."""
    out = set()
    def scan(x):
        if isinstance(x, list):
            for y in x: scan(y)
        elif isinstance(x, dict):
            if x.get('k') == 'fn' and x.get('reslocal'): out.add(norm(x['res']))
            elif x.get('k') == 'closure' and 'def' in x: out.add(norm(x['def']))
            else:
                for y in x.values(): scan(y)
    for b in fn.blocks:
        if b is not None: scan(b['s']); scan(b['t'])
    for ti in fn.locals:
        t = F.ty(ti)
        if t['k'] == 'closure': out.add(norm(t['def']))
    return {o for o in out if o in F.fns and o != fn.path}
def callgraph(F):
    if not hasattr(F, '_cg'): F._cg = {p: fnrefs(F, f) for p, f in F.fns.items()}
    return F._cg
def callers(F):
    if not hasattr(F, '_callers'):
        r = {p: set() for p in F.fns}
        for p, s in callgraph(F).items():
            for q in s: r[q].add(p)
        F._callers = r
    return F._callers
def reach(F, roots, stop=()):
    g = callgraph(F); seen = set(); w = list(roots)
    while w:
        p = w.pop()
        if p in seen or p in stop: continue
        seen.add(p); w.extend(g.get(p, ()))
    return seen
def owner(F, p):
    """The named function a closure belongs to."""
    while '::{closure' in p: p = p[:p.rindex('::{closure')]
    return p
def reaching(F, targets):
    """Functions from which one of targets is reachable (including the targets)."""
    c = callers(F); seen = set(); w = list(targets)
    while w:
        p = w.pop()
        if p in seen: continue
        seen.add(p); w.extend(c.get(p, ()))
    return seen
def non_test(F): return [f for f in F.fns.values() if not f.derived]

# --- analysis runs ---------------------------------------------------------------------------
def irrelevant_loops(F, rel, prefixes):
    """predicate for loops in which nothing of interest can happen: no call to the given functions, nor to one that reaches them; no way to change a caller's variables"""
    cache = {}
    def mutarg(fn):
        return any(F.ty(t)['k'] == 'ref' and F.tstr(t).startswith('&mut') for t in fn.locals[1:fn.nargs + 1])
    def skip(fn, body):
        k = (fn.path, min(body))
        if k in cache: return cache[k]
        ok = '{closure' not in fn.path and not mutarg(fn)
        def scan(x):
            if isinstance(x, list): return all([scan(y) for y in x])
            if isinstance(x, dict):
                if x.get('k') == 'fn':
                    if x.get('reslocal') and norm(x['res']) in rel: return False
                    if 'path' in x and norm(x['path']).startswith(prefixes) and not norm(x['path']).startswith(('std::io::_print', 'std::io::_eprint')): return False
                elif x.get('k') == 'closure' and 'def' in x and norm(x['def']) in rel: return False
                return all([scan(y) for y in x.values()])
            return True
        if ok:
            for i in body:
                b = fn.blocks[i]
                if b['t'][0] == 'call' and not (b['t'][1][0] == 'const' and b['t'][1][1]['k'] == 'fn'): ok = False
                if not scan(b['s']) or not scan(b['t']): ok = False
        cache[k] = ok; return ok
    return skip
def run(F, rep, path, opaque=(), setup=None, maxstates=300000, hooks=None, count=True, skip=None, unroll=False):
    if path not in F.fns:
        raise Limit(f'the function {path} this property is anchored in is gone')
    E = Engine(F, opaque=opaque, maxstates=maxstates)
    if hooks: E.hooks.update(hooks)
    E.skip_loop = skip; E.unroll = unroll
    outs = entry(E, path, setup=setup)
    if count: rep.engine(E, outs)
    return E, outs
def short(t, n=160):
    s = pp(t) if isinstance(t, T) else ppplace(t) if isinstance(t, tuple) and len(t) == 2 else str(t)
    return s if len(s) <= n else s[:n] + '…'
def facts_str(facts, n=6): return ', '.join(('' if t else 'not ') + short(x, 90) for x, t in facts[-n:])

# --- places ----------------------------------------------------------------------------------
def root_name(pl):
    r = pl[0]
    if isinstance(r, T):
        if r.op == 'sym': return r.a[0][:-4] if r.a[0].endswith('.ptr') else r.a[0]
        return pp(r, 3)
    return None
def shape(pl):
    """Projection with indices dropped: ('f0', 'e', 'f1')."""
    out = []
    for e in pl[1]:
        if e[0] == 'f': out.append(f'f{e[1]}')
        elif e[0] in ('e', 'k', 's'): out.append(e[0])
        elif e[0] == 'd': out.append(f'd{e[1]}')
        elif e[0] == 'pos': out.append('pos')
    return tuple(out)
def prefix(a, b): return a[0] == b[0] and b[1][:len(a[1])] == a[1]

# --- format strings --------------------------------------------------------------------------
def fmt_parts(t):
    """['literal', term, ...] of a format!() value."""
    tpl = t.a[0]; args = list(t.a[1].a) if t.a[1].op == 'vec' else []
    if tpl.op == 'str': return [tpl.a[0]]
    if tpl.op != 'bytes': return None
    b = tpl.a[0]; i = 0; out = []; n = 0
    while i < len(b):
        c = b[i]; i += 1
        if c == 0: break
        if c < 0x80: out.append(bytes(b[i:i + c]).decode('utf-8', 'replace')); i += c
        elif c == 0x80:
            l = b[i] | b[i + 1] << 8; i += 2; out.append(bytes(b[i:i + l]).decode('utf-8', 'replace')); i += l
        else:
            if c & 1: i += 4
            if c & 2: i += 2
            if c & 4: i += 2
            if c & 8: n = b[i] | b[i + 1] << 8; i += 2
            a = args[n] if n < len(args) else None
            out.append(a.a[0] if a is not None and a.op == 'arg' else a); n += 1
    return out

# --- loops -----------------------------------------------------------------------------------
def all_states(outs, E=None):
    """Final states of complete paths, including iteration-end states of every loop."""
    for s, _ in outs: yield s
    if E is not None:
        for L in E.looprecs:
            for s, _ in L.backs: yield s
def exhaustion(L):
    """(index phi, source term) when the loop walks an index 0,1,2.. up to the length of a fixed sequence; else None."""
    ind = L.induction()
    for ph, (init, step) in ind.items():
        if init is not ZERO or step != 1: continue
        for s in L.exits:
            for f, t in s.facts[L.nf:]:
                if not t and f.op == 'lt' and f.a[0] is ph: return ph, f.a[1]
                if not t and f is eq(ph, ZERO): return ph, ONE          # index < 1
    return None
def exits_only_exhausted(L, ph):
    """every way out of the loop is the index having reached the end"""
    ends = [{f for f, t in s.facts[L.nf:] if not t and (f.op == 'lt' and f.a[0] is ph or f is eq(ph, ZERO))} for s in L.exits]
    return bool(ends) and bool(set.intersection(*ends))

# --- effects: how a value was built up from an older one ---------------------------------------
class Eff:
    """One elementary change: kind in put / push / append / set / replace at an access path."""
    __slots__ = ('path', 'kind', 'val', 'st', 'loop', 'base')
    def __init__(self, path, kind, val, st, loop, base): self.path, self.kind, self.val, self.st, self.loop, self.base = path, kind, val, st, loop, base
    def __repr__(self): return f'{self.kind} {" ".join(e[0] + (str(e[1]) if not isinstance(e[1], T) else "<" + short(e[1], 60) + ">") for e in self.path)} = {short(self.val, 200)}' + (f' in {self.loop.lid}' if self.loop else '')
_BUILD = ('upd', 'push', 'set', 'mset', 'cat', 'pop', 'mdel', 'setd', 'sadd')
def loop_of(st, ph):
    for e in reversed(st.events):
        if e.kind == 'loop' and ph in e.data.phis: return e.data
    return None
def phi_path(t):
    """(phi, accessor chain) when t is a projection of a loop-carried unknown"""
    ch = []
    while t.op == 'fld' or t.op == 'dc': ch.append((t.op, t.a[1])); t = t.a[0]
    return (t, ch[::-1]) if t.op == 'phi' else (None, None)
def access(t, ch):
    for op, i in ch: t = fld(t, i) if op == 'fld' else dc(t, i)
    return t
def derived(st, v, cur, n=0):
    while True:
        if v is cur: return True
        if v.op in _BUILD: v = v.a[0]; continue
        ph, ch = phi_path(v)
        if ph is not None and n < 8:
            L = loop_of(st, ph)
            if L is not None: v = access(L.phis[ph][1], ch); n += 1; continue
        return False
def effects(st, old, new):
    """Elementary changes from old to new (old None: from its initial construction), through every loop that contributes."""
    out = []; seen = set()
    def go(st, old, new, path, loop):
        if new is old: return
        op = new.op
        if op == 'mset':
            go(st, old, new.a[0], path, loop); cur = mget(new.a[0], new.a[1]); p = path + (('k', new.a[1]),)
            if derived(st, new.a[2], cur): go(st, cur, new.a[2], p, loop)
            else: out.append(Eff(p, 'put', new.a[2], st, loop, new.a[0]))
        elif op == 'upd':
            b = new.a[0]; go(st, old, b, path, loop)
            for (v, i), x in new.a[1]:
                p = path + (('f', i),); cur = fld(dc(b, v) if v is not None else b, i)
                if derived(st, x, cur): go(st, cur, x, p, loop)
                else: out.append(Eff(p, 'set', x, st, loop, b))
        elif op == 'push':
            go(st, old, new.a[0], path, loop); out.append(Eff(path, 'push', new.a[1], st, loop, new.a[0]))
        elif op in ('set', ):
            go(st, old, new.a[0], path, loop); cur = elem(new.a[0], new.a[1]); p = path + (('e', new.a[1]),)
            if derived(st, new.a[2], cur): go(st, cur, new.a[2], p, loop)
            else: out.append(Eff(p, 'put', new.a[2], st, loop, new.a[0]))
        elif op == 'cat':
            go(st, old, new.a[0], path, loop); x = new.a[1]; L = loop_of(st, x) if x.op == 'phi' else None
            if L is not None and L.phis[x][1].op == 'vec' and not L.phis[x][1].a and (x, path) not in seen: go(st, L.phis[x][1], x, path, loop)      # a list collected on the side
            elif x.op == 'vec':
                for y in x.a: out.append(Eff(path, 'push', y, st, loop, new.a[0]))
            else: out.append(Eff(path, 'append', x, st, loop, new.a[0]))
        elif op == 'sadd':
            go(st, old, new.a[0], path, loop); out.append(Eff(path, 'add', new.a[1], st, loop, new.a[0]))
        elif op == 'adt' and len(new.a) > 2:
            fs = new.a[2:]
            for i, x in enumerate(fs):
                p = path + (('f', i),)
                if old is None: go(st, None, x, p, loop)
                else:
                    cur = fld(old, i) if not (old.op == 'adt' and old.a[1] != new.a[1]) else None
                    if cur is not None and derived(st, x, cur): go(st, cur, x, p, loop)
                    elif x is not cur: out.append(Eff(p, 'set', x, st, loop, old))
        else:
            ph, ch = phi_path(new)
            L = loop_of(st, ph) if ph is not None else None
            if L is not None and not (old is not None and phi_path(old)[0] is ph):
                go(st, old, access(L.phis[ph][1], ch), path, loop)
                k = (id(L), ph, tuple(ch), path)
                if k in seen: return
                seen.add(k)
                for b, vals in L.backs: go(b, new, access(vals[ph], ch), path, L)
            elif old is None and (op in ('map0',) or (op == 'vec' and not new.a) or (op == 'str' and not new.a[0]) or isconst(new)): return
            else: out.append(Eff(path, 'replace', new, st, loop, old))
    go(st, old, new, (), None)
    return out
def possible(st, *conds):
    """can all conditions hold on this path, as far as the known facts decide?"""
    s = st.fork()
    for c in conds:
        if not s.assume(c): return False
    for f, t in st.facts:
        if f.op in ('and', 'or', 'not') or f.op == 'eq':
            s.known.pop(f, None); d = s.decide(f); s.known[f] = BOOL(t)
            if d is not None and d != t: return False
    return True
def place_type(F, pl):
    """type of a local variable (or a part of it); None when unknown"""
    import engine
    base, path = pl
    if base[0] != 'L' or base[1] not in engine.FRAMES: return None
    fn = engine.FRAMES[base[1]]
    if not isinstance(base[2], int) or base[2] >= len(fn.locals): return None
    t = F.types[fn.locals[base[2]]]
    for e in path:
        while t.get('k') == 'ref' and 'to' in t: t = F.types[t['to']]
        if e[0] == 'f' and t.get('k') == 'adt' and norm(t['def']) in F.adts:
            f = F.adts[norm(t['def'])]['variants'][0]['fields']
            if e[1] >= len(f): return None
            t = F.types[f[e[1]][1]]
        else: return None
    return t

# --- termination ---------------------------------------------------------------------------------
def grows(st, v, ph, n=0):
    """is v >= ph + 1 on this path (through inner loops that only move forward)?"""
    return _adv(st, v, ph, n) is not None and _adv(st, v, ph, n) >= 1
def _adv(st, v, ph, n=0):
    """lower bound of v - ph, or None"""
    d = sub(v, ph)
    if d.op == 'int': return d.a[0]
    lo = st.bnd(d)[0]
    if lo is not None and lo >= 0: return lo
    if n > 6: return None
    for x in subterms_(v):
        if x.op != 'phi' or x is ph: continue
        r = sub(v, x)
        if x in subterms_(r): continue
        lo = st.bnd(r)[0]
        if lo is None: continue
        L = loop_of(st, x)
        if L is None: continue
        a = _adv(st, L.phis[x][1], ph, n + 1)
        if a is None: continue
        b = [_adv(s, vals[x], x, n + 1) for s, vals in L.backs]
        if all(y is not None and y >= 0 for y in b): return a + lo
    return None
def subterms_(t): return set(subterms(t)) if t.op != 'phi' else {t}
def _lin(t):
    """(constant, {term: coefficient})"""
    if t.op == 'int': return t.a[0], {}
    if t.op == 'lin': return t.a[0], dict(t.a[1])
    return 0, {t: 1}
def _measures(L):
    """[(name, {back edge number: 'strict' | 'keeps' | 'wrong'})]"""
    fixed = {p for p in L.phis if all(v[p] is p for _, v in L.backs)}
    vary = [p for p in L.phis if p not in fixed]
    free = lambda t: not any(contains(t, q) for q in vary)
    def bounded(s, vals, ph, up):
        """the path knows a limit for ph (before or after the step) that does not move"""
        for f, t in s.facts[L.nf:]:
            if f.op == 'eq' and not t and not up and ph in f.a and free(f.a[1] if f.a[0] is ph else f.a[0]): return True     # counting down to a number, unsigned
            if f.op != 'lt': continue
            c, m = _lin(sub(f.a[0], f.a[1]) if t else sub(f.a[1], f.a[0]))          # c + m <= 0
            k = m.pop(ph, 0)
            if k == 0 and vals[ph] is not ph:
                d = _lin(vals[ph]); k = m.pop(vals[ph], 0) if vals[ph].op != 'lin' else 0
            if (k > 0) == up and k and all(free(x) for x in m): return True
        return False
    def finite(s, ph):
        """the position of an iterator over something that is borrowed or owned by it, and ends"""
        pl = L.phis[ph][0]
        if not pl[1] or pl[1][-1] != ('pos',): return False
        x = s.read((pl[0], pl[1][:-1]))
        if x.op != 'iter': return False
        src = x.a[0]
        return not (src.a[0] == 'repeat' or src.a[0] == 'range' and src.a[2] is NONE or src.a[0] == 'opaque' and 'next' in repr(src.a[1]))
    out = []
    for ph in vary:
        up, down, seq, least = {}, {}, {}, {}
        for i, (s, vals) in enumerate(L.backs):
            v = vals[ph]
            if v is ph: up[i] = down[i] = seq[i] = least[i] = 'keeps'; continue
            a = _adv(s, v, ph)
            up[i] = 'strict' if a is not None and a >= 1 and (finite(s, ph) or bounded(s, vals, ph, True)) else 'keeps' if a == 0 else 'wrong'
            d = sub(v, ph)
            hi = d.a[0] if d.op == 'int' else s.bnd(d)[1]
            if v.op == 'div' and v.a[0] is ph and v.a[1].op == 'int' and v.a[1].a[0] >= 2 and (s.bnd(ph)[0] or 0) >= 1: hi = -1
            down[i] = 'strict' if hi is not None and hi < 0 and (bounded(s, vals, ph, False) or s.bnd(v)[0] is not None and s.bnd(v)[0] >= 0) else 'keeps' if hi == 0 else 'wrong'
            if v.op == 'div' and v.a[0] is ph and v.a[1].op == 'int' and v.a[1].a[0] >= 2 and s.decide(eq(ph, ZERO)) is False: down[i] = 'strict'      # only numbers without sign
            seq[i] = 'strict' if v.op in ('pop', 'popfront') and v.a[0] is ph or v.op == 'slice' and v.a[0] is ph and (s.bnd(v.a[1])[0] or 0) >= 1 else 'wrong'
            n = length(ph)
            least[i] = 'strict' if v.op == 'push' and v.a[0] is ph and any(t and f.op == 'lt' and f.a[0] is n and free(f.a[1]) for f, t in s.facts[L.nf:]) else 'wrong'
        out += [(f'{short(ph)} moves forward', up), (f'{short(ph)} moves down', down), (f'{short(ph)} gets shorter', seq), (f'{short(ph)} gets longer', least)]
    return out
def terminates(L):
    """(True, measure) when every iteration of the loop moves a bounded position forward (or backward towards zero); (False, iteration) when one leaves
    everything the way it was that decided about it; (None, '') when neither can be told"""
    if not L.backs: return True, 'no iteration is completed'
    left = set(range(len(L.backs))); used = []; ms = _measures(L)
    while left:
        for name, m in ms:
            if any(m[i] == 'strict' for i in left) and all(m[i] in ('strict', 'keeps') for i in left):
                left -= {i for i in left if m[i] == 'strict'}; used.append(name); break
        else: break
    if not left: return True, '; '.join(used)
    for i in sorted(left):
        s, vals = L.backs[i]; need = set(); todo = [f for f, t in s.facts[L.nf:]]
        s2 = s.fork(); ok = True
        while todo and ok:
            for q in list(L.phis):
                if q in need or not any(contains(f, q) for f in todo): continue
                need.add(q); v = vals[q]
                if v is q: continue
                d = sub(v, q)
                lo, hi = s2.bnd(d) if d.op != 'int' else (d.a[0], d.a[0])
                if d.op != 'int' and not any(contains(v, p) for p in L.phis if any(w[p] is not p for _, w in L.backs)):
                    ok = s2.assume(eq(q, v), True)      # set to something that no iteration changes: the next iteration finds what it leaves
                    if not ok: break
                    continue
                ok = d.op != 'int' and lo is not None and lo <= 0 and any(q is x for x in subterms_(v)) and s2.assume(eq(d, ZERO), True)
                if not ok: break
            todo = []
        if ok: return False, f'an iteration that changes nothing that decides about it: {facts_str(s.facts[L.nf:], 5)}'
    return None, ''

# --- searches ------------------------------------------------------------------------------------
class Search:
    """A loop that walks a collection looking for an element: hit / miss path conditions, and which side a state is on."""
    def __init__(self, L):
        self.L = L; self.ok = False
        ex = exhaustion(L)
        if not ex: return
        self.ph, self.n = ex
        acc = [p for p in L.phis if p is not self.ph and L.phis[p][1].op in ('vec', 'int', 'bool')]
        self.acc = acc[0] if len(acc) == 1 else None
        if len(acc) > 1: return
        self.hits, self.misses = [], []
        for s, vals in L.backs:
            if self.acc is not None and L.phis[self.acc][1].op == 'bool' and vals[self.acc] is not self.acc:
                i = L.phis[self.acc][1].a[0]
                for tr in (True, False):
                    s2 = s.fork()
                    if s2.assume(self.acc, bool(i), False) and s2.assume(vals[self.acc], tr): (self.hits if tr != bool(i) else self.misses).append((s2, s2.facts[L.nf:]))
                continue
            (self.hits if self.acc is not None and vals[self.acc] is not self.acc else self.misses).append((s, s.facts[L.nf:]))
        mid = [s for s in L.exits if not any(not t and f.op == 'lt' and f.a[0] is self.ph for f, t in s.facts[L.nf:])]
        self.mid = [(s, s.facts[L.nf:]) for s in mid]; self.hits += self.mid
        self.ok = bool(self.hits)
    def side(self, st):
        """True: an element was found, False: none exists, None: unknown"""
        if self.acc is not None:
            i = self.L.phis[self.acc][1]
            t = eq(length(self.acc), ZERO) if i.op == 'vec' else eq(self.acc, i) if i.op == 'int' else None
            d = st.decide(t) if t is not None else (None if st.decide(self.acc) is None else st.decide(self.acc) is st.decide(i))
            if d is True and not self.mid: return False
            if d is False: return True
        done = st.decide(lt(self.ph, self.n))
        if done is False and self.acc is None: return False
        if done is True: return True
        return None
def searches(st, nev=0):
    return [s for s in (Search(e.data) for e in st.events[nev:] if e.kind == 'loop') if s.ok]
def ends(rep, span, L, unknown):
    ok, why = terminates(L); key = 'loop.' + L.lid.split('@')[0].rsplit('.', 1)[0]
    if ok is None: unknown.append(f'the loop {L.lid} ({span})')
    else: rep.ob(ok, 'every other loop ends', f'{span} loop {L.lid}', f'{L.lid}: {why}', key)
def ends_all(F, rep, paths, unknown):
    """every loop of the given functions (and of what is analysed along with them) ends; number of loops"""
    n = 0; seen = set(); cs = callers(F)
    def calledby(p): return {owner(F, q) for q in cs.get(p, ())} & set(paths)
    todo = [p for p in paths if p in F.fns and 'closure' not in p]; order = []
    while todo:         # callers first: a function is then analysed where it is called
        nxt = [p for p in todo if not (calledby(p) - {p}) & set(todo)] or todo[:1]
        order += nxt; todo = [p for p in todo if p not in nxt]
    for p in order:
        by = calledby(p)
        if p in seen and by and p not in by and by <= seen: continue
        E, outs = run(F, rep, p); seen |= E.analysed
        for L in E.looprecs:
            ends(rep, F.fns[p].span, L, unknown); n += 1
    return n
def recursion_ends(F, rep, paths, unknown):
    """no function of paths is part of an endless cycle of calls"""
    cg = callgraph(F)
    for p in sorted(paths):
        if p not in F.fns: continue
        W = f'{F.fns[p].span} {p}'
        direct = any(c.local == p for c in calls_of(F, F.fns[p]))
        if any(p in reach(F, [q], stop=()) for q in cg.get(p, ()) if q != p): unknown.append(f'the cycle of calls through {p}')
        if not direct: continue
        own = []
        E, outs = run(F, rep, p, opaque={p}, setup=lambda st, args: own.extend(args))
        for s, _ in outs:
            for e in s.events:
                if e.kind != 'call' or e.name != p: continue
                less = any(isinstance(a, T) and a.op == 'slice' and s.decide(lt(length(a), length(a.a[0]))) is True for a in e.args)
                same = own is not None and len(own) == len(e.args) and all(x is y or x is mk('sym', F.fns[p].names.get(i + 1)) for i, (x, y) in enumerate(zip(e.args, own))) and not any(F.ty(t).get('mut') for t in F.fns[p].locals[1:len(own) + 1])
                if less or same: rep.ob(less, 'recursion ends', W, f'{p} calls itself with its own parameters', 'recursion.' + p)
                else: unknown.append(f'the recursion of {p}')
CHANGING = ('trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'replace', 'replacen', 'lower', 'upper', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'repeat')
def altered(t):
    """the operations in a text that change its characters"""
    nm = lambda x: str(x.a[0]).split('::')[-1] if x.op == 'call' else x.op
    args = lambda x: x.a[1:] if x.op == 'call' else x.a
    return [x for x in subterms(t) if nm(x) in CHANGING and not (nm(x) in ('replace', 'replacen') and len(args(x)) > 2 and args(x)[1] is args(x)[2])]

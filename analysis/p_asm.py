"""C03, C04, C12: the assembler.  What an emitter leaves in the output buffer is read back with the format table of C02."""
from lib import *
import p_chunk
from p_text import cev
CHECKS, INFO = {}, {}
ASM = 'compile::assembler::Assembler'

def fields(F):
    """(index of the output buffer, index of the write position) in the assembler"""
    fs = F.adts[ASM]['variants'][0]['fields'] if ASM in F.adts else []
    b = [i for i, (n, t) in enumerate(fs) if F.tstr(t).replace('std::vec::', '') in ('Vec<u8>', 'alloc::vec::Vec<u8>')]
    p = [i for i, (n, t) in enumerate(fs) if F.tstr(t) == 'usize']
    if len(b) != 1 or len(p) != 1: raise Limit('the assembler no longer has one output buffer and one write position')
    return b[0], p[0]
def byte_at(st, B, pos):
    """byte at a position of the output, or None"""
    while True:
        if B.op == 'set':
            d = sub(B.a[1], pos)
            if d is ZERO: return B.a[2]
            lo, hi = st.bnd(d)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0): B = B.a[0]; continue
            return None
        if B.op in ('splice', 'setslice'):
            lo, hi, x = B.a[1], B.a[2], B.a[3]
            if not isinstance(hi, T) or hi.op == 'adt': return None
            if before(st, pos, lo) or not_before(st, pos, hi): B = B.a[0]; continue
            if not_before(st, pos, lo) and before(st, pos, hi): return byte_at(st, x, sub(pos, lo)) if x.op in ('set', 'splice', 'setslice') else part(st, x, sub(pos, lo))
            return None
        return elem(B, pos)
def part(st, x, i):
    """element i of a sequence put together from parts"""
    while x.op == 'cat':
        n = length(x.a[0])
        if before(st, i, n): x = x.a[0]
        elif not_before(st, i, n): x, i = x.a[1], sub(i, n)
        else: break
    return elem(x, i)
def section(st, x, lo, hi):
    while x.op == 'cat':
        n = length(x.a[0])
        if not_before(st, n, hi): x = x.a[0]
        elif not_before(st, lo, n): x, lo, hi = x.a[1], sub(lo, n), sub(hi, n)
        else: break
    if lo is ZERO and (hi is length(x) or st.bnd(sub(hi, length(x))) == (0, 0)): return x
    return slice_(x, lo, hi)
def before(st, a, b):
    lo = st.bnd(sub(b, a))[0]; return lo is not None and lo >= 1
def not_before(st, a, b):
    lo = st.bnd(sub(a, b))[0]; return lo is not None and lo >= 0
def bytes_at(st, B, lo, hi):
    """the bytes lo..hi of the output as one value, or None"""
    while True:
        if B.op == 'set':
            if before(st, B.a[1], lo) or not_before(st, B.a[1], hi): B = B.a[0]; continue
            break
        if B.op in ('splice', 'setslice'):
            l, h, x = B.a[1], B.a[2], B.a[3]
            if not isinstance(h, T) or h.op == 'adt': return None
            if not_before(st, l, hi) or not_before(st, lo, h): B = B.a[0]; continue
            if l is lo and h is hi: return x
            if x.op != 'repeat':
                if not_before(st, lo, l) and not_before(st, h, hi): return section(st, x, sub(lo, l), sub(hi, l))
        break
    n = sub(hi, lo)
    if n.op == 'int' and 0 <= n.a[0] <= 4096:
        r = [byte_at(st, B, add(lo, INT(i))) for i in range(n.a[0])]
        return None if None in r else mk('vec', *r)
    return None
def same_bytes(st, x, y):
    if x is None: return False
    if x is y: return True
    n, m = length(x), length(y)
    same = lambda a, b: a is b or st.bnd(sub(a, b)) == (0, 0)
    if x.op == 'slice' and x.a[0] is y and x.a[1] is ZERO and (x.a[2] is None or same(x.a[2], m)): return True
    if n.op == 'int' and same(n, m): return all(elem(x, INT(i)) is elem(y, INT(i)) for i in range(n.a[0]))
    if n is m and n.op == 'int': return all(elem(x, INT(i)) is elem(y, INT(i)) for i in range(n.a[0]))
    if m.op == 'int' and n.op == 'int': return False
    return st.decide(eq(n, ZERO)) is True and st.decide(eq(m, ZERO)) is True

class Unread(Exception): pass
def parse(st, B, start, end, conc, limit=64):
    """the records between two positions: [dict(kind, end, key, data, ref, push, seg)]; conc makes byte terms concrete where the case at hand determines them.
       Raises Unread(reason, certain) when the bytes are not a sequence of records."""
    out = []; pos = start
    for _ in range(limit):
        d = conc(sub(end, pos))
        if d is ZERO: return out
        if d.op == 'int' and d.a[0] < 0: raise Unread('the last record ends behind the position where the next one is written', True)
        def at(i):
            x = byte_at(st, B, add(pos, i if isinstance(i, T) else INT(i)))
            if x is None: raise Unread('a byte of the record is not determined', False)
            x = conc(x)
            if x.op != 'int': TYB.setdefault(x, (0, 255)) if x.op == 'elem' else None
            return x
        b = at(0)
        if b.op == 'elem' and not out and b.a[0].op == 'fld': raise Unread('nothing is written', None)
        if b.op == 'elem' and b.a[0].op == 'sym' and out: raise Unread(f'the record {out[-1]["code"]:#04x} ends before the bytes {short(b)} it was given', True)
        if b.op == 'elem' and b.a[0].op == 'fld' and out: raise Unread(f'the bytes after the record {out[-1]["code"]:#04x} are left unwritten but the position moves over them: they are read as another record', True)
        if b.op != 'int': raise Unread(f'the kind of the record is {short(b)}', False)
        if b.a[0] & 0xC0 == 0xC0: alts = p_chunk.spec(b.a[0], at)
        else: alts = p_chunk.spec(b.a[0], at)
        if alts is None: raise Unread(f'{b.a[0]:#04x} is not the start of a record', True)
        alts = [a for a in alts if all(st.decide(conc(t)) is not (not v) for t, v in a['when'])]
        if len(alts) != 1: raise Unread(f'the form of the record {b.a[0]:#04x} is not determined', False)
        a = alts[0]
        if a.get('err'): raise Unread(f'the record {b.a[0]:#04x} is malformed', True)
        e = conc(a['end'])
        rec = dict(kind=a['ctype'], code=b.a[0], pos=pos, key=a['key'], seg=a['seg'], push=a['push'], pops=a['pop'], end=add(pos, e))
        for n in ('data', 'ref'):
            rec[n] = bytes_at(st, B, add(pos, conc(a[n][0])), add(pos, conc(a[n][1]))) if a[n] else None
            rec[n + '.span'] = (add(pos, conc(a[n][0])), add(pos, conc(a[n][1]))) if a[n] else None
        out.append(rec); pos = rec['end']
        lo, hi = st.bnd(conc(sub(end, pos)))
        if hi is not None and hi < 0: raise Unread('the last record ends behind the position where the next one is written', True)
    raise Unread('too many records', False)

class Emitter:
    """An assembler function that writes records: its parameters and what it leaves behind on each path."""
    def __init__(self, F, rep, path, bi, pi):
        self.F, self.path, self.fn = F, path, F.fns[path]
        self.ints, self.seqs, self.other = [], [], []
        for i in range(1, self.fn.nargs):
            t = F.tstr(self.fn.locals[i + 1]).replace('std::vec::', '').replace('alloc::vec::', ''); nm = mk('sym', self.fn.names.get(i + 1, f'arg{i + 1}'))
            if t in ('u8', 'u16', 'u32', 'u64', 'usize'): self.ints.append((nm, t))
            elif t.lstrip('&').replace("'a ", '').replace("'_ ", '') in ('[u8]', 'Vec<u8>'): self.seqs.append(nm)
            else: self.other.append((nm, t))
        self.E, outs = run(F, rep, path, unroll=True)
        self.paths = []
        for st, r in outs:
            me = st.val(st.read((mk('sym', self.fn.names.get(1, 'self') + '.ptr'), ()))) if self.fn.nargs else None
            B, p = (st.val(fld(me, i)) for i in (bi, pi))
            B0, p0 = (fld(mk('sym', self.fn.names.get(1, 'self')), i) for i in (bi, pi))
            self.paths.append((st, B, p, B0, p0))
        self.writes = [x for x in self.paths if x[1] is not x[3]]
    def raw(self):
        """a helper that only copies its argument into the output"""
        if not self.writes or len(self.ints) + len(self.seqs) != 1 or self.other: return False
        arg = self.ints[0][0] if self.ints else self.seqs[0]
        for st, B, p, B0, p0 in self.writes:
            if B.op == 'set' and B.a[0] is B0 and B.a[1] is p0 and B.a[2] is arg: continue
            if B.op in ('splice', 'setslice') and B.a[0] is B0 and B.a[1] is p0 and B.a[3] is arg: continue
            return False
        return True
    def advances(self):
        """something is written from the write position on, and the position moves"""
        def base(B):
            while B.op in ('set', 'splice', 'setslice'): B = B.a[0]
            return B
        return any(B is not B0 and p is not p0 for st, B, p, B0, p0 in self.paths) and all(base(B) is B0 and contains(p, p0) for st, B, p, B0, p0 in self.writes)

def takes_self(F, fn):
    return fn.nargs >= 1 and 'assembler::Assembler' in F.tstr(fn.locals[1]) and '&mut' in F.tstr(fn.locals[1])
def params(F, fn):
    """integer and byte-sequence parameters, others"""
    a, o = 0, 0
    for i in range(1, fn.nargs):
        t = F.tstr(fn.locals[i + 1]).replace('std::vec::', '').replace('alloc::vec::', '').lstrip('&').replace("'a ", '').replace("'_ ", '')
        if t in ('u8', 'u16', 'u32', 'u64', 'usize', '[u8]', 'Vec<u8>'): a += 1
        else: o += 1
    return a, o
class Assembler:
    """The assembler's functions: record emitters, raw helpers, everything else (sections)."""
    def __init__(self, F, rep):
        self.F, self.rep = F, rep; self.bi, self.pi = fields(F)
        mine = {p: f for p, f in F.fns.items() if "{closure" not in p and takes_self(F, f)}
        self.E, self.raw = {}, {}
        withargs = {p for p, f in mine.items() if params(F, f)[0] and not params(F, f)[1]}
        cg = callgraph(F); pre = {}
        for p in sorted(withargs):        # helpers that only copy a byte or bytes do not make their callers sections
            if cg.get(p, set()) & set(mine): continue
            pre[p] = Emitter(F, rep, p, self.bi, self.pi)
            if pre[p].advances() and pre[p].raw(): withargs.discard(p); self.raw[p] = pre[p]
        for p in sorted(mine):
            if p in self.raw: continue
            if p not in withargs and (params(F, mine[p])[1] or cg.get(p, set()) & withargs): continue
            if reach(F, [p]) & (set(mine) - withargs) - {p} and any(cg.get(q, set()) & withargs for q in reach(F, [p]) & (set(mine) - withargs) - {p}): continue
            e = pre.get(p) or Emitter(F, rep, p, self.bi, self.pi)
            if not e.advances(): continue
            (self.raw if e.raw() else self.E)[p] = e
        self.used = sorted(p for p in self.E if any(owner(F, q) not in self.E and owner(F, q) not in self.raw for q in callers(F).get(p, ()) if not F.fns[q].derived))
        self.good, self.wrap, self.verdict = {}, set(), {}
    def judge(self, p):
        if p not in self.verdict: self.verdict[p] = judge(self, self.E[p])
        return self.verdict[p]
    def settle(self):
        """obligations of the emitters that are used: [(ok, rule, where, detail, key)], limits"""
        out, limits, todo, seen = [], [], list(self.used), set()
        while todo:
            p = todo.pop(0)
            if p in seen: continue
            seen.add(p); obs, lim = self.judge(p)
            inner = sorted(q for q in callgraph(self.F).get(p, ()) if q in self.E and (self.E[q].ints or self.E[q].seqs))
            if (lim or any(not o[0] for o in obs)) and inner:
                r = [self.judge(q) for q in inner]
                if all(not l and all(o[0] for o in ob) for ob, l in r): self.wrap.add(p); todo += inner; continue
            out += obs
            if lim: limits.append(f'{p}: {lim}')
            else: self.good[p] = self.E[p]
        return out, limits
def judge(A, e):
    """([obligations], reason why it cannot be judged)"""
    F = A.F; W = f'{e.fn.span} {e.path}'; key = e.path.split('::')[-1]; obs = []
    if e.other: return [], f'parameter {short(e.other[0][0])} of type {e.other[0][1]}'
    if not e.writes: return [], 'writes nothing'
    n, m = len(e.ints), len(e.seqs)
    kind = {(0, 2): 'RefLong', (1, 1): 'keyed', (0, 1): 'DataSimple', (1, 0): 'PathPush', (0, 0): None}.get((n, m), 0)
    if kind == 0: return [], f'{n} numbers and {m} byte sequences'
    if n:
        I, t = e.ints[0]
        cs = call_consts(A, e)
        vals = range(256) if t == 'u8' else sorted(set(range(128, 384)) | {c for c in cs if c is not None and c < 128} | (set(range(128)) if m == 0 or None in cs else set()))
    else: I, vals = None, (None,)
    for st0, B, p, B0, p0 in e.paths:
        for v in vals:
            if v is not None:
                if not possible(st0, eq(I, INT(v))): continue
                st = st0.fork(); st.assume(eq(I, INT(v)), True)
            else: st = st0
            case = f' for {short(I)} = {v}' if v is not None else ''
            if B is B0:
                obs.append((p is p0 or False, 'a record is written', W, f'nothing is written{case}, when {facts_str(st0.facts)}', key + '.nothing')); continue
            env = {I: INT(v)} if v is not None else {}
            r = None; sub_ = []
            for ne in (False, True):      # an empty sequence may turn a record into another form: the callers pass none
                if ne:
                    if not e.seqs: break
                    st = st.fork()
                    if not all(st.assume(eq(length(q), ZERO), False) for q in e.seqs): break
                try: r = parse(st, B, p0, p, lambda x: concrete(st, x, env, e.seqs)); break
                except Unread as u: r = u
            if isinstance(r, Unread) and not r.args[1] and e.seqs:      # length by length
                q = e.seqs[-1]; r0, r = r, None
                for n in range(1, 256):
                    st2 = st.fork()
                    if not st2.assume(eq(length(q), INT(n)), True): continue
                    try: parse(st2, B, p0, p, lambda x: concrete(st2, x, {**env, length(q): INT(n)}, e.seqs))
                    except Unread as u:
                        if u.args[1]: obs.append((False, 'what is written is a record of the format', W, f'{u.args[0]}{case} and {n} bytes of data', key + '.record')); r = u; break
                if r is None: r = r0
                else: continue
            if isinstance(r, Unread):
                if r.args[1]: obs.append((False, 'what is written is a record of the format', W, f'{r.args[0]}{case}', key + '.record')); continue
                return obs if any(not o[0] for o in obs) else [], str(r.args[0]) + case
            recs = [x for x in r if x['kind'] != 'Noop']
            if kind is None:
                obs.append((bool(r), 'what is written is a record of the format', W, 'nothing is written', key + '.record')); continue
            if len(recs) != 1:
                obs.append((False, 'one call writes one record', W, f'{len(recs)} records are written{case}: {", ".join(x["kind"] for x in recs)}', key + '.one')); continue
            x = recs[0]; K = lambda t: concrete(st, t, env, e.seqs)
            if kind == 'PathPush':
                obs.append((x['kind'] == 'PathPush' and x['push'] is not True and K(x['push']) is INT(v) and not x['pops'], 'the directory opened is the one asked for', W, f'{x["kind"]} {short(K(x["push"])) if isinstance(x["push"], T) else ""} is written{case}', key + '.dir'))
            elif kind == 'DataSimple':
                obs.append((x['kind'] == 'DataSimple' and same_bytes(st, x['data'], e.seqs[0]) and not x['pops'], 'the data read back are the data written', W, f'{x["kind"]} with the data {short(x["data"]) if x["data"] is not None else "at " + short(x["data.span"][0])} is written', key + '.data'))
            elif kind == 'keyed':
                k = x['key'] if x['kind'] == 'RefSimple' else x['seg'] if x['kind'] == 'DataSegment' else None
                obs.append((k is not None and K(k) is INT(v) and not x['pops'], 'the key read back is the key written', W, f'a record {x["code"]:#04x} ({x["kind"]}) with the key {short(K(k)) if k is not None else None} is written{case}', key + '.key'))
                obs.append((x['data'] is not None and same_bytes(st, x['data'], e.seqs[0]), 'the data read back are the data written', W, f'the data of the record {x["code"]:#04x} are {short(x["data"]) if x["data"] is not None else "bytes " + short(sub(x["data.span"][0], p0)) + ".." + short(sub(x["data.span"][1], p0))}{case}, when {facts_str(st0.facts)}', key + '.data'))
            else:
                obs.append((x['kind'] == 'RefLong' and same_bytes(st, x['ref'], e.seqs[0]) and not x['pops'], 'the key read back is the key written', W, f'a record {x["code"]:#04x} ({x["kind"]}) with the reference {short(x["ref"]) if x["ref"] is not None else None} is written', key + '.key'))
                obs.append((x['data'] is not None and same_bytes(st, x['data'], e.seqs[1]), 'the data read back are the data written', W, f'the data of the record {x["code"]:#04x} are {short(x["data"]) if x["data"] is not None else None}', key + '.data'))
    return obs, None
def call_consts(A, e):
    """the constants passed for the number of an emitter (None: something else)"""
    F = A.F; r = set()
    pos = next(i for i in range(1, e.fn.nargs) if mk('sym', e.fn.names.get(i + 1, f'arg{i + 1}')) is e.ints[0][0])
    for fn in F.fns.values():
        if fn.derived: continue
        for c in calls_of(F, fn):
            if c.local == e.path or c.path == e.path:
                a = c.args[pos]
                v = a[1] if a[0] == 'const' else None
                if v and v['k'] == 'const': v = v['v']
                r.add(v['v'] if v and v['k'] == 'int' else None)
    return r
def concrete(st, x, env, seqs):
    """a term under the case at hand: the number known, sequences of at most 255 bytes"""
    if env: x = replace(x, env)
    m = {}
    for y in set(subterms(x)):
        if y.op == 'rem' and y.a[1] is INT(256) and y.a[0].op == 'len': m[y] = y.a[0]
        elif y.op == 'wrap' and y.a[-1].op == 'len': m[y] = y.a[-1]
    if m: x = replace(x, m)
    m = {}
    for y in set(subterms(x)):
        if y.op in ('rem', 'div', 'bitor', 'bitand', 'bitxor', 'shl', 'shr', 'lin', 'mod', 'trunc', 'wrap'):
            v = cev(y, {})
            if v is not None: m[y] = INT(v)
    if m: x = m[x] if x in m else replace(x, m)
    if x.op != 'int':
        lo, hi = st.bnd(x)
        if lo is not None and lo == hi: x = INT(lo)
    return x

def c03(F, rep, tier):
    A = Assembler(F, rep); obs, limits = A.settle()
    for o in obs: rep.ob(*o)
    rep.count('emitters', len(A.used))
    if not A.good and not rep.bad: raise Limit('; '.join(limits) or 'no function that writes records was found')
    if limits and not rep.bad: raise Limit('; '.join(limits))
    rep.notes = ['sequences of at most 255 bytes; directory numbers below 384', 'the format is the one of C02']
CHECKS['C03'] = c03
INFO['C03'] = 'every function that writes records is analysed for arbitrary arguments; the bytes it leaves between the old and the new write position are read with the format table of C02 and compared with the arguments.'

# --- the whole file ------------------------------------------------------------------------------
TOP = ASM + '::assemble_fmp12'
class Whole:
    """assemble_fmp12 with the record emitters kept as single steps.  written(buffer, from, n) stands for the buffer with record n at a position."""
    def __init__(self, F, rep, pure=None):
        A = self.A = Assembler(F, rep); self.F, self.rep = F, rep
        obs, limits = A.settle()
        if limits or any(not o[0] for o in obs): raise Limit('the record emitters cannot be relied on (C03)')
        if TOP not in F.fns: raise Limit(f'{TOP} is gone')
        self.n = 0; bi, pi = A.bi, A.pi; hooks = {}
        def hook(E, fr, st, path, args, d):
            e = A.E[path]; me = st.deref(args[0]); v = st.val(st.read(me)); self.n += 1
            p, B = st.val(fld(v, pi)), st.val(fld(v, bi))
            size = mk('recsize', self.n); TYB[size] = (1, 4076)
            E.event(st, 'emit', path, tuple(st.val(a) for a in args[1:]), (p, add(p, size), effect(A, e)))
            st.write(me, setfld(setfld(v, pi, add(p, size)), bi, mk('written', B, p)))
            return [(st, mk('tup'))]
        for p in A.good: hooks[p] = hook
        for p, op in (pure or {}).items(): hooks[p] = lambda E, fr, st, path, args, d, op=op: [(st, mk(op, deep(E, st, args[0])))]
        self.E, self.outs = run(F, rep, TOP, hooks=hooks, unroll=True)
        self.done, self.lows, self.grown = set(), {}, set(); self.where = f'{F.fns[TOP].span} {TOP}'
        self.buffers(); self.positions()
    def field(self, L, f):
        """(value at the head of a loop, before it, function: value after an iteration) of a field of the assembler; None when the loop leaves it alone"""
        for ph, (pl, init) in L.phis.items():
            if pl[0] is not mk('sym', 'self.ptr') or pl[1] not in ((), (('f', f),)): continue
            g = (lambda v: v) if pl[1] else (lambda v: fld(v, f))
            return g(ph), g(init), (lambda vals, ph=ph, g=g: g(vals[ph]))
        return None
    def emits(self, L):
        return any(e.kind == 'emit' or e.kind == 'loop' and self.emits(e.data) for s, _ in L.backs for e in s.events[L.nev:])
    def net(self, events):
        d = 0
        for e in events:
            if e.kind == 'emit': d += e.data[2]
            elif e.kind == 'loop':
                n = {self.net(s.events[e.data.nev:]) for s, _ in e.data.backs}
                if n - {0}:
                    t = trips(e.data)
                    if len(n) != 1 or None in n or t is None: return None
                    d += n.pop() * t
        return d
    # -- directories and positions -------------------------------------------------------------
    def walk(self, events, cur, depth, inside):
        """follow the records written: position and number of open directories; violations are reported where they happen"""
        rep = self.rep; start = depth
        for e in events:
            if e.kind == 'emit':
                p, q, d = e.data; W = f'{e.span} {e.fn}'
                if p is not cur:
                    old = cur is not None and any(x.op == 'recsize' for x in subterms(p)) and any(x in subterms_(cur) for x in subterms_(p) if x.op in ('recsize', 'phi'))
                    if old:
                        if inside: rep.ob(False, 'a record starts where the previous one ends', W, f'a record is written at {short(p)}, the previous one ends at {short(cur)}', 'contiguous'); return None
                        rep.ob(False, 'a record starts where the previous one ends', W, f'a record is written at {short(p)}, the previous one ends at {short(cur)}', 'contiguous')
                    else:
                        rep.ob(depth == 0, 'a sector is begun without open directories', W, f'{depth} directories are open when a new sector is begun', 'sector.open')
                        n = self.norm(p)
                        if n.op != 'int': raise Limit(f'the position {short(n)} of a record cannot be related to its sector')
                        rep.ob(n.a[0] % 4096 == 20, 'the records of a sector start behind its header', W, f'the first record of a sector is written at {n.a[0]}, {n.a[0] % 4096} bytes into the sector', 'sector.start')
                else: rep.ob(True, 'a record starts where the previous one ends', W, '', 'contiguous')
                cur = q; depth += d
                if d: rep.ob(depth >= (start if inside else 0), 'only an open directory is closed', W, f'a directory is closed that {"was opened outside the loop" if inside else "is not open"}', 'negative')
            elif e.kind == 'loop' and (self.emits(e.data) or self.field(e.data, self.A.pi)):
                L = e.data; x = self.field(L, self.A.pi)
                times = trips(L)
                if times is not None:      # a fixed number of rounds
                    nets = {self.net(s.events[L.nev:]) for s, _ in L.backs}
                    if len(nets) == 1 and None not in nets and 0 not in nets:
                        net = nets.pop()
                        for s, vals in L.backs:
                            for k in {0, times - 1}:
                                r = self.walk(s.events[L.nev:], x[0] if x else None, depth + k * net, False)
                                if r is not None and x: rep.ob(x[2](vals) is r[0], 'a record starts where the previous one ends', e.fn or '', f'after an iteration the position is {short(x[2](vals))}, the last record ends at {short(r[0])}', 'contiguous.loop')
                        depth += net * times
                        self.done.add(id(L))
                if id(L) not in self.done:
                    self.done.add(id(L))
                    for s, vals in L.backs:
                        W = f'{s.events[L.nev].span if s.events[L.nev:] else ""} {L.lid}'
                        r = self.walk(s.events[L.nev:], x[0] if x else None, depth, True)
                        if r is None: continue
                        rep.ob(r[1] == depth, 'every iteration closes the directories it opens', W, f'{r[1] - depth:+d} directories are open after an iteration', 'balance.loop')
                        if x: rep.ob(x[2](vals) is r[0], 'a record starts where the previous one ends', W, f'after an iteration the position is {short(x[2](vals))}, the last record ends at {short(r[0])}', 'contiguous.loop')
                if x:
                    if x[1] is not cur and not (cur is None): raise Limit(f'the position {short(x[1])} before the loop {L.lid} is not the end of the last record')
                    cur = x[0]
        return cur, depth
    # -- lengths -----------------------------------------------------------------------------------
    def norm(self, t):
        """lengths of the buffer at the head of loops that keep it, resolved"""
        for _ in range(20):
            m = {}
            for x in subterms(t):
                if x.op == 'len' and x.a[0] in self.bufs:
                    init, keep = self.bufs[x.a[0]]
                    if keep: m[x] = length(init)
            if not m: return t
            t = replace(t, m)
        return t
    def buffers(self):
        """buffer values at the head of loops: what they were before, whether an iteration keeps the length"""
        self.bufs = {}; inc = {}
        for L in self.E.looprecs:
            b = self.field(L, self.A.bi)
            if b: self.bufs[b[0]] = (b[1], True); inc[b[0]] = [(s, b[2](vals)) for s, vals in L.backs]; self.lows[b[0]] = (L, self.field(L, self.A.pi))
        for _ in range(len(self.bufs) + 1):
            ch = False
            for ph, (init, keep) in self.bufs.items():
                if keep and not all(self.norm(length(v)) is self.norm(length(ph)) for s, v in inc[ph]): self.bufs[ph] = (init, False); ch = True
            if not ch: break
        self.inc = inc
    def parts(self, st, B, seen=None):
        """obligations on how a buffer came about"""
        rep = self.rep; seen = set() if seen is None else seen
        while B not in seen:
            seen.add(B)
            if B.op in ('set', 'written'): B = B.a[0]
            elif B.op in ('splice', 'setslice'):
                d = self.norm(sub(length(B.a[3]), sub(B.a[2], B.a[1])))
                rep.ob(d is ZERO or st.bnd(d) == (0, 0), 'bytes in place are replaced by as many', self.where, f'bytes {short(B.a[1])}..{short(B.a[2])} are replaced by {short(length(B.a[3]))} bytes', 'splice'); B = B.a[0]
            elif B.op in ('resize', 'cat', 'push'): B = B.a[0]
            elif B in self.bufs:
                for s, v in self.inc[B]: self.parts(s, v, seen)
                B = self.bufs[B][0]
            else: return
    # -- bytes -------------------------------------------------------------------------------------
    def byte(self, st, B, pos):
        """the byte at a fixed position of a buffer, or None"""
        P = INT(pos)
        for _ in range(2000):
            B0 = B
            if B.op == 'set':
                q = self.norm(B.a[1])
                if q is P: return st.val(B.a[2])
                lo = st.bnd(sub(q, P))[0]; hi = st.bnd(sub(q, P))[1]
                if lo is not None and lo > 0 or hi is not None and hi < 0: B = B.a[0]
            elif B.op in ('splice', 'setslice'):
                l, h = self.norm(B.a[1]), self.norm(B.a[2])
                if before(st, P, l) or not_before(st, P, h): B = B.a[0]
                elif not_before(st, P, l) and before(st, P, h): return part(st, B.a[3], sub(P, l))
            elif B.op == 'resize':
                n = self.norm(length(B.a[0]))
                if before(st, P, n): B = B.a[0]
                elif not_before(st, P, n): return B.a[2]
            elif B.op in ('cat', 'push'):
                n = self.norm(length(B.a[0]))
                if before(st, P, n): B = B.a[0]
                elif n.op == 'int' and not_before(st, P, n): return part(st, B.a[1], sub(P, n)) if B.op == 'cat' else B.a[1]
            elif B.op == 'written':
                n = self.norm(length(B.a[0]))
                if self.from_(st, B.a[1]) > pos or not_before(st, P, n): B = B.a[0]
            elif B in self.bufs:
                L, ix = self.lows[B]; n = self.norm(length(B))
                if self.bufs[B][1] and not_before(st, P, n): return None
                if all(self.above(s, v, B, pos) for s, v in self.inc[B]): B = self.bufs[B][0]
            else: return elem(B, P)
            if B is B0: return None
        return None
    def above(self, st, v, ph, pos):
        """an iteration changes the buffer only behind a position"""
        while v is not ph:
            if v.op == 'written' and self.from_(st, v.a[1]) > pos: v = v.a[0]
            elif v.op == 'set' and before(st, INT(pos), self.norm(v.a[1])): v = v.a[0]
            elif v in self.bufs and all(self.above(s, w, v, pos) for s, w in self.inc[v]): v = self.bufs[v][0]
            else: return False
        return True
    def from_(self, st, t, n=0):
        """a lower bound of a write position"""
        if n > 200: return -1
        t = self.norm(t)
        m = {}
        for x in subterms_(t) if t.op != 'phi' else {t}:
            if x in self.idxs: m[x] = INT(self.from_(st, self.idxs[x], n + 1))
        t = replace(t, m) if m else t
        lo = st.bnd(t)[0]
        return lo if lo is not None else -1
    def positions(self):
        """write positions at the head of loops in which they only grow"""
        self.idxs = {}
        for L in self.E.looprecs:
            x = self.field(L, self.A.pi)
            if x and all((s.bnd(self.rel(x[2](vals), x[0]))[0] or 0) >= 0 and contains(x[2](vals), x[0]) or x[2](vals) in self.grown for s, vals in L.backs): self.idxs[x[0]] = x[1]; self.grown |= {x[0]}
    def rel(self, v, ph):
        """how far a position is ahead of another (through inner loops, which only move forward)"""
        for _ in range(50):
            m = {x: self.idxs[x] for x in subterms_(v) if x in self.idxs and x is not ph}
            if not m: break
            v = replace(v, m)
        return sub(v, ph)
def trips(L):
    """how often a loop runs when that is fixed"""
    for ph, (init, c) in L.induction().items():
        if init.op != 'int' or c <= 0: continue
        ends = [[f.a[1] for f, t in s.facts[L.nf:] if not t and f.op == 'lt' and f.a[0] is ph and f.a[1].op == 'int'] for s in L.exits]
        if ends and all(ends) and len({e[0] for e in ends}) == 1 and L.backs: return max(0, -((init.a[0] - ends[0][0].a[0]) // c))
    return None
def effect(A, e):
    if e.ints or e.seqs: return 1 if e.ints and not e.seqs else 0
    st, B, p, B0, p0 = e.writes[0]
    return sum((x['kind'] == 'PathPush') - x['pops'] for x in parse(st, B, p0, p, lambda x: concrete(st, x, {}, [])))

def c04(F, rep, tier):
    W = Whole(F, rep); A = W.A; sp = f'{F.fns[TOP].span} {TOP}'
    for st, r in W.outs:
        me = st.val(st.read((mk('sym', 'self.ptr'), ()))); B = st.val(fld(me, A.bi))
        W.parts(st, B)
        n = W.norm(length(B))
        if n.op == 'int': ok = n.a[0] % 4096 == 0
        elif n.op == 'lin': ok = n.a[0] % 4096 == 0 and all(k % 4096 == 0 for _, k in n.a[1]) or None
        else: ok = None
        if ok is None and rep.bad: continue
        if ok is None: raise Limit(f'the length {short(n)} of the file cannot be determined')
        rep.ob(ok, 'the file consists of whole sectors', sp, f'the file is {short(n)} bytes long', 'length')
        if rep.bad: continue
        W.done = set()
        x = W.walk(st.events, None, 0, False)
        if x: rep.ob(x[1] == 0, 'every directory opened is closed', sp, f'{x[1]} directories are still open at the end', 'balance')
    rep.count('records_written', W.n)
    rep.notes = ['what one call of a record emitter writes is C03']
CHECKS['C04'] = c04
INFO['C04'] = 'the assembler is analysed with its record emitters as single steps: every path and every loop iteration is followed with the number of open directories and the write position; the length of the buffer is tracked through every change.'

def c12(F, rep, tier):
    W = Whole(F, rep); A = W.A; sp = f'{F.fns[TOP].span} {TOP}'
    for st, r in W.outs:
        me = st.val(st.read((mk('sym', 'self.ptr'), ()))); B = st.val(fld(me, A.bi)); n = W.norm(length(B))
        if n.op != 'int': raise Limit(f'the number of sectors {short(n)} cannot be determined')
        n = n.a[0] // 4096; nxt = {}
        for k in range(1, n):
            b = [W.byte(st, B, 4096 * k + 8 + i) for i in range(4)]
            if any(x is None or x.op != 'int' for x in b): raise Limit(f'the number of the sector behind sector {k} cannot be determined')
            nxt[k] = int.from_bytes(bytes(x.a[0] for x in b), 'big')
        rep.ob(n > 2, 'there is a sector with records', sp, f'{n} sectors are written', 'some')
        if n <= 2: continue
        rep.ob(nxt[1] == n - 1, 'the first sector announces the number of the last one', sp, f'sector 1 announces {nxt[1]}, the last sector is {n - 1}', 'count')
        seen, k = [], 2
        while k and k in nxt and k not in seen: seen.append(k); k = nxt[k]
        rep.ob(k == 0, 'the chain of sectors ends', sp, f'the chain {seen} goes on with sector {k}' + (', which it has visited' if k in seen else ', which does not exist' if k not in nxt else ''), 'end')
        rep.ob(sorted(seen) == list(range(2, n)), 'the chain visits every sector', sp, f'the chain visits {seen} of the sectors 2..{n - 1}', 'all')
        rep.count('sectors', n)
CHECKS['C12'] = c12
INFO['C12'] = 'the next-sector fields of the assembled file are read from the symbolic buffer at the end of assembly, through every write of every path; the chain they form is followed.'

# --- what the file says about the schema ---------------------------------------------------------
ENC, PUT = 'dbcharconv::encode_text', 'encoding_util::put_int'
NOWHERE = mk('nowhere')
def here(p, ex):
    """the position of the entry an iteration is at, forwards or backwards"""
    return p is ex[0] or p is not None and p is sub(sub(ex[1], ONE), ex[0])
def deep(E, st, x):
    for _ in range(8):
        if x.op != 'ref': break
        x = st.val(st.read(st.deref(x)))
    return st.val(x)
def nowrap(t):
    """numbers stay below 2^32 (put_int takes no others)"""
    for _ in range(20):
        m = {x: x.a[0] for x in subterms(t) if x.op in ('rem', 'wrap') and len(x.a) > 1 and x.a[1] in (INT(1 << 32), 1 << 32)}
        if t in m: t = m[t]
        elif m: t = replace(t, m)
        else: return t
def named(st, t):
    """the text of an encoded name without the NUL characters behind it"""
    t = st.val(t)
    while True:
        if t.op == 'cat' and t.a[1].op == 'str' and not t.a[1].a[0].strip('\0'): t = t.a[0]; continue
        if t.op == 'push' and t.a[1] in (INT(0), CHAR(0)): t = t.a[0]; continue
        return t
def c14(F, rep, tier):
    for p in (ENC, PUT):
        if p not in F.fns: raise Limit(f'{p} is gone')
    W = Whole(F, rep, {ENC: 'encoded', PUT: 'put'}); A = W.A; sp = f'{F.fns[TOP].span} {TOP}'
    C = {n: F.field('file::FmpFile', n) for n in ('tables', 'table_occurrences', 'layouts', 'scripts', 'name')}
    nm = {'tables': F.field('component::FMComponentTable', 'table_name'), 'table_occurrences': F.field('component::FMComponentTableOccurence', 'table_occurence_name')}
    def coll(x):
        """which collection of the schema a term is"""
        if x.op != 'fld' or x.a[0].op not in ('deref', 'sym'): return None
        return next((n for n, k in C.items() if x.a[1] == k), None)
    def key(x):
        """the collection whose keys a term is one of, the position"""
        if x.op == 'keyat' and coll(x.a[0]): return coll(x.a[0]), x.a[1]
        return None, None
    def carried(st, x):
        """what is known about a piece of data: (what, collection, position)"""
        x = st.val(x)
        if x.op == 'put':
            v = nowrap(x.a[0])
            if v.op == 'len' and coll(v.a[0]): return 'count', coll(v.a[0]), None
            c, p = key(v)
            return ('number', c, p) if c else ('wrong', x, None) if known(v) else ('other', x, None)
        if x.op == 'be' and x.a[1] == 4:
            v = nowrap(x.a[0])
            c, p = key(v)
            return ('number', c, p) if c else ('wrong', x, None) if known(v) else ('other', x, None)
        if x.op in ('le', 'be'): return 'wrong', x, None
        pad = x
        while pad.op in ('push', 'resize') and pad.a[-1] is ZERO and (pad.op == 'push' or not_before(st, pad.a[1], length(pad.a[0]))) or pad.op == 'phi' and loop_of(st, pad) is not None and all(v[pad].op == 'push' and v[pad].a == (pad, ZERO) for _, v in loop_of(st, pad).backs):
            pad = loop_of(st, pad).phis[pad][1] if pad.op == 'phi' else pad.a[0]
        if pad.op == 'cat' and pad.a[1].op in ('bytes', 'arr', 'vec') and all(part(st, pad.a[1], INT(i)) is ZERO for i in range(length(pad.a[1]).a[0] if length(pad.a[1]).op == 'int' else 0)): pad = pad.a[0]
        if pad.op == 'encoded':
            t = named(st, pad.a[0])
            if t.op == 'fld' and t.a[0].op in ('mget', 'valat'):
                c, p = (key(t.a[0].a[1]) if t.a[0].op == 'mget' else (coll(t.a[0].a[0]), t.a[0].a[1]))
                if c and nm.get(c) == t.a[1]: return 'name', c, p
            return 'text', t, None
        n = length(x)
        if n.op == 'int' and 0 < n.a[0] < 64:
            last = part(st, x, INT(n.a[0] - 1))
            if last is not None:
                v = last.a[0] if last.op in ('rem', 'wrap') and len(last.a) > 1 and last.a[1] in (INT(256), 256) else last
                c, p = key(v)
                if c: return 'byte', c, p
                if v.op == 'len' and coll(v.a[0]): return 'count1', coll(v.a[0]), None
        return 'other', x, None
    def known(v): return all(y.op != 'call' for y in subterms(v)) and any(key(y)[0] or coll(y) for y in subterms(v))
    def emitted(events, loops, out):
        for e in events:
            if e.kind == 'emit': out.append((e, loops))
            elif e.kind == 'loop':
                for b, v in e.data.backs: emitted(b.events[e.data.nev:], loops + [(e.data, b)], out)
        return out
    WANT = {'tables': ('the name', 'the number', 'the directory'), 'table_occurrences': ('the name', 'the number')}
    for st, r in W.outs:
        me = st.val(st.read((mk('sym', 'self.ptr'), ()))); B = st.val(fld(me, A.bi))
        ems = emitted(st.events, [], []); unknown = []
        byloop = {}; top = []
        for e, loops in ems:
            if not loops: top.append(e); continue
            L, b = loops[-1]; ex = exhaustion(L); src = None
            if ex and ex[1].op == 'len': src = coll(ex[1].a[0])
            if src is None:
                c = {key(y)[0] for a in e.args for y in subterms(b.val(a))} - {None}
                if len(c) == 1: src = c.pop()
                ex = ex or (NOWHERE, NOWHERE)
            if src is None: unknown.append((e, L)); continue
            byloop.setdefault((src, L.lid), []).append((e, L, b, ex, loops))
        got = {}
        for (src, lid), group in byloop.items():
            L = group[0][1]; ex = group[0][3]; Wh = f'{group[0][0].span} {group[0][0].fn}'
            if src not in WANT: continue
            rounds = []
            for b, v in L.backs:
                k = {w: [] for w in ('the name', 'the number', 'the directory', 'odd')}
                for e, L2, b2, _, _ in group:
                    if b2 is not b: continue
                    info = [carried(b, a) for a in e.args]; kinds = [i[0] for i in info]
                    info = [('wrong', i[1], None) if i[0] == 'other' and i[1].op == 'put' and not any(y.op == 'call' or y.op == 'phi' and y is not ex[0] for y in subterms(i[1])) else i for i in info]; kinds = [i[0] for i in info]
                    mine = [i for i in info if i[1] is src and here(i[2], ex)]
                    eff = e.data[2]
                    if eff > 0 and e.args:
                        d = nowrap(b.val(e.args[-1])); q = sub(d, INT(128))
                        if any(key(y)[0] == src for y in subterms(d)): k['the directory'].append((e, key(q)[0] == src and here(key(q)[1], ex), d))
                        else: k['odd'].append((e, None, None))
                    elif 'name' in kinds or 'text' in kinds:
                        ok = any(i[0] == 'name' for i in mine) and 'text' not in kinds
                        if ok and len(info) > 1: ok = any(i[0] in ('byte', 'number') for i in mine)
                        k['the name'].append((e, ok, None))
                    elif any(i in ('number', 'byte', 'wrong') for i in kinds): k['the number'].append((e, all(i in mine for i in info), None))
                    elif e.args: k['odd'].append((e, None, None))
                rounds.append((b, k))
            for w in WANT[src]:
                if not any(k[w] for _, k in rounds): continue
                got.setdefault((src, w), []).append(lid)
                for b, k in rounds:
                    rep.ob(len(k[w]) >= 1, f'{w} of every entry is written', Wh, f'{w} of an entry of {src} is not written when {facts_str(b.facts[L.nf:])}', f'{src}.{w}.skipped')
                    for e, ok, _ in k[w]:
                        if not ok and not any(altered(a) for a in e.args) and any(x.op in ('phi', 'call', 'opaque') and x is not ex[0] and not any(y.op == 'keyat' and contains(y.a[1], x) for y in subterms(a)) for a in e.args for x in subterms(a)): raise Limit(f'what is written for {w} at {e.span} is unknown: {", ".join(short(a) for a in e.args)}')
                        rep.ob(ok, f'{w} written is the one of the entry', f'{e.span} {e.fn}', f'what is written for an entry of {src}: {", ".join(short(a) for a in e.args)}', f'{src}.{w}.wrong')
                rep.ob(exits_only_exhausted(L, ex[0]) and ex[1].op == 'len' and coll(ex[1].a[0]) == src, f'{w} of every entry is written', Wh, f'the loop over {src} can end before its last entry', f'{src}.{w}.early')
            if any(k['odd'] for _, k in rounds): unknown += [(k['odd'][0][0], L) for _, k in rounds if k['odd']]
            rep.count('loops', 1)
        for src, ws in WANT.items():
            for w in ws:
                if (src, w) in got: continue
                if unknown: raise Limit(f'no record with {w} of the {src} was found; what is written at {unknown[0][0].span} is unknown')
                rep.ob(False, f'{w} of every entry is written', sp, f'no record carries {w} of the entries of {src}', f'{src}.{w}.none')
        for src, form in (('tables', 'count'), ('layouts', 'count1'), ('scripts', 'count1')):
            hit = [e for e in top if any(carried(st, a)[:2] == (form, src) or carried(st, a)[0] in ('count', 'count1') and carried(st, a)[1] == src for a in e.args)]
            near = [e for e in top if any(contains_coll(a, src, coll) for a in e.args)]
            if not hit and not near and any(x.op in ('phi', 'call', 'opaque') for e in top for x in e.args): 
                raise Limit(f'the record with the number of {src} was not found')
            rep.ob(len(hit) >= 1, 'the number of entries is written', f'{near[0].span} {near[0].fn}' if near else sp, f'the number of {src} is written as {", ".join(short(a) for a in near[0].args)}' if near else f'no record carries the number of {src}', f'count.{src}')
        # the name in the header
        x, hits = B, []
        while True:
            if x.op in ('splice', 'setslice'):
                if any(y.op == 'fld' and y.a[1] == C['name'] and y.a[0].op in ('deref', 'sym') for y in subterms(x.a[3])): hits.append(x)
                x = x.a[0]
            elif x.op in ('set', 'written', 'resize', 'cat', 'push'): x = x.a[0]
            elif x in W.bufs: x = W.bufs[x][0]
            else: break
        if not hits: raise Limit('the name of the file is not written in a way that is understood')
        rep.ob(len(hits) == 1 and W.norm(hits[0].a[1]) is INT(3082), 'the header names the file', sp, f'the name is written at {short(W.norm(hits[0].a[1]))}', 'header.place')
        t = hits[0].a[3]
        ps = []
        while t.op == 'cat': ps.append(t.a[1]); t = t.a[0]
        ps.append(t); ps.reverse()
        if any(x.op not in ('str', 'fld') and not altered(x) for x in ps): raise Limit(f'the name in the header is {short(hits[0].a[3])}')
        rep.ob(ps[0].op == 'fld' and ps[0].a[1] == C['name'], 'the header names the file', sp, f'the header says {short(hits[0].a[3])}', 'header.name')
        rep.notes = ['what encode_text and put_int do with an argument is C07; what a record emitter writes is C03']
CHECKS['C14'] = c14
INFO['C14'] = 'the assembler is analysed with its record emitters, encode_text and put_int as single steps; every loop over tables or table occurrences that writes records must run over all entries and write, in every iteration, the entry it is at.'
def contains_coll(t, src, coll): return any(coll(x) == src for x in subterms(t))

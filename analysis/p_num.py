"""C15: numbers of the file format are read and written with their value."""
from lib import *
CHECKS, INFO = {}, {}
GETP, PUTP, GET, PUT = (f'encoding_util::{x}' for x in ('get_path_int', 'put_path_int', 'get_int', 'put_int'))

# values: int, list (a sequence) or Lin: a constant plus multiples of unknown bytes
class Lin:
    def __init__(s, c, parts): s.c, s.p = c, parts
    def lo(s): return s.c + sum(k * (LOW.get(x, 0) if k > 0 else 255) for x, k in s.p.items())
    def hi(s): return s.c + sum(k * (255 if k > 0 else LOW.get(x, 0)) for x, k in s.p.items())
    def __repr__(s): return ' + '.join([f'{k}*{x}' if k != 1 else str(x) for x, k in s.p.items()] + ([str(s.c)] if s.c or not s.p else []))
LOW = {}
def lin_of(c, p):
    p = {x: k for x, k in p.items() if k}
    return Lin(c, p) if p else c
def plus(a, b, k=1):
    if a is None or b is None or isinstance(a, list) or isinstance(b, list): return None
    c, p = (a.c, dict(a.p)) if isinstance(a, Lin) else (a, {})
    d, q = (b.c, b.p) if isinstance(b, Lin) else (b, {})
    for x, v in q.items(): p[x] = p.get(x, 0) + k * v
    return lin_of(c + k * d, p)
def same(a, b):
    d = plus(a, b, -1)
    return d == 0 if isinstance(d, int) else None if d is None else False if not d.lo() <= 0 <= d.hi() or d.p else None
def lo(v): return v.lo() if isinstance(v, Lin) else v
def hi(v): return v.hi() if isinstance(v, Lin) else v
def div(v, k):
    if isinstance(v, int): return v // k if k and v >= 0 else None
    out = {x: c for x, c in v.p.items() if c % k == 0}; rest = lin_of(v.c % k, {x: c for x, c in v.p.items() if c % k})
    if lo(v) < 0 or lo(rest) < 0 or hi(rest) >= k: return None
    return lin_of(v.c // k, {x: c // k for x, c in out.items()})
def rem(v, k):
    q = div(v, k)
    return None if q is None else plus(v, q, -k)
def bits(f, a, b):
    if isinstance(a, int) and isinstance(b, int): return {'bitand': a & b, 'bitor': a | b, 'bitxor': a ^ b}[f]
    if isinstance(a, int): a, b = b, a
    if f == 'bitand':
        if not isinstance(b, int) or b < 0: return None
        l = (b & -b).bit_length() - 1 if b else 0
        if b == 0: return 0
        m = b >> l
        if m & (m + 1): return None
        q = div(a, 1 << l); r = rem(q, m + 1) if q is not None else None
        return None if r is None else plus(0, r, 1 << l)
    for x, y in ((a, b), (b, a)):      # no bit in common: a sum
        cs = [c for c in list(x.p.values()) + [x.c] if c] if isinstance(x, Lin) else [x]
        if not cs: return y
        t = min((c & -c) for c in cs)
        if lo(x) >= 0 and lo(y) >= 0 and hi(y) < t: return plus(x, y)
    return None
def ev(t, env):
    if t in env: return env[t]
    o, a = t.op, t.a
    if o == 'int': return a[0]
    if o == 'lin':
        r = a[0]
        for x, k in a[1]: r = plus(r, ev(x, env), k)
        return r
    if o in ('div', 'rem', 'mod', 'shr', 'shl', 'mul'):
        x, k = ev(a[0], env), ev(a[1], env)
        if o == 'mul' and isinstance(x, int): x, k = k, x
        if x is None or isinstance(x, list) or not isinstance(k, int) or k < 0: return None
        if o == 'shr': return div(x, 1 << k)
        if o == 'shl': return plus(0, x, 1 << k)
        if o == 'mul': return plus(0, x, k)
        return div(x, k) if o == 'div' else rem(x, k)
    if o in ('bitand', 'bitor', 'bitxor'):
        x, y = ev(a[0], env), ev(a[1], env)
        return None if x is None or y is None or isinstance(x, list) or isinstance(y, list) else bits(o, x, y)
    if o == 'elem':
        s, i = ev(a[0], env), ev(a[1], env)
        return s[i] if isinstance(s, list) and isinstance(i, int) and 0 <= i < len(s) else None
    if o == 'len':
        s = ev(a[0], env); return len(s) if isinstance(s, list) else None
    if o in ('eq', 'lt', 'le', 'not', 'and', 'or', 'bool'): 
        r = holds(t, env); return None if r is None else int(r)
    # sequences
    if o == 'vec':
        r = [x if isinstance(x, int) else ev(x, env) for x in a]; return None if None in r else r
    if o == 'bytes': return list(a[0]) if isinstance(a[0], tuple) else None
    if o in ('deref', 'ref', 'clone', 'owned', 'tovec'): return ev(a[0], env)
    if o in ('be', 'le'):
        x = ev(a[0], env); r = []
        if x is None or isinstance(x, list): return None
        for _ in range(a[1]):
            r.append(rem(x, 256)); x = div(x, 256)
            if r[-1] is None or x is None: return None
        return r[::-1] if o == 'be' else r
    if o == 'set':
        s, i, v = ev(a[0], env), ev(a[1], env), ev(a[2], env)
        if not isinstance(s, list) or not isinstance(i, int) or v is None or not 0 <= i < len(s): return None
        return s[:i] + [v] + s[i + 1:]
    if o == 'push':
        s, v = ev(a[0], env), ev(a[1], env)
        return s + [v] if isinstance(s, list) and v is not None else None
    if o == 'cat':
        s, v = ev(a[0], env), ev(a[1], env)
        return s + v if isinstance(s, list) and isinstance(v, list) else None
    if o == 'slice':
        s, i, j = ev(a[0], env), ev(a[1], env), ev(a[2], env)
        return s[i:j] if isinstance(s, list) and isinstance(i, int) and isinstance(j, int) and 0 <= i <= j <= len(s) else None
    if o == 'rev':
        s = ev(a[0], env); return s[::-1] if isinstance(s, list) else None
    if o == 'seqmap':
        n = ev(a[0], env)
        if not isinstance(n, int): return None
        r = [ev(a[2], {**env, a[1]: i}) for i in range(n)]; return None if None in r else r
    if o == 'call' and a[0] in env.get('calls', {}):
        x = ev(a[1], env); f = env['calls'][a[0]]
        return f(x) if isinstance(x, list) else None
    return None
def holds(f, env):
    if f.op == 'not': r = holds(f.a[0], env); return None if r is None else not r
    if f.op in ('eq', 'lt', 'le'):
        x, y = ev(f.a[0], env), ev(f.a[1], env)
        if isinstance(x, list) or isinstance(y, list): return None
        if f.op == 'eq': return None if x is None or y is None else same(x, y)
        d = plus(x, y, -1)
        if d is None: return None
        if f.op == 'lt': return True if hi(d) < 0 else False if lo(d) >= 0 else None
        return True if hi(d) <= 0 else False if lo(d) > 0 else None
    return None
def about(f, env): return any(x in env for x in subterms(f))
def all_hold(facts, env):
    """True, False, or None when it cannot be told"""
    r = True
    for f, t in facts:
        if not about(f, env): continue
        h = holds(f, env)
        if h is None: r = None
        elif h != t: return False
    return r
class Stops(Exception): pass
def stops(s, env): return bool(s.facts) and about(s.facts[-1][0], env) and all_hold(s.facts, env) is True
def simulate(E, outs, env, what):
    """the result of the function on one class of inputs, the bytes of which stay unknown"""
    env = dict(env)
    for s in E.panics:
        if not any(contains(f, ph) for L in E.looprecs for ph in L.phis for f, _ in s.facts) and stops(s, env): raise Stops('it stops: ' + facts_str(s.facts, 3))
    for L in E.looprecs:
        for ph, (pl, i) in L.phis.items():
            env[ph] = ev(i, env)
            if env[ph] is None and any(contains(v[ph2], ph) for _, v in L.backs for ph2 in v if ph2 is not ph): raise Limit(f'{what}: the loop begins with {short(i)}')
        mine = [s for s in E.panics if any(contains(f, ph) for ph in L.phis for f, _ in s.facts)]
        for step in range(40):
            if any(stops(s, env) for s in mine): raise Stops('it stops: ' + '; '.join(facts_str(s.facts[-2:], 2) for s in mine if stops(s, env))[:200])
            bs = [(all_hold(b.facts[L.nf:], env), v) for b, v in L.backs]; xs = [all_hold(x.facts[L.nf:], env) for x in L.exits]
            if None in xs or any(h is None for h, _ in bs) or sum(h is True for h, _ in bs) + any(xs) != 1: raise Limit(f'{what}: the steps of the loop are not understood')
            if any(xs): break
            v = next(v for h, v in bs if h); new = {ph: ev(v[ph], env) for ph in L.phis}
            if None in new.values(): raise Limit(f'{what}: {[short(v[p]) for p in new if new[p] is None]} is not understood')
            env.update(new)
        else: raise Stops('it does not come to an end')
    r = [(all_hold(s.facts, env), s.val(x)) for s, x in outs]
    if any(h is None for h, _ in r) or sum(h is True for h, _ in r) != 1: raise Limit(f'{what}: the paths cannot be told apart')
    return ev(next(x for h, x in r if h), env)
def c15(F, rep, tier):
    for x in (GETP, PUTP, GET, PUT):
        if x not in F.fns: raise Limit(f'{x} is gone')
    big = lambda bs: plus_all([plus(0, b, 256 ** (len(bs) - 1 - i)) for i, b in enumerate(bs)])
    two = lambda bs: bs[0] if len(bs) == 1 else plus(128, bs[1])
    n = 0
    for fn, lens, spec, text in ((GET, (1, 2, 4), big, 'a number of 1, 2 or 4 bytes is read high byte first'), (GETP, (1, 2), two, 'a path number is its byte, or 128 plus its second byte')):
        W = f'{F.fns[fn].span} {fn}'; E, outs = run(F, rep, fn); rep.engine(E, outs)
        src = source(E, outs)
        for k in lens:
            def at(bs):
                env = {src: bs, 'calls': {fn: lambda x: spec(x) if len(x) < k and len(x) in lens else None}}
                for i, b in enumerate(bs): env[elem(src, INT(i))] = b
                return simulate(E, outs, env, fn)
            n += 1; bs = [Lin(0, {f'b{i}': 1}) for i in range(k)]; LOW.clear()
            want = spec(bs)
            try:
                try: got = at(bs)
                except Limit: got = None
                ok = got is not None and same(got, want)
                if got is not None and not isinstance(got, list) and ok is not None:
                    rep.ob(ok is True, text, W, f'{k} bytes are read as {got} instead of {want}', f'{fn}.{k}'); continue
                if got is not None and repr(got) == repr(want): rep.ob(True, text, W, '', f'{fn}.{k}'); continue
                import itertools
                vals = range(256) if k <= 2 else (0, 1, 2, 127, 128, 129, 254, 255)
                bad = None
                for c in itertools.product(vals, repeat=k):
                    g = at(list(c))
                    if g is None or isinstance(g, (list, Lin)): raise Limit(f'{fn}: what {k} bytes are read as is not understood')
                    if g != spec(list(c)): bad = (c, g); break
                if bad is None and k > 2: raise Limit(f'{fn}: what {k} bytes are read as is not understood')
                rep.ob(bad is None, text, W, f'the bytes {bad and bad[0]} are read as {bad and bad[1]}', f'{fn}.{k}')
            except Stops as e: rep.ob(False, text, W, f'{k} bytes: {e}', f'{fn}.{k}')
    # four bytes
    W = f'{F.fns[PUT].span} {PUT}'; E, outs = run(F, rep, PUT); rep.engine(E, outs); p = source(E, outs); text = 'a number is written in four bytes, high byte first'
    for k in range(5):
        n += 1; LOW.clear()
        ds = [Lin(0, {f'd{i}': 1}) for i in range(k)]
        if k: LOW[f'd{k - 1}'] = 1
        v = plus_all([plus(0, d, 256 ** i) for i, d in enumerate(ds)]); want = [0] * (4 - k) + ds[::-1]
        try: got = simulate(E, outs, {p: v}, PUT)
        except Stops as e: rep.ob(False, text, W, f'numbers of {k} bytes: {e}', f'{PUT}.{k}'); continue
        if not isinstance(got, list): raise Limit(f'{PUT}: what is written for a number of {k} bytes is not understood')
        rep.ob(len(got) == 4 and all(repr(x) == repr(y) for x, y in zip(got, want)), text, W, f'a number of {k} bytes {v} is written as {got}', f'{PUT}.{k}')
    # path numbers
    W = f'{F.fns[PUTP].span} {PUTP}'; E, outs = run(F, rep, PUTP); rep.engine(E, outs); p = source(E, outs); text = 'a path number is written so that reading gives it back'; LOW.clear()
    for k in range(384):
        try: got = simulate(E, outs, {p: k}, PUTP)
        except Stops as e: rep.ob(False, text, W, f'{k}: {e}', f'{PUTP}.{k}'); break
        if not isinstance(got, list) or any(not isinstance(x, int) for x in got): raise Limit(f'{PUTP}: what is written for {k} is not understood')
        n += 1; want = [k] if k < 128 else [252, k - 128]
        rep.ob(got == want, text, W, f'{k} is written as {got}, which is read as something else or is not the marker 252 and the rest', f'{PUTP}')
        if got != want: break
    rep.count('classes_of_numbers', n)
def plus_all(xs):
    r = 0
    for x in xs: r = plus(r, x)
    return r
def source(E, outs):
    """the term of the parameter"""
    c = set()
    for s, r in outs:
        for t in [f for f, _ in s.facts] + [s.val(r)] + [i for L in E.looprecs for _, i in L.phis.values()]:
            c |= {x for x in subterms(t) if x.op in ('sym', 'param', 'arg') and len(x.a) == 1 and isinstance(x.a[0], str) and x.a[0].isidentifier()}
    if len(c) != 1: raise Limit(f'the parameter cannot be identified among {[short(x) for x in c]}')
    return next(iter(c))
CHECKS['C15'] = c15
INFO['C15'] = 'the four functions that read and write numbers, evaluated over sums of multiples of unknown bytes for every length of input (path numbers: for every number below 384): the term each path computes, every step of a loop, and every way to stop'

"""C07: text obfuscation and the two-byte character set."""
from lib import *
CHECKS, INFO = {}, {}
ENC, DEC = 'encoding_util::fm_string_encrypt', 'encoding_util::fm_string_decrypt'
ENCC, DECC, ENCT, DECT = (f'dbcharconv::{x}' for x in ('encode_char', 'decode_char', 'encode_text', 'decode_bytes'))

def cev(t, env, bits=8):
    """value of an integer term under an assignment of its leaves, or None"""
    if t in env: return env[t]
    if t.op == 'int': return t.a[0]
    if t.op == 'lin':
        r = t.a[0]
        for x, k in t.a[1]:
            v = cev(x, env)
            if v is None: return None
            r += k * v
        return r
    f = {'bitxor': lambda a, b: a ^ b, 'bitand': lambda a, b: a & b, 'bitor': lambda a, b: a | b, 'mod': lambda a, b: a % b if b else None, 'rem': lambda a, b: a % b if b else None,
         'div': lambda a, b: a // b if b else None, 'shl': lambda a, b: a << b, 'shr': lambda a, b: a >> b, 'mul': lambda a, b: a * b}.get(t.op)
    if f and len(t.a) == 2:
        x, y = cev(t.a[0], env), cev(t.a[1], env)
        return None if x is None or y is None else f(x, y)
    if t.op in ('trunc', 'cast', 'wrap') and isinstance(t.a[-1], T):
        v = cev(t.a[-1], env); return None if v is None else v & 255 if 'u8' in str(t.a[0]) else v
    if t.op == 'bitnot' or t.op == 'inv':
        x = cev(t.a[0], env); return None if x is None else x ^ 255
    return None
def bytewise(t, src_ok):
    """(source, table of 256 results) when t is the sequence of g(source[i]) for every i"""
    if t.op != 'seqmap': return None
    n, p, g = t.a
    xs = [x for x in subterms(g) if x.op == 'elem' and x.a[1] is p and src_ok(x.a[0])]
    if len(set(xs)) != 1 or length(xs[0].a[0]) is not n: return None
    tab = [cev(g, {xs[0]: b}) for b in range(256)]
    return (xs[0].a[0], tab) if None not in tab else None
def loopwise(L, ph, src_ok):
    """(source, table of 256 lists of bytes) for a loop that appends to ph, per source byte, what depends on this byte only; or a string: what is wrong"""
    ind = L.induction(); vals0 = [(s, v[ph]) for s, v in L.backs]; xs = set()
    for s, v in vals0:
        for t in [f for f, _ in s.facts[L.nf:]] + [v]:
            xs |= {x for x in subterms(t) if x.op == 'elem' and x.a[1] in ind and (src_ok(x.a[0]) or x.a[0].op == 'chars' and src_ok(x.a[0].a[0]))}
    if len(xs) != 1: return None
    x = xs.pop(); p = x.a[1]
    if ind[p][0] is not ZERO or ind[p][1] != 1: return None
    if not all(any(not t and f.op == 'lt' and f.a[0] is p and f.a[1] is length(x.a[0]) for f, t in e.facts[L.nf:]) for e in L.exits): return 'the loop can end before the last byte'
    tab = []
    for b in range(256):
        if b >= 128 and x.a[0].op == 'chars': return 'a character of several bytes is written as one'
        got = None
        for s, v in vals0:
            ok = True
            for f, t in s.facts[L.nf:]:
                if f.op == 'lt' and f.a[0] is p: continue
                w = fold(replace(f, {x: INT(b) if x.a[0].op != 'chars' else CHAR(b)}))
                if w is BOOL(not t): ok = False; break
                if w is not BOOL(t): return None
            if not ok: continue
            if got is not None: return None
            got = []
            while v is not ph and v.op == 'push': got.insert(0, cev(v.a[1], {x: b})); v = v.a[0]
            if v is not ph or None in got: return None
        if got is None: return None
        if len(got) != 1: return f'byte {b:#x} is turned into {len(got)} bytes'
        tab.append(got[0])
    return x.a[0], tab
def pairs(t):
    """chunks of k bytes written as positions in the whole"""
    m = {}
    for x in subterms(t):
        if x.op == 'elem' and x.a[0].op == 'elem' and x.a[0].a[0].op in ('chunks', 'chunks_exact') and x.a[0].a[0].a[1].op == 'int':
            c = x.a[0].a[0]; m[x] = elem(c.a[0], add(mul(x.a[0].a[1], c.a[1]), x.a[1]))
    return replace(t, m) if m else t

def pieces(E, outs, F, path):
    """ordered [(facts, result)] of a lookup function; a search through a constant table is spread over its entries"""
    hit, miss = [], []
    for s, r in outs:
        ph = {f.a[0] for f, t in s.facts if t and f.op == 'lt' and f.a[0].op == 'phi' and f.a[1].op == 'int'}
        ph = {p for p in ph if any(contains(f, p) for f, t in s.facts) or contains(r, p)}
        if any(not t and f.op == 'lt' and f.a[0].op == 'phi' for f, t in s.facts): miss.append((s.facts, s.val(r))); continue
        if not ph:
            if any(x.op == 'phi' for f, t in s.facts for x in subterms(f)) or any(x.op == 'phi' for x in subterms(s.val(r))): raise Limit(f'{path}: lookup of unknown form')
            hit.append((s.facts, s.val(r))); continue
        if len(ph) != 1: raise Limit(f'{path}: lookup of unknown form')
        p = ph.pop(); n = min(f.a[1].a[0] for f, t in s.facts if t and f.op == 'lt' and f.a[0] is p)
        if n > 4096: raise Limit(f'{path}: table of {n} entries')
        for i in range(n):
            hit.append(([(replace(f, {p: INT(i)}), t) for f, t in s.facts], replace(s.val(r), {p: INT(i)})))
    return hit, miss
def apply(pc, env):
    """the results a lookup can have for constant arguments"""
    hit, miss = pc; res = []
    for group in (hit, miss):
        for facts, r in group:
            ok = True
            for f, t in facts:
                if any(x.op == 'phi' for x in subterms(f)): continue
                v = fold(replace(f, env))
                if v is BOOL(not t): ok = False; break
                if v is not BOOL(t): ok = None
            if ok is not False: res.append((ok, fold(replace(r, env))))
        if any(ok for ok, r in res): break
    return res
def fold(t):
    """constant folding of the character functions a lookup may use"""
    m = {}
    for x in subterms(t):
        if x.op == 'call' and isinstance(x.a[0], str) and x.a[0].split('::')[-1] in ('to_ascii_lowercase', 'to_ascii_uppercase') and len(x.a) == 2 and x.a[1].op in ('char', 'int'):
            c = x.a[1]; v = c.a[0] if c.op == 'int' else ord(c.a[0]) if isinstance(c.a[0], str) else c.a[0]
            lo = x.a[0].endswith('lowercase')
            if lo and 65 <= v <= 90: v += 32
            if not lo and 97 <= v <= 122: v -= 32
            m[x] = CHAR(v) if c.op == 'char' else INT(v)
    return replace(t, m) if m else t
def one(res):
    """the result if it is certain"""
    rs = {r for ok, r in res}
    return rs.pop() if len(rs) == 1 and any(ok for ok, r in res) else None
CHARS = '\0 _abcdefghijklmnopqrstuvwxyz'

def c07(F, rep, tier):
    # (1) the obfuscation
    E, outs = run(F, rep, ENC); W = f'{F.fns[ENC].span} {ENC}'
    tab = {}
    for fn, E, outs in ((ENC, E, outs), (DEC, *run(F, rep, DEC))):
        W = f'{F.fns[fn].span} {fn}'; cands = set()
        for s, r in outs:
            for x in subterms(s.val(r)):
                if x.op == 'seqmap': cands.add(x)
            for e in s.events:
                for a in e.args or ():
                    if isinstance(a, T): cands |= {x for x in subterms(s.val(a)) if x.op == 'seqmap'}
        arg = {'text', 'bytes'} | {n for n in F.fns[fn].names.values()}
        src_ok = lambda v: all(x.a[0] in arg for x in subterms(v) if x.op == 'sym') and v.op in ('sym', 'bytes', 'call', 'deref', 'utf8')
        bw = {c: bytewise(c, src_ok) for c in cands}; bw = {c: b for c, b in bw.items() if b}
        if not bw:
            for L in E.looprecs:
                for ph, (pl, init) in L.phis.items():
                    if init.op == 'vec' and not init.a and any(v[ph] is not ph for _, v in L.backs):
                        w = loopwise(L, ph, src_ok)
                        if isinstance(w, str): rep.ob(False, 'every byte of the text is transformed, nothing else', W, w, 'obf.bytes'); return
                        if w: bw[ph] = w
        if len(bw) != 1: raise Limit(f'{fn}: the byte-by-byte transformation cannot be identified')
        (sm, (src, t)), = bw.items(); tab[fn] = t
        for s, r in outs:
            v = s.val(r)
            if fn == ENC: rep.ob(v is sm, 'every byte of the text is transformed, nothing else', W, f'the result is {short(v)}', 'obf.encrypt.result')
            elif contains(v, sm): rep.ob(peeled(v, sm), 'every byte is transformed back, nothing else', W, f'the result is {short(v)}', 'obf.decrypt.result')
            else:
                bad = any(t_ and f.op == 'eq' and f.a[0].op == 'discr' and 'from_utf8' in str(f.a[0].a[0].a[0]) for f, t_ in s.facts) or any('from_utf8' in pp(f, 4) for f, t_ in s.facts)
                rep.ob(bad, 'every byte is transformed back', W, f'a text that is valid after the transformation is read as {short(v)}', 'obf.decrypt.other')
    for b in range(256):
        x = tab[ENC][b]
        rep.ob(0 <= x < 256 and tab[DEC][x] == b and tab[ENC][x] == b, 'both directions apply the same self-inverse transformation', f'{F.fns[DEC].span} {DEC}', f'byte {b:#x} is written as {x:#x} and read back as {tab[DEC][x] if 0 <= x < 256 else None:#x}', f'obf.byte')
    # (2) the character set
    Ee, oe = run(F, rep, ENCC); Ed, od = run(F, rep, DECC)
    pe, pd = pieces(Ee, oe, F, ENCC), pieces(Ed, od, F, DECC)
    ch = mk('sym', F.fns[ENCC].names.get(1, 'arg1')); hi, lo = (mk('sym', F.fns[DECC].names.get(i, f'arg{i}')) for i in (1, 2))
    We, Wd = f'{F.fns[ENCC].span} {ENCC}', f'{F.fns[DECC].span} {DECC}'
    seen = {}
    for c in CHARS:
        r = apply(pe, {ch: CHAR(ord(c))})
        # among several table entries the first one counts; they must agree
        code = one(r)
        ok = code is not None and code.op == 'tup' and len(code.a) == 2 and all(x.op == 'int' for x in code.a)
        if not ok and len({x for _, x in r}) > 1:
            rep.ob(False, 'every character has one code', We, f'{c!r} is encoded as any of {[short(x) for _, x in r]}', f'set.code.{ord(c)}'); continue
        if not ok: raise Limit(f'the code of {c!r} cannot be determined: {[short(x) for _, x in r]}')
        k = tuple(x.a[0] for x in code.a)
        rep.ob(k not in seen, 'codes are unique', We, f'{c!r} and {seen.get(k)!r} share the code {k}', f'set.unique.{ord(c)}'); seen[k] = c
        rep.ob(k != (0, 0) or c == '\0', 'every character of the set has a code', We, f'{c!r} has no code', f'set.has.{ord(c)}')
        back = apply(pd, {hi: code.a[0], lo: code.a[1]})
        rep.ob({x for _, x in back} == {CHAR(ord(c))} and any(o for o, _ in back), 'decoding a character\'s code yields the character', Wd, f'{c!r} has the code {k}, which is decoded as {[short(x) for _, x in back]}', f'set.inverse.{ord(c)}')
    for c in range(65, 91):
        r = one(apply(pe, {ch: CHAR(c)})); l = one(apply(pe, {ch: CHAR(c + 32)}))
        if r is None or l is None: raise Limit(f'the code of {chr(c)!r} cannot be determined')
        rep.ob(r is l, 'an upper-case letter has the code of its lower-case letter', We, f'{chr(c)!r} is encoded as {short(r)}, {chr(c + 32)!r} as {short(l)}', f'set.upper.{c}')
    # (3) whole texts
    E, outs = run(F, rep, ENCT, opaque={ENCC}); W = f'{F.fns[ENCT].span} {ENCT}'; n = 0
    for L in E.looprecs:
        for s, vals in L.backs:
            for ph, (pl, init) in L.phis.items():
                if init.op not in ('vec', 'bytes', 'str') or not any(contains(s_.val(r), ph) for s_, r in outs): continue
                if vals[ph] is ph:
                    if any(w[ph] is not ph for _, w in L.backs): rep.ob(False, 'every character of the text is encoded', W, f'a character is left out when {facts_str(s.facts[L.nf:])}', 'text.encode.skip')
                    continue
                got = []; v = vals[ph]
                while v is not ph and v.op in ('push', 'cat'):
                    got[:0] = [v.a[1]] if v.op == 'push' else list(v.a[1].a) if v.a[1].op == 'vec' else [v.a[1]]; v = v.a[0]
                if v is not ph: raise Limit('the encoded text is not built in order')
                calls = {x for g in got for x in subterms(g) if x.op == 'call' and x.a[0] == ENCC}
                if len(calls) != 1: raise Limit('encode_text does not use encode_char once per character')
                c = calls.pop(); n += 1
                rep.ob(len(got) == 2 and got[0] is fld(c, 0) and got[1] is fld(c, 1), 'each character contributes its two code bytes in order', W, f'a character contributes {[short(g) for g in got]}', 'text.encode.order')
                a = c.a[1]; ix = a.a[1] if a.op == 'elem' else None
                ind = L.induction()
                rep.ob(a.op == 'elem' and ix in ind and ind[ix][0] is ZERO and ind[ix][1] == 1 and init.a in ((), (b'',), ('',)), 'every character of the text is encoded, in order', W, f'the characters encoded are {short(a)}', 'text.encode.chars')
                rep.ob(all(any(not t and f.op == 'lt' and f.a[0] is ix for f, t in x.facts[L.nf:]) for x in L.exits), 'the whole text is encoded', W, 'encoding can stop early', 'text.encode.all')
                rep.ob(all(s_.val(r) is ph for s_, r in outs), 'the encoded text is returned unchanged', W, 'the result is not the encoded text', 'text.encode.result')
    for s, r in outs:      # collected in one go
        v = s.val(r)
        if v.op == 'seqmap': raise Limit('encode_text yields one value per character')
    if not n: raise Limit('encode_text is not built character by character')
    E, outs = run(F, rep, DECT, opaque={DECC}); W = f'{F.fns[DECT].span} {DECT}'; n = 0
    src = next((mk('sym', x) for i, x in F.fns[DECT].names.items() if i == 1), None)
    for L in E.looprecs:
        for s, vals in L.backs:
            for ph, (pl, init) in L.phis.items():
                v = vals[ph]
                if v is ph and any(x.op == 'call' and x.a[0] == DECC for _, w in L.backs for x in subterms(w[ph])): rep.ob(False, 'every code is decoded', W, f'a code is left out when {facts_str(s.facts[L.nf:])}', 'text.decode.skip')
                if v is ph or not any(x.op == 'call' and x.a[0] == DECC for x in subterms(v)): continue
                n += 1
                part = v.a[1] if v.op in ('cat', 'push') and v.a[0] is ph else None
                if part is not None and part.op == 'chstr': part = part.a[0]
                if part is None or part.op != 'call' or part.a[0] != DECC: raise Limit('the decoded text is not built character by character')
                x, y = pairs(part.a[1]), pairs(part.a[2])
                if x.op != 'elem' or y.op != 'elem' or x.a[0] is not src or y.a[0] is not src: raise Limit(f'decode_bytes reads its codes from {short(x)}, {short(y)}')
                rep.ob(sub(y.a[1], x.a[1]) is ONE, 'a code is two neighbouring bytes, high byte first', W, f'the code bytes are {short(x)} and {short(y)}', 'text.decode.order')
                ind = L.induction(); ix = next((p for p in ind if contains(x.a[1], p)), None)
                if ix is None: raise Limit('the position in the encoded text is not regular')
                first = replace(x.a[1], {ix: ind[ix][0]}); step = sub(replace(x.a[1], {ix: add(ix, INT(ind[ix][1]))}), x.a[1])
                rep.ob(first is ZERO and step is INT(2), 'every pair of bytes is decoded, in order', W, f'decoding starts at byte {short(first)} and moves by {short(step)}', 'text.decode.all')
                def done(e):
                    for f, t in e.facts[L.nf:]:
                        if t or f.op != 'lt' or not contains(f.a[0], ix): continue
                        if f.a[1].op == 'len' and f.a[1].a[0].op in ('chunks_exact', 'chunks') and f.a[1].a[0].a[0] is src and f.a[0] is ix: return True
                        if f.a[1] is length(src) and (sub(f.a[0], x.a[1]) in (ZERO, ONE)): return True
                        if f.a[1].op == 'div' and f.a[1].a[0] is length(src) and f.a[1].a[1] is INT(2) and sub(mul(f.a[0], INT(2)), x.a[1]) is ZERO: return True
                    return False
                rep.ob(all(done(e) for e in L.exits), 'the whole text is decoded', W, 'decoding can stop before the last code', 'text.decode.end')
                for s_, r in outs:
                    w = s_.val(r)
                    ok = w is ph or w.op == 'call' and w.a[0] == 'strip_suffixped' and w.a[1] is ph and w.a[2] in (STR('\0'), CHAR(0))
                    if not ok and not contains(w, ph): raise Limit('the result of decode_bytes is not the decoded text')
                    rep.ob(ok, 'the decoded text is returned, but for its terminating NUL', W, f'the result is {short(w)}', 'text.decode.result')
    if not n: raise Limit('decode_bytes does not decode character by character')
def peeled(v, sm):
    """v is the text made of sm (conversions that keep the content)"""
    while v is not sm:
        if v.op in ('fld', 'dc') : v = v.a[0]
        elif v.op == 'call' and isinstance(v.a[0], str) and v.a[0].split('::')[-1] in ('from_utf8', 'from_utf8_lossy', 'from_utf8_unchecked', 'into_owned', 'to_string') : v = v.a[-1]
        else: return False
    return True
CHECKS['C07'] = c07
INFO['C07'] = 'the byte transformation of both directions is extracted as a function of one byte and compared for all 256 bytes; the two character lookups are extracted as tables (a search through a constant table is spread over its entries) and composed for every character of the set; the loops over whole texts are checked per iteration.'

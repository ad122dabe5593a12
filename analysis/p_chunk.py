"""C02: extent of every chunk kind.  The decoder is analysed once per value of the opcode byte (256 partitions); on every
path the final offset, the key, the slices and the path effect are compared, as terms, with the format's table."""
from lib import *
CHECKS, INFO = {}, {}
CT = {'DataSimple': 0, 'RefSimple': 1, 'RefLong': 2, 'DataSegment': 3, 'PathPush': 4, 'PathPop': 5, 'Noop': 6}

def spec(b, at):
    """Alternatives for opcode byte b: list of dict(when=[(term, truth)], ...) or None (not a chunk).  at(i) is the byte at offset+i."""
    c = b; pops = 0
    if b & 0xC0 == 0xC0: c = b & 0x3F; pops = 1
    i2 = lambda i: add(mul(INT(256), at(i)), at(i + 1))       # two-byte length
    p2 = lambda i: add(INT(128), at(i + 1))                   # two-byte path number
    def d(ctype, end, data=None, ref=None, key=None, seg=None, push=None, pop=0, when=()):
        e = lambda x: x if isinstance(x, T) else INT(x)
        return dict(ctype=ctype, end=e(end), data=data and (e(data[0]), e(data[1])), ref=ref and (e(ref[0]), e(ref[1])), key=key, seg=seg, push=push,
                    pop=pop + pops, when=list(when))
    n = lambda k: add(INT(k), at(k - 1))                      # end of data whose length byte precedes position k
    if c == 0x00: return [d('DataSimple', 2, (1, 2))]
    if 0x01 <= c <= 0x05: l = 1 if c == 1 else 2 * (c - 1); return [d('RefSimple', 2 + l, (2, 2 + l), key=at(1))]
    if c == 0x06: return [d('RefSimple', n(3), (3, n(3)), key=at(1))]
    if c == 0x07: e = add(INT(4), i2(2)); return [d('DataSegment', e, (4, e), seg=at(1))]
    if c == 0x08: return [d('DataSimple', 3, (1, 3))]
    if 0x09 <= c <= 0x0D: l = 1 if c == 9 else 2 * (c - 9); return [d('RefSimple', 3 + l, (3, 3 + l), key=p2(1))]
    if c == 0x0E:
        q = eq(at(1), INT(0xFF))
        return [d('RefSimple', n(4), (4, n(4)), key=p2(1), when=[(q, False)]), d('DataSimple', 7, (1, 7), when=[(q, True)])]
    if c == 0x0F:
        q = eq(at(1), INT(0x80)); e = add(INT(5), i2(3))
        return [d('DataSegment', e, (5, e), seg=at(2), when=[(q, True)]), dict(err=True, when=[(q, False)])]
    if c == 0x10: return [d('DataSimple', 4, (1, 4))]
    if 0x11 <= c <= 0x15: l = 3 + (1 if c == 0x11 else 2 * (c - 0x11)); return [d('DataSimple', 1 + l, (1, 1 + l))]
    if c == 0x16: return [d('RefLong', n(5), (5, n(5)), ref=(1, 4))]
    if c == 0x17: e = add(INT(6), p2(4)); return [d('RefLong', e, (6, e), ref=(1, 4))]
    if c == 0x1B:
        q = eq(at(1), ZERO)
        return [d('RefSimple', 7, (3, 7), key=at(2), when=[(q, True)]), d('DataSimple', add(n(2), INT(4)), (2, n(2)), when=[(q, False)])]
    if c in (0x19, 0x1A, 0x1C, 0x1D): return [d('DataSimple', add(n(2), INT(1 if c == 0x19 else 2 * (c - 0x19))), (2, n(2)))]
    if c in (0x1E, 0x1F):
        r = n(2)                                              # end of the reference
        def x(i): return at(add(r, INT(i)))
        if c == 0x1E: e = add(add(r, INT(1)), x(0)); s = add(r, INT(1))
        else: e = add(add(r, INT(2)), add(mul(INT(256), x(0)), x(1))); s = add(r, INT(2))
        return [d('RefLong', e, (s, e), ref=(2, r))]
    if c == 0x20:
        q = eq(at(1), INT(0xFE))
        return [d('PathPush', 10, (2, 10), push=at(2), when=[(q, True)]), d('PathPush', 2, (1, 2), push=at(1), when=[(q, False)])]
    if c == 0x23: return [d('DataSimple', n(2), (2, n(2)))]
    if c == 0x28: return [d('PathPush', 3, (1, 3), push=p2(1))]
    if c == 0x30: return [d('PathPush', 4, (1, 4), push=True)]
    if c == 0x38: return [d('PathPush', n(2), (2, 4), push=p2(2))]
    if c in (0x3D, 0x40): return [d('PathPop', 1, pop=1)]
    if c == 0x80: return [d('Noop', 1)]
    return None

def args_of(F, fn):
    """positions of the input bytes, the offset and the directory path"""
    code = off = path = None
    for i in range(fn.nargs):
        s = F.tstr(fn.locals[i + 1])
        if 'usize' in s and '&mut' in s: off = i
        elif '[u8]' in s: code = i
        elif 'String' in s and '&mut' in s: path = i
    return code, off, path

def cpath(v, base):
    """(number of levels popped, pushed values, exact) relative to base; popping an empty path does nothing"""
    pushes = []
    while v.op == 'push': pushes.insert(0, v.a[1]); v = v.a[0]
    pops = 0
    while v.op == 'pop': pops += 1; v = v.a[0]
    return pops, pushes, v is base

def c02(F, rep, tier):
    fn = F.fns.get('chunk::get_chunk_from_code')
    if fn is None: raise Limit('chunk::get_chunk_from_code is gone')
    ci, oi, pi = args_of(F, fn)
    if None in (ci, oi, pi): raise Limit('the chunk decoder has an unexpected signature')
    CH = 'chunk::Chunk'; fi = lambda n: F.field(CH, n)
    vn = [v['name'] for v in F.adts['chunk::ChunkType']['variants']]
    rep.notes = ['arithmetic on usize offsets does not wrap', 'slicing outside the input panics and is set aside (statement N02)', 'three-byte directory numbers: only the extent and the single level pushed are checked']
    for b in range(256):
        box = {}
        def setup(st, args):
            r = args[ci].a[0]; box['code'] = st.mem[r]; box['off'] = st.rd(args[oi]); box['path'] = st.rd(args[pi])
            box['set'] = st.mem[r] = setelem(st.mem[r], box['off'], INT(b)); box['o'], box['p'] = args[oi], args[pi]
        E, outs = run(F, rep, fn.path, setup=setup)
        code, off, path0 = box['code'], box['off'], box['path']
        def at(i):
            x = elem(code, add(off, i if isinstance(i, T) else INT(i))); TYB[x] = (0, 255); return x
        alts = spec(b, at); W = f'{fn.span} {fn.path} [opcode {b:#04x}]'
        fix = lambda t: replace(t, {box['set']: code}) if isinstance(t, T) else t
        rep.count('opcode_partitions')
        seen = set()
        for st, ret in outs:
            K = lambda n: f'opcode-{b:#04x}-{n}'
            isok = st.decide(eq(discr(ret), ZERO))
            end = fix(st.rd(box['o'])); pv = fix(st.val(st.rd(box['p'])))
            if alts is None:
                rep.ob(isok is False, 'unknown opcode is rejected', W, f'{b:#04x} is not a chunk of the format but is decoded as {short(ret)}', K('unknown')); continue
            sel = [a for a in alts if all(st.decide(t) is not (not v) for t, v in a['when'])]
            # a path that does not distinguish alternatives has to satisfy each of them
            for a in sel:
                seen.add(alts.index(a))
                if a.get('err'):
                    rep.ob(isok is False, 'malformed chunk is rejected', W, f'decoded as {short(ret)}', K('err')); continue
                if not rep.ob(isok is True, 'chunk is decoded', W, 'a chunk of the format is rejected on the path ' + facts_str(st.facts), K('reject')): continue
                ck = fld(dc(ret, 0), 0); g = lambda n: st.val(fld(ck, fi(n)))
                same = lambda x, y: x is y or st.decide(eq(x, y)) is True or st.value(x) is st.value(y)
                ex = add(off, a['end'])
                rep.ob(same(end, ex), 'next chunk starts right after this one', W, f'offset becomes {short(end)}, the chunk ends at {short(ex)}', K('extent'))
                lo = st.bnd(sub(end, off))[0]
                rep.ob(lo is not None and lo >= 1, 'decoding moves forward', W, f'offset advances by {short(sub(end, off))}', K('progress'))
                t = g('ctype')
                rep.ob(t.op == 'adt' and vn[t.a[1]] == a['ctype'], 'chunk kind', W, f'kind is {short(t)}, expected {a["ctype"]}', K('kind'))
                for n, e in (('data', a['data']), ('ref_data', a['ref'])):
                    v = g(n)
                    if e is None: rep.ob(v is NONE, n + ' absent', W, f'{n} is {short(v)}', K(n)); continue
                    ok = v.op == 'adt' and v.a[1] == 1; s = fix(st.val(v.a[2])) if ok else None
                    if ok and s.op == 'slice' and s.a[0] is code:
                        hi = s.a[2] if s.a[2] is not None else length(code)
                        ok = same(s.a[1], add(off, e[0])) and same(hi, add(off, e[1]))
                    else: ok = False
                    rep.ob(ok, n + ' bytes', W, f'{n} is {short(s or v)}, expected bytes {short(add(off, e[0]))}..{short(add(off, e[1]))}', K(n))
                for n, e in (('ref_simple', a['key']), ('segment_idx', a['seg'])):
                    v = fix(g(n))
                    if e is None: rep.ob(v is NONE, n + ' absent', W, f'{n} is {short(v)}', K(n)); continue
                    ok = v.op == 'adt' and v.a[1] == 1 and same(v.a[2], e)
                    rep.ob(ok, n, W, f'{n} is {short(v)}, expected {short(e)}', K(n))
                for what, v in (('directory', pv), ('directory recorded in the chunk', fix(g('path')))):
                    pops, pushed, base = cpath(v, path0)
                    want = 1 if a['push'] is not None else 0; exp = a['pop']
                    # push then pop cancels
                    if want and exp: exp -= 1; want = 0
                    empty = st.decide(eq(length(path0), ZERO)) is True or st.decide(eq(length(v), ZERO)) is True
                    okp = base and len(pushed) == want and (pops == exp or (pops < exp and empty))
                    if okp and want and a['push'] is not True: okp = pushed[0].op == 'tostr' and same(fix(pushed[0].a[0]), a['push'])
                    rep.ob(okp, what + ' effect', W, f'{what} is {short(v)}; expected {exp} level(s) closed' + (f' and {short(a["push"]) if isinstance(a["push"], T) else "one"} opened' if want else ''), K('path'))
        if alts is not None:
            for k in range(len(alts)): rep.ob(k in seen, 'every form is decoded', W, f'no path decodes form {k} of opcode {b:#04x}', f'opcode-{b:#04x}-form')
CHECKS['C02'] = c02
INFO['C02'] = 'get_chunk_from_code is partitioned by the opcode byte (256 partitions); per path the final offset, kind, key, segment number, data and reference slices and directory effect are compared as affine terms over the input bytes with the format table.'

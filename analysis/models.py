"""Effects of the standard-library functions the code base (or a plausible rewrite of it) uses."""
from terms import *
from engine import *
MODELS = {}
def m(*paths):
    def w(f):
        for p in paths: MODELS[p] = f
        return f
    return w
def deco(prefixes, names):
    return [f'{p}::{n}' for p in prefixes for n in names]
VEC, SL, STRG, STRP = 'std::vec::Vec', 'core::slice', 'std::string::String', 'core::str'
VD = 'std::collections::VecDeque'
MAPS = ['std::collections::HashMap', 'std::collections::BTreeMap']
SETS = ['std::collections::HashSet', 'std::collections::BTreeSet']
MAP0 = mk('map0')
def has(mm, k):
    if mm is MAP0: return FALSE
    if mm.op in ('mset', 'sadd'):
        if mm.a[1] is k: return TRUE
        if isconst(mm.a[1]) and isconst(k): return has(mm.a[0], k)
    if mm.op == 'mdel':
        if mm.a[1] is k: return FALSE
        if isconst(mm.a[1]) and isconst(k): return has(mm.a[0], k)
    return mk('has', mm, k)
def split(st, cond):
    """[(state, True)], [(state, False)] for the feasible truth values of cond."""
    d = st.decide(cond)
    if d is not None:
        st.assume(cond, d)
        return [(st, d)]
    a, b = st.fork(), st
    r = []
    if a.assume(cond, True): r.append((a, True))
    if b.assume(cond, False): r.append((b, False))
    return r
def isv(v, d, k): return eq(discr(v), INT(discr_of(d, k)))
def optcases(st, v):
    """[(state, payload | None)]"""
    return [(s, fld(dc(v, 1), 0) if t else None) for s, t in split(st, isv(v, OPTION, 1))]
def rescases(st, v):
    """[(state, ok?, payload)]"""
    return [(s, t, fld(dc(v, 0), 0) if t else fld(dc(v, 1), 0)) for s, t in split(st, isv(v, RESULT, 0))]
def P(st, r): return st.deref(r)
def peel(st, r):
    """place of a container behind any number of references"""
    p = st.deref(r); v = st.read(p)
    while v.op == 'ref': p = v.a; v = st.read(p)
    return (p[0], p[1]), v

# --- identity-like ------------------------------------------------------------------------
@m('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut', 'std::borrow::Borrow::borrow',
   'std::borrow::BorrowMut::borrow_mut', VEC + '::as_slice', VEC + '::as_mut_slice', STRG + '::as_str', STRG + '::as_mut_str', STRG + '::as_bytes', STRP + '::as_bytes',
   'std::boxed::Box::as_ref', 'std::boxed::Box::as_mut', 'std::hint::must_use', 'std::convert::identity', 'std::boxed::Box::new', 'std::iter::IntoIterator::into_iter#id',
   'std::iter::Iterator::by_ref', 'std::ops::FromResidual::from_residual', STRG + '::into_bytes', STRG + '::from_utf8_unchecked', VEC + '::into_boxed_slice', STRG + '::into_boxed_str',
   'std::hint::black_box', 'std::rc::Rc::new', 'std::sync::Arc::new', 'core::array::as_slice', 'std::array::as_slice')
def ident(E, fr, st, a, d, aty):
    x = a[0]
    if x.op == 'ref':
        p, v = peel(st, x)
        if st.rd(x).op == 'ref': return [(st, ref(p))]
    return [(st, x)]
@m('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'core::str::to_owned', SL + '::to_vec', 'std::slice::to_vec', VEC + '::to_vec', 'std::clone::Clone::clone_from#',
   SL + '::into_vec', 'std::slice::into_vec', 'std::str::to_owned', 'std::str::into_string', STRP + '::into_string')
def clone(E, fr, st, a, d, aty):
    ts = E.F.tstr(d['targs'][0]) if d and d.get('targs') else ''
    v = st.rd(a[0]) if a[0].op == 'ref' or True else a[0]
    if a[0].op != 'ref' and a[0].op not in ('fld', 'deref', 'elem', 'sym', 'call', 'phi', 'mget', 'dc'): v = a[0]
    if v.op == 'ref' and not ts.startswith('&'):
        v = st.val(v)
    return [(st, v)]
@m('std::string::ToString::to_string')
def to_string(E, fr, st, a, d, aty):
    t = E.F.ty(d['targs'][0]); v = st.val(a[0])
    while t['k'] == 'ref': t = E.F.ty(t['to'])
    if t['k'] in ('str',) or t['s'] in ('std::string::String',) or 'Cow' in t['s']: return [(st, v)]
    if t['k'] in ('int', 'uint'): return [(st, STR(str(v.a[0])) if v.op == 'int' else mk('tostr', v))]
    if t['k'] == 'char': return [(st, STR(chr(v.a[0])) if v.op == 'char' else mk('chstr', v))]
    return [(st, mk('tostro', v))]
@m('std::convert::From::from', 'std::convert::Into::into')
def conv(E, fr, st, a, d, aty):
    ts = [E.F.ty(x) for x in d.get('targs', [])]
    def cls(t):
        while t['k'] == 'ref': t = E.F.ty(t['to'])
        if t['k'] == 'str' or 'String' in t['s'] or 'Cow' in t['s'] or t['s'].startswith('std::boxed::Box<str'): return 'str'
        if t['k'] in ('int', 'uint'): return 'int'
        if t['k'] == 'array' or t['k'] == 'slice' or t['s'].startswith('std::vec::Vec'): return 'vec'
        return t['s']
    if len(ts) == 2:
        c = {cls(ts[0]), cls(ts[1])}; rf = [t['k'] == 'ref' for t in ts]
        if c == {'vec'} and rf[0] != rf[1]: return [(st, st.rd(a[0]))]
        if len(c) == 1: return [(st, st.val(a[0]) if c != {'int'} else a[0])]
        tgt = ts[0] if d['path'].endswith('from') else ts[1]; src = ts[1] if d['path'].endswith('from') else ts[0]
        if tgt['s'].startswith('std::option::Option'): return [(st, SOME(a[0]))]
        if c <= {'int', 'char', 'bool'} and cls(tgt) == 'int': return [(st, E.cast(a[0], src, tgt, st))]
        if cls(tgt) == 'vec' and 'str' in c: return [(st, st.val(a[0]))]
        if cls(tgt) == 'str' and 'char' in c: return [(st, mk('chstr', a[0]))]
        if 'dyn std::error::Error' in tgt['s']: return [(st, st.val(a[0]))]
    return None
@m('std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into')
def tryconv(E, fr, st, a, d, aty):
    r = mk('call', 'try_into', STR(','.join(E.F.tstr(x) for x in d.get('targs', []))), st.val(a[0]))
    ts = [E.F.ty(x) for x in d.get('targs', [])]
    if all(t['k'] in ('int', 'uint') for t in ts):
        return [(s, OK(a[0]) if t else ERR(mk('tryfromint'))) for s, t in split(st, isv(r, RESULT, 0))]
    tgt = ts[1] if len(ts) > 1 else None
    if tgt and (tgt['k'] == 'array' or 'array' in tgt['k']):
        v = st.val(a[0])
        return [(s, OK(v) if t else ERR(mk('tryfromslice'))) for s, t in split(st, eq(length(v), INT(tgt.get('len', 0))))]
    return [(st, r)]
@m('std::mem::replace')
def mreplace(E, fr, st, a, d, aty):
    p = P(st, a[0]); old = st.read(p); E.store(st, p, a[1]); return [(st, old)]
def default_of(E, t):
    s = t['s']
    if t['k'] in ('int', 'uint'): return ZERO
    if t['k'] == 'bool': return FALSE
    if t['k'] == 'float': return mk('float', '0.0')
    if s == 'std::string::String': return STR('')
    if t['k'] == 'ref' and E.F.ty(t['to'])['k'] == 'str': return refval(STR(''))
    if t['k'] == 'adt' and t['def'] in (VEC, VD): return mk('vec')
    if t['k'] == 'adt' and t['def'] in MAPS + SETS: return MAP0
    if t['k'] == 'adt' and t['def'] == OPTION: return NONE
    return None
@m('std::mem::take')
def mtake(E, fr, st, a, d, aty):
    p = P(st, a[0]); old = st.read(p); nv = default_of(E, E.F.ty(d['targs'][0]))
    E.store(st, p, nv if nv is not None else mk('default', STR(E.F.tstr(d['targs'][0])))); return [(st, old)]
@m('std::mem::swap')
def mswap(E, fr, st, a, d, aty):
    p, q = P(st, a[0]), P(st, a[1]); x, y = st.read(p), st.read(q); E.store(st, p, y); E.store(st, q, x); return [(st, UNIT)]
@m('std::mem::drop', 'std::mem::forget', 'std::vec::Vec::reserve', 'std::vec::Vec::shrink_to_fit', STRG + '::reserve', 'std::ops::Drop::drop', VEC + '::reserve_exact')
def mdrop(E, fr, st, a, d, aty): return [(st, UNIT)]
@m('std::default::Default::default')
def mdefault(E, fr, st, a, d, aty):
    v = default_of(E, E.F.ty(d['targs'][0])) if d.get('targs') else None
    return None if v is None else [(st, v)]
# --- equality and order ----------------------------------------------------------------------
@m('std::cmp::PartialEq::eq')
def peq(E, fr, st, a, d, aty): return [(st, eq(st.val(a[0]), st.val(a[1])))]
@m('std::cmp::PartialEq::ne')
def pne(E, fr, st, a, d, aty): return [(st, NOT(eq(st.val(a[0]), st.val(a[1]))))]
def _u(E, d):
    ts = d.get('targs', [])
    t = E.F.ty(ts[0]) if ts else {'k': ''}
    while t['k'] == 'ref': t = E.F.ty(t['to'])
    return t['k'] in ('uint', 'char')
@m('std::cmp::PartialOrd::lt')
def plt(E, fr, st, a, d, aty): return [(st, lt(st.val(a[0]), st.val(a[1]), _u(E, d)))]
@m('std::cmp::PartialOrd::gt')
def pgt(E, fr, st, a, d, aty): return [(st, lt(st.val(a[1]), st.val(a[0]), _u(E, d)))]
@m('std::cmp::PartialOrd::le')
def ple(E, fr, st, a, d, aty): return [(st, NOT(lt(st.val(a[1]), st.val(a[0]), _u(E, d))))]
@m('std::cmp::PartialOrd::ge')
def pge(E, fr, st, a, d, aty): return [(st, NOT(lt(st.val(a[0]), st.val(a[1]), _u(E, d))))]
def ordcases(st, x, y):
    r = []
    for s, t in split(st, lt(x, y)):
        if t: r.append((s, ADT(ORDERING, 0)))
        else:
            for s2, t2 in split(s, eq(x, y)):
                if t2: r.append((s2, ADT(ORDERING, 1)))
                elif s2.assume(lt(y, x), True, log=False) or True: r.append((s2, ADT(ORDERING, 2)))
    return r
@m('std::cmp::Ord::cmp', 'std::f64::total_cmp', 'core::f64::total_cmp')
def pcmp(E, fr, st, a, d, aty): return ordcases(st, st.val(a[0]), st.val(a[1]))
@m('std::cmp::PartialOrd::partial_cmp')
def ppcmp(E, fr, st, a, d, aty):
    x, y = st.val(a[0]), st.val(a[1]); r = []
    t = E.F.ty(d['targs'][0]) if d.get('targs') else {'k': 'float'}
    if t['k'] == 'float':
        n = mk('unordered', x, y); f = st.fork()
        if f.assume(n, True): r.append((f, NONE))
        if not st.assume(n, False): return r
    return [(s, SOME(o)) for s, o in ordcases(st, x, y)] + r
@m('std::cmp::Ord::max', 'std::cmp::max')
def pmax(E, fr, st, a, d, aty):
    x, y = a; return [(s, y if t else x) for s, t in split(st, lt(st.val(x), st.val(y), True))]
@m('std::cmp::Ord::min', 'std::cmp::min')
def pmin(E, fr, st, a, d, aty):
    x, y = a; return [(s, x if t else y) for s, t in split(st, lt(st.val(x), st.val(y), True))]
for nm, ks in {'is_lt': [0], 'is_eq': [1], 'is_gt': [2], 'is_le': [0, 1], 'is_ge': [1, 2], 'is_ne': [0, 2]}.items():
    def f(E, fr, st, a, d, aty, ks=ks):
        if a[0].op == 'adt': return [(st, BOOL(a[0].a[1] in ks))]
        return None
    MODELS[f'std::cmp::Ordering::{nm}'] = f
@m('std::cmp::Ordering::reverse')
def orev(E, fr, st, a, d, aty): return [(st, ADT(ORDERING, 2 - a[0].a[1]))] if a[0].op == 'adt' else None
# --- Option / Result -------------------------------------------------------------------------
O, R = OPTION, RESULT
@m(O + '::is_some')
def o1(E, fr, st, a, d, aty): return [(st, isv(st.rd(a[0]), O, 1))]
@m(O + '::is_none')
def o2(E, fr, st, a, d, aty): return [(st, NOT(isv(st.rd(a[0]), O, 1)))]
@m(R + '::is_ok')
def o3(E, fr, st, a, d, aty): return [(st, isv(st.rd(a[0]), R, 0))]
@m(R + '::is_err')
def o4(E, fr, st, a, d, aty): return [(st, NOT(isv(st.rd(a[0]), R, 0)))]
@m(O + '::unwrap', O + '::expect', O + '::unwrap_unchecked')
def o5(E, fr, st, a, d, aty):
    r = []
    for s, x in optcases(st, a[0]):
        if x is None: E.panic(s, 'unwrap of None')
        else: r.append((s, x))
    return r
@m(R + '::unwrap', R + '::expect')
def o6(E, fr, st, a, d, aty):
    r = []
    for s, ok, x in rescases(st, a[0]):
        if ok: r.append((s, x))
        else: E.panic(s, 'unwrap of Err')
    return r
@m(R + '::unwrap_err', R + '::expect_err')
def o6b(E, fr, st, a, d, aty):
    r = []
    for s, ok, x in rescases(st, a[0]):
        if not ok: r.append((s, x))
        else: E.panic(s, 'unwrap_err of Ok')
    return r
@m(O + '::unwrap_or')
def o7(E, fr, st, a, d, aty): return [(s, a[1] if x is None else x) for s, x in optcases(st, a[0])]
@m(R + '::unwrap_or')
def o8(E, fr, st, a, d, aty): return [(s, x if ok else a[1]) for s, ok, x in rescases(st, a[0])]
@m(O + '::unwrap_or_default', R + '::unwrap_or_default')
def o9(E, fr, st, a, d, aty):
    dv = default_of(E, E.F.ty(d['targs'][0])) 
    if dv is None: dv = mk('default', STR(E.F.tstr(d['targs'][0])))
    if 'Option' in d['path']: return [(s, dv if x is None else x) for s, x in optcases(st, a[0])]
    return [(s, x if ok else dv) for s, ok, x in rescases(st, a[0])]
@m(O + '::unwrap_or_else')
def o10(E, fr, st, a, d, aty):
    r = []
    for s, x in optcases(st, a[0]):
        if x is None: r += E.call_value(fr, s, a[1], [])
        else: r.append((s, x))
    return r
@m(R + '::unwrap_or_else')
def o11(E, fr, st, a, d, aty):
    r = []
    for s, ok, x in rescases(st, a[0]):
        if ok: r.append((s, x))
        else: r += E.call_value(fr, s, a[1], [x])
    return r
@m(O + '::map')
def o12(E, fr, st, a, d, aty):
    r = []
    for s, x in optcases(st, a[0]):
        if x is None: r.append((s, NONE))
        else: r += [(s2, SOME(y)) for s2, y in E.call_value(fr, s, a[1], [x])]
    return r
@m(R + '::map')
def o13(E, fr, st, a, d, aty):
    r = []
    for s, ok, x in rescases(st, a[0]):
        if ok: r += [(s2, OK(y)) for s2, y in E.call_value(fr, s, a[1], [x])]
        else: r.append((s, ERR(x)))
    return r
@m(R + '::map_err')
def o14(E, fr, st, a, d, aty):
    r = []
    for s, ok, x in rescases(st, a[0]):
        if not ok: r += [(s2, ERR(y)) for s2, y in E.call_value(fr, s, a[1], [x])]
        else: r.append((s, OK(x)))
    return r
@m(O + '::and_then')
def o15(E, fr, st, a, d, aty):
    r = []
    for s, x in optcases(st, a[0]):
        if x is None: r.append((s, NONE))
        else: r += E.call_value(fr, s, a[1], [x])
    return r
@m(R + '::and_then')
def o16(E, fr, st, a, d, aty):
    r = []
    for s, ok, x in rescases(st, a[0]):
        if ok: r += E.call_value(fr, s, a[1], [x])
        else: r.append((s, ERR(x)))
    return r
@m(O + '::map_or')
def o17(E, fr, st, a, d, aty):
    r = []
    for s, x in optcases(st, a[0]):
        if x is None: r.append((s, a[1]))
        else: r += E.call_value(fr, s, a[2], [x])
    return r
@m(O + '::map_or_else')
def o18(E, fr, st, a, d, aty):
    r = []
    for s, x in optcases(st, a[0]):
        if x is None: r += E.call_value(fr, s, a[1], [])
        else: r += E.call_value(fr, s, a[2], [x])
    return r
@m(R + '::map_or')
def o17b(E, fr, st, a, d, aty):
    r = []
    for s, ok, x in rescases(st, a[0]):
        if ok: r += E.call_value(fr, s, a[2], [x])
        else: r.append((s, a[1]))
    return r
@m(R + '::map_or_else')
def o18b(E, fr, st, a, d, aty):
    r = []
    for s, ok, x in rescases(st, a[0]): r += E.call_value(fr, s, a[2] if ok else a[1], [x])
    return r
@m(O + '::is_some_and', O + '::is_none_or')
def o19(E, fr, st, a, d, aty):
    r = []
    for s, x in optcases(st, a[0]):
        if x is None: r.append((s, BOOL('is_none_or' in d['path'])))
        else: r += E.call_value(fr, s, a[1], [x])
    return r
@m(R + '::is_ok_and')
def o19b(E, fr, st, a, d, aty):
    r = []
    for s, ok, x in rescases(st, a[0]):
        if not ok: r.append((s, FALSE))
        else: r += E.call_value(fr, s, a[1], [x])
    return r
@m(O + '::filter')
def o20(E, fr, st, a, d, aty):
    r = []
    for s, x in optcases(st, a[0]):
        if x is None: r.append((s, NONE)); continue
        for s2, b in E.call_value(fr, s, a[1], [refval(x)]):
            r += [(s3, SOME(x) if t else NONE) for s3, t in split(s2, b)]
    return r
@m(O + '::ok_or')
def o21(E, fr, st, a, d, aty): return [(s, ERR(a[1]) if x is None else OK(x)) for s, x in optcases(st, a[0])]
@m(O + '::ok_or_else')
def o22(E, fr, st, a, d, aty):
    r = []
    for s, x in optcases(st, a[0]):
        if x is None: r += [(s2, ERR(e)) for s2, e in E.call_value(fr, s, a[1], [])]
        else: r.append((s, OK(x)))
    return r
@m(R + '::ok')
def o23(E, fr, st, a, d, aty): return [(s, SOME(x) if ok else NONE) for s, ok, x in rescases(st, a[0])]
@m(R + '::err')
def o24(E, fr, st, a, d, aty): return [(s, NONE if ok else SOME(x)) for s, ok, x in rescases(st, a[0])]
@m(O + '::or')
def o25(E, fr, st, a, d, aty): return [(s, a[1] if x is None else SOME(x)) for s, x in optcases(st, a[0])]
@m(O + '::or_else')
def o26(E, fr, st, a, d, aty):
    r = []
    for s, x in optcases(st, a[0]):
        if x is None: r += E.call_value(fr, s, a[1], [])
        else: r.append((s, SOME(x)))
    return r
@m(O + '::and')
def o26b(E, fr, st, a, d, aty): return [(s, NONE if x is None else a[1]) for s, x in optcases(st, a[0])]
@m(O + '::as_ref', O + '::as_mut', O + '::as_deref', O + '::as_deref_mut')
def o27(E, fr, st, a, d, aty):
    p = P(st, a[0]); v = st.read(p); r = []
    for s, x in optcases(st, v):
        if x is None: r.append((s, NONE))
        else: r.append((s, SOME(x if x.op == 'ref' and 'deref' in d['path'] else ref((p[0], p[1] + (('d', 1), ('f', 0)))))))
    return r
@m(R + '::as_ref', R + '::as_mut')
def o28(E, fr, st, a, d, aty):
    p = P(st, a[0]); v = st.read(p)
    return [(s, ADT(RESULT, 0 if ok else 1, ref((p[0], p[1] + (('d', 0 if ok else 1), ('f', 0)))))) for s, ok, x in rescases(st, v)]
@m(O + '::cloned', O + '::copied')
def o29(E, fr, st, a, d, aty): return [(s, NONE if x is None else SOME(s.rd(x))) for s, x in optcases(st, a[0])]
@m(O + '::take')
def o30(E, fr, st, a, d, aty):
    p = P(st, a[0]); v = st.read(p); E.store(st, p, NONE); return [(st, v)]
@m(O + '::replace')
def o31(E, fr, st, a, d, aty):
    p = P(st, a[0]); v = st.read(p); E.store(st, p, SOME(a[1])); return [(st, v)]
@m(O + '::insert')
def o32(E, fr, st, a, d, aty):
    p = P(st, a[0]); E.store(st, p, SOME(a[1])); return [(st, ref((p[0], p[1] + (('d', 1), ('f', 0)))))]
@m(O + '::flatten')
def o33(E, fr, st, a, d, aty): return [(s, NONE if x is None else x) for s, x in optcases(st, a[0])]
@m('std::ops::Try::branch')
def trybranch(E, fr, st, a, d, aty):
    t = E.F.tstr(d['targs'][0])
    if t.startswith('std::option'): return [(s, ADT(CF, 1, NONE) if x is None else ADT(CF, 0, x)) for s, x in optcases(st, a[0])]
    return [(s, ADT(CF, 0, x) if ok else ADT(CF, 1, ERR(x))) for s, ok, x in rescases(st, a[0])]
# --- sequences ---------------------------------------------------------------------------------
@m(VEC + '::new', VEC + '::with_capacity', VD + '::new', VD + '::with_capacity', 'std::collections::LinkedList::new', 'std::collections::BinaryHeap::new')
def vnew(E, fr, st, a, d, aty): return [(st, mk('vec'))]
@m('std::boxed::Box::new_uninit')
def bnew(E, fr, st, a, d, aty):
    E.nsym += 1; r = mk('heap', E.nsym); st.mem[r] = mk('uninit', 'box', E.nsym); return [(st, ref((r, ())))]
@m('std::boxed::box_assume_init_into_vec_unsafe')
def bvec(E, fr, st, a, d, aty): return [(st, st.rd(a[0]))]
@m('std::boxed::Box::assume_init', 'std::boxed::Box::write')
def bai(E, fr, st, a, d, aty): return [(st, st.rd(a[0]) if len(a) == 1 else a[1])]
@m('std::vec::from_elem')
def vfrom(E, fr, st, a, d, aty):
    if a[1].op == 'int' and 0 <= a[1].a[0] <= 64: return [(st, mk('vec', *[a[0]] * a[1].a[0]))]
    return [(st, mk('repeat', a[0], a[1]))]
def mutate(E, st, p, name, args, new):
    E.event(st, 'mut', name, (p,) + tuple(args), (st.read(p), new))
    st.write(p, new)
@m(VEC + '::push', VD + '::push_back')
def vpush(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); mutate(E, st, p, 'push', (a[1],), push(v, a[1])); return [(st, UNIT)]
@m(VD + '::push_front')
def vpushf(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); mutate(E, st, p, 'insert', (ZERO, a[1]), mk('inserted', v, ZERO, a[1])); return [(st, UNIT)]
@m(VEC + '::pop', VD + '::pop_back', STRG + '::pop')
def vpop(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); r = []
    for s, e in split(st, eq(length(v), ZERO)):
        if e: r.append((s, NONE)); continue
        x = elem(v, sub(length(v), ONE))
        nv = v.a[0] if v.op == 'push' else mk('vec', *v.a[:-1]) if v.op == 'vec' else mk('pop', v)
        mutate(E, s, p, 'pop', (), nv); r.append((s, SOME(x)))
    return r
@m(VD + '::pop_front')
def vpopf(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); r = []
    for s, e in split(st, eq(length(v), ZERO)):
        if e: r.append((s, NONE)); continue
        x = elem(v, ZERO); mutate(E, s, p, 'pop_front', (), slice_(v, ONE, None)); r.append((s, SOME(x)))
    return r
@m(VEC + '::clear', VD + '::clear')
def vclear(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); mutate(E, st, p, 'clear', (), mk('vec')); return [(st, UNIT)]
@m(STRG + '::clear')
def sclear(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); mutate(E, st, p, 'clear', (), STR('')); return [(st, UNIT)]
@m(VEC + '::len', SL + '::len', STRG + '::len', STRP + '::len', VD + '::len', *deco(MAPS + SETS, ['len']), 'core::array::len')
def vlen(E, fr, st, a, d, aty): return [(st, length(st.val(a[0])))]
@m(VEC + '::is_empty', SL + '::is_empty', STRG + '::is_empty', STRP + '::is_empty', VD + '::is_empty', *deco(MAPS + SETS, ['is_empty']))
def vemp(E, fr, st, a, d, aty): return [(st, eq(length(st.val(a[0])), ZERO))]
@m(VEC + '::insert', VD + '::insert')
def vins(E, fr, st, a, d, aty):
    p, v = peel(st, a[0])
    nv = push(v, a[2]) if a[1] is length(v) else mk('inserted', v, a[1], a[2])
    mutate(E, st, p, 'insert' if nv.op == 'inserted' else 'push', (a[1], a[2]) if nv.op == 'inserted' else (a[2],), nv); return [(st, UNIT)]
@m(VEC + '::remove', VEC + '::swap_remove')
def vrem(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); x = elem(v, a[1]); nm = d['path'].split('::')[-1]
    r = []
    for s, t in split(st, lt(a[1], length(v))):
        if not t: E.panic(s, 'remove out of bounds'); continue
        mutate(E, s, p, nm, (a[1],), mk('removed' if nm == 'remove' else 'swapremoved', v, a[1])); r.append((s, x))
    return r
@m(VD + '::remove')
def vdrem(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); r = []
    for s, t in split(st, lt(a[1], length(v))):
        if not t: r.append((s, NONE)); continue
        mutate(E, s, p, 'remove', (a[1],), mk('removed', v, a[1])); r.append((s, SOME(elem(v, a[1]))))
    return r
@m(VEC + '::truncate', VD + '::truncate', STRG + '::truncate')
def vtr(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); n = st.val(a[1])
    if n is length(v) or st.decide(eq(length(v), ZERO)) is True: return [(st, UNIT)]
    if n is sub(length(v), ONE) and 'String' not in str(d.get('path', '')):        # one element less
        out = []
        for s, e in split(st, eq(length(v), ZERO)):
            if not e: mutate(E, s, p, 'pop', (), v.a[0] if v.op == 'push' else mk('vec', *v.a[:-1]) if v.op == 'vec' else mk('pop', v))
            out.append((s, UNIT))
        return out
    nv = mk('vec') if a[1] is ZERO else mk('truncate', v, a[1])
    mutate(E, st, p, 'truncate' if nv.op != 'vec' else 'clear', (a[1],) if nv.op != 'vec' else (), nv); return [(st, UNIT)]
@m(VEC + '::resize')
def vres(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); mutate(E, st, p, 'resize', (a[1], a[2]), mk('resize', v, a[1], a[2])); return [(st, UNIT)]
@m(VEC + '::extend_from_slice', STRG + '::push_str', VEC + '::append')
def vext(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); o = st.val(a[1]); isapp = d['path'].endswith('append')
    sstr = 'String' in d['path']
    nv = (STR(v.a[0] + o.a[0]) if v.op == 'str' and o.op == 'str' else o if v is STR('') else v if o is STR('') else mk('cat', v, o)) if sstr else cat(v, o)
    mutate(E, st, p, 'extend', (o,), nv)
    if isapp:
        q, _ = peel(st, a[1]); mutate(E, st, q, 'clear', (), mk('vec'))
    return [(st, UNIT)]
@m(STRG + '::push')
def spush(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); c = a[1]
    o = STR(chr(c.a[0])) if c.op == 'char' else mk('chstr', c)
    nv = STR(v.a[0] + o.a[0]) if v.op == 'str' and o.op == 'str' else mk('cat', v, o)
    mutate(E, st, p, 'extend', (o,), nv); return [(st, UNIT)]
@m('std::ops::Add::add')
def sadd(E, fr, st, a, d, aty):
    t = E.F.ty(d['targs'][0]) if d.get('targs') else {'s': ''}
    while t['k'] == 'ref': t = E.F.ty(t['to'])
    if t['s'] == 'std::string::String':
        v, o = st.val(a[0]), st.val(a[1])
        return [(st, STR(v.a[0] + o.a[0]) if v.op == 'str' and o.op == 'str' else mk('cat', v, o))]
    return [(st, E.binop(st, 'Add', st.val(a[0]), st.val(a[1]), t))]
for _o in ('Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr'):
    def f(E, fr, st, a, d, aty, _o=_o):
        t = E.F.ty(d['targs'][0]) if d.get('targs') else {'s': '', 'k': ''}
        while t['k'] == 'ref': t = E.F.ty(t['to'])
        return [(st, E.binop(st, _o, st.val(a[0]), st.val(a[1]), t))] if t['k'] in ('int', 'uint', 'float', 'bool') else None
    MODELS[f'std::ops::{_o}::{_o.lower()}'] = f
    def g(E, fr, st, a, d, aty, _o=_o):
        p = P(st, a[0]); t = E.F.ty(d['targs'][0]) if d.get('targs') else {'s': '', 'k': ''}
        if t['k'] not in ('int', 'uint', 'float', 'bool'): return None
        E.store(st, p, E.binop(st, _o, st.read(p), st.val(a[1]), t)); return [(st, UNIT)]
    MODELS[f'std::ops::{_o}Assign::{_o.lower()}_assign'] = g
@m('std::ops::AddAssign::add_assign')
def adda(E, fr, st, a, d, aty):
    p = P(st, a[0]); t = E.F.ty(d['targs'][0])
    if t['s'] == 'std::string::String': return vext(E, fr, st, a, dict(d, path='std::string::String::push_str'), aty)
    E.store(st, p, E.binop(st, 'Add', st.read(p), st.val(a[1]), t)); return [(st, UNIT)]
@m('std::ops::Not::not')
def nott(E, fr, st, a, d, aty): return [(st, NOT(st.val(a[0])))]
@m('std::ops::Neg::neg')
def negg(E, fr, st, a, d, aty): return [(st, mk('neg', st.val(a[0])))]
@m(SL + '::contains', VEC + '::contains', VD + '::contains')
def vcont(E, fr, st, a, d, aty):
    v, x = st.val(a[0]), st.val(a[1])
    if v.op == 'vec' and len(v.a) <= 16:
        r = FALSE
        for y in v.a: r = OR(r, eq(x, st.val(y)))
        if len(v.a) == 1: return [(st, r)]
        out = []; cur = [st]
        for y in v.a:
            nxt = []
            for s in cur:
                for s2, t in split(s, eq(x, st.val(y))): (out if t else nxt).append((s2, TRUE) if t else s2)
            cur = nxt
        return out + [(s, FALSE) for s in cur]
    return [(st, mk('contains', v, x))]
@m(SL + '::first', SL + '::first_mut')
def vfirst(E, fr, st, a, d, aty):
    p, v = peel(st, a[0])
    return [(s, NONE if e else SOME(ref(sub_place(p, ('e', ZERO))))) for s, e in split(st, eq(length(v), ZERO))]
@m(SL + '::last', SL + '::last_mut', VD + '::back', VD + '::back_mut')
def vlast(E, fr, st, a, d, aty):
    p, v = peel(st, a[0])
    return [(s, NONE if e else SOME(ref(sub_place(p, ('e', sub(length(v), ONE)))))) for s, e in split(st, eq(length(v), ZERO))]
MODELS[VD + '::front'] = MODELS[VD + '::front_mut'] = vfirst
def rangeof(st, r):
    if r.op == 'adt' and r.a[0] in RANGES:
        k = r.a[0].split('::')[-1]; f = r.a[2:]
        if k == 'Range': return f[0], f[1]
        if k == 'RangeFrom': return f[0], None
        if k == 'RangeTo': return ZERO, f[0]
        if k == 'RangeFull': return ZERO, None
        if k == 'RangeInclusive': return f[0], add(f[1], ONE)
        if k == 'RangeToInclusive': return ZERO, add(f[0], ONE)
    if r.op == 'zst' and 'RangeFull' in r.a[0]: return ZERO, None
    return None
@m('std::ops::RangeInclusive::new')
def rinc(E, fr, st, a, d, aty): return [(st, mk('adt', 'std::ops::RangeInclusive', 0, a[0], a[1], FALSE))]
@m('std::ops::RangeInclusive::contains', 'std::ops::Range::contains', 'std::ops::RangeFrom::contains', 'std::ops::RangeTo::contains', 'std::ops::RangeToInclusive::contains')
def rcont(E, fr, st, a, d, aty):
    r = rangeof(st, st.rd(a[0])); x = st.val(a[1])
    if not r: return None
    c = NOT(lt(x, r[0], True))
    if r[1] is not None: c = AND(c, lt(x, r[1], True))
    if c.op != 'and': return [(st, c)]
    out = []
    for s, t in split(st, c.a[0]):
        if not t: out.append((s, FALSE))
        else: out += [(s2, BOOL(t2)) for s2, t2 in split(s, c.a[1])]
    return out
def ismap(t): return t['k'] == 'adt' and t['def'] in MAPS + SETS
def base_ty(E, ti):
    t = E.F.ty(ti)
    while t['k'] in ('ref', 'ptr'): t = E.F.ty(t['to'])
    return t
@m('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def vindex(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); t = E.F.ty(d['targs'][0])
    if ismap(t):
        k = st.val(a[1]); r = []
        for s, h in split(st, has(v, k)):
            if h: r.append((s, ref((p[0], p[1] + (('k', k),)))))
            else: E.panic(s, 'missing key')
        return r
    rg = rangeof(st, st.val(a[1])) if len(d['targs']) > 1 and E.F.ty(d['targs'][1])['k'] == 'adt' else None
    if rg:
        lo, hi = rg; ok = lt(length(v), hi, True) if hi is not None else lt(length(v), lo, True)
        conds = [NOT(ok)]
        if hi is not None and lo is not ZERO: conds.append(NOT(lt(hi, lo, True)))
        for c in conds:
            if st.decide(c) is not True:
                f = st.fork()
                if f.assume(c, False): E.panic(f, 'slice bounds')
                if not st.assume(c, True): return []
        return [(st, ref(sub_place(p, ('s', lo, hi))))] if not (lo is ZERO and hi is None) else [(st, ref(p))]
    out = []
    for s, p2 in accinst(E, st, p, v, a[1]):
        if p2 is not None: out.append((s, p2)); continue
        ok = lt(a[1], length(v), True)
        if s.decide(ok) is not True:
            f = s.fork()
            if f.assume(ok, False): E.panic(f, 'index out of bounds')
            if not s.assume(ok, True): continue
        out.append((s, ref(sub_place(p, ('e', a[1])))))
    return out
def accinst(E, st, p, v, idx):
    """Element of a collection that a loop built: some element pushed in some iteration."""
    acc = E.accs.get(v) if hasattr(E, 'accs') else None
    if not acc: return [(st, None)]
    out = []
    for phi, facts, val, posn in acc:
        s = st.fork() if len(acc) > 1 else st
        w = mk('wit', v, idx); mp = {q: mk('wit', v, idx, q) for q in posn}
        ok = True
        for f, t in facts: ok = ok and s.assume(replace(f, mp), t)
        if not ok: continue
        nv = replace(val, mp)
        if nv.op == 'ref': out.append((s, refval(nv)))
        else: out.append((s, refval(nv)))
    return out
@m(SL + '::get', SL + '::get_mut', VEC + '::get', VD + '::get', VD + '::get_mut', STRP + '::get')
def vget(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); rg = rangeof(st, a[1])
    if rg:
        lo, hi = rg; c = NOT(lt(length(v), hi if hi is not None else lo, True))
        if hi is not None: c = AND(c, NOT(lt(hi, lo, True)))
        return [(s, SOME(ref(sub_place(p, ('s', lo, hi)))) if t else NONE) for s, t in split(st, c)]
    return [(s, SOME(ref(sub_place(p, ('e', a[1])))) if t else NONE) for s, t in split(st, lt(a[1], length(v), True))]
@m(SL + '::split_at')
def vsplitat(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); return [(st, mk('tup', ref(sub_place(p, ('s', ZERO, a[1]))), ref(sub_place(p, ('s', a[1], None)))))]
@m(SL + '::split_first')
def vsf(E, fr, st, a, d, aty):
    p, v = peel(st, a[0])
    return [(s, NONE if e else SOME(mk('tup', ref(sub_place(p, ('e', ZERO))), ref(sub_place(p, ('s', ONE, None)))))) for s, e in split(st, eq(length(v), ZERO))]
@m(SL + '::starts_with', VEC + '::starts_with')
def vsw(E, fr, st, a, d, aty): return [(st, mk('starts_with', st.val(a[0]), st.val(a[1])))]
@m(SL + '::swap', SL + '::reverse', SL + '::sort', SL + '::sort_by', SL + '::sort_by_key', SL + '::sort_unstable', VEC + '::dedup', SL + '::fill', SL + '::copy_from_slice', SL + '::clone_from_slice', SL + '::sort_unstable_by_key', VEC + '::retain', VEC + '::dedup_by_key', VEC + '::split_off', SL + '::rotate_left', SL + '::rotate_right')
def vmisc(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); nm = d['path'].split('::')[-1]; args = [st.val(x) for x in a[1:]]
    if nm == 'copy_from_slice' or nm == 'clone_from_slice':
        mutate(E, st, p, nm, args, args[0]); return [(st, UNIT)]
    mutate(E, st, p, nm, args, mk(nm, v, *args)); return [(st, UNIT if nm != 'split_off' else slice_(v, args[0], None))]
@m(SL + '::concat', SL + '::join', 'std::slice::concat', 'std::slice::join')
def vjoin(E, fr, st, a, d, aty):
    if d['path'].endswith('concat') and len(a) == 1:
        t = E.F.ty(aty[0])
        while t['k'] in ('ref', 'slice', 'array'): t = E.F.types[t['to']]
        if t['k'] == 'adt' and t['def'] in (VEC, STRG): return [(s, v) for s, tag, v in collect_into(E, fr, st, mk('iter', mk('src', 'own', st.val(a[0])), (), ZERO), t['def'], E.F, {'k': 'adt', 'def': t['def']}, UNIT)]
    return [(st, mk(d['path'].split('::')[-1], *[st.val(x) for x in a]))]
@m(VEC + '::splice')
def vsplice(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); rg = rangeof(st, a[1]); o = iterval(E, st, a[2])
    mutate(E, st, p, 'splice', (rg[0] if rg else a[1], rg[1] if rg and rg[1] is not None else NONE, o), mk('splice', v, rg[0] if rg else a[1], rg[1] if rg and rg[1] is not None else NONE, o))
    return [(st, mk('spliced'))]
@m(VEC + '::drain')
def vdrain(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); rg = rangeof(st, a[1])
    full = rg and rg[0] is ZERO and rg[1] is None
    mutate(E, st, p, 'drain', (a[1],), mk('vec') if full else mk('drained', v, a[1]))
    return [(st, mk('iter', mk('src', 'own', v if full else mk('drainpart', v, a[1])), (), ZERO))]
def iterval(E, st, x):
    if x.op == 'iter':
        src, stages, pos = x.a
        if all(s.a[0] in ('cloned', 'copied') for s in stages) and pos is ZERO:
            k = src.a[0]
            if k in ('ref', 'own'): return st.val(src.a[1])
        return x
    return st.val(x)
# --- maps and sets ------------------------------------------------------------------------------
@m(*deco(MAPS + SETS, ['new', 'with_capacity']))
def mnew(E, fr, st, a, d, aty): return [(st, MAP0)]
@m(*deco(MAPS, ['get', 'get_mut']))
def mget_(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); k = st.val(a[1])
    return [(s, SOME(ref((p[0], p[1] + (('k', k),)))) if h else NONE) for s, h in split(st, has(v, k))]
@m(*deco(MAPS + SETS, ['contains_key', 'contains']))
def mhas(E, fr, st, a, d, aty): return [(st, has(st.val(a[0]), st.val(a[1])))]
@m(*deco(MAPS, ['insert']))
def mins(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); k = st.val(a[1])
    mutate(E, st, p, 'insert', (k, a[2]), mset(v, k, a[2])); st.assume(has(st.read(p), k), True, log=False)
    return [(st, mk('oldval', v, k))]
@m(*deco(SETS, ['insert']))
def sins(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); k = st.val(a[1]); h = has(v, k)
    mutate(E, st, p, 'insert', (k,), mk('sadd', v, k)); return [(st, NOT(h))]
@m(*deco(MAPS + SETS, ['remove', 'take']))
def mrem(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); k = st.val(a[1]); r = []
    if 'Set' in d['path']:
        h = has(v, k); mutate(E, st, p, 'remove', (k,), mk('mdel', v, k)); return [(st, h)]
    for s, h in split(st, has(v, k)):
        if h: mutate(E, s, p, 'remove', (k,), mk('mdel', v, k))
        r.append((s, SOME(mget(v, k)) if h else NONE))
    return r
@m(*deco(MAPS + SETS, ['clear']))
def mclear(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); mutate(E, st, p, 'clear', (), MAP0); return [(st, UNIT)]
@m(*deco(MAPS, ['entry']))
def mentry(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); return [(st, mk('entry', ref(p), st.val(a[1])))]
def _entry(E, fr, st, a, d, aty, mkval):
    e = a[0]
    if e.op != 'entry': return None
    p = e.a[0].a; k = e.a[1]; p = (p[0], p[1]); r = []
    for s, h in split(st, has(s_read(st, p), k)):
        if h: r.append((s, ref((p[0], p[1] + (('k', k),)))))
        else:
            for s2, x in mkval(s):
                mutate(E, s2, p, 'insert', (k, x), mset(s2.read(p), k, x)); r.append((s2, ref((p[0], p[1] + (('k', k),)))))
    return r
def s_read(st, p): return st.read(p)
for _p in ('std::collections::hash_map::Entry', 'std::collections::btree_map::Entry'):
    MODELS[_p + '::or_insert'] = lambda E, fr, st, a, d, aty: _entry(E, fr, st, a, d, aty, lambda s: [(s, a[1])])
    MODELS[_p + '::or_insert_with'] = lambda E, fr, st, a, d, aty: _entry(E, fr, st, a, d, aty, lambda s: E.call_value(fr, s, a[1], []))
    def _od(E, fr, st, a, d, aty):
        dv = default_of(E, E.F.ty(d['targs'][1])) if len(d.get('targs', [])) > 1 else None
        return _entry(E, fr, st, a, d, aty, lambda s: [(s, dv if dv is not None else mk('default'))])
    MODELS[_p + '::or_default'] = _od
# --- iterators ------------------------------------------------------------------------------------
def it(kind, *x, stages=(), pos=ZERO): return mk('iter', mk('src', kind, *x), stages, pos)
@m(SL + '::iter', SL + '::iter_mut', VEC + '::iter', VD + '::iter', VD + '::iter_mut')
def viter(E, fr, st, a, d, aty): return [(st, it('ref', ref(peel(st, a[0])[0])))]
@m(*deco(MAPS, ['iter', 'iter_mut']))
def miter(E, fr, st, a, d, aty): return [(st, it('kv', ref(peel(st, a[0])[0])))]
@m(*deco(SETS, ['iter']))
def siter(E, fr, st, a, d, aty): return [(st, it('keys', ref(peel(st, a[0])[0])))]
@m(*deco(MAPS, ['keys', 'into_keys']))
def mkeys(E, fr, st, a, d, aty): return [(st, it('keys', ref(peel(st, a[0])[0]) if a[0].op == 'ref' else refval(a[0])))]
@m(*deco(MAPS, ['values', 'values_mut', 'into_values']))
def mvals(E, fr, st, a, d, aty): return [(st, it('values', ref(peel(st, a[0])[0]) if a[0].op == 'ref' else refval(a[0])))]
@m(STRP + '::chars')
def schars(E, fr, st, a, d, aty): return [(st, it('chars', st.val(a[0])))]
@m(STRP + '::char_indices')
def scharsi(E, fr, st, a, d, aty): return [(st, it('chars', st.val(a[0]), stages=(mk('stage', 'enumerate'),)))]
@m(STRP + '::bytes')
def sbytes(E, fr, st, a, d, aty): return [(st, it('own', st.val(a[0])))]
@m(SL + '::chunks', SL + '::windows', STRP + '::split', STRP + '::lines', STRP + '::split_whitespace', SL + '::chunks_exact', STRP + '::splitn', STRP + '::rsplit')
def vchunks(E, fr, st, a, d, aty):
    nm = d['path'].split('::')[-1]
    p, v = peel(st, a[0]) if a[0].op == 'ref' else (None, st.val(a[0]))
    if nm in ('chunks', 'chunks_exact', 'windows'): return [(st, it(nm, ref(p), a[1]))]
    return [(st, it('opaque', mk(nm, *[st.val(x) for x in a])))]
@m('std::iter::IntoIterator::into_iter')
def intoiter(E, fr, st, a, d, aty):
    x = a[0]; t = E.F.ty(d['targs'][0])
    if x.op == 'iter': return [(st, x)]
    if x.op == 'adt' and x.a[0] in RANGES:
        lo, hi = rangeof(st, x); return [(st, it('range', lo, hi if hi is not None else NONE))]
    if t['k'] == 'ref':
        p, v = peel(st, x); b = base_ty(E, d['targs'][0])
        if v.op == 'iter' or v.op == 'adt' and v.a[0] in RANGES: return [(st, via(E, st, x))]
        if b['k'] == 'adt' and b['def'] in MAPS: return [(st, it('kv', ref(p)))]
        if b['k'] == 'adt' and b['def'] in SETS: return [(st, it('keys', ref(p)))]
        if b['k'] in ('slice', 'array') or b['k'] == 'adt' and b['def'] in (VEC, VD): return [(st, it('ref', ref(p)))]
    else:
        if t['k'] == 'adt' and t['def'] in MAPS: return [(st, it('kvown', x))]
        if t['k'] == 'adt' and t['def'] in SETS: return [(st, it('keysown', x))]
        if t['k'] == 'array' or t['k'] == 'adt' and t['def'] in (VEC, VD): return [(st, it('own', x))]
        if t['k'] == 'adt' and t['def'] == OPTION: return [(s, it('own', mk('vec', y) if y is not None else mk('vec'))) for s, y in optcases(st, x)]
        if t['k'] == 'adt' and t['def'] == RESULT: return [(s, it('own', mk('vec', y) if ok else mk('vec'))) for s, ok, y in rescases(st, x)]
    return [(st, it('opaque', mk('intoiter', st.val(x))))]
IT = 'std::iter::Iterator::'
def via(E, st, x):
    """An iterator handed on by reference: taking from it advances the one behind the reference."""
    pv = peel(st, x)
    if pv and pv[0] and pv[1].op == 'iter': return it('via', ref(pv[0]))
    if pv and pv[0] and pv[1].op == 'adt' and pv[1].a[0] in RANGES:
        lo, hi = rangeof(st, pv[1]); st.write(pv[0], it('range', lo, hi if hi is not None else NONE)); return it('via', ref(pv[0]))
    return None
@m(IT + 'by_ref')
def ibyref(E, fr, st, a, d, aty): return [(st, a[0])]
@m(*[IT + n for n in ('map', 'filter', 'filter_map', 'enumerate', 'cloned', 'copied', 'take', 'skip', 'rev', 'zip', 'peekable', 'fuse', 'inspect', 'take_while', 'step_by', 'chain', 'flatten', 'flat_map', 'skip_while', 'map_while')])
def istage(E, fr, st, a, d, aty):
    nm = d['path'].split('::')[-1]; x = a[0]
    if x.op == 'ref': x = via(E, st, x) or st.val(x)
    if x.op == 'adt' and x.a[0] in RANGES:
        lo, hi = rangeof(st, x); x = it('range', lo, hi if hi is not None else NONE)
    if x.op != 'iter': x = it('opaque', st.val(x))
    if x.a[0].a[0] == 'via' and nm in ('rev', 'skip', 'step_by'): raise Limit('unsupported ' + nm + ' of a borrowed iterator')
    if nm in ('peekable', 'fuse'): return [(st, x)]
    if nm in ('chain', 'flatten', 'flat_map', 'skip_while', 'map_while'):
        b = a[1] if len(a) > 1 else UNIT
        if nm == 'flatten' and x.a[0].a[0] == 'own' and not x.a[1] and x.a[2] is ZERO and x.a[0].a[1].op == 'vec' and len(x.a[0].a[1].a) < 2:      # of an Option
            if not x.a[0].a[1].a: return [(st, x)]
            t = E.F.ty(d['targs'][0]); y = x.a[0].a[1].a[0]
            e = E.F.ty(t['args'][0]) if t['k'] == 'adt' and t.get('args') and isinstance(t['args'][0], int) else {'k': None}
            if e['k'] == 'adt' and e['def'] in (VEC, VD): return [(st, it('own', y))]
            if e['k'] == 'adt' and e['def'] == OPTION: return [(s, it('own', mk('vec', z) if z is not None else mk('vec'))) for s, z in optcases(st, y)]
        return [(st, it('opaque', mk(nm, x, b)))]
    if nm == 'zip':
        b = a[1]
        if b.op != 'iter':
            r = intoiter(E, fr, st, [b], dict(d, targs=d['targs'][1:]), aty[1:])
            if len(r) > 1: return [o for s2, y in r for o in istage(E, fr, s2, [a[0], y], d, aty)]
            b = r[0][1]
        if b.a[0].a[0] == 'via': raise Limit('unsupported zip with a borrowed iterator')
        return [(st, mk('iter', x.a[0], x.a[1] + (mk('stage', 'zip', b),), x.a[2]))]
    if nm == 'take' and x.a[0].a[0] == 'repeat' and not x.a[1] and x.a[2] is ZERO: return [(st, it('own', mk('repeat', x.a[0].a[1], st.val(a[1]))))]
    return [(st, mk('iter', x.a[0], x.a[1] + (mk('stage', nm, *a[1:]),), x.a[2]))]
@m('std::iter::repeat', 'std::iter::once', 'std::iter::empty', 'std::iter::repeat_n')
def isrc(E, fr, st, a, d, aty):
    nm = d['path'].split('::')[-1]
    if nm == 'repeat': return [(st, it('repeat', a[0]))]
    return [(st, it('own', mk('repeat', a[0], st.val(a[1])) if nm == 'repeat_n' else mk('vec', *a)))]
def srclen(st, src):
    k = src.a[0]
    if k == 'range': return sub(src.a[2], src.a[1]) if src.a[2] is not NONE else None
    if k in ('chunks', 'chunks_exact', 'windows'): return mk('len', mk(k, st.val(src.a[1]), src.a[2]))
    if k == 'chars':
        v = src.a[1]
        return INT(len(v.a[0])) if v.op == 'str' else mk('len', mk('chars', v))
    if k == 'opaque': return mk('len', src.a[1])
    if k in ('via', 'repeat'): return None
    return length(st.val(src.a[1]))
def srcelem(st, src, p):
    k = src.a[0]
    if k == 'ref': return ref(sub_place((src.a[1].a[0], src.a[1].a[1]), ('e', p)))
    if k == 'own': return elem(src.a[1], p)
    if k == 'range': return add(src.a[1], p)
    if k == 'repeat': return src.a[1]
    if k == 'chars':
        v = src.a[1]
        if v.op == 'str' and p.op == 'int' and 0 <= p.a[0] < len(v.a[0]): return CHAR(ord(v.a[0][p.a[0]]))
        return mk('elem', mk('chars', v), p)
    if k in ('chunks', 'chunks_exact', 'windows'):
        v = st.val(src.a[1]); return refval(mk('elem', mk(k, v, src.a[2]), p))
    if k == 'opaque': return mk('elem', src.a[1], p)
    pl = src.a[1].a if k in ('kv', 'keys', 'values') else None
    mv = st.val(src.a[1]); key = mk('keyat', mv, p)
    if k == 'kv': return mk('tup', refval(key), ref((pl[0], pl[1] + (('k', key),))))
    if k == 'keys': return refval(key)
    if k == 'values': return ref((pl[0], pl[1] + (('k', key),)))
    if k == 'kvown': return mk('tup', key, mget(mv, key))
    if k == 'keysown': return key
END = mk('END')
def advance(E, fr, st, itv, peek=False):
    """[(state, element | END | SKIP, next position)]"""
    src, stages, pos = itv.a
    n = srclen(st, src)
    idxs = [None] * (len(stages) + 1); idx = pos; idxs[len(stages)] = idx
    lens = [n]
    for s in stages:
        k = s.a[0]; L = lens[-1]
        lens.append(sub(L, s.a[1]) if k == 'skip' and L is not None else L)
    for i in range(len(stages) - 1, -1, -1):
        k = stages[i].a[0]
        if k == 'rev': idx = sub(sub(lens[i], ONE), idx)
        elif k == 'skip': idx = add(idx, stages[i].a[1])
        elif k == 'step_by': idx = mul(idx, stages[i].a[1])
        idxs[i] = idx
    conds = []
    rv = any(s.a[0] == 'rev' for s in stages)
    if n is not None:
        raw = pos if rv else idxs[0]
        if src.a[0] == 'range' and not rv: conds.append(lt(add(src.a[1], raw), src.a[2], True))
        else: conds.append(lt(raw, n if not rv else lens[-1], True))
    filt = False
    for i, s in enumerate(stages):
        k = s.a[0]
        if k in ('filter', 'filter_map', 'skip_while'): filt = True
        if k == 'take': conds.append(lt(idxs[i], s.a[1], True) if not filt else mk('lt', mk('count', pos), s.a[1]))
        if k == 'zip':
            L2 = srclen(st, s.a[1].a[0])
            if L2 is not None: conds.append(lt(idxs[i], L2, True))
    out = []; live = [st]
    for c in conds:
        nl = []
        for s in live:
            for s2, t in split(s, c):
                if t: nl.append(s2)
                else: out.append((s2, END, pos))
        live = nl
    nxt = add(pos, ONE)
    starts = []
    for s0 in live:
        if src.a[0] != 'via': starts.append((s0, srcelem(s0, src, idxs[0]))); continue
        up = (src.a[1].a[0], src.a[1].a[1]); u = s0.read(up)
        if u.op != 'iter': raise Limit('borrowed iterator of unknown state')
        for s2, e, nx in advance(E, fr, s0, u, peek):
            if e is END: out.append((s2, END, pos)); continue
            if not peek: s2.write(up, mk('iter', u.a[0], u.a[1], nx))
            if e is SKIP: out.append((s2, SKIP, pos))
            else: starts.append((s2, e))
    for s0, e0 in starts:
        cur = [(s0, e0)]
        filt = False
        for i, sg in enumerate(stages):
            k = sg.a[0]; new = []
            for s, e in cur:
                if k == 'map': new += E.call_value(fr, s, sg.a[1], [e])
                elif k in ('filter', 'take_while'):
                    for s2, b in E.call_value(fr, s, sg.a[1], [refval(e)]):
                        for s3, t in split(s2, b):
                            if t: new.append((s3, e))
                            else: out.append((s3, SKIP if k == 'filter' else END, nxt))
                    filt = filt or k == 'filter'
                elif k == 'filter_map':
                    for s2, o in E.call_value(fr, s, sg.a[1], [e]):
                        for s3, y in optcases(s2, o):
                            if y is None: out.append((s3, SKIP, nxt))
                            else: new.append((s3, y))
                    filt = True
                elif k == 'enumerate': new.append((s, mk('tup', idxs[i] if not filt else mk('count', pos), e)))
                elif k in ('cloned', 'copied'): new.append((s, s.rd(e) if e.op != 'elem' or True else e))
                elif k == 'inspect':
                    new += [(s2, e) for s2, _ in E.call_value(fr, s, sg.a[1], [refval(e)])]
                elif k == 'zip': new.append((s, mk('tup', e, srcelem(s, sg.a[1].a[0], idxs[i]))))
                else: new.append((s, e))
            cur = new
        out += [(s, e, nxt) for s, e in cur]
    return out
@m(IT + 'next', 'std::iter::DoubleEndedIterator::next_back')
def inext(E, fr, st, a, d, aty):
    p, x = peel(st, a[0])
    if x.op == 'adt' and x.a[0] in RANGES:
        lo, hi = rangeof(st, x); x = it('range', lo, hi if hi is not None else NONE); st.write(p, x)
    if x.op != 'iter' or d['path'].endswith('back'):
        r = mk('call', 'next', x); st.write(p, mk('advanced', x)); return [(st, r)]
    out = []; ok = E.skip_ok         # (calls inside the stages change the flag)
    for s, e, nx in advance(E, fr, st, x):
        if e is END: out.append((s, NONE))
        elif e is SKIP:
            s.write(p, mk('iter', x.a[0], x.a[1], nx)); 
            out.append((s, SKIP) if ok else None)
        else:
            s.write(p, mk('iter', x.a[0], x.a[1], nx)); out.append((s, SOME(e)))
    if None in out:     # a filtered iterator outside a plain loop: some later position
        r = consume(E, fr, st, x, 'find', lambda s, e: [('exit', 'hit', s, e)], back=p)
        return [(s, NONE if tag == 'none' else SOME(e)) for s, tag, e in r]
    return out
def inth(E, fr, st, a, d, aty):
    """nth(k) with a small constant k: k + 1 steps"""
    k = st.val(a[1])
    if a[0].op != 'ref' or k.op != 'int' or not 0 <= k.a[0] <= 32: return None
    p, x = peel(st, a[0])
    if x.op == 'adt' and x.a[0] in RANGES:
        lo, hi = rangeof(st, x); x = it('range', lo, hi if hi is not None else NONE)
    if x.op != 'iter': return None
    out = []; cur = [(st, x, None)]
    for _ in range(k.a[0] + 1):
        nxt = []
        for s, y, _e in cur:
            for s2, e, nx in advance(E, fr, s, y):
                if e is END: s2.write(p, y); out.append((s2, NONE))
                elif e is SKIP: return None
                else: nxt.append((s2, mk('iter', y.a[0], y.a[1], nx), e))
        cur = nxt
    for s, y, e in cur: s.write(p, y); out.append((s, SOME(e)))
    return out
@m('std::iter::Peekable::peek', 'std::iter::Peekable::peek_mut')
def ipeek(E, fr, st, a, d, aty):
    p, x = peel(st, a[0])
    if x.op != 'iter': return [(st, mk('call', 'peek', x))]
    return [(s, NONE if e in (END, SKIP) else SOME(refval(e))) for s, e, nx in advance(E, fr, st, x, True)]
@m('std::iter::Peekable::next_if', 'std::iter::Peekable::next_if_eq')
def inextif(E, fr, st, a, d, aty):
    p, x = peel(st, a[0])
    if x.op != 'iter': return None
    out = []
    for s, e, nx in advance(E, fr, st, x, True):
        if e in (END, SKIP): out.append((s, NONE)); continue
        if d['path'].endswith('_eq'): rs = [(s, eq(s.val(e), s.val(a[1])))]
        else: rs = E.call_value(fr, s, a[1], [refval(e)])
        for s2, b in rs:
            for s3, t in split(s2, b):
                if t: s3.write(p, mk('iter', x.a[0], x.a[1], nx)); out.append((s3, SOME(e)))
                else: out.append((s3, NONE))
    return out
def consume(E, fr, st, itv, what, body, acc=None, back=None):
    """Run a consuming adaptor as a loop; body(state, elem) -> [('back'|'exit', tag, state, value)]."""
    fu = Frame(fr.fn, fr.depth, fr); ip = (('L', fu.uid, 'it'), ()); ap = (('L', fu.uid, 'acc'), ())
    if back is None: back = E.back
    E.back = None
    st.write(ip, itv)
    if acc is not None: st.write(ap, acc)
    vals = {}
    def runner(s):
        outs = []
        for s2, e, nx in advance(E, fr, s, s.read(ip)):
            if e is END: outs.append(('exit', 'none', s2)); continue
            x = s2.read(ip); s2.write(ip, mk('iter', x.a[0], x.a[1], nx))
            if e is SKIP: outs.append(('back', s2)); continue
            for r in body(s2, e):
                if r[0] == 'back': outs.append(('back', r[2]))
                else: vals[id(r[2])] = r[3]; outs.append(('exit', r[1], r[2]))
        return outs
    span = E.cur_span; fnp = E.cur_fn; n = srclen(st, itv.a[0])
    if n is not None and n.op == 'int' and (what in ('fold', 'for_each') and n.a[0] <= 8 or E.unroll and n.a[0] <= 64):      # a few elements: one after the other
        cur, outs = [st], []
        for _ in range(n.a[0] + 1):
            nxt = []
            for s in cur:
                for o in runner(s):
                    (nxt if o[0] == 'back' else outs).append(o[1] if o[0] == 'back' else o)
            cur = nxt
    else: outs = E.loop(fr, st, f'{fr.fn.path.split("::")[-1]}.{what}@{fu.uid}', runner, fnp, span)
    E.cur_span, E.cur_fn = span, fnp
    res = []
    for o in outs:
        s = o[2]; a = s.mem.pop(ap[0], None)
        if back is not None: s.write(back, s.read(ip))
        s.mem.pop(ip[0], None)
        res.append((s, o[1], vals.get(id(s)) if o[1] != 'none' else a))
    return res
def asiter(E, fr, st, a, d, aty):
    x = a[0]; E.back = None
    if x.op == 'ref':        # consumed through a reference: the iterator behind it moves along
        v = via(E, st, x)
        if v is not None: E.back = (v.a[0].a[1].a[0], v.a[0].a[1].a[1]); x = st.read(E.back)
        else: x = st.val(x)
    if x.op == 'adt' and x.a[0] in RANGES:
        lo, hi = rangeof(st, x); x = it('range', lo, hi if hi is not None else NONE)
    if x.op != 'iter':
        x = it('opaque', mk('intoiter', st.val(x)))
    return x
@m(IT + 'collect', IT + 'to_vec')
def icollect(E, fr, st, a, d, aty):
    x = asiter(E, fr, st, a, d, aty); t = E.F.ty(d['targs'][1]) if len(d['targs']) > 1 else {'k': '', 's': VEC}
    df = t.get('def', '')
    plain = E.back is None and all(s.a[0] in ('cloned', 'copied') for s in x.a[1]) and x.a[2] is ZERO
    fm = x.a[0].a[1] if x.a[0].a[0] == 'opaque' and all(s.a[0] in ('cloned', 'copied') for s in x.a[1]) else None
    if fm is not None and fm.op in ('flat_map', 'flatten') and fm.a[0].op == 'iter' and df in (VEC, STRG):
        return [(s, v) for s, tag, v in collect_into(E, fr, st, fm.a[0], df, E.F, t, fm.a[1])]
    if df == VEC and plain and x.a[0].a[0] in ('own',): return [(st, x.a[0].a[1])]
    if df == VEC and plain and x.a[0].a[0] == 'ref' and x.a[1]: return [(st, st.val(x.a[0].a[1]))]
    if df == VEC and plain and x.a[0].a[0] == 'chars': return [(st, mk('chars', x.a[0].a[1]))]
    if df == VEC and plain and x.a[0].a[0] == 'opaque': return [(st, x.a[0].a[1])]
    if df == STRG and plain and x.a[0].a[0] == 'chars': return [(st, x.a[0].a[1])]
    return [(s, v) for s, tag, v in collect_into(E, fr, st, x, df, E.F, t)]
def collect_into(E, fr, st, x, df, F, t, flat=None):
    fu = Frame(fr.fn, fr.depth, fr)
    acc0 = MAP0 if df in MAPS + SETS else STR('') if df == STRG else mk('vec')
    wrap = None
    if df in (RESULT, OPTION):
        wrap = df; inner = F.ty(t['args'][0]); 
        acc0 = MAP0 if inner.get('def') in MAPS + SETS else STR('') if inner.get('def') == STRG else mk('vec')
    box = [None]
    ap = (('L', fu.uid, 'acc'), ())
    st.write(ap, acc0)
    def put(s, e):
        v = s.read(ap)
        if acc0 is MAP0:
            if e.op == 'tup' and len(e.a) == 2 and df in MAPS: s.write(ap, mset(v, s.val(e.a[0]), e.a[1]))
            else: s.write(ap, mk('sadd', v, s.val(e)))
        elif acc0 is STR(''): 
            o = s.val(e); s.write(ap, mk('cat', v, mk('chstr', o) if o.op == 'char' or o.op == 'elem' else o))
        else: s.write(ap, push(v, e))
    def body(s, e):
        if wrap == RESULT:
            r = []
            for s2, ok, y in rescases(s, e):
                if ok: put(s2, y); r.append(('back', None, s2, None))
                else: r.append(('exit', 'err', s2, ERR(y)))
            return r
        if wrap == OPTION:
            r = []
            for s2, y in optcases(s, e):
                if y is not None: put(s2, y); r.append(('back', None, s2, None))
                else: r.append(('exit', 'err', s2, NONE))
            return r
        if flat is not None:
            r = []
            for s2, g in (E.call_value(fr, s, flat, [e]) if flat is not UNIT else [(s, e)]):
                if g.op == 'iter' and all(x.a[0] in ('cloned', 'copied') for x in g.a[1]) and g.a[2] is ZERO and g.a[0].a[0] in ('own', 'ref'): g = s2.val(g.a[0].a[1])
                if g.op == 'ref': g = s2.val(g)
                if g.op == 'vec':
                    for y in g.a: put(s2, y)
                else: s2.write(ap, cat(s2.read(ap), g))
                r.append(('back', None, s2, None))
            return r
        put(s, e); return [('back', None, s, None)]
    res = []
    for s, tag, v in consume(E, fr, st, x, 'collect', body):
        if tag == 'none':
            v = s.mem.pop(ap[0])
            v = OK(v) if wrap == RESULT else SOME(v) if wrap == OPTION else v
        else: s.mem.pop(ap[0], None)
        res.append((s, tag, v))
    return res
@m(IT + 'for_each')
def iforeach(E, fr, st, a, d, aty):
    x = asiter(E, fr, st, a, d, aty)
    return [(s, UNIT) for s, t, v in consume(E, fr, st, x, 'for_each', lambda s, e: [('back', None, s2, None) for s2, _ in E.call_value(fr, s, a[1], [e])])]
@m(IT + 'any', IT + 'all')
def iany(E, fr, st, a, d, aty):
    x = asiter(E, fr, st, a, d, aty); w = d['path'].endswith('any')
    if x.a[0].a[0] == 'own' and x.a[0].a[1].op == 'vec' and x.a[2] is ZERO: pass
    def body(s, e):
        r = []
        for s2, b in E.call_value(fr, s, a[1], [e]):
            for s3, t in split(s2, b): r.append(('exit', 'hit', s3, None) if t == w else ('back', None, s3, None))
        return r
    p = P(st, a[0]) if a[0].op == 'ref' else None
    return [(s, BOOL(w) if tag == 'hit' else BOOL(not w)) for s, tag, v in consume(E, fr, st, x, d['path'].split('::')[-1], body)]
@m(IT + 'find', IT + 'find_map', IT + 'position')
def ifind(E, fr, st, a, d, aty):
    x = asiter(E, fr, st, a, d, aty); k = d['path'].split('::')[-1]
    def body(s, e):
        r = []
        if k == 'find_map':
            for s2, o in E.call_value(fr, s, a[1], [e]):
                for s3, y in optcases(s2, o): r.append(('exit', 'hit', s3, y) if y is not None else ('back', None, s3, None))
            return r
        for s2, b in E.call_value(fr, s, a[1], [refval(e) if k == 'find' else e]):
            for s3, t in split(s2, b):
                if t:
                    itpos = [v for r_, v in s3.mem.items() if isinstance(r_, tuple) and r_[2] == 'it']
                    v = e if k == 'find' else sub(itpos[-1].a[2], ONE)
                    r.append(('exit', 'hit', s3, v))
                else: r.append(('back', None, s3, None))
        return r
    return [(s, SOME(v) if tag == 'hit' else NONE) for s, tag, v in consume(E, fr, st, x, k, body)]
@m(IT + 'fold')
def ifold(E, fr, st, a, d, aty):
    x = asiter(E, fr, st, a, d, aty)
    fu = Frame(fr.fn, fr.depth, fr); ap = (('L', fu.uid, 'acc'), ()); st.write(ap, a[1])
    def body(s, e):
        r = []
        for s2, v in E.call_value(fr, s, a[2], [s.read(ap), e]): s2.write(ap, v); r.append(('back', None, s2, None))
        return r
    return [(s, s.mem.pop(ap[0])) for s, tag, v in consume(E, fr, st, x, 'fold', body)]
@m(IT + 'count')
def icount(E, fr, st, a, d, aty):
    x = asiter(E, fr, st, a, d, aty)
    if not x.a[1] and x.a[2] is ZERO: return [(st, srclen(st, x.a[0]))]
    return [(st, mk('count', x))]
@m(IT + 'sum', IT + 'product', IT + 'max', IT + 'min', IT + 'last', IT + 'max_by_key', IT + 'min_by_key', IT + 'nth', IT + 'unzip', IT + 'partition', IT + 'cmp', IT + 'eq', IT + 'max_by', IT + 'min_by', IT + 'reduce', IT + 'try_for_each', IT + 'try_fold', IT + 'rposition')
def isum(E, fr, st, a, d, aty):
    nm = d['path'].split('::')[-1]
    if nm == 'nth':
        r = inth(E, fr, st.fork(), a, d, aty)
        if r is not None: return r
    x = asiter(E, fr, st, a, d, aty)
    v = mk('agg', nm, x, *[st.val(y) for y in a[1:]])
    if nm in ('max', 'min', 'sum', 'product'):
        # the mapped elements, for checkers
        fu = Frame(fr.fn, fr.depth, fr); ap = (('L', fu.uid, 'acc'), ()); st.write(ap, mk('vec'))
        def body(s, e): s.write(ap, push(s.read(ap), s.val(e))); return [('back', None, s, None)]
        res = []
        for s, tag, _ in consume(E, fr, st, x, nm, body):
            acc = s.mem.pop(ap[0]); val = mk('agg', nm, acc); E.agginit = None
            if nm in ('max', 'min'):
                res += [(s2, SOME(refval(val)) if aggref(x) else SOME(val)) if t else (s2, NONE) for s2, t in split(s, NOT(eq(length(acc), ZERO)))]
            else: res.append((s, val))
        return res
    return [(st, v)]
def aggref(x):
    r = x.a[0].a[0] in ('ref', 'keys', 'values')
    for s in x.a[1]:
        if s.a[0] in ('map', 'cloned', 'copied', 'filter_map'): r = False
    return r
@m('std::iter::Extend::extend')
def iextend(E, fr, st, a, d, aty):
    p, v = peel(st, a[0]); t = E.F.ty(d['targs'][0])
    x = a[1]
    if x.op != 'iter':
        tt = E.F.ty(d['targs'][2]) if len(d['targs']) > 2 else None
        r = intoiter(E, fr, st, [x], dict(d, targs=d['targs'][2:]), aty[1:]) if tt else None
        if r and len(r) > 1: return [o for s2, y in r for o in iextend(E, fr, s2, [a[0], y], d, aty)]
        x = r[0][1] if r else x
    if ismap(t):
        mutate(E, st, p, 'extend', (iterval(E, st, x),), mk('mext', v, iterval(E, st, x))); return [(st, UNIT)]
    o = iterval(E, st, x)
    if o.op != 'iter':
        if t['s'] == STRG: nv = mk('cat', v, o)
        else: nv = cat(v, o)
        mutate(E, st, p, 'extend', (o,), nv); return [(st, UNIT)]
    def body(s, e):
        q = s.read(p); mutate(E, s, p, 'push', (e,), push(q, e) if t['s'] != STRG else mk('cat', q, mk('chstr', s.val(e)))); return [('back', None, s, None)]
    return [(s, UNIT) for s, tag, v in consume(E, fr, st, x, 'extend', body)]
# --- strings ------------------------------------------------------------------------------------------
@m(STRG + '::new')
def snew(E, fr, st, a, d, aty): return [(st, STR(''))]
@m(STRG + '::with_capacity')
def snew2(E, fr, st, a, d, aty): return [(st, STR(''))]
def pure(nm):
    def f(E, fr, st, a, d, aty):
        return [(st, mk('call', nm or d['path'].split('::')[-1], *[st.val(x) for x in a]))]
    return f
for _n in ('trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'replace', 'contains', 'starts_with', 'ends_with', 'eq_ignore_ascii_case', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'find', 'rfind', 'to_ascii_lowercase', 'to_ascii_uppercase', 'repeat', 'is_char_boundary', 'replacen', 'matches'):
    for _p in (STRP, STRG, 'std::str'): MODELS[f'{_p}::{_n}'] = pure(_n)
@m(STRP + '::strip_prefix', STRP + '::strip_suffix', STRP + '::split_once', STRP + '::rsplit_once')
def sstrip(E, fr, st, a, d, aty):
    nm = d['path'].split('::')[-1]; v = mk('call', nm, *[st.val(x) for x in a])
    if nm.startswith('strip'):
        c = mk('call', 'starts_with' if 'prefix' in nm else 'ends_with', *[st.val(x) for x in a])
        return [(s, SOME(refval(mk('call', nm + 'ped', *v.a[1:]))) if t else NONE) for s, t in split(st, c)]
    return [(st, v)]
@m(STRP + '::parse')
def sparse(E, fr, st, a, d, aty):
    t = E.F.ty(d['targs'][0]) if d.get('targs') else {}
    if t.get('k') == 'adt':
        own = f"<{norm(t['def'])} as std::str::FromStr>::from_str"
        if own in E.F.fns: return E.call_path(fr, st, own, own, {'path': own, 'targs': []}, [a[0]], E.F.fns[own].locals[1:2])
    return [(st, mk('call', 'parse', STR(E.F.tstr(d['targs'][0]) if d.get('targs') else ''), st.val(a[0])))]
for _n in ('is_alphabetic', 'is_numeric', 'is_alphanumeric', 'is_whitespace', 'is_ascii_digit', 'is_digit', 'is_ascii', 'is_ascii_alphabetic', 'is_ascii_alphanumeric', 'is_uppercase', 'is_lowercase', 'to_ascii_uppercase', 'to_digit', 'len_utf8', 'is_ascii_punctuation', 'is_ascii_whitespace', 'is_control'):
    def f(E, fr, st, a, d, aty, _n=_n):
        c = st.val(a[0])
        if c.op == 'char':
            ch = chr(c.a[0])
            t = {'is_alphabetic': ch.isalpha(), 'is_numeric': ch.isnumeric(), 'is_alphanumeric': ch.isalnum(), 'is_whitespace': ch.isspace(), 'is_ascii_digit': ch in '0123456789', 'is_ascii': c.a[0] < 128}.get(_n)
            if t is not None: return [(st, BOOL(t))]
        return [(st, mk('call', _n, c))]
    for _p in ('std::char::methods', 'core::char::methods', 'core::num', 'char', 'core::str'): MODELS[f'{_p}::{_n}'] = f
@m('std::char::from_u32', 'std::char::methods::from_u32')
def cfrom(E, fr, st, a, d, aty): return [(st, mk('call', 'char::from_u32', a[0]))]
# --- numbers ------------------------------------------------------------------------------------------
@m('core::num::saturating_sub')
def satsub(E, fr, st, a, d, aty):
    x, y = a
    return [(s, ZERO if t else sub(x, y)) for s, t in split(st, lt(x, y, True))]
@m('core::num::checked_sub')
def chksub(E, fr, st, a, d, aty):
    x, y = a
    return [(s, NONE if t else SOME(sub(x, y))) for s, t in split(st, lt(x, y, True))]
@m('core::num::checked_add', 'core::num::checked_mul')
def chkadd(E, fr, st, a, d, aty):
    r = add(*a) if d['path'].endswith('add') else mul(*a); n = mk('overflow', r)
    return [(s, NONE if t else SOME(r)) for s, t in split(st, n)]
@m('core::num::wrapping_add', 'core::num::saturating_add')
def wadd(E, fr, st, a, d, aty): return [(st, add(*a))]
@m('core::num::wrapping_sub')
def wsub(E, fr, st, a, d, aty): return [(st, sub(*a))]
@m('core::num::wrapping_mul', 'core::num::saturating_mul')
def wmul(E, fr, st, a, d, aty): return [(st, mul(*a))]
@m('core::num::abs_diff', 'core::num::pow', 'core::num::abs', 'core::num::leading_zeros', 'core::num::trailing_zeros', 'core::num::is_power_of_two', 'core::num::rotate_left', 'core::num::rotate_right', 'core::num::div_ceil', 'core::num::next_multiple_of', 'core::num::swap_bytes', 'core::num::reverse_bits', 'core::num::count_ones', 'core::num::isqrt', 'core::num::rem_euclid')
def numpure(E, fr, st, a, d, aty): return [(st, mk('call', d['path'].split('::')[-1], *a))]
@m('core::num::to_be_bytes', 'core::num::to_le_bytes')
def tobe(E, fr, st, a, d, aty):
    p = d['path']; w = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'usize': 8, 'i32': 4, 'i64': 8}
    import re
    k = re.search(r'impl (\w+)>', p); n = w.get(k.group(1), 0) if k else 0
    be = 'be' in p
    if a[0].op == 'int': 
        b = (a[0].a[0] & ((1 << 8 * n) - 1)).to_bytes(n, 'big' if be else 'little'); return [(st, mk('bytes', tuple(b)))]
    if n == 1: return [(st, mk('vec', a[0]))]
    return [(st, mk('be' if be else 'le', a[0], n))]
@m('core::num::from_be_bytes', 'core::num::from_le_bytes')
def frombe(E, fr, st, a, d, aty):
    v = st.val(a[0]); be = 'be' in d['path'].split('::')[-1]
    if v.op in ('be', 'le') and (v.op == 'be') == be: return [(st, v.a[0])]
    n = length(v)
    if n.op == 'int' and n.a[0] <= 8:
        r = ZERO
        for i in range(n.a[0]):
            x = elem(v, INT(i if be else n.a[0] - 1 - i)); E.tyb(x, {'k': 'uint', 's': 'u8'})
            r = add(mul(INT(256), r), x)
        return [(st, r)]
    return [(st, mk('from_be' if be else 'from_le', v))]
for _n in ('sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'abs', 'powf', 'powi', 'floor', 'ceil', 'round', 'ln', 'log10', 'exp', 'max', 'min', 'is_nan', 'trunc', 'atan2', 'rem_euclid', 'signum', 'log', 'log2', 'to_radians', 'to_degrees'):
    for _p in ('std::f64', 'core::f64', 'std::f32', 'core::f32', 'core::num', 'core::f64::math', 'std::num'):
        MODELS.setdefault(f'{_p}::{_n}', pure('f64.' + _n))
# --- formatting ----------------------------------------------------------------------------------------
def fmtarg(E, fr, st, a, d, aty):
    k = d['path'].split('::')[-1]; v = st.val(a[0])
    if k == 'new_display':
        t = E.F.ty(d['targs'][-1])
        while t['k'] == 'ref': t = E.F.types[t['to']]
        if t['k'] == 'char': v = STR(chr(v.a[0])) if v.op == 'char' else mk('chstr', v)
        elif t['k'] != 'str' and t.get('def') != STRG: v = mk('tostr', v)
        return [(st, mk('arg', v))]
    return [(st, mk('arg', mk('shown', k, v)))]
def scat(v, o): return STR(v.a[0] + o.a[0]) if v.op == 'str' and o.op == 'str' else o if v is STR('') else v if o is STR('') else mk('cat', v, o)
def fmtpieces(x):
    """the text a format template with its arguments stands for (plain placeholders only)"""
    if len(x.a) != 2 or x.a[0].op != 'bytes' or x.a[1].op != 'vec': return None
    b, args = x.a[0].a[0], x.a[1].a; i = n = 0; out = STR('')
    while i < len(b) and b[i] != 0:
        c = b[i]; i += 1
        if c < 0x80: o = STR(bytes(b[i:i + c]).decode('utf-8')); i += c
        elif c == 0x80: l = b[i] | b[i + 1] << 8; i += 2; o = STR(bytes(b[i:i + l]).decode('utf-8')); i += l
        else:
            if c & ~0xC8 or c < 0xC0: return None
            if c & 8: n = b[i] | b[i + 1] << 8; i += 2
            if n >= len(args) or args[n].op != 'arg': return None
            o = args[n].a[0]; n += 1
        out = scat(out, o)
    return out
for _n in ('new_display', 'new_debug', 'new_lower_hex', 'new_upper_hex', 'new_binary', 'new_octal', 'from_usize'):
    MODELS['core::fmt::rt::Argument::' + _n] = fmtarg
@m('std::fmt::Arguments::new', 'std::fmt::Arguments::new_v1', 'std::fmt::Arguments::new_const', 'std::fmt::Arguments::from_str', 'std::fmt::Arguments::from_str_nonconst')
def fmtargs(E, fr, st, a, d, aty): return [(st, mk('fmtargs', *[st.val(x) for x in a]))]
@m('std::fmt::format')
def fmtf(E, fr, st, a, d, aty):
    x = a[0]
    if x.op == 'fmtargs' and len(x.a) == 1: return [(st, x.a[0])]
    if x.op == 'fmtargs':
        t = fmtpieces(x)
        if t is not None: return [(st, t)]
    return [(st, mk('fmt', *x.a) if x.op == 'fmtargs' else mk('fmt', x))]
@m('std::io::_print', 'std::io::_eprint')
def fprint(E, fr, st, a, d, aty):
    E.event(st, 'print', d['path'].split('_')[-1], (a[0],)); return [(st, UNIT)]
# --- closures ------------------------------------------------------------------------------------------
@m('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once')
def fcall(E, fr, st, a, d, aty):
    f = a[0]; args = list(a[1].a) if a[1].op == 'tup' else [a[1]]
    p = None
    if f.op == 'ref':
        p = (f.a[0], f.a[1]); v = st.read(p)
        while v.op == 'ref': p = (v.a[0], v.a[1]); v = st.read(p)
        if v.op == 'clo':
            fn = E.F.fns.get(v.a[0])
            et = E.F.ty(fn.locals[1])
            return E.call_fn(fn, st, [ref(p) if et['k'] == 'ref' else v] + args, fr)
        f = v
    return E.call_value(fr, st, f, args)
@m('std::process::exit')
def pexit(E, fr, st, a, d, aty):
    E.event(st, 'exit', 'exit', (a[0],)); E.panic(st, 'exit'); return []

"""S07: the serialisers of everything the inspection dump holds."""
import re
from lib import *
from engine import Fn
CHECKS, INFO = {}, {}
FILE = 'file::FmpFile'
HOLD = ('std::vec::Vec', 'alloc::vec::Vec', 'std::collections::BTreeMap', 'std::option::Option', 'std::boxed::Box', 'std::collections::HashMap', 'std::collections::VecDeque', 'std::collections::BTreeSet')
def parts(F, i):
    """the crate's own types that a value of this type holds"""
    t = F.ty(i) if isinstance(i, int) else i
    if t['k'] == 'adt':
        d = norm(t['def']); own = {d} if d in F.adts and not d.startswith(('std::', 'core::', 'alloc::')) else set()
        return own | {x for a in t.get('args') or [] if isinstance(a, int) for x in parts(F, a)}
    if t['k'] in ('ref', 'array', 'slice'): return parts(F, t['to'] if t['k'] == 'ref' else t.get('el', t.get('of'))) if (t.get('to') if t['k'] == 'ref' else t.get('el', t.get('of'))) is not None else set()
    if t['k'] == 'tuple': return {x for a in t.get('args') or t.get('els') or [] for x in parts(F, a)}
    return set()
def holder(t):
    while t.op in ('ref', 'deref', 'tostr', 'clone'): t = t.a[0]
    return t
def s07(F, rep, tier):
    if FILE not in F.adts: raise Limit(f'the type {FILE} is gone')
    impl = {}
    for f in F.d['fns']:
        m = re.search(r'serde::(?:ser::)?Serialize for ([\w:]+)>::serialize$', f['path']) or re.match(r'<([\w:]+) as serde::(?:ser::)?Serialize>::serialize$', f['path'])
        if m: impl[norm(m.group(1))] = f
    todo, seen = [FILE], set()
    while todo:
        a = todo.pop()
        if a in seen: continue
        seen.add(a); ad = F.adts[a]
        for v in ad['variants']:
            for fd in v['fields']: todo += [x for x in parts(F, fd[1]) if x not in seen]
        W = f'{ad.get("span", "")} {a}'.strip()
        if a not in impl: raise Limit(f'how a {a} is written cannot be found')
        f = impl[a]; key = 'S07:' + a; F.fns[key] = Fn(f, F); W = f'{f["span"]} {a}'
        try: E, outs = run(F, rep, key)
        finally: del F.fns[key]
        me = a.split('::')[-1]; rep.count('types'); good = 0; names = {}
        for st, r in outs:
            calls = [e for e in st.events if e.kind == 'call' and ('erializ' in e.name or 'Serialize' in e.name)]
            if r.op == 'adt' and r.a[1] == 1: continue          # an error, which stops the program (S04)
            end = [e for e in calls if e.name.endswith('::end') or 'serialize_unit_variant' in e.name or 'serialize_newtype_variant' in e.name or 'serialize_newtype_struct' in e.name]
            if calls and r.op != 'call' and not end: continue
            good += 1
            if not ad['enum']:
                fields = ad['variants'][0]['fields']; got = {}
                for e in calls:
                    if not e.name.endswith('serialize_field') and not e.name.endswith('serialize_entry'): continue
                    if len(e.args) != 3: raise Limit(f'{me}: a field is written by {e.name}')
                    nm, val = e.args[1], holder(st.val(e.args[2]))
                    if nm.op == 'ref': nm = st.val(nm)
                    if nm.op != 'str': raise Limit(f'{me}: a field is written under {short(nm)}')
                    got.setdefault(nm.a[0], []).append(val)
                if not got and any(e.name.endswith(('serialize_newtype_struct', 'collect_str', 'serialize_str')) for e in calls) : raise Limit(f'{me} is not written as a structure')
                for n_, vs in got.items(): rep.ob(len(vs) == 1, 'each attribute is written under a name of its own', W, f'{len(vs)} attributes of {me} are written as "{n_}"', f'{me}.dup.{n_}')
                for i, fd in enumerate(fields):
                    want = fld(mk('sym', 'self'), i); by = [n_ for n_, vs in got.items() if any(v is want for v in vs)]
                    if not by and any(contains(v, want) for vs in got.values() for v in vs): raise Limit(f'{me}.{fd[0]} is written in another form')
                    rep.ob(len(by) >= 1, 'every attribute is written', W, f'{fd[0]} of {me} is left out of the dump' + (f' ({facts_str(st.facts, 3)})' if st.facts else ''), f'{me}.{fd[0]}')
                    for n_ in by: names.setdefault(fd[0], set()).add(n_)
            else:
                d = discr(mk('sym', 'self'))
                for i, v in enumerate(ad['variants']):
                    if not possible(st, eq(d, INT(v.get('discr', i) if isinstance(v.get('discr', i), int) else i))): continue
                    w = [e for e in calls if '_variant' in e.name or e.name.endswith('serialize_str')]
                    if len(w) != 1: raise Limit(f'{me}::{v["name"]} is written by {[e.name for e in calls]}')
                    s = [x for x in (st.val(x) if x.op == 'ref' else x for x in w[0].args) if x.op == 'str' and x.a[0] != me] or [x for x in w[0].args if x.op == 'str'][-1:]
                    if len(s) != 1: raise Limit(f'{me}::{v["name"]} is written as {[short(x) for x in w[0].args]}')
                    names.setdefault(i, set()).add(s[0].a[0])
                    if v['fields'] and 'unit' in w[0].name: rep.ob(False, 'every attribute is written', W, f'what {me}::{v["name"]} holds is left out', f'{me}.{v["name"]}.held')
        if not good: raise Limit(f'no path writes a {me}')
        if any(isinstance(k, int) for k in names):
            by = {}
            for i, s in names.items():
                rep.ob(len(s) == 1, 'each kind is written under a name of its own', W, f'{ad["variants"][i]["name"]} is written as {sorted(s)}', f'{me}.{i}.one')
                for n_ in s: by.setdefault(n_, []).append(ad['variants'][i]['name'])
            for n_, vs in by.items(): rep.ob(len(vs) == 1, 'each kind is written under a name of its own', W, f'{vs} of {me} are all written as "{n_}"', f'{me}.{n_}')
            for i, v in enumerate(ad['variants']): rep.ob(i in names, 'every attribute is written', W, f'writing {me}::{v["name"]} always fails', f'{me}.{v["name"]}')
    rep.notes = ['keys and strings, numbers, lists and maps of the standard library are written by serde_json in full']
CHECKS['S07'] = s07
INFO['S07'] = 'every path of the serialiser of the file and of each type it holds, found through the types of its fields: which attribute is written under which name, and for enumerations which name stands for which kind'

"""S08: what the options of the command line mean."""
from lib import *
CHECKS, INFO = {}, {}
CLI, OPS = 'cli::CLI', 'cli::MainOperations'
SET, APPEND, SETTRUE, SETFALSE = range(4)
WANT = {'compile': ('c', None, True), 'decompile': ('d', None, True), 'test': ('t', None, True), 'print_header': (None, 'print-header', False), 'no_testing': (None, 'no-testing', False)}
HARMLESS = {'value_name', 'help', 'long_help', 'next_line_help', 'hide', 'help_heading', 'display_order', 'alias', 'aliases', 'visible_alias', 'visible_aliases', 'short_alias', 'visible_short_alias', 'value_hint', 'hide_possible_values', 'hide_default_value', 'hide_short_help', 'hide_long_help', 'id'}
CMD_HARMLESS = {'about', 'long_about', 'version', 'long_version', 'author', 'name', 'bin_name', 'display_name', 'before_help', 'after_help', 'help_template', 'next_line_help', 'arg_required_else_help', 'before_long_help', 'after_long_help', 'term_width', 'max_term_width', 'override_usage', 'disable_colored_help', 'color'}
def last(t): return str(t.a[0]).split('::')[-1] if t.op == 'call' else None
def owner_(t): return str(t.a[0]).split('::')[-2] if t.op == 'call' and '::' in str(t.a[0]) else ''
def string(t):
    while t.op in ('call', 'deref', 'ref', 'tostr', 'clone', 'owned') and (t.op != 'call' or last(t) in ('from', 'into', 'into_resettable')): t = t.a[-1]
    return t.a[0] if t.op == 'str' else chr(t.a[0]) if t.op == 'char' and isinstance(t.a[0], int) else t.a[0] if t.op == 'char' else None
def flag(t):
    if t.op == 'bool': return bool(t.a[0])
    if last(t) == 'takes_values' and t.a[1].op == 'adt': return t.a[1].a[1] in (SET, APPEND)
    return None
class Arg:
    def __init__(s, t):
        s.id = None; s.short = s.long = None; s.action = None; s.required = False; s.conflicts = set(); s.odd = []
        chain = []
        while last(t) != 'new' or owner_(t) != 'Arg':
            if t.op != 'call' or owner_(t) != 'Arg': raise Limit(f'an option is built in an unrecognised form: {short(t)}')
            chain.append((last(t), t.a[2:])); t = t.a[1]
        s.id = string(t.a[1])
        for n, a in reversed(chain):
            if n in HARMLESS: continue
            elif n == 'short': s.short = string(a[0])
            elif n == 'long': s.long = string(a[0])
            elif n == 'action': s.action = a[0].a[1] if a[0].op == 'adt' else None
            elif n == 'required':
                f = flag(a[0])
                if f is None: raise Limit(f'whether {s.id} must be given is not known: {short(a[0])}')
                s.required = f
            elif n == 'value_parser':
                if last(a[0]) != 'value_parser' or last(a[0].a[1]) != 'new' or len(a[0].a[1].a) > 1: s.odd.append(('values', f'the values of {s.id} are read by {short(a[0])}', None))
            elif n == 'conflicts_with': s.conflicts.add(string(a[0]))
            elif n == 'conflicts_with_all' and a[0].op == 'vec': s.conflicts |= {string(x) for x in a[0].a}
            elif n == 'num_args' and a[0] is ONE: pass
            elif n in ('value_delimiter', 'default_value', 'default_values', 'default_missing_value', 'default_value_if', 'default_value_ifs', 'requires', 'requires_if', 'requires_ifs', 'exclusive', 'overrides_with', 'overrides_with_all', 'overrides_with_self', 'last', 'index', 'env', 'ignore_case', 'require_equals', 'required_unless_present', 'required_if_eq', 'value_terminator'):
                if n in ('exclusive', 'last', 'ignore_case', 'require_equals') and a and flag(a[0]) is False: continue
                s.odd.append((n, f'{s.id} has {n}({", ".join(short(x) for x in a)})', False))
            else: s.odd.append((n, f'{s.id} has {n}', None))
class Group:
    def __init__(s, t):
        s.multiple = s.required = False; s.args = set(); chain = []
        while last(t) != 'new':
            if t.op != 'call' or owner_(t) != 'ArgGroup': raise Limit(f'a group of options is built in an unrecognised form: {short(t)}')
            chain.append((last(t), t.a[2:])); t = t.a[1]
        s.id = string(t.a[1])
        for n, a in reversed(chain):
            if n in ('multiple', 'required'):
                f = flag(a[0])
                if f is None: raise Limit(f'{n} of the group {s.id} is {short(a[0])}')
                setattr(s, n, f)
            elif n in ('arg', 'args'):
                xs = a[0].a if a[0].op == 'vec' else [a[0]]
                s.args |= {string(x) for x in xs}
                if None in s.args: raise Limit(f'the options of the group {s.id} are {short(a[0])}')
            elif n != 'id': raise Limit(f'the group {s.id} has {n}')
def s08(F, rep, tier):
    AUG, FROM = f'<{CLI} as clap::Args>::augment_args', f'<{CLI} as clap::FromArgMatches>::from_arg_matches_mut'
    for x in (AUG, FROM):
        if x not in F.fns: raise Limit(f'{x} is gone: the command line is not derived')
    W = f'{F.fns[AUG].span} {CLI}'
    E, outs = run(F, rep, AUG); rep.engine(E, outs)
    if len(outs) != 1: raise Limit('the command line is built in several ways')
    t = outs[0][0].val(outs[0][1]); args = {}; groups = []
    while t.op == 'call' and owner_(t) == 'Command':
        n = last(t)
        if n == 'arg': a = Arg(t.a[2]); args[a.id] = a
        elif n == 'group': groups.append(Group(t.a[2]))
        elif n not in CMD_HARMLESS: raise Limit(f'the command line has {n}')
        t = t.a[1]
    if t.op not in ('sym', 'param'): raise Limit(f'the command line begins with {short(t)}')
    # from the values of the options to the fields
    E, outs = run(F, rep, FROM); rep.engine(E, outs)
    fop = F.field(CLI, 'op'); field = lambda r, n: fld(fld(r, fop), F.field(OPS, n)) if F.has_field(OPS, n) else fld(r, F.field(CLI, n))
    for n in WANT:
        if not F.has_field(OPS, n) and not F.has_field(CLI, n): raise Limit(f'the command line has no {n}')
    ids = {}; oks = [(st, fld(dc(st.val(r), 0), 0)) for st, r in outs if st.val(r).op == 'adt' and st.val(r).a[1] == 0]
    if not oks: raise Limit('no path accepts a command line')
    W2 = f'{F.fns[FROM].span} {CLI}'
    for n in WANT:
        found = {string(x.a[-1]) for st, r in oks for x in subterms(field(r, n)) if x.op == 'call' and last(x) in ('remove_many', 'remove_one', 'get_many', 'get_one', 'get_flag', 'get_occurrences', 'remove_occurrences') and not any(x is not y and contains(y, x) for y in subterms(field(r, n)) if y.op == 'call' and last(y) in ('remove_many', 'remove_one', 'get_many', 'get_one'))}
        if len(found) != 1: raise Limit(f'{n} is filled from {sorted(map(str, found))}')
        ids[n] = found.pop()
        for st, r in oks:
            v = field(r, n)
            if not WANT[n][2]:
                x = v.a[0].a[0] if v.op == 'fld' and v.a[0].op == 'dc' else v
                rep.ob(x.op == 'call' and last(x) in ('remove_one', 'get_flag', 'get_one'), 'a switch is as given', W2, f'{n} becomes {short(v)}', f'{n}.value'); continue
            if v.op != 'adt': raise Limit(f'{n} becomes {short(v)}')
            if v.a[1] == 0:
                rep.ob(any(not t and f.op == 'call' and last(f) == 'contains_id' and string(f.a[-1]) == ids[n] for f, t in st.facts), 'every file named is passed on', W2, f'{n} is left out although it may be given', f'{n}.none'); continue
            src = [x for x in subterms(v) if x.op == 'call' and last(x) in ('remove_many', 'get_many') and string(x.a[-1]) == ids[n]]
            if not src:
                gone = any(f.op == 'eq' and f.a[0].op == 'discr' and f.a[1] is ONE and not t and last(f.a[0].a[0]) in ('remove_many', 'get_many') and string(f.a[0].a[0].a[-1]) == ids[n] for f, t in st.facts)
                rep.ob(gone, 'every file named is passed on', W2, f'{n} becomes {short(v)} although files may be named', f'{n}.empty'); continue
            x = v.a[2] if len(v.a) > 2 else v
            while x.op in ('call', 'seqmap', 'intoiter', 'iter', 'src', 'fld', 'dc', 'collect', 'map') and x is not src[0]:
                if x.op == 'call' and last(x) in ('skip', 'take', 'step_by', 'filter', 'rev', 'take_while', 'skip_while'): rep.ob(False, 'every file named is passed on', W2, f'{n} becomes {short(v)}', f'{n}.part'); break
                x = next((y for y in x.a if isinstance(y, T) and (y is src[0] or contains(y, src[0]))), src[0])
            rep.ob(True, 'every file named is passed on', W2, '', f'{n}.some')
    # the options
    for n, (s, l, files) in WANT.items():
        a = args.get(ids[n])
        if a is None: rep.ob(False, 'every option can be given', W, f'there is no option for {n}', f'{n}.gone'); continue
        rep.ob((s is None or a.short == s) and (l is None or a.long == l), 'an option has its own name', W, f'{n} is given by -{a.short} / --{a.long} instead of {"-" + s if s else "--" + l}', f'{n}.name')
        if files: rep.ob(a.action == APPEND, 'an option may be given for each file', W, f'naming a second file for {n} replaces the first' if a.action == SET else f'{n} takes no file', f'{n}.action')
        else: rep.ob(a.action == SETTRUE, 'a switch is off unless given', W, f'{n} is on unless given' if a.action == SETFALSE else f'{n} has the action {a.action}', f'{n}.action')
        rep.ob(not a.required, 'no single option must be given', W, f'{n} must be given', f'{n}.required')
        other = {'compile': 'decompile', 'decompile': 'compile'}.get(n)
        rep.ob(not (a.conflicts - {ids.get(other)}), 'options do not exclude each other', W, f'{n} cannot be given together with {sorted(map(str, a.conflicts))}', f'{n}.conflicts')
        for k, what, ok in a.odd:
            if ok is None: raise Limit(what)
            rep.ob(False, 'an option takes its values as given', W, what, f'{n}.{k}')
    names = [x for n in WANT if ids[n] in args for x in (('-', args[ids[n]].short), ('--', args[ids[n]].long)) if x[1]]
    rep.ob(len(set(names)) == len(names), 'an option has its own name', W, f'two options are given by the same name: {names}', 'names')
    for i, a in args.items():
        if i not in ids.values(): rep.ob(not a.required, 'no single option must be given', W, f'{i} must be given', f'{i}.required')
    c, d = ids['compile'], ids['decompile']; gs = [g for g in groups if {c, d} <= g.args]
    rep.ob(any(not g.multiple for g in gs) or c in args and d in args and (d in args[c].conflicts or c in args[d].conflicts), 'compiling and decompiling exclude each other', W, 'both operations can be asked for, and one of them is not carried out', 'exclusive')
    rep.ob(any(g.required and g.args == {c, d} for g in gs), 'an operation must be asked for', W, 'a command line without operation is accepted', 'needed')
    for g in groups:
        if not g.args: continue
        rep.ob(g.multiple or len(g.args & set(ids.values())) <= 1 or g.args <= {c, d}, 'options do not exclude each other', W, f'only one of {sorted(g.args)} can be given', f'group.{g.id}')
        rep.ob(not g.required or {c, d} <= g.args, 'no single option must be given', W, f'one of {sorted(g.args)} must be given', f'group.{g.id}.required')
    rep.count('options', len(args)); rep.count('paths', len(oks))
CHECKS['S08'] = s08
INFO['S08'] = 'the options as they are built (every call on every option and group) and every path that fills the fields of the command line from their values'

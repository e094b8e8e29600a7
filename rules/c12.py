"""C12: assignment is validated before anything is changed, frozen stays frozen, only the assigned field changes."""
import mir
import flow as fl
import util as u

VALERR = 'errors::line_error::ValError'
EXTRA = 'build_tools::ExtraBehavior'
MUT = ('set_item', 'del_item', 'setattr', 'delattr', 'add', 'update', 'clear', 'discard', 'append', 'insert', 'update_if_missing', 'set_slice')
FFI_MUT = ('PyObject_GenericSetAttr', 'PyObject_SetAttr', 'PyObject_SetItem', 'PyDict_SetItem', 'PyDict_Update', 'PyDict_Clear', 'PyObject_GenericSetDict')
FRESH = ('copy', 'new', 'empty', 'validate', 'validate_assignment', 'call_method0')
NESTED = ('validate', 'validate_assignment')
OBJECTS = ('validators::model::ModelValidator', 'validators::dataclass::DataclassValidator')
FIELDS = ('validators::model_fields::ModelFieldsValidator', 'validators::dataclass::DataclassArgsValidator')


def opaque(path):
    return path.startswith(('errors::', 'recursion_guard::', 'lookup_key::', 'tools::'))


def fresh(c):
    return not c.inlined and c.m in FRESH


def mutations(g):
    for c in g.calls:
        if c.inlined or not c.args:
            continue
        if c.m in MUT and 'pyo3' in c.name or any(c.name.endswith('::' + x) for x in FFI_MUT):
            yield c


def aliases(g, c, idx):
    """the object which is changed is (part of) that argument"""
    return any(s[0] == 'arg' and s[1] == idx for s in g.sources(c.args[0], stop=fresh)) if not isinstance(c.args[0], dict) else False


class At(fl.Assume):
    def __init__(self, node=None):
        self.node = node

    def call(self, c):
        if c.node == self.node:
            return {(): 'Err'}


class Field(fl.Assume):
    """the assigned name is (not) that of a field, which is (not) frozen; looked up with find or in a loop"""

    def __init__(self, g, found, frozen):
        self.g, self.found, self.frozen = g, found, frozen

    def call(self, c):
        if c.inlined:
            return None
        if c.m in ('find', 'find_map', 'get') and c.trait != 'validators::Validator':
            return {(): 'Some' if self.found else 'None'}
        if c.m in ('any', 'contains', 'contains_key'):
            return {(): self.found}
        if c.m == 'next' and self.found:
            return {(): 'Some'}
        if by_name(self.g, c):
            return {(): self.found}

    def boolean(self, place, node):
        if self.frozen is None or isinstance(place, dict):
            return None
        for pl in [place] + [rv[1] for dp, rv, n in self.g.defs[place[0]] if dp == place[1] and rv[0] == 'use' and not isinstance(rv[1], dict)]:
            if pl[1] and pl[1][-1] == '.frozen' and pl[0] != self.g.arg_locals[0]:
                return self.frozen


def by_name(g, c):
    return c.m == 'eq' and c.trait == 'std::cmp::PartialEq' and any(
        not isinstance(a, dict) and any(s[0] == 'arg' and s[1] == 3 for s in g.sources(a)) for a in c.args)


def impls(p):
    for path, fn in sorted(p.fns.items()):
        if path.startswith('<') and path.endswith(' as validators::Validator>::validate_assignment'):
            yield path[1:].split(' as ')[0], fn


def after(f, node):
    live = f.reach(f.entry_states())
    return f.reach([t for s in f.at.get(node, ()) if s in live for _, t in f.succ[s]])


def made(g, f, states):
    """error types built / errors raised in those states"""
    kinds = set()
    for n in g.nodes:
        if not set(f.at.get(n.id, ())) & states:
            continue
        for pl, rv, ln in n.stmts:
            if rv[0] == 'adt' and rv[1] in ('errors::types::ErrorType',):
                kinds.add(rv[2])
            for o in mir.operands_of(rv):
                if isinstance(o, dict) and 'named' in o and 'ErrorTypeDefaults' in o['named']:
                    kinds.add(o['named'].split('::')[-1])
        if n.term[0] == 'call':
            for o in n.term[1].args:
                if isinstance(o, dict) and 'named' in o and 'ErrorTypeDefaults' in o['named']:
                    kinds.add(o['named'].split('::')[-1])
    return kinds


def order(p, rep):
    for own, fn in impls(p):
        names = [fn.d['names'].get(str(i + 1)) for i in range(fn.d['args'])]
        oi = 2
        g = u.graph(p, fn, noinline=opaque)
        muts = [c for c in mutations(g) if aliases(g, c, oi)]
        nested = [c for c in g.calls if not c.inlined and c.m in NESTED]
        rep.count('assignment_functions')
        f = u.flow(g)
        for c in muts:
            r = after(f, c.node)
            bad = [x for x in nested if set(f.at.get(x.node, ())) & r and g.nodes[x.node].frame is not None]
            errs = [x for x in g.calls if not x.inlined and x.name.startswith(VALERR + '::new') and set(f.at.get(x.node, ())) & r]
            rep.ob('order', f'{u.short(own)}: {c.m}', not bad and not errs,
                   'the object is changed before ' + ', '.join(g.where(x.node) for x in bad + errs) + ' can still reject the assignment', g.where(c.node))
            rep.count('changes')
        for v in nested:
            fv = fl.Flow(g, assume=At(v.node))
            r = after(fv, v.node)
            for c in muts:
                rep.ob('order', f'{u.short(own)}: {c.m} at {g.where(c.node).split(":")[-1]} when {v.m} at {g.where(v.node).split(":")[-1]} fails',
                       not set(fv.at.get(c.node, ())) & r, 'the object is changed although the value was rejected', g.where(c.node))
            ends = {fv.exit_variant(s) for s in r & set(fv.exits)}
            rep.ob('order', f'{u.short(own)}: failing {v.m} at {g.where(v.node).split(":")[-1]}', bool(ends) and ends == {'Err'}, 'the assignment can succeed', g.where(v.node))
        # what is handed on to an inner assignment
        for v in nested:
            if v.m != 'validate_assignment':
                continue
            for k, nm in ((3, 'field_name'), (4, 'field_value')):
                src = {s for s in g.sources(v.args[k], stop=lambda c: not c.inlined) if s[0] in ('arg', 'call', 'str', 'const')} if not isinstance(v.args[k], dict) else {'const'}
                rep.ob('pass', f'{u.short(own)}: {nm}', src and all(s[0] == 'arg' and s[1] == k for s in src), f'comes from {sorted(map(str, src))}', g.where(v.node))
                rep.count('handed_on')


def frozen(p, rep):
    by = dict(impls(p))
    for own in OBJECTS:
        fn = by.get(own)
        if fn is None:
            rep.ob('frozen', own, False, 'no validate_assignment', own)
            continue
        g = u.graph(p, fn, noinline=opaque)
        for val in (True, False):
            f = fl.Flow(g, seed={(g.arg_locals[0], ('.frozen',)): val})
            r = f.reach(f.entry_states())
            ends = {f.exit_variant(s) for s in r & set(f.exits)}
            kinds = made(g, f, r)
            ran = [c for c in g.calls if not c.inlined and (c.m in NESTED or c in list(mutations(g)) and aliases(g, c, 2)) and set(f.at.get(c.node, ())) & r]
            if val:
                rep.ob('frozen', f'{u.short(own)}: a frozen instance rejects', ends == {'Err'} and kinds == {'FrozenInstance'} and not ran,
                       f'exits {sorted(map(str, ends))}, errors {sorted(kinds)}, runs {[c.m for c in ran]}', u.where(fn))
            else:
                rep.ob('frozen', f'{u.short(own)}: others do not', 'FrozenInstance' not in kinds and 'Ok' in ends | {'Ok' if None in ends else ''}, 'rejected as frozen', u.where(fn))
            rep.count('scenarios')
    for own in FIELDS:
        fn = by.get(own)
        if fn is None:
            rep.ob('frozen', own, False, 'no validate_assignment', own)
            continue
        g = u.graph(p, fn, noinline=opaque)
        for found in ('Some', 'None'):
            for fr in ((True, False) if found == 'Some' else (None,)):
                for extra in ('Allow', 'Forbid', 'Ignore'):
                    f = fl.Flow(g, seed={(g.arg_locals[0], ('.extra_behavior',)): extra}, assume=Field(g, found == 'Some', fr))
                    r = f.reach(f.entry_states())
                    ends = {f.exit_variant(s) for s in r & set(f.exits)}
                    kinds = made(g, f, r)
                    vals = [c for c in g.calls if not c.inlined and c.m == 'validate' and set(f.at.get(c.node, ())) & r]
                    chg = [c for c in mutations(g) if aliases(g, c, 2) and set(f.at.get(c.node, ())) & r]
                    rep.count('scenarios')
                    key = f'{u.short(own)}: ' + ({True: 'frozen field', False: 'field', None: 'unknown name'}[fr]) + f', extra {extra}'
                    if fr:
                        ok = ends == {'Err'} and kinds == {'FrozenField'} and not vals and not chg
                    elif found == 'Some':
                        ok = not kinds and bool(vals) and bool(chg) and 'Ok' in ends
                    elif extra == 'Allow':
                        ok = not kinds and bool(chg) and 'Ok' in ends
                    else:
                        ok = ends == {'Err'} and kinds == {'NoSuchAttribute'} and not vals and not chg
                    rep.ob('frozen', key, ok, f'exits {sorted(map(str, ends))}, errors {sorted(kinds)}, validates {[g.where(c.node) for c in vals]}, changes {[g.where(c.node) for c in chg]}', u.where(fn))
        # the field is found by its name
        ok = [c for c in g.calls if not c.inlined and by_name(g, c)]
        rep.ob('frozen', f'{u.short(own)}: found by name', bool(ok), 'no comparison with the assigned name', u.where(fn))


def stored(p, rep):
    """what is written into the object's fields: the validated value under the assigned name, nothing else"""
    by = dict(impls(p))
    for own in FIELDS:
        fn = by.get(own)
        if fn is None:
            continue
        g = u.graph(p, fn, noinline=opaque)
        for c in mutations(g):
            if not aliases(g, c, 2) or c.m != 'set_item':
                continue
            f = u.flow(g)
            key = set() if isinstance(c.args[1], dict) else {s[1] for s in g.sources(c.args[1], stop=lambda c: not c.inlined) if s[0] == 'arg'}
            rep.ob('stored', f'{u.short(own)}: key', key == {3}, f'stored under {sorted(key)}', g.where(c.node))
            vs = set() if isinstance(c.args[2], dict) else g.sources(c.args[2], stop=lambda c: not c.inlined)
            val = any(s[0] == 'call' and s[1].endswith('::validate') for s in vs)
            raw = any(s[0] == 'arg' and s[1] == 4 for s in vs)
            other = {s[1] for s in vs if s[0] == 'arg' and s[1] not in (3, 4)}
            rep.count('stored')
            if raw:
                # only for extras which have no validator
                fs = fl.Flow(g, assume=Field(g, True, None))
                bad = set(fs.at.get(c.node, ())) & fs.reach(fs.entry_states())
                vl = [x for x in g.calls if not x.inlined and x.m == 'validate']
                fb = fl.Flow(g, seed={(g.arg_locals[0], ('.extras_validator',)): 'Some'})
                # (dataclass schemas declare no extras_schema)
                bad2 = own == FIELDS[0] and has_field(p, fn, 'extras_validator') and set(fb.at.get(c.node, ())) & fb.reach(fb.entry_states())
                rep.ob('stored', f'{u.short(own)}: value as given', not bad and not bad2, 'a declared field or a validated extra is stored without its validator', g.where(c.node))
            else:
                rep.ob('stored', f'{u.short(own)}: validated value', val and not other, f'stored value comes from {sorted(map(str, vs))[:4]}', g.where(c.node))


def objects(p, rep):
    by = dict(impls(p))
    for own in OBJECTS:
        fn = by.get(own)
        if fn is None:
            continue
        g = u.graph(p, fn, noinline=opaque)
        for c in mutations(g):
            if any(c.name.endswith('::' + x) for x in FFI_MUT):
                vs = set() if isinstance(c.args[-1], dict) else g.sources(c.args[-1], stop=lambda c: not c.inlined and c.m in NESTED)
                for x in mutations(g):
                    if x.m == 'update' and not isinstance(x.args[1], dict):
                        vs = vs | g.sources(x.args[1], stop=lambda c: not c.inlined and c.m in NESTED)
                rep.ob('stored', f'{u.short(own)}: attribute set', any(s[0] == 'call' and s[1].split('::')[-1] in NESTED for s in vs) and not any(s[0] == 'arg' and s[1] == 4 for s in vs),
                       'not the outcome of the validation', g.where(c.node))
                if not isinstance(c.args[1], dict) and ('str', '__dict__') in g.sources(c.args[1]):
                    def old(op):
                        x = set() if isinstance(op, dict) else g.sources(op, stop=lambda c: not c.inlined and c.m in NESTED)
                        return ('str', '__dict__') in x and any(s[0] == 'arg' and s[1] == 2 for s in x)
                    inner = [v for v in g.calls if not v.inlined and v.m == 'validate_assignment']
                    rep.ob('stored', f'{u.short(own)}: attributes which are not fields are kept', old(c.args[-1]) or any(old(v.args[2]) for v in inner),
                           'the new __dict__ is not made from the old one', g.where(c.node))
                    rep.count('stored')
                rep.count('stored')
            elif c.m == 'set_item':
                key = set() if isinstance(c.args[1], dict) else {s[1] for s in g.sources(c.args[1], stop=lambda c: not c.inlined) if s[0] == 'arg'}
                vs = set() if isinstance(c.args[2], dict) else g.sources(c.args[2], stop=lambda c: not c.inlined and c.m in NESTED)
                kept = any(s[0] == 'call' and s[1].endswith('::getattr') for s in vs) and any(s[0] == 'arg' and s[1] == 2 for s in vs) and not any(s[0] == 'arg' and s[1] == 4 for s in vs)
                rep.ob('stored', f'{u.short(own)}: key', key == {3} or not key and kept, f'stored under {sorted(key)}', g.where(c.node))
            elif c.m in ('del_item', 'clear'):
                rep.ob('stored', f'{u.short(own)}: nothing is removed', False, 'other fields are removed', g.where(c.node))
        for v in g.calls:
            if not v.inlined and v.m == 'validate_assignment':
                src = g.sources(v.args[2], stop=lambda c: not c.inlined and c.m in NESTED)
                rep.ob('stored', f'{u.short(own)}: the other fields come from the instance', any(s[0] == 'arg' and s[1] == 2 for s in src) and any(s[0] == 'call' and s[1].split('::')[-1] in ('copy', 'new') for s in src),
                       'not a copy of its fields', g.where(v.node))
    # the field set which is handed back
    fn = by.get(FIELDS[0])
    if fn is not None:
        g = u.graph(p, fn, noinline=opaque)
        sets = [c for c in g.calls if not c.inlined and c.m == 'new' and 'PySet' in c.name]
        for c in sets:
            src = {s[1] for a in c.args if not isinstance(a, dict) for s in g.sources(a, stop=lambda c: False) if s[0] == 'arg'}
            rep.ob('stored', 'fields set: the assigned field', 3 in src and not src & {0, 2, 4}, f'made from {sorted(src)}', g.where(c.node))
        rep.ob('stored', 'fields set: handed back', bool(sets), 'none made', u.where(fn))
    for path, fn in sorted(p.fns.items()):
        if path.endswith('SchemaValidator::validate_assignment') and '<' not in path:
            g = u.graph(p, fn, noinline=opaque)
            names = {fn.d['names'].get(str(i + 1)): i for i in range(fn.d['args'])}
            for v in g.calls:
                if not v.inlined and v.m == 'validate_assignment':
                    for k, nm in ((2, 'obj'), (3, 'field_name'), (4, 'field_value')):
                        src = {s[1] for s in g.sources(v.args[k], stop=lambda c: not c.inlined) if s[0] == 'arg'}
                        rep.ob('pass', f'SchemaValidator: {nm}', src == {names.get(nm)}, f'comes from {sorted(src)}', g.where(v.node))
                        rep.count('handed_on')


def has_field(p, fn, name):
    a = p.adts.get(u.tyname(p, fn.locals[1]))
    return a is not None and any(x[0] == name for v in a.variants for x in v[2])


def run(p, rep, tier):
    rep.rule('order', 'in every validate_assignment: no change of the object passed in can be followed by a nested validation or a new validation error, none is reached once a nested validation failed, and such a failure fails the assignment')
    rep.rule('frozen', 'outcome for every combination of frozen instance/field, known/unknown name and extra behaviour, decided on all paths')
    rep.rule('pass', 'name and value are handed on unchanged to the inner assignment')
    rep.rule('stored', 'what is stored is the validated value, under the assigned name')
    order(p, rep)
    frozen(p, rep)
    stored(p, rep)
    objects(p, rep)
    rep.floor('assignment_functions', 7)
    rep.floor('changes', 6)
    rep.floor('scenarios', 20)
    rep.floor('stored', 3)
    rep.floor('handed_on', 8)

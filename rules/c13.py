"""C13: defaults: where a default comes from, that it is fresh, when it is validated, and that it always ends."""
import mir
import flow as fl
import util as u
import c10
import c20


def fns_named(p, typ, m):
    return [(n, f) for n, f in sorted(p.fns.items()) if '{closure' not in n and n.split('::')[-1] == m and f.locals and u.tyname(p, f.locals[1] if len(f.locals) > 1 else f.locals[0]).endswith('::' + typ)]


def one(p, typ, m, crate='validators'):
    r = [x for x in fns_named(p, typ, m) if x[0].lstrip('<').startswith(crate)]
    return r[0][1] if len(r) == 1 else None


class Outcomes(fl.Assume):
    """outcomes of calls by node, of booleans by field name"""

    def __init__(self, g, calls=(), facts=(), eqs=(), same=None):
        self.eqs, self.same = eqs, same
        self.g, self.calls, self.facts = g, dict(calls), dict(facts)

    def call(self, c):
        r = self.calls.get(c.node)
        if r is None and not c.inlined and c.m in ('is_err', 'is_ok'):
            for n, o in self.calls.items():
                if o.get(()) in ('Ok', 'Err') and reaches(self.g, c.args[0], self.g.nodes[n].term[1]):
                    return {(): (o[()] == 'Err') == (c.m == 'is_err')}
        return r

    def bin(self, rv, node):
        if id(rv) in self.eqs:
            return self.same == (rv[1] == 'Eq')

    def boolean(self, place, node):
        if isinstance(place, dict):
            return None
        for pl in [place] + [rv[1] for dp, rv, n in self.g.defs[place[0]] if dp == place[1] and rv[0] == 'use' and not isinstance(rv[1], dict)]:
            if pl[1] and pl[1][-1] in self.facts:
                return self.facts[pl[1][-1]]


def live(f):
    return f.reach(f.entry_states())


def is_live(f, node):
    return bool(set(f.at.get(node, ())) & live(f))


def ok_exits(f, states, variant=None):
    out = set()
    for s in states & set(f.exits):
        if f.exit_variant(s) in ('Err',):
            continue
        v = f.exit_variant(s, ('@Ok', '.0'))
        if variant is None or v == variant or v is None:
            out.add(v)
    return out


def calls(g, *names):
    return [c for c in g.calls if not c.inlined and c.m in names]


def user(g):
    """calls of python objects which run user code as a function"""
    return [c for c in g.calls if not c.inlined and c.m in ('call', 'call0', 'call1') and 'pyo3' in c.name]


def from_call(g, op, c):
    """the value is what that call returned"""
    if isinstance(op, dict):
        return False
    return ('call', c.name) in {s[:2] for s in g.sources(op, stop=lambda d: d.node == c.node)} and reaches(g, op, c)


def reaches(g, op, c):
    seen = []
    g.sources(op, stop=lambda d: seen.append(d.node) or d.node == c.node)
    return c.node in seen


def run(p, rep, tier):
    rep.rule('source', 'the default of a schema: the object given, the result of a new call of the factory, or none')
    rep.rule('fresh', 'a default which is not hashable is copied deeply for every use, the value used is the copy')
    rep.rule('validated', 'the default is validated by the inner schema exactly if validate_default is on, and the result is what that returned')
    rep.rule('stands-in', 'without a value the default is the result; without default the input is validated, nothing panics')
    rep.rule('ends', 'validating a default never asks for that default again')
    rep.rule('forwarded', 'a reference has the default of what it refers to, for validation and for serialization')
    rep.rule('exclude', 'what exclude_defaults compares with is the default of the same schema')
    rep.rule('data', 'factories and functions see the fields validated so far: the data in force is the dict the fields are put into')
    source(p, rep)
    value(p, rep)
    build(p, rep)
    stand(p, rep)
    forwarded(p, rep)
    data(p, rep)
    rep.floor('cases', 20)
    rep.floor('data_dicts', 3)
    rep.floor('data_sinks', 6)


def source(p, rep):
    fn = one(p, 'DefaultType', 'default_value')
    if not rep.ob('source', 'DefaultType::default_value', fn is not None, 'not found'):
        return
    g = u.graph(p, fn)
    w = u.where(fn)
    a = g.arg_locals[0]
    cs = user(g)
    for variant, takes in (('Default', None), ('None', None), ('DefaultFactory', False), ('DefaultFactory', True)):
        for given in ((None, 'Some') if takes else (None,)):
            seed = {(a, ()): variant}
            if takes is not None:
                seed[(a, ('@DefaultFactory', '.1'))] = takes
            if takes:
                seed[(g.arg_locals[2], ())] = given or 'None'
            f = fl.Flow(g, seed=seed, assume=Outcomes(g))
            lv = live(f)
            run_ = [c for c in cs if set(f.at.get(c.node, ())) & lv]
            name = variant + ('' if takes is None else ', takes data' if takes else '') + (', no data' if takes and not given else '')
            rep.count('cases')
            if variant != 'DefaultFactory':
                want = 'Some' if variant == 'Default' else 'None'
                got = {f.exit_variant(s, ('@Ok', '.0')) for s in lv & set(f.exits)}
                rep.ob('source', name, not run_ and got == {want}, f'{got}, calls {[c.m for c in run_]}', w)
                continue
            f2 = f.reach(f.entry_states(), avoid={c.node for c in run_})
            always = not (f2 & set(f.exits))
            args = set()
            ok = bool(run_) and always and all(c.m == ('call1' if takes else 'call0') for c in run_)
            for c in run_:
                fs = g.sources(c.args[0])
                ok &= any(s[0] == 'arg' and s[1] == 0 for s in fs)
                if takes:
                    args |= live_defs(g, {f.states[s][0] for s in lv}, c.args[2], None)
            if takes and given:
                ok &= any(s[0] == 'arg' and s[1] == 2 for s in args) and not any(s[0] == 'call' and 'PyDict' in s[1] and s[1].endswith('::new') for s in args)
            if takes and not given:
                # an empty dict, not another object
                ok &= any(s[0] == 'call' and 'PyDict' in s[1] and s[1].endswith('::new') for s in args)
            rep.ob('source', name, ok, f'calls {[c.m for c in run_]}, always: {always}', w)
    # the value returned
    out = {s[0:2] for s in g.sources((g.ret_local, ('@Ok', '.0', '@Some', '.0')), stop=lambda c: c in cs)}
    rep.ob('source', 'value', any(s[0] == 'arg' and s[1] == 0 for s in out) and all((s[0] == 'call' and s[1] in {c.name for c in cs}) or s[0] == 'arg' and s[1] in (0, 1) or s[0] == 'call' and s[1].endswith('clone_ref') for s in out), f'{sorted(out)[:6]}', w)


def value(p, rep):
    fn = one(p, 'WithDefaultValidator', 'default_value')
    if not rep.ob('validated', 'WithDefaultValidator::default_value', fn is not None, 'not found'):
        return
    g = u.graph(p, fn, noinline=lambda c: c10.opaque(c) or c.endswith('DefaultType::default_value'))
    w = u.where(fn)
    stored = [c for c in g.calls if not c.inlined and 'DefaultType' in c.name and c.m == 'default_value']
    vals = [c for c in g.calls if not c.inlined and c.m == 'validate' and 'ValError' in c20.ty(g, c.dest)]
    copies = [c for c in user(g) if any(reaches(g, a, s) for s in stored for a in c.args[1:])]
    rep.ob('source', 'asked', len(stored) >= 1, 'the default of the schema is not asked for', w)
    deep = any(x.m == 'getattr' and any(isinstance(a, dict) and a.get('str') == 'deepcopy' for a in x.args) or any(s == ('str', 'deepcopy') for a in x.args if not isinstance(a, dict) for s in g.sources(a)) for x in g.calls)
    rep.ob('fresh', 'deepcopy', deep, 'copy.deepcopy is not what is called', w)
    base = {c.node: {(): 'Ok', ('@Ok', '.0'): 'Some'} for c in stored}
    ret = (g.ret_local, ('@Ok', '.0', '@Some', '.0'))
    for copy in (True, False):
        for val in (True, False):
            f = fl.Flow(g, assume=Outcomes(g, {**base, **{c.node: {(): 'Ok'} for c in vals + copies}}, {'.copy_default': copy, '.validate_default': val}))
            lv = live(f)
            n = f'copy {copy}, validate {val}'
            rep.count('cases')

            def avoided(nodes):
                r = f.reach(f.entry_states(), avoid=nodes)
                return {f.exit_variant(s) for s in r & set(f.exits)} - {'Err'}
            cn, vn = {c.node for c in copies}, {c.node for c in vals}
            if copy:
                rep.ob('fresh', n, bool(cn) and not avoided(cn), 'the stored object itself is used', w)
            else:
                rep.ob('fresh', n, not any(set(f.at.get(x, ())) & lv for x in cn), 'a hashable default is copied', w)
            if val:
                rep.ob('validated', n, bool(vn) and not avoided(vn), 'the default is used without validation', w)
            else:
                rep.ob('validated', n, not any(set(f.at.get(x, ())) & lv for x in vn), 'the default is validated', w)
            got = {f.exit_variant(s, ('@Ok', '.0')) for s in lv & set(f.exits) if f.exit_variant(s) != 'Err'}
            rep.ob('source', n, got == {'Some'}, f'the default is not the result: {got}', w)
            src = fsources(g, f, lv, ret, set(vn) | set(cn) | {c.node for c in stored})
            want = vn if val else cn if copy else {c.node for c in stored}
            rep.ob('validated' if val else 'fresh' if copy else 'source', n + ': result', src and src <= want, f'the result comes from another value', w)
    for c in vals:
        got = {x.node for x in stored + copies if reaches(g, c.args[2], x)}
        rep.ob('validated', 'what is validated is the default', bool(got), 'something else is validated', g.where(c.node))
    # no default
    f = fl.Flow(g, assume=Outcomes(g, {c.node: {(): 'Ok', ('@Ok', '.0'): 'None'} for c in stored}))
    got = {f.exit_variant(s, ('@Ok', '.0')) for s in live(f) & set(f.exits) if f.exit_variant(s) != 'Err'}
    rep.ob('source', 'no default', got == {'None'}, f'{got}', w)
    # a failing validation of the default
    for kind in ('LineErrors', 'UseDefault', 'InternalErr'):
        f = fl.Flow(g, assume=Outcomes(g, {**base, **{c.node: {(): 'Err', ('@Err', '.0'): kind} for c in vals}}, {'.validate_default': True}))
        ends = {f.exit_variant(s) for s in live(f) & set(f.exits)}
        rep.ob('validated', f'default is not valid: {kind}', ends == {'Err'}, 'used all the same', w)
        rep.count('cases')
    # termination: the functions called with the same validator
    seen, todo, path = set(), [(fn, ())], None
    while todo and path is None:
        h, way = todo.pop()
        if h.path in seen:
            continue
        seen.add(h.path)
        gh = u.graph(p, h, noinline=c10.opaque)
        for c in gh.calls:
            if c.inlined or c.m not in ('validate', 'default_value'):
                continue
            t = p.fns.get(c.name) or p.fns.get(c.fn or '')
            if t is None or 'WithDefaultValidator' not in p.ts(t.locals[1]):
                continue
            if t.path == fn.path:
                path = way + (h.path, gh.where(c.node))
                break
            todo.append((t, way + (h.path,)))
        rep.count('chain')
    rep.ob('ends', 'default_value', path is None, f'validating the default asks for the default again: {path}', w)


def fsources(g, f, lv, place, stops):
    """which of the calls `stops` the value of `place` comes from, over the live part of the graph"""
    got = set()
    nodes = {f.states[s][0] for s in lv}

    def stop(d):
        if d.node in stops:
            if d.node in nodes:
                got.add(d.node)
            return True
        return False
    live_defs(g, nodes, place, stop)
    return got


def live_defs(g, nodes, op, stop):
    """g.sources over the definitions in live nodes only"""
    saved = g.defs
    g.defs = {k: [d for d in ds if not isinstance(d[2], int) or d[2] in nodes] for k, ds in saved.items()}
    try:
        return g.sources(op, stop=stop)
    finally:
        g.defs = saved


def build(p, rep):
    fn = [f for n, f in sorted(p.fns.items()) if '{closure' not in n and 'WithDefaultValidator' in n and n.endswith('BuildValidator>::build')]
    if not rep.ob('fresh', 'WithDefaultValidator::build', len(fn) == 1, 'not found'):
        return
    fn = fn[0]
    g = u.graph(p, fn, noinline=lambda c: c10.opaque(c) or c.endswith('DefaultType::new') or c.endswith('::build_validator'))
    w = u.where(fn)
    new = [c for c in g.calls if not c.inlined and 'DefaultType' in c.name and c.m == 'new']
    hashes = [c for c in calls(g, 'hash')]
    made = [(n.id, k) for n in g.nodes for k, (pl, rv, ln) in enumerate(n.stmts) if rv[0] == 'adt' and rv[1].endswith('::WithDefaultValidator')]
    if not rep.ob('fresh', 'build: parts', len(new) == 1 and bool(hashes) and len(made) >= 1, f'{len(new)} {len(hashes)} {len(made)}', w):
        return
    for c in hashes:
        rep.ob('fresh', 'build: hash of the default', reaches(g, c.args[0], new[0]), 'something else is hashed', g.where(c.node))
    for kind in ('Default', 'DefaultFactory', 'None'):
        for h in (('Ok', 'Err') if kind == 'Default' else ('Ok',)):
            f = fl.Flow(g, assume=Outcomes(g, {new[0].node: {(): 'Ok', ('@Ok', '.0'): kind}, **{c.node: {(): h} for c in hashes}}), watch=made)
            lv = live(f)
            got = set()
            for nid, k in made:
                for s in set(f.at.get(nid, ())) & lv:
                    got.add(f.values(s, k)[g.nodes[nid].stmts[k][1][3].index('copy_default')].get(()))
            rep.ob('fresh', f'build: {kind}' + (f', hash {h}' if kind == 'Default' else ''), got == {kind == 'Default' and h == 'Err'}, f'copy_default is {got}', w)
            rep.count('cases')


def stand(p, rep):
    fn = one(p, 'WithDefaultValidator', 'validate')
    if not rep.ob('stands-in', 'WithDefaultValidator::validate', fn is not None, 'not found'):
        return
    g = u.graph(p, fn, noinline=c10.opaque)
    w = u.where(fn)
    dv = [c for c in calls(g, 'default_value')]
    va = [c for c in calls(g, 'validate')]
    tests = [c for c in g.calls if not c.inlined and c.m == 'is' and any(s[0] == 'arg' and s[1] == 0 for a in c.args for s in g.sources(a))]
    tests += [c for c in g.calls if not c.inlined and c.m == 'is_some_and']
    eqs = {id(rv) for n in g.nodes for pl, rv, ln in n.stmts if rv[0] == 'bin' and rv[1] in ('Eq', 'Ne') and any(not isinstance(o, dict) and any(s[0] == 'arg' and s[1] == 0 and '.undefined' in s[2] for s in g.sources(o)) for o in rv[2:4])}
    given = [c for c in g.calls if not c.inlined and c.m == 'as_python']
    if not rep.ob('stands-in', 'parts', bool(dv) and bool(va) and bool(tests or eqs), f'{len(dv)} {len(va)} {len(tests)} {len(eqs)}', w):
        return
    for und in (True, False):
        t = {**{c.node: {(): und} for c in tests}, **{c.node: {(): 'Some'} for c in given}}
        for dft in ('Some', 'None'):
            f = fl.Flow(g, assume=Outcomes(g, {**t, **{c.node: {(): 'Ok', ('@Ok', '.0'): dft} for c in dv}, **{c.node: {(): 'Ok'} for c in va}}, eqs=eqs, same=und))
            lv = live(f)
            asked = any(set(f.at.get(c.node, ())) & lv for c in dv)
            used = any(set(f.at.get(c.node, ())) & lv for c in va)
            n = ('no value given' if und else 'value given') + (', default' if dft == 'Some' else ', no default')
            rep.count('cases')
            if und and dft == 'Some':
                rep.ob('stands-in', n, asked and not used, 'the default is not used', w)
            elif und:
                panics = [c for c in g.calls if not c.inlined and c.m in ('unwrap', 'expect') and set(f.at.get(c.node, ())) & lv and any(reaches(g, c.args[0], d) for d in dv)]
                rep.ob('stands-in', n, not panics and (used or {f.exit_variant(s) for s in lv & set(f.exits)} == {'Err'}), 'panics', w)
            else:
                rep.ob('stands-in', n, used and not asked, 'a valid value is not the result', w)


def forwarded(p, rep):
    for crate, typ, m, inner in (('validators', 'DefinitionRefValidator', 'default_value', 'default_value'), ('serializers', 'DefinitionRefSerializer', 'get_default', 'get_default')):
        fn = one(p, typ, m, crate)
        if not rep.ob('forwarded', f'{typ}::{m}', fn is not None, f'{typ} has no {m}: the default of the definition is unknown'):
            continue
        g = u.graph(p, fn, noinline=c10.opaque)
        cs = [c for c in g.calls if not c.inlined and c.m == inner]
        f = fl.Flow(g, assume=Outcomes(g))
        r = f.reach(f.entry_states(), avoid={c.node for c in cs})
        rep.ob('forwarded', f'{typ}::{m}: always', bool(cs) and not (r & set(f.exits)), 'not that of the definition', u.where(fn))
        rep.count('cases')
    fn = one(p, 'WithDefaultSerializer', 'get_default', 'serializers')
    if not rep.ob('exclude', 'WithDefaultSerializer::get_default', fn is not None, 'not found'):
        return
    g = u.graph(p, fn, noinline=lambda c: c10.opaque(c) or c.endswith('DefaultType::default_value'))
    cs = {c.node for c in calls(g, 'default_value')}
    a = g.arg_locals[0]
    for variant, takes in (('Default', None), ('None', None), ('DefaultFactory', False), ('DefaultFactory', True)):
        seed = {(a, ('.default',)): variant}
        if takes is not None:
            seed[(a, ('.default', '@DefaultFactory', '.1'))] = takes
        f = fl.Flow(g, seed=seed, assume=Outcomes(g))
        lv = live(f)
        if takes:
            # no data to call it with
            ok = not any(set(f.at.get(n, ())) & lv for n in cs)
        else:
            ok = bool(cs) and not (f.reach(f.entry_states(), avoid=cs) & set(f.exits)) or variant == 'None'
        rep.ob('exclude', f'{variant}{", takes data" if takes else ""}', ok, 'not the default of the schema', u.where(fn))
        rep.count('cases')


def data(p, rep):
    for typ in ('ModelFieldsValidator', 'TypedDictValidator', 'DataclassArgsValidator'):
        fn = one(p, typ, 'validate')
        if not rep.ob('data', f'{typ}::validate', fn is not None, 'not found'):
            continue
        g = u.graph(p, fn, noinline=c10.opaque)
        w = u.where(fn)
        sets = []
        for n in g.nodes:
            for pl, rv, ln in n.stmts:
                if pl[1] and pl[1][-1] == '.data' and 'Extra' in owner(g, pl):
                    sets.append((n.id, rv))
        ss = [c for c in c20.sites(g) if c.m in ('validate', 'default_value')]
        if not rep.ob('data', f'{typ}: in force', bool(sets), 'the data in force is never set', w):
            continue
        f = fl.Flow(g, seed=c20.off(g), assume=Outcomes(g))
        r = f.reach(f.entry_states(), avoid={n for n, rv in sets})
        for c in ss:
            rep.ob('data', f'{typ}: {c.m}', not (set(f.at.get(c.node, ())) & r), 'validated before the data in force is set', g.where(c.node))
        roots = set()
        for n, rv in sets:
            roots |= {dicts(g, x) for x in some(g, rv)}
            rep.count('data_dicts')
        sinks = [x for x in g.calls if not x.inlined and x.m == 'set_item' and any(c20.uses(g, x, c) for c in ss)]
        for x in sinks:
            rep.ob('data', f'{typ}: fields go there', len(roots) == 1 and None not in roots and dicts(g, x.args[0]) in roots, 'a validated field is put into another dict than the data', g.where(x.node))
            rep.count('data_sinks')


def owner(g, pl):
    return g.p.ts(g.ltypes[pl[0]]) if g.ltypes[pl[0]] is not None else ''


def some(g, rv):
    """operands of Some(..) assigned"""
    out = []
    ops = [rv[1]] if rv[0] == 'use' else []
    for o in ops:
        if isinstance(o, dict):
            out.append(o)
            continue
        for dp, v, n in g.defs.get(o[0], ()):
            out += list(v[4]) if v[0] == 'adt' and v[2] == 'Some' else [None]
    if rv[0] == 'adt' and rv[2] == 'Some':
        out += list(rv[4])
    return out


def dicts(g, op):
    """the call which made the dict, through references, clones and moves"""
    if op is None or isinstance(op, dict):
        return None
    made = []
    g.sources(op, stop=lambda d: made.append(d.node) or True if (not d.inlined and d.m in ('new', 'copy') and 'PyDict' in c20.ty(g, d.dest)) else False)
    return made[0] if len(set(made)) == 1 else None

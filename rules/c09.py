"""C09: the options of a serialization call reach every nested value unchanged, and mean what they say."""
import mir
import flow as fl
import util as u
from collections import defaultdict

EXTRA = 'serializers::extra::Extra'
OWNED = 'serializers::extra::ExtraOwned'
OPT = 'std::option::Option<&pyo3::Bound'
TRAIT = 'serializers::shared::TypeSerializer'
# position of (value, include, exclude, extra) in the trait's methods
SIG = {'to_python': (1, 2, 3, 4), 'serde_serialize': (1, 3, 4, 5), 'json_key': (1, None, None, 2), 'invalid_as_json_key': (1, None, None, 2),
       'to_python_no_infer': (1, 2, 3, 4)}
CARRIER_EXTRA = ('extra', 'extra_owned')
# fields of Extra that describe where in the data the serializer is, not what the caller asked for
LOCAL = {'model', 'field_name', 'check', 'duck_typing_ser_mode', 'ob_type_lookup'}


DUCK = 'serializers::extra::DuckTypingSerMode'


def opaque(path):
    return path.startswith(('serializers::infer::infer_', 'serializers::filter::', 'serializers::extra::CollectWarnings', 'serializers::ob_type::', DUCK))


def is_extra(p, ti):
    t = p.T(ti)
    while t.get('k') == 'ref':
        t = p.T(t['a'][0])
    return t.get('d') == EXTRA


def roles(p, fn):
    """(value, include, exclude, extra) argument positions of a function that takes an Extra"""
    n = fn.d['args']
    ty = [fn.locals[i + 1] for i in range(n)]
    ex = [i for i in range(n) if is_extra(p, ty[i])]
    if len(ex) != 1:
        return None
    e = ex[0]
    val = next((i for i in range(n) if p.ts(ty[i]).startswith(('&pyo3::Bound<', '&&pyo3::Bound<'))), None)
    if e >= 2 and all(p.ts(ty[i]).startswith(OPT) for i in (e - 1, e - 2)):
        return (val, e - 2, e - 1, e)
    return (val, None, None, e)


def call_roles(p, c):
    if c.fn in p.fns:
        return roles(p, p.fns[c.fn])
    if c.trait == TRAIT and c.m in SIG:
        return SIG[c.m]
    return None


def carriers(p):
    """local structs that carry filters and/or the options of a call to a later point"""
    out = {}
    for path, a in p.adts.items():
        if not a.local or a.k != 'struct' or path in (EXTRA, OWNED) or not path.startswith('serializers::'):
            continue
        fs = [f for f, _ in a.variants[0][2]]
        if 'include' in fs and 'exclude' in fs and ('_mode' in fs or any(e in fs for e in CARRIER_EXTRA)):
            out[path] = fs
    return out


class Root:
    def __init__(self, p, fn, own, why):
        """own: role -> (arg index, projection)"""
        self.p, self.fn, self.own, self.why = p, fn, own, why
        self.g = mir.Graph(p, fn, noinline=opaque)

    def cats(self, op):
        """where a filter operand comes from: 'include'/'exclude' (the method's own), (filter call, component), 'none', else other"""
        g = self.g
        out = set()
        if op is None:
            return {'none'}

        def stop(c):
            if c.m in ('key_filter', 'index_filter', 'filter') and 'serializers::filter' in c.name:
                comp = [e for e in g.at_proj if e in ('.0', '.1')]
                # @Ok .0 @Some .0 .N
                k = g.at_proj[-1] if g.at_proj else None
                pj = tuple(e for e in g.at_proj)
                n = pj[pj.index('@Some') + 2] if '@Some' in pj and len(pj) > pj.index('@Some') + 2 else None
                out.add((id(c), n))
                return True
            return False
        for s in g.sources(op, stop=stop):
            if s[0] == 'arg':
                pj = u.strip(s[2])
                for r in ('include', 'exclude'):
                    o = self.own.get(r)
                    if o and s[1] == o[0] and pj[:len(o[1])] == o[1]:
                        out.add(r)
                        break
                else:
                    out.add(('arg', s[1], pj[:1]))
            elif s[0] == 'adt' and s[2] == 'None':
                out.add('none')
            elif s[0] == 'adt' and s[2] == 'Some':
                pass
            elif s[0] in ('call',):
                pass
            elif s[0] in ('const', 'bin', 'str'):
                out.add(s[:2])
        return out


def roots(p):
    car = carriers(p)
    out = []
    for path, fn in sorted(p.fns.items()):
        if '{closure' in path or '__pymethod' in path or not path.startswith(('serializers::', '<serializers::')):
            continue
        if path.startswith(('serializers::infer::', )) is False and opaque(path):
            continue
        r = roles(p, fn)
        if r:
            out.append(Root(p, fn, {k: (i, ()) for k, i in zip(('value', 'include', 'exclude', 'extra'), r) if i is not None}, 'options'))
            continue
        if fn.d['args']:
            t = u.tyname(p, fn.locals[1])
            if t in car and not path.endswith(('::new', '__traverse__', '__clear__', 'py_gc_traverse', '::fmt', '::drop')):
                own = {'include': (0, ('.include',)), 'exclude': (0, ('.exclude',))}
                ef = next((e for e in CARRIER_EXTRA if e in car[t]), None)
                if ef:
                    own['extra'] = (0, ('.' + ef,))
                if 'value' in car[t]:
                    own['value'] = (0, ('.value',))
                out.append(Root(p, fn, own, 'carrier'))
    return out, car


def nested(rt, car):
    """(kind, description, value op, include op, exclude op, extra op, node)"""
    p, g = rt.p, rt.g
    for c in g.calls:
        if c.inlined:
            continue
        r = call_roles(p, c)
        if r is None or r[3] >= len(c.args):
            continue
        v, i, e, x = r
        yield c.m, c.args[v] if v is not None else None, c.args[i] if i is not None else False, c.args[e] if e is not None else False, c.args[x], c.node
    for nid, pl, rv, ln in g.aggs():
        if rv[1] in car:
            f = dict(zip(rv[3], rv[4]))
            ef = next((k for k in CARRIER_EXTRA if k in f), None)
            yield rv[1].split('::')[-1], f.get('value'), f['include'], f['exclude'], f.get(ef), nid


def label(rt):
    return rt.fn.path.replace('serializers::', '').replace('type_', '').replace(' as shared::TypeSerializer', '')


def pure(cs):
    """drop the None of a mapped-over Option (`include.map(..)`)"""
    return cs - {'none'} if cs - {'none'} else cs


class Value:
    """how a nested value derives from the value being serialized"""

    def __init__(self, rt, op):
        g = rt.g
        self.iterated = self.key = self.unordered = self.called = self.serialized = False
        if op is None:
            return

        def stop(c):
            if c.m == 'next' or c.m in ('get_item', 'iter') and 'iter' in c.name.lower() and c.m == 'next':
                self.iterated = True
                pj = [e for e in g.at_proj if not e.startswith('@')]
                # Some(.0) then the pair's component
                self.key |= tuple(g.at_proj[:3]) == ('@Some', '.0', '.0') or len(pj) >= 2 and pj[-1] == '.0' and tuple(g.at_proj[-2:]) != ('@Ok', '.0')
                if 'set' in ''.join(rt.p.ts(t) for t in list(c.ga) + [c.selfty] if t is not None).lower() or 'set' in (c.name or '').lower():
                    self.unordered = True
                return False
            if c.m in ('call', 'call0', 'call1', 'call_method0', 'call_method1', 'call_method') and 'pyo3' in c.name:
                self.called = True
                return True
            if call_roles(rt.p, c) and not c.inlined:
                self.serialized = True
                return True
            return False
        g.sources(op, stop=stop)
        for s in g.sources(op):
            if s[0] == 'call' and 'set' in s[1].split('::')[-2:][0].lower():
                self.unordered = True


def unconditional(rt, rep, handed):
    """what is handed on is the include/exclude of the call whenever there is one"""
    g = rt.g
    seed = {}
    for r in ('include', 'exclude'):
        i, pj = rt.own[r]
        for d in ((), ('*',)):
            seed[(g.arg_locals[i], d + tuple(pj))] = 'Some'
    sites = {}
    for ln, nid, i, e in handed:
        if g.nodes[nid].term[0] == 'call' and g.nodes[nid].term[1].node == nid and any(o is i for o in g.nodes[nid].term[1].args):
            sites[(ln, nid)] = ((nid, 'call'), g.nodes[nid].term[1].args, i, e)
            continue
        for k, (pl, rv, _) in enumerate(g.nodes[nid].stmts):
            if rv[0] == 'adt' and any(o is i for o in rv[4]):
                sites[(ln, nid)] = ((nid, k), rv[4], i, e)
    f = fl.Flow(g, track_ret=False, seed=seed, watch={w for w, _, _, _ in sites.values()})
    for (ln, nid), ((_, k), ops, i, e) in sites.items():
        vals = set()
        for st in f.at.get(nid, ()):
            fx = f.values(st, k)
            for o, x in zip(ops, fx):
                if o is i or o is e:
                    vals.add(x.get(()))
        rep.ob('filters', ln + ': always', vals <= {'Some'}, f'the include/exclude of the call are not always handed on (found {vals})', g.where(nid))
        rep.count('filters handed on')


def check_nested(rt, car, rep):
    p, g = rt.p, rt.g
    handed = []
    for m, v, i, e, x, nid in nested(rt, car):
        where = g.where(nid)
        ln = f'{label(rt)}>{m}'
        if x is not None and 'extra' in rt.own:
            ok, why = extra_ok(rt, x)
            rep.ob('options', ln, ok, f'the nested call is given options {why} instead of those of this call', where)
            rep.count('nested calls given options')
        if i is False or i is None or 'include' not in rt.own:
            continue
        a, b = pure(rt.cats(i)), pure(rt.cats(e))
        val = Value(rt, v)
        filt = {c for c in a | b if isinstance(c, tuple) and isinstance(c[0], int)}
        rep.count('filter pairs decided')
        if filt:
            calls = {c[0] for c in filt}
            rep.ob('filters', ln, a == {(c, '.0') for c in calls} and b == {(c, '.1') for c in calls},
                   f'include/exclude of a nested value must be the first/second result of the filter, they are {names(a)} / {names(b)}', where)
        elif a == {'none'} and b == {'none'}:
            rep.ob('filters', ln, val.key or val.called or val.serialized or m == 'json_key' or rt.fn.path.endswith('::json_key') or rt.why == 'options' and rt.own.get('include') is None,
                   'the nested value is serialized without include/exclude: those of the call are lost', where)
        else:
            rep.ob('filters', ln, a == {'include'} and b == {'exclude'}, f'include/exclude handed on must be those of the call, they are {names(a)} / {names(b)}', where)
            if a == {'include'} and b == {'exclude'}:
                handed.append((ln, nid, i, e))
            if m not in ('SerializationInfo', 'SerializationCallable', 'SerializationIterator') and val.iterated and not val.unordered:
                rep.ob('filters', ln + ':item', False, 'the items of a container are given the filters of the container itself', where)
    if handed:
        unconditional(rt, rep, handed)
    for c in g.calls:
        if c.inlined or 'serializers::filter' not in c.name or c.m not in ('key_filter', 'index_filter', 'filter') or 'include' not in rt.own:
            continue
        a, b = filter_args(rt, c)
        rep.ob('filters', f'{label(rt)}>{c.m}', a == {'include'} and b == {'exclude'}, f'the filter is asked with {names(a)} / {names(b)} instead of include / exclude of the call', g.where(c.node))
        rep.count('filter calls decided')


def filter_args(rt, c):
    """the include/exclude operands: those of type Option<&Bound>"""
    p = rt.p
    fn = p.fns.get(c.fn)
    if fn is not None:
        idx = [i for i in range(fn.d['args']) if p.ts(fn.locals[i + 1]).startswith(OPT)]
    else:
        idx = [3, 4]
    ops = [c.args[k] for k in idx[:2]]
    return tuple(pure(rt.cats(o)) for o in ops)


def names(cs):
    return sorted('result %s of the filter' % c[1][1:] if isinstance(c, tuple) and isinstance(c[0], int) else str(c) for c in cs) or ['nothing']


def extra_ok(rt, op):
    g, own = rt.g, rt.own['extra']
    if isinstance(op, dict):
        return False, 'that are a constant'
    got = set()
    for s in g.sources(op):
        if s[0] == 'arg' and s[1] == own[0] and u.strip(s[2])[:len(own[1])] == own[1]:
            got.add('own')
        elif s[0] == 'adt' and s[1] in (EXTRA, OWNED):
            got.add('new')
    return bool(got), 'that do not derive from its own'


# ---------------------------------------------------------------- Extra values

def check_extras(rt, rep):
    """every Extra built while options are at hand keeps each of them"""
    p, g = rt.p, rt.g
    own = rt.own.get('extra')
    for nid, pl, rv, ln in g.aggs():
        if rv[1] not in (EXTRA, OWNED) and not (rv[1].endswith('::SerializationInfo') and own):
            continue
        for f, o in zip(rv[3], rv[4]):
            src = field_sources(rt, o)
            where = g.where(nid)
            key = f'{label(rt)}>{rv[1].split("::")[-1]}.{f}'
            if own:
                want = {'_mode': 'mode', 'serialize_as_any': 'duck_typing_ser_mode'}.get(f, f)
                got = {s[1] for s in src if s[0] == 'own'}
                if f in ('include', 'exclude'):
                    want = {f} if f in rt.own else set()
                    rep.ob('copies', key, {s[0] for s in src if s[0] in ('include', 'exclude')} == want, f'{f} is filled from {fs(src)}', where)

                elif f == 'config' and rt.fn.path.startswith('serializers::infer::'):
                    # a nested value that has a serializer of its own uses that serializer's config
                    rep.ob('copies', key, bool({s for s in src if s[0] == 'call'}), f'config is taken from {fs(src)}', where)
                elif f in LOCAL:
                    rep.ob('copies', key, got <= {want}, f'{f} is filled from {fs(src)}', where)
                else:
                    vn = rt.fn.d['names'].get(str(rt.own['value'][0] + 1)) if 'value' in rt.own else None  # the recursion guard holds options and value
                    rep.ob('copies', key, got == {want} and not {s for s in src if s[0] in ('arg', 'other', 'bin') and s[1] != vn}, f'option {f} is filled from {fs(src)} instead of {want} of the options in force', where)
                rep.count('copied options')
            else:
                check_entry_field(rt, rep, f, o, src, key, where)
    # a field of an Extra is overwritten
    for n in g.nodes:
        for pl, rv, ln in n.stmts:
            f = [e for e in pl[1] if e.startswith('.')]
            if not f or not g.ltypes[pl[0]] or not is_extra(p, g.ltypes[pl[0]]):
                continue
            f = f[0][1:]
            if len([e for e in pl[1] if e.startswith('.')]) == 1:
                rep.ob('copies', f'{label(rt)}>{f}=', f in LOCAL, f'option {f} of the call is overwritten', g.where(n.id))


def fs(src):
    return sorted({'%s' % s[1] if s[0] in ('own', 'arg') else s[0] if len(s) < 2 or s[0] in ('include', 'exclude') else f'{s[0]} {str(s[1]).split("::")[-1]}' for s in src}) or ['nothing']


def field_sources(rt, o):
    p, g, own = rt.p, rt.g, rt.own.get('extra')
    out = set()
    for s in g.sources(o):
        if s[0] == 'arg':
            pj = u.strip(s[2])
            hit = False
            for r in ('include', 'exclude'):
                w = rt.own.get(r)
                if w and s[1] == w[0] and pj[:len(w[1])] == w[1]:
                    out.add((r,))
                    hit = True
            if hit:
                continue
            if own and s[1] == own[0] and pj[:len(own[1])] == own[1]:
                rest = [e for e in pj[len(own[1]):] if e.startswith('.')]
                if rest:
                    out.add(('own', rest[0][1:]))
            else:
                nm = rt.fn.d['names'].get(str(s[1] + 1))
                out.add(('arg', nm, pj))
        elif s[0] == 'const':
            out.add(('const', s[1]))
        elif s[0] == 'bin':
            out.add(('bin', s[1]))
        elif s[0] == 'call':
            out.add(('call', s[1]))
        elif s[0] == 'adt':
            out.add(('adt', s[1] + '::' + str(s[2])))
        elif s[0] == 'str':
            out.add(('str', s[1]))
    return out


# the public entry points take the options as keyword arguments: which of them fills which option
FROM = {'duck_typing_ser_mode': 'serialize_as_any', 'warnings': 'warnings'}
FIXED = {'check', 'ob_type_lookup', 'rec_guard', 'model', 'field_name', 'mode', 'config', 'warnings'}


def check_entry_field(rt, rep, f, o, src, key, where):
    names_ = set(rt.fn.d['names'].get(str(i + 1)) for i in range(rt.fn.d['args']))
    args = {s[1] for s in src if s[0] == 'arg'} - {'py', 'self', 'slf'}
    pub = names_ & {'exclude_none', 'round_trip', 'context', 'fallback'}
    if not pub:
        return
    want = FROM.get(f, f)
    if want in names_:
        rep.ob('entry', key, args == {want}, f'option {f} is filled from {sorted(map(str, args)) or "a constant"} instead of the argument {want!r}', where)
        rep.count('entry options')
    elif f == 'config':
        rep.ob('entry', key, bool({s for s in src if s[0] == 'arg'}), 'the config of the call does not reach the options', where)
    else:
        rep.ob('entry', key, not args, f'option {f} is filled from the argument(s) {sorted(map(str, args))}', where)


def entries(p):
    """public functions that build the options of a call from keyword arguments"""
    out = []
    for path, fn in sorted(p.fns.items()):
        if '{closure' in path or '__pymethod' in path or '__pyfunction' in path or not path.startswith('serializers::'):
            continue
        nm = {fn.d['names'].get(str(i + 1)): i for i in range(fn.d['args'])}
        if {'include', 'exclude', 'fallback', 'context'} <= set(nm) and roles(p, fn) is None:
            out.append(Root(p, fn, {'value': (nm['value'], ()), 'include': (nm['include'], ()), 'exclude': (nm['exclude'], ())}, 'entry'))
    return out


# ---------------------------------------------------------------- what include and exclude mean

FILTER = 'serializers::filter::'
FORMS = ('absent', 'none', 'dict-', 'dict-whole', 'dict-sub', 'set-', 'set-key', 'set-all', 'other-', 'other-in', 'bad')


class Case:
    """one combination of call-time exclude and include, and of what the schema says about the item"""

    def __init__(self, g, arg, exc, inc, explicit, default):
        self.g, self.arg, self.form = g, arg, {'exclude': exc, 'include': inc}
        self.explicit, self.default = explicit, default
        self.memo = {}

    def who(self, o):
        if isinstance(o, dict):
            return None
        k = (o[0], o[1])
        if k not in self.memo:
            got = set()
            for s in self.g.sources(o):
                if s[0] == 'arg' and s[1] in self.arg:
                    got.add(self.arg[s[1]])
            self.memo[k] = got.pop() if len(got) == 1 else None
        return self.memo[k]

    def call(self, c):
        if not c.args:
            return None
        if c.m == 'explicit_include':
            return {(): self.explicit}
        if c.m == 'default_filter':
            return {(): self.default}
        who = next((w for w in map(self.who, c.args) if w), None)
        if who is None:
            return None
        form = self.form[who]
        if c.m == 'is_none':
            return {(): form == 'none'}
        if c.m in ('downcast', 'downcast_exact', 'cast') or c.m in ('is_instance_of', 'is_exact_instance_of'):
            ty = ' '.join(self.g.p.ts(t) for t in c.ga if t is not None)
            kind = 'dict' if 'PyDict' in ty else 'set' if 'PySet' in ty else 'other'
            hit = form.startswith(kind + '-')
            return {(): hit} if c.m.startswith('is_') else {(): 'Ok' if hit else 'Err'}
        if c.m == 'merge_all_value':
            return {(): 'Ok', ('@Ok', '.0'): 'None' if form == 'dict-' else 'Some'}
        if c.m == 'is_ellipsis_like':
            return {(): form == 'dict-whole'}
        if c.m == 'contains':
            al = any('__all__' in str(x) for x in all_strings(self.g, c))
            return {(): 'Ok', ('@Ok', '.0'): form == ('set-all' if al else 'set-key')}
        if c.m == 'check_contains':
            if form == 'bad':
                return {(): 'Ok', ('@Ok', '.0'): 'None'}
            return {(): 'Ok', ('@Ok', '.0'): 'Some', ('@Ok', '.0', '@Some', '.0'): form == 'other-in'}
        return None

    def bin(self, rv, node):
        return None

    def discr(self, key, node, adt):
        return None

    def boolean(self, place, node):
        return None


def all_strings(g, c):
    return {s[1] for a in c.args if not isinstance(a, dict) for s in g.sources(a) if s[0] == 'str'} | {str(a.get('v')) for a in c.args if isinstance(a, dict)}


def expected(exc, inc, explicit, default):
    """the documented meaning: (result, include of the item, exclude of the item)"""
    if exc in ('dict-whole', 'set-key', 'set-all', 'other-in'):
        return 'omit', None, None
    if exc == 'bad':
        return 'error', None, None
    nx = 'Some' if exc == 'dict-sub' else 'None'
    if inc in ('dict-whole', 'set-key', 'set-all', 'other-in'):
        return 'keep', 'None', nx
    if inc == 'dict-sub':
        return 'keep', 'Some', nx
    if inc == 'bad':
        return 'error', None, None
    if inc in ('dict-', 'set-', 'other-') and not explicit:
        return 'omit', None, None
    return ('keep', 'None', nx) if default else ('omit', None, None)


def check_filter(p, rep):
    fn = p.fns.get(FILTER + 'FilterLogic::filter')
    if not rep.ob('anchor', 'filter', fn is not None, 'FilterLogic::filter not found'):
        return
    opts = [i for i in range(fn.d['args']) if p.ts(fn.locals[i + 1]).startswith(OPT)]
    if not rep.ob('anchor', 'filter arguments', len(opts) == 2, 'the filter does not take include and exclude'):
        return
    g = mir.Graph(p, fn, noinline=lambda x: x in (FILTER + 'merge_all_value', FILTER + 'is_ellipsis_like', FILTER + 'check_contains'))
    arg = {opts[0]: 'include', opts[1]: 'exclude'}
    for exc in FORMS:
        for inc in FORMS:
            for explicit in (False, True):
                for default in (False, True):
                    seed = {}
                    for i, f in ((opts[0], inc), (opts[1], exc)):
                        seed[(g.arg_locals[i], ())] = 'None' if f == 'absent' else 'Some'
                    f = fl.Flow(g, assume=Case(g, arg, exc, inc, explicit, default), seed=seed)
                    want, wi, wx = expected(exc, inc, explicit, default)
                    got = set()
                    r = f.reach(f.entry_states())
                    for i in f.exits:
                        if i not in r:
                            continue
                        env = f.env(i)
                        rl = g.ret_local
                        a = env.get((rl, ()))
                        if a == 'Err':
                            got.add(('error', None, None))
                            continue
                        b = env.get((rl, ('@Ok', '.0')))
                        if b == 'None':
                            got.add(('omit', None, None))
                        else:
                            got.add(('keep', env.get((rl, ('@Ok', '.0', '@Some', '.0', '.0'))), env.get((rl, ('@Ok', '.0', '@Some', '.0', '.1')))))
                    got = {x for x in got if x[0] != 'error'} or got  # conversions of the key may fail
                    rep.ob('filter', f'exclude={exc} include={inc} schema includes={explicit} schema default={default}', got == {(want, wi, wx)},
                           f'with exclude {exc!r}, include {inc!r}, schema include {explicit}, schema decision {default} the item must be {say((want, wi, wx))}, it is {" or ".join(sorted(map(say, got)))}', u.where(fn))
                    rep.count('include/exclude combinations')
    # next filters are the values found for the item
    for side, proj in (('include', '.0'), ('exclude', '.1')):
        for nid, pl, rv, ln in [(n.id, pl, rv, ln) for n in g.nodes for pl, rv, ln in n.stmts if rv[0] == 'tuple' and len(rv[1]) == 2]:
            o = rv[1][int(proj[1])]
            if isinstance(o, dict):
                continue
            who = {arg[s[1]] for s in g.sources(o) if s[0] == 'arg' and s[1] in arg}
            rep.ob('filter', f'next {side}', who <= {side}, f'the next {side} of an item is taken from {sorted(who)}', g.where(nid))
    # what the schema says: explicit_include and default_filter
    for m, table in (('explicit_include', lambda i, e, ni, ne: i and ni), ('default_filter', lambda i, e, ni, ne: (ni if i else True) and (not ne if e else True))):
        fn = next((f for st, f in p.trait_impls('serializers::filter::FilterLogic', m) if 'SchemaFilter' in (st.get('d') or st['s'])), None)
        if not rep.ob('anchor', m, fn is not None, f'{m} of SchemaFilter not found'):
            continue
        g = mir.Graph(p, fn)
        for i in (False, True):
            for e in (False, True):
                for ni in (False, True):
                    for ne in (False, True):
                        a = Sets(g, {'include': ni, 'exclude': ne})
                        f = fl.Flow(g, track_ret=True, assume=a, seed={(g.arg_locals[0], ('*', '.include')): 'Some' if i else 'None', (g.arg_locals[0], ('*', '.exclude')): 'Some' if e else 'None',
                                                      (g.arg_locals[0], ('.include',)): 'Some' if i else 'None', (g.arg_locals[0], ('.exclude',)): 'Some' if e else 'None'})
                        got = {f.env(x).get((g.ret_local, ())) for x in f.exits if x in f.reach(f.entry_states())}
                        want = table(i, e, ni, ne)
                        rep.ob('filter', f'{m} include={i and ni if i else None} exclude={e and ne if e else None}', got == {want}, f'{m} yields {sorted(map(str, got))}, must be {want}', u.where(fn))
                        rep.count('schema filter combinations')
    fn = p.fns.get(FILTER + 'is_ellipsis_like')
    if rep.ob('anchor', 'is_ellipsis_like', fn is not None, 'is_ellipsis_like not found'):
        g = mir.Graph(p, fn)
        for ell, isb, true in ((True, False, False), (False, True, True), (False, True, False), (False, False, False)):
            f = fl.Flow(g, track_ret=True, assume=Ell(ell, isb, true))
            got = {f.env(x).get((g.ret_local, ())) for x in f.exits if x in f.reach(f.entry_states())}
            rep.ob('filter', f'whole: ellipsis={ell} bool={isb} true={true}', got == {ell or isb and true}, f'a filter value (ellipsis={ell}, bool={isb}, true={true}) stands for the whole item: {sorted(map(str, got))}', u.where(fn))


def say(x):
    return 'kept with include %s and exclude %s' % (x[1], x[2]) if x[0] == 'keep' else {'omit': 'left out', 'error': 'answered with an error'}[x[0]]


class Sets:
    def __init__(self, g, ans):
        self.g, self.ans = g, ans

    def call(self, c):
        if c.m == 'contains':
            w = {e[1:] for s in self.g.sources(c.args[0]) if s[0] == 'arg' for e in s[2] if e in ('.include', '.exclude')}
            if len(w) == 1:
                return {(): self.ans[w.pop()]}
        return None

    def bin(self, rv, node):
        return None

    def discr(self, key, node, adt):
        return None

    def boolean(self, place, node):
        return None


class Ell(Sets):
    def __init__(self, ell, isb, true):
        self.v = (ell, isb, true)

    def call(self, c):
        if c.m == 'is' and len(c.args) == 2:
            return {(): self.v[0]}
        if c.m in ('downcast', 'downcast_exact'):
            return {(): 'Ok' if self.v[1] else 'Err'}
        if c.m == 'is_true':
            return {(): self.v[2]}
        if c.m in ('extract',):
            return {(): 'Ok' if self.v[1] else 'Err', ('@Ok', '.0'): self.v[2]}
        return None


# ---------------------------------------------------------------- what the flags mean

EMIT = ('set_item', 'serialize_entry', 'serialize_key', 'serialize_value')
FLAGS = ('exclude_none', 'exclude_defaults', 'exclude_unset', 'round_trip')


class Opts:
    def __init__(self, g, flags, alias, calls):
        self.g, self.flags, self.alias, self.calls = g, flags, alias, calls
        self.memo = {}

    def field(self, place):
        k = (place[0], place[1])
        if k not in self.memo:
            got = set()
            for s in self.g.sources(place):
                if s[0] == 'arg':
                    pj = [e for e in s[2] if e.startswith('.')]
                    got.add(pj[-1][1:] if pj else '')
                elif s[0] not in ('adt',):
                    got.add('')
            self.memo[k] = got.pop() if len(got) == 1 else None
        return self.memo[k]

    def call(self, c):
        return self.calls(self.g, c)

    def bin(self, rv, node):
        return None

    def cfg(self, place):
        k = ('cfg', place[0], place[1])
        if k not in self.memo:
            hit = ['.serialize_by_alias' in place[1]]
            self.g.sources(place, stop=lambda c: hit.append('.serialize_by_alias' in self.g.at_proj))
            self.memo[k] = any(hit) or any(s[0] in ('arg', 'cbarg') and '.serialize_by_alias' in s[2] for s in self.g.sources(place) if len(s) > 2)
        return self.memo[k]

    def discr(self, key, node, adt):
        if adt == mir.OPT and self.alias and self.alias[0] is None and self.cfg(key):
            return 'None' if self.alias[1] is None else 'Some'
        return None

    def boolean(self, place, node):
        f = self.field(place)
        if f in self.flags:
            return self.flags[f]
        if self.alias and self.alias[0] is None and self.cfg(place):
            return self.alias[1]
        return None


def ask(none=None, filt=None, default=None, eq=None, got=True, check=False):
    """answers of the calls a field loop asks"""
    def calls(g, c):
        if c.m == 'is_none' and none is not None and 'pyo3' in c.name:
            return {(): none}
        if c.m in ('key_filter', 'index_filter', 'filter') and 'serializers::filter' in c.name and filt is not None:
            return {(): 'Ok', ('@Ok', '.0'): filt}
        if c.m == 'get_default' and default is not None:
            return {(): 'Ok', ('@Ok', '.0'): default}
        if c.m == 'eq' and eq is not None and 'pyo3' in c.name:
            return {(): 'Ok', ('@Ok', '.0'): eq}
        return None
    return calls


def emitters(p):
    """functions that write the fields of an object one by one"""
    out = []
    for path, fn in sorted(p.fns.items()):
        if '{closure' in path or not any(path.lstrip('<').startswith(x) for x in ('serializers::fields::', 'serializers::computed_fields::')):
            continue
        if roles(p, fn) is None or fn.name == 'json_key':
            continue
        g = mir.Graph(p, fn, noinline=lambda x: opaque(x) or x.endswith('::get_default'))
        em = {c.node for c in g.calls if c.m in EMIT and not c.inlined}
        if em:
            out.append((fn, g, em))
    return out


def reachable(g, flags, alias, calls, frm=None, avoid=()):
    seed = {}
    for al in g.arg_locals:
        if is_extra(g.p, g.ltypes[al]):
            for d in ((), ('*',)):
                for k, v in flags.items():
                    seed[(al, d + ('.' + k,))] = v
                if alias:
                    seed[(al, d + ('.by_alias',))] = 'None' if alias[0] is None else 'Some'
                    if alias[0] is not None:
                        seed[(al, d + ('.by_alias', '@Some', '.0'))] = alias[0]
    f = fl.Flow(g, assume=Opts(g, flags, alias, calls), seed=seed)
    st = f.entry_states() if frm is None else [i for n in frm for i in f.at.get(n, [])]
    r = f.reach(st, avoid=set(avoid))
    return f, {f.states[i][0] for i in r}


def check_flags(p, rep):
    off = {k: False for k in FLAGS}
    for fn, g, em in emitters(p):
        nm = fn.path.replace('serializers::', '')
        computed = 'computed' in fn.path
        w = u.where(fn)
        filt = {c.node for c in g.calls if c.m in ('key_filter', 'index_filter') and not c.inlined}
        f, rn = reachable(g, {**off, 'exclude_none': True}, None, ask(none=True))
        rep.ob('flags', f'{nm}: exclude_none', not (rn & em), f'with exclude_none a field whose value is None is written at {[g.where(n) for n in sorted(rn & em)][:1]}', w)
        f, rn = reachable(g, {**off, 'exclude_none': True}, None, ask(none=False))
        rep.ob('flags', f'{nm}: exclude_none keeps', bool(rn & em), 'with exclude_none a field whose value is not None is never written', w)
        f, rn = reachable(g, off, None, ask(filt='None'))
        rep.ob('flags', f'{nm}: filtered out', not (rn & em), f'a field that include/exclude leave out is written at {[g.where(n) for n in sorted(rn & em)][:1]}', w)
        if not computed:
            f, rn = reachable(g, {**off, 'exclude_defaults': True}, None, lambda g, c: ask(default='Some', eq=True)(g, c))
            bad = {n for n in rn & em if declared(g, n)}
            rep.ob('flags', f'{nm}: exclude_defaults', not bad, f'with exclude_defaults a field that equals its default is written at {[g.where(n) for n in sorted(bad)][:1]}', w)
            f, rn = reachable(g, {**off, 'exclude_defaults': True}, None, ask(default='Some', eq=False))
            rep.ob('flags', f'{nm}: exclude_defaults keeps', any(declared(g, n) for n in rn & em) or not any(declared(g, n) for n in em), 'with exclude_defaults a field that differs from its default is never written', w)
            # with the flag off every field that passes the filter is written
            f, rn = reachable(g, off, None, ask(filt='Some', none=True, default='Some', eq=True))
            rep.ob('flags', f'{nm}: off', em <= rn or bool(em & rn) and all(n in rn for n in em), 'a field is left out although no option asks for it', w)
        else:
            f, rn = reachable(g, {**off, 'round_trip': True}, None, ask())
            if fn.name in ('to_python', 'serde_serialize') and 'ComputedFields::' in fn.path:
                rep.ob('flags', f'{nm}: round_trip', not (rn & em), 'computed fields are written although round_trip is set', w)
            f, rn = reachable(g, off, None, ask(filt='Some', none=True))
            rep.ob('flags', f'{nm}: off', bool(rn & em), 'computed fields are left out although no option asks for it', w)
        rep.count('field loops')
    # a model that is asked to leave out unset fields looks at the fields set
    for path, fn in sorted(p.fns.items()):
        if not path.lstrip('<').startswith('serializers::type_serializers::') or '{closure' in path:
            continue
        if roles(p, fn) is None or not any('__pydantic_fields_set__' in p.body_strings(x) for x in p.fns if x == path or x.startswith(path + '::')):
            continue
        g = mir.Graph(p, fn, noinline=opaque)
        dl = {c.node for c in g.calls if c.m in ('del_item', 'set_item')}
        con = [c for c in g.calls if c.m == 'contains' and not c.inlined]
        for inset in (True, False):
            def calls(g, c, inset=inset):
                return {(): 'Ok', ('@Ok', '.0'): inset} if c.m == 'contains' else None
            f, rn = reachable(g, {**off, 'exclude_unset': True}, None, calls)
            dele = {c.node for c in g.calls if c.m == 'del_item'}
            if dele:
                rep.ob('flags', f'{fn.name}: exclude_unset, field {"set" if inset else "not set"}', bool(dele & rn) == (not inset), f'with exclude_unset a field that was {"set is dropped" if inset else "not set is kept"}', u.where(fn))
            else:
                keep = {c.node for c in g.calls if c.m == 'set_item'}
                rep.ob('flags', f'{fn.name}: exclude_unset, field {"set" if inset else "not set"}', bool(keep & rn) == inset, f'with exclude_unset a field that was {"set is dropped" if inset else "not set is kept"}', u.where(fn))
        f, rn = reachable(g, off, None, lambda g, c: None)
        rep.ob('flags', f'{fn.name}: exclude_unset off', not ({c.node for c in g.calls if c.m == 'del_item'} & rn), 'fields are dropped although exclude_unset is off', u.where(fn))
        rep.count('exclude_unset sites')


def declared(g, n):
    """the node writes a declared field (its serializer comes from the table of fields), not an extra item"""
    c = next(c for c in g.calls if c.node == n)
    return any(s[0] == 'arg' and '.fields' in s[2] for o in c.args[2:] if not isinstance(o, dict) for s in g.sources(o))


def check_duck(p, rep):
    """serialize_as_any: True asks for inference at the first model, then schema based, then inference again"""
    tab = {'from_bool': {True: 'NeedsInference', False: 'SchemaBased'}, 'to_bool': {'SchemaBased': False, 'NeedsInference': True, 'Inferred': True},
           'next_mode': {'SchemaBased': 'SchemaBased', 'NeedsInference': 'Inferred', 'Inferred': 'NeedsInference'}}
    for m, t in tab.items():
        fn = p.fns.get(f'{DUCK}::{m}')
        if not rep.ob('anchor', m, fn is not None, f'DuckTypingSerMode::{m} not found'):
            continue
        g = mir.Graph(p, fn)
        for a, want in t.items():
            f = fl.Flow(g, track_ret=True, seed={(g.arg_locals[0], d): a for d in ((), ('*',))})
            got = {f.env(x).get((g.ret_local, ())) for x in f.exits if x in f.reach(f.entry_states())}
            rep.ob('flags', f'serialize_as_any {m}({a})', got == {want}, f'{m}({a}) is {sorted(map(str, got))}, must be {want}', u.where(fn))


def check_alias(p, rep):
    """the alias is written exactly when by_alias of the call, else serialize_by_alias of the config, else nothing, says so"""
    for path, fn in sorted(p.fns.items()):
        if '{closure' in path or not any(path.lstrip('<').startswith(x) for x in ('serializers::fields::', 'serializers::computed_fields::')) or roles(p, fn) is None:
            continue
        g = mir.Graph(p, fn, noinline=opaque)
        reads = {n.id for n in g.nodes for pl, rv, ln in n.stmts for o in ([rv[2]] if rv[0] == 'ref' else [rv[1]] if rv[0] == 'discr' else mir.operands_of(rv)) if not isinstance(o, dict) and o[1] and ({'.alias', '.alias_py'} & set(o[1]))}
        reads = {n for n in reads if g.nodes[n].frame.fn is fn or roles(p, g.nodes[n].frame.fn) is None}  # helpers that are given the options are judged themselves
        if not reads or any(x in path for x in ('::new', 'traverse')):
            continue
        for rt in (True, False, None):
            for cf in (True, False, None):
                want = rt if rt is not None else bool(cf)
                f, rn = reachable(g, {}, (rt, cf), lambda g, c: None)
                rep.ob('alias', f'{fn.path.replace("serializers::", "")}: by_alias={rt} serialize_by_alias={cf}', bool(reads & rn) == want,
                       f'with by_alias={rt} and serialize_by_alias={cf} the field is {"not " if want else ""}written under its alias', u.where(fn))
                rep.count('alias decisions')


def run(p, rep, tier):
    rep.rule('entry', 'every option of the public serialization functions fills the option of that name and no other')
    rep.rule('copies', 'wherever the options of a call are copied or rebound (for a nested model, a callback, an iterator, a nested serializer) each option is copied from itself')
    rep.rule('options', 'every nested serialization is given the options of the call it belongs to')
    rep.rule('filters', 'a nested value is given the include/exclude of the call, or - for an item of a container - the next include/exclude computed for that item, in that order')
    rep.rule('filter', 'the decision on an item follows the documented precedence: exclude, include, schema include, schema default; the next include/exclude are the ones found for the item')
    rep.rule('flags', 'exclude_none / exclude_defaults / exclude_unset / round_trip leave out exactly the fields they name')
    rep.rule('alias', 'a field is written under its alias exactly when by_alias (else serialize_by_alias) asks for it')
    rs, car = roots(p)
    es = entries(p)
    for rt in rs + es:
        check_nested(rt, car, rep)
        check_extras(rt, rep)
    check_filter(p, rep)
    check_flags(p, rep)
    check_alias(p, rep)
    check_duck(p, rep)
    rep.floor('nested calls given options', 150)
    rep.floor('filter pairs decided', 120)
    rep.floor('filters handed on', 100)
    rep.floor('copied options', 100)
    rep.floor('entry options', 30)
    rep.floor('include/exclude combinations', 400)
    rep.floor('field loops', 4)
    rep.floor('alias decisions', 18)
    rep.floor('exclude_unset sites', 1)

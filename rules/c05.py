"""C05: strict mode accepts only values of the declared type, and every match says how exact it is."""
import mir
import flow as fl
import util as u
import c14

TRAIT = 'input::input_abstract::Input'
CTORS = {'exact': 'Exact', 'strict': 'Strict', 'lax': 'Lax'}
JSON = 'JsonValue'

# what each conversion accepts from Python: the tests of its own type, the outcome for exactly that type and for a subclass
PY = {
    'validate_str': (('PyString',), 'Exact', 'Strict'),
    'validate_bytes': (('PyBytes',), 'Exact', 'Strict'),
    'validate_bool': (('PyBool',), 'Exact', 'Exact'),
    'validate_int': (('PyInt',), 'Exact', 'Strict'),
    'validate_float': (('PyFloat', 'f64'), 'Exact', 'Strict'),
    'validate_decimal': (('Decimal',), 'Exact', 'Strict'),
    'validate_list': (('PyList',), 'Exact', 'Exact'),
    'validate_tuple': (('PyTuple',), 'Exact', 'Exact'),
    'validate_set': (('PySet',), 'Exact', 'Exact'),
    'validate_frozenset': (('PyFrozenSet',), 'Exact', 'Exact'),
    'validate_date': (('PyDate',), 'Exact', 'Strict'),
    'validate_time': (('PyTime',), 'Exact', 'Strict'),
    'validate_datetime': (('PyDateTime',), 'Exact', 'Strict'),
    'validate_timedelta': (('PyDelta',), 'Exact', 'Strict'),
    'validate_complex': (('PyComplex',), 'Strict', 'Strict'),
}
SUPER = {'PyDateTime': ('PyDate',), 'PyBool': ('PyInt',)}
# values of one type that are not values of another although Python says they are instances of it
NOT = {'validate_int': ('PyBool', 'Lax'), 'validate_float': ('PyBool', 'Lax'), 'validate_date': ('PyDateTime', None)}

# from JSON: variant -> (outcome in strict mode, outcome in lax mode), everything else is rejected
S, E, L = 'Strict', 'Exact', 'Lax'
JS = {
    'validate_str': {'Str': (S, S), 'Int': (None, L), 'BigInt': (None, L), 'Float': (None, L)},
    'validate_bytes': {'Str': (S, S)},
    'validate_bool': {'Bool': (E, E), 'Str': (None, L), 'Int': (None, L), 'Float': (None, L)},
    'validate_int': {'Int': (E, E), 'BigInt': (E, E), 'Bool': (None, L), 'Float': (None, L), 'Str': (None, L)},
    'validate_float': {'Float': (E, E), 'Int': (S, S), 'BigInt': (S, S), 'Bool': (None, L), 'Str': (None, L)},
    'validate_decimal': {'Float': (S, S), 'Str': (S, S), 'Int': (S, S), 'BigInt': (S, S)},
    'validate_list': {'Array': (E, E)},
    'validate_tuple': {'Array': (S, S)},
    'validate_set': {'Array': (S, S)},
    'validate_frozenset': {'Array': (S, S)},
    'validate_date': {'Str': (S, S)},
    'validate_time': {'Str': (S, S), 'Int': (None, L), 'Float': (None, L)},
    'validate_datetime': {'Str': (S, S), 'Int': (None, L), 'Float': (None, L)},
    'validate_timedelta': {'Str': (S, S), 'Int': (None, L), 'Float': (None, L)},
    'validate_complex': {'Str': (S, S), 'Int': (None, L), 'Float': (None, L)},
}
SEQ = ('validate_list', 'validate_tuple', 'validate_set', 'validate_frozenset')
# keys of JSON objects and values of string mappings are strings whatever they stand for
KEYS = {m: (None if m in SEQ else S if m in ('validate_str', 'validate_bytes', 'validate_complex') else L) for m in PY}
KEYS['validate_bool'] = L
STRINGS = {m: (None if m in SEQ else S) for m in PY}


BUILTIN = {o for own, _, _ in PY.values() for o in own if o != 'f64'} | {'PyByteArray', 'PyMapping'}


def opaque(path):
    return path.startswith(('errors::', 'input::return_enums::ValidationMatch'))


def last(ts):
    """name of a type without path, lifetimes and arguments"""
    t = ts.split('<')[0]
    return t.split('::')[-1].strip('&\'_ ')


class Py(fl.Assume):
    """the outcome of the type tests made on the input itself"""

    def __init__(self, g, inst, exact):
        self.g, self.inst, self.exact = g, inst, exact
        self.memo = {}

    def subject(self, c):
        if not c.args or isinstance(c.args[0], dict):
            return False
        if c.node not in self.memo:
            self.memo[c.node] = any(s[0] == 'arg' and s[1] == 0 for s in self.g.sources(c.args[0], stop=lambda x: not x.inlined))
        return self.memo[c.node]

    def call(self, c):
        if c.m not in TESTS or not self.subject(c):
            return None
        if c.m in ('is_instance', 'is_exact_instance'):
            src = self.g.sources(c.args[1])
            t = ['Decimal'] if any('decimal' in str(s[1]).lower() for s in src if s[0] in ('static', 'str', 'call')) else []
        else:
            t = [last(self.g.p.ts(a)) for a in c.ga[-1:]]
        tab = self.exact if 'exact' in c.m else self.inst
        r = [tab[x] for x in t if x in tab]
        if len(r) != 1:
            return None
        r = r[0]
        if TESTS[c.m] == 'result':
            return {(): 'Ok' if r else 'Err'}
        if TESTS[c.m] == 'bool':
            return {(): r}
        return {(): 'Ok', ('@Ok', '.0'): r}


TESTS = {'downcast': 'result', 'downcast_into': 'result', 'downcast_exact': 'result', 'downcast_into_exact': 'result', 'extract': 'result',
         'is_instance_of': 'bool', 'is_exact_instance_of': 'bool', 'is_exact_instance': 'bool', 'is_instance': 'resbool'}


class Variant(fl.Assume):
    """the input is a given variant of its enum"""

    def __init__(self, g, adt, variant):
        self.g, self.adt, self.variant = g, adt, variant

    def discr(self, key, node, adt):
        if adt.endswith(self.adt) and key[0] in self.g.arg_locals[:1] and not [e for e in key[1] if e != '*']:
            return self.variant
        return None


class Conversion:
    def __init__(self, p, fn):
        self.p, self.fn = p, fn
        self.g = g = mir.Graph(p, fn, noinline=opaque, extra_inline={k for k, f in p.fns.items() if 'From<' in (f.d.get('itrait') or '') or k.startswith('<input::') and 'From<' in k})
        self.strict = [g.arg_locals[i] for i in range(fn.d['args']) if (fn.d['names'].get(str(i + 1)) or '').lstrip('_') == 'strict']
        self.grants = set()

        def stop(c):
            if 'ValidationMatch' in c.name:
                self.grants.add(c.node)
            return not c.inlined
        self.other = [s for s in g.sources((g.ret_local, ('@Ok', '.0')), stop=stop) if s[0] == 'call' and 'ValidationMatch' not in s[1]]
        self.calls = {c.node: c for c in g.calls}

    def outcomes(self, assume, strict):
        """{Exact, Strict, Lax, ?, Err} reachable under the assumption"""
        g = self.g
        f = fl.Flow(g, track_ret=True, assume=assume, seed={(l, ()): strict for l in self.strict}, watch=[(n, 'call') for n in self.grants if g.nodes[n].term[0] == 'call'])
        ent = f.entry_states()
        live = f.reach(ent)
        out = set()
        oks = set(f.exits_with('Ok')) & live
        for n in self.grants:
            c = self.calls[n]
            for s in f.at.get(n, ()):
                if s not in live or not f.reach([t for _, t in f.succ[s]]) & oks:
                    continue
                if c.m in CTORS:
                    out.add(CTORS[c.m])
                else:
                    v = f.values(s, 'call')[1].get(()) if g.nodes[n].term[0] == 'call' and len(c.args) > 1 else None
                    out.add(v if isinstance(v, str) else '?')
        if f.reach(ent, avoid=self.grants) & oks:
            out.add('?')
        if set(f.exits_with('Err')) & live:
            out.add('Err')
        return out


def show(s):
    return ', '.join(sorted(s)) or 'nothing'


def run(p, rep, tier):
    rep.rule('python', 'for every conversion of a Python value: when every test of the declared type fails, strict mode accepts nothing and lax mode reports every match lax; a value of exactly the type and of a subclass of it are accepted alike in both modes, with the exactness of the conversion table; a bool is no int or float and a datetime no date')
    rep.rule('json', 'for every conversion of a JSON value and every kind of JSON value: accepted or rejected, and with the exactness, of the conversion table, in strict and in lax mode')
    rep.rule('text', 'keys of JSON objects and string data are converted with the exactness of the conversion table, the same in strict and lax mode')
    rep.rule('passed', 'a validator asks for strict conversions of its input exactly when strict mode is in force')
    rep.rule('only', 'in strict mode validators do not fall back to another conversion of the input, do not look up or build an instance from other Python data, and lax-or-strict uses the strict schema')
    rep.rule('value', 'a Python object accepted as an int without conversion passed an int test')
    rep.rule('anchor', 'anchors')
    impls(p, rep)
    dicts(p, rep)
    values(p, rep)
    validators(p, rep)
    rep.floor('conversions', 55)
    rep.floor('scenarios', 240)


def impls(p, rep):
    for path, fn in sorted(p.fns.items()):
        m = path.split('::')[-1]
        if '{closure' in path or m not in PY or 'input_abstract::Input<' not in path:
            continue
        c = Conversion(p, fn)
        rep.count('conversions')
        if path.startswith('input::input_python::'):
            python(p, rep, c, m)
        elif JSON in path.split(' for ')[-1]:
            json(p, rep, c, m)
        elif 'str as ' in path or ' for str>' in path:
            text(p, rep, c, m, 'key of a JSON object', KEYS[m])
        elif 'StringMapping' in path:
            text(p, rep, c, m, 'string data', STRINGS[m])
        else:
            rep.ob('anchor', path, False, 'conversion of an unknown form of input', u.where(fn))


def python(p, rep, c, m):
    own, exact, sub = PY[m]
    w = u.where(c.fn)

    def check(what, tab, ex, strict, want, why):
        got = c.outcomes(Py(c.g, tab, ex), strict)
        rep.ob('python', f'{m}: {what}, {"strict" if strict else "lax"}', want(got), f'{why} (possible: {show(got)})', w)
        rep.count('scenarios')
    up = [s for o in own for s in SUPER.get(o, ())]
    for strict in (True, False):
        mode = 'strict' if strict else 'lax'
        neg = {o: False for o in own}
        check('other type', neg, neg, strict, (lambda g: g == {'Err'}) if strict else (lambda g: g <= {'Lax', 'Err'} and 'Err' in g),
              'strict mode accepts a value that is not an instance of the type' if strict else 'a converted value is not reported as a lax match')
        pos = {o: True for o in own} | {s: True for s in up}
        # layouts of builtin types exclude each other: an instance of one is not an instance of another
        others = {s: False for s in BUILTIN if s not in pos}
        check('exactly the type', pos | others, pos | {s: False for s in up} | others, strict, lambda g: g == {exact},
              f'a value of exactly the type must be accepted as a match that is {exact}')
        if m != 'validate_bool':
            check('a subclass', pos | others, {o: False for o in own} | {s: False for s in up} | others, strict, lambda g: g <= {sub, 'Err'} and sub in g,
                  f'a value of a subclass of the type must be accepted as a match that is {sub}')
        if m in NOT:
            t, lax = NOT[m]
            inst = {o: o != 'PyFloat' for o in own} | {t: True, 'PyInt': True}
            want = {'Err'} if strict or lax is None else {lax, 'Err'}
            check(f'a {t[2:].lower()}', inst, {o: False for o in own} | {t: True}, strict, lambda g: g <= want and (lax is None or strict or lax in g),
                  f'a {t[2:].lower()} must be {"rejected" if strict or lax is None else "a lax match"} in {mode} mode')


def json(p, rep, c, m):
    adt = next((a for a in p.adts if a.endswith('jiter::JsonValue') or a.endswith('::JsonValue')), None)
    rep.ob('anchor', 'JsonValue', adt is not None, 'the type of JSON values is not known')
    if adt is None:
        return
    for v in variants(p, adt):
        for strict in (True, False):
            want = JS[m].get(v, (None, None))[0 if strict else 1]
            got = c.outcomes(Variant(c.g, adt.split('::')[-1], v), strict)
            ok = got == {'Err'} if want is None else want in got and got <= {want, 'Err'}
            rep.ob('json', f'{m}: {v}, {"strict" if strict else "lax"}', ok, f'a JSON {v} must be {"rejected" if want is None else "accepted as " + want} (possible: {show(got)})', u.where(c.fn))
            rep.count('scenarios')


def variants(p, adt):
    return [v['n'] if isinstance(v, dict) else v[0] if isinstance(v, (list, tuple)) else v for v in p.adts[adt].variants]


def text(p, rep, c, m, what, want):
    for strict in (True, False):
        got = c.outcomes(fl.Assume(), strict)
        ok = got == {'Err'} if want is None else want in got and got <= {want, 'Err'}
        rep.ob('text', f'{m}: {what}, {"strict" if strict else "lax"}', ok, f'{what} must be {"rejected" if want is None else "accepted as " + want} (possible: {show(got)})', u.where(c.fn))
        rep.count('scenarios')


# -------------------------------------------------------------------- mappings

def dicts(p, rep):
    """dict schemas: strict mode takes dicts only, lax mode mappings too"""
    for path, fn in sorted(p.fns.items()):
        m = path.split('::')[-1]
        if '{closure' in path or m not in ('strict_dict', 'validate_dict', 'lax_dict', 'validate_model_fields') or 'input_abstract::Input' not in path:
            continue
        w = u.where(fn)
        if path.startswith('input::input_python::'):
            for d, mp, accept in ((True, False, True), (False, True, m == 'lax_dict'), (False, False, False)):
                c = Conversion(p, fn)
                if m == 'validate_model_fields':
                    continue
                got = c.outcomes(Py(c.g, {'PyDict': d, 'PyMapping': mp or d}, {'PyDict': d}), True)
                rep.ob('python', f'{m}: {"a dict" if d else "a mapping" if mp else "other type"}', (got == {'?'}) if accept else (got == {'Err'}), f'must be {"accepted" if accept else "rejected"} (possible: {show(got)})', w)
                rep.count('scenarios')
            if m == 'validate_model_fields':
                for strict in (True, False):
                    model_fields(p, rep, fn, strict, w)
        elif path.startswith('input::input_abstract::Input::') and m in ('validate_dict', 'validate_model_fields'):
            for strict in (True, False):
                g = mir.Graph(p, fn, noinline=opaque)
                sl = [g.arg_locals[i] for i in range(fn.d['args']) if fn.d['names'].get(str(i + 1)) == 'strict']
                f = fl.Flow(g, seed={(l, ()): strict for l in sl}, watch=[(c.node, 'call') for c in g.calls if g.nodes[c.node].term[0] == 'call'])
                live = f.reach(f.entry_states())
                called = {}
                for c in g.calls:
                    for st in f.at.get(c.node, ()):
                        if st in live and not c.inlined and c.trait == TRAIT:
                            called[c.m] = f.values(st, 'call')[1].get(()) if len(c.args) > 1 else None
                want = {'validate_dict': strict} if m == 'validate_model_fields' else {'strict_dict' if strict else 'lax_dict': None}
                rep.ob('python', f'{m}: {"strict" if strict else "lax"}', called == want, f'must use {list(want)[0]} (uses {called})', w)
                rep.count('scenarios')


def model_fields(p, rep, fn, strict, w):
    """strict mode reads no mappings, and attributes only with from_attributes"""
    g = mir.Graph(p, fn, noinline=opaque)
    arg = {fn.d['names'].get(str(i + 1)): g.arg_locals[i] for i in range(fn.d['args'])}
    for fa in (True, False):
        a = Py(g, {'PyDict': False, 'PyMapping': True}, {})
        f = fl.Flow(g, track_ret=True, assume=a, seed={(arg['strict'], ()): strict, (arg['from_attributes'], ()): fa}, watch=[(c.node, 'call') for c in g.calls if g.nodes[c.node].term[0] == 'call'])
        live = f.reach(f.entry_states())
        kinds = {rv[2] for nid, pl, rv, ln in g.aggs() if rv[1].endswith('GenericPyMapping') and set(f.at.get(nid, ())) & live}
        kinds |= {c.m for c in g.calls if not c.inlined and c.m in ('strict_dict', 'lax_dict', 'validate_dict') and set(f.at.get(c.node, ())) & live}
        ok = ('Mapping' not in kinds and 'lax_dict' not in kinds) if strict else fa or kinds <= {'validate_dict', 'lax_dict', 'Mapping'}
        if not fa:
            ok = ok and 'GetAttr' not in kinds
            for c in g.calls:
                if c.m == 'validate_dict' and not c.inlined and g.nodes[c.node].term[0] == 'call':
                    vs = {f.values(st, 'call')[1].get(()) for st in f.at.get(c.node, ()) if st in live}
                    ok = ok and vs <= {strict}
        rep.ob('python', f'validate_model_fields: a mapping, {"strict" if strict else "lax"}, attributes {"" if fa else "not "}read', ok, f'reads it as {sorted(kinds)}', w)
        rep.count('scenarios')


# -------------------------------------------------------------------- untyped values

def values(p, rep):
    """an int is the only accepted value that the Rust types leave untyped"""
    n = 0
    for path, fn in sorted(p.fns.items()):
        if '{closure' in path or not path.lstrip('<').startswith(('input::', 'validators::')):
            continue
        if not any(x[1] and x[1][0] == 'adt' and x[1][1].endswith('EitherInt') and x[1][2] == 'Py' for b in fn.d['blocks'] if b for x in b['s'] if len(x) > 1):
            continue
        g = mir.Graph(p, fn, noinline=opaque)
        f = fl.Flow(g, track_ret=True, assume=NoInt(g))
        live = f.reach(f.entry_states())
        for nid, pl, rv, ln in g.aggs():
            if not rv[1].endswith('EitherInt') or rv[2] != 'Py' or g.nodes[nid].frame.fn is not fn:
                continue
            n += 1
            ok = not set(f.at.get(nid, ())) & live or any(s[0] == 'str' and s[1] == 'as_integer_ratio' for o in mir.operands_of(rv) for s in g.sources(o))
            rep.ob('value', f'{path}: {n}', ok, 'an object that was not tested to be an int is accepted as one', g.where(nid))
            rep.count('ints taken as they are')
    rep.floor('ints taken as they are', 2)


class NoInt(fl.Assume):
    def __init__(self, g):
        self.g = g

    def call(self, c):
        if c.m in TESTS and not c.inlined and c.ga and last(self.g.p.ts(c.ga[-1])) in ('PyInt', 'PyBool'):
            return {(): 'Err'} if TESTS[c.m] == 'result' else {(): False}


# -------------------------------------------------------------------- validators

# literals and enum members are looked up exactly, in whatever mode
EXACT_LOOKUP = {'validate_int', 'validate_str', 'validate_float', 'exact_int', 'exact_str', 'validate_bool'}
INPUT_TYPE = 'input::input_abstract::InputType'


def subject(g, fn, c):
    if not c.args or isinstance(c.args[0], dict):
        return False
    return any(s[0] == 'arg' and c14.argname(fn, s[1]) == 'input' for s in g.sources(c.args[0], stop=lambda x: not x.inlined and x.m != 'as_python'))


class InForce(fl.Assume):
    """strict mode is in force or not; optionally: Python input that is not an instance and that strict conversions reject"""

    def __init__(self, g, fn, strict, reject):
        self.g, self.fn, self.strict, self.reject = g, fn, strict, reject
        self.sub = {}

    def subject(self, c):
        if c.node not in self.sub:
            self.sub[c.node] = subject(self.g, self.fn, c)
        return self.sub[c.node]

    def call(self, c):
        if c.m == 'strict_or' and not c.inlined:
            return {(): self.strict}
        if not self.reject:
            return None
        if c.m in ('eq', 'ne') and c.args and not isinstance(c.args[0], dict):
            src = [s for o in c.args for s in self.g.sources(o)]
            vs = {s[2] for s in src if s[0] == 'adt' and s[1] == INPUT_TYPE}
            if len(vs) == 1 and any(s[0] == 'arg' and '.input_type' in s[2] for s in src):
                return {(): (vs == {'Python'}) == (c.m == 'eq')}
        if c.m in TESTS and not c.inlined and self.subject(c):
            k = TESTS[c.m]
            return {(): 'Err'} if k == 'result' else {(): False} if k == 'bool' else {(): 'Ok', ('@Ok', '.0'): False}
        if c.trait == TRAIT and c.m in CONVERSIONS and not c.inlined and self.subject(c):
            return {(): 'Err', ('@Err', '.0'): 'LineErrors'}

    def discr(self, key, node, adt):
        if self.reject and '.self_instance' in key[1] and not [e for e in key[1][key[1].index('.self_instance') + 1:] if e != '*']:
            return 'None'
        return 'Python' if self.reject and adt == INPUT_TYPE else None


CONVERSIONS = set(PY) | {'validate_dict', 'strict_dict', 'lax_dict', 'validate_model_fields', 'exact_int', 'exact_str'}


def opaque_val(path):
    return path.startswith(('errors::', 'recursion_guard::', 'lookup_key::')) or path.endswith('::strict_or')


def validators(p, rep):
    for path, fn in c14.roots(p):
        if fn.name != 'validate' or ' as validators::Validator>' not in path:
            continue
        g = mir.Graph(p, fn, noinline=opaque_val)
        conv = [c for c in g.calls if not c.inlined and c.trait == TRAIT and c.m in CONVERSIONS and subject(g, fn, c) and g.nodes[c.node].term[0] == 'call']
        consults = [c for c in g.calls if not c.inlined and c.m == 'strict_or']
        if not conv and not consults:
            continue
        lab = path.replace('validators::', '').replace(' as Validator>::validate', '').lstrip('<')
        for strict in (True, False):
            f = fl.Flow(g, track_ret=True, assume=InForce(g, fn, strict, False), watch=[(c.node, 'call') for c in conv])
            live = f.reach(f.entry_states())
            for c in conv:
                if len(c.args) < 2 or c.m in ('exact_int', 'exact_str', 'lax_dict', 'strict_dict'):
                    continue
                vs = {f.values(s, 'call')[1].get(()) for s in f.at.get(c.node, ()) if s in live}
                ok = vs <= {strict} if consults else vs <= {True}
                rep.ob('passed', f'{lab}>{c.m}: {"strict" if strict else "lax"}', ok or (lab, c.m) in PASSED, f'the conversion is asked for with strict {sorted(map(str, vs))} when strict mode is {"" if strict else "not "}in force', g.where(c.node))
                rep.count('conversions asked for')
        if not consults:
            continue
        f = fl.Flow(g, track_ret=True, assume=InForce(g, fn, True, True))
        live = f.reach(f.entry_states())
        inner = [c for c in g.calls if not c.inlined and c.m in ('validate', 'validate_assignment') and set(f.at.get(c.node, ())) & live]
        if lab == LAX_OR_STRICT:
            # it has no conversions of its own: the strict schema decides
            inner = [c for c in inner if not from_field(g, c, '.strict_validator')]
            rep.ob('only', lab, not inner, 'in strict mode another schema than the strict one is used', g.where(inner[0].node) if inner else u.where(fn))
            f2 = fl.Flow(g, track_ret=True, assume=InForce(g, fn, False, False))
            l2 = f2.reach(f2.entry_states())
            lax = {c.node for c in g.calls if not c.inlined and c.m == 'validate' and from_field(g, c, '.lax_validator')}
            rep.ob('only', f'{lab}: lax', any(set(f2.at.get(n, ())) & l2 for n in lax), 'in lax mode the lax schema is never used', u.where(fn))
        else:
            # a discriminator function chooses before anything is converted
            inner = [c for c in inner if not (lab == TAGGED and set(chosen) & set(f.at.get(c.node, ())))] if (chosen := by_function(g, f, live)) else inner
            ok = not inner and (not set(f.exits_with('Ok')) & live or lab == TAGGED)
            rep.ob('only', lab, ok, 'in strict mode a Python value that is not an instance of the type and has no strict conversion is not rejected', g.where(inner[0].node) if inner else u.where(fn))
        rep.count('strict rejections')


def from_field(g, c, field):
    return c.args and not isinstance(c.args[0], dict) and any(x[0] == 'arg' and x[1] == 0 and field in x[2] for x in g.sources(c.args[0], stop=lambda y: not y.inlined and y.m == 'validate'))


def by_function(g, f, live):
    """states after the discriminator function was called"""
    st = [t for c in g.calls if not c.inlined and c.m in ('call1', 'call') for s in f.at.get(c.node, ()) if s in live for _, t in f.succ[s]]
    return f.reach(st)


LAX_OR_STRICT = 'lax_or_strict::LaxOrStrictValidator'
TAGGED = 'union::TaggedUnionValidator'
# conversions asked for with the same strictness in both modes
PASSED = {
    ('arguments_v3::ArgumentsV3Validator', 'validate_dict'),  # the parameters as a dict, whose values are then validated
    ('json::JsonValidator', 'validate_bytes'),  # the JSON text to be parsed, in any form that can hold text
    ('uuid::UuidValidator', 'validate_str'),  # lax mode goes on to bytes by itself
    ('uuid::UuidValidator', 'validate_bytes'),
}

"""C10: errors which are not validation errors come out unchanged; what user functions raise is classified as documented."""
import mir
import flow as fl
import util as u
import c14

SITE = ('validate', 'validate_assignment', 'default_value', 'get_item', 'validate_args', 'validate_args_v3', 'validate_dataclass_args', 'validate_model_fields', 'as_kwargs')
CONVERT = 'validators::function::convert_err'
WITH_DEFAULT = 'validators::with_default::WithDefaultValidator'
VALERR = 'errors::line_error::ValError'
WITH_LOC = VALERR + '::with_outer_location'
CALLS = ('call', 'call0', 'call1', 'call_method', 'call_method0', 'call_method1')
# what an item which is dropped is dropped from
ALL = ('ValidateToVec', 'ValidateToTuple', 'ValidateToSet', 'ValidateToFrozenSet', 'ValidateToDict')
CONTAINERS = ALL + ('ModelFieldsValidator', 'TypedDictValidator', 'DataclassArgsValidator')
# type whose validate method runs user code -> exceptions are classified (True) or passed on as they are (False)
USER = {
    'validators::function::FunctionPlainValidator': True,
    'validators::function::FunctionBeforeValidator': True,
    'validators::function::FunctionAfterValidator': True,
    'validators::function::FunctionWrapValidator': True,
    'validators::model::ModelValidator': True,
    'validators::dataclass::DataclassValidator': True,
    'validators::call::CallValidator': False,
    'validators::union::TaggedUnionValidator': False,
    WITH_DEFAULT: False,
}
# python exception -> (classes it is an instance of, what it extracts as)
PYEXC = {
    'ValueError': (('PyValueError',), ()),
    'PydanticCustomError': (('PyValueError',), ('errors::value_exception::PydanticCustomError',)),
    'PydanticKnownError': (('PyValueError',), ('errors::value_exception::PydanticKnownError',)),
    'ValidationError': (('PyValueError',), ('errors::validation_exception::ValidationError',)),
    'AssertionError': (('PyAssertionError',), ()),
    'PydanticOmit': (('PydanticOmit',), ()),
    'PydanticUseDefault': (('PydanticUseDefault',), ()),
    'any other exception': ((), ()),
}
# any other test of the exception can go either way
KNOWN = {t for a in PYEXC.values() for x in a for t in x}


def opaque(path):
    if path == WITH_LOC:
        return False
    return path.startswith(('errors::', 'recursion_guard::', 'lookup_key::')) or path == CONVERT


def selfty(p, fn):
    return u.tyname(p, fn.locals[1]) if fn.d['args'] else ''


def owner(path):
    """<T as Trait>::m or T::m -> T without its arguments"""
    t = path[1:].split(' as ')[0] if path.startswith('<') else path.rsplit('::', 1)[0]
    return t.split('<')[0].rstrip(':')


class At(fl.Assume):
    """the call at one node fails with that variant (of ValError) / fails at all"""

    def __init__(self, node, variant=None, convert=None):
        self.node, self.variant, self.cv = node, variant, convert

    def call(self, c):
        if c.node == self.node:
            d = {(): 'Err'}
            if self.variant:
                d[('@Err', '.0')] = self.variant
            return d
        if self.cv and c.fn == CONVERT:
            return {(): self.cv}


def after(f, node, avoid=()):
    live = f.reach(f.entry_states())
    return f.reach([t for s in f.at.get(node, ()) if s in live for _, t in f.succ[s]], avoid=avoid)


def propagation(p, rep):
    covered = set()
    taken = set()
    fns = [(path, fn) for path, fn in sorted(p.fns.items()) if '{closure' not in path and path.lstrip('<').startswith(('validators::', 'input::'))
           and 'ValError' in p.ts(fn.locals[0])]
    fns.sort(key=lambda x: not x[0].startswith('<'))
    seen = set()
    for path, fn in fns:
        if path in covered:
            continue
        g = u.graph(p, fn, noinline=opaque)
        covered |= {n.frame.fn.path for n in g.nodes if n.frame is not None}
        sites = [c for c in g.calls if not c.inlined and c.m in SITE and not c.dest[1] and 'ValError' in p.ts(g.ltypes[c.dest[0]])]
        for c in sites:
            own = owner(path)
            for v in ('InternalErr', 'UseDefault', 'Omit'):
                key = f'{v} from {c.m} in {u.short(own) + "::" + u.short(path)}'
                f = fl.Flow(g, track_ret=True, assume=At(c.node, v))
                r = after(f, c.node)
                w = g.where(c.node)
                ends = {(f.exit_variant(s), f.exit_variant(s, ('@Err', '.0'))) for s in r & set(f.exits)}
                later = [x for x in sites if set(f.at.get(x.node, ())) & r]
                rep.count('error_outcomes')
                bad = [e for e in ends if e != ('Err', v)]
                t = container(own, g, c)
                if v == 'Omit' and t:
                    absorbed = any(e[0] == 'Ok' for e in ends)
                    if absorbed:
                        taken.add(t)
                    if absorbed or c.m == 'validate' and t in ALL:
                        rep.ob('omit', f'{key}: the item is left out, the rest goes on', absorbed, 'no longer left out', w)
                        continue
                if own == WITH_DEFAULT and v == 'UseDefault' and c.m == 'validate' and u.short(path) == 'validate' and any(x.m == 'default_value' for x in later):
                    # handled here
                    rep.ob('use-default', key + ': the default is used', 
                           {x.m for x in later} == {'default_value'} and not after(f, c.node, {x.node for x in later}) & set(f.exits), 'the default is not always used, or something else runs', w)
                    continue
                if own == WITH_DEFAULT and v == 'Omit' and c.m == 'validate':
                    # on_error decides
                    rep.count('left_to_on_error')
                    continue
                rep.ob('unchanged', key, not bad and not later,
                       ('the outcome can be ' + '/'.join(sorted({show(e) for e in bad}))) if bad else 'validation goes on at ' + ', '.join(sorted({g.where(x.node) for x in later})), w)
    for t in CONTAINERS:
        rep.ob('omit', f'{t}: items can be left out', t in taken, 'no place found where an item is left out', t)


def container(own, g, c):
    fr = g.nodes[c.node].frame
    inside = fr.fn.path if fr is not None else ''
    for t in CONTAINERS:
        if own.endswith('::' + t):
            return t
    if inside.startswith('input::return_enums::validate_iter_to_'):
        return inside
    if inside.startswith('validators::tuple::TupleValidator::validate_tuple_'):
        return 'ValidateToTuple'
    return None


def show(e):
    if e[0] == 'Err':
        return 'Err(%s)' % (e[1] if isinstance(e[1], str) else '..')
    return str(e[0])


def classes(p, ga):
    return [p.ts(t) if isinstance(t, int) else str(t) for t in ga]


def classification(p, rep):
    fn = p.fns.get(CONVERT)
    if fn is None:
        rep.ob('classify', 'convert_err', False, 'not found', CONVERT)
        return
    g = u.graph(p, fn, noinline=lambda x: x.startswith('errors::'))
    for exc, (inst, ext) in PYEXC.items():
        class A(fl.Assume):
            def call(self, c):
                if c.m == 'is_instance_of' and 'PyErr' in c.name:
                    t = classes(p, c.ga)[0].split('::')[-1]
                    return {(): t in inst} if t in KNOWN else None
                if c.m == 'extract':
                    t = classes(p, c.ga)[-1]
                    return {(): 'Ok' if t in ext else 'Err'} if t in KNOWN else None
                if c.m in ('str', 'to_str'):
                    return {(): 'Ok'}
        f = fl.Flow(g, track_ret=True, assume=A())
        live = f.reach(f.entry_states())
        ends = {f.exit_variant(s) for s in live & set(f.exits)}
        makes = sorted({short_make(c) for c in g.calls if not c.inlined and set(f.at.get(c.node, ())) & live and short_make(c)})
        kinds = sorted({rv[2] for n in g.nodes if set(f.at.get(n.id, ())) & live for pl, rv, ln in n.stmts
                        if rv[0] == 'adt' and rv[1] == 'errors::types::ErrorType'})
        want = {'ValueError': (['ValError::new'], ['ValueError']), 'AssertionError': (['ValError::new'], ['AssertionError']),
                'PydanticCustomError': (['PydanticCustomError::into_val_error'], []), 'PydanticKnownError': (['PydanticKnownError::into_val_error'], []),
                'ValidationError': (['ValidationError::into_val_error'], []),
                'PydanticOmit': ([], []), 'PydanticUseDefault': ([], []), 'any other exception': ([], [])}[exc]
        var = {'PydanticOmit': {'Omit'}, 'PydanticUseDefault': {'UseDefault'}, 'any other exception': {'InternalErr'}}.get(exc)
        ok = (makes, kinds) == want and (var is None or ends == var) and bool(ends) and (var is not None or not ends & {'Omit', 'UseDefault', 'InternalErr'})
        rep.ob('classify', f'{exc} raised by a user function', ok, f'becomes {makes + kinds + sorted(map(str, ends))}', u.where(fn))
        rep.count('exception_classes')
    # the exception kept as internal error is the one raised
    for n in g.nodes:
        for pl, rv, ln in n.stmts:
            if rv[0] == 'adt' and rv[1] == VALERR and rv[2] == 'InternalErr' and not isinstance(rv[4][0], dict):
                src = g.sources(rv[4][0], stop=lambda c: not c.inlined)
                fresh = [s for s in src if s[0] == 'call' and s[1].split('::')[-1] not in ('str', 'to_str')]
                rep.ob('classify', 'the internal error is the exception itself', not fresh and any(s[0] == 'arg' or s[0] == 'call' for s in src),
                       'another exception', g.where(n.id))


def short_make(c):
    if c.m in ('into_val_error', 'new', 'new_with_loc') and 'errors::' in c.name:
        return '::'.join(c.name.split('::')[-2:])
    return None


def user_code(p, rep):
    for path, fn in sorted(p.fns.items()):
        if not path.startswith('<') or ' as validators::Validator>::' not in path or '{closure' in path:
            continue
        own = owner(path)
        if own not in USER:
            continue
        g = u.graph(p, fn, noinline=opaque)
        for c in g.calls:
            if c.inlined or c.m not in CALLS or 'PyAny' not in c.name and 'pyo3' not in c.name:
                continue
            if c.dest[1] or not p.ts(g.ltypes[c.dest[0]]).startswith('std::result::Result<'):
                continue
            w = g.where(c.node)
            rep.count('user_calls')
            key = f'{u.short(own)}::{u.short(path)}: {c.m}'
            f = fl.Flow(g, track_ret=True, assume=At(c.node))
            r = after(f, c.node)
            ends = {f.exit_variant(s) for s in r & set(f.exits)}
            rep.ob('raises', key + ': an exception ends the validation', 'Ok' not in ends and None not in ends and bool(ends), 'validation can still succeed', w)
            conv = [x for x in g.calls if x.fn == CONVERT and not x.inlined and set(f.at.get(x.node, ())) & r]
            if not USER[own]:
                rep.ob('raises', key + ': passed on as it is', not conv, 'classified as a validation error', w)
                continue
            mine = [x for x in conv if not isinstance(x.args[1], dict) and any(s[0] == 'call' and s[1] == c.name for s in g.sources(x.args[1], stop=lambda d: not d.inlined))]
            direct = after(f, c.node, {x.node for x in mine})
            rep.ob('raises', key + ': classified', bool(mine) and not direct & set(f.exits), 'can leave without being classified', w)
            for v in ('LineErrors', 'InternalErr', 'UseDefault', 'Omit'):
                f2 = fl.Flow(g, track_ret=True, assume=At(c.node, convert=v))
                r2 = after(f2, c.node)
                ends = {(f2.exit_variant(s), f2.exit_variant(s, ('@Err', '.0'))) for s in r2 & set(f2.exits)}
                rep.ob('raises', f'{key}: {v} stays', ends == {('Err', v)}, 'becomes ' + '/'.join(sorted(map(show, ends))), w)


def live_sources(f, live, pl, seen=None):
    """where a place gets its value from by moves, looking at live statements only"""
    seen = set() if seen is None else seen
    if pl in seen:
        return set()
    seen.add(pl)
    ds = [(rv, n) for dp, rv, n in f.g.defs[pl[0]] if dp == pl[1] and set(f.at.get(n, ())) & live]
    if not ds:
        # assigned as a whole
        for k in range(len(pl[1]) - 1, -1, -1):
            if any(dp == pl[1][:k] for dp, rv, n in f.g.defs[pl[0]]):
                return {(x[0], x[1] + pl[1][k:]) if isinstance(x[0], int) else x for x in live_sources(f, live, (pl[0], pl[1][:k]), seen)}
        return {pl}
    out = set()
    for rv, n in ds:
        if rv[0] == 'use' and not isinstance(rv[1], dict):
            out |= live_sources(f, live, rv[1], seen)
        else:
            out.add((rv[0], getattr(rv[1], 'm', rv[1]) if len(rv) > 1 else ''))
    return out


def outlets(p, rep):
    """ValError -> PyErr"""
    table = {'InternalErr': None, 'Omit': 'omit_error', 'UseDefault': 'use_default_error'}
    for path in ('errors::validation_exception::ValidationError::from_val_error',):
        fn = p.fns.get(path)
        if fn is None:
            rep.ob('outlet', path, False, 'not found', path)
            continue
        idx = next(i for i in range(fn.d['args']) if u.tyname(p, fn.locals[i + 1]) == VALERR)
        g = u.graph(p, fn, noinline=lambda x: True)
        for v, want in table.items():
            f = fl.Flow(g, seed={(g.arg_locals[idx], ()): v})
            live = f.reach(f.entry_states())
            rep.count('outlet_cases')
            new = sorted({c.m for c in g.calls if not c.inlined and set(f.at.get(c.node, ())) & live and 'PyErr' in p.ts(g.ltypes[c.dest[0]])})
            if want is None:
                src = live_sources(f, live, (g.ret_local, ()))
                rep.ob('outlet', f'{u.short(path)}: {v}', src == {(g.arg_locals[idx], ('@InternalErr', '.0'))} and not new, f'comes from {sorted(map(str, src))} {new}', u.where(fn))
            else:
                rep.ob('outlet', f'{u.short(path)}: {v}', new == [want], f'becomes {new}', u.where(fn))
    # yes / no
    for path, fn in sorted(p.fns.items()):
        if path.endswith('SchemaValidator::isinstance_python'):
            g = u.graph(p, fn, noinline=lambda x: True)
            c = next((c for c in g.calls if not c.inlined and c.m == '_validate'), None)
            if c is None:
                rep.ob('outlet', 'isinstance', False, 'no validation', u.where(fn))
                continue
            for v in ('LineErrors', 'InternalErr', 'Omit', 'UseDefault', None):
                class B(fl.Assume):
                    def call(self, x):
                        if x.node == c.node:
                            return {(): 'Err', ('@Err', '.0'): v} if v else {(): 'Ok'}
                f = fl.Flow(g, track_ret=True, assume=B())
                r = f.reach(f.entry_states())
                ends = {f.exit_variant(s) for s in r & set(f.exits)}
                val = {f.exit_variant(s, ('@Ok', '.0')) for s in r & set(f.exits)}
                want = {'LineErrors': ({'Ok'}, {False}), None: ({'Ok'}, {True})}.get(v, ({'Err'}, None))
                rep.ob('outlet', f'isinstance: {v or "valid"}', ends == want[0] and (want[1] is None or val == want[1]), f'gives {sorted(map(str, ends))} {sorted(map(str, val))}', u.where(fn))
                rep.count('outlet_cases')


def run(p, rep, tier):
    rep.rule('unchanged', 'wherever an inner validation (or default) yields InternalErr, UseDefault or Omit, every path from there leaves the function with that same outcome and validates nothing more, except where the outcome is meant to be handled')
    rep.rule('omit', 'an inner Omit is absorbed by the item loops of the containers, which then can still succeed')
    rep.rule('use-default', 'an inner UseDefault is absorbed by the default validator only, which then produces the default')
    rep.rule('classify', 'convert_err maps each class of exception to the documented outcome, decided path by path for each class')
    rep.rule('raises', 'an exception raised by a user function ends the validation; functions, model and dataclass hooks pass it through convert_err and keep the outcome, discriminators, default factories and called functions pass it on as it is')
    rep.rule('outlet', 'where the outcome leaves the library, internal errors are raised as they are and never answered with a value')
    propagation(p, rep)
    classification(p, rep)
    user_code(p, rep)
    outlets(p, rep)
    rep.floor('error_outcomes', 600)
    rep.floor('exception_classes', 8)
    rep.floor('user_calls', 10)
    rep.floor('outlet_cases', 8)

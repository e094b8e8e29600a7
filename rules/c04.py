"""C04: the options of a validation call reach every nested validation unchanged, and mean what they say."""
import mir
import flow as fl
import util as u

EXTRA = 'validators::Extra'
STATE = 'validators::validation_state::ValidationState'
REBOUND = 'validators::validation_state::ValidationStateWithReboundExtra'
INTERNAL = 'validators::generator::InternalValidator'
INFO = 'validators::function::ValidationInfo'
SV = 'validators::SchemaValidator'
# what the caller asked for
OPTIONS = ('strict', 'from_attributes', 'context', 'by_alias', 'by_name', 'cache_str')
# where in the data the validator is; these may be rebound on the way down
PLACE = {'data', 'field_name', 'self_instance', 'input_type'}
SAME = {'validation_mode': 'input_type', 'mode': 'input_type'}
FORM = {'validate_python': 'Python', 'isinstance_python': 'Python', 'validate_json': 'Json', 'validate_strings': 'String', 'validate_assignment': 'Python', 'get_default_value': 'Python'}


def opaque(path):
    return path.startswith(('errors::validation_exception::', 'validators::json::', 'recursion_guard::')) or path.endswith(('::strict_or', '::validate_by_alias_or', '::validate_by_name_or'))


def ty(p, ti):
    return u.tyname(p, ti)


def arg_of(p, fn, *types):
    for i in range(fn.d['args']):
        if ty(p, fn.locals[i + 1]) in types:
            return i
    return None


def argname(fn, i):
    return fn.d['names'].get(str(i + 1))


def stop(c):
    """results of nested validations and callbacks are not where an option comes from"""
    return not c.inlined and (c.m in ('validate', 'validate_assignment', 'default_value', 'borrow', 'borrow_mut', 'into_val_result') or c.m.startswith('call') and 'pyo3' in c.name or c.m == 'new' and 'pyo3' in c.name and '::types::' not in c.name)


def srcs(g, fn, op):
    """('arg', name, fields) / ('const', v) / ('adt', path, variant) / ('call', name)"""
    out = set()
    if isinstance(op, dict):
        return {('const', str(op))}
    for s in g.sources(op, stop=stop):
        if s[0] == 'arg':
            out.add(('arg', argname(fn, s[1]), tuple(e[1:] for e in s[2] if e.startswith('.'))))
        elif s[0] == 'adt':
            out.add(('adt', s[1], s[2]))
        elif s[0] in ('call', 'const', 'str', 'bin'):
            out.add((s[0], s[1]))
    return out


def show(src):
    r = set()
    for s in src:
        if s[0] == 'arg':
            r.add('.'.join([str(s[1])] + [f for f in s[2] if not f.isdigit()][:3]))
        elif s[0] == 'adt':
            r.add(f'{s[1].split("::")[-1]}::{s[2]}')
        elif s[0] != 'call':
            r.add(str(s[1])[:40])
    return sorted(r) or ['nothing']


NEUTRAL = ('py', 'input', 'obj', 'field_value', 'model', 'value')


def check_entry(p, rep):
    for m, form in FORM.items():
        fn = p.fns.get(f'{SV}::{m}')
        if not rep.ob('anchor', m, fn is not None, f'SchemaValidator::{m} not found'):
            continue
        g = mir.Graph(p, fn, noinline=opaque)
        names = {argname(fn, i) for i in range(fn.d['args'])}
        seen = 0
        for nid, pl, rv, ln in g.aggs():
            if rv[1] == EXTRA:
                seen += 1
                for f, o in zip(rv[3], rv[4]):
                    src = srcs(g, fn, o)
                    args = {(a, tuple(x for x in pj if not x.isdigit())) for _, a, pj in (s for s in src if s[0] == 'arg') if a not in NEUTRAL}
                    if f == 'input_type':
                        ok = {s[2] for s in src if s[0] == 'adt'} == {form} and not args
                    elif f == 'cache_str':
                        ok = args == {('self', ('cache_str',))}
                    elif f == 'field_name' and m == 'validate_assignment':
                        ok = args == {('field_name', ())}
                    elif f in names:
                        ok = args == {(f, ())} and not {s for s in src if s[0] in ('const', 'bin')}
                    else:
                        ok = not args and any(s[0] == 'adt' and s[2] == 'None' for s in src) and not any(s[0] == 'adt' and s[2] == 'Some' for s in src)
                    rep.ob('entry', f'{m}>{f}', ok, f'{m} fills the option {f} from {show(src)}', g.where(nid))
                    rep.count('entry options')
            if rv[1] == STATE:
                f = dict(zip(rv[3], rv[4]))
                src = srcs(g, fn, f['allow_partial'])
                args = {s[1] for s in src if s[0] == 'arg' and s[1] not in NEUTRAL}
                if 'allow_partial' in names:
                    ok = args == {'allow_partial'} and not any(s[0] in ('const', 'bin') for s in src)
                else:
                    ok = not args
                rep.ob('entry', f'{m}>allow_partial', ok, f'{m} starts with allow_partial from {show(src)}', g.where(nid))
        rep.ob('entry', f'{m}>options', seen >= 1, f'{m} builds no options', u.where(fn))
        for c in g.calls:
            if c.m == 'parse_with_config' and 'allow_partial' in names:
                args = {s[1] for s in srcs(g, fn, c.args[2]) if s[0] == 'arg'}
                rep.ob('entry', f'{m}>parse', args == {'allow_partial'}, f'the JSON is parsed with allow_partial from {sorted(args)}', g.where(c.node))
            if c.m == 'from_val_error' and not c.inlined and 'ValidationError' in c.name:
                for want, o in zip(('title', form, None, None, 'hide_input_in_errors', 'validation_error_cause'), c.args[1:]):
                    src = srcs(g, fn, o)
                    if want == form:
                        ok = {s[2] for s in src if s[0] == 'adt'} == {form}
                    elif want:
                        ok = {tuple(x for x in s[2] if not x.isdigit())[:1] for s in src if s[0] == 'arg' and s[1] == 'self'} == {(want,)}
                    else:
                        continue
                    rep.ob('entry', f'{m}>error>{want}', ok, f'the error of {m} is raised with {want} from {show(src)}', g.where(c.node))


# -------------------------------------------------------------------- copies

def copies(p, rep):
    used = {b['t'][1].get('res') or b['t'][1].get('fn') for f in p.fns.values() for b in f.d['blocks'] if b and b['t'][0] == 'call' and isinstance(b['t'][1], dict)}
    for path, fn in sorted(p.fns.items()):
        if '{closure' in path or '__pymethod' in path or path.startswith(('<validators::Extra as', 'serializers', '<serializers')):
            continue
        i = arg_of(p, fn, STATE, REBOUND, EXTRA, INTERNAL)
        if i is None or fn.name == 'as_strict' and path not in used:
            continue
        g = mir.Graph(p, fn, noinline=opaque, depth=4)
        base = argname(fn, i)
        lab = path.replace('validators::', '')
        for nid, pl, rv, ln in g.aggs():
            if rv[1] == STATE and not path.startswith(STATE):
                fs = dict(zip(rv[3], rv[4]))
                own = ty(p, fn.locals[i + 1]) == INTERNAL
                src = srcs(g, fn, fs['extra'])
                rep.ob('fresh', lab, any(s[0] == 'adt' and s[1] == EXTRA for s in src) or any(s[0] == 'arg' and s[1] == base for s in src),
                       'a state is built whose options do not come from the ones in force', g.where(nid))
                rep.count('states built')
                continue
            if rv[1] not in (EXTRA, INTERNAL, INFO):
                continue
            for f, o in zip(rv[3], rv[4]):
                want = SAME.get(f, f)
                if want in ('name', 'validator', 'hide_input_in_errors', 'validation_error_cause', 'config', 'recursion_guard'):
                    continue
                src = srcs(g, fn, o)
                got = {(s[1], [x for x in s[2] if not x.isdigit() and x not in ('extra', 'state')][:1][0] if [x for x in s[2] if not x.isdigit() and x not in ('extra', 'state')] else '') for s in src if s[0] == 'arg' and s[1] not in NEUTRAL}
                got = {(a, SAME.get(b, b)) for a, b in got}
                key = f'{lab}>{rv[1].split("::")[-1]}.{f}'
                bad_const = any(s[0] in ('const', 'bin') for s in src)
                if f == 'field_name':
                    # the name of the field: the one in force, the one given as an argument, or the one in the schema
                    ok = bool(got) and all(b == 'field_name' or a == 'field_name' for a, b in got)
                    if rv[1] == INFO:
                        ok = ok and ((base, 'field_name') in got or 'field_name' in {a for a, b in got})
                else:
                    ok = got == {(base, want)} and not bad_const
                rep.ob('copies', key, ok, f'{f} is filled from {show(src)} instead of {want} of the options in force', g.where(nid))
                rep.count('copied options')
        if ty(p, fn.locals[i + 1]) == INTERNAL and any(rv[1] == STATE for _, _, rv, _ in g.aggs()):
            counters(p, g, fn, rep, lab)


def counters(p, g, fn, rep, lab):
    """what the state knows about the union it is part of goes into the handler and comes back"""
    f = fl.Flow(g)
    live = f.reach(f.entry_states())
    run = [c for c in g.calls if not c.inlined and c.m in ('validate', 'validate_assignment')]
    for fld in ('exactness', 'fields_set_count'):
        into, back = set(), set()
        for n in g.nodes:
            for pl, rv, ln in n.stmts:
                if not pl[1] or pl[1][-1] != '.' + fld:
                    continue
                t = g.ltypes[pl[0]]
                tn = ty(p, t) if t is not None else None
                ops = [o for o in mir.operands_of(rv) if not isinstance(o, dict)]
                if tn == STATE:
                    if any(s[0] == 'arg' and s[1] == 0 and '.' + fld in s[2] for o in ops for s in g.sources(o)):
                        into.add(n.id)
                elif tn == INTERNAL or pl[0] == g.arg_locals[0]:
                    if any('.' + fld in o[1] and g.ltypes[o[0]] is not None and ty(p, g.ltypes[o[0]]) == STATE for o in ops) or rv[0] == 'use':
                        back.add(n.id)
        rep.ob('copies', f'{lab}>{fld} in', all(not (f.reach(f.entry_states(), avoid=into) & set(f.at[c.node])) for c in run) and bool(into),
               f'the handler runs without {fld} of the validation it belongs to', u.where(fn))
        exits = set(f.exits)
        after = f.reach([s for c in run for s in f.at[c.node]], avoid=back)
        rep.ob('copies', f'{lab}>{fld} back', not (after & exits) and bool(back), f'{fld} found by the handler is lost when it returns', u.where(fn))
        rep.count('counters carried', 2)


# -------------------------------------------------------------------- rebinding

def rebinding(p, rep):
    for path, fn in sorted(p.fns.items()):
        if not path.lstrip('<').startswith(('validators::', 'input::')):
            continue
        for b in fn.d['blocks']:
            for pl, rv, ln in (b['s'] if b else ()):
                if len(pl) < 2 or not pl[-1].startswith('.'):
                    continue
                owner = field_owner(p, fn, pl)
                if owner == EXTRA:
                    f = pl[-1].lstrip('.')
                    lab = path.replace('validators::', '')
                    rep.ob('rebound', f'{lab}>{f}', f in PLACE, f'the option {f} of the call is overwritten on the way down', f'{fn.file}:{ln}')
                    rep.count('fields rebound')
                    if f == 'input_type':
                        rep.ob('rebound', f'{lab}>input_type value', 'validators::json::' in path, 'the form of the input is overwritten outside the json validator', f'{fn.file}:{ln}')
    # the guard puts the options back
    d = next((fn for pth, fn in p.fns.items() if REBOUND in pth and pth.endswith('::drop')), None)
    if rep.ob('anchor', 'rebound drop', d is not None, 'the guard that restores rebound options does not restore them on drop'):
        g = mir.Graph(p, d)
        ok = False
        for c in g.calls:
            if c.m in ('swap', 'replace', 'take') and 'mem' in c.name:
                fs = set()
                for o in c.args:
                    for s in g.sources(o):
                        if s[0] == 'arg':
                            fs |= set(s[2])
                    if not isinstance(o, dict):
                        for t in refs(g, o):
                            fs |= set(t[1])
                ok = '.extra' in fs and '.old_extra' in fs
        for n in g.nodes:
            for pl, rv, ln in n.stmts:
                if pl[1] and pl[1][-1] == '.extra':
                    ok = ok or any('.old_extra' in s[2] for o in mir.operands_of(rv) if not isinstance(o, dict) for s in g.sources(o) if s[0] == 'arg')
        rep.ob('rebound', 'restored', ok, 'rebound options are not put back when the guard is dropped', u.where(d))
    fn = method(p, 'rebind_extra')
    if rep.ob('anchor', 'rebind_extra', fn is not None, 'rebind_extra not found'):
        g = mir.Graph(p, fn)
        ok = False
        for nid, pl, rv, ln in g.aggs():
            if rv[1] == REBOUND:
                o = dict(zip(rv[3], rv[4]))['old_extra']
                ok = any(s[0] == 'arg' and s[1] == 0 and '.extra' in s[2] for s in g.sources(o))
                clone = [c for c in g.calls if c.m == 'clone' and not c.inlined]
                call = [c for c in g.calls if c.m in ('call_once', 'call_mut', 'call')]
                f = fl.Flow(g)
                ok = ok and bool(clone) and bool(call) and not any(set(f.at[c.node]) & f.reach(f.entry_states(), avoid={x.node for x in clone}) for c in call)
        rep.ob('rebound', 'saved', ok, 'the options are not saved before they are rebound', u.where(fn))


def refs(g, o):
    """places an operand refers to"""
    out, todo, seen = [], [o], set()
    while todo:
        x = todo.pop()
        if isinstance(x, dict) or (x[0], tuple(x[1])) in seen:
            continue
        seen.add((x[0], tuple(x[1])))
        out.append(x)
        for n in g.nodes:
            for pl, rv, ln in n.stmts:
                if pl[0] == x[0] and not pl[1]:
                    if rv[0] == 'ref':
                        todo.append(rv[2])
                    else:
                        todo += [y for y in mir.operands_of(rv) if not isinstance(y, dict)]
    return out


def field_owner(p, fn, pl):
    """ADT that owns the last field of a raw place [local, *projection]"""
    t = fn.locals[pl[0]]
    owner = None
    for e in pl[1:]:
        if t is None:
            return None
        if e == '*':
            x = p.T(t)
            t = x['a'][0] if x.get('k') in ('ref', 'ptr') and x.get('a') else t
        elif e.startswith('.'):
            owner = u.tyname(p, t)
            a = p.adts.get(owner)
            t = dict(a.variants[0][2]).get(e[1:]) if a is not None and a.k == 'struct' else None
        else:
            t = None
    return owner


def method(p, name):
    return next((f for q, f in p.fns.items() if q.startswith(STATE + '::') and q.endswith('::' + name)), None)


# -------------------------------------------------------------------- meaning

def table(p, rep, name, args, want):
    fn = method(p, name)
    if not rep.ob('anchor', name, fn is not None, f'{name} not found'):
        return
    field = {'strict_or': 'strict', 'validate_by_alias_or': 'by_alias', 'validate_by_name_or': 'by_name'}[name]
    g = mir.Graph(p, fn)
    a0, a1 = g.arg_locals[0], g.arg_locals[1]
    for rt in (None, True, False):
        for df in args:
            seed = {}

            def put(l, pj, v):
                if v is None or isinstance(v, bool) and args != (True, False) or pj:
                    seed[(l, pj)] = 'None' if v is None else 'Some'
                    if v is not None:
                        seed[(l, pj + ('@Some', '.0'))] = v
                else:
                    seed[(l, pj)] = v
            put(a0, ('*', '.extra', '.' + field), rt)
            put(a0, ('.extra', '.' + field), rt)
            put(a1, (), df)
            # the other options say the opposite: they must not matter
            f = fl.Flow(g, track_ret=True, seed=seed)
            live = f.reach(f.entry_states())
            got = {f.env(x).get((g.ret_local, ())) for x in f.exits if x in live}
            w = want(rt, df)
            rep.ob('meaning', f'{name}: call {rt}, schema {df}', got == {w}, f'{name} with {rt} from the call and {df} from the schema is {sorted(map(str, got))}, must be {w}', u.where(fn))
            rep.count('option decisions')


TRAIT = 'input::input_abstract::Input'
NOWHERE = {'fmt', 'clone'}


def strictness(p, rep):
    """which conversions and branches a validator takes depends on strict of the call, else strict of the schema - and on nothing else"""
    for path, fn in sorted(p.fns.items()):
        if '{closure' in path or not path.lstrip('<').startswith('validators::') or '__pymethod' in path:
            continue
        si = arg_of(p, fn, STATE, REBOUND)
        if si is None or argname(fn, 0) != 'self' or si == 0:
            continue
        adt = p.adts.get(ty(p, fn.locals[1]))
        if adt is None or adt.k != 'struct':
            continue
        fields = {f for f, _ in adt.variants[0][2]}
        g = mir.Graph(p, fn, noinline=opaque_run, depth=3)
        lab = path.replace('validators::', '')
        conv = [c for c in g.calls if not c.inlined and c.trait == TRAIT and c.m in STRICT_ARG]
        for c in conv:
            if c.m == 'validate_model_fields':
                fromattr(p, g, fn, c, rep, lab)
        watched = [c for c in g.calls if not c.inlined and g.nodes[c.node].term[0] == 'call' and any(isinstance(o, dict) or g.ltypes[o[0]] is not None and p.ts(g.ltypes[o[0]]) == 'bool' for o in c.args)]
        own = 'strict' in fields
        if not any('.strict' in o[1] for n in g.nodes for pl, rv, ln in n.stmts for o in reads(rv)) and not conv:
            if own and fn.name == 'validate':
                rep.ob('strict', f'{lab}: matters', False, 'strict has no influence on what this validator accepts although its schema has it', u.where(fn))
            continue
        effects = {c.node for c in g.calls if not c.inlined} | {nid for nid, pl, rv, ln in g.aggs() if not rv[1].startswith('std::')}
        sig = {}
        for rt in (None, True, False):
            for cf in ((True, False) if own else (False,)):
                seed = {}
                for a in (('*', '.extra', '.strict'), ('.extra', '.strict'), ('.state', '.extra', '.strict')):
                    seed[(g.arg_locals[si], a)] = 'None' if rt is None else 'Some'
                    if rt is not None:
                        seed[(g.arg_locals[si], a + ('@Some', '.0'))] = rt
                if own:
                    seed[(g.arg_locals[0], ('*', '.strict'))] = cf
                    seed[(g.arg_locals[0], ('.strict',))] = cf
                f = fl.Flow(g, seed=seed, watch=[(c.node, 'call') for c in watched])
                live = f.reach(f.entry_states())
                ops = {}
                for c in watched:
                    vs = {tuple(x.get(()) for x in f.values(s, 'call')) for s in f.at.get(c.node, ()) if s in live}
                    # a value that is not decided by strictness is left open
                    ops[c.node] = frozenset(vs)
                sig[rt, cf] = (effects & {f.states[s][0] for s in live}, ops)
        eff = {}
        for (rt, cf), v in sig.items():
            eff.setdefault(cf if rt is None else rt, []).append((rt, cf, v))
        if not any(a[2][0] != b[2][0] or a[2][1] != b[2][1] for x in eff.values() for a in x for y in eff.values() for b in y) and not (own and fn.name == 'validate'):
            continue
        for e, rows in sorted(eff.items()):
            ref = rows[0]
            for rt, cf, v in rows[1:]:
                d = v[0] ^ ref[2][0]
                o = [n for n in v[1] if v[1][n] != ref[2][1][n]]
                at = g.where(min(d)) if d else g.where(min(o)) if o else u.where(fn)
                rep.ob('strict', f'{lab}: call {rt}, schema {cf if own else "-"}', not d and not o,
                       f'with strict={rt} in the call and {cf} in the schema the validator does not act as with strict={ref[0]} and {ref[1]}, although strict of the call decides', at)
                rep.count('strictness decisions')
        if own and fn.name == 'validate':
            a, b = eff[True][0][2], eff[False][0][2]
            rep.ob('strict', f'{lab}: matters', a != b, 'strict has no influence on what this validator accepts although its schema has it', u.where(fn))
        for c in conv:
            vt = {x[1] for x in eff[True][0][2][1].get(c.node, ())}
            vf = {x[1] for x in eff[False][0][2][1].get(c.node, ())}
            # every conversion is asked with the strictness in force, or with a fixed one
            rep.ob('strict', f'{lab}>{c.m}', vt <= {True} and vf <= {False} or vt | vf in ({True}, {False}), f'{c.m} is asked with strict={sorted(map(str, vt))} in strict and {sorted(map(str, vf))} in lax mode', g.where(c.node))
            rep.count('strict operands')


def reads(rv):
    return [o for o in ([rv[2]] if rv[0] == 'ref' else [rv[1]] if rv[0] == 'discr' else mir.operands_of(rv)) if not isinstance(o, dict)]


LOOKUP = 'lookup_key::LookupKeyCollection'


def lookups(p, rep):
    """a field is looked up under the alias, the name or both as by_alias / by_name of the call, else of the schema, say"""
    opts = (None, True, False)
    for path, fn in sorted(p.fns.items()):
        if '{closure' in path or not path.lstrip('<').startswith('validators::'):
            continue
        si = arg_of(p, fn, STATE, REBOUND)
        if si is None or argname(fn, 0) != 'self' or si == 0:
            continue
        adt = p.adts.get(ty(p, fn.locals[1]))
        if adt is None or 'validate_by_alias' not in {f for v in adt.variants for f, _ in v[2]}:
            continue
        g = mir.Graph(p, fn, noinline=opaque_lookup, depth=3)
        sel = [c for c in g.calls if c.m == 'select' and LOOKUP in c.name and not c.inlined and g.nodes[c.node].frame.fn is fn or c.m == 'select' and LOOKUP in c.name and arg_of(p, g.nodes[c.node].frame.fn, STATE, REBOUND) is None]
        if not sel:
            continue
        lab = path.replace('validators::', '')
        direct = by_provenance(p, fn)
        for i, rt in enumerate(opts):
            for j, cf in enumerate(opts):
                # by_name runs through the combinations in another order, so that the two cannot stand in for each other
                rn, cn = opts[(i + j + 1) % 3], opts[(i + 2 * j + 2) % 3]
                seed = {}

                def put(l, pj, v):
                    for q in (pj, ('*',) + pj):
                        seed[(l, q)] = 'None' if v is None else 'Some'
                        if v is not None:
                            seed[(l, q + ('@Some', '.0'))] = v
                for f, v in (('by_alias', rt), ('by_name', rn)):
                    put(g.arg_locals[si], ('.extra', '.' + f), v)
                for f, v in (('validate_by_alias', cf), ('validate_by_name', cn)):
                    put(g.arg_locals[0], ('.' + f,), v)
                wa = rt if rt is not None else True if cf is None else cf
                wn = rn if rn is not None else bool(cn)
                f = fl.Flow(g, seed=seed, watch=[(c.node, 'call') for c in sel])
                live = f.reach(f.entry_states())
                for c in sel:
                    got = {tuple(x.get(()) for x in f.values(s, 'call')[1:3]) for s in f.at.get(c.node, ()) if s in live}
                    rep.ob('lookup', f'{lab}: call {rt}/{rn} schema {cf}/{cn}', not got or direct or (wa, wn) in got and all(a in (wa, None) and n in (wn, None) for a, n in got), f'with by_alias={rt}, by_name={rn} in the call and validate_by_alias={cf}, validate_by_name={cn} in the schema, fields are looked up with (alias, name) = {sorted(map(str, got))}, must be {(wa, wn)}', g.where(c.node))
                    rep.count('lookup decisions', len(got))
    fn = p.fns.get(LOOKUP + '::select')
    if rep.ob('anchor', 'select', fn is not None, 'LookupKeyCollection::select not found'):
        g = mir.Graph(p, fn)
        want = {(True, True): 'by_alias_then_name', (True, False): 'by_alias', (False, True): 'by_name', (False, False): None}
        for (a, n), w in want.items():
            for some in (True, False):
                seed = {(g.arg_locals[1], ()): a, (g.arg_locals[2], ()): n}
                for k in ('by_alias', 'by_alias_then_name'):
                    for q in (('.' + k,), ('*', '.' + k)):
                        seed[(g.arg_locals[0], q)] = 'Some' if some else 'None'
                f = fl.Flow(g, seed=seed, track_ret=True)
                live = f.reach(f.entry_states())
                nodes = {f.states[s][0] for s in live}
                read = {e[1:] for x in nodes for pl, rv, ln in g.nodes[x].stmts for o in reads(rv) for e in o[1] if e in ('.by_alias', '.by_name', '.by_alias_then_name') and rv[0] == 'ref'}
                ok = any(s in live for s in f.exits_with('Ok'))
                if w is None:
                    rep.ob('lookup', 'select: neither', not ok, 'looking up neither by alias nor by name is not refused', u.where(fn))
                else:
                    rep.ob('lookup', f'select: alias {a} name {n}', ok and w in read and read <= {w, 'by_name'} and not any(s in live for s in f.exits_with('Err')), f'by_alias={a}, by_name={n} looks up {sorted(read)} instead of {w}', u.where(fn))
                rep.count('lookup decisions')
    fn = p.fns.get(LOOKUP + '::new')
    if rep.ob('anchor', 'new', fn is not None, 'LookupKeyCollection::new not found'):
        g = mir.Graph(p, fn, noinline=lambda q: q.startswith('lookup_key::LookupKey::'))
        for nid, pl, rv, ln in g.aggs():
            if rv[1] != LOOKUP:
                continue
            for f, o in zip(rv[3], rv[4]):
                found = []
                g.sources(o, stop=lambda c: found.append(c) or True if c.m in ('from_py', 'from_string') else False)
                for c in found:
                    nm = {argname(fn, s[1]) for x in c.args[1:] for s in (g.sources(x) if not isinstance(x, dict) else ()) if s[0] == 'arg'} - {'py'}
                    want = {'by_name': {'field_name'}, 'by_alias': {'validation_alias'}, 'by_alias_then_name': {'validation_alias', 'field_name'}}[f]
                    rep.ob('lookup', f'new>{f}', nm == want, f'the key {f} is built from {sorted(map(str, nm))}', g.where(c.node))
                    rep.count('lookup keys')
    rep.floor('lookup keys', 3)
    rep.floor('lookup decisions', 40)


def by_provenance(p, fn):
    """every lookup in fn is asked with exactly the results of validate_by_alias_or(validate_by_alias) and validate_by_name_or(validate_by_name)"""
    g = mir.Graph(p, fn, noinline=lambda q: opaque_lookup(q) or opaque(q), depth=3)
    sel = [c for c in g.calls if c.m == 'select' and LOOKUP in c.name and not c.inlined]
    for c in sel:
        for o, m in zip(c.args[1:3], ('validate_by_alias', 'validate_by_name')):
            if isinstance(o, dict):
                return False
            found = []
            rest = g.sources(o, stop=lambda c: found.append(c) or True if c.m in ('validate_by_alias_or', 'validate_by_name_or') else False)
            if {x.m for x in found} != {m + '_or'} or any(s[0] in ('const', 'bin') for s in rest):
                return False
            for x in found:
                if {s[2][-1:] if s[0] == 'arg' else s[0] for s in g.sources(x.args[1])} != {('.' + m,)}:
                    return False
    return bool(sel)


def opaque_lookup(path):
    return path.lstrip('<').startswith(('input::', 'lookup_key::', 'errors::', 'tools::', 'recursion_guard::', 'argument_markers::')) or path.endswith('::default_value')


def opaque_run(path):
    return path.startswith(('errors::validation_exception::', 'validators::json::', 'recursion_guard::'))


def fromattr(p, g, fn, c, rep, lab):
    """from_attributes of the call wins over that of the schema"""
    st = arg_of(p, fn, STATE, REBOUND)
    op = c.args[2]
    for rt in (None, True, False):
        for cf in (True, False):
            want = cf if rt is None else rt
            seed = {}
            for a in (('*', '.extra', '.from_attributes'), ('.extra', '.from_attributes')):
                seed[(g.arg_locals[st], a)] = 'None' if rt is None else 'Some'
                if rt is not None:
                    seed[(g.arg_locals[st], a + ('@Some', '.0'))] = rt
            seed[(g.arg_locals[0], ('*', '.from_attributes'))] = cf
            seed[(g.arg_locals[0], ('.from_attributes',))] = cf
            f = fl.Flow(g, seed=seed, watch=[(c.node, 'call')])
            live = f.reach(f.entry_states())
            vals = set()
            for s in f.at[c.node]:
                if s in live:
                    vals.add(f.values(s, 'call')[2].get(()))
            rep.ob('meaning', f'{lab}: from_attributes call {rt}, schema {cf}', vals == {want}, f'with from_attributes={rt} in the call and {cf} in the schema, attributes are {sorted(map(str, vals))}', g.where(c.node))
            rep.count('option decisions')


STRICT_ARG = set()


def run(p, rep, tier):
    rep.rule('entry', 'every option of the public validation methods fills the option of that name and no other; the form of the input is the one of the method')
    rep.rule('copies', 'wherever the options in force are copied (for a wrap handler, a lazy generator, the info of a callback) each is copied from itself; exactness and the count of fields set travel into a handler and back')
    rep.rule('fresh', 'no nested validation starts from options other than the ones in force')
    rep.rule('rebound', 'on the way down only data, field_name, self_instance and (in the json validator) the form of the input are rebound, and they are put back')
    rep.rule('meaning', 'an option given in the call wins over the schema, which wins over the default')
    rep.rule('strict', 'the strictness of an input conversion is strict of the call, else strict of the schema')
    rep.rule('lookup', 'fields are looked up under their alias, their name or both as by_alias and by_name of the call, else of the schema, else alias only')
    STRICT_ARG.clear()
    for path, fn in p.fns.items():
        if path.startswith('input::input_python::') and 'Input<' in path and '{closure' not in path and fn.name.startswith('validate_') and 'strict' in (argname(fn, 1) or ''):
            STRICT_ARG.add(fn.name)
    check_entry(p, rep)
    copies(p, rep)
    rebinding(p, rep)
    table(p, rep, 'strict_or', (True, False), lambda a, b: b if a is None else a)
    table(p, rep, 'validate_by_alias_or', (None, True, False), lambda a, b: a if a is not None else True if b is None else b)
    table(p, rep, 'validate_by_name_or', (None, True, False), lambda a, b: a if a is not None else bool(b))
    strictness(p, rep)
    lookups(p, rep)
    rep.floor('entry options', 60)
    rep.floor('copied options', 30)
    rep.floor('counters carried', 8)
    rep.floor('fields rebound', 12)
    rep.floor('option decisions', 24 + 6)
    rep.floor('strict operands', 18)
    rep.floor('strictness decisions', 60)

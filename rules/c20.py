"""C20: composite validators account for every part: each error is reported, each valid part is kept, a default stands in for what is missing."""
import mir
import flow as fl
import util as u
import c10

COLLECT = ('push', 'extend', 'extend_from_slice', 'insert', 'append')
SINK = ('push', 'set_item', 'add', 'build_add', 'insert', 'append', 'extend', 'get_or_insert_with', 'update')
MODES = ('PositionalOnly', 'PositionalOrKeyword', 'KeywordOnly')
SITES = ('validate', 'default_value', 'get_item')
STATE = 'validators::validation_state::ValidationState'


def ty(g, op):
    if isinstance(op, dict) or op[1] or g.ltypes[op[0]] is None:
        return ''
    return g.p.ts(g.ltypes[op[0]])


def collectors(g):
    return [c for c in g.calls if not c.inlined and c.m in COLLECT and c.args and 'ValLineError' in ty(g, c.args[0]) and 'Vec<' in ty(g, c.args[0])]


def sites(g):
    return [c for c in g.calls if not c.inlined and c.m in SITES and 'ValError' in ty(g, c.dest)]


class Scene(fl.Assume):
    """one site has that outcome (every time), the errors of a failed part are not an empty list, fields are required"""

    FACTS = {'.required': True, '.init': True, '.init_only': False}

    def __init__(self, g, node, outcome, ok=(), empty=None, mode=None, facts=None):
        self.facts = dict(self.FACTS, **(facts or {}))
        self.g, self.node, self.outcome, self.ok, self.empty = g, node, outcome, ok, empty
        self.mode = mode

    def call(self, c):
        if c.node == self.node:
            return self.outcome
        if c.node in self.ok:
            return {(): 'Ok'}
        if c.inlined:
            return None
        if c.m == 'next' and 'ValLineError' in ty(self.g, c.args[0]):
            return {(): 'Some'}
        if c.m == 'next' and 'EnumerateLastPartial' in ty(self.g, c.args[0]):
            return {('@Some', '.0', '.1'): False}
        # not the last, possibly cut off, item
        if c.m in ('eq', 'ne') and any('Option<' in ty(self.g, a) and 'LocItem' in ty(self.g, a) for a in c.args):
            return {(): c.m == 'ne'}
        if self.empty is not None and c.m == 'is_empty' and 'ValLineError' in ty(self.g, c.args[0]):
            return {(): self.empty}

    def boolean(self, place, node):
        if isinstance(place, dict):
            return None
        for pl in [place] + [rv[1] for dp, rv, n in self.g.defs[place[0]] if dp == place[1] and rv[0] == 'use' and not isinstance(rv[1], dict)]:
            if pl[1] and pl[1][-1] in self.facts:
                return self.facts[pl[1][-1]]

    def bin(self, rv, node):
        # errors.len() compared with 0
        if self.empty is None or rv[1] not in ('Eq', 'Ne', 'Gt', 'Lt', 'Ge', 'Le'):
            return None
        for a, b, flip in ((rv[2], rv[3], False), (rv[3], rv[2], True)):
            if isinstance(b, dict) and b.get('v') in (0, 1) and not isinstance(a, dict):
                if any(d[1][0] == 'call' and d[1][1].m == 'len' and 'ValLineError' in ty(self.g, d[1][1].args[0]) for d in self.g.defs[a[0]]):
                    op = {'Gt': 'Lt', 'Lt': 'Gt', 'Ge': 'Le', 'Le': 'Ge'}.get(rv[1], rv[1]) if flip else rv[1]
                    if b.get('v') == 1:
                        return {'Lt': False, 'Ge': True}.get(op)
                    return {'Eq': False, 'Ne': True, 'Gt': True, 'Lt': False, 'Ge': True, 'Le': False}[op]

    def discr(self, key, node, adt):
        return self.mode if self.mode and adt.endswith('::ParameterMode') else None


def off(g):
    """no partial validation"""
    seed = {}
    for i, l in enumerate(g.arg_locals):
        if g.ltypes[l] is not None and u.tyname(g.p, g.ltypes[l]) == STATE:
            seed[(l, ('.allow_partial',))] = 'Off'
        t = u.tyname(g.p, g.ltypes[l]) if g.ltypes[l] is not None else ''
        a = g.p.adts.get(t)
        if a is not None and a.k == 'struct':
            for nm, ft in a.variants[0][2]:
                if g.p.ts(ft).replace('&', '').replace('mut ', '').lstrip().startswith('validators::validation_state::ValidationState'):
                    seed[(l, ('.' + nm, '.allow_partial'))] = 'Off'
    return seed


def after(f, node, avoid=()):
    live = f.reach(f.entry_states())
    return f.reach([t for s in f.at.get(node, ()) if s in live for _, t in f.succ[s] if f.states[t][0] not in avoid], avoid=avoid)


def groups(p):
    cov = set()
    fns = [(path, fn) for path, fn in sorted(p.fns.items()) if '{closure' not in path and path.lstrip('<').startswith('validators::') and 'ValError' in p.ts(fn.locals[0])]
    for path, fn in sorted(fns, key=lambda x: not x[0].startswith('<')):
        if path in cov:
            continue
        g = u.graph(p, fn, noinline=c10.opaque)
        cov |= {n.frame.fn.path for n in g.nodes if n.frame is not None}
        ss, cc = sites(g), collectors(g)
        if ss and cc:
            yield path, fn, g, ss, cc


def short(path):
    import re
    m = re.findall(r'(\w+)(?:<[^>]*>)? as ', path)
    return (m[-1] if m else u.short(path)) + '::' + u.short(path)


def run(p, rep, tier):
    rep.rule('error-kept', 'from a part that failed with line errors, no path reaches a successful exit without adding errors to the collected errors')
    rep.rule('collected', 'no path from an invalid part of the input leaves the composite before the errors of the part were added to the collected ones')
    rep.rule('errors-fail', 'while collected errors are not empty, no path reaches a successful exit')
    rep.rule('value-kept', 'from a part that is valid, no path reaches a successful exit without its value going into the output')
    rep.rule('missing', 'what is not in the input is asked for its default, on every path; without a default an error is collected')
    rep.rule('found', 'what is in the input is validated, on every path')
    rep.rule('extras', 'keys which are no field: decided for every extra behaviour, for known and unknown keys')
    rep.rule('fields-set', 'a field which was given and valid is marked as set on every path, one which took its default on none')
    for path, fn, g, ss, cc in groups(p):
        nm = short(path)
        seed = off(g)
        coll = {c.node for c in cc}
        rep.count('composites')
        for c in ss:
            w = g.where(c.node)
            key = f'{nm}: {c.m}'
            # line errors
            facts = None
            for facts in (None, {'.init': False}):
                f = fl.Flow(g, seed=seed, assume=Scene(g, c.node, {(): 'Err', ('@Err', '.0'): 'LineErrors'}, facts=facts))
                live = f.reach(f.entry_states())
                if set(f.at.get(c.node, ())) & live:
                    break
            else:
                rep.ob('error-kept', key, False, 'the part is never looked at', w)
                continue
            r = after(f, c.node, coll)
            ends = {f.exit_variant(s) for s in r & set(f.exits)}
            # a loop over the errors which does not collect them
            nexts = [s for x in g.calls if not x.inlined and x.m == 'next' and 'ValLineError' in ty(g, x.args[0]) for s in f.at.get(x.node, ()) if s in r]
            idle = any(s in f.reach([t for _, t in f.succ[s] if f.states[t][0] not in coll], avoid=coll) for s in nexts)
            rep.ob('error-kept', key, not ends - {'Err'} and not idle, 'errors of the part are lost and the outcome can be a success', w)
            if c.m == 'validate':
                other = {x.node for x in g.calls if not x.inlined and 'errors::line_error::Val' in ty(g, x.dest) and 'ErrorType' in ' '.join(ty(g, a) for a in x.args)}
                r = after(f, c.node, coll | other)
                ends = {f.exit_variant(s) for s in r & set(f.exits)}
                rep.ob('collected', key, not ends, 'errors of the part end the validation before those of other parts are known', w)
            rep.count('failing_parts')
            if c.m == 'get_item':
                dv = {x.node for x in ss if x.m == 'default_value'}
                va = {x.node for x in ss if x.m == 'validate'} | {x.node for x in g.calls if not x.inlined and x.m in ('validate_tuple', 'as_kwargs', 'validate_dict', 'validate_list')}
                reached = False
                for mode in MODES if 'ArgumentsV3' in path else (None,):
                    f = fl.Flow(g, seed=seed, assume=Scene(g, c.node, {(): 'Ok', ('@Ok', '.0'): 'None'}, mode=mode))
                    # a positional argument can be there instead
                    r = after(f, c.node, dv | {x.node for x in ss if x.m == 'validate'})
                    bad = {f.exit_variant(s) for s in r & set(f.exits)} - {'Err'}
                    rep.ob('missing', f'{key} finds nothing{" (" + mode + ")" if mode else ""}: default', bool(dv) and not bad, 'no default is asked for', w)
                    reached |= bool(f.at.get(c.node))
                rep.ob('missing', f'{key}: looked up', reached, 'never looked up', w)
                f = fl.Flow(g, seed=seed, assume=Scene(g, c.node, {(): 'Ok', ('@Ok', '.0'): 'Some'}))
                r = after(f, c.node, va)
                bad = {f.exit_variant(s) for s in r & set(f.exits)} - {'Err'}
                rep.ob('found', key + ' finds a value', bool(va) and not bad, 'the value is not validated', w)
                continue
            oks = {x.node for x in ss if x.m == 'validate' and x is not c}
            out = {(): 'Ok', ('@Ok', '.0'): 'Some'} if c.m == 'default_value' else {(): 'Ok'}
            f = fl.Flow(g, seed=seed, assume=Scene(g, c.node, out, ok=oks, facts=facts))
            sinks = {x.node for x in g.calls if not x.inlined and x.m in SINK and x.node not in coll and uses(g, x, c)}
            r = after(f, c.node, sinks)
            ends = {f.exit_variant(s) for s in r & set(f.exits)}
            rep.ob('value-kept', key, bool(sinks) and not ends - {'Err'}, 'a valid value is lost', w)
            rep.count('valid_parts')
            # a field of a dataclass which is not set by its __init__ can be without value
            if c.m == 'default_value' and facts is None:
                f = fl.Flow(g, seed=seed, assume=Scene(g, c.node, {(): 'Ok', ('@Ok', '.0'): 'None'}, facts=facts))
                r = after(f, c.node, coll)
                ends = {f.exit_variant(s) for s in r & set(f.exits)}
                rep.ob('missing', key + ': no default', not ends - {'Err'}, 'a missing part is not reported', w)
    for path, fn in sorted(p.fns.items()):
        if '{closure' in path or not path.lstrip('<').startswith(('validators::', 'input::')) or 'ValError' not in p.ts(fn.locals[0]):
            continue
        g = u.graph(p, fn, noinline=c10.opaque)
        made = [c for c in g.calls if not c.inlined and c.m in ('new', 'with_capacity') and 'Vec<errors::line_error::ValLineError>' in ty(g, c.dest)
                and (g.nodes[c.node].frame is None or g.nodes[c.node].frame.fn.path == path)]
        if not made:
            continue
        f = fl.Flow(g, seed=off(g), assume=Scene(g, None, None, empty=False))
        r = f.reach(f.entry_states())
        ends = {f.exit_variant(s) for s in r & set(f.exits)}
        rep.ob('errors-fail', short(path), ends == {'Err'}, 'succeeds although errors were collected', u.where(fn))
        rep.count('outcomes')
    extras(p, rep)
    fields_set(p, rep)
    rep.floor('extra_cases', 12)
    rep.floor('marks', 3)
    rep.floor('composites', 10)
    rep.floor('failing_parts', 35)
    rep.floor('valid_parts', 30)
    rep.floor('outcomes', 6)


class Key(Scene):
    """every key of the input is a string which is (not) that of a field"""

    def __init__(self, g, used, validator):
        Scene.__init__(self, g, None, None)
        self.used, self.validator = used, validator

    def call(self, c):
        if not c.inlined and c.m in ('contains', 'contains_key'):
            return {(): self.used}
        if not c.inlined and c.m in ('validate_str', 'validate'):
            return {(): 'Ok'}
        return Scene.call(self, c)


def extras(p, rep):
    for path, fn in sorted(p.fns.items()):
        if '{closure' in path or not path.lstrip('<').startswith('validators::') or 'ValError' not in p.ts(fn.locals[0]) or '::consume_iterator' not in path:
            continue
        a = p.adts.get(u.tyname(p, fn.locals[1]))
        fields = [x[0] for x in a.variants[0][2]] if a is not None and a.k == 'struct' else []
        # the visitor of arguments stores no extras, its arguments are collected elsewhere
        if 'extra_behavior' not in fields or 'extras_validator' not in fields:
            continue
        g = u.graph(p, fn, noinline=c10.opaque)
        cc = {c.node for c in collectors(g)}
        asks = [c for c in g.calls if not c.inlined and c.m in ('contains', 'contains_key')]
        sinks = {c.node for c in g.calls if not c.inlined and c.m == 'set_item'}
        vals = {c.node for c in g.calls if not c.inlined and c.m == 'validate'}
        rep.ob('extras', f'{short(path)}: keys of fields are told apart', bool(asks), 'no test', u.where(fn))
        for extra in ('Allow', 'Forbid', 'Ignore'):
            for used in (True, False):
                seed = off(g)
                seed[(g.arg_locals[0], ('.extra_behavior',))] = extra
                f = fl.Flow(g, seed=seed, assume=Key(g, used, None))
                live = f.reach(f.entry_states())

                def hit(nodes):
                    return any(set(f.at.get(n, ())) & live for n in nodes)

                def always(nodes):
                    return all('Ok' not in {f.exit_variant(s) for s in after(f, c.node, nodes) & set(f.exits)} - {'Err'} and not {f.exit_variant(s) for s in after(f, c.node, nodes) & set(f.exits)} - {'Err'} for c in asks)
                if used or extra == 'Ignore':
                    ok = not hit(cc) and not hit(sinks) and not hit(vals)
                elif extra == 'Forbid':
                    ok = always(cc) and not hit(sinks) and not hit(vals) and 'ExtraForbidden' in kinds(g, f, live)
                else:
                    ok = always(sinks) and not hit(cc)
                rep.ob('extras', f'{short(path)}: {"field" if used else "extra"}, {extra}', ok, f'collects errors: {hit(cc)}, stores: {hit(sinks)}, validates: {hit(vals)}', u.where(fn))
                rep.count('extra_cases')


def kinds(g, f, states):
    out = set()
    for n in g.nodes:
        if not set(f.at.get(n.id, ())) & states:
            continue
        ops = [o for pl, rv, ln in n.stmts for o in mir.operands_of(rv)] + (list(n.term[1].args) if n.term[0] == 'call' else [])
        out |= {o['named'].split('::')[-1] for o in ops if isinstance(o, dict) and 'ErrorTypeDefaults' in o.get('named', '')}
        out |= {rv[2] for pl, rv, ln in n.stmts if rv[0] == 'adt' and rv[1] == 'errors::types::ErrorType'}
    return out


def fields_set(p, rep):
    for path, fn, g, ss, cc in groups(p):
        adds = {c.node for c in g.calls if not c.inlined and c.m in ('push', 'insert', 'add') and 'PyString' in ty(g, c.args[0]) and ('Vec<' in ty(g, c.args[0]) or 'Set' in ty(g, c.args[0]))}
        if not adds:
            continue
        seed = off(g)
        for c in ss:
            if c.m == 'validate':
                f = fl.Flow(g, seed=seed, assume=Scene(g, c.node, {(): 'Ok'}, ok={x.node for x in ss if x.m == 'validate'}))
                r = after(f, c.node, adds)
                rep.ob('fields-set', f'{short(path)}: a field which was given', not {f.exit_variant(s) for s in r & set(f.exits)} - {'Err'}, 'not marked as set', g.where(c.node))
                rep.count('marks')
            elif c.m == 'default_value':
                f = fl.Flow(g, seed=seed, assume=Scene(g, c.node, {(): 'Ok', ('@Ok', '.0'): 'Some'}))
                stop = {x.node for x in ss if x.m == 'get_item'}
                r = after(f, c.node, stop)
                rep.ob('fields-set', f'{short(path)}: a field which has its default', not any(set(f.at.get(n, ())) & r for n in adds), 'marked as set', g.where(c.node))
                rep.count('marks')


def uses(g, x, c):
    for a in x.args[1:]:
        if isinstance(a, dict):
            continue
        if any(s[0] == 'call' and s[1] == c.name for s in g.sources(a, stop=lambda d: not d.inlined and d.m in SITES)):
            return True
    return False

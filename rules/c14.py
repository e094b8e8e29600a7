"""C14: a union takes the best matching choice, and an alternative that failed leaves no trace."""
import mir
import flow as fl
import util as u

STATE = 'validators::validation_state::ValidationState'
EXACT = 'validators::validation_state::Exactness'
TRAIT = 'input::input_abstract::Input'
TRACE = ('exactness', 'fields_set_count', 'allow_partial')


def argname(fn, i):
    return fn.d['names'].get(str(i + 1))


def opaque(path):
    return path.startswith(('errors::', 'recursion_guard::', 'lookup_key::', 'tools::'))


def state_arg(p, fn):
    for i in range(fn.d['args']):
        if u.tyname(p, fn.locals[i + 1]) == STATE:
            return i
    return None


def roots(p):
    for path, fn in sorted(p.fns.items()):
        if '{closure' in path or not path.lstrip('<').startswith('validators::') or '__pymethod' in path:
            continue
        if state_arg(p, fn) is not None:
            yield path, fn


def writes(g, field):
    """(node, rhs operands) of every assignment to that field of a state"""
    out = {}
    for n in g.nodes:
        for pl, rv, ln in n.stmts:
            if pl[1] and pl[1][-1] == '.' + field and g.ltypes[pl[0]] is not None and u.tyname(g.p, g.ltypes[pl[0]]) == STATE:
                out.setdefault(n.id, []).append(rv)
    return out


def stop(c):
    return not c.inlined and c.m in ('validate', 'validate_assignment')


def saved(g, rv, si, field):
    """the value written is the one the state had on entry"""
    ops = [o for o in mir.operands_of(rv) if not isinstance(o, dict)]
    return bool(ops) and all(any(s[0] == 'arg' and s[1] == si and '.' + field in s[2] for s in g.sources(o, stop=stop)) for o in ops)


def attempts(p, rep):
    """validations of the same input one after the other: the state is put back in between"""
    for path, fn in roots(p):
        si = state_arg(p, fn)
        names = [argname(fn, i) for i in range(fn.d['args'])]
        if 'input' not in names:
            continue
        ii = names.index('input')
        g = u.graph(p, fn, noinline=opaque)
        tries = []
        for c in g.calls:
            if c.inlined or c.m != 'validate' or c.trait != 'validators::Validator' and 'Validator' not in c.name or len(c.args) < 4:
                continue
            src = {(s[1], u.strip(s[2])) for s in g.sources(c.args[2], stop=lambda c: not c.inlined) if s[0] == 'arg'} if not isinstance(c.args[2], dict) else set()
            if src == {(ii, ())}:
                tries.append(c)
        if not tries:
            continue
        f = u.flow(g)
        live = f.reach(f.entry_states())
        at = {c.node: [s for s in f.at.get(c.node, ()) if s in live] for c in tries}
        nodes = {c.node for c in tries}
        lab = path.replace('validators::', '')
        for c in tries:
            after = [t for s in at[c.node] for _, t in f.succ[s]]
            again = {f.states[s][0] for s in f.reach(after)} & nodes
            rep.count('nested validations of the same input')
            if not again:
                continue
            rep.count('alternatives')
            for fld in TRACE:
                w = writes(g, fld)
                hit = {f.states[s][0] for s in f.reach(after, avoid=set(w))} & nodes
                rep.ob('trace', f'{lab}>{fld}', not hit, f'a choice that failed leaves its {fld} to the choice tried after it', g.where(c.node))
                rep.count('alternatives followed')
        if not any({f.states[s][0] for s in f.reach([t for s in at[c.node] for _, t in f.succ[s]])} & nodes for c in tries):
            continue
        # what is written is either the value on entry or a fixed start value; on the way out it is the value on entry
        for fld in TRACE:
            w = writes(g, fld)
            keep = {n for n, rvs in w.items() if any(saved(g, rv, si, fld) for rv in rvs)}
            fresh = {n for n in set(w) - keep if g.nodes[n].frame.fn.name not in ('floor_exactness', 'add_fields_set')}
            if fld == 'allow_partial':
                rep.ob('trace', f'{lab}>{fld} value', not fresh, 'a choice is tried with a partial mode other than the one in force', g.where(min(fresh)) if fresh else u.where(fn))
            # a start value for a choice must not survive the union
            starts = [t for n in fresh for s in f.at.get(n, ()) if s in live for _, t in f.succ[s]]
            out = f.reach(starts, avoid=keep) & set(f.exits)
            rep.ob('trace', f'{lab}>{fld} restored', not out, f'the {fld} of the last choice replaces that of the enclosing validation on some way out', u.where(fn))
            rep.count('ways out')


# -------------------------------------------------------------------- which choice wins

class Better(fl.Assume):
    """outcome of the comparisons between the best match so far and the new one"""

    def __init__(self, g, cnt, ex):
        self.g, self.cnt, self.ex = g, cnt, ex
        self.memo = {}

    def side(self, o):
        """'old' (the best match so far) or 'new' (the state after the choice), and which of the two measures"""
        if isinstance(o, dict):
            return None
        k = (o[0], o[1])
        if k not in self.memo:
            self.memo[k] = self.find(o)
        return self.memo[k]

    def find(self, o):
        g = self.g
        root, pj = u.flow(g).origin(o)
        kinds = []
        for l, q in ((o[0], o[1]), (root, pj)):
            t = g.ltypes[l]
            kinds.append(g.p.ts(t) if t is not None else '')
        kind = 'ex' if kinds[0].endswith('Exactness') or '.exactness' in pj or '.1' in pj and is_match(kinds[1]) else 'cnt' if kinds[0].endswith('usize') or 'Option<usize>' in kinds[0] or '.fields_set_count' in pj or '.2' in pj and is_match(kinds[1]) else None
        return ('old' if is_match(kinds[1]) else 'new', kind)

    def rel(self, a, b):
        """ordering of a relative to b: -1, 0, 1 or None"""
        x, y = self.side(a), self.side(b)
        if not x or not y or x[0] == y[0] or (x[1] or y[1]) != (y[1] or x[1]):
            return None
        r = self.ex if x[1] == 'ex' else self.cnt
        if r is None:
            return None
        return r if x[0] == 'new' else -r

    def bin(self, rv, node):
        op = rv[1]
        if op not in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            return None
        r = self.rel(rv[2], rv[3])
        return None if r is None else cmp(op, r)

    def call(self, c):
        m = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge', 'eq': 'Eq', 'ne': 'Ne'}.get(c.m)
        if len(c.args) != 2:
            return None
        if m:
            r = self.rel(c.args[0], c.args[1])
            return None if r is None else {(): cmp(m, r)}
        if c.m in ('cmp', 'partial_cmp'):
            r = self.rel(c.args[0], c.args[1])
            if r is None:
                return None
            o = {-1: 'Less', 0: 'Equal', 1: 'Greater'}[r]
            return {(): o} if c.m == 'cmp' else {(): 'Some', ('@Some', '.0'): o}
        return None


def cmp(op, r):
    return {'Lt': r < 0, 'Le': r <= 0, 'Gt': r > 0, 'Ge': r >= 0, 'Eq': r == 0, 'Ne': r != 0}[op]


def noinline_cmp(path):
    return opaque(path) or path.startswith(f'<{EXACT} as ') or path.endswith(('::floor_exactness', '::add_fields_set'))


def select(p, rep):
    """the new match replaces the best one so far exactly if it sets more fields, or - counts equal or unknown - is more exact"""
    found = 0
    for path, fn in roots(p):
        if 'union::' not in path:
            continue
        g = mir.Graph(p, fn, noinline=noinline_cmp)
        best = [nid for nid, pl, rv, ln in tuples(g) if is_match_tuple(g, pl) and g.nodes[nid].frame.fn is fn]
        if not best:
            continue
        found += 1
        lab = path.replace('validators::', '')
        tries = {c.node for c in g.calls if not c.inlined and c.m == 'validate'}
        holders = {l for l, t in enumerate(g.ltypes) if t is not None and p.ts(t).startswith('std::option::Option<(') and 'Exactness' in p.ts(t)}
        for cs in ('none', 'new', 'both'):
            for cnt in ((-1, 0, 1) if cs == 'both' else (None,)):
                for ex in (-1, 0, 1):
                    want = cnt > 0 if cnt else ex > 0
                    f = fl.Flow(g, assume=Scen(Better(g, cnt, ex), g, cs, holders))
                    live = f.reach(f.entry_states())
                    # there is a best match already
                    start = [t for n in tries for s in f.at.get(n, ()) if s in live and any(f.env(s).get((h, ())) == 'Some' for h in holders) for _, t in f.succ[s]]
                    rep.ob('anchor', f'{lab}: second match', bool(start), 'no state in which there is a best match already', u.where(fn))
                    hit = {f.states[s][0] for s in f.reach(start, avoid=tries)} & set(best)
                    rep.ob('select', f'{lab}: fields set known for {cs}, {name(cnt)} of them, {name(ex)} exact', bool(hit) == want,
                           f'a match with {name(cnt)} fields set ({cs} known) and {name(ex)} exactness than the best so far {"does not replace" if want else "replaces"} it', g.where(best[0]))
                    rep.count('comparisons of matches')
        # what is kept of a match, and what becomes of it
        si = state_arg(p, fn)
        for nid, pl, rv, ln in tuples(g):
            if nid in best:
                for k, (o, f_) in enumerate(zip(rv[1], (None, '.exactness', '.fields_set_count'))):
                    if f_ is None:
                        ok = any(not isinstance(o, dict) and s[0] == 'call' and s[1].endswith('::validate') for s in g.sources(o))
                    else:
                        via = set()
                        ok = not isinstance(o, dict) and any(s[0] == 'arg' and s[1] == si and f_ in s[2] for s in g.sources(o, stop=lambda c: via.add(c.m if not c.inlined else '') or stop(c)))
                        ok = ok and via <= AS_IS
                    rep.ob('select', f'{lab}: kept {("value", "exactness", "count")[k]}', ok, f'the {("value", "exactness", "count of fields set")[k]} kept for a match is not the one found by its choice', g.where(nid))
        step = {c.node for c in g.calls if c.m == 'next'}
        low = {c.node for c in g.calls if c.m == 'floor_exactness' and not c.inlined}
        add = {c.node for c in g.calls if c.m == 'add_fields_set' and not c.inlined}
        for ex in ('Lax', 'Strict', 'Exact'):
            for cs in ('none', 'both'):
                f = fl.Flow(g, track_ret=True, assume=Scen(Better(g, None, None), g, cs, holders, ex))
                live = f.reach(f.entry_states())
                start = [t for n in tries for s in f.at.get(n, ()) if s in live for _, t in f.succ[s]]
                oks = {s for s in f.exits if f.exit_variant(s) == 'Ok'}
                now = f.reach(start, avoid=step) & oks
                rep.ob('select', f'{lab}: {ex} match, fields {cs}: others tried', bool(now) == (ex == 'Exact' and cs == 'none'), f'a match that is {ex} with fields set {"known" if cs == "both" else "unknown"} is {"" if now else "not "}returned before the other choices are tried', u.where(fn))
                if not now:
                    rep.ob('select', f'{lab}: {ex} match, fields {cs}: noted', not f.reach(start, avoid=low) & oks and not (cs == 'both' and f.reach(start, avoid=add) & oks), 'the exactness or the fields set of the winning choice are not passed on to the enclosing validation', u.where(fn))
                rep.count('outcomes of a match')
    rep.ob('anchor', 'smart union', found >= 1, 'no validator that keeps the best match of several choices')


# an optional value taken as it is
AS_IS = {'', 'validate', 'unwrap_or', 'unwrap', 'unwrap_or_default', 'unwrap_or_else', 'expect', 'clone', 'copied', 'cloned', 'as_ref', 'into', 'from', 'take', 'ok_or', 'branch', 'add_fields_set', 'floor_exactness'}


def name(r):
    return {None: 'unknown', -1: 'less', 0: 'equal', 1: 'more'}[r]


class Scen(fl.Assume):
    """best match present; field counts known as given; comparisons as given"""

    def __init__(self, better, g, cs, holders, new_ex=None):
        self.b, self.g, self.cs, self.holders, self.new_ex = better, g, cs, holders, new_ex

    def bin(self, rv, node):
        return self.b.bin(rv, node)

    def call(self, c):
        return self.b.call(c)

    def discr(self, key, node, adt):
        l, pj = key[0], tuple(key[1])
        t = self.g.ltypes[l]
        ts = self.g.p.ts(t) if t is not None else ''
        if 'Option<(' in ts and 'Exactness' in ts and not [e for e in pj if e != '*']:
            return None
        if ts.endswith('Option<usize>') or pj and pj[-1] == '.fields_set_count' or pj and pj[-1] == '.2' and is_match(ts):
            w = 'old' if is_match(ts) else self.b.side((l, pj))[0]
            return 'Some' if self.cs in (w, 'both') else 'None'
        if adt == EXACT and '.exactness' in pj:
            return self.new_ex
        if ts.endswith('Option<' + EXACT + '>') or '.exactness' in pj:
            return 'Some'
        return None


def is_match(ts):
    return 'Exactness' in ts and 'usize' in ts and 'Py<' in ts and not ts.startswith('{closure')


def is_match_tuple(g, pl):
    t = g.ltypes[pl[0]]
    return t is not None and is_match(g.p.ts(t))


def tuples(g):
    for n in g.nodes:
        for pl, rv, ln in n.stmts:
            if rv[0] == 'tuple' and len(rv[1]) == 3:
                yield n.id, pl, rv, ln


# -------------------------------------------------------------------- conversions report how exact they are

def conversions(p, rep):
    """a validator that accepts a converted value takes note of how exact the conversion was"""
    for path, fn in roots(p):
        if fn.name != 'validate' or ' as validators::Validator>' not in path:
            continue
        g = mir.Graph(p, fn, noinline=noinline_conv)
        conv = [c for c in g.calls if not c.inlined and c.trait == TRAIT and c.m.startswith('validate_') and 'ValidationMatch' in dest_type(p, g, c)]
        if not conv:
            continue
        conv = [c for c in conv if direct(g, fn, c)]
        # values of the JSON and string forms have conventions of their own (a uuid is a string there)
        f = fl.Flow(g, track_ret=True, assume=PythonInput(g))
        live = f.reach(f.entry_states())
        note = {c.node for c in g.calls if not c.inlined and c.m in ('unpack', 'floor_exactness', 'require_exact')}
        lab = path.replace('validators::', '')
        oks = set(f.exits_with('Ok'))
        for c in conv:
            st = [t for s in f.at.get(c.node, ()) if s in live for _, t in f.succ[s]]
            before = {f.states[s][0] for s in f.reach(f.entry_states(), avoid=note)}
            bad = f.reach(st, avoid=note | {x.node for x in conv}) & oks if c.node in before else False
            rep.ob('noted', f'{lab}>{c.m}', not bad or lab in FIXED, 'a converted value is accepted without noting how exact the conversion was', g.where(c.node))
            rep.count('conversions')


class PythonInput(fl.Assume):
    """the form of the input is Python"""

    def __init__(self, g):
        self.g = g

    def call(self, c):
        if c.m in ('eq', 'ne') and c.args and not isinstance(c.args[0], dict):
            src = [s for o in c.args for s in self.g.sources(o)]
            vs = {s[2] for s in src if s[0] == 'adt' and s[1] == INPUT_TYPE}
            if len(vs) == 1 and any(s[0] == 'arg' and '.input_type' in s[2] for s in src):
                return {(): (vs == {'Python'}) == (c.m == 'eq')}

    def discr(self, key, node, adt):
        return 'Python' if adt == INPUT_TYPE else None


INPUT_TYPE = 'input::input_abstract::InputType'


def direct(g, fn, c):
    if isinstance(c.args[0], dict):
        return False
    return any(s[0] == 'arg' and argname(fn, s[1]) == 'input' for s in g.sources(c.args[0], stop=lambda c: not c.inlined))


# literal values are compared with ==, which is the exactness they define
FIXED = {'<literal::LiteralValidator as Validator>::validate', '<union::TaggedUnionValidator as Validator>::validate'}


def dest_type(p, g, c):
    t = g.ltypes[c.dest[0]]
    return p.ts(t) if t is not None else ''


def noinline_conv(path):
    return opaque(path) or path.endswith(('::floor_exactness', '::unpack', '::require_exact')) or path.startswith(f'<{INPUT_TYPE} as ')


def lowering(p, rep):
    """floor_exactness only lowers; the order is Lax < Strict < Exact; unpack notes its own exactness"""
    a = p.adts.get(EXACT)
    rep.ob('noted', 'order', a is not None and [v[0] for v in a.variants] == ['Lax', 'Strict', 'Exact'], 'Exactness is not ordered Lax < Strict < Exact')
    fn = next((f for q, f in p.fns.items() if q.startswith(STATE + '::') and q.endswith('::floor_exactness')), None)
    if not rep.ob('anchor', 'floor_exactness', fn is not None, 'floor_exactness not found'):
        return
    g = mir.Graph(p, fn)
    order = [None, 'Lax', 'Strict', 'Exact']
    for cur in order:
        for new in order[1:]:
            seed = {}
            for q in (('.exactness',), ('*', '.exactness')):
                seed[(g.arg_locals[0], q)] = 'None' if cur is None else 'Some'
                if cur:
                    seed[(g.arg_locals[0], q + ('@Some', '.0'))] = cur
            seed[(g.arg_locals[1], ())] = new
            own = [l for l, t in enumerate(g.ltypes) if t is not None and u.tyname(p, t) == STATE]
            root = next((l for l in own if l != g.arg_locals[0]), g.arg_locals[0])
            f = fl.Flow(g, seed=seed, force_roots=own, assume=Cmp(g, cur, new))
            live = f.reach(f.entry_states())
            got = set()
            for s in f.exits:
                if s in live:
                    e = f.env(s)
                    v = next((e[k] for k in ((root, q) for q in (('.exactness',), ('*', '.exactness'))) if k in e), '?')
                    w = next((e[k] for k in ((root, q + ('@Some', '.0')) for q in (('.exactness',), ('*', '.exactness'))) if k in e), None)
                    got.add(None if v == 'None' else w if v == 'Some' else v)
            want = None if cur is None else order[min(order.index(cur), order.index(new))]
            rep.ob('noted', f'floor {cur} with {new}', got == {want}, f'exactness {cur} lowered with {new} becomes {sorted(map(str, got))}, must be {want}', u.where(fn))
            rep.count('lowerings')
    fn = next((f for q, f in p.fns.items() if 'ValidationMatch' in q and q.endswith('::unpack')), None)
    if rep.ob('anchor', 'unpack', fn is not None, 'ValidationMatch::unpack not found'):
        g = mir.Graph(p, fn, noinline=noinline_conv)
        c = [c for c in g.calls if c.m == 'floor_exactness']
        rep.ob('noted', 'unpack', any(any(s[0] == 'arg' and s[1] == 0 and '.1' in s[2] for s in g.sources(x.args[1])) for x in c), 'unpack does not note the exactness of the match', u.where(fn))


class Cmp(fl.Assume):
    def __init__(self, g, cur, new):
        self.g, self.v = g, {'cur': cur, 'new': new}

    def call(self, c):
        m = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge', 'eq': 'Eq', 'ne': 'Ne'}.get(c.m)
        if not m or len(c.args) != 2:
            return None
        order = ['Lax', 'Strict', 'Exact']
        vals = []
        for o in c.args:
            s = self.g.sources(o)
            k = 'new' if any(x[0] == 'arg' and x[1] == 1 for x in s) else 'cur' if any(x[0] == 'arg' for x in s) else None
            v = self.v.get(k) if k else next((x[2] for x in s if x[0] == 'adt' and x[1] == EXACT), None)
            if v is None:
                return None
            vals.append(order.index(v))
        return {(): cmp(m, vals[0] - vals[1])}


def run(p, rep, tier):
    rep.rule('trace', 'between two validations of the same input the state is put back (exactness, count of fields set, partial mode), and on every way out the values of the enclosing validation are back')
    rep.rule('select', 'the best match is the one that sets more fields; counts equal or unknown, the more exact one; otherwise the earlier one')
    rep.rule('noted', 'every conversion a validator accepts lowers the exactness to that of the conversion, and nothing raises it')
    attempts(p, rep)
    select(p, rep)
    conversions(p, rep)
    lowering(p, rep)
    rep.floor('alternatives', 3)
    rep.floor('comparisons of matches', 15)
    rep.floor('conversions', 25)
    rep.floor('lowerings', 12)

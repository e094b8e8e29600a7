"""C06 - declared constraints are enforced on every accepting path, in the right direction, with the right error.

Method: conditional constant propagation. For one validator and one constraint field K the outcome of every
comparison between K and the value is assumed (smaller / equal / greater, matches / does not match ...), K itself
is assumed set, and reachability of the accepting exit and of the error constructor is decided on the MIR graph.
"""
import mir
import flow as fl
import util as u

ASSUMPTIONS = ['Comparisons of foreign types (f64, BigInt, speedate, Python numbers, regex) mean what their names say.',
               'The digits of a finite Decimal can be extracted (Decimal.as_tuple() of a finite value does not fail).']
LT, EQ, GT, UN = 'Less', 'Equal', 'Greater', 'unordered (NaN)'
# field -> (error variants, violating relations value-vs-constraint, complying relations)
ORDER = {
    'le': (('LessThanEqual',), (GT,), (LT, EQ)),
    'lt': (('LessThan',), (GT, EQ), (LT,)),
    'ge': (('GreaterThanEqual',), (LT,), (GT, EQ)),
    'gt': (('GreaterThan',), (LT, EQ), (GT,)),
    'min_length': (('TooShort', 'StringTooShort', 'BytesTooShort'), (LT,), (EQ, GT)),
    'max_length': (('TooLong', 'StringTooLong', 'BytesTooLong', 'UrlTooLong'), (GT,), (LT, EQ)),
    'max_digits': (('DecimalMaxDigits',), (GT,), (LT, EQ)),
    'decimal_places': (('DecimalMaxPlaces',), (GT,), (LT, EQ)),
}
OTHER = {'multiple_of': ('MultipleOf',), 'pattern': ('StringPatternMismatch',), 'allowed_schemes': ('UrlScheme',), 'version': ('UuidVersion',),
         'today': ('DatePast', 'DateFuture'), 'now': ('DatetimePast', 'DatetimeFuture'), 'tz': ('TimezoneAware', 'TimezoneNaive', 'TimezoneOffset'),
         'allow_inf_nan': ('FiniteNumber',)}
KS = set(ORDER) | set(OTHER)
FLIP = {LT: GT, GT: LT, EQ: EQ, UN: UN}
CMP_M = {'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'partial_cmp', 'cmp'}
ORD_M = {'is_lt': {LT}, 'is_le': {LT, EQ}, 'is_gt': {GT}, 'is_ge': {GT, EQ}, 'is_eq': {EQ}, 'is_ne': {LT, GT}}
BINS = {'Lt': {LT}, 'Le': {LT, EQ}, 'Gt': {GT}, 'Ge': {GT, EQ}, 'Eq': {EQ}, 'Ne': {LT, GT}}
MS = {'lt': {LT}, 'le': {LT, EQ}, 'gt': {GT}, 'ge': {GT, EQ}, 'eq': {EQ}, 'ne': {LT, GT}}
VERR = ('errors::types::ErrorType', 'errors::types::ErrorTypeDefaults')


def field_paths(p, adt, depth=3, seen=()):
    """paths of constraint fields inside adt, through Option / references / local structs"""
    out = {}
    a = p.adts.get(adt)
    if not a or a.k != 'struct' or adt in seen:
        return out
    for name, ti in a.fields():
        if name in KS:
            out.setdefault(name, ('.' + name,))
            continue
        if depth <= 0:
            continue
        t, pre = p.T(ti), ()
        while True:
            if t.get('k') == 'ref':
                t = p.T(t['a'][0])
            elif t.get('d') == mir.OPT:
                t = p.T(t['a'][0])
                pre += ('@Some', '.0')
            else:
                break
        d = t.get('d')
        if d and d in p.adts and p.adts[d].local and p.adts[d].k == 'struct' and d.startswith('validators::'):
            for k, pj in field_paths(p, d, depth - 1, seen + (adt,)).items():
                out.setdefault(k, ('.' + name,) + pre + pj)
    return out


def roots_of(t, pj=()):
    """(root term, projection) of a term that is a plain copy of a place"""
    if t[0] == 'fld':
        yield from roots_of(t[1], (t[2],) + pj)
    elif t[0] == 'phi':
        for x in t[1]:
            yield from roots_of(x, pj)
    elif t[0] in ('call', 'bin', 'cast') and len(t) > 2 and isinstance(t[2], tuple) and len(t[2]) == 1 and t[0] == 'call':
        yield from roots_of(t[2][0], pj)
    else:
        yield t, pj


class Assume:
    def __init__(self, g, self_idx, fp, K, rel, agree):
        self.g, self.fp, self.K, self.rel, self.agree = g, fp, K, rel, agree
        self.si = self_idx
        self.cmps = {}
        self.memo = {}
        self.skip = {i for i, al in enumerate(g.arg_locals) if 'Python<' in g.p.ts(g.ltypes[al])[:24]}
        self.is_next = g.entry_fn.name == '__next__'

    def hasK(self, o):
        """o is the constraint (for limits), or is computed from it (for the others)"""
        if isinstance(o, dict):
            return False
        n = len(self.fp)
        if self.K in ORDER:
            return any(t == ('arg', self.si) + t[2:] and u.strip(pj)[:n] == self.fp for t, pj in roots_of(self.g.term(o)) if t[0] == 'arg')
        for s in self.g.sources(o):
            if s[0] == 'arg' and s[1] == self.si and u.strip(s[2])[:n] == self.fp:
                return True
        return False

    def orient(self, x, y):
        """relation of x to y under the assumption, or None if this is not a comparison of value and constraint"""
        kx, ky = self.hasK(x), self.hasK(y)
        if self.K in ('today', 'now'):
            nx, ny = self.from_now(x), self.from_now(y)
            if nx == ny:
                return None
            return self.rel if ny else FLIP[self.rel]
        if self.K == 'multiple_of':
            # remainder (derives from the constraint) against a constant
            if kx and not ky and not self.vars(y):
                return self.rel
            if ky and not kx and not self.vars(x):
                return FLIP[self.rel]
            return None
        if kx == ky:
            return None
        vx, vy = self.vars(x), self.vars(y)
        if ky and vx:
            return self.rel
        if kx and vy:
            return FLIP[self.rel]
        return None

    def vars(self, o):
        """op depends on something computed from the input (a call, an argument)"""
        if isinstance(o, dict):
            return False
        for s in self.g.sources(o):
            if s[0] == 'arg' and (s[1] != self.si and s[1] not in self.skip or self.is_next and s[1] == self.si and not any(e[1:] in KS for e in s[2])) or s[0] == 'call' and not s[1].startswith(('std::', 'num_bigint', '<num', '<u', '<i', 'pyo3::IntoPyObject', '<T as', '<pyo3', 'pyo3::marker', 'pyo3::conversions')) or s[0] == 'bin':
                return True
            if s[0] == 'cbarg' or s[0] == 'call' and s[1].split('::')[-1] in ('count', 'len'):
                return True
        return False

    def from_now(self, o):
        if isinstance(o, dict):
            return False
        return any(s[0] == 'call' and s[1].split('::')[-1] in ('now', 'today') for s in self.g.sources(o))

    def bin(self, rv, node):
        op = rv[1]
        if op not in BINS:
            return None
        k = ('b', node.id, repr(rv))
        if k not in self.memo:
            self.memo[k] = self._bin(op, rv, node)
        return self.memo[k]

    def _bin(self, op, rv, node):
        if self.K == 'version' and op in ('Eq', 'Ne'):
            if self.hasK(rv[2]) != self.hasK(rv[3]):
                self.cmps.setdefault(node.id, (op, rv[2], rv[3]))
                return (op == 'Eq') == (self.rel == EQ)
            return (op == 'Eq') if self.rel == EQ and self.vars(rv[2]) else None
        if self.K in ORDER or self.K in ('multiple_of', 'today', 'now'):
            r = self.orient(rv[2], rv[3])
            if r is None:
                return None
            self.cmps.setdefault(node.id, (op, rv[2], rv[3]))
            return r in BINS[op] or r == UN and op == 'Ne'
        return None

    def call(self, c):
        k = ('c', c.node, id(c))
        if k not in self.memo:
            self.memo[k] = self._call(c)
        return self.memo[k]

    def _call(self, c):
        if c.m in ('build_add', 'set_item', 'add') and not c.inlined and self.is_result(c):
            return {(): 'Ok'}
        res = lambda v: {('@Ok', '.0'): v} if self.is_result(c) else {(): v}
        if self.K in ORDER or self.K in ('multiple_of', 'today', 'now'):
            if c.m in CMP_M and len(c.args) == 2:
                r = self.orient(c.args[0], c.args[1])
                if r is None:
                    return None
                self.cmps.setdefault(c.node, (c.m, c.args[0], c.args[1]))
                if c.m == 'partial_cmp' and r == UN:
                    return {(): 'None'}
                if c.m == 'partial_cmp':
                    return {(): 'Some', ('@Some', '.0'): r}
                if c.m == 'cmp':
                    return {(): r}
                return res(r in MS[c.m] or r == UN and c.m == 'ne')
            if c.m in ORD_M and c.args and not isinstance(c.args[0], dict):
                # Ordering::is_xx of a comparison
                for dp, rv, nd in self.g.defs.get(c.args[0][0], ()):
                    if rv[0] == 'call' and rv[1].m == 'cmp':
                        r = self.orient(*rv[1].args[:2])
                        if r:
                            return {(): r in ORD_M[c.m]}
        if self.K == 'version' and c.m in ('eq', 'ne') and len(c.args) == 2 and self.hasK(c.args[0]) != self.hasK(c.args[1]):
            self.cmps.setdefault(c.node, (c.m, c.args[0], c.args[1]))
            return {(): (c.m == 'eq') == (self.rel == EQ)}
        if self.K == 'version' and c.m in ('eq', 'ne') and len(c.args) == 2 and self.rel == EQ and self.vars(c.args[0]):
            return {(): c.m == 'eq'}
        if self.K == 'pattern' and c.m in ('is_match', 'search', 'find', 'call_method1') and c.args and self.hasK(c.args[0]):
            self.cmps.setdefault(c.node, (c.m, c.args[0], c.args[-1]))
            return res(self.rel == EQ) if c.m == 'is_match' else None
        if self.K == 'pattern' and c.m in ('is_none', 'is_truthy', 'is_some') and c.args and self.hasK(c.args[0]):
            src = self.g.sources(c.args[0])
            if any(s[0] == 'call' and s[1].split('::')[-1] in ('call_method1', 'call1', 'call_method') for s in src):
                self.cmps.setdefault(c.node, (c.m, c.args[0], c.args[0]))
                return res((self.rel == EQ) == (c.m != 'is_none'))
        if self.K == 'allowed_schemes' and c.m == 'contains' and self.hasK(c.args[0]):
            self.cmps.setdefault(c.node, (c.m, c.args[0], c.args[1]))
            return {(): self.rel == EQ}
        if self.K == 'allow_inf_nan':
            if c.m in ('is_finite', 'is_nan', 'is_infinite') and len(c.args) == 1:
                self.cmps.setdefault(c.node, (c.m, c.args[0], c.args[0]))
                return {(): (c.m == 'is_finite') == (self.rel == EQ)}
            if c.m == 'extract' and c.args and ('str', 'is_finite') in self.g.sources(c.args[0]):
                self.cmps.setdefault(c.node, (c.m, c.args[0], c.args[0]))
                return {('@Ok', '.0'): self.rel == EQ}
        elif c.m == 'extract' and c.args and ('str', 'is_finite') in self.g.sources(c.args[0]):
            return {('@Ok', '.0'): True}
        elif c.m == 'is_finite':
            return {(): True}
        return None

    def is_result(self, c):
        t = self.g.ltypes[c.dest[0]]
        return t is not None and not c.dest[1] and self.g.p.T(t).get('d') == mir.RES

    def discr(self, key, node, adt):
        if adt == mir.OPT and self.is_next:
            # the receiver is a smart pointer: seeds do not see through its deref
            k = ('d', repr(key))
            if k not in self.memo:
                rs = [(t, u.strip(pj)) for t, pj in roots_of(self.g.term(key))]
                self.memo[k] = bool(rs) and all(t[0] == 'arg' and t[1] == self.si and pj == self.fp for t, pj in rs)
            if self.memo[k]:
                return 'Some'
        if self.K in ('max_digits', 'decimal_places') and adt == mir.RES:
            # digits of a finite decimal can be extracted
            if any(s == ('str', 'as_tuple') for s in self.g.sources(key)):
                return 'Ok'
        if self.K == 'version' and self.rel == EQ and adt == mir.OPT and any(s == ('str', 'version') for s in self.g.sources(key)):
            return 'Some'
        if self.K == 'tz' and key[1] and key[1][-1] == '.tz_offset':
            self.cmps.setdefault(node.id, ('discr', key, key))
            return self.rel
        return None

    def boolean(self, place, node):
        if isinstance(place, dict):
            return None
        if any(s == ('str', 'is_nan') for s in self.g.sources(place)):
            return False
        if self.K == 'decimal_places' and False:
            return None
        return None


def errs_of(K):
    return set(ORDER[K][0]) if K in ORDER else set(OTHER[K])


def err_nodes(g, variants):
    return [nid for nid, pl, rv, ln in g.aggs() if rv[1] in VERR and rv[2] in variants] + \
        u.named_nodes(g, lambda s: s.startswith('errors::types::ErrorTypeDefaults::') and s.split('::')[-1] in variants)


def self_local(g):
    return g.arg_locals[0]


def seeds(g, fp, K, extra=()):
    """facts: every Option on the way to K, and K itself, is Some"""
    s0 = self_local(g)
    s = {}
    pj = ()
    for e in fp:
        if e == '@Some':
            s[(s0, pj)] = 'Some'
        pj += (e,)
    if K == 'allow_inf_nan':
        s[(s0, pj)] = False
    else:
        s[(s0, pj)] = 'Some'
    for e, v in extra:
        s[(s0, fp[:-1] + e)] = v
    return s


def assumptions_for(K, is_float=False):
    """[(label, relation, extra seeds, violating?)]"""
    if K in ORDER:
        _, bad, good = ORDER[K]
        if is_float:
            bad = bad + (UN,)
        ex = ((('.check_digits',), True),) if K in ('max_digits', 'decimal_places') else ()
        return [(r, r, ex, True, errs_of(K)) for r in bad] + [(r, r, ex, False, errs_of(K)) for r in good]
    if K == 'multiple_of':
        return [('remainder not zero', GT, (), True, errs_of(K)), ('remainder zero', EQ, (), False, errs_of(K))]
    if K in ('today', 'now'):
        P, F = OTHER[K]
        o = ('.' + K, '@Some', '.0', '.op')
        out = []
        for op, good, e in (('Past', LT, P), ('Future', GT, F)):
            for r in (LT, EQ, GT):
                out.append((f'{op}, value {r}', r, ((o, op),), r != good, {e}))
        return out
    if K == 'tz':
        o = ('.tz', '@Some', '.0')
        return [('aware, value naive', 'None', ((o, 'Aware'),), True, {'TimezoneAware'}), ('naive, value aware', 'Some', ((o, 'Naive'),), True, {'TimezoneNaive'}),
                ('aware, value aware', 'Some', ((o, 'Aware'),), False, {'TimezoneAware', 'TimezoneNaive'}), ('naive, value naive', 'None', ((o, 'Naive'),), False, errs_of(K))]
    return [('violated', 'violated', (), True, errs_of(K)), ('satisfied', EQ, (), False, errs_of(K))]


def is_float_limit(p, adt, fp):
    for name, ti in p.adts[adt].fields():
        if fp == ('.' + name,):
            return p.ts(ti) in ('std::option::Option<f64>', 'Option<f64>', 'f64')
    return False


ACCEPT_M = {'push', 'push_back', 'build_add', 'add', 'set_item', 'insert', 'append'}


def accept_nodes(p, g, f):
    """nodes that accept an item: growing an output collection with a value that is not an error; returning an item"""
    out = set()
    for c in g.calls:
        if c.inlined or c.m not in ACCEPT_M or len(c.args) < 2:
            continue
        t = tyof(p, g, c.args[0])
        if 'ValLineError' in t or 'AHashSet' in t or 'VecDeque' in t or 'LocItem' in t:
            continue
        if c.m in ('push', 'push_back', 'append', 'build_add', 'add', 'set_item'):
            out.add(c.node)
    return out


def tyof(p, g, o):
    if isinstance(o, dict):
        return ''
    t = g.ltypes[o[0]]
    return p.ts(t) if t is not None else ''


def closure_accepts(p, g):
    """(entry node, accepting node) of callbacks that yield items"""
    out = []
    for n in g.nodes:
        for lab, t in n.succ:
            if lab == 'cb':
                fr = g.nodes[t].frame
                acc = [nid for nid, pl, rv, ln in g.aggs(mir.RES, 'Ok') if g.nodes[nid].frame is fr and pl == (fr.base, ())]
                if acc:
                    out.append((t, acc))
    return out


def run(p, rep, tier):
    rep.rule('enforced', 'with the constraint set and the value violating it, no path accepts the value')
    rep.rule('not-overreaching', 'with the constraint set and the value satisfying it, the error of this constraint is not raised')
    rep.rule('error', 'the violation raises the error type of this constraint, and the limit shown is the limit that was declared')
    rep.rule('each-item', 'a limit on the number of items is checked for each accepted item')
    rep.rule('handed-over', 'a constraint enforced by a helper object is handed to it unchanged')
    rep.rule('declared', 'a constraint field is filled from the schema key (or its config counterpart) of the same name')
    rep.rule('selected', 'a schema that declares a constraint builds the validator that enforces it')
    rep.rule('measured', 'length, pattern and returned value refer to the same, transformed text; lengths count characters')
    rep.rule('orientation', 'local comparison operators compare self with other, not other with self')
    rep.rule('iterate', 'every collection hands all its items to the consumer that enforces the limits')
    roots = []
    for st, fn in p.trait_impls('validators::Validator', 'validate'):
        roots.append((st.get('d') or st['s'], fn))
    for st, fn in p.trait_impls('input::input_abstract::ConsumeIterator', 'consume_iterator'):
        roots.append((st.get('d') or st['s'], fn))
    for im in p.impls:
        if 'trait' not in im:
            for it in im['items']:
                if it[0] == 'fn' and it[1] == '__next__' and it[2] in p.fns and it[2].startswith('validators::'):
                    t = p.T(im['self'])
                    roots.append((t.get('d') or t['s'], p.fns[it[2]]))
    roots = [(a, fn, field_paths(p, a)) for a, fn in roots]
    roots = [r for r in roots if r[2]]
    carriers = {a for a, fn, fps in roots}
    required = set()
    carrier_only = {a for a, fn, fps in roots if fn.name != 'validate'}
    done = set()
    for adt, fn, fps in sorted(roots, key=lambda r: (r[0] in carrier_only, r[0])):
        check_root(p, rep, adt, fn, fps, carriers, required, adt in carrier_only)
    rep.floor('constraint fields', 55)
    rep.floor('comparisons of value and constraint', 60)
    check_orientation(p, rep)
    check_measured(p, rep)
    check_build(p, rep)
    check_iterate(p, rep)


def check_root(p, rep, adt, fn, fps, carriers, required, is_carrier):
    name = adt.split('::')[-1]
    is_next = fn.name == '__next__'
    g = mir.Graph(p, fn)
    for K, fp in sorted(fps.items()):
        if is_carrier and (adt, K) not in required:
            continue  # the owner enforces this constraint itself
        # hand over to a carrier
        hand, hand_to = set(), set()
        for nid, pl, rv, ln in g.aggs():
            if rv[1] in carriers and rv[1] != adt:
                cps = field_paths(p, rv[1])
                if K in cps and cps[K][0][1:] in rv[3]:
                    first = cps[K][0][1:]
                    o = rv[4][rv[3].index(first)]
                    src = set() if isinstance(o, dict) else {s[2] if False else u.strip(s[2]) for s in g.sources(o) if s[0] == 'arg' and s[1] == 0}
                    want = fp[:len(fp) - len(cps[K]) + 1] if len(cps[K]) > 1 else fp
                    good = any(pj == want or (pj == () and len(cps[K]) > 1) for pj in src)
                    others = {pj for pj in src if pj[-1:] and pj[-1][1:] in KS and pj != fp}
                    rep.ob('handed-over', f'{name}.{K} -> {rv[1].split("::")[-1]}', good and not others, f'{rv[1]}.{K} is not filled from {name}.{K}: the limit is not enforced', g.where(nid))
                    rep.count('constraints handed to a helper')
                    if good:
                        hand.add(nid)
                        hand_to.add(rv[1])
        rep.count('constraint fields')
        if is_next and hand:
            continue
        enodes_all = set(err_nodes(g, errs_of(K)))
        cmps_seen = {}
        for label, rel, extra, violating, errs in assumptions_for(K, is_float_limit(p, adt, fp)):
            idx = False
            a = Assume(g, 0, fp, K, rel, not violating)
            sd = seeds(g, fp, K, extra)
            f = fl.Flow(g, assume=a, seed=sd)
            cm = set(a.cmps)
            cmps_seen.update(a.cmps)
            viol = violating
            if K == 'max_length' and is_next:
                # the value compared is the index of the item about to be returned
                idx = all(index_like(g, a, x) for x in a.cmps.values()) if a.cmps else False
                if idx:
                    viol = rel in (EQ, GT)
            key = f'{name}.{K} ({label})'
            en = {n for n in err_nodes(g, errs) if shows(g, n, errs, K, fp)}
            oks = set(f.exits_with('Ok'))
            if is_next:
                # an item is returned (Some) for the upper limit, the iteration ends (None) for the lower one
                other = 'None' if K == 'max_length' else 'Some'
                oks = {i for i in oks if f.env(i).get((g.ret_local, ('@Ok', '.0'))) in ((None, 'Some') if K == 'max_length' else ('None',))}
            if hand and viol and f.reach(f.entry_states()) & oks:
                required |= {(c, K) for c in hand_to}
            r = f.reach(f.entry_states(), avoid=hand)
            rn = {f.states[i][0] for i in r}
            if viol:
                hit = r & oks
                if not hit:
                    rep.ob('enforced', key, True, f'{len(cm)} comparisons', u.where(fn))
                    rep.ob('error', key, bool(en & rn) or bool(hand), f'no {"/".join(sorted(errs))} error is raised for the violation', u.where(fn))
                else:
                    ok, why = loop_form(p, g, f, a, hand, oks, is_next)
                    fall = sorted(hit)[0]
                    f.reach(f.entry_states(), avoid=hand)
                    rep.ob('enforced', key, ok and bool(cm), why or f'a value that violates `{K}` is accepted on the path {f.describe_path(fall)}', u.where(fn))
                    if cm:
                        rep.ob('error', key, bool(en & rn), f'no {"/".join(sorted(errs))} error is raised for the violation', u.where(fn))
            else:
                rep.ob('not-overreaching', key, not (en & rn), f'a value that satisfies `{K}` is rejected with {"/".join(sorted(errs))}', u.where(fn))
        rep.count('comparisons of value and constraint', len(cmps_seen))
        # context of the error
        fieldname = FIELD.get(K, K)
        for nid, pl, rv, ln in g.aggs():
            if rv[1] in VERR and rv[2] in errs_of(K) and fieldname in rv[3]:
                o = rv[4][rv[3].index(fieldname)]
                src = {u.strip(s[2]) for s in g.sources(o) if s[0] == 'arg' and s[1] == 0} if not isinstance(o, dict) else set()
                mine = any(pj[:len(fp)] == fp for pj in src)
                other = {pj for pj in src if any(e[1:] in KS - {K} for e in pj if e.startswith('.'))}
                if hand and not src or not any(any(e[1:] in KS for e in pj) for pj in src) and src:
                    continue
                rep.ob('error', f'{name}.{K} limit shown by {rv[2]}', mine and not other, f'the error shows a limit that is not the declared `{K}`', g.where(nid))
                rep.count('errors that show a limit')


FIELD = {'version': 'expected_version', 'allowed_schemes': 'expected_schemes'}


def shows(g, nid, errs, K, fp):
    """the error built at nid belongs to this constraint: it shows no limit, or (also) this one"""
    fld = FIELD.get(K, K)
    res = []
    for n, pl, rv, ln in g.aggs():
        if n == nid and rv[1] in VERR and rv[2] in errs and fld in rv[3]:
            o = rv[4][rv[3].index(fld)]
            src = {u.strip(s[2]) for s in g.sources(o) if s[0] == 'arg' and s[1] == 0} if not isinstance(o, dict) else set()
            res.append(not src or any(pj[:len(fp)] == fp or any(e[1:] in KS for e in pj) for pj in src))
    return any(res) if res else True


def index_like(g, a, cmp):
    """the compared value is a counter read before this call increments it (number of items returned so far)"""
    op, x, y = cmp
    v = x if a.hasK(y) else y
    if isinstance(v, dict):
        return False
    # follow copies (not arithmetic) back to reads of a place ending in .index
    todo, seen, reads = [v[0]], set(), []
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        for dp, rv, nd in g.defs.get(l, ()):
            ops = []
            if rv[0] == 'use':
                ops = [rv[1]]
            elif rv[0] in ('adt', 'tuple', 'array', 'agg'):
                ops = [o for z in rv[1:] if isinstance(z, tuple) for o in z if isinstance(o, tuple) and len(o) == 2 and isinstance(o[0], int)]
            elif rv[0] == 'call' and rv[1].inlined:
                ops = [x for x in ()]
            for o in ops:
                if isinstance(o, dict):
                    continue
                if o[1][-1:] == ('.index',):
                    reads.append(nd)
                else:
                    todo.append(o[0])
    incs = [n.id for n in g.nodes for pl, rv, ln in n.stmts if pl[1][-1:] == ('.index',)]
    if not reads:
        src = g.sources(v)
        return any(s[0] == 'call' and s[1].split('::')[-1] in ('next', 'enumerate') for s in src) or any(s[0] == 'arg' and u.strip(s[2])[-1:] == ('.index',) for s in src)
    # reads that an increment reaches see the incremented counter
    late = set()
    todo = [t for n in incs for _, t in g.nodes[n].succ]
    while todo:
        n = todo.pop()
        if n in late:
            continue
        late.add(n)
        todo += [t for _, t in g.nodes[n].succ]
    return not any((r if isinstance(r, int) else r.id) in late for r in reads)


def loop_form(p, g, f, a, hand, oks, is_next):
    """the check sits inside a loop or callback: decide per accepted item"""
    cm = set(a.cmps)
    if not cm:
        return False, 'the limit is never compared with the value'
    # a failed comparison never leads to acceptance
    inside = {n for n in cm if any(in_frame(g, n, g.nodes[e].frame) for e, an in closure_accepts(p, g))}
    st = f.nodes_states(cm - inside)
    # (start after the comparison: same node's successors)
    nxt = [j for i in st for _, j in f.succ[i]]
    r = f.reach(nxt, avoid=hand)
    for e, an in closure_accepts(p, g):
        mine = {n for n in cm if in_frame(g, n, g.nodes[e].frame)}
        outs = {n.id for n in g.nodes if n.frame is g.nodes[e].frame.parent}
        r1 = f.reach([j for i in f.nodes_states(mine) for _, j in f.succ[i]], avoid=outs)
        if {f.states[i][0] for i in r1} & set(an):
            return False, 'a violated limit does not stop the item from being accepted'
    if r & oks:
        return False, 'a violated limit does not stop the value from being accepted'
    acc = accept_nodes(p, g, f)
    cls = closure_accepts(p, g)
    cls = [(e, an) for e, an in cls if any(g.nodes[n].frame and in_frame(g, n, g.nodes[e].frame) for n in cm)]
    if is_next:
        acc = {nid for nid, pl, rv, ln in g.aggs(mir.OPT, 'Some') if returns_item(g, nid, pl)}
        r = f.reach(f.entry_states(), avoid=cm | hand)
        some_exit = [i for i in r if i in oks and f.env(i).get((g.ret_local, ('@Ok', '.0'))) != 'None']
        if some_exit:
            f.reach(f.entry_states(), avoid=cm | hand)
            return False, f'an item is returned without checking the limit on the path {f.describe_path(some_exit[0])}'
        return True, ''
    if not acc and not cls:
        return False, ''
    if not cls and not any(in_cycle(g, n) for n in cm):
        return False, ''  # compared once, outside any loop: every accepting path has to pass it
    bad = ''
    for n in sorted(acc):
        if not f.at.get(n):
            continue
        after = [j for i in f.at[n] for _, j in f.succ[i]]
        r1 = {f.states[i][0] for i in f.reach(after, avoid=cm | hand)}
        post = not (r1 & acc) and g.exit.id not in {f.states[i][0] for i in f.reach(after, avoid=cm | hand) if i in oks}
        r2 = {f.states[i][0] for i in f.reach(f.entry_states(), avoid=cm | hand)}
        pre = n not in r2 and n not in r1
        if not (post or pre):
            bad = f'an item is accepted at {g.where(n)} without checking the limit'
    for e, an in cls:
        st = f.at.get(e, [])
        r1 = {f.states[i][0] for i in f.reach(st, avoid=cm | hand)}
        if r1 & set(an):
            bad = f'an item is accepted at {g.where(an[0])} without checking the limit'
    return (not bad), bad


def in_cycle(g, n):
    seen, work = set(), [t for _, t in g.nodes[n].succ]
    while work:
        x = work.pop()
        if x == n:
            return True
        if x not in seen:
            seen.add(x)
            work += [t for _, t in g.nodes[x].succ]
    return False


def in_frame(g, n, fr):
    x = g.nodes[n].frame
    while x is not None:
        if x is fr:
            return True
        x = x.parent
    return False


def returns_item(g, nid, pl):
    return True


def check_orientation(p, rep):
    """local PartialOrd/Ord impls: operands of the inner comparison come from self on the left and other on the right"""
    for trait, m in (('std::cmp::PartialOrd', 'partial_cmp'), ('std::cmp::Ord', 'cmp')):
        for st, fn in p.trait_impls(trait, m):
            d = st.get('d') or st['s']
            if not (d.startswith('input::') or d.startswith('validators::')):
                continue
            g = mir.Graph(p, fn)
            for c in g.calls:
                if c.m in ('partial_cmp', 'cmp') and len(c.args) == 2 and not c.inlined:
                    l, r = {x[0] for x in u.args_from(g, c.args[0])}, {x[0] for x in u.args_from(g, c.args[1])}
                    ok = l <= {0} and r <= {1} and l and r
                    if (not l or not r):
                        continue
                    rep.ob('orientation', f'{d}::{m}', ok, 'the comparison of this type compares other with self: every limit is enforced in the wrong direction', g.where(c.node))
                    rep.count('local comparison operators')
            f = fl.Flow(g)
            for n in g.nodes:
                for pl, rv, ln in n.stmts:
                    if rv[0] == 'bin' and rv[1] in ('Lt', 'Gt', 'Le', 'Ge') and not any(isinstance(o, dict) for o in rv[2:4]):
                        pass


def check_measured(p, rep):
    for st, fn in p.trait_impls('validators::Validator', 'validate'):
        adt = st.get('d') or st['s']
        a = p.adts.get(adt)
        if not a or a.k != 'struct':
            continue
        names = {f[0] for f in a.fields()}
        if 'strip_whitespace' not in names:
            continue
        g = mir.Graph(p, fn)
        for K in ('min_length', 'max_length', 'pattern'):
            fp = field_paths(p, adt).get(K)
            if fp is None:
                continue
            am = Assume(g, 0, fp, K, EQ, True)
            f = fl.Flow(g, assume=am, seed=seeds(g, fp, K))
            for nid, (op, x, y) in sorted(am.cmps.items()):
                v = y if am.hasK(x) and not am.hasK(y) else x
                src = g.sources(v)
                cs = {s[1].split('::')[-1] for s in src if s[0] == 'call'}
                rep.ob('measured', f'{K} uses the stripped text', 'trim' in cs, f'`{K}` is checked against the text before whitespace is stripped', g.where(nid))
                if K != 'pattern':
                    rep.ob('measured', f'{K} counts characters', 'chars' in cs and 'count' in cs, f'`{K}` is not compared with the number of characters', g.where(nid))
                rep.count('measured texts')
        # with strip set, the result derives from the trimmed text; to_lower / to_upper are applied when set
        s0 = self_local(g)
        trim = [c for c in g.calls if c.m == 'trim' and not c.inlined]
        for field, call in (('strip_whitespace', 'trim'), ('to_lower', 'to_lowercase'), ('to_upper', 'to_uppercase')):
            for val in (True, False):
                sd = {(s0, ('.' + field,)): val}
                for o in ('to_lower', 'to_upper'):
                    if o != field:
                        sd[(s0, ('.' + o,))] = False
                f = fl.Flow(g, seed=sd)
                cn = {c.node for c in g.calls if c.m == call and not c.inlined}
                if val:
                    r = f.reach(f.entry_states(), avoid=cn)
                    rep.ob('measured', f'{field} applied', cn and not (r & set(f.exits_with('Ok'))), f'`{field}` is set but the text is returned without it', u.where(fn))
                else:
                    r = {f.states[i][0] for i in f.reach(f.entry_states())}
                    rep.ob('measured', f'{field} only when set', not (cn & r), f'the text is changed although `{field}` is not set', u.where(fn))
        # what is returned with strip on comes from the trimmed string
        for c in g.calls:
            if c.m in ('maybe_cached_str', 'to_lowercase', 'to_uppercase') and not c.inlined:
                cs = {s[1].split('::')[-1] for s in g.sources(c.args[-1]) if s[0] == 'call'}
                rep.ob('measured', f'{c.m} receives the stripped text', 'trim' in cs, 'the returned text is not the text that was checked', g.where(c.node))
        f = fl.Flow(g, seed={(s0, ('.strip_whitespace',)): True})
        orig = {c.node for c in g.calls if c.m == 'as_py_string'}
        r = {f.states[i][0] for i in f.reach(f.entry_states())}
        rep.ob('measured', 'stripped text returned', not (orig & r), 'with strip_whitespace set the original (unstripped) string object can be returned', u.where(fn))


class KeyPresent:
    """assume that schema[K] (and only what is asked) is present"""

    def __init__(self, g, keys):
        self.g, self.keys = g, keys
        self.memo = {}
        self.hits = set()

    def call(self, c):
        if id(c) in self.memo:
            return self.memo[id(c)]
        r = None
        if not c.inlined and c.m in ('get_as', 'get_item', 'schema_or_config', 'schema_or_config_same', 'get_as_req'):
            for a in c.args[1:]:
                t = self.g.sources(a) if not isinstance(a, dict) else {self.g._const(a)}
                if any(s[0] == 'str' and s[1] in self.keys for s in t):
                    r = {('@Ok', '.0'): 'Some'}
                    self.hits.add(c.node)
        self.memo[id(c)] = r
        return r

    def bin(self, rv, node):
        return None

    def discr(self, key, node, adt):
        return None

    def boolean(self, place, node):
        return None


CONFIG_KEY = {'min_length': {'str_min_length'}, 'max_length': {'str_max_length'}}
SCHEMA_KEY = {'today': 'now_op', 'now': 'now_op', 'tz': 'tz_constraint'}


def build_noinline(path):
    return path.startswith(('tools::', 'build_tools::', 'input::', '<input::')) or path.endswith('::build_validator') or '::build_specific' in path


def check_build(p, rep):
    for st, fn in sorted(p.trait_impls('validators::BuildValidator', 'build'), key=lambda x: x[1].path):
        g = mir.Graph(p, fn, noinline=build_noinline)
        owners = {}
        for nid, pl, rv, ln in g.aggs():
            if rv[1].startswith('validators::') and rv[1] in p.adts and p.adts[rv[1]].k == 'struct':
                for name, o in zip(rv[3], rv[4]):
                    if name in KS and rv[1] != 'validators::string::Pattern':
                        owners.setdefault(name, []).append((nid, rv, o))
        if not owners:
            continue
        for K, lst in sorted(owners.items()):
            key = SCHEMA_KEY.get(K, K)
            want = {key} | CONFIG_KEY.get(K, set())
            for nid, rv, o in lst:
                nm = rv[1].split('::')[-1]
                src = set() if isinstance(o, dict) else {s[1] for s in g.sources(o) if s[0] == 'str' and s[1].isidentifier()}
                alien = src & (((KS | {'now_op', 'tz_constraint', 'str_min_length', 'str_max_length', 'strict'}) - want))
                rep.ob('declared', f'{nm}.{K}', (key in src or K in ('today', 'now') and 'now_utc_offset' in src) and not alien, f'`{nm}.{K}` is filled from {sorted(src)}', g.where(nid))
                rep.count('constraint fields filled from a schema')
            # selected: with the key present every Ok exit passes through such an aggregate with the field filled
            if K == 'allow_inf_nan':
                continue
            asm = KeyPresent(g, {key})
            force = {o[0] for nid, rv, o in lst if not isinstance(o, dict)}
            f = fl.Flow(g, assume=asm, force_roots=force)
            if not asm.hits:
                rep.ob('selected', f'{u.tyname(p, 0) if False else fn.path}: {K}', False, f'the schema key `{key}` is never read', u.where(fn))
                continue
            good = {nid for nid, rv, o in lst}
            r = f.reach(f.entry_states(), avoid=good)
            rep.ob('selected', f'{fn.path}: {K}', not (r & set(f.exits_with('Ok'))), f'a schema with `{key}` can build a validator that does not enforce it', u.where(fn))
            rep.count('constraint keys selecting a validator')
            # nested constraints struct: the option holding it is Some
            for nid, rv, o in lst:
                if rv[1].endswith('Constraints') or 'Constraints' in rv[1].split('::')[-1]:
                    check_wrapped(p, rep, fn, g, f, asm, rv[1], K)
            if K in ('max_digits', 'decimal_places'):
                for nid, pl, rv, ln in g.aggs():
                    if 'check_digits' in rv[3]:
                        o = rv[4][rv[3].index('check_digits')]
                        vals = {f.env(i).get(f.canon(o)) for i in f.at.get(nid, ())}
                        rep.ob('selected', f'{fn.path}: check_digits with {K}', vals_true(p, g, asm, o, nid), f'`check_digits` is not set although `{K}` is declared', g.where(nid))
    rep.floor('constraint fields filled from a schema', 45)


def vals_true(p, g, asm, o, nid):
    if isinstance(o, dict):
        return o.get('v') is True
    f = fl.Flow(g, assume=asm, force_roots={fl.Flow(g).canon(o)[0], o[0]})
    vals = set()
    for i in f.at.get(nid, ()):
        e = f.env(i)
        v = e.get(f.canon(o), e.get((o[0], o[1])))
        vals.add(v if v is not None else last_value(g, f, i, o))
    return vals == {True}


def last_value(g, f, i, o):
    return None


def check_wrapped(p, rep, fn, g, f, asm, adt, K):
    """the Option that carries the constraints struct is Some where the validator is built"""
    for nid, pl, rv, ln in g.aggs():
        if not (rv[1].startswith('validators::') and p.adts.get(rv[1]) and p.adts[rv[1]].k == 'struct'):
            continue
        for (name, ti), in [((n, t),) for n, t in p.adts[rv[1]].fields()]:
            t = p.T(ti)
            if t.get('d') == mir.OPT and (p.T(t['a'][0]).get('d') == adt) and name in rv[3]:
                o = rv[4][rv[3].index(name)]
                if isinstance(o, dict):
                    rep.ob('selected', f'{rv[1].split("::")[-1]}.{name} with {K}', False, 'the constraints are dropped', g.where(nid))
                    continue
                f2 = fl.Flow(g, assume=asm, force_roots={f.canon(o)[0], o[0]})
                vals = set()
                for i in f2.at.get(nid, ()):
                    # evaluate the node's own statements up to the aggregate
                    env = f2.env(i)
                    for pl2, rv2, ln2 in g.nodes[nid].stmts:
                        if rv2 is rv:
                            break
                        f2._assign(env, pl2, rv2, g.nodes[nid])
                    vals.add(env.get(f2.canon(o), env.get((o[0], o[1]))))
                rep.ob('selected', f'{rv[1].split("::")[-1]}.{name} with {K}', vals == {'Some'}, f'a schema with `{K}` builds a validator without its constraints', g.where(nid))
                rep.count('constraint groups built')


def check_iterate(p, rep):
    for trait in ('input::input_abstract::ValidatedList', 'input::input_abstract::ValidatedTuple', 'input::input_abstract::ValidatedSet', 'input::input_abstract::ValidatedDict'):
        for st, fn in p.trait_impls(trait, 'iterate'):
            d = st['s']
            if d == '!' or 'Never' in d:
                continue
            g = mir.Graph(p, fn)
            f = fl.Flow(g)
            cs = [c for c in g.calls if c.m == 'consume_iterator' and not c.inlined]
            if not cs:
                # delegates to another iterate
                cs = [c for c in g.calls if c.m in ('iterate', 'generic_iterate') and not c.inlined]
            r = f.reach(f.entry_states(), avoid={c.node for c in cs})
            oks = set(f.exits_with('Ok'))
            diverges = not oks
            rep.ob('iterate', f'{trait.split("::")[-1]} for {d}', diverges or (cs and not (r & oks)), 'items of this collection are not handed to the validator', u.where(fn))
            for c in cs:
                al = {x[0] for x in u.args_from(g, c.args[0])} if c.m == 'consume_iterator' else {1}
                rep.ob('iterate', f'{trait.split("::")[-1]} for {d} consumer', 1 in al, 'the consumer of the items is not the one passed in', g.where(c.node))
                src = g.sources(c.args[-1]) if c.m == 'consume_iterator' else ()
                bad = sorted({s[1].split('::')[-1] for s in src if s[0] == 'call'} & {'skip', 'take', 'step_by', 'filter', 'filter_map', 'rev', 'skip_while', 'take_while', 'chain', 'dedup'})
                rep.ob('iterate', f'{trait.split("::")[-1]} for {d} items', not bad, f'the items are passed through {bad} before they are validated', g.where(c.node))
            rep.count('collections iterated')

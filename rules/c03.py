"""C03: partial validation ignores errors only in the last element of sequences and mappings."""
import mir
import flow as fl
import util as u
import c10
import c20

MODE = 'Trailing'   # the mode the validation was called with: any active one


class Part(c20.Scene):
    """partial mode is active; the part looked at is (not) the last one"""

    def __init__(self, g, last, node=None, outcome=None, facts=None):
        c20.Scene.__init__(self, g, node, outcome, facts=facts)
        self.last = last

    def call(self, c):
        g = self.g
        if c.node == self.node:
            return self.outcome
        if c.inlined:
            return None
        if c.m == 'is_active':
            return {(): True}
        if c.m in ('into', 'from') and c20.ty(g, c.dest).endswith('PartialMode') and isinstance(c.args[0], dict):
            return {(): 'On' if c.args[0].get('v') else 'Off'}
        if c.m == 'next' and 'EnumerateLastPartial' in c20.ty(g, c.args[0]):
            return {('@Some', '.0', '.1'): self.last}
        if c.m == 'last_key':
            return {(): 'Some'}
        if c.m in ('eq', 'ne') and any('LocItem' in c20.ty(g, a) for a in c.args):
            return {(): self.last == (c.m == 'eq')}
        if c.m == 'next' and 'ValLineError' in c20.ty(g, c.args[0]):
            return {(): 'Some'}


def mode(g):
    seed = {k: MODE for k in c20.off(g)}
    for l in g.arg_locals:
        a = g.p.adts.get(u.tyname(g.p, g.ltypes[l])) if g.ltypes[l] is not None else None
        if a is not None and a.k == 'struct':
            for nm, ft in a.variants[0][2]:
                if g.p.ts(ft).endswith('PartialMode'):
                    seed[(l, ('.' + nm,))] = MODE
    return seed


def writes(g):
    """nodes which change the mode of a state: [(node, statement or 'call')]"""
    out = []
    for n in g.nodes:
        for k, (pl, rv, ln) in enumerate(n.stmts):
            if is_mode(g, pl):
                out.append((n.id, k))
        if n.term[0] == 'call' and not isinstance(n.term[1].dest, dict) and is_mode(g, n.term[1].dest):
            out.append((n.id, 'dest'))
    return out


def is_mode(g, pl):
    return bool(pl and pl[1]) and pl[1][-1] == '.allow_partial' and g.ltypes[pl[0]] is not None and u.tyname(g.p, g.ltypes[pl[0]]) == c20.STATE


class Scenario:
    """one function, with the part looked at last or not: what each write writes"""

    def __init__(self, g, last, assume=None, seed=None, facts=None):
        self.g = g
        self.w = writes(g)
        self.f = f = fl.Flow(g, seed=mode(g) if seed is None else seed, assume=assume or Part(g, last, facts=facts), watch=[(n, k) for n, k in self.w if k != 'dest'])
        self.live = f.reach(f.entry_states())
        self.kind = {}
        for n, k in self.w:
            vals = set()
            for s in set(f.at.get(n, ())) & self.live:
                if k == 'dest':
                    c = g.nodes[n].term[1]
                    v = (f.assume.call(c) or {}).get(()) if hasattr(f, 'assume') else None
                    if v is None and c.m in ('into', 'from') and isinstance(c.args[0], dict):
                        v = 'On' if c.args[0].get('v') else 'Off'
                    vals.add(v)
                else:
                    vals.add(f.values(s, k)[0].get(()))
            if vals:
                self.kind[n] = vals

    def nodes(self, *kinds):
        return {n for n, v in self.kind.items() if v <= set(kinds)}

    def starts(self, *kinds):
        """states right after the writes of other kinds"""
        return [t for n, v in self.kind.items() if not v <= set(kinds) for s in self.f.at[n] if s in self.live for _, t in self.f.succ[s]]

    def only_off(self, node, entry=True):
        f = self.f
        r = f.reach((list(f.entry_states()) if entry else []) + self.starts('Off'), avoid=self.nodes('Off'))
        return not (set(f.at.get(node, ())) & r)

    def only_entry(self, node):
        f = self.f
        r = f.reach(self.starts(MODE), avoid=self.nodes(MODE))
        return not (set(f.at.get(node, ())) & r)


def run(p, rep, tier):
    rep.rule('writes', 'a validator only ever turns the partial mode off or puts back the mode it was called with')
    rep.rule('tail', 'a part which is not the last of a sequence or mapping, and every default, is validated with the mode off')
    rep.rule('passed-on', 'the last part is validated with the mode the whole is validated with')
    rep.rule('kept', 'errors are dropped only of a last part which is validated in partial mode; those of keys, required fields and other parts are kept')
    rep.rule('inactive', 'with the mode off no errors are dropped')
    rep.rule('last', 'the last item is the one after which there is none, in partial mode only')
    carriers = {}
    for path, fn, g, ss, cc in c20.groups(p):
        nm = c20.short(path)
        coll = {c.node for c in cc}
        no, yes = Scenario(g, False), Scenario(g, True)
        w = u.where(fn)
        rep.count('composites')
        for sc in (no, yes):
            for n, v in sc.kind.items():
                rep.ob('writes', nm, v <= {'Off', MODE}, f'writes {v}', g.where(n))
        takes_state = any('ValidationState' in c20.ty(g, (l, ())) for l in g.arg_locals)
        own = bool(no.w)
        knows = [c for c in ss if c.m == 'validate' and own and not all(sc.only_off(c.node) for sc in (yes,))]
        for c in ss:
            if c.m == 'get_item':
                continue
            key = f'{nm}: {c.m}'
            if not own and not takes_state:
                carriers.setdefault(u.tyname(p, fn.locals[1]), nm)
                rep.ob('tail', key, True, '', g.where(c.node))
            else:
                rep.ob('tail', key, no.only_off(c.node), 'a part which is not the last is validated in partial mode', g.where(c.node))
                if c.m == 'default_value':
                    rep.ob('tail', key + ' (last)', yes.only_off(c.node), 'a default is validated in partial mode', g.where(c.node))
            rep.count('parts')
            if c.m != 'validate':
                continue
            # errors of the last part
            last = own and not yes.only_off(c.node)
            for required in (True, False):
                if last and not required:
                    continue
                if last and not asks_required(g):
                    continue
                facts = {'.required': required}
                f = fl.Flow(g, seed=mode(g), assume=Part(g, True, c.node, {(): 'Err', ('@Err', '.0'): 'LineErrors'}, facts=facts))
                r = c20.after(f, c.node, coll)
                ends = {f.exit_variant(s) for s in r & set(f.exits)}
                nexts = [s for x in g.calls if not x.inlined and x.m == 'next' and 'ValLineError' in c20.ty(g, x.args[0]) for s in f.at.get(x.node, ()) if s in r]
                idle = any(s in f.reach([t for _, t in f.succ[s] if f.states[t][0] not in coll], avoid=coll) for s in nexts)
                rep.ob('kept', key + (', required' if required else ''), not ends - {'Err'} and not idle, 'errors of a part which is not cut off are dropped', g.where(c.node))
                rep.count('outcomes')
        if knows:
            rep.ob('passed-on', nm, any(yes.only_entry(c.node) for c in knows), 'no part is validated with the mode of the whole', w)
            rep.count('tails')
    inactive(p, rep)
    for ty, nm in sorted(carriers.items()):
        built = 0
        for path, fn in sorted(p.fns.items()):
            if '{closure' in path or not path.lstrip('<').startswith(('validators::', 'input::')):
                continue
            if 'ValError' not in p.ts(fn.locals[0]):
                continue
            g = u.graph(p, fn, noinline=c10.opaque)
            at = [n.id for n in g.nodes if any(rv[0] == 'adt' and rv[1] == ty for pl, rv, ln in n.stmts)]
            if not at:
                continue
            sc = Scenario(g, True)
            for n in at:
                rep.ob('tail', f'{nm} in {c20.short(path)}', sc.only_off(n), 'its parts are validated in partial mode', g.where(n))
                built += 1
        rep.ob('tail', f'{nm}: made', built > 0, f'{ty} is never made', '')
        rep.count('carriers')
    enumerate_(p, rep)
    rep.floor('composites', 10)
    rep.floor('parts', 35)
    rep.floor('tails', 4)


def asks_required(g):
    for n in g.nodes:
        for pl, rv, ln in n.stmts:
            for o in mir.operands_of(rv):
                if not isinstance(o, dict) and o[1] and o[1][-1] == '.required':
                    return True
    return False


class Inactive(c20.Scene):
    """the mode is off; whether a part is the last is unknown where it is not asked for"""

    def call(self, c):
        if not c.inlined and c.m == 'is_active' and c.node != self.node:
            return {(): False}
        if not c.inlined and c.m == 'next' and 'EnumerateLastPartial' in c20.ty(self.g, c.args[0]):
            return {('@Some', '.0', '.1'): False}
        return c20.Scene.call(self, c)


def inactive(p, rep):
    for path, fn, g, ss, cc in c20.groups(p):
        if not any(c.m == 'is_active' for c in g.calls):
            continue
        coll = {c.node for c in cc}
        for c in ss:
            if c.m != 'validate':
                continue
            for required in (True, False):
                f = fl.Flow(g, seed=c20.off(g), assume=Inactive(g, c.node, {(): 'Err', ('@Err', '.0'): 'LineErrors'}, facts={'.required': required}))
                r = c20.after(f, c.node, coll)
                ends = {f.exit_variant(s) for s in r & set(f.exits)}
                rep.ob('inactive', f'{c20.short(path)}: {c.m}, required {required}', not ends - {'Err'}, 'errors are dropped without partial mode', g.where(c.node))
                rep.count('outcomes')


def enumerate_(p, rep):
    fn = [f for n, f in sorted(p.fns.items()) if '{closure' not in n and 'EnumerateLastPartial' in n and n.endswith('::next')]
    if not rep.ob('last', 'EnumerateLastPartial::next', len(fn) == 1, 'not found'):
        return
    fn = fn[0]
    g = u.graph(p, fn)
    w = u.where(fn)
    nx = [c for c in g.calls if not c.inlined and c.m == 'next']
    act = [c for c in g.calls if not c.inlined and c.m == 'is_active']
    if not rep.ob('last', 'parts', bool(nx) and bool(act), f'{len(nx)} {len(act)}', w):
        return
    for c in act:
        rep.ob('last', 'mode', any(s[0] == 'arg' and s[2][-1:] == ('.allow_partial',) for s in g.sources(c.args[0])), 'the mode asked is another', g.where(c.node))
    for active in (True, False):
        for more in ('Some', 'None'):
            class A(fl.Assume):
                def call(self, c):
                    if c.inlined:
                        return None
                    if c.m == 'next':
                        return {(): more}
                    if c.m == 'is_active':
                        return {(): active}
                    if c.m == 'replace':
                        return {(): 'Some'}
                    if c.m in ('is_none', 'is_some'):
                        return {(): (more == 'None') == (c.m == 'is_none')}

                def discr(self, key, node, adt):
                    if key and key[1][-1:] == ('.next_item',):
                        return more
            f = fl.Flow(g, assume=A())
            live = f.reach(f.entry_states())
            got = {(f.exit_variant(s), f.exit_variant(s, ('@Some', '.0', '.1'))) for s in live & set(f.exits)}
            want = active and more == 'None'
            rep.ob('last', f'active {active}, next {more}', {x for x in got if x[0] != 'None'} == {('Some', want)}, f'{got}', w)
            rep.count('cases')

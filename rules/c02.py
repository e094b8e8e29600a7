"""C02 - recursion guard: balanced bookkeeping, every re-entry guarded, one shared state per call."""
import mir
import flow as fl
import util as u

ASSUMPTIONS = ['A Python object keeps its address while a guard for it is alive (the caller holds a reference).',
               'Recursion over the schema tree itself is finite: only definition references and type-inferred serialization can re-enter a node.']
NEW = 'recursion_guard::RecursionGuard'
STATE_TYPES = ('recursion_guard::RecursionState', 'serializers::extra::SerRecursionState')


def is_new(c):
    return c.m == 'new' and c.name.startswith(NEW)


def guard_creations(g):
    return [c for c in g.calls if is_new(c)]


def noin(path):
    return path.startswith(NEW) and not path.endswith('{closure#0}') and '::new' in path or u.ser_noinline(path)


def noin_infer(path):
    # keep the recursion guard and the re-entry points opaque, splice the helpers of the inference module
    if path.startswith(NEW):
        return True
    return path.startswith(('serializers::ob_type::', 'serializers::filter::', 'serializers::extra::CollectWarnings', 'serializers::shared::PydanticSerializer')) or path in INFER_ENTRY


INFER_ENTRY = set()


def new_ok_states(f, c):
    """states right after the guard of call c was created: the Ok side of the branch(es) on its result"""
    return f


def check_new(p, rep):
    rep.rule('balanced', 'creating a guard registers (object, node) and increments the depth exactly when it succeeds; a failed creation leaves the state as it was')
    rep.rule('released', 'dropping a guard removes the same (object, node) and decrements the depth, on every path')
    impls = [fn.path for _, fn in p.trait_impls('recursion_guard::ContainsRecursionState', 'access_recursion_state')]
    rep.count('state accessors', len(impls))
    new = [f for f in p.fns.values() if f.path.startswith(NEW) and f.name == 'new' and f.kind == 'assoc']
    if not rep.ob('anchor', 'guard constructor', len(new) == 1, 'constructor of the recursion guard not found'):
        return
    new = new[0]
    drop = [f for f in p.fns.values() if f.path.startswith('<' + NEW) and f.name == 'drop' and f.kind == 'assoc']
    if not rep.ob('anchor', 'guard drop', len(drop) == 1, 'the recursion guard has no Drop implementation', u.where(new)):
        return
    drop = drop[0]
    for ip in sorted(impls):
        tag = u.tyname(p, p.fns[ip].locals[1]) or ip
        keep = lambda path: path.startswith('recursion_guard::RecursionStack')
        g = mir.Graph(p, new, noinline=keep, devirt={'access_recursion_state': ip})
        f = fl.Flow(g)
        ins = [c for c in g.calls if c.m == 'insert' and 'RecursionStack' in c.name]
        rem = [c for c in g.calls if c.m == 'remove' and 'RecursionStack' in c.name]
        inc, dec = depth_writes(g)
        rep.count('guard bookkeeping operations', len(ins) + len(inc))
        oks, errs = set(f.exits_with('Ok')), set(f.exits_with('Err'))
        # success registers both
        r = f.reach(f.entry_states(), avoid={c.node for c in ins})
        rep.ob('balanced', f'{tag}: success inserts', ins and not (r & oks), 'a guard can be created without registering the object: cyclic data is not detected', u.where(new))
        r = f.reach(f.entry_states(), avoid=set(inc))
        rep.ob('balanced', f'{tag}: success increments', inc and not (r & oks), 'a guard can be created without increasing the depth: deep data overflows the stack', u.where(new))
        # failure leaves nothing behind: follow the insert's true edge / the write to depth
        for c in ins:
            st = true_edge_states(g, f, c)
            rep.ob('balanced', f'{tag}: insert result used', st is not None, 'the result of the insertion is not tested: a repeated object is not reported', g.where(c.node))
            if st is None:
                continue
            yes, no = st
            r = f.reach(yes, avoid={x.node for x in rem})
            rep.ob('balanced', f'{tag}: failure removes', not (r & errs), 'creation can fail after registering the object and leave it registered: later data repeating this object is reported as recursive', g.where(c.node))
            r = f.reach(no)
            rep.ob('balanced', f'{tag}: repeated object fails', not (r & oks), 'a guard is created although the object is already being processed', g.where(c.node))
            r2 = f.reach(no)
            rn = {f.states[i][0] for i in r2}
            rep.ob('balanced', f'{tag}: repeated object untouched', not any(x.node in rn for x in rem) and not any(n in rn for n in inc), 'a rejected (repeated) object changes the bookkeeping of the guard that is still alive', g.where(c.node))
            keys = [u.args_from(g, a) for a in c.args[1:]]
            al = {x for k in keys for x in k}
            rep.ob('balanced', f'{tag}: key', {(1, ()), (2, ())} <= al, 'the registered key does not contain both the object id and the node id', g.where(c.node))
            for x in rem:
                al = {y for a in x.args[1:] for y in u.args_from(g, a)}
                rep.ob('balanced', f'{tag}: undo key', {(1, ()), (2, ())} <= al, 'a failed creation removes another key than the one it inserted', g.where(x.node))
        for n in inc:
            r = f.reach([j for i in f.at.get(n, ()) for _, j in f.succ[i]], avoid=set(dec))
            rep.ob('balanced', f'{tag}: failure keeps depth', not (r & errs), 'creation can fail after increasing the depth: the depth budget of later siblings is used up', g.where(n))
            r = f.reach([j for i in f.at.get(n, ()) for _, j in f.succ[i]])
            rn = {f.states[i][0] for i in r if True}
            rep.ob('balanced', f'{tag}: one increment', not any(m in rn for m in inc), 'the depth is increased twice for one guard', g.where(n))
        # the depth limit really decides
        lim = [n.id for n in g.nodes for pl, rv, ln in n.stmts if rv[0] == 'bin' and any(mentions_limit(g, o) for o in (rv[2], rv[3]))]
        chk = [c for c in g.calls if c.m == 'checked_add']
        rep.ob('balanced', f'{tag}: limit', bool(lim or chk), 'the depth is never compared with the limit', u.where(new))
        # guard's own fields hold the key
        for nid, pl, rv, ln in g.aggs(NEW):
            d = dict(zip(rv[3], rv[4]))
            rep.ob('balanced', f'{tag}: guard remembers object', (1, ()) in u.args_from(g, d['obj_id']) and (2, ()) not in u.args_from(g, d['obj_id']), 'the guard does not remember the object it registered', g.where(nid))
            rep.ob('balanced', f'{tag}: guard remembers node', (2, ()) in u.args_from(g, d['node_id']) and (1, ()) not in u.args_from(g, d['node_id']), 'the guard does not remember the node it registered', g.where(nid))
        # drop
        g = mir.Graph(p, drop, noinline=keep, devirt={'access_recursion_state': ip})
        f = fl.Flow(g)
        rem = [c for c in g.calls if c.m == 'remove' and 'RecursionStack' in c.name]
        inc, dec = depth_writes(g)
        for what, nodes in (('remove', [c.node for c in rem]), ('decrement', dec)):
            r = f.reach(f.entry_states(), avoid=set(nodes))
            rep.ob('released', f'{tag}: {what}', nodes and not (r & set(f.exits)), f'dropping a guard does not {what}: later data is reported as recursive', u.where(drop))
        for x in rem:
            al = {y for a in x.args[1:] for y in u.args_from(g, a)}
            rep.ob('released', f'{tag}: key', {(0, ('.obj_id',)), (0, ('.node_id',))} <= al, 'a dropped guard removes another key than the one it registered', g.where(x.node))
        rep.ob('released', f'{tag}: no increment', not inc, 'dropping a guard increases the depth', u.where(drop))


def mentions_limit(g, o):
    return any(x[0] == 'named' and 'RECURSION_GUARD_LIMIT' in x[1] for x in g.sources(o))


def depth_writes(g):
    """nodes writing the depth field: (increments, decrements)"""
    inc, dec = [], []
    for n in g.nodes:
        for pl, rv, ln in n.stmts:
            if u.strip(pl[1])[-1:] == ('.depth',):
                src = set()
                if rv[0] in ('use', 'cast'):
                    src = g.sources(rv[1] if rv[0] == 'use' else rv[2])
                elif rv[0] == 'bin':
                    src = {('bin', rv[1])}
                add = any(s == ('bin', 'Add') or s[0] == 'bin' and s[1].startswith('Add') or s[0] == 'call' and s[1].split('::')[-1] in ('saturating_add', 'checked_add', 'wrapping_add') for s in src)
                sub = any(s[0] == 'bin' and s[1].startswith('Sub') or s[0] == 'call' and s[1].split('::')[-1] in ('saturating_sub', 'checked_sub', 'wrapping_sub') for s in src)
                if add and not sub:
                    inc.append(n.id)
                elif sub and not add:
                    dec.append(n.id)
                else:
                    inc.append(n.id)
        if n.term[0] == 'call' and not n.term[1].inlined:
            c = n.term[1]
            if u.strip(c.dest[1])[-1:] == ('.depth',):
                if c.m in ('saturating_add', 'wrapping_add'):
                    inc.append(n.id)
                elif c.m in ('saturating_sub', 'wrapping_sub'):
                    dec.append(n.id)
    return inc, dec


def true_edge_states(g, f, c):
    """(states after the call's bool result was found true, ... false); None if it is not tested"""
    yes, no = [], []
    for n in g.nodes:
        if n.term[0] != 'switch' or isinstance(n.term[1], dict):
            continue
        lk = f.link.get(n.term[1][0])
        neg = False
        pl = n.term[1]
        if lk and lk[0] == 'not':
            neg, pl = True, lk[1]
        if f.canon(pl) != (c.dest[0], u.strip(c.dest[1])) and f.canon(pl)[0] != f.canon(c.dest)[0]:
            continue
        for i in f.at.get(n.id, ()):
            for lab, j in f.succ[i]:
                v = (lab == 'else') != neg
                (yes if v else no).append(j)
    if not yes and not no:
        return None
    return yes, no


# ---------------------------------------------------------------- re-entry points
def guard_locals(p, g):
    out = set()
    for gl, t in enumerate(g.ltypes):
        if t is not None and p.T(t).get('k') == 'adt' and p.T(t).get('d') == NEW:
            out.add(gl)
    return out


def protected(p, g, f, call, guards):
    """every path to `call` created a guard (Ok side) that is still alive"""
    created = {c.node for c in guards}
    gl = guard_locals(p, g)
    drops = set()
    for n in g.nodes:
        if n.term[0] == 'drop' and n.term[1][1] == () and n.term[1][0] in gl:
            drops.add(n.id)
        if n.term[0] == 'call' and n.term[1].m == 'drop' and n.term[1].name.startswith('std::mem::drop') and n.term[1].args and not isinstance(n.term[1].args[0], dict) and n.term[1].args[0][0] in gl:
            drops.add(n.id)
    # the successful creation = node that moves the guard out of the Ok/Continue payload
    live = set()
    for n in g.nodes:
        for pl, rv, ln in n.stmts:
            if pl[1] == () and pl[0] in gl and rv[0] == 'use' and not isinstance(rv[1], dict) and (u.strip(rv[1][1])[:1] in (('@Ok',), ('@Continue',))):
                live.add(n.id)
    target = call.node
    # 1. no path from entry avoiding every successful creation
    r = f.reach(f.entry_states(), avoid=live)
    hit = [i for i in r if f.states[i][0] == target]
    if hit:
        return False, 'no guard on the path ' + f.describe_path(hit[0]), hit
    # 2. not after the guard was dropped
    starts = [j for n in drops for i in f.at.get(n, ()) for _, j in f.succ[i]]
    # dropped on paths where it was alive
    r0 = f.reach([i for n in live for i in f.at.get(n, ())])
    starts = [j for n in drops for i in f.at.get(n, ()) if i in r0 for _, j in f.succ[i]]
    r = f.reach(starts, avoid=live)
    hit = [i for i in r if f.states[i][0] == target]
    if hit:
        return False, 'the guard is already released on the path ' + f.describe_path(hit[0]), hit
    return True, '', []


def check_definitions(p, rep):
    rep.rule('guarded', 'a nested call that can come back to the same node is made only while a guard for (this object, this node) is alive')
    rep.rule('guard-key', 'the guard is keyed by the identity of the object being processed and the id of the definition (or a constant reserved for type inference)')
    seen = 0
    for fn in sorted(p.fns.values(), key=lambda f: f.path):
        if fn.kind != 'assoc' or fn.d.get('itrait') not in ('validators::Validator', 'serializers::shared::TypeSerializer'):
            continue
        if fn.name not in u.VALIDATE | u.SERIALIZE:
            continue
        st = p.T(fn.d['iself'])
        ad = p.adts.get(st.get('d'))
        if ad is None or not any((p.T(ft).get('d') or '').endswith('definitions::DefinitionRef') or (p.T(ft).get('d') or '') == 'definitions::DefinitionRef' for _, _, fs in ad.variants for _, ft in fs):
            continue
        seen += 1
        g = mir.Graph(p, fn, noinline=lambda path: path.startswith(NEW) or u.ser_noinline(path))
        f = fl.Flow(g)
        guards = guard_creations(g)
        inner = [c for c in g.calls if not c.inlined and c.m in (u.VALIDATE | u.SERIALIZE) and (c.trait or '') in ('validators::Validator', 'serializers::shared::TypeSerializer')]
        name = f'{u.short(st["d"])}::{fn.name}'
        rep.count('definition-reference entry points')
        rep.ob('guarded', f'{name}: delegates', bool(inner), f'{name} never calls the referenced definition', u.where(fn))
        for c in inner:
            ok, why, hit = protected(p, g, f, c, guards)
            rep.count('nested calls through a definition reference')
            key = f'{name} -> {c.m}'
            if not ok and fn.d.get('itrait') == 'validators::Validator':
                # JSON and string input has no identity: reported under its own key
                hs = only_without_python_identity(g, f, c)
                if hs:
                    key += ' (input without Python identity)'
            rep.ob('guarded', key, ok, f'{name} calls `{c.m}` of the definition unguarded: {why}', g.where(c.node))
        for c in guards:
            check_key(p, rep, g, c, name, fn)
    rep.count('definition-reference types', seen)


def only_without_python_identity(g, f, call):
    """every unguarded path to the call passes the None side of input.as_python()"""
    some_edges = set()
    src = [c for c in g.calls if c.m == 'as_python']
    if not src:
        return False
    for n in g.nodes:
        if n.term[0] in ('switch', 'mswitch') and not isinstance(n.term[1], dict):
            lk = f.link.get(n.term[1][0])
            if lk and lk[0] == 'discr' and lk[2] == mir.OPT:
                if any(s[0] == 'call' and s[1].endswith('as_python') for s in g.sources(lk[1])):
                    for lab, tg in n.succ:
                        v = lab[1] if isinstance(lab, tuple) else g.p.adts[mir.OPT].by_discr.get(lab) if lab != 'else' else None
                        if v == 'None' or (v is None and all((x[1] if isinstance(x, tuple) else g.p.adts[mir.OPT].by_discr.get(x)) == 'Some' for x, _ in n.succ if x != 'else')):
                            some_edges.add((n.id, lab))
    if not some_edges:
        return False
    live = set()
    gl = guard_locals(g.p, g)
    for n in g.nodes:
        for pl, rv, ln in n.stmts:
            if pl[1] == () and pl[0] in gl and rv[0] == 'use' and not isinstance(rv[1], dict):
                live.add(n.id)
    r = f.reach(f.entry_states(), avoid=live, avoid_edges=some_edges)
    return not any(f.states[i][0] == call.node for i in r)


def check_key(p, rep, g, c, name, fn):
    params = value_params(p, fn)
    obj = u.args_from(g, c.args[1])
    calls = {s[1].split('::')[-1] for s in g.sources(c.args[1]) if s[0] == 'call'}
    rep.ob('guard-key', f'{name}: object', any((i, ()) in obj for i in params) and 'as_ptr' in calls, f'the guard of {name} is not keyed by the identity of the value being processed', g.where(c.node))
    node = g.sources(c.args[2])
    fromdef = any(s[0] == 'arg' and s[1] == 0 and u.strip(s[2])[:1] == ('.definition',) or s[0] == 'call' and s[1].endswith('::id') for s in node)
    const = any(s[0] == 'named' for s in node)
    rep.ob('guard-key', f'{name}: node', fromdef or const, f'the guard of {name} is not keyed by the definition', g.where(c.node))
    return node


def value_params(p, fn):
    """indices of the parameters holding the value being processed (input / obj / value / key)"""
    out = []
    for i in range(fn.d['args']):
        nm = fn.d['names'].get(str(i + 1), '')
        t = p.T(fn.locals[i + 1])
        s = t['s']
        if s.startswith('&') and ('Bound<' in s and 'Option' not in s or 'impl Input' in s or 'Input<' in s):
            out.append(i)
    return out[:1] or [1]


def check_infer(p, rep):
    """functions of the serializer that re-enter themselves through the type of the value"""
    # call graph among non-trait functions of the serializers module, closures merged into their owner
    own = {}
    for fn in p.fns.values():
        if fn.path.startswith('serializers::infer::') or fn.path.startswith('<serializers::infer::'):
            own[fn.path.split('::{closure#')[0]] = 1
    edges = {}
    for fn in p.fns.values():
        o = fn.path.split('::{closure#')[0]
        if o not in own:
            continue
        for b in fn.blocks:
            if not b:
                continue
            ts = []
            if b['t'][0] == 'call' and isinstance(b['t'][1], dict):
                ts.append(b['t'][1].get('res') or b['t'][1].get('fn'))
                ts += [a.get('res') or a.get('fn') for a in b['t'][2] if isinstance(a, dict) and 'fn' in a]
                nm = b['t'][1].get('m')
                if nm in ('serialize_element', 'serialize_entry', 'serialize_value', 'serialize') and 'SerializeInfer' in str([p.ts(x) for x in b['t'][1].get('ga', []) if isinstance(x, int)]):
                    ts.append('<serializers::infer::SerializeInfer<\'_> as serde::Serialize>::serialize')
            for t in ts:
                t = (t or '').split('::{closure#')[0]
                if t in own:
                    edges.setdefault(o, set()).add(t)

    def reach(a):
        seen, w = set(), [a]
        while w:
            x = w.pop()
            for y in edges.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    w.append(y)
        return seen
    rec = {o for o in own if o in reach(o)}
    rep.count('recursive functions of type-inferred serialization', len(rec))
    # the guarded ones
    guarded = set()
    keys = {}
    for o in sorted(rec):
        fn = p.fns[o]
        g = mir.Graph(p, fn, noinline=lambda path: path in rec or path.startswith(NEW) or path.startswith(('serializers::ob_type::', 'serializers::filter::', 'serializers::extra::CollectWarnings', 'serializers::shared::PydanticSerializer')), depth=3)
        gs = guard_creations(g)
        if not gs:
            continue
        f = fl.Flow(g)
        allok = True
        for c in g.calls:
            if c.inlined:
                continue
            tgt = c.name.split('::{closure#')[0]
            infer_elem = c.m in ('serialize_element', 'serialize_entry', 'serialize_value', 'serialize') and any(a[0] == 'adt' and 'infer::SerializeInfer' in a[1] or a[0] == 'call' and 'SerializeInfer' in a[1] for x in c.args[1:] for a in g.sources(x))
            other = c.m in u.SERIALIZE and (c.trait or '') == 'serializers::shared::TypeSerializer' or 'PydanticSerializer' in c.name and c.m == 'serialize'
            if tgt in rec or infer_elem or other:
                ok, why, hit = protected(p, g, f, c, gs)
                rep.count('re-entry calls of type-inferred serialization')
                rep.ob('guarded', f'{u.short(o)} -> {u.short(tgt) if tgt in rec else c.m}', ok, f'{o} re-enters serialization unguarded: {why}', g.where(c.node))
                allok = allok and ok
        guarded.add(o)
        for c in gs:
            node = check_key(p, rep, g, c, u.short(o), fn)
            keys[o] = [s[1] for s in node if s[0] == 'named']
    # no cycle avoiding the guarded functions
    for o in sorted(rec):
        if o in guarded:
            continue
        seen, w = set(), [o]
        cyc = False
        while w:
            x = w.pop()
            for y in edges.get(x, ()):
                if y == o:
                    cyc = True
                if y in rec and y not in guarded and y not in seen:
                    seen.add(y)
                    w.append(y)
        rep.ob('guarded', f'cycle through {u.short(o)}', not cyc, f'{o} can re-enter itself without passing a recursion guard: cyclic or endless data overflows the stack', u.where(p.fns[o]))


def check_state(p, rep):
    rep.rule('one-state', 'nested processing uses the recursion state of the call it is part of: no function that already has one starts a fresh one')
    n = 0
    for fn in sorted(p.fns.values(), key=lambda f: f.path):
        body_calls = []
        for b in fn.blocks:
            if b and b['t'][0] == 'call' and isinstance(b['t'][1], dict):
                c = b['t'][1]
                nm = c.get('res') or c.get('fn') or ''
                if c.get('m') == 'default' or nm.endswith('::default') or c.get('m') == 'take' or 'mem::take' in nm:
                    ga = [p.ts(x) for x in c.get('ga', []) if isinstance(x, int)]
                    st = p.ts(c['self']) if isinstance(c.get('self'), int) else str(c.get('self') or '')
                    txt = nm + ' ' + st + ' ' + ' '.join(ga)
                    if any(t in txt for t in STATE_TYPES):
                        body_calls.append(b)
        if not body_calls or fn.d.get('itrait') == 'std::default::Default':
            continue
        n += 1
        ins = [p.ts(fn.locals[i + 1]) for i in range(fn.d['args'])]
        has = [t for t in ins if any(x in t for x in ('ValidationState<', 'serializers::extra::Extra<', 'RecursionState', 'ExtraOwned', 'InternalValidator', 'SerializationCallable', 'SerializationIterator', 'ValidatorIterator'))]
        rep.ob('one-state', fn.path.replace("<'_>", ''), not has, f'{fn.path} starts a fresh recursion state although it was handed one ({has[:1]}): cycles through it are not detected', u.where(fn))
    rep.count('places that create a recursion state', n)
    # states handed over to helper objects are copies of the current one
    for adt, field, want in (('validators::generator::InternalValidator', 'recursion_guard', ('state',)), ('serializers::extra::ExtraOwned', 'rec_guard', ('extra',)), ('serializers::extra::Extra', 'rec_guard', ('rec_guard', 'self'))):
        ad = p.adts.get(adt)
        if not rep.ob('anchor', adt, ad is not None and any(n == field for n, _ in ad.fields()), f'{adt}.{field} not found'):
            continue
        for fn in p.fns.values():
            if not any(b and any(rv[0] == 'adt' and rv[1] == adt for _, rv, _ in b['s']) for b in fn.blocks):
                continue
            if fn.d.get('itrait') == 'std::clone::Clone':
                continue
            g = mir.Graph(p, fn, inline=lambda path: False)
            for nid, pl, rv, ln in g.aggs(adt):
                o = dict(zip(rv[3], rv[4])).get(field)
                if o is None:
                    continue
                a = u.args_from(g, o)
                rep.count('recursion states handed over')
                ok = any(pj[-1:] in (('.recursion_guard',), ('.rec_guard',)) or pj == () and 'RecursionState' in p.ts(fn.locals[i + 1]) for i, pj in a) and not any(s[0] == 'call' and s[1].endswith('::default') for s in g.sources(o))
                rep.ob('one-state', f'{u.short(adt)} built in {u.short(fn.path)}', ok, f'{fn.path} does not hand its recursion state over to {adt}', g.where(nid))


def run(p, rep, tier):
    check_new(p, rep)
    check_definitions(p, rep)
    check_infer(p, rep)
    check_state(p, rep)
    rep.floor('definition-reference entry points', 5)
    rep.floor('nested calls through a definition reference', 6)
    rep.floor('recursive functions of type-inferred serialization', 6)
    rep.floor('re-entry calls of type-inferred serialization', 20)
    rep.floor('places that create a recursion state', 5)
    rep.floor('recursion states handed over', 3)

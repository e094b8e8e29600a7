"""C07 - the error catalogue: names, templates, contexts and the forms an error is reported in.

Method: per variant conditional propagation (the receiver is assumed to be that variant) over the MIR of the catalogue
functions, comparison of the resulting tables with each other and with the published list in core_schema.py, and field
provenance through every conversion and output form of a line error.
"""
import ast
import os
import re
import mir
import flow as fl
import util as u

ASSUMPTIONS = ['str::replace and the standard formatting machinery do what they say.']
ET = 'errors::types::ErrorType'
PLE = 'errors::validation_exception::PyLineError'
VLE = 'errors::line_error::ValLineError'


NOIN = {'message_template_python', 'message_template_json', 'render_message', 'type_string', 'py_dict', 'py_dict_update_ctx', 'get_error_url', 'format_message', 'with_outer_location', 'field_from_context',
        'cow_field_from_context', 'as_dict', 'errors', 'pretty', 'display', 'get_formated_url', 'from_val_line_error', 'from_val_error', 'maybe_add_cause', 'plural_s', 'build_lookup', 'fmt', 'clone', 'safe_repr', 'truncate_safe_repr'}


def noin(path):
    return path.startswith(('errors::', '<errors::')) and path.split('::')[-1] in NOIN or u.ser_noinline(path) or path.startswith('tools::')


def snake(s):
    return re.sub(r'(?<!^)(?=[A-Z])', '_', s).lower()


def published(repo):
    """the ErrorType literal of core_schema.py"""
    t = ast.parse(open(os.path.join(repo, 'python/pydantic_core/core_schema.py')).read())
    for n in t.body:
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            tg = n.targets[0] if isinstance(n, ast.Assign) else n.target
            if isinstance(tg, ast.Name) and tg.id == 'ErrorType':
                return [e.value for e in ast.walk(n.value) if isinstance(e, ast.Constant) and isinstance(e.value, str)]
    return None


def consts_returned(g, f):
    """string constants that may flow to the return place on the states of f"""
    out = set()
    rn = {f.states[i][0] for i in f.reach(f.entry_states())}
    for n in g.nodes:
        if n.id not in rn:
            continue
        ops = [rv[1] for pl, rv, ln in n.stmts if rv[0] == 'use'] + (list(n.term[1].args) if n.term[0] == 'call' else [])
        for o in ops:
            if isinstance(o, dict):
                t = g._const(o)
                if t[0] == 'str':
                    out.add(t[1])
    return out


class VariantOf:
    """every discriminant of an ErrorType is V"""

    def __init__(self, g, V):
        self.g, self.V = g, V

    def call(self, c):
        return None

    def bin(self, rv, node):
        return None

    def discr(self, key, node, adt):
        return self.V if adt == ET else None

    def boolean(self, place, node):
        return None


def key_of(g, o):
    """placeholder named by the first argument of replace"""
    t = g._const(o) if isinstance(o, dict) else g.term(o)
    if t[0] == 'str':
        m = re.fullmatch(r'\{(\w+)\}', t[1])
        return m.group(1) if m else None
    c = {s[1] for s in g.sources(o) if s[0] == 'str' and s[1].isidentifier()} if not isinstance(o, dict) else set()
    return c.pop() if len(c) == 1 else None


def variant_fields(g, o):
    """fields of ErrorType variants o derives from"""
    if isinstance(o, dict):
        return set()
    out = set()
    for s in g.sources(o):
        if s[0] == 'arg' and s[1] == 0:
            pj = u.strip(s[2])
            if len(pj) >= 2 and pj[0].startswith('@'):
                out.add(pj[1][1:])
    return out


def run(p, rep, tier):
    rep.rule('names', 'the catalogue, its string form and the published list of error types are the same set')
    rep.rule('rendered', 'every placeholder of a template is replaced by the field of the same name, and nothing else is')
    rep.rule('context', 'the context of an error is its fields under their own names, merged with the context given by the user')
    rep.rule('constructed', 'an error built by name takes each field from the context value of the same name')
    rep.rule('reported', 'every output form of a line error carries its type, location, message, input, context and documentation url under the same conditions')
    rep.rule('converted', 'conversions between the internal, public and exception forms keep every field')
    adt = p.adts[ET]
    fields = {v[0]: [x[0] for x in v[2]] if len(v) > 2 else [] for v in adt.variants}
    check_names(p, rep, fields)
    templates = check_templates(p, rep, fields)
    check_context(p, rep, fields)
    check_new(p, rep, fields)
    check_forms(p, rep)
    check_input_type(p, rep)
    check_convert(p, rep)
    check_entry(p, rep)
    rep.floor('error types', 95)
    rep.floor('placeholders rendered', 80)
    rep.floor('context fields', 70)
    rep.floor('fields of line errors reported', 16)


def vf(p, name):
    return p.adts[ET].variant(name)


def check_names(p, rep, fields):
    fn = p.fns[f'<{ET} as std::fmt::Display>::fmt']
    g = mir.Graph(p, fn)
    names = {}
    for V in fields:
        f = fl.Flow(g, seed={(g.arg_locals[0], ()): V})
        s = {x for x in consts_returned(g, f)}
        rep.ob('names', f'{V} has one name', len(s) == 1, f'{V} is displayed as {sorted(s)}', u.where(fn))
        if len(s) == 1:
            names[V] = s.pop()
            rep.ob('names', f'{V} is named after itself', names[V] == snake(V), f'{V} is displayed as {names[V]}', u.where(fn))
        rep.count('error types')
    rep.ob('names', 'names are distinct', len(set(names.values())) == len(names), 'two error types have the same name', u.where(fn))
    pub = published(rep.repo)
    if rep.ob('anchor', 'ErrorType list in core_schema.py', pub is not None, 'the published list of error types was not found'):
        rep.ob('names', 'published list has no repetition', len(pub) == len(set(pub)), 'repeated names', 'python/pydantic_core/core_schema.py')
        cat = {v for k, v in names.items() if k != 'CustomError'}
        for x in sorted(cat | set(pub)):
            rep.ob('names', f'`{x}` is in the catalogue and in the published list', x in cat and x in pub, f'only in the {"catalogue" if x in cat else "published list"}', 'python/pydantic_core/core_schema.py' if x not in pub else u.where(fn))
    # lookup by name holds every type but the custom one
    fn = p.fns[f'{ET}::build_lookup']
    g = mir.Graph(p, fn, noinline=noin)
    ins = [c for c in g.calls if c.m == 'insert' and not c.inlined]
    rep.ob('names', 'lookup table filled', len(ins) >= 1, 'the lookup table of error types is not filled', u.where(fn))
    for V in fields:
        f = fl.Flow(g, assume=VariantOf(g, V))
        nx = [c.node for c in g.calls if c.m == 'next' and not c.inlined]
        rn = {f.states[i][0] for i in f.reach(f.entry_states())}
        got = any(c.node in rn for c in ins)
        rep.ob('names', f'{V} can be looked up by name', got == (V != 'CustomError'), f'{V} {"is" if got else "is not"} in the lookup table', u.where(fn))
        if V != 'CustomError' and got:
            # no way around the insertion: from the loop head, the next item cannot be reached without inserting
            start = [j for i in f.nodes_states(set(nx)) for _, j in f.succ[i]]
            some = {f.states[i][0] for i in f.reach(start, avoid={c.node for c in ins})}
            rep.ob('names', f'{V} is always inserted', not (some & set(nx)), 'the insertion can be skipped', u.where(fn))
    for c in ins:
        cs = {s[1].split('::')[-1] for s in g.sources(c.args[1]) if s[0] == 'call'}
        rep.ob('names', 'lookup key is the displayed name', bool(cs & {'to_string', 'type_string'}), f'key from {sorted(cs)}', g.where(c.node))
    # type_string
    fn = p.fns[f'{ET}::type_string']
    g = mir.Graph(p, fn, noinline=noin)
    for V in fields:
        f = fl.Flow(g, seed={(g.arg_locals[0], ()): V})
        rn = {f.states[i][0] for i in f.reach(f.entry_states())}
        cl = {c.m for c in g.calls if c.node in rn and not c.inlined}
        src = set()
        for c in g.calls:
            if c.node in rn and not c.inlined:
                for a in c.args:
                    src |= variant_fields(g, a)
        if V == 'CustomError':
            rep.ob('names', 'custom errors report their own type', src == {'error_type'}, f'derived from {sorted(src)}', u.where(fn))
        else:
            rep.ob('names', f'{V} reports its name', 'to_string' in cl and not src, 'the reported type is not the name of the error', u.where(fn))


def placeholders(t):
    return re.findall(r'\{(\w+)\}', t)


def check_templates(p, rep, fields):
    tm = {}
    for form, other in (('python', None), ('json', 'python')):
        fn = p.fns[f'{ET}::message_template_{form}']
        g = mir.Graph(p, fn)
        for V in fields:
            f = fl.Flow(g, seed={(g.arg_locals[0], ()): V})
            s = consts_returned(g, f)
            if rep.ob('rendered', f'{V} has one {form} template', len(s) == 1, f'{V} has the {form} templates {sorted(s)}', u.where(fn)):
                tm[V, form] = s.pop()
    fn = p.fns[f'{ET}::render_message']
    g = mir.Graph(p, fn, noinline=noin)
    it = p.adts.get('input::input_abstract::InputType') or next(a for k, a in p.adts.items() if k.endswith('::InputType'))
    for V in fields:
        for form_in in [v[0] for v in it.variants]:
            form = 'python' if form_in == 'Python' else 'json'
            f = fl.Flow(g, seed={(g.arg_locals[0], ()): V, (g.arg_locals[2], ()): form_in})
            reach = f.reach(f.entry_states())
            rn = {f.states[i][0] for i in reach}
            used = {c.m[len('message_template_'):] for c in g.calls if c.node in rn and c.m.startswith('message_template_')}
            rep.ob('rendered', f'{V} uses the {form} template for {form_in} input', used == {form} or V == 'CustomError', f'template used: {sorted(used)}', u.where(fn))
            if V == 'CustomError':
                fm = [c for c in g.calls if c.m == 'format_message' and c.node in rn]
                ok = bool(fm) and not (f.reach(f.entry_states(), avoid={c.node for c in fm}) & set(f.exits_with('Ok')))
                rep.ob('rendered', f'custom errors are formatted from their template and context ({form_in})', ok, 'the message of a custom error is not formatted from its own template', u.where(fn))
                for c in fm:
                    a, b = variant_fields(g, c.args[0]), variant_fields(g, c.args[1])
                    rep.ob('rendered', 'custom error template and context', a == {'message_template'} and b == {'context'}, f'formatted from {sorted(a)} and {sorted(b)}', g.where(c.node))
                continue
            if (V, form) not in tm:
                continue
            t = tm[V, form]
            ph = placeholders(t)
            reps = [c for c in g.calls if c.node in rn and c.m == 'replace' and not c.inlined]
            keys = {}
            for c in reps:
                k = key_of(g, c.args[1])
                if k is not None:
                    keys.setdefault(k, []).append(c)
            for k in sorted(set(ph) | set(keys)):
                cs = keys.get(k, [])
                if k not in ph:
                    if form == 'json' and k in placeholders(tm.get((V, 'python'), '')):
                        continue
                    rep.ob('rendered', f'{V}: {{{k}}} is in the {form} template', False, f'`{k}` is rendered but the template has no such placeholder', g.where(cs[0].node))
                    continue
                skip = f.reach(f.entry_states(), avoid={c.node for c in cs}) & set(f.exits_with('Ok'))
                rep.ob('rendered', f'{V}: {{{k}}} is replaced ({form_in})', bool(cs) and not skip, f'the {form} message of {snake(V)} can show the raw placeholder {{{k}}}', u.where(fn))
                for c in cs:
                    vfs = variant_fields(g, c.args[2])
                    if k in fields[V]:
                        rep.ob('rendered', f'{V}: {{{k}}} shows its own value', vfs == {k}, f'placeholder {{{k}}} is filled from {sorted(vfs)}', g.where(c.node))
                    else:
                        # a derived word such as the plural: from the count named just before it
                        before = [x for x in ph[:ph.index(k)] if x in fields[V]]
                        rep.ob('rendered', f'{V}: {{{k}}} follows its count', bool(before) and vfs == {before[-1]}, f'placeholder {{{k}}} is derived from {sorted(vfs)} instead of {before[-1:]}', g.where(c.node))
                    rep.count('placeholders rendered')
                    # the replacement is part of what is returned
                    rep.ob('rendered', f'{V}: {{{k}}} reaches the message', returned(g, c, f), 'the replaced text is dropped', g.where(c.node))
            for c in reps:
                if key_of(g, c.args[1]) is None:
                    rep.ob('rendered', f'{V}: replaced text is a placeholder', False, 'something that is not a placeholder is replaced', g.where(c.node))
    return tm


def _chain(g, c):
    """locals derived from c's result (forward), until the return local"""
    seen, work = set(), [c.dest[0]]
    users = _users(g)
    while work:
        l = work.pop()
        if l == g.ret_local:
            return True
        if l in seen:
            continue
        seen.add(l)
        work += users.get(l, ())
    return False


_u = {}


def _users(g):
    if id(g) in _u:
        return _u[id(g)]
    out = {}

    def add(src, dst):
        out.setdefault(src, set()).add(dst)
    for n in g.nodes:
        for pl, rv, ln in n.stmts:
            for o in mir.operands_of(rv):
                if not isinstance(o, dict):
                    add(o[0], pl[0])
        if n.term[0] == 'call' and not n.term[1].inlined:
            for a in n.term[1].args:
                if not isinstance(a, dict):
                    add(a[0], n.term[1].dest[0])
    _u[id(g)] = out
    return out


def returned(g, c, f):
    return _chain(g, c)


def check_context(p, rep, fields):
    fn = p.fns[f'{ET}::py_dict_update_ctx']
    g = mir.Graph(p, fn, noinline=noin)
    for V, fs in fields.items():
        for present in ('Some', 'None'):
            s0 = g.arg_locals[0]
            f = fl.Flow(g, seed={(s0, ()): V, (s0, ('@' + V, '.context')): present})
            rn = {f.states[i][0] for i in f.reach(f.entry_states())}
            oks = set(f.exits_with('Ok'))
            sets = [c for c in g.calls if c.node in rn and c.m == 'set_item' and not c.inlined]
            keys = {}
            for c in sets:
                t = g._const(c.args[1]) if isinstance(c.args[1], dict) else g.term(c.args[1])
                keys.setdefault(t[1] if t[0] == 'str' else '?', []).append(c)
            want = {x for x in fs if x != 'context'}
            for k in sorted(want | set(keys)):
                cs = keys.get(k, [])
                skip = f.reach(f.entry_states(), avoid={c.node for c in cs}) & oks
                rep.ob('context', f'{V}.{k} ({present})', k in want and bool(cs) and not skip, f'`{k}` is {"missing from" if k in want else "not a field but appears in"} the context of {snake(V)}', u.where(fn))
                for c in cs:
                    vfs = variant_fields(g, c.args[2])
                    rep.ob('context', f'{V}.{k} has its own value', vfs == {k}, f'context key `{k}` holds {sorted(vfs)}', g.where(c.node))
                    rep.count('context fields')
            up = {c.node for c in g.calls if c.node in rn and c.m == 'update' and not c.inlined}
            skip = f.reach(f.entry_states(), avoid=up) & oks
            if present == 'Some':
                rep.ob('context', f'{V} merges the given context', bool(up) and not skip, f'the context given for {snake(V)} is dropped', u.where(fn))
            vals = {f.env(i).get((g.ret_local, ('@Ok', '.0'))) for i in oks}
            rep.ob('context', f'{V} says whether a context was given ({present})', vals == {present == 'Some'}, f'returns {vals}', u.where(fn))
    fn = p.fns[f'{ET}::py_dict']
    g = mir.Graph(p, fn, noinline=noin)
    dels = set()
    for V in ('CustomError', next(v for v in fields if v != 'CustomError' and len(fields[v]) > 1)):
        f = fl.Flow(g, seed={(g.arg_locals[0], ()): V})
        rn = {f.states[i][0] for i in f.reach(f.entry_states())}
        dl = [c for c in g.calls if c.node in rn and c.m == 'del_item' and not c.inlined]
        ks = set()
        for c in dl:
            t = g._const(c.args[1]) if isinstance(c.args[1], dict) else g.term(c.args[1])
            ks.add(t[1])
        want = {'error_type', 'message_template'} if V == 'CustomError' else set()
        rep.ob('context', f'context of {V} hides {sorted(want)}', ks == want, f'removes {sorted(ks)} from the context', u.where(fn))
        if V != 'CustomError':
            # a non empty dict is returned
            upd = [c for c in g.calls if c.m == 'py_dict_update_ctx']
            rep.ob('context', 'context built from the fields', bool(upd), 'the context is not built from the fields', u.where(fn))


def check_new(p, rep, fields):
    fn = p.fns[f'{ET}::new']
    g = mir.Graph(p, fn, noinline=noin)
    known = {x for fs in fields.values() for x in fs}
    for V, fs in fields.items():
        f = fl.Flow(g, assume=VariantOf(g, V))
        rn = {f.states[i][0] for i in f.reach(f.entry_states())}
        ags = [(nid, rv) for nid, pl, rv, ln in g.aggs(ET) if nid in rn]
        rep.ob('constructed', f'{V} by name', bool(ags) and all(rv[2] == V for _, rv in ags), f'the name {snake(V)} builds {sorted({rv[2] for _, rv in ags})}', u.where(fn))
        for nid, rv in ags:
            for k, o in zip(rv[3], rv[4]):
                if isinstance(o, dict):
                    rep.ob('constructed', f'{V}.{k}', False, f'`{k}` is a constant', g.where(nid))
                    continue
                if k == 'context':
                    a = u.args_from(g, o)
                    rep.ob('constructed', f'{V} keeps the context', {x[0] for x in a} == {2}, 'the given context is not kept', g.where(nid))
                    continue
                src = g.sources(o)
                strs = {s[1] for s in src if s[0] == 'str' and s[1] in known}
                ok = strs == {k} and any(s[0] == 'arg' and s[1] == 2 for s in src)
                rep.ob('constructed', f'{V}.{k}', ok, f'`{k}` is read from {sorted(strs)}', g.where(nid))
                rep.count('fields read from a context')


FORM_KEYS = {'type': 'error_type', 'loc': 'location', 'msg': 'error_type', 'input': 'input_value', 'ctx': 'error_type', 'url': 'error_type'}
GATE = {'input': 'include_input', 'ctx': 'include_context', 'url': 'url_prefix'}
VIA = {'type': 'type_string', 'msg': 'render_message', 'ctx': 'py_dict', 'url': 'get_error_url'}


class Form:
    """assumptions for one output form: which options are on, custom error or not"""

    def __init__(self, g, custom, ctx):
        self.g, self.custom, self.ctx = g, custom, ctx

    def call(self, c):
        if c.m == 'py_dict' and not c.inlined:
            return {('@Ok', '.0'): 'Some' if self.ctx else 'None'}
        return None

    def bin(self, rv, node):
        return None

    def discr(self, key, node, adt):
        return ('CustomError' if self.custom else 'Missing') if adt == ET else None

    def boolean(self, place, node):
        return None


IT = 'input::input_abstract::InputType'


def check_input_type(p, rep):
    """messages are rendered for the form of the input that was validated"""
    def is_it(t):
        t = p.T(t)
        while t.get('k') == 'ref':
            t = p.T(t['a'][0])
        return t.get('d') == IT
    for path, fn in sorted(p.fns.items()):
        if 'errors::validation_exception' not in path:
            continue
        g = mir.Graph(p, fn, noinline=noin)
        for c in g.calls:
            cal = p.fns.get(c.fn)
            if c.inlined or cal is None:
                continue
            if not (c.m == 'render_message' or cal.path.startswith('errors::validation_exception')):
                continue
            for i in range(min(cal.d['args'], len(c.args))):
                if is_it(cal.locals[i + 1]):
                    src = [] if isinstance(c.args[i], dict) else g.sources(c.args[i])
                    const = sorted({str(s[2]) for s in src if s[0] == 'adt' and s[1] == IT} | {str(s[1]) for s in src if s[0] == 'const'})
                    rep.ob('reported', f'{path.split("::")[-1]} > {c.m} input form', bool(src) and not const,
                           f'the message is rendered for the input form {const or "of a constant"} instead of the form that was validated', g.where(c.node))
                    rep.count('messages rendered for the input form')
    rep.floor('messages rendered for the input form', 4)


def check_forms(p, rep):
    forms = []
    d = p.fns.get(f'{PLE}::as_dict')
    if rep.ob('anchor', 'PyLineError::as_dict', d is not None, 'PyLineError::as_dict not found'):
        g = mir.Graph(p, d, noinline=noin)
        ef = p.fns.get('errors::validation_exception::ValidationError::errors')
        rl = roles(p, ef, 'as_dict')
        for k in ('include_context', 'include_input'):
            rep.ob('reported', f'errors() passes {k}', len(rl.get(k, ())) == 1, f'`{k}` does not reach the form of a line error', u.where(ef))
        role = {k: min(v) for k, v in rl.items() if len(v) == 1}
        forms.append(('errors()', d, g, 'set_item', lambda name: (g.arg_locals[role.get('include_url' if name == 'url_prefix' else name, idx_arg(d, name))], ())))
    s = next((fn for st, fn in p.trait_impls('serde::Serialize', 'serialize') if 'PyLineErrorSerializer' in (st.get('d') or st['s'])), None)
    if rep.ob('anchor', 'PyLineErrorSerializer', s is not None, 'the JSON form of a line error was not found'):
        g2 = mir.Graph(p, s, noinline=noin)
        forms.append(('json()', s, g2, 'serialize_entry', lambda name: (g2.arg_locals[0], ('.' + name,))))
    for form, fn, g, setter, loc in forms:
        for k in FORM_KEYS:
            for on in (True, False):
                for custom in (False, True):
                    seed = {}
                    for kk, gate in GATE.items():
                        val = on if kk == k else True
                        seed[loc(gate)] = ('Some' if val else 'None') if gate == 'url_prefix' else val
                    if k not in GATE and not on:
                        continue
                    f = fl.Flow(g, assume=Form(g, custom, True), seed=seed)
                    reach = f.reach(f.entry_states())
                    rn = {f.states[i][0] for i in reach}
                    cs = [c for c in g.calls if c.m == setter and not c.inlined and c.node in rn and keyname(g, c) == k]
                    oks = set(f.exits_with('Ok')) or set(f.exits)
                    present = bool(cs) and not (f.reach(f.entry_states(), avoid={c.node for c in cs}) & oks_of(f, g))
                    should = on and not (k == 'url' and custom)
                    rep.ob('reported', f'{form} {k} ({"custom, " if custom else ""}{"on" if on else "off"})', present if should else not cs, f'`{k}` is {"missing from" if should else "present in"} {form} of a {"custom " if custom else ""}line error {"with" if on else "without"} `{GATE.get(k, "")}`', u.where(fn))
                    if should and cs:
                        for c in cs:
                            src = g.sources(c.args[2])
                            fl_ = {e[1:] for s in src if s[0] == 'arg' for e in u.strip(s[2]) if e in ('.error_type', '.location', '.input_value')}
                            k == 'url' or rep.ob('reported', f'{form} {k} value', fl_ == {FORM_KEYS[k]}, f'`{k}` holds {sorted(fl_)}', g.where(c.node))
                            if k in VIA:
                                cl = {s[1].split('::')[-1] for s in src if s[0] == 'call'}
                                rep.ob('reported', f'{form} {k} computed by {VIA[k]}', VIA[k] in cl, f'`{k}` is not the result of {VIA[k]}', g.where(c.node))
                            rep.count('fields of line errors reported')
        # without a context of its own, none is shown
        f = fl.Flow(g, assume=Form(g, False, False), seed={loc(gate): ('Some' if gate == 'url_prefix' else True) for gate in GATE.values()})
        rn = {f.states[i][0] for i in f.reach(f.entry_states())}
        rep.ob('reported', f'{form} ctx only if there is one', not any(c.m == setter and keyname(g, c) == 'ctx' and c.node in rn for c in g.calls), 'an empty context is reported', u.where(fn))
    # text form
    fn = p.fns.get(f'{PLE}::pretty')
    if rep.ob('anchor', 'PyLineError::pretty', fn is not None, 'PyLineError::pretty not found'):
        g = mir.Graph(p, fn, noinline=noin)
        h = g.arg_locals[idx_arg(fn, 'hide_input')]
        up = g.arg_locals[idx_arg(fn, 'url_prefix')]
        for hide in (True, False):
            f = fl.Flow(g, seed={(h, ()): hide})
            rn = {f.states[i][0] for i in f.reach(f.entry_states())}
            shown = any('.input_value' in o[1] for n in g.nodes if n.id in rn for pl, rv, ln in n.stmts for o in ([rv[2]] if rv[0] == 'ref' else mir.operands_of(rv)) if not isinstance(o, dict))
            rep.ob('reported', f'str() input with hide_input={hide}', shown == (not hide), 'the input is shown although hidden' if hide else 'the input is not shown', u.where(fn))
        for custom in (True, False):
            f = fl.Flow(g, assume=Form(g, custom, True), seed={(up, ()): 'Some'})
            rn = {f.states[i][0] for i in f.reach(f.entry_states())}
            got = any(c.m == 'get_error_url' and c.node in rn for c in g.calls)
            rep.ob('reported', f'str() url (custom={custom})', got != custom, 'documentation url for a custom error' if custom else 'no documentation url', u.where(fn))
        for need in ('render_message', 'type_string'):
            f = u.flow(g)
            cs = {c.node for c in g.calls if c.m == need}
            rep.ob('reported', f'str() {need}', bool(cs) and not (f.reach(f.entry_states(), avoid=cs) & set(f.exits_with('Ok'))), f'{need} is not part of the text form', u.where(fn))
        rep.ob('reported', 'str() location', any('.location' in s for c in g.calls if not c.inlined for a in c.args if not isinstance(a, dict) for s in direct(g, a)), 'the location is not part of the text form', u.where(fn))
    fn = p.fns.get('errors::validation_exception::ValidationError::json')
    if fn:
        g = mir.Graph(p, fn, noinline=noin)
        for nid, pl, rv, ln in g.aggs():
            if rv[1].endswith('ValidationErrorSerializer'):
                for k, o in zip(rv[3], rv[4]):
                    if k in ('include_context', 'include_input', 'input_type', 'line_errors'):
                        a = u.args_from(g, o)
                        want = 'include_url' if k == 'url_prefix' else k
                        ok = any(x[0] == idx_arg(fn, want) for x in a) if k in ('include_context', 'include_input', 'url_prefix') else any('.' + k in x[1] for x in a)
                        rep.ob('reported', f'json() passes {k}', ok, f'`{k}` does not come from `{want}`', g.where(nid))
        rep.count('fields of line errors reported', 0)
    s = next((fn for st, fn in p.trait_impls('serde::Serialize', 'serialize') if (st.get('d') or st['s']).endswith('::ValidationErrorSerializer')), None)
    if s:
        g = mir.Graph(p, s, noinline=noin)
        for nid, pl, rv, ln in g.aggs():
            if rv[1].endswith('PyLineErrorSerializer'):
                for k, o in zip(rv[3], rv[4]):
                    a = u.args_from(g, o)
                    want = '.line_errors' if k == 'line_error' else '.' + k
                    rep.ob('reported', f'json() elements get {k}', any(want in x[1] for x in a) and not any(e[1:] in rv[3] and e != want for x in a for e in x[1] if e.startswith('.')), f'`{k}` is not passed on', g.where(nid))
    for m in ('errors', 'json'):
        fn = p.fns.get('errors::validation_exception::ValidationError::' + m)
        if not rep.ob('anchor', f'ValidationError.{m}', fn is not None, 'public method not found'):
            continue
        g = mir.Graph(p, fn, noinline=noin)
        url = {c.node for c in g.calls if c.m == 'get_formated_url'}
        for on in (True, False):
            f = fl.Flow(g, seed={(g.arg_locals[idx_arg(fn, 'include_url')], ()): on})
            rn = {f.states[i][0] for i in f.reach(f.entry_states())}
            if on:
                ok = bool(url) and not (f.reach(f.entry_states(), avoid=url) & set(f.exits_with('Ok')))
            else:
                ok = not (rn & url)
            rep.ob('reported', f'{m}() include_url={on}', ok, '`include_url` does not decide whether urls are reported', u.where(fn))
    # pickling uses the complete form and replays custom errors as exceptions
    fn = p.fns.get('errors::validation_exception::ValidationError::__reduce__')
    if rep.ob('anchor', 'ValidationError.__reduce__', fn is not None, 'a ValidationError has no __reduce__'):
        g = mir.Graph(p, fn, noinline=noin)
        cs = [c for c in g.calls if c.m == 'errors']
        ok = bool(cs) and all(isinstance(a, dict) and a.get('v') is True for c in cs for a in c.args[3:5])
        rep.ob('reported', 'pickling keeps context and input', ok, 'a pickled error loses its context or input', u.where(fn))
        cust = [c for c in g.calls if c.m in ('call1', 'py_new') and not c.inlined and {'error_type', 'message_template', 'context'} <= {e[1:] for a in c.args if not isinstance(a, dict) for s in g.sources(a) if s[0] in ('arg', 'call') for e in proj_of(s)}]
        rep.ob('reported', 'pickling replays custom errors', custom_replayed(p, g), 'a pickled custom error cannot be loaded: its type is not in the catalogue', u.where(fn))


def custom_replayed(p, g):
    """some set_item("type", ..) in the pickled form stores a custom error built from the three fields"""
    for c in g.calls:
        if c.m == 'set_item' and not c.inlined and keyname(g, c) == 'type':
            s = str(g.term(c.args[2]))
            if all(k in s for k in ("'.error_type'", "'.message_template'", "'.context'")):
                return True
    return False


def proj_of(s):
    return [e for e in u.strip(s[2]) if e.startswith('.')] if s[0] == 'arg' and len(s) > 2 else []


def direct(g, a):
    return [u.strip(s[2]) for s in g.sources(a) if s[0] == 'arg']


def keyname(g, c):
    o = c.args[1]
    t = g._const(o) if isinstance(o, dict) else g.term(o)
    if t[0] == 'str':
        return t[1]
    ss = {s[1] for s in g.sources(o) if s[0] == 'str'} if not isinstance(o, dict) else set()
    return ss.pop() if len(ss) == 1 else None


def oks_of(f, g):
    return set(f.exits_with('Ok')) or set(f.exits)


BASE = {'from_val_error': ['py', 'title', 'input_type', 'error', 'outer_location', 'hide_input', 'validation_error_cause'],
        'pretty': ['self', 'py', 'input_type', 'url_prefix', 'hide_input'],
        'as_dict': ['self', 'py', 'url_prefix', 'include_context', 'input_type', 'include_input'],
        'prepare_validation_err': ['self', 'py', 'error', 'input_type']}


def argnames(fn):
    n = fn.d['args']
    nm = [fn.d['names'].get(str(i + 1), '') for i in range(n)]
    if fn.name in BASE and len(BASE[fn.name]) == n and set(nm) != set(BASE[fn.name]):
        return BASE[fn.name]
    return nm


def idx_arg(fn, name):
    return argnames(fn).index(name)


def roles(p, fn, callee, ren=()):
    """{parameter name of the public method: parameter index of callee}, from the call in fn"""
    g = mir.Graph(p, fn, noinline=noin)
    out = {}
    for c in g.calls:
        if c.m == callee and not c.inlined:
            for i, o in enumerate(c.args):
                for x in u.args_from(g, o):
                    nm = argnames(fn)[x[0]]
                    if nm.startswith('include_'):
                        out.setdefault(nm, set()).add(i)
    return out


def check_convert(p, rep):
    """PyLineError / ValLineError conversions"""
    want = {'error_type', 'location', 'input_value'}
    for path, fn in sorted(p.fns.items()):
        if not path.startswith(('errors::', '<errors::')) or fn.kind not in ('fn', 'assoc') or path.endswith('::clone'):
            continue
        g = None
        for b in [fn]:
            g = mir.Graph(p, fn, noinline=noin)
        for nid, pl, rv, ln in g.aggs():
            if rv[1] not in (PLE, VLE) or g.nodes[nid].frame is None:
                continue
            gots = {}
            for k, o in zip(rv[3], rv[4]):
                a = set() if isinstance(o, dict) else u.args_from(g, o)
                gots[k] = {e[1:] for x in a for e in x[1] if e.startswith('.') and e[1:] in want}
            if any(gots.values()) and any('LineError' in p.ts(fn.locals[i + 1]) for i in range(fn.d['args'])):
                for k, got in sorted(gots.items()):
                    rep.ob('converted', f'{path}: {k}', got == {k}, f'`{k}` is filled from {sorted(got)}', g.where(nid))
                    rep.count('fields converted')
    fn = next((f for _, f in p.trait_impls('std::convert::TryFrom', 'try_from') if 'PyLineError' in f.path), None)
    if rep.ob('anchor', 'PyLineError from dict', fn is not None, 'the conversion of an error dict is missing'):
        g = mir.Graph(p, fn, noinline=noin)
        for nid, pl, rv, ln in g.aggs(PLE):
            for k, o in zip(rv[3], rv[4]):
                ss = {s[1] for s in g.sources(o) if s[0] == 'str' and s[1] in ('type', 'loc', 'input', 'ctx', 'msg', 'url')}
                exp = {'error_type': {'type', 'ctx'}, 'location': {'loc'}, 'input_value': {'input'}}[k]
                rep.ob('converted', f'error dict: {k}', ss == exp, f'`{k}` is read from {sorted(ss)}', g.where(nid))
    fn = p.fns.get('errors::validation_exception::ValidationError::from_val_error')
    if rep.ob('anchor', 'ValidationError::from_val_error', fn is not None, 'not found'):
        g = mir.Graph(p, fn, noinline=noin)
        for nid, pl, rv, ln in g.aggs('errors::validation_exception::ValidationError'):
            for k, o in zip(rv[3], rv[4]):
                a = {x[0] for x in u.args_from(g, o)}
                src = 'error' if k == 'line_errors' else k
                rep.ob('converted', f'ValidationError.{k}', idx_arg(fn, src) in a and not (a - {idx_arg(fn, src), idx_arg(fn, 'outer_location')} - {0}), f'`{k}` does not come from `{src}`', g.where(nid))
                rep.count('fields converted')
        for pres in ('Some', 'None'):
            ol = g.arg_locals[idx_arg(fn, 'outer_location')]
            er = g.arg_locals[idx_arg(fn, 'error')]
            f = fl.Flow(g, seed={(ol, ()): pres, (er, ()): 'LineErrors'})
            rn = {f.states[i][0] for i in f.reach(f.entry_states())}
            got = any(c.m == 'with_outer_location' and c.node in rn for c in g.calls)
            rep.ob('converted', f'outer location ({pres})', got == (pres == 'Some'), 'the outer location is not added to the line errors' if pres == 'Some' else 'a location is added', u.where(fn))
        for V in ('InternalErr', 'Omit', 'UseDefault'):
            er = g.arg_locals[idx_arg(fn, 'error')]
            f = fl.Flow(g, seed={(er, ()): V})
            rn = {f.states[i][0] for i in f.reach(f.entry_states())}
            agg = any(nid in rn for nid, pl, rv, ln in g.aggs('errors::validation_exception::ValidationError'))
            rep.ob('converted', f'{V} is not a validation error', not agg, f'{V} is turned into a ValidationError', u.where(fn))


ENTRY = {'validate_python': 'Python', 'isinstance_python': 'Python', 'validate_json': 'Json', 'validate_strings': 'String', 'validate_assignment': 'Python', 'get_default_value': 'Python'}


def check_entry(p, rep):
    """errors of each public method are reported for the form of its input"""
    SV = 'validators::SchemaValidator'
    fn = p.fns.get(f'{SV}::prepare_validation_err')
    if rep.ob('anchor', 'prepare_validation_err', fn is not None, 'not found'):
        g = mir.Graph(p, fn, noinline=lambda x: x.startswith(('errors::', '<errors::')))
        for c in g.calls:
            if c.m == 'from_val_error':
                names = argnames(p.fns['errors::validation_exception::ValidationError::from_val_error'])
                exp = {'title': 'title', 'hide_input': 'hide_input_in_errors', 'validation_error_cause': 'validation_error_cause'}
                for i, nme in enumerate(names):
                    a = u.args_from(g, c.args[i])
                    if nme in exp:
                        rep.ob('converted', f'prepare_validation_err {nme}', any('.' + exp[nme] in x[1] for x in a), f'`{nme}` does not come from the validator', g.where(c.node))
                    if nme in ('error', 'input_type'):
                        rep.ob('converted', f'prepare_validation_err {nme}', {x[0] for x in a} == {idx_arg(fn, nme)}, f'`{nme}` is not passed on', g.where(c.node))
    for m, want in sorted(ENTRY.items()):
        fn = p.fns.get(f'{SV}::{m}')
        if not rep.ob('anchor', f'SchemaValidator::{m}', fn is not None, 'public method not found'):
            continue
        g = mir.Graph(p, fn, noinline=lambda x: not x.startswith(SV) or x.endswith('prepare_validation_err'))
        vals = set()
        for c in g.calls:
            if c.m == 'prepare_validation_err':
                o = c.args[3]
                t = g._const(o) if isinstance(o, dict) else g.term(o)
                vals |= {x for x in ('Python', 'Json', 'String') if f"'{x}'" in str(t)}
        for nid, pl, rv, ln in g.aggs():
            if rv[1].endswith('validation_state::Extra') and 'input_type' in rv[3]:
                o = rv[4][rv[3].index('input_type')]
                t = g._const(o) if isinstance(o, dict) else g.term(o)
                vals |= {x for x in ('Python', 'Json', 'String') if f"'{x}'" in str(t)}
        if vals:
            rep.ob('reported', f'{m} reports errors for {want} input', vals == {want}, f'errors are reported for {sorted(vals)} input', u.where(fn))
            rep.count('public methods')

"""C08: the declared schema grammar and what the builders read from a schema agree"""
import ast
import os
import re
import mir
import flow as fl
import util as u

ASSUMPTIONS = [
    'the declared grammar is the TypedDict classes of python/pydantic_core/core_schema.py; documented defaults are the `default:` comments and docstrings of that file',
    'an extraction from a schema value (PyO3 `extract`) of a well-typed value succeeds and yields that value',
]

PY = 'python/pydantic_core/core_schema.py'
OPAQUE = ('input::', '<input::', 'definitions::', 'errors::', 'recursion', 'validators::literal::', 'lookup_key::',
          'serializers::shared::CombinedSerializer::', '<serializers::shared::CombinedSerializer', 'serializers::filter::', 'url::')
LAST = {'map_err', 'build_validator', 'find_serializer', 'build_specific_validator', 'to_object'}
SD = 'tools::SchemaDict'
OWN, PAR = 777003, 777004  # stand for: the config dictionary of the schema itself / of the enclosing schema
SCH, CFG = 777001, 777002  # stand for: the value of the key in the schema / in the config
_TOK = {}


def tok(role, key):
    """a distinct opaque value per (schema or config, key)"""
    if role not in (SCH, CFG, PAR) or isinstance(role, bool):
        return role
    return _TOK.setdefault((role, key), role * 1000 + len(_TOK))

# schema key -> config key it falls back to, where the names differ
FALLBACK = {
    'str': {'min_length': 'str_min_length', 'max_length': 'str_max_length', 'strip_whitespace': 'str_strip_whitespace',
            'to_lower': 'str_to_lower', 'to_upper': 'str_to_upper'},
    'typed-dict': {'total': 'typed_dict_total'},
}
EXTRA = 'extra_behavior'
# declared keys no builder has to read: they describe the schema to other tools
INFORMATIVE = {'type', 'ref', 'metadata', 'serialization', 'json_schema_input_schema'}
# keys of the nested dictionaries of a schema: type -> TypedDict classes
NESTED = {
    'typed-dict': ('TypedDictField', 'ComputedField'), 'model-fields': ('ModelField', 'ComputedField'),
    'dataclass-args': ('DataclassField', 'ComputedField'), 'arguments': ('ArgumentsParameter',), 'arguments-v3': ('ArgumentsV3Parameter',),
}
# classes that carry the `serialization` key's schemas handled by function serializers, not by a validator of the same type
SER_CLASSES = ('PlainSerializerFunctionSerSchema', 'WrapSerializerFunctionSerSchema')


def opaque(path):
    return path.startswith(OPAQUE) or u.short(path) in LAST


def extra(p):
    return tuple(f.path for t, m in (('std::str::FromStr', 'from_str'), ('std::default::Default', 'default')) for _, f in p.trait_impls(t, m))


class Grammar:
    def __init__(self, path):
        self.src = open(path).read()
        self.lines = self.src.splitlines()
        self.tree = ast.parse(self.src)
        self.cls = {}      # class -> {key: annotation ast}
        self.req = {}      # class -> required keys
        self.types = {}    # type literal -> class
        self.defaults = {}  # class -> {key: documented default literal}
        self.bases = {}
        for n in self.tree.body:
            if isinstance(n, ast.ClassDef):
                self._cls(n)
        self.fns = {n.name: n for n in self.tree.body if isinstance(n, ast.FunctionDef)}

    def _cls(self, n):
        keys, req, dfl = {}, set(), {}
        for b in n.bases:
            if isinstance(b, ast.Name) and b.id in self.cls:
                keys.update(self.cls[b.id])
                req |= self.req[b.id]
                dfl.update(self.defaults[b.id])
        total = not any(k.arg == 'total' and getattr(k.value, 'value', None) is False for k in n.keywords)
        for s in n.body:
            if not isinstance(s, ast.AnnAssign):
                continue
            k = s.target.id
            keys[k] = s.annotation
            a = ast.unparse(s.annotation)
            if a.startswith('Required[') or (total and not a.startswith('NotRequired[')):
                req.add(k)
            c = self.lines[s.end_lineno - 1].split('#', 1)
            txt = c[1] if len(c) > 1 else ''
            m = re.search(r"default:?\s+'?([\w.\-]+)'?", txt)
            if m:
                dfl[k] = m.group(1)
        doc = ast.get_docstring(n) or ''
        for k in keys:
            m = re.search(r"^\s*%s:(.*?)(?=^\s*\w+: |\Z)" % k, doc, re.S | re.M)
            m = m and re.search(r"[Dd]efaults? (?:is|to) [`']*([\w.\-]+)", m.group(1))
            if m and k not in dfl:
                dfl[k] = m.group(1)
        self.cls[n.name] = keys
        self.req[n.name] = req
        self.defaults[n.name] = dfl
        if 'type' in keys and any(isinstance(s, ast.AnnAssign) and s.target.id == 'type' for s in n.body):
            for lit in literals(keys['type']):
                self.types.setdefault(lit, []).append(n.name)

    def keys(self, t):
        out = {}
        for c in self.types.get(t, ()):
            out.update(self.cls[c])
        return out

    def required(self, t):
        cs = self.types.get(t, ())
        return set.intersection(*[self.req[c] for c in cs]) if cs else set()

    def default(self, t, k):
        for c in self.types.get(t, ()):
            if k in self.defaults[c]:
                return self.defaults[c][k]
        return None


def literals(a):
    """alternatives of a Literal annotation"""
    if isinstance(a, ast.Subscript):
        nm = ast.unparse(a.value)
        if nm in ('Literal', 'typing.Literal'):
            e = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            return [x.value for x in e if isinstance(x, ast.Constant)]
        if nm in ('Required', 'NotRequired', 'Optional'):
            return literals(a.slice)
        if nm == 'Union':
            return [x for e in a.slice.elts for x in literals(e)]
    return []


def resolve(gr, a):
    """follow a module level alias `Name: TypeAlias = ...`"""
    while isinstance(a, ast.Subscript) and ast.unparse(a.value) in ('Required', 'NotRequired'):
        a = a.slice
    if isinstance(a, ast.Name):
        for n in gr.tree.body:
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                if isinstance(t, ast.Name) and t.id == a.id and n.value is not None:
                    return n.value
    return a


def norm(s):
    return re.sub(r'[^a-z0-9]', '', str(s).lower())


# ------------------------------------------------------------------ the Rust side
def lit_of(g, a):
    t = g._const(a) if isinstance(a, dict) else g.term(a)
    return t[1] if t[0] == 'str' else None


def is_read(c):
    return not c.inlined and len(c.args) >= 2 and (c.m in ('get_as', 'get_as_req') or c.m in ('get_item', 'contains') and 'dict' in (c.name + str(c.trait)).lower())


def table(p, path, rep, what):
    """type literal -> built type, from the dispatch on the schema's type"""
    fn = p.fns[path]
    g = mir.Graph(p, fn, noinline=lambda x: True)
    out = {}
    for c in g.calls:
        if c.m != 'eq':
            continue
        k = [a['str'] for a in c.args if isinstance(a, dict) and 'str' in a]
        if not k:
            continue
        x = g.nodes[c.node].succ[0][1]
        hops = 0
        while g.nodes[x].term[0] != 'switch' and g.nodes[x].succ and hops < 12:
            x, hops = g.nodes[x].succ[0][1], hops + 1
        tr = [t for lab, t in g.nodes[x].succ if lab == 'else']
        if not tr:
            continue
        y, hops = tr[0], 0
        while hops < 14 and g.nodes[y].succ and not (g.nodes[y].term[0] == 'call' and g.nodes[y].term[1].m in ('build', 'build_specific_validator')):
            y, hops = g.nodes[y].succ[0][1], hops + 1
        if g.nodes[y].term[0] == 'call':
            cc = g.nodes[y].term[1]
            if cc.ga:
                out[k[0]] = p.ts(cc.ga[0])
    rep.count(f'{what} registered', len(out))
    return out


class Reads:
    """the keys a build function reads, with the root they are read from"""

    def __init__(self, p, fn):
        self.p = p
        self.g = mir.Graph(p, fn, noinline=opaque, extra_inline=extra(p))
        self.memo = {}
        self.sites = []  # (root, key, call)
        for c in self.g.calls:
            if is_read(c):
                k = self.key(c)
                if k:
                    self.sites.append((k[0], k[1], c))
        self.omemo = {}

    def key(self, c):
        if id(c) not in self.memo:
            self.memo[id(c)] = self._key(c)
        return self.memo[id(c)]

    def _key(self, c):
        k = lit_of(self.g, c.args[1])
        if k is None:
            return None
        hit = []

        def stop(cc):
            if is_read(cc) or cc.m in ('next', 'iter'):
                hit.append(cc)
                return True
            return False
        ss = self.g.sources(c.args[0], stop=stop)
        roots = {s[1] for s in ss if s[0] == 'arg'}
        ns = {lit_of(self.g, cc.args[1]) for cc in hit if len(cc.args) > 1}
        if hit:
            return ('config' if ns == {'config'} else 'nested', k)
        if roots == {0}:
            return ('schema', k)
        if roots == {1}:
            return ('config', k)
        return ('mixed' if roots == {0, 1} else 'nested', k)

    def origin(self, op):
        """reads the operand derives from, without entering nested builds"""
        if isinstance(op, dict):
            return frozenset()
        o = self.omemo.get((op[0], op[1]))
        if o is None:
            got = set()

            def stop(c):
                if is_read(c):
                    k = self.key(c)
                    if k:
                        got.add(k)
                        return True
                return False
            self.g.sources(op, stop=stop)
            o = self.omemo[(op[0], op[1])] = frozenset(got)
        return o

    def extracted(self, c):
        """the Rust type a read is extracted to"""
        p, g = self.p, self.g
        if not c.ga:
            return None
        ti = c.ga[-1]
        fr = c.frame
        for _ in range(8):
            if p.T(ti).get('k') != 'param' or fr is None or fr.parent is None:
                break
            cc = g.nodes[fr.callnode].term
            if cc[0] != 'call' or not cc[1].ga:
                break
            ti = cc[1].ga[-1]
            fr = cc[1].frame
        return p.ts(ti)

    def watch(self):
        out = []
        for n in self.g.nodes:
            for k, (pl, rv, ln) in enumerate(n.stmts):
                if rv[0] == 'adt' and rv[3] and rv[1].startswith(('validators::', 'serializers::')) and not rv[1].endswith(('CombinedValidator', 'CombinedSerializer')):
                    out.append((n.id, k))
        return out


class Scenario:
    """conditional constant propagation under assumed schema and config contents: {(root, key): value | None (absent)}"""

    def __init__(self, rd, val):
        self.rd, self.g, self.val = rd, rd.g, val
        self.memo = {}

    def receiver(self, c):
        if not is_read(c):
            return False
        k = self.rd.key(c)
        return k is not None and k[0] in ('config', 'mixed')

    def call(self, c, recv=None):
        who = None
        if recv is not None:
            v = recv.get((), None)
            if v == 'Some':
                v = recv.get(('@Some', '.0'))
            if v == 'None':
                return {(): 'Ok', ('@Ok', '.0'): 'None'}
            who = v if v in (OWN, PAR) else None
        if (id(c), who) not in self.memo:
            self.who = who
            self.memo[id(c), who] = self._call(c)
        return self.memo[id(c), who]

    def _call(self, c):
        if c.inlined:
            return None
        if is_read(c):
            k = self.rd.key(c)
            if k is None:
                return None
            if self.who and k[0] in ('config', 'mixed'):
                k = (self.who, k[1])
            v = self.val(k)
            if v == '?':
                return None
            if c.m == 'contains':
                return {(): 'Ok', ('@Ok', '.0'): v is not None}
            if c.m == 'get_as_req':
                return {(): 'Ok', ('@Ok', '.0'): v} if isinstance(v, (bool, int)) else {(): 'Ok' if v is not None else 'Err'}
            out = {(): 'Ok', ('@Ok', '.0'): 'None' if v is None else 'Some'}
            if c.m == 'get_as' and isinstance(v, (bool, int)):
                out[('@Ok', '.0', '@Some', '.0')] = v
            return out
        if c.m in ('extract', 'is_truthy') and c.args:
            o = self.rd.origin(c.args[0])
            if len(o) == 1:
                v = self.val(next(iter(o)))
                if v not in ('?', None):
                    return {(): 'Ok', ('@Ok', '.0'): v} if isinstance(v, (bool, int)) else {(): 'Ok'}
            return None
        if c.m in ('is_instance_of', 'is_instance') and c.args:
            o = self.rd.origin(c.args[0])
            vs = {self.val(k) for k in o} - {None}
            if vs and all(isinstance(v, str) and v != '?' for v in vs):
                r = c.m == 'is_instance_of' and any('PyString' in self.g.p.ts(t) for t in c.ga)
                return {(): r} if c.m == 'is_instance_of' else {(): 'Ok', ('@Ok', '.0'): False}
            return None
        if c.m in ('downcast', 'downcast_into', 'to_str', 'to_cow') and c.args:
            o = self.rd.origin(c.args[0])
            vs = {self.val(k) for k in o} - {None}
            if vs and all(isinstance(v, str) and v != '?' for v in vs) and (c.m.startswith('to_') or 'PyString' in self.g.p.ts(self.g.ltypes[c.dest[0]])):
                return {(): 'Ok'}
            return None
        if c.m in ('transpose', 'flatten') and c.args:
            o = self.rd.origin(c.args[0])
            vs = {self.val(k) for k in o}
            if o and '?' not in vs:
                some = 'None' if vs == {None} else 'Some'
                return {(): 'Ok', ('@Ok', '.0'): some} if c.m == 'transpose' else {(): some}
        if c.m in ('eq', 'ne') and len(c.args) == 2:
            for a, b in (c.args, c.args[::-1]):
                lit = lit_of(self.g, b)
                if lit is None or isinstance(a, dict):
                    continue
                o = self.rd.origin(a)
                if not o:
                    continue
                vs = {self.val(k) for k in o} - {None}
                if not vs:
                    vs = {s[1] for s in self.g.sources(a, stop=is_read) if s[0] == 'str'}
                if len(vs) == 1:
                    v = vs.pop()
                    if isinstance(v, str) and v != '?':
                        return {(): (v == lit) == (c.m == 'eq')}
        return None

    def bin(self, rv, node):
        return None

    def discr(self, key, node, adt):
        return None

    def boolean(self, place, node):
        return None


def evaluate(rd, val):
    """{(struct, variant, field): set of values} over every construction reached under the scenario"""
    w = rd.watch()
    f = fl.Flow(rd.g, assume=Scenario(rd, val), watch=w)
    out = {}
    for nid, k in w:
        rv = rd.g.nodes[nid].stmts[k][1]
        for i in f.at.get(nid, ()):
            for name, v in zip(rv[3], f.values(i, k)):
                x = v.get(())
                if x == 'Some':
                    x = v.get(('@Some', '.0'), 'Some')
                out.setdefault((rv[1], rv[2], name), set()).add(x)
    return out, f.capped


# ------------------------------------------------------------------ rules
# declared keys whose value only shows when other keys are present
CONTEXT = {('default', 'on_error'): {'default'}, ('str', 'regex_engine'): {'pattern'}}
# how a documented alternative shows in a flag of the built validator, where the value is not an enum named after it
FLAGS = {
    ('arguments', 'mode'): {'positional': {'positional_only': True, 'positional_or_keyword': True, 'keyword_only': False},
                            'kwarg_key': {'positional_only': None, 'positional_or_keyword': 'Some', 'keyword_only': 'Some'}},
    ('model', 'extra_behavior'): {'has_extra': {'allow': True, 'forbid': False, 'ignore': False}},
    ('typed-dict', 'extra_behavior'): {'mode': {'allow': 'TypedDictAllow', 'forbid': 'SimpleDict', 'ignore': 'SimpleDict'}},
    ('dataclass-args', 'extra_behavior'): {'mode': {'allow': 'TypedDictAllow', 'forbid': 'SimpleDict', 'ignore': 'SimpleDict'}},
    ('model-fields', 'extra_behavior'): {'mode': {'allow': 'ModelExtra', 'forbid': 'SimpleDict', 'ignore': 'SimpleDict'}},
}
DEFAULT_OF = {'extra_behavior': 'ignore', 'when_used': 'json-unless-none', 'on_error': 'raise', 'var_kwargs_mode': 'uniform',
              ('arguments-v3', 'extra_behavior'): 'forbid', ('arguments', 'mode'): 'positional_or_keyword', ('arguments-v3', 'mode'): 'positional_or_keyword'}
# literals whose alternatives are parsed outside this crate, or select a whole validator (checked by `read`)
FOREIGN = {'microseconds_precision', 'sub_type', 'version'}
# the serializer of a typed dict without a config of its own uses the enclosing one (its validator does not)
INHERITS = {('serializer', 'typed-dict')}
NOT_CONFIG = {'config', 'title'}
# config keys not read by a builder but where the validator/serializer objects themselves are created
FN_NESTED = ('function-before', 'function-after', 'function-plain', 'function-wrap')
RUST_OF = {
    'bool': {'bool'}, 'int': {'usize', 'u64', 'i64', 'u8', 'u16', 'u32', 'i32', 'isize'},
    'str': {'String', 'PyString', 'PyBackedStr', '&str'}, 'list': {'PyList', 'Vec'}, 'dict': {'PyDict'}, 'time': {'PyTime', 'PyAny'},
    'type': {'PyType', 'PyAny'}, 'literal': {'PyString', 'String', 'u8', 'PyBackedStr'},
}


def has(a, name):
    return any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(a))


def kind_of(a):
    s = ast.unparse(a)
    if s == 'bool':
        return 'bool'
    if s == 'int':
        return 'int'
    if s == 'str':
        return 'str'
    if s == 'time':
        return 'time'
    if s.startswith('list['):
        return 'list'
    if s.startswith('dict[') or s == 'CoreConfig':
        return 'dict'
    if s.startswith('type['):
        return 'type'
    if s.startswith('Literal[') and isinstance(literals(a)[0], str):
        return 'literal'
    return None


def inner(t):
    """short name of the extracted Rust type behind Option/Bound/Py"""
    while True:
        m = re.match(r"^(?:std::option::Option|pyo3::Bound|pyo3::Py)<(?:'\w+, )?(.*)>$", t)
        if not m:
            break
        t = m.group(1)
    return t.split('<')[0].split('::')[-1]


class Unit:
    """one registered builder"""

    def __init__(self, p, gr, side, t, ty, fn):
        self.side, self.t, self.ty, self.fn = side, t, ty, fn
        self.rd = Reads(p, fn)
        self.keys = gr.keys(t)
        self.nested = {}
        for c in NESTED.get(t, ()):
            self.nested.update(gr.cls[c])
        if t in FN_NESTED and side == 'validator':
            self.nested.update(gr.cls['NoInfoValidatorFunctionSchema'])
            self.nested.update(gr.cls['WithInfoValidatorFunctionSchema'])
        self.req = gr.required(t)
        self.nreq = set().union(*[gr.req[c] for c in NESTED.get(t, ())])
        self.own_config = 'config' in self.keys
        self.where = u.where(fn)
        self.read = {(r, k) for r, k, c in self.rd.sites}
        self.memo = {}

    def scenario(self, S, C, N='=', only=None, present=(), own=True):
        """S/C/N: value of every schema / config / nested key (None: absent)"""
        if N == '=':
            N = S

        def val(k):
            root, key = k
            if only is not None and key in only and root in ('schema', 'nested'):
                return only[key]
            if root == 'schema':
                if key == 'config' and self.own_config:
                    return OWN if C is not None and own else None
                v = S
                if key in present:
                    return '<text>'
                if v is None and key in self.req:
                    v = SCH
                return tok(v, key)
            if root == PAR and self.own_config and own:
                # the config of the enclosing schema, shadowed by this one: its use would show
                return tok(PAR, key) if C == CFG else (not C if isinstance(C, bool) else None)
            if root in ('config', OWN, PAR):
                return tok(C, key)
            if root == 'nested':
                return tok(SCH if N is None and key in self.nreq else N, key)
            return '?'
        key = (S, C, N, repr(only), tuple(present), own)
        if key not in self.memo:
            seed = {}
            g = self.rd.g
            if len(g.arg_locals) > 1:
                seed[(g.arg_locals[1], ())] = 'None' if C is None else 'Some'
                if C is not None:
                    seed[(g.arg_locals[1], ('@Some', '.0'))] = PAR
            self.memo[key] = self.run(val, seed)
        return self.memo[key]

    def run(self, val, seed):
        w = self.rd.watch()
        f = fl.Flow(self.rd.g, assume=Scenario(self.rd, val), watch=w, seed=seed)
        out = {}
        for nid, k in w:
            rv = self.rd.g.nodes[nid].stmts[k][1]
            for i in f.at.get(nid, ()):
                for name, v in zip(rv[3], f.values(i, k)):
                    x = v.get(())
                    if x == 'Some':
                        x = v.get(('@Some', '.0'), 'Some')
                    elif x == 'None':
                        x = 'absent'
                    out.setdefault((rv[1], name), set()).add(x)
        self.capped = f.capped
        return out


def units(p, gr, rep):
    vt = table(p, 'validators::build_validator', rep, 'validators')
    st = table(p, 'serializers::shared::CombinedSerializer::find_serializer', rep, 'serializers')
    out = []
    for side, tb, tr in (('validator', vt, 'validators::BuildValidator'), ('serializer', st, 'serializers::shared::BuildSerializer')):
        impls = {(s.get('d') or s['s']): f for s, f in p.trait_impls(tr, 'build')}
        for t, ty in sorted(tb.items()):
            if ty in impls:
                out.append(Unit(p, gr, side, t, ty, impls[ty]))
            else:
                rep.ob('registered', f'{side}:{t}', False, f'{t} is dispatched to {ty}, which has no build function', '')
    return vt, st, out


def run(p, rep, tier):
    gr = Grammar(os.path.join(rep.repo, PY))
    rep.rule('registered', 'every type literal of CoreSchemaType is dispatched to a builder whose expected type it is, for validation and for serialization, and no other is')
    rep.rule('read', 'every declared key of a schema (and of its nested dictionaries) is read by the validator or the serializer built for its type; every declared config key is read somewhere')
    rep.rule('value', 'the option stored under the name of a key is the value of that key: the schema value wins over the documented config key, that one over the documented default')
    rep.rule('literal', 'every documented alternative of an option is accepted and selects the behaviour of that name; absent selects the documented default')
    rep.rule('nested', 'the schema under a key is built and ends in the field named after that key, not under another one')
    rep.rule('nested-config', 'a nested schema is built with the config in force: the enclosing one, or the own config of the types that have one')
    rep.rule('type', 'the Rust type a key is extracted to accepts the declared type')
    rep.rule('builder', 'the public schema function puts each parameter under the key of its name, and covers exactly the declared keys')
    vt, st, us = units(p, gr, rep)
    check_registered(p, gr, rep, vt, st)
    check_read(p, gr, rep, us)
    for x in us:
        check_value(p, gr, rep, x)
        check_literal(p, gr, rep, x)
        check_nested(p, gr, rep, x)
        check_types(p, gr, rep, x)
    check_config(p, gr, rep)
    check_builders(gr, rep)
    rep.floor('validators registered', 49)
    rep.floor('serializers registered', 50)
    rep.floor('option values decided', 100)
    rep.floor('option alternatives decided', 60)
    rep.floor('nested schemas followed', 60)
    rep.floor('schema functions', 60)
    rep.floor('nested builds given a config', 60)


def check_registered(p, gr, rep, vt, st):
    lits = None
    for n in gr.tree.body:
        t = n.target if isinstance(n, ast.AnnAssign) else n.targets[0] if isinstance(n, ast.Assign) else None
        if isinstance(t, ast.Name) and t.id == 'CoreSchemaType':
            lits = literals(n.value)
    sere = next((literals(n.value) for n in gr.tree.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == 'ExpectedSerializationTypes'), [])
    if not lits:
        rep.ob('anchor', 'CoreSchemaType', False, 'literal list not found')
        return
    for t in lits:
        if t == 'invalid':
            continue
        rep.ob('registered', f'validator:{t}', t in vt, f'schema type {t!r} is declared but no validator is dispatched for it', PY)
        # lists of arguments cannot be serialized: both types are refused when the serializer is built
        rep.ob('registered', f'serializer:{t}', t in st or t == 'arguments-v3', f'schema type {t!r} is declared but no serializer is dispatched for it', PY)
    for t in set(vt) | set(st):
        rep.ob('registered', f'declared:{t}', t in lits or t in gr.types, f'a builder is dispatched for {t!r}, which is not declared', PY)
    # one builder per type: two type names sharing a builder must be declared to be the same
    for nm, tb in (('validator', vt), ('serializer', st)):
        inv = {}
        for t, ty in tb.items():
            inv.setdefault(ty, []).append(t)
        for ty, ts in inv.items():
            rep.ob('registered', f'{nm}-unique:{ty}', len(ts) == 1, f'{sorted(ts)} are all dispatched to {ty}', '')
    # a builder's name agrees with the type it is dispatched for
    for nm, tb in (('validator', vt), ('serializer', st)):
        for t, ty in tb.items():
            b = norm(re.sub(r'(Validator|Serializer)?(Builder)?$', '', ty.split('::')[-1]).replace('Build', ''))
            want = {norm(t), norm(NAME.get(t, t))}
            others = {norm(o) for o in tb if o != t} | {norm(NAME[o]) for o in tb if o != t and o in NAME}
            rep.ob('registered', f'{nm}-builder:{t}', b in want or b not in others, f'{t} is dispatched to {ty}, the builder of another type', '')
            rep.count('type dispatches')


NAME = {'default': 'WithDefault', 'lax-or-strict': 'LaxOrStrict'}


def check_read(p, gr, rep, us):
    by = {}
    for x in us:
        by.setdefault(x.t, []).append(x)
    # serializers selected outside the dispatch table (function serializers): keyed by the declared class
    reg = {x.fn.path for x in us}
    loose = set()
    for s, f in p.trait_impls('serializers::shared::BuildSerializer', 'build'):
        if f.path not in reg:
            loose |= {k for r, k, c in Reads(p, f).sites}
    for t, cs in sorted(gr.types.items()):
        if t not in by:
            continue
        read = set().union(*[x.read for x in by[t]])
        for c in cs:
            sercls = c.endswith('SerSchema')
            have = {k for r, k in read if r == 'schema'}
            if sercls:
                have |= loose | {'return_schema'}
            for k in sorted(gr.cls[c]):
                if k in INFORMATIVE:
                    continue
                rep.ob('read', f'{t}.{k}' if not sercls else f'{c}.{k}', k in have, f'`{k}` of {c} is declared but neither the validator nor the serializer of {t!r} reads it: setting it has no effect', by[t][0].where)
                rep.count('declared keys')
        nested = {}
        for c in NESTED.get(t, ()):
            nested.update(gr.cls[c])
        if t in FN_NESTED:
            nested.update(by[t][0].nested)
        haven = {k for r, k in read if r in ('nested', 'schema')}
        for k in sorted(nested):
            if k in INFORMATIVE and t not in FN_NESTED:
                continue
            rep.ob('read', f'{t}[].{k}', k in haven, f'`{k}` of the entries of {t!r} is declared but never read', by[t][0].where)
            rep.count('declared keys')


def check_value(p, gr, rep, x):
    ks = dict(x.nested)
    ks.update(x.keys)
    exts = {}
    for r, k, c in x.rd.sites:
        if c.m.startswith('get_as') and r in ('schema', 'nested'):
            exts.setdefault(k, x.rd.extracted(c))
    cfgkeys = gr.cls['CoreConfig']
    scen = {
        'absent': x.scenario(None, None), 'schema': x.scenario(SCH, CFG, N=SCH), 'config': x.scenario(None, CFG),
        'st': x.scenario(True, False), 'sf': x.scenario(False, True), 'ct': x.scenario(None, True), 'cf': x.scenario(None, False),
    }
    fields = sorted({f for r in scen.values() for f in r})
    if x.own_config and (x.side, x.t) not in INHERITS:
        # the config of the enclosing schema must not leak into a type with a config of its own
        for (struct, f), got in sorted(x.scenario(None, CFG, own=False).items()):
            leak = [v for v in got if role_of(v) == CFG]
            rep.ob('value', f'{x.side}:{x.t}:{struct.split("::")[-1]}.{f}:parent', not leak, f'without a config of its own, {f} of {x.t} is {showall(got)}, taken from the enclosing config', x.where)
    for struct, f in fields:
        sn = struct.split('::')[-1]
        key = f'{x.side}:{x.t}:{sn}.{f}'
        if f in ks and (('schema', f) in x.read or ('nested', f) in x.read):
            isbool = exts.get(f) == 'bool'
            fb = FALLBACK.get(x.t, {}).get(f) or (f if f in cfgkeys and f not in NOT_CONFIG else None)
            if f == EXTRA or ast.unparse(ks[f]).startswith('Union['):
                continue
            if f not in x.keys and f in gr.cls['ComputedField'] and any(c != 'ComputedField' for c in NESTED.get(x.t, ())) and (
                    ('Computed' in sn) != (f not in gr.cls[NESTED[x.t][0]])):
                continue
            runs = [('schema', tok(SCH, f))] + ([('st', True), ('sf', False)] if isbool else [])
            seen = [(s, v, scen[s].get((struct, f), set())) for s, v in runs]
            if isbool and seen[0][2] <= {True, False}:
                seen = seen[1:]
            if not any(any(isinstance(y, (bool, int)) for y in got) for s, v, got in seen):
                # not a value the analysis follows (an object, a nested validator): presence only
                got = scen['schema'].get((struct, f), set())
                if got == {'Some'}:
                    ab = scen['absent'].get((struct, f), {'absent'})
                    rep.ob('value', f'{key}:absent', ab <= {'absent'} or f in x.req, f'without `{f}`, {sn}.{f} is {sorted(map(str, ab))} instead of None', x.where)
                continue
            for s, v, got in seen:
                if got:
                    rep.ob('value', f'{key}:{s}', got == {v}, f'with schema[{f!r}] = {show(v)} (config: {show(not v) if isinstance(v, bool) else 'another value'}), {sn}.{f} is {showall(got)}', x.where)
                    rep.count('option values decided')
            nested_only = f not in x.keys
            if f in x.req or nested_only and f in x.nreq:
                continue
            dfl = default_value(gr, x, f, exts.get(f), fb)
            if nested_only:
                got = scen['absent'].get((struct, f))
                if (x.t, f) in DEFAULT_KEY:
                    for v in (True, False):
                        r = x.scenario(None, None, only={DEFAULT_KEY[x.t, f]: v}).get((struct, f))
                        if r:
                            rep.ob('value', f'{key}:default={v}', r == {v}, f'without {f!r} and with {DEFAULT_KEY[x.t, f]!r} = {show(v)}, {sn}.{f} is {showall(r)}', x.where)
                if got and isbool and documented_bool(gr, x, f):
                    rep.ob('value', f'{key}:absent', got <= dfl, f'without {f!r} {sn}.{f} must be {showall(dfl)}, it is {showall(got)}', x.where)
                continue
            cruns = [('config', tok(CFG, fb or f))] + ([('ct', True), ('cf', False)] if isbool else [])
            if isbool and scen['config'].get((struct, f), set()) <= {True, False}:
                cruns = cruns[1:] if fb else cruns
            for s, v in cruns:
                got = scen[s].get((struct, f))
                if not got:
                    continue
                if fb:
                    rep.ob('value', f'{key}:{s}', got == {v}, f'with config[{fb!r}] = {show(v)} and no schema[{f!r}], {sn}.{f} is {showall(got)}', x.where)
                elif dfl is not None:
                    rep.ob('value', f'{key}:{s}', got <= dfl, f'{f!r} has no config key: without it {sn}.{f} must be {showall(dfl)}, it is {showall(got)}', x.where)
            got = scen['absent'].get((struct, f))
            if got and dfl is not None:
                rep.ob('value', f'{key}:absent', got <= dfl, f'without {f!r} {sn}.{f} must be {showall(dfl)}, it is {showall(got)}', x.where)
        elif f in cfgkeys and any(r == 'config' for r, k in x.read):
            for s, v in (('ct', True), ('cf', False), ('config', tok(CFG, f))):
                got = scen[s].get((struct, f))
                if got and any(isinstance(y, (bool, int)) for y in got) and not (s == 'config' and got <= {True, False}):
                    rep.ob('value', f'{key}:{s}', got == {v}, f'with config[{f!r}] = {show(v)}, {sn}.{f} is {showall(got)}', x.where)
                    rep.count('option values decided')
            d = gr.defaults['CoreConfig'].get(f)
            got = scen['absent'].get((struct, f))
            if d in ('True', 'False') and got and not any(g == 'absent' for g in got):
                rep.ob('value', f'{key}:absent', got == {d == 'True'}, f'{f!r} defaults to {d}, {sn}.{f} is {showall(got)} without it', x.where)


def role_of(v):
    return next((role for (role, k), t in _TOK.items() if t == v), None) if isinstance(v, int) and not isinstance(v, bool) else None


def ext_of(x, k):
    for r, kk, c in x.rd.sites:
        if kk == k and r == 'config':
            return x.rd.extracted(c)
    return None


# keys whose documented default is the value of another key of the enclosing schema
DEFAULT_KEY = {('typed-dict', 'required'): 'total'}


def default_value(gr, x, f, T, fb):
    d = gr.default(x.t, f)
    for c in NESTED.get(x.t, ()):
        if d is None and f in gr.cls[c]:
            d = gr.defaults[c].get(f)
    if (x.t, f) in DEFAULT_KEY:
        return default_value(gr, x, DEFAULT_KEY[x.t, f], T, fb)
    if T == 'bool':
        if d is None and fb:
            d = gr.defaults['CoreConfig'].get(fb)
        ok = {d == 'True'} if d in ('True', 'False', 'true', 'false') else {False}
        if d == 'true':
            ok = {True}
        ok.add('absent')
        return ok
    return {'absent', None} if T in ('usize', 'u64', 'i32', 'u16', 'u8') else None


def documented_bool(gr, x, f):
    """every nested class of the schema that declares f documents (or leaves) the same default"""
    ds = {gr.defaults[c].get(f) for c in NESTED.get(x.t, ()) if f in gr.cls[c]}
    return len(ds) == 1


def show(v):
    if isinstance(v, int) and not isinstance(v, bool):
        for (role, k), t in _TOK.items():
            if t == v:
                return f"<{'schema' if role == SCH else 'enclosing config' if role == PAR else 'config'}[{k!r}]>"
    return 'None' if v == 'absent' else v


def showall(s):
    return '/'.join(sorted(str(show(v)) if v is not None else 'something else' for v in s))


def check_literal(p, gr, rep, x):
    ks = {k: a for k, a in x.nested.items()}
    ks.update(x.keys)
    for k, a in sorted(ks.items()):
        L = literals(resolve(gr, a))
        if k in ('type', 'microseconds_precision') or k in FOREIGN or len(L) < 2 or not all(isinstance(v, str) for v in L):
            continue
        if not (('schema', k) in x.read or ('nested', k) in x.read):
            continue
        present = CONTEXT.get((x.t, k), ())
        res = {v: x.scenario(None, None, N=SCH, only={k: v}, present=present) for v in L + [None]}
        flags = FLAGS.get((x.t, k), {})
        fields = sorted({f for r in res.values() for f in r})
        named, found = {norm(v): v for v in L}, False
        for f in fields:
            vs = {v: res[v].get(f, set()) for v in res}
            sn = f'{f[0].split("::")[-1]}.{f[1]}'
            if f[1] in flags and any(vs.values()) and x_has(vs, set(flags[f[1]].values())):
                found = True
                for v in L:
                    want = flags[f[1]][v]
                    want = 'absent' if want is None else want
                    rep.ob('literal', f'{x.side}:{x.t}.{k}={v}:{f[1]}', vs[v] == {want}, f'{k}={v!r}: {sn} must be {want}, it is {showall(vs[v])}', x.where)
                    rep.count('option alternatives decided')
                dfl = documented(gr, x, k)
                if dfl in L:
                    rep.ob('literal', f'{x.side}:{x.t}.{k}=:{f[1]}', vs[None] == vs[dfl], f'without {k!r}, {sn} is {showall(vs[None])}, documented default {dfl!r} gives {showall(vs[dfl])}', x.where)
                continue
            variants = {v for got in vs.values() for v in got if isinstance(v, str) and v not in ('absent', 'Some')}
            if not variants or not {norm(v) for v in variants} <= set(named):
                continue
            if len({frozenset(vs[v]) for v in L}) < 2:
                continue  # does not depend on the option
            found = True
            for v in L:
                rep.ob('literal', f'{x.side}:{x.t}.{k}={v}:{f[1]}', {norm(g) for g in vs[v]} == {norm(v)}, f'{k}={v!r} selects {showall(vs[v])} for {sn}', x.where)
                rep.count('option alternatives decided')
            dfl = documented(gr, x, k)
            if vs[None]:
                rep.ob('literal', f'{x.side}:{x.t}.{k}=:{f[1]}', dfl is None and vs[None] <= {'absent'} or {norm(g) for g in vs[None]} == {norm(dfl)}, f'without {k!r} {showall(vs[None])} is selected for {sn}, documented default {dfl!r}', x.where)
        rep.ob('literal', f'{x.side}:{x.t}.{k}', found or k in x.nested and x.side == 'serializer', f'no field of the built {x.t} {x.side} depends on which alternative of {k!r} is given', x.where)


def x_has(vs, want):
    want = {'absent' if w is None else w for w in want}
    return any(got & want for got in vs.values())


def documented(gr, x, k):
    d = DEFAULT_OF.get((x.t, k)) or gr.default(x.t, k) or DEFAULT_OF.get(k)
    return d or gr.defaults['CoreConfig'].get(k)


def base_name(s):
    return re.sub(r'_?(validators?|serializers?|schema)$', '', s)


def check_nested(p, gr, rep, x):
    g = x.rd.g
    builds = []
    for c in g.calls:
        if not c.inlined and c.args and (c.m in ('build_validator', 'build_specific_validator', 'find_serializer', '_build') or c.m == 'build' and ('Serializer' in c.name or 'Build' in str(c.trait))):
            builds.append((c, x.rd.origin(c.args[0])))
    for c, o in builds:
        if len(c.args) < 2:
            continue
        hit = []

        def stop(cc):
            if is_read(cc):
                hit.append(lit_of(g, cc.args[1]))
                return True
            return False
        ss = set() if isinstance(c.args[1], dict) else g.sources(c.args[1], stop=stop)
        src = set(hit) | {'enclosing' for s in ss if s[0] == 'arg' and s[1] == 1}
        want = 'config' if x.own_config else 'enclosing'
        rep.ob('nested-config', f'{x.side}:{x.t}:{"+".join(sorted(k for _, k in o)) or c.m}', want in src, f'a nested schema is built with a config that comes from {sorted(map(str, src)) or "nothing"} instead of the {"config of the schema itself" if x.own_config else "enclosing config"}', g.where(c.node))
        rep.count('nested builds given a config')
    built = {k for c, o in builds for k in o}
    allk = [('schema', k, a) for k, a in x.keys.items()] + [('nested', k, a) for k, a in x.nested.items()]
    skeys = [k for r, k, a in allk if has(a, 'CoreSchema') or has(a, 'SerSchema')]
    for r, k, a in allk:
        if k not in skeys or k in INFORMATIVE or (r, k) not in x.read:
            continue
        rep.ob('nested', f'{x.side}:{x.t}.{k}:built', any(o[1] == k for o in built), f'the schema under {k!r} is read but never built', x.where)
        rep.count('nested schemas followed')
    for nid, pl, rv, ln in g.aggs():
        if not rv[3] or not rv[1].startswith(('validators::', 'serializers::')):
            continue
        for f, o in zip(rv[3], rv[4]):
            cand = [k for k in skeys if base_name(k) in (base_name(f), base_name(f) + 's')] if base_name(f) else []
            if len(cand) != 1 or not (f.endswith(('validator', 'serializer', 'validators', 'serializers')) or f in ('json', 'python')) or isinstance(o, dict):
                continue
            got = []

            def stop(c):
                if any(c is b for b, _ in builds):
                    got.append(c)
                    return True
                return False
            g.sources(o, stop=stop)
            keys = {k for b, oo in builds for c in got if c is b for r, k in oo if k in skeys}
            if keys:
                rep.ob('nested', f'{x.side}:{x.t}:{rv[1].split("::")[-1]}.{f}', keys == set(cand), f'{f} is built from the schema under {sorted(keys)}, expected {cand[0]!r}', g.where(nid))
                rep.count('nested schemas followed')


def check_types(p, gr, rep, x):
    for r, k, c in x.rd.sites:
        if not c.m.startswith('get_as'):
            continue
        src = x.keys if r == 'schema' else gr.cls['CoreConfig'] if r == 'config' else x.nested
        if k not in src:
            continue
        kd = kind_of(resolve(gr, src[k]))
        T = x.rd.extracted(c)
        if kd is None or T is None or '::' not in T and not T.islower() and T not in ('String',):
            continue
        i = inner(T)
        if i in ('PyAny',) or i in p_local(p):
            continue
        rep.ob('type', f'{x.side}:{x.t}.{k}', i in RUST_OF[kd], f'`{k}` is declared {ast.unparse(src[k])}, it is extracted to {T}', x.rd.g.where(c.node))
        rep.count('extractions typed')


def p_local(p):
    return {a.split('::')[-1] for a in p.adts if p.adts[a].local} if p.adts else set()


def check_config(p, gr, rep):
    """config keys read outside the builders: every declared key is read somewhere, every alternative is selected by its name"""
    seen = set()
    for path, fn in p.fns.items():
        ss = p.body_strings(path)
        seen |= {s for s in ss if s in gr.cls['CoreConfig']}
    for k in gr.cls['CoreConfig']:
        rep.ob('read', f'config.{k}', k in seen, f'config key {k!r} is declared but nothing in the crate names it', PY)
        rep.count('declared keys')
    for s, fn in p.trait_impls('serializers::config::FromConfig', 'from_config') + [({'s': f.path.rsplit('::', 1)[0]}, f) for pth, f in p.fns.items() if pth.endswith('ValBytesMode::from_config')]:
        g = mir.Graph(p, fn, noinline=opaque, extra_inline=extra(p))
        ks = {lit_of(g, c.args[1]) for c in g.calls if is_read(c)} - {None}
        rep.ob('literal', f'config:{u.short(s["s"])}', len(ks) == 1, f'{fn.path} reads {sorted(ks)}', u.where(fn))
        if len(ks) != 1:
            continue
        k = next(iter(ks))
        L = literals(resolve(gr, gr.cls['CoreConfig'].get(k, ast.Constant(None))))
        rd = Reads.__new__(Reads)
        rd.p, rd.g, rd.memo, rd.omemo, rd.sites = p, g, {}, {}, []
        rd.key = lambda c: ('config', lit_of(g, c.args[1])) if is_read(c) and lit_of(g, c.args[1]) else None
        for v in L + [None]:
            f = fl.Flow(g, assume=Scenario(rd, lambda kk, v=v: v), seed={(g.arg_locals[0], ()): 'Some'}, force_roots=(g.ret_local,))
            got = set()
            for i in f.exits:
                env = f.env(i)
                tops = env.get((g.ret_local, ()))
                if tops == 'Ok':
                    got |= {vv for (l, pj), vv in env.items() if l == g.ret_local and len(pj) >= 2 and isinstance(vv, str)} or {None}
            want = v or gr.defaults['CoreConfig'].get(k)
            rep.ob('literal', f'config.{k}={v or ""}:{u.short(s["s"])}', {norm(x) for x in got} == {norm(want)}, f'{k}={v!r} selects {showall(got)}', u.where(fn))
            rep.count('option alternatives decided')


def check_builders(gr, rep):
    for name, fn in sorted(gr.fns.items()):
        rt = ast.unparse(fn.returns) if fn.returns is not None else ''
        if rt not in gr.cls:
            continue
        cls = gr.cls[rt]
        a = fn.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        passed = {}

        def keys_of(e):
            if isinstance(e, ast.Name):
                for n in ast.walk(fn):
                    if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                        t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                        if isinstance(t, ast.Name) and t.id == e.id:
                            keys_of(n.value)
                        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == e.id and isinstance(t.slice, ast.Constant):
                            passed.setdefault(t.slice.value, []).append(n.value)
            elif isinstance(e, ast.Call) and ast.unparse(e.func) in ('_dict_not_none', 'dict', rt):
                for kw in e.keywords:
                    if kw.arg:
                        passed.setdefault(kw.arg, []).append(kw.value)
                    else:
                        keys_of(kw.value)
            elif isinstance(e, ast.Dict):
                for kk, vv in zip(e.keys, e.values):
                    if isinstance(kk, ast.Constant):
                        passed.setdefault(kk.value, []).append(vv)
            elif isinstance(e, ast.IfExp):
                keys_of(e.body)
                keys_of(e.orelse)
        for n in ast.walk(fn):
            if isinstance(n, ast.Return) and n.value is not None:
                keys_of(n.value)
        if not passed:
            continue
        deleg = [n for n in ast.walk(fn) if isinstance(n, ast.Return) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func) in gr.fns and ast.unparse(n.value.func) != '_dict_not_none']
        if deleg:
            continue
        rep.count('schema functions')
        w = f'{PY}:{fn.lineno}'
        for k, vals in sorted(passed.items()):
            rep.ob('builder', f'{name}:{k}:declared', k in cls or k in INFORMATIVE, f'{name} sets {k!r}, which {rt} does not declare', w)
            names = {n.id for v in vals for n in ast.walk(v) if isinstance(n, ast.Name)}
            used = names & set(params)
            if k in params:
                rep.ob('builder', f'{name}:{k}:value', k in used, f'{name}: key {k!r} is filled from {sorted(used)}, not from the parameter of that name', w)
            elif len(used) == 1 and next(iter(used)) in cls:
                rep.ob('builder', f'{name}:{k}:value', False, f'{name}: key {k!r} is filled from the parameter {next(iter(used))!r}', w)
        for k in cls:
            rep.ob('builder', f'{name}:{k}:settable', k in passed or k in INFORMATIVE, f'{rt} declares {k!r} but {name} cannot set it', w)
        t = passed.get('type')
        if t and 'type' in cls and isinstance(t[0], ast.Constant):
            rep.ob('builder', f'{name}:type', t[0].value in literals(cls['type']), f'{name} builds type {t[0].value!r}, {rt} is {literals(cls["type"])}', w)

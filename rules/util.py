"""helpers shared by the rules"""
import mir
import flow as fl

SER_NOINLINE = ('serializers::infer::', 'serializers::ob_type::', 'serializers::filter::', 'serializers::extra::CollectWarnings', 'serializers::shared::PydanticSerializer')


def ser_noinline(path):
    return path.startswith(SER_NOINLINE)


def strip(proj):
    return tuple(e for e in proj if e != '*')


_graphs = {}


def graph(p, fn, noinline=None, **kw):
    key = (id(p), fn.path, noinline.__name__ if noinline else None, repr(sorted(kw.items(), key=str)))
    if key not in _graphs:
        _graphs[key] = mir.Graph(p, fn, noinline=noinline, **kw)
    return _graphs[key]


_flows = {}


def flow(g):
    if id(g) not in _flows:
        _flows[id(g)] = fl.Flow(g)
    return _flows[id(g)]


def args_from(g, op, idx=None):
    """set of (arg index, projection) op may derive from"""
    return {(s[1], strip(s[2])) for s in g.sources(op) if s[0] == 'arg'}


def tyname(p, ti):
    """ADT path of a type behind references"""
    t = p.T(ti)
    while t.get('k') == 'ref':
        t = p.T(t['a'][0])
    return t.get('d') or t['s']


def where(fn):
    return f'{fn.file}:{fn.line}'


def fn_of_type(p, t):
    return t.get('d') or t['s']


def short(path):
    return path.split('::')[-1]


# leaf methods that process nested data
VALIDATE = {'validate', 'validate_assignment'}
SERIALIZE = {'to_python', 'serde_serialize', 'json_key'}


def named_nodes(g, pred):
    """nodes that use a named constant whose path satisfies pred"""
    def hit(o):
        return isinstance(o, dict) and 'named' in o and pred(o['named'])
    out = []
    for n in g.nodes:
        ops = [o for pl, rv, ln in n.stmts for o in mir.operands_of(rv)]
        if n.term[0] == 'call':
            ops += n.term[1].args
        if any(hit(o) for o in ops):
            out.append(n.id)
    return out

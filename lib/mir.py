"""Program model over the facts dumped by /verif/driver (MIR of /repo's crate).

Three layers, all purely static:
  Prog   - types, ADTs, impls and function bodies;
  Graph  - an interprocedural CFG for one entry function: crate-local helpers, closures and the std
           Option/Result combinators are spliced in, so that extracting a helper or writing `match`
           as `map_err` does not change what a rule sees;
  Flow   - the graph exploded by "which enum variant / bool constant is this place known to hold",
           so that reachability queries do not follow the infeasible edges of `?` and flag variables.
Values are followed backwards by def-use chains (Graph.term / Graph.sources).
"""
import json
import sys
from collections import defaultdict, deque

sys.setrecursionlimit(20000)


class Fn:
    __slots__ = ('path', 'd', 'kind', 'file', 'line', 'name')

    def __init__(self, d):
        self.d = d
        self.path = d['path']
        self.kind = d['kind']
        self.file = d['file']
        self.line = d['line']
        self.name = d.get('name', '')

    @property
    def blocks(self):
        return self.d['blocks']

    @property
    def locals(self):
        return self.d['locals']

    def __repr__(self):
        return f'<Fn {self.path}>'


class Adt:
    def __init__(self, d):
        self.path = d['path']
        self.k = d['k']
        self.local = d['local']
        self.file = d['file']
        self.line = d['line']
        self.generics = d['g']
        self.variants = [(v[0], v[1], [(f[0], f[1]) for f in v[2]]) for v in d['v']]
        self.by_discr = {v[1]: v[0] for v in self.variants}
        for v in self.variants:
            if isinstance(v[1], int) and 128 <= v[1] < 256:
                self.by_discr.setdefault(v[1] - 256, v[0])

    def fields(self, variant=None):
        for n, _, fs in self.variants:
            if variant is None or n == variant:
                return fs
        return []


class Prog:
    def __init__(self, path):
        with open(path) as f:
            F = json.load(f)
        self.types = F['types']
        self.fns = {}
        for d in F['fns']:
            self.fns[d['path']] = Fn(d)
        self.adts = {d['path']: Adt(d) for d in F['adts']}
        self.impls = F['impls']
        self._callers = None
        self.by_trait = defaultdict(list)  # trait -> [(self type idx, impl)]
        for im in self.impls:
            if 'trait' in im:
                self.by_trait[im['trait']].append(im)

    def ts(self, i):
        return self.types[i]['s']

    def T(self, i):
        return self.types[i]

    def impl_fn(self, trait, self_path, method):
        """path of the method implemented for (a type whose ADT path is self_path)"""
        for im in self.by_trait[trait]:
            t = self.T(im['self'])
            if t.get('d') == self_path or t['s'] == self_path:
                for it in im['items']:
                    if it[0] == 'fn' and it[1] == method:
                        return self.fns.get(it[2])
        return None

    def trait_impls(self, trait, method):
        out = []
        for im in self.by_trait[trait]:
            for it in im['items']:
                if it[0] == 'fn' and it[1] == method and it[2] in self.fns:
                    out.append((self.T(im['self']), self.fns[it[2]]))
        return out

    def inherent(self, self_path, method):
        for im in self.impls:
            if 'trait' in im:
                continue
            t = self.T(im['self'])
            if t.get('d') == self_path or t['s'] == self_path:
                for it in im['items']:
                    if it[0] == 'fn' and it[1] == method and it[2] in self.fns:
                        return self.fns[it[2]]
        return None

    def find(self, suffix):
        return [f for p, f in self.fns.items() if p.endswith(suffix)]

    def closures_of(self, path):
        return [f for f in self.fns.values() if f.kind == 'closure' and f.path.startswith(path + '::{closure#')]

    # ---- static strings behind pyo3's intern! and const bodies
    def body_strings(self, path):
        f = self.fns.get(path)
        out = []
        if not f:
            return out
        bodies = [f.d] + f.d.get('promoted', [])
        for body in bodies:
            for b in body['blocks']:
                if not b:
                    continue
                for s in b['s']:
                    for o in operands_of(s[1]):
                        if isinstance(o, dict) and 'str' in o:
                            out.append(o['str'])
                t = b['t']
                if t[0] == 'call':
                    for o in t[2]:
                        if isinstance(o, dict) and 'str' in o:
                            out.append(o['str'])
        return out


def operands_of(rv):
    k = rv[0]
    if k in ('use', 'repeat', 'rawptr'):
        return [rv[1]]
    if k == 'ref':
        return [rv[2]]
    if k == 'cast':
        return [rv[2]]
    if k == 'bin':
        return [rv[2], rv[3]]
    if k == 'un':
        return [rv[2]]
    if k == 'discr':
        return [rv[1]]
    if k == 'adt':
        return rv[4]
    if k == 'closure':
        return rv[3]
    if k in ('array', 'tuple', 'agg'):
        return rv[1]
    return []


# --------------------------------------------------------------------------------------------
OPT = 'std::option::Option'
RES = 'std::result::Result'
CF = 'std::ops::ControlFlow'

# callee (resolved or not) whose result is its first argument, as far as provenance goes
TRANSPARENT_M = {
    'clone', 'clone_ref', 'as_ref', 'as_deref', 'as_mut', 'as_deref_mut', 'deref', 'deref_mut', 'borrow', 'borrow_mut', 'bind', 'unbind',
    'into_bound', 'as_any', 'into_any', 'cloned', 'copied', 'to_owned', 'into', 'bind_borrowed', 'as_borrowed',
    'as_slice', 'as_str', 'into_py_any', 'into_pyobject', 'into_bound_py_any', 'to_string', 'into_owned',
    'must_use', 'identity', 'borrow_input', 'as_unbound', 'into_inner_bound', 'by_ref', 'into_boxed_str', 'to_object', 'as_bytes', 'into_bytes',
    'into_py', 'extract', 'into_iter', 'iter', 'iter_mut',
    'as_value_ref', 'as_py',
}
# of those, the ones that keep the Option/Result variant
VARIANT_KEEP_M = {'clone', 'as_ref', 'as_deref', 'as_mut', 'as_deref_mut', 'cloned', 'copied', 'deref'}

STOP_TRAITS_PREFIX = (
    'validators::Validator', 'validators::BuildValidator', 'serializers::shared::TypeSerializer',
    'serializers::shared::BuildSerializer', 'serializers::shared::PydanticSerializer', 'input::input_abstract::Input', 'py_gc::PyGcTraverse', 'std::fmt::', 'serde::',
    'std::ops::Drop', 'std::clone::Clone', 'std::cmp::', 'std::default::Default',
    'std::convert::', 'std::ops::Deref', 'pyo3::', 'tools::SchemaDict', 'serializers::ob_type',
    'std::iter::', 'std::hash::', 'std::str::', 'input::', 'std::ops::', 'std::borrow', 'validators::', 'serializers::', 'common::', 'errors::', 'recursion_guard::', 'definitions::',
)


class Call:
    __slots__ = ('name', 'fn', 'm', 'trait', 'selfty', 'args', 'dest', 'ga', 'node', 'line', 'mac', 'inlined', 'const', 'frame', 'rets')

    def __repr__(self):
        return f'<Call {self.name} @{self.line}>'


class Node:
    __slots__ = ('id', 'frame', 'stmts', 'term', 'succ', 'line')

    def __init__(self, i, frame, line=0):
        self.id = i
        self.frame = frame
        self.stmts = []
        self.term = ('goto',)
        self.succ = []  # [(label, node id)]
        self.line = line


class Frame:
    __slots__ = ('id', 'fn', 'base', 'parent', 'callnode')

    def __init__(self, i, fn, base, parent, callnode):
        self.id = i
        self.fn = fn
        self.base = base
        self.parent = parent
        self.callnode = callnode


class Graph:
    MAXDEPTH = 7
    MAXNODES = 60000

    def __init__(self, prog, fn, inline=None, noinline=None, depth=None, extra_inline=(), devirt=None):
        """inline: optional predicate(path)->bool overriding the default policy;
        noinline: predicate(path) -> True to keep a call opaque; extra_inline: trait-impl paths to splice too"""
        self.p = prog
        self.entry_fn = fn
        self.nodes = []
        self.frames = []
        self.ltypes = []  # global local -> type idx (or None for synthetic)
        self.lnames = {}
        self.defs = defaultdict(list)  # gl -> [(proj, rvalue, node)]
        self.calls = []
        self.inline_pred = inline
        self.noinline = noinline
        self.extra_inline = extra_inline
        self.devirt = devirt or {}  # unresolved trait method name -> body to splice
        if depth is not None:
            self.MAXDEPTH = depth
        self.exit = self.new_node(None)
        self.exit.term = ('exit',)
        self.ret_local = self.new_local(None)
        args = []
        self.argc = fn.d['args']
        self.arg_locals = []
        for i in range(self.argc):
            gl = self.new_local(fn.locals[i + 1], fn.d['names'].get(str(i + 1)))
            self.arg_locals.append(gl)
            args.append((gl, ()))
        self.entry = self.splice(fn, args, (self.ret_local, ()), self.exit.id, None, None, [])
        self._term_memo = {}
        self._preds = None

    # ------------------------------------------------------------------ construction
    def new_node(self, frame, line=0):
        n = Node(len(self.nodes), frame, line)
        self.nodes.append(n)
        return n

    def new_local(self, ty, name=None):
        self.ltypes.append(ty)
        gl = len(self.ltypes) - 1
        if name:
            self.lnames[gl] = name
        return gl

    def addstmt(self, node, place, rv, line):
        node.stmts.append((place, rv, line))
        self.defs[place[0]].append((place[1], rv, node.id))

    def splice(self, fn, args, dest, ret_to, parent, callnode, stack, body=None):
        """copy fn's body into the graph; returns entry node id"""
        body = body or fn.d
        base = len(self.ltypes)
        fr = Frame(len(self.frames), fn, base, parent, callnode)
        self.frames.append(fr)
        for i, t in enumerate(body['locals']):
            self.ltypes.append(t)
            nm = body['names'].get(str(i))
            if nm:
                self.lnames[base + i] = nm
        blocks = body['blocks']
        nid = {}
        for i, b in enumerate(blocks):
            if b is not None:
                nid[i] = self.new_node(fr, b['l']).id
        pre = self.new_node(fr, fn.line)
        pre.succ = [(None, nid[0])]
        for i, a in enumerate(args):
            if i < body['args'] and a is not None:
                rv = ('use', a)
                self.addstmt(pre, (base + 1 + i, ()), rv, fn.line)
        def P(pl):
            proj = []
            for e in pl[1:]:
                if e.startswith('[_'):
                    e = '[]'
                proj.append(e)
            return (base + pl[0], tuple(proj))

        def O(op):
            return op if isinstance(op, dict) else P(op)

        calls = []
        for i, b in enumerate(blocks):
            if b is None:
                continue
            n = self.nodes[nid[i]]
            for pl, rv, ln in b['s']:
                k = rv[0]
                if k in ('use', 'repeat'):
                    r = (k, O(rv[1]))
                elif k == 'ref':
                    r = ('ref', rv[1], P(rv[2]))
                elif k == 'rawptr':
                    r = ('ref', True, P(rv[1]))
                elif k == 'cast':
                    r = ('cast', rv[1], O(rv[2]), rv[3])
                elif k == 'bin':
                    r = ('bin', rv[1], O(rv[2]), O(rv[3]))
                elif k == 'un':
                    r = ('un', rv[1], O(rv[2]))
                elif k == 'discr':
                    r = ('discr', P(rv[1]), rv[2])
                elif k == 'adt':
                    r = ('adt', rv[1], rv[2], tuple(rv[3]), tuple(O(o) for o in rv[4]))
                elif k == 'closure':
                    r = ('closure', rv[1], tuple(rv[2]), tuple(O(o) for o in rv[3]))
                elif k in ('array', 'tuple', 'agg'):
                    r = (k, tuple(O(o) for o in rv[1]))
                elif k == 'setdiscr':
                    r = ('setdiscr', rv[1])
                else:
                    r = ('other', str(rv[1:]))
                self.addstmt(n, P(pl), r, ln)
            t = b['t']
            k = t[0]
            if k == 'goto':
                n.succ = [(None, nid[t[1]])]
            elif k == 'switch':
                n.term = ('switch', O(t[1]), t[4])
                n.succ = [(v, nid[tb]) for v, tb in t[2] if tb in nid]
                if t[3] in nid:
                    n.succ.append(('else', nid[t[3]]))
            elif k == 'return':
                self.addstmt(n, dest, ('use', (base, ())), b['l'])
                n.term = ('ret', fr.id)
                n.succ = [(None, ret_to)]
            elif k == 'drop':
                n.term = ('drop', P(t[1]), t[3])
                n.succ = [(None, nid[t[2]])] if t[2] in nid else []
            elif k == 'assert':
                n.term = ('assert', O(t[1]), t[2], t[3])
                n.succ = [(None, nid[t[4]])] if t[4] in nid else []
            elif k == 'call':
                calls.append((n, t, nid))
            else:
                n.term = (k,)
                n.succ = []
        # calls last, so that closure values of this frame are resolvable
        for n, t, nid in calls:
            f, a, d, tg, ln, mac = t[1], t[2], t[3], t[4], t[5], t[6]
            c = Call()
            c.const = f if isinstance(f, dict) else None
            c.fn = f.get('fn', '') if isinstance(f, dict) else '<indirect>'
            c.name = (f.get('res') or f.get('fn', '')) if isinstance(f, dict) else '<indirect>'
            c.m = f.get('m') or c.fn.split('::')[-1] if isinstance(f, dict) else '<indirect>'
            c.trait = f.get('trait') if isinstance(f, dict) else None
            c.selfty = f.get('self') if isinstance(f, dict) else None
            c.ga = f.get('ga', []) if isinstance(f, dict) else []
            c.args = [O(x) for x in a]
            if not isinstance(f, dict):
                c.args = [O(f)] + c.args
            c.dest = P(d)
            c.line = ln
            c.mac = mac
            self.place_call(n, c, nid[tg] if tg is not None and tg in nid else None, fr, stack + [fn.path])
        return pre.id

    def place_call(self, n, c, target, fr, stack):
        c.node = n.id
        c.frame = fr
        c.inlined = False
        c.rets = []
        self.calls.append(c)
        n.term = ('call', c)
        n.line = c.line
        if target is None:
            # diverging: still record
            n.succ = []
            self.defs[c.dest[0]].append((c.dest[1], ('call', c), n.id))
            return
        if len(self.nodes) > self.MAXNODES:
            n.succ = [(None, target)]
            self.defs[c.dest[0]].append((c.dest[1], ('call', c), n.id))
            self._mutargs(c, n)
            return
        # 1. FnOnce/FnMut/Fn call on a known closure / fn value
        if c.trait in ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn') and c.m in ('call_once', 'call_mut', 'call'):
            av = self.tuple_args(c.args[1]) if len(c.args) > 1 else []
            if av is not None and self.call_value(n, c.args[0], av, c.dest, target, fr, c.line, stack, c):
                return
        # 2. combinator models
        if self.model(n, c, target, fr, stack):
            return
        # 3. local function
        f = self.p.fns.get(c.name)
        dv = self.devirt.get(c.m)
        if dv is not None and dv not in stack and (f is None or f.path == dv):
            f = self.p.fns.get(dv)
        if f is not None and f.kind in ('fn', 'assoc') and (f.path == dv or self.want_inline(c, f, stack)):
            c.inlined = True
            n.succ = [(None, self.splice(f, c.args, c.dest, target, fr, n.id, stack))]
            return
        if c.m in ('try_for_each', 'try_fold') and self.try_loop(n, c, target, fr, stack):
            return
        # 4. opaque call; closure arguments may run any number of times
        self.defs[c.dest[0]].append((c.dest[1], ('call', c), n.id))
        self._mutargs(c, n)
        n.succ = [(None, target)]
        clos = []
        for a in c.args:
            v = self.resolve_closure(a)
            if v is not None and v[0] == 'closure':
                clos.append((a, v))
        if clos and len(stack) < self.MAXDEPTH + 2:
            after = self.new_node(fr, c.line)
            after.succ = [(None, target)]
            n.succ = [(None, after.id)]
            for a, v in clos:
                cf = self.p.fns.get(v[1])
                if cf is None or cf.path in stack:
                    continue
                rl = self.new_local(None)
                params = [a]
                for i in range(1, cf.d['args']):
                    pl = self.new_local(cf.locals[i + 1])
                    self.defs[pl].append(((), ('cbarg', c, i), n.id))
                    params.append((pl, ()))
                back = self.new_node(fr, c.line)
                back.succ = [(None, after.id)]
                ent = self.splice(cf, params, (rl, ()), back.id, fr, n.id, stack)
                after.succ.append(('cb', ent))
                c.rets.append((rl, ()))

    def try_loop(self, n, c, target, fr, stack):
        """iter.try_for_each(f) / iter.try_fold(init, f) with a known closure: a loop which is left at the first Err"""
        if len(c.args) != (2 if c.m == 'try_for_each' else 3) or len(stack) >= self.MAXDEPTH + 2:
            return False
        dt = self.ltypes[c.dest[0]] if not c.dest[1] else None
        v = self.resolve_closure(c.args[-1])
        if dt is None or not self.p.ts(dt).startswith('std::result::Result<') or v is None or v[0] != 'closure':
            return False
        cf = self.p.fns.get(v[1])
        if cf is None or cf.path in stack:
            return False
        std_iter = c.trait == 'std::iter::Iterator'
        dest = c.dest
        fold = c.m == 'try_fold'
        if fold and not std_iter:
            return False
        line = c.line
        acc = self.new_local(None)
        rl = self.new_local(None)
        params = [c.args[-1]]
        if fold:
            params.append((acc, ()))
        for i in range(len(params), cf.d['args']):
            pl = self.new_local(cf.locals[i + 1])
            self.defs[pl].append(((), ('cbarg', c, i), n.id))
            params.append((pl, ()))
        after = self.new_node(fr, line)
        done = self.new_node(fr, line)
        done.succ = [(None, target)]
        if std_iter:
            if fold:
                self.addstmt(n, (acc, ()), ('use', c.args[1]), line)
            else:
                self.addstmt(n, (acc, ()), ('tuple', ()), line)
            self.addstmt(done, c.dest, ('adt', RES, 'Ok', ('0',), ((acc, ()),)), line)
            tmp = self.new_local(None)
            c.dest = (tmp, ())
        self.defs[c.dest[0]].append((c.dest[1], ('call', c), n.id))
        self._mutargs(c, n)
        n.succ = [(None, after.id)]
        back = self.new_node(fr, line)
        ent = self.splice(cf, params, (rl, ()), back.id, fr, n.id, stack)
        dv = self.new_local(None)
        self.addstmt(back, (dv, ()), ('discrv', (rl, ()), RES), line)
        back.term = ('mswitch', (dv, ()), (rl, ()))
        more = self.new_node(fr, line)
        if fold:
            self.addstmt(more, (acc, ()), ('use', (rl, ('@Ok', '.0'))), line)
        more.succ = [(None, after.id)]
        left = self.new_node(fr, line)
        self.addstmt(left, dest, ('adt', RES, 'Err', ('0',), ((rl, ('@Err', '.0')),)), line)
        left.succ = [(None, target)]
        back.succ = [(('v', 'Ok'), more.id), (('v', 'Err'), left.id)]
        after.succ = [('cb', ent), (None, done.id)]
        c.rets.append((rl, ()))
        return True

    def _mutargs(self, c, n):
        for i, a in enumerate(c.args):
            if isinstance(a, dict):
                continue
            r = self.mutroot(a)
            if r is not None:
                self.defs[r[0]].append((r[1], ('upd', c, i), n.id))

    def mutroot(self, op, depth=0):
        """op is (derived from) a mutable reference -> place it points to"""
        gl, proj = op
        if proj or depth > 12:
            return None
        ds = [d for d in self.defs[gl] if d[0] == ()]
        for _, rv, _n in ds:
            if rv[0] == 'ref' and rv[1]:
                tgt = rv[2]
                # reborrow through another reference
                if tgt[1][:1] == ('*',):
                    inner = self.mutroot((tgt[0], ()), depth + 1)
                    if inner is not None:
                        return (inner[0], inner[1] + tgt[1][1:])
                return tgt
            if rv[0] == 'use' and not isinstance(rv[1], dict):
                return self.mutroot(rv[1], depth + 1)
        return None

    def err_type(self, t):
        if t is None:
            return None
        T = self.p.T(t)
        a = [x for x in T.get('a', ()) if isinstance(x, int)]
        return self.p.ts(a[-1]).replace("'_", '').replace("'py", '') if len(a) == 2 else None

    def want_inline(self, c, f, stack):
        if f.path in stack or len(stack) > self.MAXDEPTH:
            return False
        if self.noinline and self.noinline(f.path):
            return False
        if self.inline_pred is not None:
            r = self.inline_pred(f.path)
            if r is not None:
                return r
        if f.path in self.extra_inline:
            return True
        if f.d.get('itrait') and f.d['itrait'].startswith(STOP_TRAITS_PREFIX):
            return False
        if f.d.get('itrait') or f.d.get('deftrait'):
            return False
        return True

    def resolve_closure(self, op, depth=0):
        """('closure', path, place) | ('fndef', const)"""
        if isinstance(op, dict):
            if 'fn' in op:
                return ('fndef', op)
            return None
        gl, proj = op
        if depth > 25:
            return None
        proj = tuple(e for e in proj if e != '*')
        for dp, rv, _n in self.defs[gl]:
            dp = tuple(e for e in dp if e != '*')
            if dp != proj[:len(dp)]:
                continue
            rest = proj[len(dp):]
            if rv[0] == 'use':
                if isinstance(rv[1], dict):
                    r = self.resolve_closure(rv[1], depth + 1) if not rest else None
                else:
                    r = self.resolve_closure((rv[1][0], rv[1][1] + rest), depth + 1)
                if r:
                    return r
            elif rv[0] == 'ref':
                r = self.resolve_closure((rv[2][0], rv[2][1] + rest), depth + 1)
                if r:
                    return r
            elif rv[0] == 'cast':
                r = self.resolve_closure(rv[2], depth + 1)
                if r:
                    return r
            elif rv[0] == 'closure':
                if not rest:
                    return ('closure', rv[1], op)
                nm = rest[0][1:]
                if nm in rv[2]:
                    x = rv[3][rv[2].index(nm)]
                    r = self.resolve_closure(x if isinstance(x, dict) else (x[0], x[1] + rest[1:]), depth + 1)
                    if r:
                        return r
            elif rv[0] in ('tuple', 'adt'):
                ops = rv[1] if rv[0] == 'tuple' else rv[4]
                names = [str(i) for i in range(len(ops))] if rv[0] == 'tuple' else rv[3]
                rr = [e for e in rest if not e.startswith('@')]
                if rr and rr[0][1:] in names:
                    x = ops[list(names).index(rr[0][1:])]
                    r = self.resolve_closure(x if isinstance(x, dict) else (x[0], x[1] + tuple(rr[1:])), depth + 1)
                    if r:
                        return r
        return None

    def tuple_args(self, op):
        if isinstance(op, dict):
            return []
        gl, proj = op
        if proj == ():
            for dp, rv, _n in self.defs[gl]:
                if dp == () and rv[0] == 'tuple':
                    return list(rv[1])
        t = self.ltypes[gl]
        if t is not None and self.p.T(t).get('k') == 'tuple':
            return [(gl, proj + ('.%d' % i,)) for i in range(len(self.p.T(t)['a']))]
        return None

    def call_value(self, n, fval, args, dest, target, fr, line, stack, orig=None):
        """make node n call the function value fval with args; True if resolved"""
        v = self.resolve_closure(fval)
        if v is None:
            return False
        if v[0] == 'closure':
            cf = self.p.fns.get(v[1])
            if cf is None or cf.path in stack or len(stack) > self.MAXDEPTH + 4:
                return False
            n.term = ('goto',)
            if orig is not None:
                orig.inlined = True
                n.term = ('call', orig)
            n.succ = [(None, self.splice(cf, [fval] + args, dest, target, fr, n.id, stack))]
            return True
        k = v[1]
        c = Call()
        c.const = k
        c.fn = k['fn']
        c.name = k.get('res') or k['fn']
        c.m = k.get('m') or c.fn.split('::')[-1]
        c.trait = k.get('trait')
        c.selfty = k.get('self')
        c.ga = k.get('ga', [])
        c.args = args
        c.dest = dest
        c.line = line
        c.mac = ''
        # variant / tuple-struct constructor
        parts = c.fn.rsplit('::', 1)
        ad = self.p.adts.get(parts[0]) if len(parts) == 2 else None
        if ad and ad.k == 'enum' and any(x[0] == parts[1] for x in ad.variants):
            self.addstmt(n, dest, ('adt', parts[0], parts[1], tuple(str(i) for i in range(len(args))), tuple(args)), line)
            n.succ = [(None, target)]
            return True
        if c.fn in self.p.adts and self.p.adts[c.fn].k == 'struct':
            self.addstmt(n, dest, ('adt', c.fn, '', tuple(str(i) for i in range(len(args))), tuple(args)), line)
            n.succ = [(None, target)]
            return True
        self.place_call(n, c, target, fr, stack)
        return True

    # ---- models of the std Option/Result/ControlFlow combinators
    def model(self, n, c, target, fr, stack):
        nm = c.name
        m = c.m
        line = c.line
        kind = None
        if nm.startswith('std::option::Option::<') or nm.startswith('<std::option::Option<'):
            kind = 'opt'
        elif nm.startswith('std::result::Result::<') or nm.startswith('<std::result::Result<'):
            kind = 'res'
        elif nm.startswith('core::bool::') or nm.startswith('std::bool::') or 'impl bool' in nm:
            kind = 'bool'
        if kind is None:
            return False
        A = c.args

        def sub(op, *proj):
            return (op[0], op[1] + proj)

        def mk(rv_dest, rv, to):
            x = self.new_node(fr, line)
            self.addstmt(x, rv_dest, rv, line)
            x.succ = [(None, to)]
            return x.id

        def adt(a, v, *ops):
            return ('adt', a, v, tuple(str(i) for i in range(len(ops))), tuple(ops))

        def some(x):
            return adt(OPT, 'Some', x)
        none = adt(OPT, 'None')

        def ok(x):
            return adt(RES, 'Ok', x)

        def err(x):
            return adt(RES, 'Err', x)

        def callf(f, args, wrap, fallback_line=line):
            """node: dest = wrap(f(args)); wrap None = dest directly"""
            x = self.new_node(fr, line)
            if wrap is None:
                if self.call_value(x, f, args, c.dest, target, fr, line, stack):
                    return x.id
                self.opaque(x, f, args, c.dest, target, fr, line)
                return x.id
            tmp = self.new_local(None)
            w = mk(c.dest, wrap((tmp, ())), target)
            if not self.call_value(x, f, args, (tmp, ()), w, fr, line, stack):
                self.opaque(x, f, args, (tmp, ()), w, fr, line)
            return x.id

        def branch(op, names, t0, t1, adtp):
            """switch on op's variant; names = (variant0, variant1)"""
            tmp = self.new_local(None)
            self.addstmt(n, (tmp, ()), ('discrv', op, adtp), line)
            n.term = ('mswitch', (tmp, ()), op)
            n.succ = [(('v', names[0]), t0), (('v', names[1]), t1)]
            return True

        D = c.dest
        a0 = A[0] if A else None
        if a0 is None or isinstance(a0, dict):
            return False
        if kind == 'bool':
            if m in ('then', 'then_some'):
                t = callf(A[1], [], some) if m == 'then' else mk(D, some(A[1]), target)
                e = mk(D, none, target)
                n.term = ('switch', a0, None)
                n.succ = [(0, e), ('else', t)]
                return True
            return False
        if nm.endswith('as std::ops::Try>::branch'):
            if kind == 'res':
                t = self.new_local(None)
                x = self.new_node(fr, line)
                self.addstmt(x, (t, ()), err(sub(a0, '@Err', '.0')), line)
                self.addstmt(x, D, adt(CF, 'Break', (t, ())), line)
                x.succ = [(None, target)]
                return branch(a0, ('Ok', 'Err'), mk(D, adt(CF, 'Continue', sub(a0, '@Ok', '.0')), target), x.id, RES)
            t = self.new_local(None)
            x = self.new_node(fr, line)
            self.addstmt(x, (t, ()), none, line)
            self.addstmt(x, D, adt(CF, 'Break', (t, ())), line)
            x.succ = [(None, target)]
            return branch(a0, ('Some', 'None'), mk(D, adt(CF, 'Continue', sub(a0, '@Some', '.0')), target), x.id, OPT)
        if nm.endswith('>::from_residual') and kind == 'res':
            et = [self.err_type(t) for t in (self.ltypes[a0[0]] if not a0[1] else None, self.ltypes[c.dest[0]] if not c.dest[1] else None)]
            if et[0] is not None and et[0] == et[1]:
                # From<T> for T
                x = mk(D, err(sub(a0, '@Err', '.0')), target)
                n.term = ('goto',)
                n.succ = [(None, x)]
                return True
            tmp = self.new_local(None)
            cc = Call()
            cc.const = None
            cc.fn = cc.name = 'std::convert::From::from'
            cc.m = 'from'
            cc.trait = 'std::convert::From'
            cc.selfty = None
            cc.ga = c.ga
            cc.args = [sub(a0, '@Err', '.0')]
            cc.dest = (tmp, ())
            cc.line = line
            cc.mac = '?'
            x = mk(D, err((tmp, ())), target)
            cc.node = n.id
            cc.frame = fr
            cc.inlined = False
            cc.rets = []
            self.calls.append(cc)
            n.term = ('call', cc)
            self.defs[tmp].append(((), ('call', cc), n.id))
            n.succ = [(None, x)]
            return True
        if nm.endswith('>::from_residual') and kind == 'opt':
            n.term = ('goto',)
            self.addstmt(n, D, none, line)
            n.succ = [(None, target)]
            return True
        if kind == 'res':
            O0, E0 = sub(a0, '@Ok', '.0'), sub(a0, '@Err', '.0')
            V = ('Ok', 'Err')
            if m == 'map':
                return branch(a0, V, callf(A[1], [O0], ok), mk(D, err(E0), target), RES)
            if m == 'map_err':
                return branch(a0, V, mk(D, ok(O0), target), callf(A[1], [E0], err), RES)
            if m == 'and_then':
                return branch(a0, V, callf(A[1], [O0], None), mk(D, err(E0), target), RES)
            if m == 'or_else':
                return branch(a0, V, mk(D, ok(O0), target), callf(A[1], [E0], None), RES)
            if m == 'unwrap_or_else':
                return branch(a0, V, mk(D, ('use', O0), target), callf(A[1], [E0], None), RES)
            if m == 'unwrap_or':
                return branch(a0, V, mk(D, ('use', O0), target), mk(D, ('use', A[1]), target), RES)
            if m == 'map_or':
                return branch(a0, V, callf(A[2], [O0], None), mk(D, ('use', A[1]), target), RES)
            if m == 'map_or_else':
                return branch(a0, V, callf(A[2], [O0], None), callf(A[1], [E0], None), RES)
            if m == 'ok':
                return branch(a0, V, mk(D, some(O0), target), mk(D, none, target), RES)
            if m == 'err':
                return branch(a0, V, mk(D, none, target), mk(D, some(E0), target), RES)
            if m in ('is_ok', 'is_err'):
                T = {'c': 0, 'v': True}
                F = {'c': 0, 'v': False}
                return branch(a0, V, mk(D, ('use', T if m == 'is_ok' else F), target), mk(D, ('use', F if m == 'is_ok' else T), target), RES)
            if m in ('is_ok_and', 'is_err_and'):
                F = {'c': 0, 'v': False}
                if m == 'is_ok_and':
                    return branch(a0, V, callf(A[1], [O0], None), mk(D, ('use', F), target), RES)
                return branch(a0, V, mk(D, ('use', F), target), callf(A[1], [E0], None), RES)
            return False
        S0 = sub(a0, '@Some', '.0')
        V = ('Some', 'None')
        if m == 'unwrap_or_default' and D[1] == () and self.ltypes[D[0]] is not None and self.p.ts(self.ltypes[D[0]]) == 'bool':
            return branch(a0, V, mk(D, ('use', S0), target), mk(D, ('use', {'c': 0, 'v': False}), target), OPT)
        if m == 'map':
            return branch(a0, V, callf(A[1], [S0], some), mk(D, none, target), OPT)
        if m == 'and_then':
            return branch(a0, V, callf(A[1], [S0], None), mk(D, none, target), OPT)
        if m == 'ok_or':
            return branch(a0, V, mk(D, ok(S0), target), mk(D, err(A[1]), target), OPT)
        if m == 'ok_or_else':
            return branch(a0, V, mk(D, ok(S0), target), callf(A[1], [], err), OPT)
        if m == 'unwrap_or':
            return branch(a0, V, mk(D, ('use', S0), target), mk(D, ('use', A[1]), target), OPT)
        if m == 'unwrap_or_else':
            return branch(a0, V, mk(D, ('use', S0), target), callf(A[1], [], None), OPT)
        if m == 'map_or':
            return branch(a0, V, callf(A[2], [S0], None), mk(D, ('use', A[1]), target), OPT)
        if m == 'map_or_else':
            return branch(a0, V, callf(A[2], [S0], None), callf(A[1], [], None), OPT)
        if m == 'or_else':
            return branch(a0, V, mk(D, some(S0), target), callf(A[1], [], None), OPT)
        if m == 'or':
            return branch(a0, V, mk(D, some(S0), target), mk(D, ('use', A[1]), target), OPT)
        if m in ('is_some', 'is_none'):
            T = {'c': 0, 'v': True}
            F = {'c': 0, 'v': False}
            return branch(a0, V, mk(D, ('use', T if m == 'is_some' else F), target), mk(D, ('use', F if m == 'is_some' else T), target), OPT)
        if m in ('is_some_and', 'is_none_or'):
            k = {'c': 0, 'v': m == 'is_none_or'}
            return branch(a0, V, callf(A[1], [S0], None), mk(D, ('use', k), target), OPT)
        if m == 'filter':
            tmp = self.new_local(None)
            x = self.new_node(fr, line)
            y = self.new_node(fr, line)
            y.term = ('switch', (tmp, ()), None)
            y.succ = [(0, mk(D, none, target)), ('else', mk(D, some(S0), target))]
            if not self.call_value(x, A[1], [S0], (tmp, ()), y.id, fr, line, stack):
                self.opaque(x, A[1], [S0], (tmp, ()), y.id, fr, line)
            return branch(a0, V, x.id, mk(D, none, target), OPT)
        if m == 'transpose':
            tmp = self.new_local(None)
            i2 = self.new_node(fr, line)
            self.addstmt(i2, (tmp, ()), ('discrv', S0, RES), line)
            i2.term = ('mswitch', (tmp, ()), S0)
            t2 = self.new_local(None)
            okn = self.new_node(fr, line)
            self.addstmt(okn, (t2, ()), some(sub(S0, '@Ok', '.0')), line)
            self.addstmt(okn, D, ok((t2, ())), line)
            okn.succ = [(None, target)]
            t3 = self.new_local(None)
            nn = self.new_node(fr, line)
            self.addstmt(nn, (t3, ()), none, line)
            self.addstmt(nn, D, ok((t3, ())), line)
            nn.succ = [(None, target)]
            i2.succ = [(('v', 'Ok'), okn.id), (('v', 'Err'), mk(D, err(sub(S0, '@Err', '.0')), target))]
            return branch(a0, V, i2.id, nn.id, OPT)
        return False

    def opaque(self, n, f, args, dest, target, fr, line):
        c = Call()
        c.const = None
        c.fn = c.name = '<indirect>'
        c.m = '<indirect>'
        c.trait = None
        c.selfty = None
        c.ga = []
        c.args = [f] + list(args)
        c.dest = dest
        c.line = line
        c.mac = ''
        c.node = n.id
        c.frame = fr
        c.inlined = False
        c.rets = []
        self.calls.append(c)
        n.term = ('call', c)
        self.defs[dest[0]].append((dest[1], ('call', c), n.id))
        n.succ = [(None, target)]

    # ------------------------------------------------------------------ queries on the plain graph
    def preds(self):
        if self._preds is None:
            pr = defaultdict(list)
            for n in self.nodes:
                for lab, t in n.succ:
                    pr[t].append(n.id)
            self._preds = pr
        return self._preds

    def where(self, node):
        n = self.nodes[node]
        if n.frame is None:
            return '?'
        return f'{n.frame.fn.file}:{n.line}'

    def fn_of(self, node):
        n = self.nodes[node]
        return n.frame.fn.path if n.frame else '?'

    # ------------------------------------------------------------------ values
    def term(self, op, depth=9):
        """canonical value term of an operand (nested tuples); ('phi', {...}) when several definitions reach"""
        return self._term(op, depth, frozenset())

    def _const(self, k):
        if 'fn' in k:
            return ('fn', k.get('res') or k['fn'])
        if 'static' in k:
            return ('static', k['static'])
        if 'prom' in k:
            return self._prom(k)
        if 'str' in k:
            return ('str', k['str'])
        if 'named' in k:
            return ('named', k['named'], k.get('v', k.get('str')))
        if 'v' in k:
            return ('const', k['v'])
        if 'z' in k:
            return ('zst', self.p.ts(k['c']) if k['c'] else '')
        if 'mem' in k:
            return ('str', k['mem'])
        return ('const?', self.p.ts(k['c']) if k['c'] else '')

    def _prom(self, k):
        path, idx = k['prom']
        f = self.p.fns.get(path)
        if not f or idx >= len(f.d.get('promoted', [])):
            return ('prom', path, idx)
        b = f.d['promoted'][idx]
        defs = defaultdict(list)
        for bb in b['blocks']:
            if not bb:
                continue
            for pl, rv, _ in bb['s']:
                defs[pl[0]].append((pl[1:], rv))
            if bb['t'][0] == 'call':
                defs[bb['t'][3][0]].append(([], ['callp', bb['t'][1], bb['t'][2]]))

        def val(op, d=0):
            if isinstance(op, dict):
                return self._const(op) if 'prom' not in op else ('prom?',)
            ds = defs.get(op[0], [])
            if len(ds) != 1 or d > 10:
                return ('prom?',)
            pr, rv = ds[0]
            if rv[0] in ('use',):
                return val(rv[1], d + 1)
            if rv[0] == 'ref':
                return val(rv[2], d + 1)
            if rv[0] == 'cast':
                return val(rv[2], d + 1)
            if rv[0] == 'adt':
                return ('adt', rv[1], rv[2], tuple(zip(rv[3], [val(o, d + 1) for o in rv[4]])))
            if rv[0] in ('array', 'tuple'):
                return (rv[0],) + tuple(val(o, d + 1) for o in rv[1])
            if rv[0] == 'callp':
                fn = rv[1]
                return ('call', (fn.get('res') or fn.get('fn')) if isinstance(fn, dict) else '?', tuple(val(o, d + 1) for o in rv[2]))
            return ('prom?',)
        return val([0])

    def _term(self, op, depth, seen):
        if isinstance(op, dict):
            return self._const(op)
        gl, proj = op
        proj = tuple(e for e in proj if e != '*')
        key = (gl, proj)
        if key in seen or depth <= 0:
            return ('loop',) if key in seen else ('deep',)
        mk = (gl, proj, depth)
        if mk in self._term_memo:
            return self._term_memo[mk]
        seen2 = seen | {key}
        alts = []
        if gl in self.arg_locals:
            alts.append(self._proj(('arg', self.arg_locals.index(gl), self.lnames.get(gl, '')), proj))
        for dp, rv, node in self.defs.get(gl, ()):
            dp = tuple(e for e in dp if e != '*')
            if rv[0] == 'upd':
                continue
            if len(dp) > len(proj):
                continue
            if dp != proj[:len(dp)]:
                continue
            rest = proj[len(dp):]
            t = self._rv_term(rv, rest, depth, seen2)
            if t is not None:
                alts.append(t)
        flat = []
        for a in alts:
            if a[0] == 'phi':
                flat.extend(a[1])
            else:
                flat.append(a)
        s = []
        for a in flat:
            if a not in s and a != ('loop',):
                s.append(a)
        if not s:
            r = self._proj(('undef',), proj) if not alts else ('loop',)
        elif len(s) == 1:
            r = s[0]
        else:
            r = ('phi', tuple(sorted(s, key=repr)[:24]))
        if not seen:
            self._term_memo[mk] = r
        return r

    def _proj(self, t, proj):
        for e in proj:
            if t[0] == 'phi':
                t = ('phi', tuple(self._proj(x, (e,)) for x in t[1]))
            else:
                t = ('fld', t, e)
        return t

    def _rv_term(self, rv, rest, depth, seen):
        k = rv[0]
        if k == 'use':
            if isinstance(rv[1], dict):
                return self._proj(self._const(rv[1]), rest)
            return self._term((rv[1][0], rv[1][1] + rest), depth, seen)
        if k == 'ref':
            return self._term((rv[2][0], rv[2][1] + rest), depth, seen)
        if k == 'cast':
            if isinstance(rv[2], dict):
                return self._proj(self._const(rv[2]), rest)
            return self._term((rv[2][0], rv[2][1] + rest), depth, seen)
        if k == 'adt':
            if rest:
                r = list(rest)
                if r and r[0].startswith('@'):
                    if r[0][1:] != rv[2]:
                        return None
                    r = r[1:]
                if r and r[0].startswith('.'):
                    nm = r[0][1:]
                    if nm in rv[3]:
                        o = rv[4][rv[3].index(nm)]
                        if isinstance(o, dict):
                            return self._proj(self._const(o), r[1:])
                        return self._term((o[0], o[1] + tuple(r[1:])), depth, seen)
                    return None
                if not r:
                    pass
            return ('adt', rv[1], rv[2], tuple((n, self._term(o, depth - 1, seen)) for n, o in zip(rv[3], rv[4])))
        if k == 'closure':
            if rest and rest[0][1:] in rv[2]:
                o = rv[3][rv[2].index(rest[0][1:])]
                if isinstance(o, dict):
                    return self._proj(self._const(o), rest[1:])
                return self._term((o[0], o[1] + tuple(rest[1:])), depth, seen)
            return ('closure', rv[1])
        if k == 'tuple':
            if rest and rest[0][1:].isdigit() and int(rest[0][1:]) < len(rv[1]):
                o = rv[1][int(rest[0][1:])]
                if isinstance(o, dict):
                    return self._proj(self._const(o), rest[1:])
                return self._term((o[0], o[1] + tuple(rest[1:])), depth, seen)
            return ('tuple',) + tuple(self._term(o, depth - 1, seen) for o in rv[1])
        if k in ('array', 'agg'):
            return self._proj(('array',) + tuple(self._term(o, depth - 1, seen) for o in rv[1]), rest)
        if k == 'bin':
            return self._proj(('bin', rv[1], self._term(rv[2], depth - 1, seen), self._term(rv[3], depth - 1, seen)), rest)
        if k == 'un':
            return ('un', rv[1], self._term(rv[2], depth - 1, seen))
        if k in ('discr', 'discrv'):
            return ('discr', self._term(rv[1], depth - 1, seen))
        if k == 'call':
            return self._call_term(rv[1], rest, depth, seen)
        if k == 'cbarg':
            c = rv[1]
            return self._proj(('cbarg', c.name, rv[2], tuple(self._term(a, depth - 2, seen) for a in c.args)), rest)
        return self._proj(('?', k), rest)

    def _call_term(self, c, rest, depth, seen):
        if c.name == 'pyo3::sync::Interned::get' or c.fn == 'pyo3::sync::Interned::get':
            a = self._term(c.args[0], depth, seen)
            if a[0] == 'static':
                ss = self.p.body_strings(a[1])
                if ss:
                    return ('str', ss[0])
        if c.m in TRANSPARENT_M and c.args:
            a = c.args[0]
            if isinstance(a, dict):
                return self._proj(self._const(a), rest)
            return self._term((a[0], a[1] + rest), depth, seen)
        if c.m in ('unwrap', 'expect') and c.args and not isinstance(c.args[0], dict):
            a = c.args[0]
            v = '@Some' if 'option::Option' in c.name else '@Ok'
            return self._term((a[0], a[1] + (v, '.0') + rest), depth, seen)
        return self._proj(('call', c.name, tuple(self._term(a, depth - 1, seen) for a in c.args)), rest)

    def sources(self, op, through=None, stop=None):
        """taint closure backwards: the set of leaf facts op may derive from:
        ('arg', idx, proj) ('str', s) ('const', v) ('call', name) ('adt', path, variant) ('static', path)
        `stop(call)` True: do not go into that call's arguments."""
        out = set()
        seen = set()
        work = [op]
        while work:
            o = work.pop()
            if isinstance(o, dict):
                t = self._const(o)
                out.update(self._flat_const(t))
                continue
            gl, proj = o
            proj = tuple(e for e in proj if e != '*')[:6]
            if (gl, proj) in seen:
                continue
            seen.add((gl, proj))
            if gl in self.arg_locals:
                out.add(('arg', self.arg_locals.index(gl), proj))
            for dp, rv, node in self.defs.get(gl, ()):
                dp = tuple(e for e in dp if e != '*')
                if rv[0] == 'upd':
                    c = rv[1]
                    if dp[:len(proj)] == proj or proj[:len(dp)] == dp:
                        if stop and stop(c):
                            out.add(('call', c.name))
                            continue
                        out.add(('call', c.name))
                        for i, a in enumerate(c.args):
                            if i != rv[2]:
                                work.append(a)
                        work.extend(c.rets)
                    continue
                if len(dp) <= len(proj):
                    if dp != proj[:len(dp)]:
                        continue
                    rest = proj[len(dp):]
                else:
                    if dp[:len(proj)] != proj:
                        continue
                    rest = ()
                k = rv[0]
                if k in ('use',):
                    work.append(rv[1] if isinstance(rv[1], dict) else (rv[1][0], rv[1][1] + rest))
                elif k == 'ref':
                    work.append((rv[2][0], rv[2][1] + rest))
                elif k == 'cast':
                    work.append(rv[2] if isinstance(rv[2], dict) else (rv[2][0], rv[2][1] + rest))
                elif k == 'adt':
                    r = list(rest)
                    if r and r[0].startswith('@'):
                        if r[0][1:] != rv[2]:
                            continue
                        r = r[1:]
                    if r and r[0].startswith('.') and r[0][1:] in rv[3]:
                        x = rv[4][rv[3].index(r[0][1:])]
                        work.append(x if isinstance(x, dict) else (x[0], x[1] + tuple(r[1:])))
                    elif r:
                        continue
                    else:
                        out.add(('adt', rv[1], rv[2]))
                        work.extend(rv[4])
                elif k == 'tuple':
                    if rest and rest[0][1:].isdigit() and int(rest[0][1:]) < len(rv[1]):
                        x = rv[1][int(rest[0][1:])]
                        work.append(x if isinstance(x, dict) else (x[0], x[1] + tuple(rest[1:])))
                    else:
                        work.extend(rv[1])
                elif k == 'closure':
                    if rest and rest[0][1:] in rv[2]:
                        x = rv[3][rv[2].index(rest[0][1:])]
                        work.append(x if isinstance(x, dict) else (x[0], x[1] + tuple(rest[1:])))
                    else:
                        out.add(('closure', rv[1]))
                        work.extend(rv[3])
                elif k in ('array', 'agg'):
                    work.extend(rv[1])
                elif k == 'bin':
                    out.add(('bin', rv[1]))
                    work.append(rv[2])
                    work.append(rv[3])
                elif k == 'un':
                    work.append(rv[2])
                elif k in ('discr', 'discrv'):
                    work.append(rv[1])
                elif k == 'repeat':
                    work.append(rv[1])
                elif k == 'call':
                    c = rv[1]
                    if c.name == 'pyo3::sync::Interned::get':
                        t = self._call_term(c, (), 6, frozenset())
                        if t[0] == 'str':
                            out.add(t)
                            continue
                    if c.m in TRANSPARENT_M and c.args:
                        a = c.args[0]
                        out.add(('call', c.name))
                        work.append(a if isinstance(a, dict) else (a[0], a[1] + rest))
                        continue
                    if c.m in ('unwrap', 'expect') and c.args and not isinstance(c.args[0], dict):
                        v = '@Some' if 'option::Option' in c.name else '@Ok'
                        work.append((c.args[0][0], c.args[0][1] + (v, '.0') + rest))
                        continue
                    out.add(('call', c.name))
                    self.at_proj = rest
                    if stop and stop(c):
                        continue
                    work.extend(c.args)
                    work.extend(c.rets)
                elif k == 'cbarg':
                    out.add(('cbarg', rv[1].name, rv[2]))
                    if not (stop and stop(rv[1])):
                        work.extend(a for a in rv[1].args if self.resolve_closure(a) is None)
        return out

    def _flat_const(self, t):
        if t[0] in ('adt',):
            r = {('adt', t[1], t[2])}
            for _, x in t[3]:
                r |= self._flat_const(x)
            return r
        if t[0] in ('array', 'tuple'):
            r = set()
            for x in t[1:]:
                r |= self._flat_const(x)
            return r
        if t[0] == 'call':
            r = {('call', t[1])}
            for x in t[2]:
                r |= self._flat_const(x)
            return r
        return {t}

    # ------------------------------------------------------------------ statements / events
    def aggs(self, adt=None, variant=None):
        for n in self.nodes:
            for pl, rv, ln in n.stmts:
                if rv[0] == 'adt' and (adt is None or rv[1] == adt) and (variant is None or rv[2] == variant):
                    yield n.id, pl, rv, ln

    def find_calls(self, pred):
        return [c for c in self.calls if pred(c)]

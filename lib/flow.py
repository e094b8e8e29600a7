"""Flow: a Graph exploded by finite facts (enum variants, bool constants) known about places."""
from collections import defaultdict, deque
from mir import OPT, RES, CF, TRANSPARENT_M, VARIANT_KEEP_M


ORDERING_M = {'is_lt': ('Less',), 'is_le': ('Less', 'Equal'), 'is_gt': ('Greater',), 'is_ge': ('Greater', 'Equal'), 'is_eq': ('Equal',), 'is_ne': ('Less', 'Greater')}
FOLD_M = set(ORDERING_M) | {'eq', 'ne'}


class Assume:
    """a scenario: what to take for granted where the source does not decide it (None: nothing)"""

    def call(self, c):
        return None

    def bin(self, rv, node):
        return None

    def discr(self, key, node, adt):
        return None

    def boolean(self, place, node):
        return None


class Flow:
    CAP = 120000

    def __init__(self, g, track_ret=True, force_roots=(), assume=None, seed=None, watch=()):
        """assume: object with call(c) -> {projection: value}, bin(rv, node) -> bool|None, discr(key, node, adt) -> variant|None,
        boolean(place, node) -> bool|None: conditional constant propagation under an assumed outcome;
        seed: {(local, projection): value} facts at entry"""
        self.g = g
        self.p = g.p
        self.assume = assume
        self.watch = set(watch)  # (node id, statement index or "call"): keep facts about the operands there
        self.seed = dict(seed or {})
        self._canon_memo = {}
        self.written = g.__dict__.get('_written')
        if self.written is None:
            self.written = g._written = {pl[1][-1] for n in g.nodes for pl in [x[0] for x in n.stmts] + ([n.term[1].dest] if n.term[0] == 'call' and not isinstance(n.term[1].dest, dict) and n.term[1].dest else []) if pl and pl[1] and pl[1][-1].startswith('.')}
        self.capped = False
        self._prepare(track_ret, force_roots)
        self._explode()

    # -------------------------------------------------------------- canonical places
    def origin(self, place):
        """canon, but through copies of fields which are written later too: where a value was read"""
        w, m = self.written, self._canon_memo
        self.written, self._canon_memo = (), self.__dict__.setdefault('_origin_memo', {})
        try:
            return self.canon(place)
        finally:
            self.written, self._canon_memo = w, m

    def canon(self, place):
        """canonical (root local, projections without derefs) of a place, following single-definition copies and refs"""
        k = (place[0], place[1])
        if k in self._canon_memo:
            return self._canon_memo[k]
        gl, proj = place
        proj = tuple(e for e in proj if e != '*')
        for _ in range(60):
            if gl in self.g.arg_locals:
                break
            ds = self.g.defs.get(gl, ())
            if len([1 for d in ds if d[1][0] != 'upd']) != 1:
                break
            if any(d[1][0] == 'upd' for d in ds) and not self._is_ref(gl):
                break
            ds = [d for d in ds if d[1][0] != 'upd']
            dp, rv, _n = ds[0]
            if dp != ():
                break
            if rv[0] == 'use' and not isinstance(rv[1], dict):
                # a copy taken of a field which is written later is not that field
                if rv[1][1] and rv[1][1][-1] in self.written and not self._is_ref(gl):
                    break
                gl, proj = rv[1][0], tuple(e for e in rv[1][1] if e != '*') + proj
                continue
            if rv[0] == 'ref':
                gl, proj = rv[2][0], tuple(e for e in rv[2][1] if e != '*') + proj
                continue
            if rv[0] == 'call' and rv[1].m in VARIANT_KEEP_M and rv[1].args and not isinstance(rv[1].args[0], dict):
                a = rv[1].args[0]
                gl, proj = a[0], tuple(e for e in a[1] if e != '*') + proj
                continue
            if rv[0] == 'adt' and proj:
                r = list(proj)
                if r[0].startswith('@') and r[0][1:] == rv[2]:
                    r = r[1:]
                if r and r[0].startswith('.') and r[0][1:] in rv[3]:
                    o = rv[4][rv[3].index(r[0][1:])]
                    if not isinstance(o, dict):
                        gl, proj = o[0], tuple(e for e in o[1] if e != '*') + tuple(r[1:])
                        continue
            if rv[0] == 'tuple' and proj and proj[0][1:].isdigit() and int(proj[0][1:]) < len(rv[1]):
                o = rv[1][int(proj[0][1:])]
                if not isinstance(o, dict):
                    gl, proj = o[0], tuple(e for e in o[1] if e != '*') + proj[1:]
                    continue
            if rv[0] == 'closure' and proj and proj[0][1:] in rv[2]:
                o = rv[3][rv[2].index(proj[0][1:])]
                if not isinstance(o, dict):
                    gl, proj = o[0], tuple(e for e in o[1] if e != '*') + proj[1:]
                    continue
            break
        r = (gl, proj)
        self._canon_memo[k] = r
        return r

    def _is_ref(self, gl):
        t = self.g.ltypes[gl]
        return t is not None and self.p.T(t).get('k') == 'ref'

    def _is_mutref(self, gl):
        t = self.g.ltypes[gl]
        return t is not None and self.p.T(t).get('k') == 'ref' and self.p.T(t).get('m')

    # -------------------------------------------------------------- relevance & liveness
    def _prepare(self, track_ret, force_roots):
        g = self.g
        tested = set(force_roots)
        if track_ret:
            tested.add(g.ret_local)
        self.link = {}  # local -> ('discr', place, adt) | ('not', place)
        boolswitch = defaultdict(list)
        for n in g.nodes:
            for pl, rv, ln in n.stmts:
                if pl[1] == ():
                    if rv[0] == 'discr':
                        t = self.p.T(rv[2])
                        self.link[pl[0]] = ('discr', rv[1], t.get('d'))
                    elif rv[0] == 'discrv':
                        self.link[pl[0]] = ('discr', rv[1], rv[2])
                    elif rv[0] == 'un' and rv[1] == 'Not' and not isinstance(rv[2], dict):
                        self.link[pl[0]] = ('not', rv[2])
        for n in g.nodes:
            if n.term[0] in ('switch', 'mswitch') and not isinstance(n.term[1], dict):
                gl = n.term[1][0]
                lk = self.link.get(gl)
                tested.add(self.canon(n.term[1])[0])
                if lk:
                    tested.add(self.canon(lk[1])[0])
                boolswitch[gl].append(n)
        for nid, k in self.watch:
            for o in (g.nodes[nid].term[1].args if k == 'call' else self._ops(g.nodes[nid].stmts[k][1])):
                if not isinstance(o, dict):
                    tested.add(self.canon(o)[0])
                    tested.add(o[0])
        # receivers whose facts the assumption asks for
        want = getattr(self.assume, 'receiver', None)
        self.recv = {n.id for n in g.nodes if want and n.term[0] == 'call' and n.term[1].args and not isinstance(n.term[1].args[0], dict)
                     and not n.term[1].inlined and want(n.term[1])}
        for nid in self.recv:
            o = g.nodes[nid].term[1].args[0]
            tested.add(self.canon(o)[0])
            tested.add(o[0])
        # drop flags: unnamed bools assigned only constants whose switches guard drops
        self.dropflag = set()
        for gl, ns in boolswitch.items():
            if gl in g.lnames or gl in self.link:
                continue
            ds = g.defs.get(gl, ())
            if ds and all(d[1][0] == 'use' and isinstance(d[1][1], dict) and d[1][1].get('c') for d in ds):
                if all(any(g.nodes[t].term[0] == 'drop' for _, t in n.succ) for n in ns):
                    self.dropflag.add(gl)
        # expand relevance backwards over copies
        edges = defaultdict(set)
        for n in g.nodes:
            for pl, rv, ln in n.stmts:
                d = self.canon(pl)[0]
                ops = ()
                if rv[0] in ('use',):
                    ops = (rv[1],)
                elif rv[0] == 'adt':
                    ops = rv[4]
                elif rv[0] == 'tuple':
                    ops = rv[1]
                elif rv[0] == 'un':
                    ops = (rv[2],)
                elif rv[0] == 'ref':
                    ops = (rv[2],)
                for o in ops:
                    if not isinstance(o, dict):
                        edges[d].add(self.canon(o)[0])
                        edges[pl[0]].add(self.canon(o)[0])
            if n.term[0] == 'call':
                c = n.term[1]
                if c.m in VARIANT_KEEP_M and c.args and not isinstance(c.args[0], dict):
                    edges[self.canon(c.dest)[0]].add(self.canon(c.args[0])[0])
                elif self._foldable(c):
                    for o in c.args:
                        if not isinstance(o, dict):
                            edges[self.canon(c.dest)[0]].add(self.canon(o)[0])
                            edges[c.dest[0]].add(o[0])
        for n in g.nodes:
            if n.term[0] == 'call' and n.term[1].m == 'is_empty' and n.term[1].args and not isinstance(n.term[1].args[0], dict):
                tested.add(self.canon(n.term[1].args[0])[0])
            for pl, rv, ln in n.stmts:
                if rv[0] == 'bin' and rv[1] in ('BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne'):
                    for o in rv[2:4]:
                        if not isinstance(o, dict):
                            edges[self.canon(pl)[0]].add(self.canon(o)[0])
        work = list(tested)
        rel = set(tested)
        while work:
            x = work.pop()
            for y in edges.get(x, ()):
                if y not in rel:
                    rel.add(y)
                    work.append(y)
        self.rel = rel - self.dropflag
        # liveness of observed keys (tested places, sources of relevant copies), backwards with kills
        self.okeys = {}
        self.byroot = defaultdict(list)

        def obs(place):
            m = 0
            for key in {self.canon(place), (place[0], tuple(e for e in place[1] if e != '*'))}:
                if key[0] not in rel:
                    continue
                i = self.okeys.get(key)
                if i is None:
                    i = len(self.okeys)
                    self.okeys[key] = i
                    self.byroot[key[0]].append(key)
                m |= 1 << i
            return m
        N = len(g.nodes)
        evs = []  # per node: list of (use mask, killed local or None), in execution order
        for n in g.nodes:
            ev = []
            for k, (pl, rv, ln) in enumerate(n.stmts):
                m = 0
                d = self.canon(pl)[0]
                if (n.id, k) in self.watch:
                    for o in self._ops(rv):
                        if not isinstance(o, dict):
                            m |= obs(o)
                if d in rel or pl[0] in rel:
                    ops = ()
                    if rv[0] == 'use':
                        ops = (rv[1],)
                    elif rv[0] == 'ref':
                        ops = (rv[2],)
                    elif rv[0] == 'adt':
                        ops = rv[4]
                    elif rv[0] == 'tuple':
                        ops = rv[1]
                    elif rv[0] == 'un':
                        ops = (rv[2],)
                    elif rv[0] == 'bin' and rv[1] in ('BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne'):
                        ops = rv[2:4]
                    for o in ops:
                        if not isinstance(o, dict):
                            m |= obs(o)
                ev.append((m, pl[0] if pl[1] == () else None))
            t = n.term
            if t[0] in ('switch', 'mswitch') and not isinstance(t[1], dict):
                m = obs(t[1])
                lk = self.link.get(t[1][0])
                if lk:
                    m |= obs(lk[1])
                ev.append((m, None))
            elif t[0] == 'call':
                c = t[1]
                m = 0
                if c.m in VARIANT_KEEP_M and c.args and not isinstance(c.args[0], dict):
                    m |= obs(c.args[0])
                elif self._foldable(c):
                    for o in c.args:
                        if not isinstance(o, dict):
                            m |= obs(o)
                if n.id in self.recv:
                    m |= obs(c.args[0])
                if (n.id, 'call') in self.watch:
                    for o in c.args:
                        if not isinstance(o, dict):
                            m |= obs(o)
                if c.m == 'is_empty' and c.args and not isinstance(c.args[0], dict):
                    k = self.canon(c.args[0])
                    m |= obs((k[0], k[1] + ('#ne',)))
                ev.append((m, c.dest[0] if c.dest[1] == () and not c.inlined else None))
            evs.append(ev)
        retm = obs((g.ret_local, ()))
        for f in force_roots:
            retm |= obs((f, ()))
        killm = {r: sum(1 << self.okeys[k] for k in ks) for r, ks in self.byroot.items()}
        live = [0] * N
        preds = g.preds()

        def inn(i, out):
            for m, kl in reversed(evs[i]):
                if kl is not None:
                    out &= ~killm.get(kl, 0)
                out |= m
            if i == g.exit.id:
                out |= retm
            return out
        work = deque(range(N - 1, -1, -1))
        inq = [True] * N
        while work:
            i = work.popleft()
            inq[i] = False
            out = 0
            for _, t in g.nodes[i].succ:
                out |= live[t]
            nv = inn(i, out)
            if nv != live[i]:
                live[i] = nv
                for pr in preds.get(i, ()):
                    if not inq[pr]:
                        inq[pr] = True
                        work.append(pr)
        self.live = live
        self._keep_memo = {}

    def _keep(self, node, key):
        mk = (node, key)
        r = self._keep_memo.get(mk)
        if r is None:
            lv = self.live[node]
            r = False
            for ok in self.byroot.get(key[0], ()):
                if (lv >> self.okeys[ok]) & 1 and (ok[1] == key[1] or key[1][:len(ok[1])] == ok[1]):
                    r = True
                    break
            self._keep_memo[mk] = r
        return r

    def _ops(self, rv):
        k = rv[0]
        if k in ('use', 'repeat'):
            return (rv[1],)
        if k in ('ref', 'cast', 'un'):
            return (rv[2],)
        if k == 'bin':
            return (rv[2], rv[3])
        if k in ('discr', 'discrv'):
            return (rv[1],)
        if k == 'adt':
            return rv[4]
        if k == 'closure':
            return rv[3]
        if k in ('array', 'tuple', 'agg'):
            return rv[1]
        return ()

    # -------------------------------------------------------------- transfer
    def _kill(self, env, key):
        r, pj = key
        L = len(pj)
        dead = [k for k in env if k[0] == r and (k[1][:L] == pj or pj[:len(k[1])] == k[1])]
        # a store to a strict extension of a fact's place does not change that place's variant unless it goes through it
        for k in dead:
            if len(k[1]) < L and isinstance(env[k], str):
                continue
            del env[k]

    def _copyfacts(self, env, src, dst):
        """src: place, dst: key"""
        add = {}
        for s in {self.canon(src), (src[0], tuple(e for e in src[1] if e != '*'))}:
            r, pj = s
            L = len(pj)
            for k, v in env.items():
                if k[0] == r and k[1][:L] == pj:
                    add[(dst[0], dst[1] + k[1][L:])] = v
        return add

    def _assign(self, env, pl, rv, node=None):
        dk = self.canon(pl) if pl[1] else (pl[0], ())
        add = {}
        if dk[0] in self.rel or pl[0] in self.rel:
            k = rv[0]
            if k == 'use':
                if isinstance(rv[1], dict):
                    v = rv[1].get('v')
                    if isinstance(v, bool) or isinstance(v, int):
                        add[dk] = v
                    else:
                        for pj, v in self._facts(env, rv[1]).items():
                            add[(dk[0], dk[1] + pj)] = v
                else:
                    add = self._copyfacts(env, rv[1], dk)
            elif k == 'ref':
                add = self._copyfacts(env, rv[2], dk)
            elif k == 'adt':
                if rv[2]:
                    add[dk] = rv[2]
                for nme, o in zip(rv[3], rv[4]):
                    sub = (dk[0], dk[1] + ((('@' + rv[2],) if rv[2] else ()) + ('.' + nme,)))
                    if len(sub[1]) > 6:
                        continue
                    if isinstance(o, dict):
                        v = o.get('v')
                        if isinstance(v, (bool, int)):
                            add[sub] = v
                        else:
                            for pj, v in self._facts(env, o).items():
                                add[(sub[0], sub[1] + pj)] = v
                    else:
                        add.update(self._copyfacts(env, o, sub))
            elif k == 'tuple':
                for i, o in enumerate(rv[1]):
                    sub = (dk[0], dk[1] + ('.%d' % i,))
                    if isinstance(o, dict):
                        v = o.get('v')
                        if isinstance(v, bool):
                            add[sub] = v
                    else:
                        add.update(self._copyfacts(env, o, sub))
            elif k == 'un' and rv[1] == 'Not' and not isinstance(rv[2], dict):
                v = env.get(self.canon(rv[2]))
                if isinstance(v, bool):
                    add[dk] = not v
            elif k == 'bin':
                v = self.assume.bin(rv, node) if self.assume else None
                if v is None and rv[1] in ('BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne'):
                    x, y = [(o.get('v') if isinstance(o, dict) else env.get(self.canon(o))) for o in rv[2:4]]
                    bx, by = isinstance(x, bool), isinstance(y, bool)
                    if rv[1] == 'BitAnd' and (x is False or y is False):
                        v = False
                    elif rv[1] == 'BitOr' and (x is True or y is True):
                        v = True
                    elif bx and by:
                        v = {'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y, 'Eq': x == y, 'Ne': x != y}[rv[1]]
                if v is not None:
                    add[dk] = v
        self._kill(env, dk)
        if dk[0] != pl[0]:
            self._kill(env, (pl[0], ()))
        env.update(add)

    def _foldable(self, c):
        return c.m in FOLD_M and not c.inlined and len(c.args) == (2 if c.m in ('eq', 'ne') else 1) and (c.name.startswith('std::cmp::Ordering::') or c.m in ('eq', 'ne'))

    def _facts(self, env, o):
        if isinstance(o, dict):
            t = self.g._const(o)
            while t[0] == 'ref':
                t = t[1]
            out = {}

            def rec(t, pj):
                if t[0] == 'adt':
                    out[pj] = t[2]
                    for n, x in t[3]:
                        rec(x, pj + ('@' + t[2], '.' + n))
                elif isinstance(o.get('v'), bool):
                    out[pj] = o['v']
            rec(t, ())
            return out
        return {k[1]: v for k, v in self._copyfacts(env, o, ('x', ())).items()}

    def _fold(self, env, c):
        a = self._facts(env, c.args[0])
        if c.m in ORDERING_M:
            v = a.get(())
            return v in ORDERING_M[c.m] if isinstance(v, str) else None
        b = self._facts(env, c.args[1])
        r = self._eq(a, b, ())
        return None if r is None else r == (c.m == 'eq')

    def _eq(self, a, b, pj):
        x, y = a.get(pj), b.get(pj)
        if isinstance(x, bool) and isinstance(y, bool):
            return x == y
        if not isinstance(x, str) or not isinstance(y, str):
            return None
        if x != y:
            return False
        if x in ('Less', 'Equal', 'Greater', 'None'):
            return True
        if x == 'Some':
            return self._eq(a, b, pj + ('@Some', '.0'))
        return None

    def _node_out(self, node, env):
        """env after the node's statements; yields (label, target, env)"""
        env = dict(env)
        for pl, rv, ln in node.stmts:
            self._assign(env, pl, rv, node)
        t = node.term
        if t[0] == 'call':
            c = t[1]
            ne = None
            rfacts = self._facts(env, c.args[0]) if node.id in self.recv else None
            if c.m in ('push', 'extend', 'append', 'push_back', 'insert', 'reserve', 'is_empty') and c.args and not isinstance(c.args[0], dict) and not c.inlined:
                k = self.canon(c.args[0])
                ne = (k[0], k[1] + ('#ne',))
                nev = True if c.m in ('push', 'push_back') else env.get(ne)
            for o in (() if c.inlined else c.args):
                if isinstance(o, dict):
                    continue
                mr = self.g.mutroot(o)
                if mr is not None:
                    k = self.canon(mr)
                    self._kill(env, k)
                elif o[1] == () and self._is_mutref(o[0]):
                    self._kill(env, self.canon(o))
            if not c.inlined:
                add = {}
                if c.m in VARIANT_KEEP_M and c.args and not isinstance(c.args[0], dict) and c.dest[0] in self.rel:
                    add = self._copyfacts(env, c.args[0], (c.dest[0], c.dest[1]))
                elif self._foldable(c):
                    v = self._fold(env, c)
                    if v is not None:
                        add = {(c.dest[0], c.dest[1]): v}
                self._kill(env, self.canon(c.dest) if c.dest[1] else (c.dest[0], ()))
                env.update(add)
                if ne is not None:
                    if nev is True:
                        env[ne] = True
                        if c.m == 'is_empty':
                            env[(c.dest[0], c.dest[1])] = False
                if self.assume:
                    for pj, v in ((self.assume.call(c) if rfacts is None else self.assume.call(c, rfacts)) or {}).items():
                        env[(c.dest[0], c.dest[1] + pj)] = v
            for lab, tg in node.succ:
                yield lab, tg, env
            return
        if t[0] in ('switch', 'mswitch') and not isinstance(t[1], dict):
            op = t[1]
            gl = op[0]
            lk = self.link.get(gl) if op[1] == () else None
            if lk and lk[0] == 'discr':
                key = self.canon(lk[1])
                ad = self.p.adts.get(lk[2])
                known = env.get(key)
                if self.assume:
                    av = self.assume.discr(self.origin(lk[1]), node, lk[2])
                    if av is not None:
                        if isinstance(known, str) and known != av or isinstance(known, tuple) and av in known[1]:
                            return
                        known = av
                allv = [v[0] for v in ad.variants] if ad else None
                seenv = []
                for lab, tg in node.succ:
                    if lab == 'else':
                        rest = [v for v in (allv or []) if v not in seenv] if allv else None
                        if rest is not None and not rest:
                            continue
                        if isinstance(known, str):
                            if known in seenv:
                                continue
                            yield lab, tg, env
                        else:
                            if isinstance(known, tuple) and rest is not None:
                                rest = [v for v in rest if v not in known[1]]
                                if not rest:
                                    continue
                            e2 = dict(env)
                            if rest is not None and key[0] in self.rel:
                                if len(rest) == 1:
                                    e2[key] = rest[0]
                                else:
                                    ex = set(seenv)
                                    if isinstance(known, tuple):
                                        ex |= known[1]
                                    e2[key] = ('not', frozenset(ex))
                            yield lab, tg, e2
                        continue
                    v = lab[1] if isinstance(lab, tuple) else (ad.by_discr.get(lab) if ad else None)
                    seenv.append(v)
                    if isinstance(known, str) and v is not None and known != v:
                        continue
                    if isinstance(known, tuple) and v in known[1]:
                        continue
                    e2 = dict(env)
                    if v is not None and key[0] in self.rel:
                        e2[key] = v
                    yield lab, tg, e2
                return
            # plain bool / int
            neg = False
            place = op
            if lk and lk[0] == 'not':
                neg = True
                place = lk[1]
            key = self.canon(place)
            known = env.get(key)
            if known is None and self.assume:
                known = self.assume.boolean(place, node)
            vals = []
            isbool = all(lab in (0, 'else') for lab, _ in node.succ)
            for lab, tg in node.succ:
                if isbool:
                    v = (lab == 'else') != neg
                    if isinstance(known, bool) and known != v:
                        continue
                    e2 = env
                    if key[0] in self.rel and gl not in self.dropflag:
                        e2 = dict(env)
                        e2[key] = v
                    yield lab, tg, e2
                else:
                    vals.append(lab)
                    if isinstance(known, int) and not isinstance(known, bool):
                        if lab == 'else':
                            if known in vals:
                                continue
                        elif lab != known:
                            continue
                    yield lab, tg, env
            return
        if t[0] in ('switch',):
            v = t[1].get('v')
            for lab, tg in node.succ:
                if isinstance(v, bool) and (lab == 'else') != v:
                    continue
                yield lab, tg, env
            return
        for lab, tg in node.succ:
            yield lab, tg, env

    def _trim(self, node, env):
        return frozenset((k, v) for k, v in env.items() if self._keep(node, k))

    def _explode(self):
        g = self.g
        self.states = []
        self.succ = []
        self.index = {}
        self.at = defaultdict(list)

        def add(node, env):
            k = (node, env)
            i = self.index.get(k)
            if i is None:
                i = len(self.states)
                self.index[k] = i
                self.states.append(k)
                self.succ.append([])
                self.at[node].append(i)
                work.append(i)
            return i
        work = deque()
        add(g.entry, frozenset(self.seed.items()))
        while work:
            i = work.popleft()
            node, env = self.states[i]
            for lab, tg, e2 in self._node_out(g.nodes[node], dict(env)):
                if len(self.states) > self.CAP:
                    self.capped = True
                    fe = frozenset()
                else:
                    fe = self._trim(tg, e2)
                self.succ[i].append((lab, add(tg, fe)))
        self.exits = self.at.get(g.exit.id, [])
        self._pred = None

    # -------------------------------------------------------------- queries
    def env(self, i):
        return dict(self.states[i][1])

    def values(self, i, k):
        """facts {projection: value} about each operand of statement k of the node of state i"""
        nid, env = self.states[i]
        env = dict(env)
        node = self.g.nodes[nid]
        for pl, rv, ln in (node.stmts if k == 'call' else node.stmts[:k]):
            self._assign(env, pl, rv, node)
        out = []
        for o in (node.term[1].args if k == 'call' else self._ops(node.stmts[k][1])):
            if isinstance(o, dict):
                v = o.get('v')
                f = self._facts(env, o)
                if isinstance(v, (bool, int)) and () not in f:
                    f[()] = v
            else:
                f = {kk[1]: v for kk, v in self._copyfacts(env, o, ('x', ())).items()}
            out.append(f)
        return out

    def exit_variant(self, i, proj=()):
        return self.env(i).get((self.g.ret_local, tuple(proj)))

    def exits_with(self, *variants):
        """exit states whose returned variant is (possibly) one of variants; unknown counts as a match"""
        out = []
        for i in self.exits:
            v = self.exit_variant(i)
            if v is None or isinstance(v, tuple) or v in variants:
                out.append(i)
        return out

    def nodes_states(self, nodes):
        return [i for n in nodes for i in self.at.get(n, ())]

    def reach(self, starts, avoid=(), avoid_edges=()):
        """states reachable from starts (inclusive) without entering a node of `avoid` (starts themselves are
        always entered) nor following an edge (node, label) of avoid_edges"""
        avoid = set(avoid)
        ae = set(avoid_edges)
        seen = set(starts)
        work = deque(starts)
        par = {s: None for s in starts}
        while work:
            i = work.popleft()
            n = self.states[i][0]
            for lab, j in self.succ[i]:
                if j in seen or (n, lab) in ae or self.states[j][0] in avoid:
                    continue
                seen.add(j)
                par[j] = i
                work.append(j)
        self._par = par
        return seen

    def path_to(self, goal):
        out = []
        i = goal
        while i is not None:
            out.append(self.states[i][0])
            i = self._par.get(i)
        return out[::-1]

    def entry_states(self):
        return list(self.at.get(self.g.entry, ()))

    def describe_path(self, goal, maxn=8):
        """source lines of the path (after the last reach) to goal"""
        ls = []
        for n in self.path_to(goal):
            nd = self.g.nodes[n]
            if nd.frame is None:
                continue
            s = f'{nd.frame.fn.file}:{nd.line}'
            if not ls or ls[-1] != s:
                ls.append(s)
        if len(ls) > maxn:
            ls = ls[:2] + ['...'] + ls[-(maxn - 3):]
        return ' -> '.join(ls)


def show(t, d=6):
    """short rendering of a term"""
    if not isinstance(t, tuple) or d <= 0:
        return '..' if d <= 0 else str(t)
    k = t[0]
    if k == 'arg':
        return t[2] or f'arg{t[1]}'
    if k == 'fld':
        return show(t[1], d) + t[2]
    if k == 'str':
        return repr(t[1])
    if k == 'const':
        return str(t[1])
    if k == 'call':
        return t[1].split('::')[-1] + '(' + ', '.join(show(x, d - 1) for x in t[2]) + ')'
    if k == 'phi':
        return '{' + ' | '.join(show(x, d - 1) for x in t[1]) + '}'
    if k == 'adt':
        return t[1].split('::')[-1] + ('::' + t[2] if t[2] else '') + '{' + ', '.join(f'{n}:{show(x, d - 1)}' for n, x in t[3]) + '}'
    return str(k) + '(' + ', '.join(show(x, d - 1) if isinstance(x, tuple) else str(x) for x in t[1:]) + ')'

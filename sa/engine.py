"""Whole-program dataflow over the resolved MIR of the crate.

For one root function the analysis builds the inlined (call-string) control-flow
graph and computes, for every node, an abstract state: which term each live place
holds and which branch facts are known.  States are merged at joins (phi terms),
nodes are partitioned by the enum/boolean shape of the live locals (property
simulation in the style of ESP), and everything is iterated to a fixpoint.
The result is a finite graph annotated with *events* (calls to the primitives of
the layer below); the rules are graph queries over it."""
import heapq
import json
import sys

from terms import *

sys.setrecursionlimit(20000)


class Program:
    def __init__(self, path):
        F = json.load(open(path))
        self.types = F['types']
        self.nfn = F['nfn']
        self.I = {}
        for x in F['insts']:
            if not x.get('fail'):
                self.I[x['id']] = x
        self.local = [x for x in self.I.values() if x['local']]
        self._live = {}
        self._rpo = {}
        self._tn = {}

    def find(self, path=None, name=None, impl_self=None, impl_trait=None):
        r = []
        for x in self.local:
            if x['closure'] or x['kind'] != 'item':
                continue
            if path and x['path'] != path:
                continue
            if name and x['raw'].rsplit('::', 1)[-1] != name:
                continue
            if impl_self and not (x.get('impl_self') or '').split('<')[0].endswith(impl_self):
                continue
            if impl_trait is not None:
                if impl_trait == '' and x.get('impl_trait'):
                    continue
                if impl_trait and not (x.get('impl_trait') or '').endswith(impl_trait):
                    continue
            r.append(x)
        return r

    # -- types
    def tk(self, t):
        return self.types[t].get('k') if t is not None and t >= 0 else None

    def tname(self, t):
        if t is None or t < 0:
            return '?'
        n = self._tn.get(t)
        if n is None:
            n = self._tname(t)
            self._tn[t] = n
        return n

    def _tname(self, t):
        ty = self.types[t]
        k = ty.get('k')
        if k in ('ref', 'ptr'):
            return self.tname(ty['to'])
        if k == 'slice':
            return 'slice'
        if k == 'array':
            return 'array'
        if k == 'str':
            return 'str'
        if k == 'dyn':
            s = ty['s'].replace('dyn ', '').split(' + ')[0].split('<')[0].split('(')[0].strip('( ')
            return 'dyn ' + s.split('::')[-1]
        if k == 'adt':
            p = ty['path']
            m = {'ic_stable_structures::BTreeMap': 'SMap', 'ic_stable_structures::btreemap::BTreeMap': 'SMap',
                 'std::collections::BTreeMap': 'BMap', 'std::collections::HashMap': 'HMap',
                 'ic_stable_structures::memory_manager::VirtualMemory': 'VMem',
                 'ic_stable_structures::memory_manager::MemoryManager': 'MemoryManager',
                 'ic_stable_structures::Cell': 'SCell', 'ic_stable_structures::cell::Cell': 'SCell'}
            return m.get(p, p.split('::')[-1])
        if k == 'closure':
            return 'closure'
        return ty['s']

    def is_mutref(self, t):
        ty = self.types[t]
        return ty.get('k') in ('ref', 'ptr') and ty.get('mut')

    def adt_label(self, t):
        ty = self.types[t]
        return ty['path'].split('::')[-1]

    # -- control flow helpers
    def succs(self, t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [b for _, b in t[2]] + [t[3]]
        if k in ('drop',):
            return [t[2]]
        if k == 'assert':
            return [t[3]]
        if k == 'call':
            return [t[4]] if t[4] >= 0 else []
        return []

    def rpo(self, iid):
        r = self._rpo.get(iid)
        if r is None:
            b = self.I[iid]['blocks']
            seen = set()
            order = []
            st = [(0, iter(self.succs(b[0]['t'])))]
            seen.add(0)
            while st:
                n, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succs(b[s]['t']))))
                        break
                else:
                    order.append(n)
                    st.pop()
            order.reverse()
            r = {n: i for i, n in enumerate(order)}
            self._rpo[iid] = r
        return r

    def liveness(self, iid):
        r = self._live.get(iid)
        if r is not None:
            return r
        B = self.I[iid]
        blocks = B['blocks']
        taken = set()
        use = []
        df = []

        def pl(p, u):
            u.add(p[0])
            for e in p[1]:
                if e[0] == 'i':
                    u.add(e[1])

        def opn(o, u):
            if 'c' in o:
                pl(o['c'], u)
            elif 'm' in o:
                pl(o['m'], u)

        for bl in blocks:
            U = set()
            D = set()

            def addu(u):
                for x in u:
                    if x not in D:
                        U.add(x)
            for s in bl['s']:
                u = set()
                if s[0] == '=':
                    rv = s[2]
                    k = rv[0]
                    if k == 'use':
                        opn(rv[1], u)
                    elif k == 'repeat':
                        opn(rv[1], u)
                    elif k == 'ref':
                        pl(rv[1], u)
                        if '*' not in rv[1][1]:
                            taken.add(rv[1][0])
                    elif k == 'cast':
                        opn(rv[2], u)
                        if rv[1] == 'box':
                            q = rv[2].get('c') or rv[2].get('m')
                            if q:
                                taken.add(q[0])
                    elif k == 'bin':
                        opn(rv[2], u)
                        opn(rv[3], u)
                    elif k == 'un':
                        opn(rv[2], u)
                    elif k == 'discr':
                        pl(rv[1], u)
                    elif k == 'agg':
                        for o in rv[2]:
                            opn(o, u)
                    if s[1][1]:
                        pl(s[1], u)
                    addu(u)
                    if not s[1][1]:
                        D.add(s[1][0])
                elif s[0] == 'sd':
                    pl(s[1], u)
                    addu(u)
                elif s[0] == 'cno':
                    opn(s[1], u)
                    opn(s[2], u)
                    addu(u)
                elif s[0] == 'dead':
                    D.add(s[1])
            t = bl['t']
            u = set()
            if t[0] == 'switch' or t[0] == 'assert':
                opn(t[1], u)
            elif t[0] == 'call':
                opn(t[1], u)
                for o in t[2]:
                    opn(o, u)
                if t[3][1]:
                    pl(t[3], u)
            elif t[0] == 'ret':
                u.add(0)
            addu(u)
            if t[0] == 'call' and not t[3][1]:
                D.add(t[3][0])
            use.append(U)
            df.append(D)
        n = len(blocks)
        live = [set() for _ in range(n)]
        ch = True
        order = list(self.rpo(iid))
        order.reverse()
        while ch:
            ch = False
            for b in order:
                o = set()
                for s in self.succs(blocks[b]['t']):
                    o |= live[s]
                nl = use[b] | (o - df[b])
                if nl != live[b]:
                    live[b] = nl
                    ch = True
        r = (live, taken)
        self._live[iid] = r
        return r


class Frame:
    __slots__ = ('id', 'parent', 'cb', 'iid', 'body', 'prefix', 'chain', 'sub', 'cont')


class Event:
    __slots__ = ('node', 'idx', 'name', 'cls', 'meth', 'recv', 'args', 'raw', 'res', 'line', 'frame', 'facts', 'env', 'pre', 'an')

    def __repr__(self):
        return '%s(%s) -> %s' % (self.name, ', '.join(show(x) for x in self.args), show(self.res) if self.res is not None else '')


class Node:
    __slots__ = ('key', 'id', 'frame', 'block', 'sub', 'pk', 'ins', 'outs', 'env', 'facts', 'events', 'visits', 'exit', 'stash', 'resets', 'edgefacts', 'outfacts')


class State:
    __slots__ = ('env', 'facts')

    def __init__(self, env, facts):
        self.env = env
        self.facts = facts


class Fail(Exception):
    pass


ALLBITS = None


RESETS = 20


class Analysis:
    def __init__(self, prog, root, split=None, max_nodes=60000, opaque=None, params=None, rec_keep=()):
        self.P = prog
        self.root = root
        self.frames = {}
        self.framelist = []
        self.nodes = {}
        self.nodelist = []
        self.rets = {}          # node id -> return of a nested call: (node, frame, value, facts)
        self.heap = []
        self.phi_in = {}
        self.domain = {}
        self.split = split or (lambda t: False)
        self.max_nodes = max_nodes
        self.inlined = set()
        self.externals = {}
        self.opaque = opaque or (lambda b: False)
        self.params = params or {}
        self.exits = []
        self.rec_keep = rec_keep
        self._newmaps = []
        self.entry = None
        self.run()

    # ------------------------------------------------------------ frames/nodes
    def frame(self, parent, cb, iid, sub=0, cont=None, nsub=0):
        k = (parent.id if parent else None, cb, iid, sub)
        f = self.frames.get(k)
        if f is None:
            f = Frame()
            f.id = len(self.framelist)
            f.parent = parent
            f.cb = cb
            f.iid = iid
            f.body = self.P.I[iid]
            f.sub = sub
            f.cont = cont
            if parent:
                f.prefix = parent.prefix + (self.P.rpo(parent.iid).get(cb, 0), nsub)
                f.chain = parent.chain | {iid}
            else:
                f.prefix = ()
                f.chain = frozenset([iid])
            self.frames[k] = f
            self.framelist.append(f)
            self.inlined.add(iid)
        return f

    def node(self, frame, block, sub, pk):
        k = (frame.id, block, sub, pk)
        n = self.nodes.get(k)
        if n is None:
            n = Node()
            n.key = k
            n.id = len(self.nodelist)
            n.frame = frame
            n.block = block
            n.sub = sub
            n.pk = pk
            n.ins = {}
            n.outs = []
            n.env = None
            n.facts = None
            n.events = []
            n.visits = 0
            n.exit = None
            n.stash = {}
            n.resets = 0
            n.edgefacts = {}
            n.outfacts = {}
            self.nodes[k] = n
            self.nodelist.append(n)
            if len(self.nodelist) > self.max_nodes:
                raise Fail('node limit in ' + self.root['path'])
        return n

    def prio(self, n):
        return n.frame.prefix + (self.P.rpo(n.frame.iid).get(n.block, 0), n.sub)

    def push(self, n):
        heapq.heappush(self.heap, (self.prio(n), n.id))

    # ------------------------------------------------------------ partition key
    def shape(self, v, depth=0):
        if depth > 3:
            return None
        if v.op == 'agg':
            if v.a[1]:
                sub = tuple(self.shape(x, depth + 1) for x in v.a[3:])
                return (v.a[0], v.a[1]) + sub
            if v.a[0] == 'tuple':
                sub = tuple(self.shape(x, depth + 1) for x in v.a[3:])
                return sub if any(x is not None for x in sub) else None
        return None

    def pkey(self, frame, block, st):
        r = []
        facts = st.facts
        for loc, v in st.env.items():
            if type(loc[0]) is not int:
                continue
            if v.op == 'agg':
                s = self.shape(v)
                if s is not None:
                    r.append((loc, s))
                    if len(v.a) == 4 and v.a[1] and v.a[3].op == 'int':
                        lt = self.P.types[self.framelist[loc[0]].body['locals'][loc[1]]]
                        if 'bool' in lt.get('s', ''):
                            r.append((loc, 'v', v.a[3].a[0]))
            elif v.op == 'int':
                body = self.framelist[loc[0]].body
                lt = body['locals'][loc[1]]
                if self.P.tk(lt) == 'bool':
                    r.append((loc, v.a[0]))
            elif v.op in ('app', 'fld', 'phi', 'init'):
                f = facts.get(mk('disc', v))
                if f is not None and len(f) == 1:
                    body = self.framelist[loc[0]].body
                    lt = body['locals'][loc[1]]
                    if self.P.tk(lt) == 'adt' and self.P.types[lt].get('adt') == 'enum':
                        r.append((loc, 'd', tuple(f)))
            elif v.op in ('not', 'eq0', 'le0'):
                b = self.truth(st, v)
                if b is not None:
                    r.append((loc, 'b', b))
        for t, f in facts.items():
            if type(f) is frozenset and len(f) == 1 and self.split(t):
                r.append((t.id, tuple(f)))
        r.sort(key=repr)
        return tuple(r)

    # ------------------------------------------------------------ joins
    def join(self, n):
        ins = list(n.ins.values())
        if len(ins) == 1:
            s = ins[0]
            # still need stale-phi treatment (self loops only)
            env, facts = s.env, s.facts
            return self._dephi1(n, s)
        nid = n.id
        self._newmaps = []
        locs = set(ins[0].env)
        for s in ins[1:]:
            locs &= set(s.env)
        env = {}
        for l in locs:
            vs = []
            for s in ins:
                v = s.env[l]
                if v not in vs:
                    vs.append(v)
            env[l] = self._joinv(nid, l, vs, n)
        # drop symbolic heap locations that mention stale phis
        for l in list(env):
            if l[0] == 'd' and nid in l[1].phis:
                del env[l]
        facts = None
        for s in ins:
            f = self._live_facts(nid, s)
            if facts is None:
                facts = f
            else:
                nf = {}
                for t, x in facts.items():
                    y = f.get(t)
                    if y is None:
                        continue
                    z = self._fjoin(t, x, y)
                    if z is not None:
                        nf[t] = z
                facts = nf
        if self._newmaps:
            self._map_facts(ins, facts)
        return State(env, facts)

    def _dephi1(self, n, s):
        nid = n.id
        bad = [l for l, v in s.env.items() if nid in v.phis and not (v.op == 'phi' and v.a[0] == nid and v.a[1] == l)]
        if not bad:
            return State(dict(s.env), dict(s.facts))
        env = dict(s.env)
        self._newmaps = []
        for l in bad:
            env[l] = self._joinv(nid, l, [env[l]], n)
        return State(env, self._live_facts(nid, s))

    def _live_facts(self, nid, s):
        f = {}
        for t, x in s.facts.items():
            if nid in t.phis:
                okk = True
                for st in subterms(t):
                    if st.op == 'phi' and st.a[0] == nid:
                        if not self._loc_holds(s.env, st):
                            okk = False
                            break
                if not okk:
                    continue
            f[t] = x
        return f

    def _loc_holds(self, env, ph):
        l = ph.a[1]
        path = []
        while type(l) is tuple and len(l) == 3 and l[0] == 'sub':
            path.append((l[2], ph))
            l = l[1]
        v = env.get(l)
        if v is None:
            return False
        for k, _ in reversed(path):
            v = fld(v, k[0], k[1])
        return v is ph

    def _joinv(self, nid, l, vs, n):
        if len(vs) == 1:
            v = vs[0]
            if nid not in v.phis:
                return v
            if v.op == 'phi' and v.a[0] == nid and v.a[1] == l:
                return v
        me = mk('phi', nid, l)
        # self reference: ignore
        oth = [v for v in vs if v is not me]
        if self._force and me in vs:
            self.phi_in.setdefault(me, set()).update(oth)
            return me
        if len(oth) == 1 and nid not in oth[0].phis and len(vs) > 1:
            # unchanged on the other edges
            return oth[0]
        ops = {v.op for v in oth}
        if ops == {'agg'}:
            h = {v.a[:3] for v in oth}
            if len(h) == 1 and len(oth[0].a) > 3 and me not in vs:
                lab, var, keys = oth[0].a[:3]
                vals = []
                for i, k in enumerate(keys):
                    sv = []
                    for v in oth:
                        x = v.a[3 + i]
                        if x not in sv:
                            sv.append(x)
                    vals.append(self._joinv(nid, ('sub', l, (k, lab)), sv, n))
                return agg(lab, var, keys, *vals)
        if me not in vs and ops <= {'with', 'app', 'fld', 'init', 'phi', 'upd'} and 'with' in ops:
            bases = {v.a[0] if v.op == 'with' else v for v in oth}
            if len(bases) == 1:
                base, = bases
                if nid not in base.phis:
                    keys = {}
                    for v in oth:
                        if v.op == 'with':
                            for k, _ in v.a[1]:
                                keys[k] = 1
                    r = base
                    for k in sorted(keys):
                        sv = []
                        for v in oth:
                            x = fld(v, k, '')
                            if v.op != 'with' or k not in dict(v.a[1]):
                                x = self._basefld(base, k)
                            if x not in sv:
                                sv.append(x)
                        r = setfld(r, k, self._joinv(nid, ('sub', l, (k, '')), sv, n), self._lab(base, k))
                    return r
        s = self.phi_in.setdefault(me, set())
        for v in oth:
            s.add(v)
        if any(v.op == 'upd' and v.a[0] == 'insert' for v in oth):
            self._newmaps.append(me)
        return me

    def _map_facts(self, ins, facts):
        """a key present in a map on every incoming edge is present after the join"""
        for ph in self._newmaps:
            vals = [self.phi_on_edge(ph, s) for s in ins]
            if any(v is None for v in vals):
                continue
            keys = []
            for v in vals:
                while v.op == 'upd':
                    if v.a[0] == 'insert' and v.a[2] not in keys and len(keys) < 4 and ph.a[0] not in v.a[2].phis:
                        keys.append(v.a[2])
                    v = v.a[1]
            for k in keys:
                kinds = set()
                for v, s in zip(vals, ins):
                    o = mget(v, k, self, s)
                    if o.op == 'agg' and o.a[1] == 'Some':
                        e = o.a[3]
                        kinds.add(e.a[1] if e.op == 'agg' and e.a[1] else None)
                    elif o.op == 'app' and s.facts.get(mk('disc', o)) == frozenset([1]):
                        d = s.facts.get(mk('disc', app('at', *o.a[1:])))
                        kinds.add(d if d is not None and type(d) is frozenset and len(d) == 1 else None)
                    else:
                        kinds = None
                        break
                if kinds is None:
                    continue
                t = mk('disc', app('get', ph, k))
                self.domain[t] = frozenset([0, 1])
                facts[t] = frozenset([1])
                names = {x for x in kinds if type(x) is str}
                ds = {x for x in kinds if type(x) is frozenset}
                if None not in kinds and len(names) == 1:
                    d = self.variant_discr(next(iter(names)), [v for v in vals], k)
                    if d is not None and (not ds or ds == {frozenset([d])}):
                        facts[mk('disc', app('at', ph, k))] = frozenset([d])
                elif None not in kinds and not names and len(ds) == 1:
                    facts[mk('disc', app('at', ph, k))] = next(iter(ds))

    def variant_discr(self, name, vals, k):
        for v in vals:
            while v.op == 'upd':
                if v.a[0] == 'insert' and v.a[2] is k and v.a[3].op == 'agg' and v.a[3].a[1] == name:
                    return self.enum_discr(v.a[3].a[0], name)
                v = v.a[1]
        return None

    def enum_discr(self, label, variant):
        for t in self.P.types:
            if t.get('k') == 'adt' and t.get('adt') == 'enum' and t['path'].split('::')[-1] == label:
                for v in t['variants']:
                    if v['name'] == variant:
                        return int(v['discr'])
        return None

    def _lab(self, base, k):
        return self.fldlab.get((base, k), '')

    def _basefld(self, base, k):
        return fld(base, k, self.fldlab.get((base, k), ''))

    fldlab = {}

    def _fjoin(self, t, x, y):
        if x == y:
            return x
        xn = type(x) is tuple
        yn = type(y) is tuple
        if not xn and not yn:
            z = x | y
            dom = self.domain.get(t)
            if dom is not None and z >= dom:
                return None
            if t.op in ('le0', 'sle0', 'eq0', 'isv') or len(z) > 6:
                return None if (len(z) > 1) else z
            return z
        if xn and yn:
            z = x[1] & y[1]
            return ('n', z) if z else None
        if xn:
            x, y = y, x
        z = y[1] - x
        return ('n', z) if z else None

    # ------------------------------------------------------------ facts
    def fact(self, st, t):
        return st.facts.get(t)

    def truth(self, st, t):
        """truth value of boolean term under the facts, or None"""
        if t.op == 'int':
            return t.a[0] != 0
        if t.op == 'not':
            r = self.truth(st, t.a[0])
            return None if r is None else not r
        if t.op == 'eq0':
            c, d = lin_parts(t.a[0])
            if len(d) == 1:
                (x, k), = d.items()
                if -c % k == 0:
                    val = -c // k
                    f = st.facts.get(x)
                    if f is not None:
                        if type(f) is tuple:
                            if val in f[1]:
                                return False
                        else:
                            if f == {val}:
                                return True
                            if val not in f:
                                return False
                    dm = self.domain.get(x)
                    if dm is not None and val not in dm:
                        return False
        f = st.facts.get(t)
        if f is not None and type(f) is frozenset and len(f) == 1:
            return next(iter(f)) != 0
        if t.op == 'le0':
            return self._le_known(st, t)
        if t.op == 'eq0':
            # x == y refuted by a strict inequality
            a = mk('le0', t.a[0])
            return None
        return None

    def _le_known(self, st, t):
        c, d = lin_parts(t.a[0])
        vp = mk_lin(0, d)
        # L = vp + c <= 0 known from vp + c2 <= 0 with c2 >= c
        idx = self._leidx(st)
        for (c2, pol) in idx.get(vp, ()):
            if pol and c2 >= c:
                return True
            if not pol and c2 <= c:   # vp + c2 > 0  -> vp + c > 0
                return False
        return None

    def _leidx(self, st):
        r = {}
        for t, f in st.facts.items():
            if t.op == 'le0' and type(f) is frozenset and len(f) == 1:
                c, d = lin_parts(t.a[0])
                r.setdefault(mk_lin(0, d), []).append((c, next(iter(f)) != 0))
        return r

    unsigned_sub = frozenset()

    def assume(self, st, t, val):
        """returns False if contradictory; mutates st.facts"""
        if t.op == 'int':
            return (t.a[0] != 0) == val
        if t.op == 'not':
            return self.assume(st, t.a[0], not val)
        known = self.truth(st, t)
        if known is not None:
            return known == val
        if t.op == 'eq0':
            c, d = lin_parts(t.a[0])
            if len(d) == 1:
                (x, k), = d.items()
                if -c % k == 0:
                    return self.assume_val(st, x, -c // k, val)
        st.facts[t] = frozenset([1 if val else 0])
        return True

    def assume_val(self, st, x, v, eq_):
        if x.op == 'int':
            return (x.a[0] == v) == eq_
        if x.op in ('not', 'eq0', 'le0', 'sle0'):
            return self.assume(st, x, (v != 0) if eq_ else (v == 0))
        if x.op == 'lin':
            return self.assume(st, eq0(sub(x, INT(v))), eq_)
        f = st.facts.get(x)
        if eq_:
            if f is not None:
                if type(f) is tuple:
                    if v in f[1]:
                        return False
                elif v not in f:
                    return False
            dm = self.domain.get(x)
            if dm is not None and v not in dm:
                return False
            st.facts[x] = frozenset([v])
        else:
            if type(f) is frozenset:
                f = f - {v}
                if not f:
                    return False
                st.facts[x] = f
            else:
                ex = (f[1] if f else frozenset()) | {v}
                dm = self.domain.get(x)
                if dm is not None:
                    r = dm - ex
                    if not r:
                        return False
                    st.facts[x] = r
                else:
                    st.facts[x] = ('n', ex)
        if x.op == 'disc' and x in self.unsigned_sub:
            f = st.facts.get(x)
            if f in (frozenset([0]), frozenset([1])):
                # checked_sub of unsigned numbers gives a value exactly if it does not go below zero
                a, b = x.a[0].a[1:]
                return self.assume(st, le(b, a), f == frozenset([1]))
        return True

    # ------------------------------------------------------------ places
    def rd_elem(self, st, v, e):
        k = e[0]
        if k == 'f':
            if v.op == 'app' and v.a[0] == 'getm' and e[1] == 'Some.0':
                return v.a[2]
            r = fld(v, e[1], e[2])
            if r.op == 'fld':
                self.fldlab[(v, e[1])] = e[2]
            if r.op in ('fld',) and v.op == 'app':
                r = self.norm_fld(v, e[1], r)
            return r
        if k == 'i':
            return self.idx(v, e[1])
        if k == 'k':
            o = mget(v, e[1], self, st)
            return fld(o, 'Some.0', 'Option')
        if k == 'sl':
            return app('sl', v, e[1], e[2])
        if k == 'any':
            return app('anyel', v)
        return app('elem', v)

    def norm_fld(self, v, key, r):
        f = v.a[0]
        if f == 'checked_add' and key == 'Some.0':
            return add(v.a[1], v.a[2])
        if f == 'checked_sub' and key == 'Some.0':
            return sub(v.a[1], v.a[2])
        if f == 'checked_mul' and key == 'Some.0':
            return mul(v.a[1], v.a[2])
        if f == 'ovf':
            pass
        return r

    def idx(self, v, i):
        if v.op == 'agg' and v.a[0] == 'array' and i.op == 'int':
            n = i.a[0]
            if 0 <= n < len(v.a) - 3:
                return v.a[3 + n]
        if v.op == 'upd' and v.a[0] == 'store':
            if v.a[2] is i:
                return v.a[3]
            if v.a[2].op == 'int' and i.op == 'int':
                return self.idx(v.a[1], i)
        if v.op == 'bytes' and i.op == 'int' and 0 <= i.a[0] < len(v.a[0]):
            return INT(v.a[0][i.a[0]])
        if v.op == 'fill':
            return INT(v.a[0])
        return app('idx', v, i)

    def wr_elem(self, st, v, e, new):
        k = e[0]
        if k == 'f':
            if v.op not in ('agg', 'with'):
                self.fldlab[(v, e[1])] = e[2]
            return setfld(v, e[1], new, e[2])
        if k == 'i':
            if v.op == 'agg' and v.a[0] == 'array' and e[1].op == 'int' and 0 <= e[1].a[0] < len(v.a) - 3:
                vals = list(v.a[3:])
                vals[e[1].a[0]] = new
                return mk('agg', 'array', '', v.a[2], *vals)
            return mk('upd', 'store', v, e[1], new)
        if k == 'k':
            return mk('upd', 'insert', v, e[1], new)
        if k == 'sl':
            return mk('upd', 'splice', v, e[1], e[2], new)
        return mk('upd', 'storeany', v, new)

    def rd(self, st, loc, path):
        v = st.env.get(loc)
        if v is None:
            if loc[0] == 'd':
                v = loc[1]
            elif loc[0] == 'p':
                v = mk('init', loc[1])
            else:
                v = mk('undef', loc)
        for e in path:
            v = self.rd_elem(st, v, e)
        return v

    def wr(self, st, loc, path, new):
        if not path:
            st.env[loc] = new
            return
        base = self.rd(st, loc, ())
        vals = [base]
        for e in path[:-1]:
            vals.append(self.rd_elem(st, vals[-1], e))
        nv = new
        for v, e in zip(reversed(vals), reversed(path)):
            nv = self.wr_elem(st, v, e, nv)
        st.env[loc] = nv

    def deref_target(self, v):
        if v.op == 'ref':
            return v.a[0], v.a[1]
        return ('d', v), ()

    def place(self, st, fr, p):
        loc = (fr.id, p[0])
        path = ()
        ty = fr.body['locals'][p[0]]
        P = self.P
        var = None
        for e in p[1]:
            if e == '*':
                t = P.types[ty] if ty is not None and ty >= 0 else {}
                if t.get('k') == 'adt':       # Box
                    ty = t['args'][0] if t['args'] else None
                    v = self.rd(st, loc, path)
                    if v.op == 'ref':
                        loc, path = v.a[0], v.a[1]
                    continue
                v = self.rd(st, loc, path)
                loc, path = self.deref_target(v)
                ty = t.get('to')
                var = None
            elif e[0] == 'f':
                t = P.types[ty] if ty is not None and ty >= 0 else {}
                k = t.get('k')
                key = str(e[1])
                label = ''
                if k == 'adt':
                    lab = P.adt_label(ty)
                    label = lab
                    if lab in ('Box', 'Unique', 'NonNull', 'Rc', 'ManuallyDrop', 'MaybeUninit'):
                        ty = e[2]
                        continue
                    vs = t.get('variants') or []
                    if t.get('adt') == 'enum':
                        vi = var if var is not None else 0
                        if vi < len(vs):
                            key = vs[vi]['name'] + '.' + vs[vi]['fields'][e[1]][0]
                    elif vs and e[1] < len(vs[0]['fields']):
                        key = vs[0]['fields'][e[1]][0]
                elif k == 'closure':
                    label = 'closure'
                elif k == 'tuple':
                    label = 'tuple'
                path = path + (('f', key, label),)
                ty = e[2]
                var = None
            elif e[0] == 'v':
                var = e[1]
            elif e[0] == 'i':
                i = self.rd(st, (fr.id, e[1]), ())
                path = path + (('i', i),)
                ty = P.types[ty].get('el') if ty is not None and ty >= 0 else None
            elif e[0] == 'ci':
                if e[3]:
                    i = sub(self.length(st, self.rd(st, loc, path)), INT(e[1]))
                else:
                    i = INT(e[1])
                path = path + (('i', i),)
                ty = P.types[ty].get('el') if ty is not None and ty >= 0 else None
            elif e[0] == 'ss':
                hi = INT(e[2]) if not e[3] else sub(self.length(st, self.rd(st, loc, path)), INT(e[2]))
                path = path + (('sl', INT(e[1]), hi),)
            else:
                path = path + (('o',),)
        return loc, path, ty

    def length(self, st, v):
        op = v.op
        if op == 'agg' and v.a[0] == 'array':
            return INT(len(v.a) - 3)
        if op == 'bytes':
            return INT(len(v.a[0]))
        if op == 'str':
            return INT(len(v.a[0].encode()))
        if op == 'fill':
            return INT(v.a[1])
        if op == 'repeat':
            return INT(v.a[1])
        if op == 'app':
            f = v.a[0]
            if f == 'sl':
                hi = v.a[3]
                if hi.op == 'end':
                    hi = self.length(st, v.a[1])
                return sub(hi, v.a[2])
            if f == 'raw':
                return v.a[2]
            if f == 'mread':
                return v.a[3]
            if f == 'array_of':
                return v.a[1]
        if op == 'upd' and v.a[0] in ('splice', 'store', 'storeany'):
            return self.length(st, v.a[1])
        if op == 'static' and len(v.a) > 1:
            return INT(v.a[1])
        return app('len', v)

    # ------------------------------------------------------------ constants
    def const(self, k):
        P = self.P
        t = k.get('t')
        if 'i' in k:
            v = int(k['i'])
            ty = P.types[t]
            if ty.get('k') == 'int' and v >> (ty['bits'] - 1):
                v -= 1 << ty['bits']
            return INT(v)
        if 'static' in k:
            n = P.types[t].get('n')
            return mk('static', k['static'].split('::')[-1], n) if n is not None else mk('static', k['static'].split('::')[-1])
        if 'ref' in k:
            v = self.const(k['ref'])
            loc = ('c', v)
            return mk('ref', ('d', v), ())
        if 'str' in k:
            return mk('str', k['str'])
        if 'bytes' in k:
            return mk('bytes', tuple(k['bytes']))
        if 'fill' in k:
            return mk('fill', k['fill'], k['n'])
        if 'agg' in k:
            ty = P.types[t]
            vals = [self.const(x) for x in k['agg']]
            return self.mkagg_ty(t, k['v'], vals)
        if 'fn' in k:
            return mk('fnitem', k['fn'].get('inst', -1), k['fn']['full'])
        if 'zst' in k:
            ty = P.types[t]
            if ty.get('k') == 'adt' and ty.get('variants'):
                return mk('agg', P.adt_label(t), ty['variants'][0]['name'] if ty['adt'] == 'enum' else '', ())
            if ty.get('k') == 'closure':
                return mk('agg', 'closure', ('zst', t), ())
            if ty.get('k') == 'tuple':
                return UNIT
            return mk('zst', ty['s'])
        return mk('const', k.get('name') or k.get('sym') or P.types[t]['s'])

    def mkagg_ty(self, t, vi, vals):
        P = self.P
        ty = P.types[t]
        k = ty.get('k')
        if k == 'adt':
            vs = ty.get('variants') or []
            lab = P.adt_label(t)
            if lab == 'ManuallyDrop' and len(vals) == 1:
                return vals[0]          # as in place()
            if vs and vi < len(vs):
                v = vs[vi]
                if ty['adt'] == 'enum':
                    keys = tuple(v['name'] + '.' + f[0] for f in v['fields'])[:len(vals)]
                    return agg(lab, v['name'], keys, *vals)
                if len(vals) == len(v['fields']):
                    return agg(lab, '', tuple(f[0] for f in v['fields']), *vals)
            return agg(lab, '', tuple(str(i) for i in range(len(vals))), *vals)
        if k == 'array':
            return mk('agg', 'array', '', tuple(range(len(vals))), *vals)
        return tup(*vals)

    def disc_of(self, st, v, ty):
        P = self.P
        t = P.types[ty] if ty is not None and ty >= 0 else {}
        if v.op == 'agg' and v.a[1]:
            for x in t.get('variants') or []:
                if x['name'] == v.a[1]:
                    return INT(int(x['discr']))
        if v.op == 'app' and v.a[0] == 'getm':
            v = v.a[1]
            if v.op == 'agg':
                return INT(1 if v.a[1] == 'Some' else 0)
        if v.op == 'app' and v.a[0] == 'checked_sub' and False:
            pass
        d = mk('disc', v)
        if t.get('adt') == 'enum' and t.get('variants') and d not in self.domain:
            self.domain[d] = frozenset(int(x['discr']) for x in t['variants'])
        return d

    def operand(self, st, fr, o):
        if 'k' in o:
            return self.const(o['k'])
        p = o.get('c') or o.get('m')
        loc, path, ty = self.place(st, fr, p)
        return self.rd(st, loc, path)

    def opty(self, fr, o):
        if 'k' in o:
            return o['k']['t']
        p = o.get('c') or o.get('m')
        ty = fr.body['locals'][p[0]]
        for e in p[1]:
            if e == '*':
                t = self.P.types[ty]
                ty = t.get('to') if t.get('k') != 'adt' else t['args'][0]
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'ci'):
                ty = self.P.types[ty].get('el')
        return ty

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv, destty):
        k = rv[0]
        P = self.P
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref':
            loc, path, ty = self.place(st, fr, rv[1])
            if loc[0] == 'd' and not path and not rv[2] and st.env.get(loc) is None:
                v = loc[1]
                if v.op not in ('agg', 'bytes', 'str', 'fill', 'static', 'int', 'const'):
                    return v          # reborrow of a shared symbolic reference
            return mk('ref', loc, path)
        if k == 'cast':
            o = rv[2]
            if rv[1] == 'box':
                p = o.get('c') or o.get('m')
                loc, path, ty = self.place(st, fr, p)
                v = self.rd(st, loc, path)
                if v.op == 'ref':
                    return v
                return mk('ref', loc, path)
            v = self.operand(st, fr, o)
            if rv[1] == 'int':
                st_ = P.types[self.opty(fr, o)]
                tt = P.types[rv[3]]
                return self.intcast(st, v, st_, tt, rv[3])
            return v
        if k == 'bin':
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            ty = self.P.types[self.opty(fr, rv[2])]
            return self.binop(st, rv[1], a, b, ty)
        if k == 'un':
            a = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if P.tk(self.opty(fr, rv[2])) == 'bool':
                    return self.boolify(a, True)
                return app('bnot', a)
            if rv[1] == 'Neg':
                return scale(a, -1)
            if rv[1] == 'PtrMetadata':
                loc, path = self.deref_target(a)
                return self.length(st, self.rd(st, loc, path))
            return app(rv[1], a)
        if k == 'discr':
            loc, path, ty = self.place(st, fr, rv[1])
            return self.disc_of(st, self.rd(st, loc, path), ty)
        if k == 'agg':
            vals = [self.operand(st, fr, o) for o in rv[2]]
            a = rv[1]
            if a[0] == 'adt':
                if a[3] >= 0:
                    if len(vals) == 1 and P.adt_label(destty) in ('MaybeUninit', 'ManuallyDrop'):
                        return vals[0]
                    return app('union', *vals)
                return self.mkagg_ty(destty, a[2], vals)
            if a[0] == 'tuple':
                return tup(*vals)
            if a[0] == 'array':
                return mk('agg', 'array', '', tuple(range(len(vals))), *vals)
            if a[0] == 'closure':
                return mk('agg', 'closure', a[2], tuple(str(i) for i in range(len(vals))), *vals)
            return app('agg', *vals)
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            if v.op == 'int':
                return mk('fill', v.a[0], rv[2])
            return mk('repeat', v, rv[2])
        return app('other')

    def boolify(self, a, inv):
        return neg(a) if inv else a

    def intcast(self, st, v, s, t, tid):
        sk, tk = s.get('k'), t.get('k')
        if s.get('k') == 'bool' or s.get('k') == 'char':
            return v
        if sk == 'adt':
            return self.disc_of(st, v, None)
        sb, tb = s.get('bits', 64), t.get('bits', 64)
        if v.op == 'int':
            x = v.a[0] & ((1 << tb) - 1)
            if tk == 'int' and x >> (tb - 1):
                x -= 1 << tb
            return INT(x)
        if sk == 'uint' and tk == 'uint':
            if tb >= sb:
                return v
            return app('trunc', v, INT(tb))
        if sk == 'uint' and tk == 'int' and tb > sb:
            return v
        if sk == 'int' and tk == 'int' and tb >= sb:
            return v
        return app('cast_%s%d_%s%d' % (sk, sb, tk, tb), v)

    def binop(self, st, o, a, b, ty):
        signed = ty.get('k') == 'int'
        if o in ('Add', 'AddUnchecked'):
            return add(a, b)
        if o in ('Sub', 'SubUnchecked'):
            return sub(a, b)
        if o in ('Mul', 'MulUnchecked'):
            return mul(a, b)
        if o in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            f = {'A': add, 'S': sub, 'M': mul}[o[0]]
            return tup(f(a, b), app('ovf' + o[0], a, b))
        if o == 'Div':
            if a.op == 'int' and b.op == 'int' and b.a[0]:
                return INT(a.a[0] // b.a[0])
            if b is ONE:
                return a
            return app('div', a, b)
        if o == 'Rem':
            if a.op == 'int' and b.op == 'int' and b.a[0]:
                return INT(a.a[0] % b.a[0])
            return app('rem', a, b)
        if o == 'BitAnd':
            if ty.get('k') == 'bool':
                if a.op == 'int':
                    return b if a.a[0] else FALSE
                if b.op == 'int':
                    return a if b.a[0] else FALSE
            if a.op == 'int' and b.op == 'int':
                return INT(a.a[0] & b.a[0])
            if a.op == 'int':
                a, b = b, a
            if b.op != 'int' and a.id > b.id:
                a, b = b, a
            return app('band', a, b)
        if o == 'BitOr':
            if a.op == 'int' and b.op == 'int':
                return INT(a.a[0] | b.a[0])
            if ty.get('k') == 'bool':
                if a.op == 'int':
                    return TRUE if a.a[0] else b
                if b.op == 'int':
                    return TRUE if b.a[0] else a
            return app('bor', *sorted((a, b), key=lambda t: t.id))
        if o == 'BitXor':
            if a.op == 'int' and b.op == 'int':
                return INT(a.a[0] ^ b.a[0])
            return app('bxor', *sorted((a, b), key=lambda t: t.id))
        if o in ('Shl', 'ShlUnchecked'):
            if a.op == 'int' and b.op == 'int':
                return INT(a.a[0] << b.a[0])
            if b.op == 'int':
                return scale(a, 1 << b.a[0])
            return app('shl', a, b)
        if o in ('Shr', 'ShrUnchecked'):
            if a.op == 'int' and b.op == 'int':
                return INT(a.a[0] >> b.a[0])
            if b.op == 'int' and not signed:
                return app('div', a, INT(1 << b.a[0]))
            return app('shr', a, b)
        if o == 'Eq':
            if ty.get('k') == 'bool':
                if b.op == 'int':
                    return a if b.a[0] else neg(a)
                if a.op == 'int':
                    return b if a.a[0] else neg(b)
            return eq(a, b)
        if o == 'Ne':
            return neg(self.binop(st, 'Eq', a, b, ty))
        if o == 'Lt':
            return lt(a, b, signed)
        if o == 'Le':
            return le(a, b, signed)
        if o == 'Gt':
            return lt(b, a, signed)
        if o == 'Ge':
            return le(b, a, signed)
        return app(o, a, b)

    # ------------------------------------------------------------ driver
    def prune(self, st, fr, block):
        """drop dead locals of frame fr at block entry"""
        live, taken = self.P.liveness(fr.iid)
        lv = live[block]
        dead = [l for l in st.env if l[0] == fr.id and l[1] not in lv and l[1] not in taken]
        for l in dead:
            del st.env[l]

    def edge(self, n, fr, block, sub_, st, tag=''):
        if sub_ == 0:
            self.prune(st, fr, block)
        pk = self.pkey(fr, block, st)
        m = self.node(fr, block, sub_, pk)
        self._new_outs.append((m, tag, st))

    def process(self, n):
        j = self.join(n)
        if n.env is not None and n.env == j.env and n.facts == j.facts:
            return
        n.visits += 1
        if n.visits in (40, 80, 120) and self.sweep() and not n.ins:
            return
        if n.visits > 150 and n.env is not None:
            # force convergence: merge with previous
            if n.visits > 400:
                raise Fail('no convergence at %s bb%d' % (n.frame.body['path'], n.block))
            env = {}
            for l, v in j.env.items():
                o = n.env.get(l)
                if o is not None:
                    if o is v:
                        env[l] = v
                    else:
                        self._newmaps = []
                        self._force = True
                        env[l] = self._joinv(n.id, l, [o, v], n)
                        self._force = False
            f = {t: x for t, x in j.facts.items() if n.facts.get(t) == x}
            j = State(env, f)
            if n.env == j.env and n.facts == j.facts:
                return
        n.env = j.env
        n.facts = j.facts
        n.events = []
        n.exit = None
        st = State(dict(j.env), dict(j.facts))
        self._new_outs = []
        if n.sub == 0:
            self.exec_block(n, st)
        else:
            self.exec_sub(n, st)
        # update edges
        new = {}
        for i, (m, tag, s) in enumerate(self._new_outs):
            new[(m.id, tag)] = (m, s)
        for (mid, tag) in n.outs:
            if (mid, tag) not in new:
                m = self.nodelist[mid]
                if self.prio(m) <= self.prio(n):
                    # a loop's back edge: the new back edge has to arrive first
                    self.deferred.append((mid, (n.id, tag)))
                    continue
                m.stash.pop((n.id, tag), None)
                m.ins.pop((n.id, tag), None)
                if m.ins:
                    self.push(m)
                else:
                    self.kill(m)
        n.outs = list(new)
        for (mid, tag), (m, s) in new.items():
            k = (n.id, tag)
            m.stash.pop(k, None)
            o = m.ins.get(k)
            m.ins[k] = s
            if m.visits and m.resets < RESETS and self.prio(n) < self.prio(m) and (o is None or o.env != s.env or o.facts != s.facts):
                # a loop is entered with another state: what its back edges say is about the old one
                back = [q for q in m.ins if type(q[0]) is int and self.prio(self.nodelist[q[0]]) >= self.prio(m)]
                if back:
                    m.resets += 1
                    for q in back:
                        m.stash[q] = m.ins.pop(q)
                    self.stashed.append(m)
            self.push(m)

    def kill(self, m):
        st = [m]
        while st:
            x = st.pop()
            x.env = None
            x.facts = None
            x.events = []
            x.exit = None
            for (mid, tag) in x.outs:
                y = self.nodelist[mid]
                if self.prio(y) <= self.prio(x):
                    self.deferred.append((mid, (x.id, tag)))
                    continue
                y.stash.pop((x.id, tag), None)
                y.ins.pop((x.id, tag), None)
                if y.ins:
                    self.push(y)
                else:
                    st.append(y)
            x.outs = []

    def apply_deferred(self):
        self.rounds += 1
        d, self.deferred = self.deferred, []
        if self.rounds > 60:
            return      # keep the stale edges: an over-approximation
        for mid, k in d:
            s, m = self.nodelist[k[0]], self.nodelist[mid]
            if s.env is not None and (mid, k[1]) in s.outs:
                continue
            m.stash.pop(k, None)
            if m.ins.pop(k, None) is None:
                continue
            if m.ins:
                self.push(m)
            else:
                self.kill(m)

    def unstash(self):
        """back edges whose source did not change say the same as before"""
        ms, self.stashed = self.stashed, []
        for m in ms:
            for (sid, tag), s in m.stash.items():
                src = self.nodelist[sid]
                if src.env is not None and (m.id, tag) in src.outs and (sid, tag) not in m.ins:
                    m.ins[(sid, tag)] = s
                    self.push(m)
            m.stash = {}

    def sweep(self):
        """loops that are not entered any more do not keep themselves alive"""
        seen, work = {self.entry.id}, [self.entry]
        while work:
            for (mid, tag) in work.pop().outs:
                if mid not in seen:
                    seen.add(mid)
                    work.append(self.nodelist[mid])
        dead = [x for x in self.nodelist if x.env is not None and x.id not in seen]
        for x in dead:
            for (mid, tag) in x.outs:
                m = self.nodelist[mid]
                m.stash.pop((x.id, tag), None)
                if m.ins.pop((x.id, tag), None) is not None and mid in seen:
                    self.push(m)
            x.env = x.facts = x.exit = None
            x.events = []
            x.ins = {}
            x.outs = []
        return bool(dead)

    def run(self):
        root = self.root
        fr = self.frame(None, -1, root['id'])
        st = State({}, {})
        names = {}
        for nm, pl in root['names']:
            if not pl[1] and 1 <= pl[0] <= root['argc']:
                names[pl[0]] = nm
        for i in range(1, root['argc'] + 1):
            nm = names.get(i, 'arg%d' % i)
            t = root['locals'][i]
            if nm in self.params:
                st.env[(fr.id, i)] = self.params[nm]
                continue
            if self.P.tk(t) in ('ref',):
                st.env[(fr.id, i)] = mk('ref', ('p', nm), ())
            else:
                st.env[(fr.id, i)] = mk('init', nm)
        self.argnames = [names.get(i, 'arg%d' % i) for i in range(1, root['argc'] + 1)]
        pk = self.pkey(fr, 0, st)
        n = self.node(fr, 0, 0, pk)
        n.ins[('entry', '')] = st
        self.entry = n
        self.push(n)
        steps = 0
        self.deferred = []
        self.rounds = 0
        self.stashed = []
        sweeps = 0
        while True:
            if not self.heap:
                if sweeps < 60 and self.sweep():
                    sweeps += 1
                elif self.stashed:
                    self.unstash()
                elif self.deferred:
                    self.apply_deferred()
                else:
                    break
                continue
            _, nid = heapq.heappop(self.heap)
            while self.heap and self.heap[0][1] == nid:
                heapq.heappop(self.heap)
            m = self.nodelist[nid]
            if not m.ins:
                continue
            self.process(m)
            steps += 1
        self.steps = steps
        self.alive = [n for n in self.nodelist if n.env is not None]
        self.exits = [n for n in self.alive if n.exit is not None]
        # join sources of the fixpoint only (drop those of earlier iterations)
        old = self.phi_in
        self.phi_in = {}
        for n in self.alive:
            self.join(n)
            if n.visits > 150:
                for p, v in old.items():
                    if p.a[0] == n.id:
                        self.phi_in.setdefault(p, set()).update(v)
        for p, v in old.items():
            self.phi_in.setdefault(p, v)

    # ------------------------------------------------------------ block exec
    def exec_block(self, n, st):
        fr = n.frame
        bl = fr.body['blocks'][n.block]
        for s in bl['s']:
            k = s[0]
            if k == '=':
                loc, path, ty = self.place(st, fr, s[1])
                v = self.rvalue(st, fr, s[2], ty)
                if loc[0] in ('p', 'd') or (path and loc[0] != fr.id):
                    self.store_event(n, st, fr, loc, path, v, s[3] if len(s) > 3 else 0)
                self.wr(st, loc, path, v)
            elif k == 'dead':
                st.env.pop((fr.id, s[1]), None)
            elif k == 'sd':
                loc, path, ty = self.place(st, fr, s[1])
                t = self.P.types[ty]
                vs = t.get('variants') or []
                v = self.rd(st, loc, path)
                if vs:
                    vr = vs[s[2]]
                    keys = tuple(vr['name'] + '.' + f[0] for f in vr['fields'])
                    self.wr(st, loc, path, agg(self.P.adt_label(ty), vr['name'], keys, *[fld(v, q, self.P.adt_label(ty)) for q in keys]))
        self.terminator(n, st, fr, bl['t'])

    def store_event(self, n, st, fr, loc, path, v, line):
        e = Event()
        e.an = self
        e.node = n
        e.idx = len(n.events)
        e.name = 'store'
        e.cls = 'store'
        e.meth = 'store'
        e.recv = mk('ref', loc, path)
        e.args = [v]
        e.raw = [v]
        e.res = None
        e.line = line
        e.frame = fr
        e.facts = dict(st.facts)
        e.env = dict(st.env)
        e.pre = self.rd(st, loc, path)
        n.events.append(e)

    def terminator(self, n, st, fr, t):
        k = t[0]
        if k == 'goto':
            self.edge(n, fr, t[1], 0, st)
        elif k == 'drop':
            self.edge(n, fr, t[2], 0, st)
        elif k == 'assert':
            c = self.operand(st, fr, t[1])
            if not self.assume(st, c, bool(t[2])):
                return
            self.edge(n, fr, t[3], 0, st)
        elif k == 'switch':
            d = self.operand(st, fr, t[1])
            isb = self.P.types[t[5]].get('k') == 'bool'
            bits = self.P.types[t[5]].get('bits', 64)
            sgn = self.P.types[t[5]].get('k') == 'int'
            if d.op == 'int':
                for v, b in t[2]:
                    if int(v) == (d.a[0] & ((1 << bits) - 1) if sgn else d.a[0]):
                        self.edge(n, fr, b, 0, st)
                        return
                self.edge(n, fr, t[3], 0, st)
                return
            for i, (v, b) in enumerate(t[2]):
                v = int(v)
                if sgn and v >> (bits - 1):
                    v -= 1 << bits
                s2 = State(dict(st.env), dict(st.facts))
                okk = self.assume(s2, d, v != 0) if isb else self.assume_val(s2, d, v, True)
                if okk:
                    self.edge(n, fr, b, 0, s2, str(v))
            s2 = State(dict(st.env), dict(st.facts))
            okk = True
            for v, b in t[2]:
                v = int(v)
                if sgn and v >> (bits - 1):
                    v -= 1 << bits
                okk = okk and (self.assume(s2, d, v == 0) if isb else self.assume_val(s2, d, v, False))
            if okk:
                self.edge(n, fr, t[3], 0, s2, 'else')
        elif k == 'ret':
            self.do_return(n, st, fr)
        elif k == 'call':
            self.do_call(n, st, fr, t)
        # unreach / stop: no successors

    def do_return(self, n, st, fr):
        v = self.rd(st, (fr.id, 0), ())
        if fr.parent is None:
            n.exit = v
            n.outfacts = st.facts
            n.edgefacts = st.env
            return
        self.rets[n.id] = (n, fr, v, dict(st.facts))
        for l in [l for l in st.env if l[0] == fr.id]:
            del st.env[l]
        self.resume(n, st, fr.parent, fr, v)

    def resume(self, n, st, pf, fr, v):
        t = pf.body['blocks'][fr.cb]['t']
        if fr.cont is not None:
            fr.cont(n, st, pf, v)
            return
        self.finish_call(n, st, pf, t, v)

    def finish_call(self, n, st, pf, t, v, tag='ret'):
        loc, path, ty = self.place(st, pf, t[3])
        if loc[0] in ('p', 'd') or (path and loc[0] != pf.id):
            self.store_event(n, st, pf, loc, path, v, t[5])
        self.wr(st, loc, path, v)
        if t[4] >= 0:
            self.edge(n, pf, t[4], 0, st, tag)

    # ------------------------------------------------------------ calls
    def do_call(self, n, st, fr, t):
        o = t[1]
        fk = o.get('k')
        args = [self.operand(st, fr, a) for a in t[2]]
        argtys = [self.opty(fr, a) for a in t[2]]
        if fk is None or 'fn' not in fk:
            fv = self.operand(st, fr, o)
            if fv.op == 'fnitem' and fv.a[0] >= 0:
                self.enter(n, st, fr, t, fv.a[0], args)
                return
            self.external(n, st, fr, t, {'path': 'indirect', 'name': 'indirect', 'full': 'indirect', 'args': []}, args, argtys)
            return
        f = fk['fn']
        # closure invocation through Fn* traits
        if f.get('trait', '').split('::')[-1] in ('FnOnce', 'FnMut', 'Fn') and f['name'] in ('call', 'call_mut', 'call_once'):
            c, holder = self.resolve_callable(st, args[0])
            if c is not None:
                self.call_closure(n, st, fr, t, c, holder, args[0], args[1])
                return
        if f.get('name') == 'clone' and f.get('trait', '').endswith('Clone'):
            iid = f.get('inst')
            b = self.P.I.get(iid) if iid is not None else None
            if not (b and b['local'] and b['kind'] == 'item'):
                loc, path = self.deref_target(args[0])
                v = self.rd(st, loc, path)
                self.finish_call(n, st, fr, t, v)
                return
        h = self.model(f, argtys)
        if h is not None:
            r = h(self, n, st, fr, t, f, args, argtys)
            if r is not NotImplemented:
                if r is not None:
                    self.finish_call(n, st, fr, t, r)
                return
        iid = f.get('inst')
        if iid is not None and iid in self.P.I:
            b = self.P.I[iid]
            if not self.opaque(b):
                if iid in fr.chain:
                    self.external(n, st, fr, t, dict(f, rec=True), args, argtys)
                    return
                self.enter(n, st, fr, t, iid, args)
                return
        self.external(n, st, fr, t, f, args, argtys)

    def resolve_callable(self, st, v):
        """-> (closure agg | fnitem, place holding it)"""
        for _ in range(6):
            if v.op == 'agg' and v.a[0] == 'closure':
                return v, None
            if v.op == 'fnitem':
                return v, None
            if v.op == 'ref':
                x = self.rd(st, v.a[0], v.a[1])
                if x.op == 'agg' and x.a[0] == 'closure':
                    return x, v
                v = x
                continue
            break
        return None, None

    def closure_inst(self, c):
        iid = c.a[1]
        if type(iid) is tuple:
            # captureless closure constant: find by type
            t = self.P.types[iid[1]]
            for x in self.P.local:
                if x['closure'] and x['path'] == t.get('path') and x['kind'] == 'item':
                    return x['id']
            return None
        return iid

    def untuple(self, v, n):
        return [fld(v, str(i), 'tuple') for i in range(n)]

    def call_closure(self, n, st, fr, t, c, holder, selfarg, tupv, cont=None, sub_=0):
        if c.op == 'fnitem':
            iid = c.a[0]
            if iid not in self.P.I:
                r = app('call:' + c.a[1], tupv)
                (cont or (lambda n_, s_, p_, v_: self.finish_call(n_, s_, p_, t, v_)))(n, st, fr, r)
                return
            b = self.P.I[iid]
            self.enter(n, st, fr, t, iid, self.untuple(tupv, b['argc']), cont, sub_)
            return
        iid = self.closure_inst(c)
        if iid is None or iid not in self.P.I or iid in fr.chain and False:
            raise Fail('closure body missing')
        b = self.P.I[iid]
        t1 = self.P.types[b['locals'][1]] if b['argc'] >= 1 else {}
        if t1.get('k') == 'ref':
            if holder is None:
                hl = ('h', fr.id, t[5] if len(t) > 5 else 0, sub_)
                st.env[hl] = c
                holder = mk('ref', hl, ())
            a0 = holder
        else:
            a0 = c
        self.enter(n, st, fr, t, iid, [a0] + self.untuple(tupv, b['argc'] - 1), cont, sub_)

    def enter(self, n, st, fr, t, iid, args, cont=None, sub_=0):
        b = self.P.I[iid]
        if len(fr.prefix) > 90:
            raise Fail('inline depth')
        g = self.frame(fr, n.block, iid, sub_, cont, n.sub)
        g.cont = cont
        # prune caller
        if t[4] >= 0 and cont is None:
            live, taken = self.P.liveness(fr.iid)
            lv = set(live[t[4]])
            lv.add(t[3][0])
            for e in t[3][1]:
                if e[0] == 'i':
                    lv.add(e[1])
            for l in [l for l in st.env if l[0] == fr.id and l[1] not in lv and l[1] not in taken]:
                del st.env[l]
        if b['spread'] >= 0:
            pass
        for i, v in enumerate(args[:b['argc']]):
            st.env[(g.id, i + 1)] = v
        self.edge(n, g, 0, 0, st, 'call%d' % iid)

    # loading of argument values through references
    def val(self, st, v):
        for _ in range(4):
            if v.op == 'ref':
                v = self.rd(st, v.a[0], v.a[1])
            else:
                break
        return v

    def deepval(self, st, v, d=0):
        v = self.val(st, v)
        if v.op == 'agg' and d < 4 and any(type(x) is T and x.op in ('ref', 'agg') for x in v.a[3:]):
            nv = [self.deepval(st, x, d + 1) for x in v.a[3:]]
            return agg(v.a[0], v.a[1], v.a[2], *nv)
        return v

    def fname(self, f):
        s = None
        if 'selfty' in f:
            s = self.P.tname(f['selfty'])
        nm = f.get('name') or f['path'].split('::')[-1]
        if f.get('trait'):
            tr = f['trait'].split('::')[-1]
            if s and (s.startswith('dyn ')) or tr == 'Extend' and s in ('HMap', 'BMap'):
                return s, nm
            if tr in ('Iterator', 'DoubleEndedIterator', 'IntoIterator', 'FromIterator', 'Index', 'IndexMut', 'Deref', 'DerefMut',
                      'PartialEq', 'Ord', 'PartialOrd', 'AsRef', 'AsMut', 'Borrow', 'ToString', 'ToOwned', 'Into', 'From', 'Default',
                      'Extend', 'Hash', 'ExactSizeIterator'):
                return tr, nm
            return s or tr, nm
        return s or f['path'].rsplit('::', 1)[0].split('::')[-1], nm

    def event(self, n, st, fr, f, cls, meth, recv, args, raw, res, line):
        e = Event()
        e.an = self
        e.node = n
        e.idx = len(n.events)
        e.name = cls + '::' + meth
        e.cls = cls
        e.meth = meth
        e.recv = recv
        e.args = args
        e.raw = raw
        e.res = res
        e.line = line
        e.frame = fr
        e.facts = dict(st.facts)
        e.env = dict(st.env)
        e.pre = None
        n.events.append(e)
        return e

    def external(self, n, st, fr, t, f, args, argtys):
        """call whose body is not analysed: a deterministic function of the values it can read"""
        cls, nm = self.fname(f)
        name = cls + '::' + nm
        if f.get('rec'):
            name = 'rec:' + f['path'].split('::')[-1]
            cls, nm = 'rec', f['path'].split('::')[-1]
        self.externals[name] = self.externals.get(name, 0) + 1
        vals = [self.deepval(st, a) for a in args]
        res = app(name, *vals)
        if t[4] < 0:
            self.event(n, st, fr, f, cls, nm, args[0] if args else None, vals, args, None, t[5])
            return
        closures = []
        for a in args:
            c, h = self.resolve_callable(st, a)
            if c is not None and (c.op == 'agg' or c.a[0] in self.P.I):
                closures.append(a)
        ev = self.event(n, st, fr, f, cls, nm, args[0] if args else None, vals, args, res, t[5])
        for i, (a, ty) in enumerate(zip(args, argtys)):
            if ty is not None and self.P.is_mutref(ty) and a.op == 'ref':
                c, h = self.resolve_callable(st, a)
                if c is not None:
                    continue
                old = self.rd(st, a.a[0], a.a[1])
                if f.get('rec') and i == 0 and self.rec_keep:
                    # induction hypothesis of a recursive call (proved at the exits of the root by the rule that sets it)
                    self.havoc(st, a.a[0], a.a[1], (), self.P.types[ty].get('to'), name, vals[1:])
                    continue
                self.wr(st, a.a[0], a.a[1], mk('upd', name if i == 0 else name + '#%d' % i, *([old] + [v for j, v in enumerate(vals) if j != i])))
        if closures or f.get('nexts'):
            # 0..n invocations: go through a loop head
            self.cbinfo[(fr.id, n.block)] = (t, f, cls, nm)
            st.env[('cb', fr.id, n.block, 'res')] = res
            for i, a in enumerate(args):
                st.env[('cb', fr.id, n.block, i)] = a
            if f.get('nexts'):
                st.env[('cb', fr.id, n.block, 'iter')] = args[0]
                st.env[('cb', fr.id, n.block, 'res')] = app('vecnew')
            self.edge(n, fr, n.block, 1, st, 'cbhead')
            return
        self.finish_call(n, st, fr, t, res)

    def havoc(self, st, loc, path, rel, ty, name, vals):
        if rel in self.rec_keep:
            return
        if any(k[:len(rel)] == rel for k in self.rec_keep):
            t = self.P.types[ty]
            for n, fty in t['variants'][0]['fields']:
                e = ('f', n, self.P.adt_label(ty))
                self.havoc(st, loc, path + (e,), rel + (e,), fty, name, vals)
            return
        old = self.rd(st, loc, path)
        self.wr(st, loc, path, mk('upd', name, old, *vals))

    cbinfo = {}
    rec_keep = ()
    _force = False

    def exec_sub(self, n, st):
        """loop head of a call that invokes callbacks / drives a local iterator"""
        fr = n.frame
        t, f, cls, nm = self.cbinfo[(fr.id, n.block)]
        if n.sub == 2:
            # a collected element joins the result
            x = st.env.pop(('cb', fr.id, n.block, 'elem'))
            l = ('cb', fr.id, n.block, 'res')
            self.event(n, st, fr, f, 'Vec', 'push', mk('ref', l, ()), [st.env[l], x], [mk('ref', l, ()), x], None, t[5])
            st.env[l] = mk('upd', 'push', st.env[l], x)
            self.edge(n, fr, n.block, 1, st, 'cbback')
            return
        args = []
        i = 0
        while ('cb', fr.id, n.block, i) in st.env:
            args.append(st.env[('cb', fr.id, n.block, i)])
            i += 1
        res = st.env[('cb', fr.id, n.block, 'res')]
        block = n.block
        an = self

        def back(n_, s_, p_, v_):
            s_.env[('cb', fr.id, block, 'last')] = v_
            an.edge(n_, p_, block, 1, s_, 'cbback')
        # exit edge
        s2 = State(dict(st.env), dict(st.facts))
        if f.get('nexts'):
            # collect-like: the iterator is the first argument; the loop exit is next() == None
            pass
        else:
            for k in [k for k in s2.env if k[0] == 'cb' and k[1] == fr.id and k[2] == block]:
                del s2.env[k]
            r = res
            if ('cb', fr.id, block, 'last') in st.env:
                r = app('after', res, st.env[('cb', fr.id, block, 'last')])
            self.finish_call(n, s2, fr, t, r, 'cbexit')
        if f.get('nexts'):
            iid = f['nexts'][0][1]
            # move iterator into a heap cell
            hl = ('cb', fr.id, block, 'iter')
            it = mk('ref', hl, ())

            def got(n_, s_, p_, v_):
                # v_ : Option<Item>
                d = an.disc_opt(s_, v_)
                s3 = State(dict(s_.env), dict(s_.facts))
                if an.assume_val(s3, d, 0, True):
                    r_ = s3.env[('cb', fr.id, block, 'res')]
                    for k in [k for k in s3.env if k[0] == 'cb' and k[1] == fr.id and k[2] == block]:
                        del s3.env[k]
                    an.finish_call(n_, s3, p_, t, r_, 'cbexit')
                s4 = State(dict(s_.env), dict(s_.facts))
                if an.assume_val(s4, d, 1, True):
                    x = an.rd_elem(s4, v_, ('f', 'Some.0', 'Option'))
                    s4.env[('cb', fr.id, block, 'elem')] = x
                    an.edge(n_, p_, block, 2, s4, 'cbpush')
            self.enter(n, st, fr, t, iid, [it], got, 'next')
            return
        for i, a in enumerate(args):
            c, h = self.resolve_callable(st, a)
            if c is None:
                continue
            s3 = State(dict(st.env), dict(st.facts))
            if c.op == 'agg':
                iid = self.closure_inst(c)
                b = self.P.I[iid]
                na = b['argc'] - 1
                atys = b['locals'][2:2 + na]
            else:
                b = self.P.I[c.a[0]]
                na = b['argc']
                atys = b['locals'][1:1 + na]
            cargs = []
            for j in range(na):
                src = self.cbarg_source(s3, args, i, cls, nm, j, n)
                cargs.append(src)
            if h is None and a.op != 'ref' and c.op == 'agg':
                # closure passed by value: keep its captured state in a cell
                hl = ('cb', fr.id, block, i)
                h = mk('ref', hl, ())
            self.call_closure(n, s3, fr, t, c, h, a, tup(*cargs), back, 'cb%d' % i)

    def cbarg_source(self, st, args, i, cls, nm, j, n):
        base = args[0] if i != 0 else None
        p = mk('cbarg', n.id, i, j)
        if base is not None:
            v = self.val(st, base)
            if v.op == 'app' and v.a[0] == 'itermut' and nm in ('for_each', 'map', 'all', 'any'):
                r = v.a[1]
                if r.op == 'ref':
                    return mk('ref', r.a[0], r.a[1] + (('any',),))
            return app('cbel', v, INT(j))
        return p

    def disc_opt(self, st, v):
        if v.op == 'agg':
            return INT(1 if v.a[1] == 'Some' else 0)
        d = mk('disc', v)
        self.domain[d] = frozenset([0, 1])
        return d

    def model(self, f, argtys):
        import models
        return models.lookup(self, f, argtys)

    # ------------------------------------------------------------ queries
    def where(self, e):
        ch = []
        fr = e.frame
        while fr is not None:
            ch.append(fr.body['path'].replace('stable_fs::', ''))
            fr = fr.parent
        return '%s:%s in %s' % (e.frame.body['file'], e.line, ' <- '.join(ch))

    def events(self, *names):
        for n in self.alive:
            for e in n.events:
                if not names or e.name in names or e.meth in names:
                    yield e

    def phi_on_edge(self, ph, s):
        """value the phi term takes when control comes in with state s"""
        l = ph.a[1]
        path = []
        while type(l) is tuple and len(l) == 3 and l[0] == 'sub':
            path.append(l[2])
            l = l[1]
        v = s.env.get(l)
        if v is None:
            return None
        for k in reversed(path):
            v = fld(v, k[0], k[1] or self.fldlab.get((v, k[0]), ''))
        return v

    def sources(self, t, seen=None):
        """all non-phi terms that may flow into t through phi joins"""
        out = set()
        st = [t]
        seen = set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'phi':
                st.extend(self.phi_in.get(x, ()))
                if x not in self.phi_in:
                    out.add(x)
            elif x.op == 'fld':
                b, path = x, []
                while b.op == 'fld':
                    path.append((b.a[1], b.a[2]))
                    b = b.a[0]
                if b.op == 'phi' and b in self.phi_in:
                    for y in self.phi_in[b]:
                        for k, lb in reversed(path):
                            y = fld(y, k, lb)
                        if y.op != 'bot':
                            st.append(y)
                else:
                    out.add(x)
            else:
                out.add(x)
        return out


def key_rel(a, b, A=None, st=None):
    """are two map keys equal?  True / False / None (unknown)"""
    if a is b:
        return True
    if a.op == 'int' and b.op == 'int':
        return False
    if a.op == 'agg' and b.op == 'agg' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return False
        rs = [key_rel(x, y, A, st) for x, y in zip(a.a[3:], b.a[3:])]
        if False in rs:
            return False
        return True if all(r is True for r in rs) else None
    if A is not None and a.op in ('int', 'lin', 'init', 'fld', 'app', 'phi') and b.op in ('int', 'lin', 'init', 'fld', 'app', 'phi'):
        return A.truth(st, eq(a, b))
    return None


def key_distinct(a, b):
    return key_rel(a, b) is False


def mget(m, k, A=None, st=None):
    """Option term for map lookup, with select-over-store rewriting"""
    while True:
        if m.op == 'upd':
            f = m.a[0]
            if f in ('insert', 'remove'):
                r = key_rel(m.a[2], k, A, st)
                if r is None and A is not None:
                    # one key is present in the map below, the other absent: they differ
                    f1 = st.facts.get(mk('disc', app('get', m.a[1], m.a[2])))
                    f2 = st.facts.get(mk('disc', mget(m.a[1], k, A, st))) if f1 is not None and type(f1) is frozenset else None
                    if f2 is not None and type(f2) is frozenset and not (f1 & f2):
                        r = False
                if r is True:
                    return some(m.a[3]) if f == 'insert' else none()
                if r is False:
                    m = m.a[1]
                    continue
            elif f == 'clear':
                return none()
        if m.op == 'app' and m.a[0] == 'mapnew':
            return none()
        return app('get', m, k)

"""Shared machinery of the rules: analysed roots, graph queries over the exploded
flow graph, obligations, violations, evidence."""
import time

import engine
from engine import Analysis, Program, Fail, mget
from terms import *


class Anchor(Exception):
    """an anchor of a rule (a public operation, a type) is not there any more"""


class Ctx:
    def __init__(self, factsfile, pid):
        self.P = Program(factsfile)
        self.pid = pid
        self._an = {}
        self.obl = {}
        self.viols = []
        self.vkeys = set()
        self.roots = {}
        self.cur = ''
        self.counts = {}
        self.samples = []
        self.rules = {}
        self.failed = []
        self.rec_keep = ()

    # ------------------------------------------------------------------ roots
    def root(self, self_, name, trait=''):
        r = self.P.find(impl_self=self_, name=name, impl_trait=trait)
        if not r:
            raise Anchor('%s%s::%s not found in the analysed crate' % (('<%s as %s>' % (self_, trait)) if trait else self_, '', name))
        return r[0]

    def has(self, self_, name, trait=''):
        return bool(self.P.find(impl_self=self_, name=name, impl_trait=trait))

    def an(self, self_, name, trait='', split=None, **kw):
        k = (self_, name, trait, split.__name__ if split else None, tuple(sorted(kw)))
        A = self._an.get(k)
        if A is None:
            A = Analysis(self.P, self.root(self_, name, trait), split=split, rec_keep=self.rec_keep, **kw)
            A.title = '%s::%s' % (self_, name)
            A.g = Graph(A)
            self._an[k] = A
            self.roots[A.title] = A
        return A

    def fs(self, name, split=None):
        return self.an('FileSystem', name, '', split)

    def st(self, backend, name, split=None):
        return self.an(backend, name, 'Storage', split)

    def fs_methods(self):
        return [x['raw'].rsplit('::', 1)[-1] for x in self.P.find(impl_self='FileSystem', impl_trait='') if x['pub']]

    # ------------------------------------------------------------------ bookkeeping
    def rule(self, rid, text):
        self.cur = rid
        self.rules[rid] = text
        self.obl.setdefault(rid, 0)

    def ob(self, n=1, sample=None):
        self.obl[self.cur] += n
        if sample and len([s for s in self.samples if s.startswith(self.cur + ':')]) < 3:
            self.samples.append(self.cur + ': ' + sample)

    def viol(self, key, msg, A=None, e=None, extra=None):
        k = '%s|%s' % (self.cur, key)
        if k in self.vkeys:
            return
        self.vkeys.add(k)
        self.viols.append({'key': k, 'rule': self.cur, 'ruletext': self.rules[self.cur], 'msg': msg,
                           'root': A.title if A else None, 'where': A.where(e) if (A and e is not None) else None,
                           'event': repr(e)[:1200] if e is not None else None, 'extra': extra})

    def need(self, n, what):
        """instance floor: the rule matched at least n sites in the confirmed tree"""
        n = (n + 1) // 2        # a behaviour-preserving edit may merge sites
        if self.obl[self.cur] < n:
            self.viol('floor', 'rule %s matched only %d instances, at least %d expected (%s): the code it anchors to is gone' % (self.cur, self.obl[self.cur], n, what))

    def check(self, cond, key, msg, A=None, e=None, extra=None):
        self.ob(1, '%s %s' % (key, A.where(e) if (A and e is not None) else ''))
        if not cond:
            self.viol(key, msg, A, e, extra)
        return cond


# ------------------------------------------------------------------ graph
class Graph:
    def __init__(self, A):
        self.A = A
        self.succ = {}
        self.pred = {}
        alive = {n.id for n in A.alive}
        for n in A.alive:
            self.succ[n.id] = [m for (m, tag) in n.outs if m in alive]
        for n, ss in self.succ.items():
            self.pred.setdefault(n, [])
            for s in ss:
                self.pred.setdefault(s, []).append(n)
        self.N = A.nodelist

    def forward(self, start_node, start_idx, avoid=lambda e: False, edge_ok=None):
        """events and exits reachable from just after position start_idx in start_node,
        on paths that do not execute an event for which avoid(e)"""
        evs, exits, seen = [], [], set()
        evset = set()
        work = [(start_node, start_idx)]
        first = True
        while work:
            nid, i0 = work.pop()
            n = self.N[nid]
            if i0 == 0:
                if nid in seen:
                    continue
                seen.add(nid)
            stop = False
            for e in n.events[i0:]:
                if avoid(e):
                    stop = True
                    break
                if id(e) not in evset:
                    evset.add(id(e))
                    evs.append(e)
            if stop:
                continue
            if n.exit is not None:
                exits.append(n)
            for s in self.succ[nid]:
                if edge_ok and not edge_ok(nid, s):
                    continue
                work.append((s, 0))
        return evs, exits, seen

    def after(self, e, avoid=lambda e: False, edge_ok=None):
        return self.forward(e.node.id, e.idx + 1, avoid, edge_ok)

    def from_entry(self, avoid=lambda e: False, edge_ok=None):
        return self.forward(self.A.entry.id, 0, avoid, edge_ok)

    def must_before(self, e, pred, edge_ok=None):
        """every path from the entry to e executes an event satisfying pred first"""
        for x in e.node.events[:e.idx]:
            if pred(x):
                return True
        evs, _, seen = self.from_entry(pred, edge_ok)
        return not any(x is e for x in evs)

    def must_after(self, e, pred, exit_ok=lambda n: True, edge_ok=None):
        """every path from e to an exit satisfying exit_ok executes an event satisfying pred.
        returns the offending exits"""
        _, exits, _ = self.after(e, pred, edge_ok)
        return [n for n in exits if exit_ok(n)]

    def fact_edges(self, term, val):
        """edges (p, s) on which `term`'s value set first becomes {val}"""
        r = []
        for n in self.A.alive:
            for k, st in n.ins.items():
                if k[0] == 'entry':
                    continue
                f = st.facts.get(term)
                if f is not None and type(f) is frozenset and f == {val}:
                    p = self.N[k[0]]
                    pf = p.facts.get(term) if p.facts else None
                    if pf is None or pf != f:
                        r.append((p.id, n.id))
        return r

    def established(self, e, pred, terms=()):
        """on every path from the entry to event e some point satisfies pred(facts) (facts are about immutable
        value terms, so what held once still holds, except across the re-definition of a loop value of `terms`)"""
        if pred(e.facts):
            return True
        return not self._unestablished(pred, terms, e.node.id)

    def established_at_exit(self, n, pred, terms=()):
        return pred(n.outfacts) or not self._unestablished(pred, terms, n.id)

    def established_at(self, nid, pred, terms=()):
        return not self._unestablished(pred, terms, nid)

    def unestablished_nodes(self, pred, terms=()):
        """nodes that can be reached without pred holding on an edge"""
        return self._unestablished(pred, terms, None)

    def _unestablished(self, pred, terms, target):
        """target is reachable without pred holding on an edge"""
        heads = set()
        for t in terms:
            heads |= set(t.phis)
        work = [self.A.entry.id] + [h for h in heads if h in self.succ]
        seen = set()
        cache = {}
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == target:
                return True
            for y in self.succ[x]:
                if y in seen:
                    continue
                ok = True
                for k, s in self.N[y].ins.items():
                    if k[0] == x:
                        if not pred(s.facts):
                            ok = False
                if not ok:
                    work.append(y)
        return False if target is not None else seen

    def reach_nodes(self, nids, avoid=lambda e: False, edge_ok=None):
        evs, exits, seen = [], [], set()
        for n in nids:
            a, b, c = self.forward(n, 0, avoid, edge_ok)
            evs += a
            exits += b
            seen |= c
        return evs, exits, seen


def variant(A, n):
    """result variants the exit n can have: subset of {'Ok','Err'}"""
    return variants_of(A, n.exit, n.outfacts)


def variants_of(A, v, facts):
    if v.op == 'agg' and v.a[1]:
        return {v.a[1]}
    if v.op == 'phi':
        r = set()
        for s in A.sources(v):
            if s.op == 'agg' and s.a[1]:
                r.add(s.a[1])
            else:
                return {'Ok', 'Err'}
        return r
    f = facts.get(mk('disc', v))
    if f == frozenset([0]):
        return {'Ok'}
    if f == frozenset([1]):
        return {'Err'}
    return {'Ok', 'Err'}


def may_ok(A):
    return lambda n: 'Ok' in variant(A, n)


def only_err(A, n):
    return variant(A, n) == {'Err'}


def has_fact(facts, term, val):
    f = facts.get(term)
    return type(f) is frozenset and f == frozenset([val])


def not_fact(facts, term, val):
    """term is known to differ from val"""
    f = facts.get(term)
    if f is None:
        return False
    if type(f) is tuple:
        return val in f[1]
    return val not in f


def holds(A, facts, boolterm):
    """truth of a boolean term under facts: True / False / None"""
    st = engine.State({}, facts)
    return A.truth(st, boolterm)


def app_name(t):
    return t.a[0] if t.op == 'app' else None


def is_app(t, *names):
    return t.op == 'app' and t.a[0] in names


STORAGE = 'dyn Storage'
ST_MUT = {'new_node', 'mount_node', 'unmount_node', 'init_mounted_memory', 'store_mounted_memory', 'put_metadata',
          'put_direntry', 'rm_direntry', 'write', 'resize_file', 'rm_file', 'set_chunk_size', 'set_chunk_type'}
ST_RESULT = {'mount_node', 'unmount_node', 'init_mounted_memory', 'store_mounted_memory', 'get_metadata', 'put_metadata',
             'get_direntry', 'read', 'write', 'resize_file', 'rm_file', 'set_chunk_size'}


def storage_events(A, *meths):
    for e in A.events():
        if e.cls == STORAGE and (not meths or e.meth in meths):
            yield e


def fsloc(*path):
    """field path of the root's self"""
    t = mk('init', 'self')
    return t


def fieldpath(recv):
    """('p','self') + field names of a reference term, or None"""
    if recv is None or recv.op != 'ref':
        return None
    loc, path = recv.a
    r = []
    for p in path:
        if p[0] == 'f':
            r.append(p[1])
        else:
            r.append(p[0])
    return (loc, tuple(r))


def on_field(e, *names):
    """event whose receiver is a place ending in the given field name(s)"""
    fp = fieldpath(e.recv)
    if not fp:
        return False
    fs = [x for x in fp[1] if x not in ('k', 'i', 'sl', 'any', 'o')]
    return bool(fs) and fs[-1] in names


def strip_upd(t):
    """initial value below a chain of updates"""
    while t.op == 'upd' or t.op == 'with':
        t = t.a[1] if t.op == 'upd' else t.a[0]
    return t


def chain(t):
    """updates applied to t, newest first, and the base"""
    r = []
    while t.op == 'upd':
        r.append(t)
        t = t.a[1]
    return r, t


def leaves(A, t, facts, step=None, seen=None, out=None, depth=0):
    """(value, facts) pairs the term can stand for, through joins; loop-carried values are followed to their
    entry value, the change made by one iteration must be accepted by step(new, old) (default: no change)"""
    from rules_fd import edge_subst
    if out is None:
        out = []
    if seen is None:
        seen = {}
    if depth > 40 or len(out) > 400:
        out.append((None, facts))
        return out
    ph = [x for x in subterms(t) if x.op == 'phi' and x in A.phi_in]
    if t.op in ('agg',) or not ph:
        if not ph:
            out.append((t, facts))
            return out
    # only phis that make up the value itself (not those inside opaque applications)
    top = toplevel_phis(A, t)
    if not top:
        out.append((t, facts))
        return out
    J = A.nodelist[max((x.a[0] for x in top), key=lambda i: A.prio(A.nodelist[i]))]
    if J.id in seen:
        old = seen[J.id]
        if not (t is old or (step and step(t, old))):
            out.append((None, facts))
        return out
    s2 = dict(seen)
    s2[J.id] = t
    for s in J.ins.values():
        (t2,), f2 = edge_subst(A, J, s, [t], facts)
        if t2 is t or f2 is None:
            continue
        # a back edge: the value still mentions J's own loop values
        if any(x.a[0] == J.id for x in toplevel_phis(A, t2)) or (step and any(x.a[0] == J.id for x in subterms(t2) if x.op == 'phi')):
            if t2 is t or (step and step(t2, t)):
                continue
        leaves(A, t2, f2, step, s2, out, depth + 1)
    return out


def leaf_paths(A, t, facts, chain=(), depth=0, out=None):
    """(value, facts, chain) through joins that are not loops; chain = the join edges (source node, state) taken"""
    from rules_fd import edge_subst
    out = [] if out is None else out
    top = toplevel_phis(A, t) if t.op != 'agg' else None
    if not top:
        out.append((t, facts, chain))
        return out
    if depth > 12 or len(out) > 400:
        out.append((None, facts, chain))
        return out
    J = A.nodelist[max((x.a[0] for x in top), key=lambda i: A.prio(A.nodelist[i]))]
    for k, s in J.ins.items():
        (t2,), f2 = edge_subst(A, J, s, [t], facts)
        if t2 is t or f2 is None:
            continue
        if any(x.a[0] == J.id for x in toplevel_phis(A, t2)):
            out.append((None, facts, chain))
            continue
        leaf_paths(A, t2, f2, chain + ((k[0], s),), depth + 1, out)
    return out


def on_chain(A, facts, chain, pred):
    """pred was established on the way to the value of a leaf"""
    if pred(facts):
        return True
    return any(pred(s.facts) or A.g.established_at(src, pred) for src, s in chain)


def toplevel_phis(A, t):
    r = set()
    st = [t]
    while st:
        x = st.pop()
        if x.op == 'phi':
            if x in A.phi_in:
                r.add(x)
        elif x.op == 'lin':
            st.extend(lin_parts(x)[1])
        elif x.op == 'fld' or x.op == 'with':
            st.append(x.a[0])
            if x.op == 'with':
                st.extend(v for k, v in x.a[1])
        elif x.op == 'agg':
            st.extend(x.a[3:])
        elif x.op == 'app' and x.a[0] in ('min', 'max', 'trunc', 'unsigned_abs') or (x.op == 'app' and str(x.a[0]).startswith('cast_')):
            st.extend(y for y in x.a[1:] if isinstance(y, T))
    return r

"""Storage back ends: what is kept where, and in what order it changes."""
from core import *
from roles import *
from rules_fs import *
from rules_io import *
from terms import *
import engine

BACK = ('StableStorage', 'TransientStorage')


class St:
    """roles of the fields of a storage back end, by type"""
    def __init__(self, c, R, ty):
        self.c, self.R, self.ty, self.P = c, R, ty, c.P
        self.leaf = list(self.leaves(ty))
        self.dir = self.one(lambda k, s: self.map(k) and s.split(', ', 2)[-1].startswith('storage::types::DirEntry') and 'u32)' in s)
        self.look = self.opt(lambda k, s: self.map(k) and 'FileName)' in s)
        self.v1 = self.one(lambda k, s: self.map(k) and 'FileChunk' in s and 'FileName' not in s)
        self.mounts = self.one(lambda k, s: self.map(k) and 'dyn' in s and 'Memory>' in s)
        self.ptr = self.opt(lambda k, s: k == 'SMap' and '<(u64, u32), u64,' in s)
        self.pcache = self.opt(lambda k, s: self.map(k) and 'CachedChunkPtr' in s)
        self.meta = [p for p, t in self.leaf if self.map(self.P.tname(t)) and '<u64, storage::types::Metadata' in self.P.types[t]['s']]
        self.mcache = [p for p, t in self.leaf if self.P.tname(t) in ('Rc', 'RefCell', 'HMap', 'Arc') and 'HashMap<u64, (storage::types::Metadata' in self.P.types[t]['s']]
        self.header = self.opt(lambda k, s: 'StableCell' in s and 'Header' in s)
        vm = [p for p, t in self.leaf if self.P.tname(t) == 'VMem']
        self.mem = self.alloc = None
        for p in vm:
            if self.ptr and p[:-1] == self.ptr[:-1]:
                self.mem = p
            else:
                self.alloc = p
        if ty == 'StableStorage' and not (self.ptr and self.mem and self.alloc and self.pcache and self.header and len(self.mcache) == 2):
            raise Anchor('%s: fields not recognised' % ty)
        if len(self.meta) != 2:
            raise Anchor('%s: expected two metadata maps' % ty)
        sz = [p for p, t in self.leaf if self.alloc and p[:-1] == self.alloc[:-1] and self.P.tname(t) in ('usize', 'u64', 'u32')]
        self.csize = sz[0] if len(sz) == 1 else None
        me = mk('init', 'self')
        self.MOUNTS = self.term(self.mounts)

    def term(self, path):
        t = mk('init', 'self')
        for _, f, s in path:
            t = fld(t, f, s)
        return t

    def map(self, k):
        return k in ('SMap', 'BMap', 'HMap')

    def leaves(self, name, path=(), depth=0):
        if name not in self.R.structs:
            raise Anchor('type %s not found' % name)
        for n, ft in self.R.structs[name][1]['variants'][0]['fields']:
            p = path + (('f', n, name),)
            yield p, ft
            k = self.P.tname(ft)
            if k in self.R.structs and depth < 4:
                yield from self.leaves(k, p, depth + 1)

    def opt(self, pred):
        r = [p for p, t in self.leaf if pred(self.P.tname(t), self.P.types[t].get('s', ''))]
        return r[0] if len(r) == 1 else None

    def one(self, pred):
        r = self.opt(pred)
        if r is None:
            raise Anchor('%s: field not recognised' % self.ty)
        return r

    def an(self, m, split=True):
        A = self.c.st(self.ty, m, self.split_mount if split else None)
        return A

    def within(self, e, *meths):
        """the event happens inside a nested call of one of these storage methods: decided when that method is analysed by itself,
        for every state it can be called in"""
        if not hasattr(self, '_bodies'):
            self._bodies = {}
        for m in meths:
            if m not in self._bodies:
                self._bodies[m] = self.c.root(self.ty, m, 'Storage')['path']
        names = {self._bodies[m] for m in meths}
        fr = e.frame
        while fr is not None and fr.parent is not None:
            if fr.body['path'] in names:
                return True
            fr = fr.parent
        return False

    def split_mount(self, t):
        if t.op != 'disc':
            return False
        x = t.a[0]
        return is_app(x, 'get') and self.is_mounts(x.a[1])

    def is_mounts(self, t):
        return strip(t) is self.MOUNTS

    def at(self, e, A, path):
        """the event's receiver is the field at path"""
        if path is None:
            return False
        return on_place(e, A, path) or (e.recv is not None and e.recv.op != 'ref' and any(
            x.op == 'ref' and x.a[0] == ('p', 'self') and tuple(x.a[1][:len(path)]) == path for x in A.sources(e.recv)))

    def mounted(self, A, e, node=None):
        """True / False / None: whether the node is mounted when e happens, as far as the path tells"""
        r = set()
        for t, v in e.facts.items():
            if self.split_mount(t) and (node is None or t.a[0].a[2] is node):
                if v in (frozenset([0]), frozenset([1])):
                    r.add(v == frozenset([1]))
        return r.pop() if len(r) == 1 else None

    def status(self, A, e, node):
        """is `node` in the mounts map at the moment of e"""
        st = engine.State(dict(e.env), dict(e.facts))
        m = A.rd(st, ('p', A.argnames[0]), self.mounts)
        return self.status_in(A, m, node, e.facts)

    def status_in(self, A, m, node, facts, depth=0):
        st = engine.State({}, dict(facts))
        g = engine.mget(m, node, A, st)
        if g.op == 'agg':
            return g.a[1] == 'Some'
        v = facts.get(mk('disc', g))
        if v in (frozenset([0]), frozenset([1])):
            return v == frozenset([1])
        if is_app(g, 'get') and g.a[1].op == 'phi' and g.a[1] in A.phi_in and depth < 6:
            r = {self.status_in(A, x, node, facts, depth + 1) for x in A.phi_in[g.a[1]]}
            return r.pop() if len(r) == 1 else None
        return None

    def mounted_fact(self, A, f, n):
        return self.status_in(A, self.MOUNTS, n, f) is True

    # ---- what an event touches
    def methods(self):
        r = []
        for x in self.P.find(impl_self=self.ty, impl_trait='Storage'):
            r.append(x['raw'].rsplit('::', 1)[-1])
        if len(r) < 20:
            raise Anchor('%s: implementation of Storage not found' % self.ty)
        return sorted(set(r))

    def metakey(self, k):
        return k.op == 'int' and k.a[0] >= MAXC

    def key_of(self, e):
        """(node, index) or (node, None) of the key / range of a map event"""
        if not e.args[1:]:
            return None
        k = e.args[1]
        if e.meth in ('range', 'keys_range', 'values_range'):
            s = fld(k, 'start', 'Range')
            return (fld(s, '0', 'tuple'), fld(s, '1', 'tuple'))
        n = fld(k, '0', 'tuple')
        if n.op == 'fld':
            ns = elem_values(e.an, n)
            if ns is not None and len(ns) == 1:
                n, = ns
        return (n, fld(k, '1', 'tuple'))

    def range_of(self, e):
        k = e.args[1]
        s = fld(k, 'start', k.a[0] if k.op == 'agg' else 'Range')
        n = fld(k, 'end', k.a[0] if k.op == 'agg' else 'Range')
        return s, n

    def bases(self, A, t, seen=None):
        """leaf terms an address is computed from"""
        out, work = set(), [t]
        seen = seen if seen is not None else set()
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'lin':
                k, ps = lin_parts(x)
                work.extend(ps)
            elif x.op in ('phi', 'fld'):
                ss = phi_step(A, x)
                if ss is None:
                    out.add(x)
                else:
                    work.extend(ss)
            elif x.op == 'app' and x.a[0] in ('trunc', 'min', 'max'):
                work.extend(y for y in x.a[1:] if isinstance(y, T))
            else:
                out.add(x)
        return out

    def ptr_kinds(self, A, t):
        """kinds of pointers in an address into the chunk memory: 'meta', 'data', 'new'"""
        r, seen = set(), set()
        for b in self.bases(A, t, seen):
            r |= self.ptr_kind(A, b)
        if 'new' in r:
            for e in self.map_ev(A, self.ptr, 'insert'):
                if e.args[2] in seen:
                    r.discard('new')
                    r.add('meta' if self.metakey(self.key_of(e)[1]) else 'data')
        return r

    def ptr_kind(self, A, b):
        if is_app(b, 'at') and started(A, b.a[1], self.term(self.ptr)):
            return {'meta' if self.metakey(fld(b.a[2], '1', 'tuple')) else 'data'}
        if is_app(b, 'mread') and started(A, b.a[1], self.term(self.alloc)):
            return {'new'}
        for x in subterms(b):
            if x.op == 'app' and x.a[0] in ('get', 'at', 'next') and isinstance(x.a[1], T):
                if started(A, x.a[1], self.term(self.pcache)):
                    return {'data'}
                if any(started(A, x.a[1], self.term(p)) for p in self.mcache):
                    # the address kept with the metadata, not a field of the metadata itself
                    if not any(y.op == 'fld' and y.a[0] is x and y.a[1] == '0' for y in subterms(b)):
                        return {'meta'}
        if b.op == 'fld' and 'ChunkExists' in str(b.a[1]):
            return {'data'}
        return set()

    def map_ev(self, A, path, *meths):
        if path is None:
            return
        for e in A.events():
            if e.recv is not None and e.cls in ('SMap', 'BMap', 'HMap', 'LazyEntry', 'Entry') and self.at(e, A, path) and (not meths or e.meth in meths):
                yield e

    def mem_ev(self, A, path, *meths):
        if path is None:
            return
        for e in A.events():
            if e.cls in ('Memory', 'VMem') and e.recv is not None and (not meths or e.meth in meths) and self.at(e, A, path):
                yield e


MAXC = 4294967285


def phi_step(A, x):
    """the values joined in x (one step), or None"""
    b, path = x, []
    while b.op == 'fld':
        path.append((b.a[1], b.a[2]))
        b = b.a[0]
    if b.op != 'phi' or b not in A.phi_in:
        return None
    r = []
    for y in A.phi_in[b]:
        for k, lb in reversed(path):
            y = fld(y, k, lb)
        if y.op != 'bot':
            r.append(y)
    return r


def states(A, m):
    """what a map or memory state started from, below its changes"""
    out, seen, work = set(), set(), [m]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'upd':
            work.append(x.a[1])
        elif x.op == 'phi' and x in A.phi_in:
            work.extend(A.phi_in[x])
        else:
            out.add(x)
    return out


def started(A, m, root):
    """the state m is the field `root` after changes"""
    return root in states(A, m)


SMAP = ('SMap', 'BMap', 'HMap')


def c17(c):
    R = Roles(c)
    for b in BACK:
        S = St(c, R, b)
        ms = S.methods()
        c.rule('C17.data', 'chunks of file data are looked up, changed and removed only while no memory is mounted on the file')
        for m in ms:
            A = S.an(m)
            for path in (S.v1, S.ptr):
                for e in S.map_ev(A, path):
                    k = S.key_of(e)
                    if k is None or S.metakey(k[1]):
                        continue
                    st = S.status(A, e, k[0])
                    c.check(st is False, '%s.%s.data' % (b, m), '%s of %s works on the chunks of the file without knowing that it is not mounted' % (m, b), A, e)
            for e in S.mem_ev(A, S.mem, 'read', 'write'):
                if 'data' not in S.ptr_kinds(A, e.args[1]):
                    continue
                nodes = nodes_of(A, S, e)
                c.check(bool(nodes) and all(S.status(A, e, n) is False for n in nodes), '%s.%s.mem' % (b, m), '%s of %s accesses file data in the chunk memory without knowing that the file is not mounted' % (m, b), A, e)
        c.rule('C17.mounted', 'the mounted memory that is read or written is the one mounted on the file of the call')
        for m in ms:
            A = S.an(m)
            for e in A.events():
                if e.cls not in ('Memory', 'VMem') or e.recv is None or e.meth not in ('read', 'write', 'grow'):
                    continue
                r = mounted_memory(A, S, e)
                if r is None:
                    continue
                c.check(r in nodes_of(A, S, e), '%s.%s.which' % (b, m), '%s of %s works on the memory mounted on another file: `%s`' % (m, b, show(e.recv)[:80]), A, e)
        c.rule('C17.kind', 'the mounted and the original metadata of a file are kept apart: the one is used exactly while the file is mounted, the other exactly while it is not')
        sides_apart(c, S, b, ms)
        c.rule('C17.rm', 'stored metadata and chunks are discarded only for a file that is not mounted')
        for m in ms:
            A = S.an(m)
            for which, n, e in meta_places(A, S):
                if e.meth == 'remove':
                    c.check(S.status(A, e, n) is False, '%s.%s.rm' % (b, m), '%s of %s discards metadata of a file that may be mounted' % (m, b), A, e)
    c.rule('C17.data', c.rules['C17.data'])
    c.need(60, 'accesses to chunks')
    c.rule('C17.mounted', c.rules['C17.mounted'])
    c.need(8, 'accesses to mounted memories')
    c.rule('C17.kind', c.rules['C17.kind'])
    c.need(60, 'accesses to metadata')
    c.rule('C17.rm', c.rules['C17.rm'])
    c.need(4, 'removals')


def sides_apart(c, S, b, ms, only=None):
    """each place of metadata is used for mounted files only, or for files that are not mounted only"""
    sides = {}
    for m in ms:
        A = S.an(m)
        for which, n, e in meta_places(A, S):
            if e.meth == 'remove' or only and which[0] != only:
                continue
            st = S.status(A, e, n)
            c.ob()
            if st is None:
                c.viol('%s.%s.kind' % (b, m), '%s of %s uses a metadata place without knowing whether the file is mounted' % (m, b), A, e)
                continue
            sides.setdefault((which[0], which[1]), {}).setdefault(st, []).append((A, m, e))
    for w, d in sides.items():
        if len(d) == 2:
            st = min(d, key=lambda k: len(d[k]))
            A, m, e = d[st][0]
            c.viol('%s.%s.%s' % (b, m, w[0]), '%s of %s uses the same metadata place (%s) for a mounted and for an unmounted file' % (m, b, w[0]), A, e)
    for grp in {w[0] for w in sides}:
        pl = [(w, set(d)) for w, d in sides.items() if w[0] == grp]
        c.ob()
        if {frozenset(x) for _, x in pl} != {frozenset([True]), frozenset([False])}:
            c.viol('%s.%s' % (b, grp), '%s: mounted and unmounted files do not have metadata places of their own (%s: %r)' % (b, grp, [(w[1], sorted(x)) for w, x in pl]))


def nodes_of(A, S, e):
    """the file the storage method was called for"""
    p = [mk('init', a) for a, ty in zip(A.argnames, A.root['locals'][1:]) if S.P.types[ty].get('s') == 'u64']
    return set(p[:1])


def mounted_memory(A, S, e):
    """node of the mounted memory the event works on; None if it is another memory"""
    st = engine.State(dict(e.env), dict(e.facts))
    v = A.val(st, e.recv)
    for t in states(A, v) | {e.recv}:
        for x in [t] + [t.a[0]] * (t.op == 'fld'):
            if is_app(x, 'at', 'get') and started(A, x.a[1], S.MOUNTS):
                return x.a[2]
    return None


def meta_places(A, S):
    """((kind of place, which of the two), node, event) for every access to metadata of a file"""
    for i, p in enumerate(S.meta):
        for e in S.map_ev(A, p):
            if len(e.args) > 1:
                yield ('map', i), e.args[1], e
    for i, p in enumerate(S.mcache):
        for e in S.map_ev(A, p):
            if len(e.args) > 1:
                yield ('cache', i), e.args[1], e
    for e in S.map_ev(A, S.ptr):
        k = S.key_of(e)
        if k and S.metakey(k[1]):
            yield ('chunk', k[1]), k[0], e


# ------------------------------------------------------------------ C16
def iter_srcs(A, it):
    """ranges and vectors an iterator takes its elements from: ({range states}, {vector/other bases})"""
    rng, seen, work = set(), set(), [it]
    while work:
        x = work.pop()
        if x in seen or not isinstance(x, T):
            continue
        seen.add(x)
        if x.op == 'phi' and x in A.phi_in:
            work.extend(A.phi_in[x])
        elif x.op == 'upd' and x.a[0] in ('advance', 'pop', 'popped'):
            work.append(x.a[1])
        elif x.op == 'upd' and x.a[0] == 'push':
            work.append(x.a[1])
            # the element pushed comes from another iterator
            for y in subterms(x.a[2]):
                if is_app(y, 'next', 'next_back', 'cbel'):
                    work.append(y.a[1])
        elif is_app(x, 'iter_range', 'iter_keys_range', 'iter_values_range'):
            rng.add(x)
        elif x.op == 'app' and isinstance(x.a[0], str) and not x.a[0].startswith('mread'):
            if x.a[0] in ('iter', 'into_iter', 'itermut') or x.a[0].startswith('iter') or 'collect' in x.a[0] or 'from_iter' in x.a[0] or 'Iterator' in x.a[0] or x.a[0] in ('rev', 'peekable'):
                work.extend(y for y in x.a[1:] if isinstance(y, T))
    return rng


def elem_values(A, t, seen=None):
    """what the component t of an iterator's element can be, where the iterator runs over key ranges of one node or over vectors filled from such; None: unknown"""
    seen = set() if seen is None else seen
    path = []
    x = t
    while x.op == 'fld' and not (x.a[1] == 'Some.0' and is_app(x.a[0], 'next', 'next_back', 'pop')):
        path.append(x.a[1])
        x = x.a[0]
    if x.op != 'fld':
        return None
    path.reverse()
    out, work = set(), [x.a[0].a[1]]
    while work:
        y = work.pop()
        if (y, tuple(path)) in seen or not isinstance(y, T):
            continue
        seen.add((y, tuple(path)))
        if y.op == 'phi' and y in A.phi_in:
            work.extend(A.phi_in[y])
        elif y.op == 'upd' and y.a[0] in ('advance', 'pop', 'popped'):
            work.append(y.a[1])
        elif y.op == 'upd' and y.a[0] == 'push':
            work.append(y.a[1])
            v = y.a[2]
            for p in path:
                v = fld(v, p)
            r = elem_values(A, v, seen) if v.op == 'fld' else {v}
            if r is None:
                r = {v}
            out |= r
        elif is_app(y, 'iter_range', 'iter_keys_range'):
            if path != (['0'] if y.a[0] == 'iter_keys_range' else ['0', '0']):
                return None
            k = y.a[2]
            s, e = fld(k, 'start'), fld(k, 'end')
            n, n2 = fld(s, '0'), fld(e, '0')
            if n is not n2 and not (sub(n2, n) is ONE and fld(e, '1') is ZERO and not (k.op == 'agg' and 'Inclusive' in k.a[0])):
                return None
            out.add(n)
        elif is_app(y, 'vecnew'):
            pass
        elif y.op == 'app' and (y.a[0] in ('iter', 'into_iter', 'itermut', 'rev', 'peekable') or 'collect' in y.a[0] or 'from_iter' in y.a[0]):
            work.append(y.a[1])
        else:
            return None
    return out


def direct(A, it):
    return frozenset(vec_base(A, it))


def elem_next(A, t):
    """next() terms the value t is (part of) an element of"""
    out = set()
    for x in subterms(t):
        if is_app(x, 'next', 'next_back', 'pop'):
            out.add(x)
    return out


def drained(A, rng, acts):
    """every element of the range reaches one of the events `acts` (through vectors), no loop over them is left early.
    returns None if so, else (message, event)"""
    nexts = [e for e in A.events() if e.meth in ('next', 'next_back') and e.res is not None and e.cls != 'FnMut' and rng in iter_srcs(A, iterof(e))]
    if not nexts:
        return ('nothing iterates over the range', None)
    pushes = [e for e in A.events() if e.cls == 'Vec' and e.meth == 'push']
    for x in nexts:
        b = direct(A, iterof(x))
        same = {id(y) for y in nexts if direct(A, iterof(y)) & b}
        here = {id(e) for e in acts + pushes if x.res in elem_next(A, mkargs(e))}
        d = mk('disc', x.res)

        def some(a, n, d=d):
            for k, s in A.nodelist[n].ins.items():
                if k[0] == a and s.facts.get(d) != frozenset([0]):
                    return True
            return False
        evs, exits, _ = A.g.after(x, lambda e: id(e) in here, some)
        for e in evs:
            if id(e) in same:
                return ('an element of the range is skipped', e)
        if any('Ok' in variant(A, n) if resultlike(A) else True for n in exits):
            return ('an element of the range is left unprocessed', x)
    for a in acts + pushes:
        src = [x for x in nexts if x.res in elem_next(A, mkargs(a))]
        if not src:
            continue
        b = direct(A, iterof(src[0]))
        same = {id(y) for y in nexts if direct(A, iterof(y)) & b}
        _, exits, _ = A.g.after(a, lambda e: id(e) in same)
        if any('Ok' in variant(A, n) if resultlike(A) else True for n in exits):
            return ('the loop over the range is left before its end', a)
    return None


def resultlike(A):
    return A.P.tname(A.root['locals'][0]) == 'Result'


def mkargs(e):
    return mk('args', *[x for x in e.args[1:] if isinstance(x, T)])


def iterof(e):
    return e.res.a[1] if e.res.op == 'app' and len(e.res.a) > 1 else e.res


def ceil_div(s, cs):
    if s.op == 'int' and s.a[0] == 0:
        return INT(0)
    return app('div', sub(add(s, cs), INT(1)), cs)


def untrunc(t):
    while t.op == 'app' and (t.a[0] == 'trunc' or str(t.a[0]).startswith('cast')):
        t = t.a[1]
    return t


def md_stores(A, S, mounted=None):
    """(event, node, metadata) where metadata of a file is stored"""
    for which, n, e in meta_places(A, S):
        if e.meth == 'insert' and which[0] == 'map':
            yield e, n, e.args[2]
        elif e.meth == 'insert' and which[0] == 'cache':
            v, p = fld(e.args[2], '0', 'tuple'), fld(e.args[2], '1', 'tuple')
            if loaded(A, S, v):
                continue
            yield e, n, v


def loaded(A, S, v):
    """v is metadata just read from where it is stored"""
    if is_app(v, 'mread', 'at'):
        return True
    if v.op == 'fld' and is_app(v.a[0], 'get', 'at'):
        return True
    return False


def is_md_read(A, S, t):
    """t is metadata that was stored before (or the initial metadata of the root)"""
    for x in A.sources(t):
        if loaded(A, S, x) or x.op in ('agg', 'bot'):
            continue
        if x.op == 'fld' and any(is_app(y, 'get', 'at', 'mread') for y in subterms(x)):
            continue
        return False
    return True


def old_ge(A, S, f, s):
    """facts: size s is not below the stored size, or nothing is stored yet"""
    for t, v in f.items():
        if t.op == 'le0' and v in (frozenset([0]), frozenset([1])):
            # le0(L): L <= 0
            L = t.a[0]
            k, ps = lin_parts(L) if L.op == 'lin' else (None, [L])
            for x in ps:
                y = x.a[1] if x.op == 'mul' else x
                for z in [y]:
                    if z.op == 'fld' and z.a[1] == 'size' and is_md_read(A, S, z.a[0]) and holds(A, f, le(z, s)) is True:
                        return True
    return False


def no_old(A, S, f, node):
    for t, v in f.items():
        if t.op == 'disc' and v == frozenset([0]) and is_app(t.a[0], 'get') and (t.a[0].a[2] is node or fld(t.a[0].a[2], '0', 'tuple') is node):
            if any(started(A, t.a[0].a[1], S.term(p)) for p in S.meta):
                return True
    return False


def memo(pred):
    d = {}

    def p(f):
        k = id(f)
        if k not in d:
            d[k] = (pred(f), f)
        return d[k][0]
    return p


def c16(c):
    R = Roles(c)
    for b in BACK:
        S = St(c, R, b)
        CS = {S.v1: INT(4096)}
        if S.ptr:
            CS[S.ptr] = S.term(S.csize)
        for m in S.methods():
            A = S.an(m)
            stores = [x for x in md_stores(A, S) if S.status(A, x[0], x[1]) is not True]
            if not stores:
                continue
            for path, cs in CS.items():
                what = 'v1' if path == S.v1 else 'v2'
                c.rule('C16.drop', 'when a file gets smaller, every chunk above the new size (chunk number >= ceil(size / chunk size)) is removed; all of them, up to the last possible chunk')
                for e, n, md in stores:
                    s = fld(md, 'size', 'Metadata')
                    rngs = [r for r in list(S.map_ev(A, path, 'range', 'keys_range')) if is_cut(A, S, r, n, s, cs)]
                    ids = {id(r) for r in rngs}

                    def skip(f):
                        return old_ge(A, S, f, s) or no_old(A, S, f, n)
                    okk = not bypass(A, e, lambda x: id(x) in ids, skip, may_ok(A)) if resultlike(A) else True
                    c.check(okk, '%s.%s.%s.drop' % (b, m, what), '%s of %s can make a file smaller without removing its %s chunks above the new size' % (m, b, what), A, e)
                    for r in rngs:
                        acts = [x for x in S.map_ev(A, path, 'remove') if x.args[1] is not None and fld(x.args[1], '0', 'tuple') in (n, fld(x.args[1], '0', 'tuple'))]
                        bad = drained(A, r.res, acts)
                        c.check(bad is None, '%s.%s.%s.drain' % (b, m, what), '%s of %s: %s (removing %s chunks above the new size)' % (m, b, bad and bad[0], what), A, (bad and bad[1]) or r)
                c.rule('C16.tail', 'when a file gets smaller, the part of its last chunk above the new size is overwritten with zeros, unless the size is a multiple of the chunk size or the chunk does not exist')
                for e, n, md in stores:
                    s = fld(md, 'size', 'Metadata')
                    zs = {id(x) for x in zero_tail(A, S, path, n, s, cs)}

                    once = memo(lambda ph: started_by(A, ph, zs) and all(untrunc(y) is app('div', s, cs) for y in first_values(A, ph)))

                    def skip2(f):
                        return old_ge(A, S, f, s) or no_old(A, S, f, n) or is_mult(A, f, s, cs) or past_end(A, f, s, cs, once) or chunk_missing(A, S, path, f, n, s, cs)
                    okk = not bypass(A, e, lambda x: id(x) in zs, skip2, may_ok(A)) if resultlike(A) else True
                    c.check(okk, '%s.%s.%s.tail' % (b, m, what), '%s of %s can make a file smaller and leave old bytes above the new size in its last %s chunk' % (m, b, what), A, e)
    c.rule('C16.drop', c.rules['C16.drop'])
    c.need(20, 'stores of metadata')
    c.rule('C16.tail', c.rules['C16.tail'])
    c.need(10, 'stores of metadata')


def is_cut(A, S, r, n, s, cs):
    lo, hi = S.range_of(r)
    i, j = fld(lo, '1', 'tuple'), fld(hi, '1', 'tuple')
    return (fld(lo, '0', 'tuple') is n and untrunc(i) is ceil_div(s, cs) and
            ((fld(hi, '0', 'tuple') is n and j.op == 'int' and j.a[0] >= MAXC) or fld(hi, '0', 'tuple') is add(n, INT(1))))


def is_mult(A, f, s, cs):
    if s.op == 'int' and (s.a[0] == 0 or (cs.op == 'int' and s.a[0] % cs.a[0] == 0)):
        return True
    r = app('rem', s, cs)
    v = f.get(eq0(r))
    return holds(A, f, eq(r, INT(0))) is True or holds(A, f, le(r, INT(0))) is True


def last_chunk(A, i, s, cs):
    """i is the number of the chunk that holds byte s of the file (s not a multiple of the chunk size)"""
    i = add(i, INT(0))
    if untrunc(i) is app('div', s, cs):
        return True
    j = add(i, INT(1))
    return untrunc(j) is ceil_div(s, cs) or j is app('trunc', ceil_div(s, cs), INT(32)) or untr_lin(i) is sub(ceil_div(s, cs), INT(1))


def untr_lin(i):
    if i.op != 'lin':
        return untrunc(i)
    return substitute(i, {x: untrunc(x) for x in lin_parts(i)[1] if untrunc(x) is not x})


def chunk_missing(A, S, path, f, n, s, cs):
    for t, v in f.items():
        if t.op == 'disc' and v == frozenset([0]) and is_app(t.a[0], 'get'):
            k = t.a[0].a[2]
            if started(A, t.a[0].a[1], S.term(path)) and fld(k, '0', 'tuple') is n and last_chunk(A, fld(k, '1', 'tuple'), s, cs):
                return True
    return False


def is_zeros(v):
    """a block of zero bytes"""
    if is_app(v, 'sl'):
        return is_zeros(v.a[1])
    if v.op == 'static':
        return ZEROSTATIC.get(v.a[0], False)
    if is_app(v, 'filled'):
        return v.a[1].op == 'int' and v.a[1].a[0] == 0
    if v.op in ('repeat', 'fill'):
        return any(x is INT(0) or x == 0 for x in v.a)
    if v.op == 'bytes':
        return not any(v.a[0])
    return False


ZEROSTATIC = {'ZEROES': True}


def v1_writes(A, S):
    """(event, node, chunk number, from, to, bytes, bytes below) for every write into a v1 chunk"""
    for e in S.map_ev(A, S.v1, 'insert'):
        n, i = S.key_of(e)
        v = e.args[2]
        for x in A.sources(fld(v, 'bytes', 'FileChunk')):
            if x.op == 'upd' and x.a[0] == 'splice':
                yield e, n, i, x.a[2], x.a[3], x.a[4], x.a[1], v
            else:
                yield e, n, i, None, None, x, None, v
    for e in A.events():
        if e.cls == 'slice' and e.meth in ('copy_from_slice', 'clone_from_slice', 'fill') and e.recv is not None and e.recv.op == 'ref':
            loc, path = e.recv.a
            if loc != ('p', A.argnames[0]) or tuple(path[:len(S.v1)]) != S.v1:
                continue
            rest = path[len(S.v1):]
            k = [x for x in rest if x[0] == 'k']
            sl = [x for x in rest if x[0] == 'sl']
            if len(k) != 1:
                continue
            st = engine.State(dict(e.env), dict(e.facts))
            src = A.val(st, e.args[1]) if e.meth != 'fill' else app('filled', e.args[1], INT(0))
            yield e, fld(k[0][1], '0', 'tuple'), fld(k[0][1], '1', 'tuple'), sl[0][1] if sl else INT(0), sl[0][2] if sl else INT(4096), src, 'place', None


def closure_terms(A, t):
    """all terms t is computed from, through joins"""
    out, work = set(), [t]
    while work:
        x = work.pop()
        if x in out or not isinstance(x, T):
            continue
        out.add(x)
        if x.op == 'phi':
            work.extend(A.phi_in.get(x, ()))
        for y in x.a:
            if isinstance(y, T):
                work.append(y)
            elif type(y) is tuple:
                work.extend(z for z in flat(y) if isinstance(z, T))
    return out


def flat(y):
    for z in y:
        if type(z) is tuple:
            yield from flat(z)
        else:
            yield z


def zero_tail(A, S, path, n, s, cs):
    off = app('rem', s, cs)
    if path == S.v1:
        for (e, nd, i, lo, hi, src, below, v) in v1_writes(A, S):
            if nd is n and lo is off and hi is cs and is_zeros(src) and last_chunk(A, i, s, cs):
                yield e
    else:
        zw = []
        for e in S.mem_ev(A, S.mem, 'write'):
            st = engine.State(dict(e.env), dict(e.facts))
            v = A.val(st, e.args[2])
            if is_zeros(v) and 'data' in S.ptr_kinds(A, e.args[1]) and e.args[1].op == 'lin':
                if any(x is off for y in (e.args[1], v) for x in closure_terms(A, y)) and all_of_it(A, v, s, cs):
                    zw.append(e)
                    yield e
        # the write of zeros is a loop over the chunks from the one that holds the end of the file: looking that chunk up begins it
        for e in list(S.map_ev(A, S.pcache, 'get')) + list(S.map_ev(A, S.ptr, 'get', 'range')):
            k = S.key_of(e)
            if k and k[0] is n and all(last_chunk(A, i, s, cs) for i in first_values(A, k[1])):
                evs, _, _ = A.g.after(e)
                ids = {id(x) for x in zw}
                if any(id(x) in ids for x in evs):
                    yield e


def first_values(A, t, depth=0):
    """the values of a term when the loops it depends on are entered"""
    ph = [x for x in toplevel_phis(A, t)]
    if not ph or depth > 12:
        return {t}
    x = max(ph, key=lambda y: A.prio(A.nodelist[y.a[0]]))
    ins = A.phi_in[x]
    entry = [y for y in ins if x not in closure_terms(A, y)]
    out = set()
    for y in entry or ins:
        if y is not x:
            out |= first_values(A, substitute(t, {x: y}), depth + 1)
        if len(out) > 64:
            break
    return out


def rem_form(t, s, cs):
    """s - cs * (s / cs) written as the remainder"""
    d = lin_parts(t)[1]
    for x, k in d.items():
        q = None
        if is_app(x, 'mul') and k == -d.get(s, 0):
            a, b = x.a[1], x.a[2]
            q = b if a is cs else a if b is cs else None
        elif cs.op == 'int' and k == -d.get(s, 0) * cs.a[0]:
            q = x
        if q is not None and untrunc(q) is app('div', s, cs):
            return add(sub(t, scale(x, k)), sub(scale(app('rem', s, cs), d[s]), scale(s, d[s])))
    return t


def all_of_it(A, v, s, cs):
    """the block of bytes reaches from byte s of the file to the end of its chunk (in the first iteration of a loop over the chunks)"""
    if not is_app(v, 'sl'):
        return False
    for n in first_values(A, sub(v.a[3], v.a[2])):
        n = add(n, INT(0))
        for x in (n.a[1:] if is_app(n, 'min') else (n,)):
            x = rem_form(x, s, cs)
            if not nonneg(sub(x, sub(cs, app('rem', s, cs))), s, cs):
                return False
    return True


def started_by(A, ph, zs):
    """every further iteration of the loop that changes ph comes after one of the events"""
    nid = ph.a[0]
    n = A.nodelist[nid]
    if any(id(x) in zs for x in n.events):
        return True
    _, _, seen = A.g.forward(nid, len(n.events) + 1, lambda x: id(x) in zs)
    return nid not in seen


def past_end(A, f, s, cs, once=lambda ph: False):
    """impossible: the chunk of byte s lies behind the end of a range that ends at or behind byte s"""
    for t, v in f.items():
        if t.op != 'le0' or v not in (frozenset([0]), frozenset([1])):
            continue
        k, ps = lin_parts(t.a[0]) if t.a[0].op == 'lin' else (0, [t.a[0]])
        if len(ps) != 2:
            continue
        cur = [x for x in ps if untrunc(x) is app('div', s, cs) or x.op == 'phi' and x in A.phi_in and once(x)]
        end = [x for x in ps if x not in cur]
        if cur and len(end) == 1:
            for y in subterms(end[0]):
                if is_app(y, 'div') and y.a[2] is cs and y is not app('div', s, cs):
                    if holds(A, f, le(end[0], cur[0])) is True and nonneg(sub(y.a[1], s), s, cs):
                        return True
    return False


def nonneg(d, s, cs):
    """d >= 0, knowing rem(s, cs) <= cs"""
    d = add(d, INT(0))
    if d.op == 'int':
        return d.a[0] >= 0
    return d is sub(cs, app('rem', s, cs)) or is_app(d, 'len', 'rem', 'min')
